package github.com/solarisdb/solaris/golibs/container

macro rbOK(r) = len(r.buf) >= 1 && 0 <= r.r && r.r < len(r.buf) && 0 <= r.w && r.w < len(r.buf) && off(r.buf) == 0
macro rbLen(r) = r.r <= r.w ? r.w - r.r : len(r.buf) - (r.r - r.w)
macro rbAt(r, i) = r.buf[r.r + i >= len(r.buf) ? r.r + i - len(r.buf) : r.r + i]

func NewRingBuffer(size) (r)
  prop P13
  requires size < pow2(40)
  ensures @wf r != nil && rbOK(r) && fresh(r)
  ensures @empty rbLen(r) == 0 && len(r.buf) == size + 1
func (r *ringBuffer[V]) Len() (n)
  prop P13
  requires rbOK(r)
  ensures @def n == rbLen(r) && 0 <= n && n < len(r.buf)
func (r *ringBuffer[V]) Cap() (n)
  prop P13
  requires rbOK(r)
  ensures @def n == len(r.buf) - 1
func (r *ringBuffer[V]) At(idx) (v)
  prop P13
  requires rbOK(r)
  panics idx < 0 || idx >= rbLen(r)
  ensures @in 0 <= idx && idx < rbLen(r)
  ensures @val v == rbAt(r, idx)
func (r *ringBuffer[V]) Write(v) (err)
  prop P13
  requires rbOK(r)
  modifies *r, elems(r.buf)
  ensures @wf rbOK(r) && r.buf == old(r.buf)
  ensures @full (err != nil) <==> old(rbLen(r)) == len(r.buf) - 1
  ensures @kind err != nil ==> iserr(err, errors.ErrExhausted)
  ensures @len rbLen(r) == old(rbLen(r)) + (err == nil ? 1 : 0)
  ensures @new err == nil ==> rbAt(r, rbLen(r) - 1) == v
  ensures @rest forall i int :: 0 <= i && i < old(rbLen(r)) ==> rbAt(r, i) == old(rbAt(r, i))
func (r *ringBuffer[V]) Read() (v, err)
  prop P13
  requires rbOK(r)
  modifies *r, elems(r.buf)
  ensures @wf rbOK(r) && r.buf == old(r.buf)
  ensures @empty (err != nil) <==> old(rbLen(r)) == 0
  ensures @kind err != nil ==> iserr(err, io.EOF)
  ensures @len rbLen(r) == old(rbLen(r)) - (err == nil ? 1 : 0)
  ensures @first err == nil ==> v == old(rbAt(r, 0))
  ensures @rest forall i int :: 0 <= i && i < rbLen(r) ==> rbAt(r, i) == old(rbAt(r, i + (err == nil ? 1 : 0)))
func (r *ringBuffer[V]) ReadN(dst) (n)
  prop P13
  opt unroll=2
  requires rbOK(r)
  requires ref(dst) != ref(r.buf)
  modifies *r, elems(r.buf), elems(dst)
  ensures @wf rbOK(r) && r.buf == old(r.buf)
  ensures @count n == min(len(dst), old(rbLen(r))) && rbLen(r) == old(rbLen(r)) - n
  ensures @out forall i int :: 0 <= i && i < n ==> dst[i] == old(rbAt(r, i))
  ensures @tail forall i int :: n <= i && i < len(dst) ==> dst[i] == old(dst[i])
  ensures @rest forall i int :: 0 <= i && i < rbLen(r) ==> rbAt(r, i) == old(rbAt(r, i + n))
func (r *ringBuffer[V]) Skip(n) (k)
  prop P13
  opt unroll=2
  requires rbOK(r)
  modifies *r, elems(r.buf)
  ensures @wf rbOK(r) && r.buf == old(r.buf)
  ensures @count k == max(0, min(n, old(rbLen(r)))) && rbLen(r) == old(rbLen(r)) - k
  ensures @rest forall i int :: 0 <= i && i < rbLen(r) ==> rbAt(r, i) == old(rbAt(r, i + k))
func (r *ringBuffer[V]) Clear()
  prop P13
  requires rbOK(r)
  modifies *r, elems(r.buf)
  ensures @wf rbOK(r) && r.buf == old(r.buf)
  ensures @empty rbLen(r) == 0

func IndexOf(slice, v) (r)
  prop P13
  inv [k int] forall i int :: { slice[i] } 0 <= i && i < k ==> slice[i] != v
  inv [k int] forall i int :: { slice[i] } 0 <= i && i <= k ==> slice[i] != v
  ensures @none r == -1 ==> forall i int :: 0 <= i && i < len(slice) ==> slice[i] != v
  ensures @first r != -1 ==> 0 <= r && r < len(slice) && slice[r] == v && forall i int :: 0 <= i && i < r ==> slice[i] != v
func IndexOfAny(slice, v, equalF) (r)
  prop P13
  requires equalF != nil
  inv [k int] forall i int :: { slice[i] } 0 <= i && i < k ==> !equalF(v, slice[i])
  inv [k int] forall i int :: { slice[i] } 0 <= i && i <= k ==> !equalF(v, slice[i])
  ensures @none r == -1 ==> forall i int :: 0 <= i && i < len(slice) ==> !equalF(v, slice[i])
  ensures @first r != -1 ==> 0 <= r && r < len(slice) && equalF(v, slice[r]) && forall i int :: 0 <= i && i < r ==> !equalF(v, slice[i])
func SliceRemoveIdx(slice, idx) (r)
  prop P13
  requires 0 <= idx && idx < len(slice)
  modifies elems(slice)
  ensures @where ref(r) == ref(slice) && off(r) == off(slice) && len(r) == len(slice) - 1
  ensures @moved idx < len(r) ==> r[idx] == old(slice[len(slice) - 1])
  ensures @rest forall i int :: 0 <= i && i < len(r) && i != idx ==> r[i] == old(slice[i])
func SliceReverse(slice) (r)
  prop P13
  modifies elems(slice)
  inv [x int, y int] x + y == len(slice) - 1
  inv [x int, y int] forall k int :: { slice[k] } 0 <= k && k < len(slice) && (k < x || k > y) ==> slice[k] == old(slice[len(slice) - 1 - k])
  inv [x int, y int] forall k int :: { slice[k] } x <= k && k <= y ==> slice[k] == old(slice[k])
  inv [x int] forall k int :: { slice[k] } 0 <= k && k < len(slice) && (k < x || k > len(slice) - 1 - x) ==> slice[k] == old(slice[len(slice) - 1 - k])
  inv [x int] forall k int :: { slice[k] } x <= k && k <= len(slice) - 1 - x ==> slice[k] == old(slice[k])
  ensures @same r == slice
  ensures @rev forall i int :: 0 <= i && i < len(slice) ==> slice[i] == old(slice[len(slice) - 1 - i])
func SliceCopy(v) (r)
  prop P13
  ensures @fresh fresh(r) && len(r) == len(v) && off(r) == 0
  ensures @same forall i int :: 0 <= i && i < len(v) ==> r[i] == v[i]
func SliceFill(s, v)
  prop P13
  modifies elems(s)
  inv [k int] forall i int :: { s[i] } 0 <= i && i < k && i < len(s) ==> s[i] == v
  inv [k int] forall i int :: { s[i] } 0 <= i && i <= k && i < len(s) ==> s[i] == v
  ensures @all forall i int :: 0 <= i && i < len(s) ==> s[i] == v
// set view of slices
macro inS(s, n, v) = exists i int :: 0 <= i && i < n && s[i] == v
func SliceExcludeOverlaps(s1, s2) (u1, u2)
  opt candfull=8s
  prop P13
  inv forall v V :: { v in m } v in m <==> inS(s1, #, v)
  inv forall v V :: { v in m } v in m ==> m[v]
  inv forall v V :: { v in m } v in m ==> (m[v] <==> !inS(s2, #, v))
  inv forall v V :: { v in m } v in m <==> inS(s1, len(s1), v)
  inv [u slice] forall j int :: { u[j] } 0 <= j && j < len(u) ==> !(u[j] in m)
  inv [u slice] forall j int :: { u[j] } 0 <= j && j < len(u) ==> inS(s2, len(s2), u[j])
  inv [u slice] forall i int :: { s2[i] } 0 <= i && i < # ==> (s2[i] in m) || inS(u, len(u), s2[i])
  inv [u slice] forall j int :: { u[j] } 0 <= j && j < len(u) ==> (u[j] in m) && m[u[j]] && (u[j] in visited)
  inv [u slice] forall v V :: { v in visited } v in visited && (v in m) && m[v] ==> inS(u, len(u), v)
  ensures @left forall v V :: inS(u1, len(u1), v) <==> (inS(s1, len(s1), v) && !inS(s2, len(s2), v))
  ensures @right forall v V :: inS(u2, len(u2), v) <==> (inS(s2, len(s2), v) && !inS(s1, len(s1), v))
func SliceExludeUniqueS2(s1, s2) (u1, c)
  opt candfull=15s
  prop P13
  inv forall v V :: { v in m } v in m <==> inS(s1, #, v)
  inv forall v V :: { v in m } v in m ==> m[v]
  inv forall v V :: { v in m } v in m <==> (inS(s1, len(s1), v) && !inS(s2, #, v))
  inv [u slice] forall j int :: { u[j] } 0 <= j && j < len(u) ==> inS(s1, len(s1), u[j]) && inS(s2, len(s2), u[j])
  inv [u slice] forall i int :: { s2[i] } 0 <= i && i < # ==> inS(s1, len(s1), s2[i]) ==> inS(u, len(u), s2[i])
  inv [u slice] forall j int :: { u[j] } 0 <= j && j < len(u) ==> (u[j] in m)
  inv [u slice] forall v V :: { v in visited } v in visited && (v in m) ==> inS(u, len(u), v)
  ensures @left forall v V :: inS(u1, len(u1), v) <==> (inS(s1, len(s1), v) && !inS(s2, len(s2), v))
  ensures @common forall v V :: inS(c, len(c), v) <==> (inS(s2, len(s2), v) && inS(s1, len(s1), v))
func CopyMap(m) (r)
  prop P13
  inv forall k K :: { k in res } k in res <==> k in visited
  inv forall k K :: { k in visited } k in visited ==> k in m
  inv forall k K :: { k in res } k in res ==> res[k] == m[k]
  ensures @nil m == nil ==> r == nil
  ensures @keys m != nil ==> r != nil && fresh(r) && forall k K :: k in r <==> k in m
  ensures @vals m != nil ==> forall k K :: k in m ==> r[k] == m[k]
func Keys(m) (r)
  prop P13
  inv [u slice] forall j int :: { u[j] } 0 <= j && j < len(u) ==> (u[j] in visited)
  inv [u slice] forall i, j int :: { u[i], u[j] } 0 <= i && i < j && j < len(u) ==> u[i] != u[j]
  ensures @once forall i, j int :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  inv [u slice] forall j int :: { u[j] } 0 <= j && j < len(u) ==> (u[j] in m)
  inv [u slice] forall v K :: { v in visited } v in visited && (v in m) ==> inS(u, len(u), v)
  ensures @all forall v K :: inS(r, len(r), v) <==> v in m
func Values(m) (r)
  prop P13
  inv [u slice] u != nil && fresh(u)
  inv [u slice] forall j int :: { u[j] } 0 <= j && j < len(u) ==> exists k K :: k in m && m[k] == u[j]
  inv [u slice] forall k K :: { k in visited } k in visited && (k in m) ==> inS(u, len(u), m[k])
  ensures @fresh r == nil || fresh(r)
  ensures @some forall j int :: { r[j] } 0 <= j && j < len(r) ==> exists k K :: k in m && m[k] == r[j]
  ensures @all forall k K :: { k in m } k in m ==> inS(r, len(r), m[k])
func GetFirst(m) (k, v, ok)
  prop P13
  ensures @has ok <==> len(m) > 0
  ensures @some ok ==> (k in m) && m[k] == v
