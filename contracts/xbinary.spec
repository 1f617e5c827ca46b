package github.com/solarisdb/solaris/golibs/xbinary

// ---- dependencies
// the bytes handed to the writer so far
ghostvar wOut array int
ghostvar wLen Z
extern io.Writer.Write(w, p) (n, err)
  modifies ghost(wOut), ghost(wLen)
  ensures 0 <= n && n <= len(p)
  ensures wLen == old(wLen) + n
  ensures err == nil ==> n == len(p)
  ensures forall i Z :: { wOut[i] } old(wLen) <= i && i < wLen ==> wOut[i] == p[i - old(wLen)]
  ensures forall i Z :: { wOut[i] } i < old(wLen) ==> wOut[i] == old(wOut[i])

extern github.com/solarisdb/solaris/golibs/cast.StringToByteArray(v) (r)
  ensures fresh(r) && len(r) == len(v) && forall i int :: 0 <= i && i < len(v) ==> r[i] == v[i]
extern github.com/solarisdb/solaris/golibs/cast.ByteArrayToString(b) (r)
  ensures len(r) == len(b) && forall i int :: 0 <= i && i < len(b) ==> r[i] == b[i]

// number of bytes of the variable-size form of v
macro nb(v) = v < pow2(7) ? 1 : v < pow2(14) ? 2 : v < pow2(21) ? 3 : v < pow2(28) ? 4 : v < pow2(35) ? 5 : v < pow2(42) ? 6 : v < pow2(49) ? 7 : v < pow2(56) ? 8 : v < pow2(63) ? 9 : 10
// s[o..] starts with the variable-size form of v
macro enc(v, s, o) = (v < pow2(7) ==> s[o+0] < 128 && v == s[o+0] * pow2(0))
  && (pow2(7) <= v && v < pow2(14) ==> s[o+0] >= 128 && s[o+1] < 128 && v == (s[o+0] - 128) * pow2(0) + s[o+1] * pow2(7))
  && (pow2(14) <= v && v < pow2(21) ==> s[o+0] >= 128 && s[o+1] >= 128 && s[o+2] < 128 && v == (s[o+0] - 128) * pow2(0) + (s[o+1] - 128) * pow2(7) + s[o+2] * pow2(14))
  && (pow2(21) <= v && v < pow2(28) ==> s[o+0] >= 128 && s[o+1] >= 128 && s[o+2] >= 128 && s[o+3] < 128 && v == (s[o+0] - 128) * pow2(0) + (s[o+1] - 128) * pow2(7) + (s[o+2] - 128) * pow2(14) + s[o+3] * pow2(21))
  && (pow2(28) <= v && v < pow2(35) ==> s[o+0] >= 128 && s[o+1] >= 128 && s[o+2] >= 128 && s[o+3] >= 128 && s[o+4] < 128 && v == (s[o+0] - 128) * pow2(0) + (s[o+1] - 128) * pow2(7) + (s[o+2] - 128) * pow2(14) + (s[o+3] - 128) * pow2(21) + s[o+4] * pow2(28))
  && (pow2(35) <= v && v < pow2(42) ==> s[o+0] >= 128 && s[o+1] >= 128 && s[o+2] >= 128 && s[o+3] >= 128 && s[o+4] >= 128 && s[o+5] < 128 && v == (s[o+0] - 128) * pow2(0) + (s[o+1] - 128) * pow2(7) + (s[o+2] - 128) * pow2(14) + (s[o+3] - 128) * pow2(21) + (s[o+4] - 128) * pow2(28) + s[o+5] * pow2(35))
  && (pow2(42) <= v && v < pow2(49) ==> s[o+0] >= 128 && s[o+1] >= 128 && s[o+2] >= 128 && s[o+3] >= 128 && s[o+4] >= 128 && s[o+5] >= 128 && s[o+6] < 128 && v == (s[o+0] - 128) * pow2(0) + (s[o+1] - 128) * pow2(7) + (s[o+2] - 128) * pow2(14) + (s[o+3] - 128) * pow2(21) + (s[o+4] - 128) * pow2(28) + (s[o+5] - 128) * pow2(35) + s[o+6] * pow2(42))
  && (pow2(49) <= v && v < pow2(56) ==> s[o+0] >= 128 && s[o+1] >= 128 && s[o+2] >= 128 && s[o+3] >= 128 && s[o+4] >= 128 && s[o+5] >= 128 && s[o+6] >= 128 && s[o+7] < 128 && v == (s[o+0] - 128) * pow2(0) + (s[o+1] - 128) * pow2(7) + (s[o+2] - 128) * pow2(14) + (s[o+3] - 128) * pow2(21) + (s[o+4] - 128) * pow2(28) + (s[o+5] - 128) * pow2(35) + (s[o+6] - 128) * pow2(42) + s[o+7] * pow2(49))
  && (pow2(56) <= v && v < pow2(63) ==> s[o+0] >= 128 && s[o+1] >= 128 && s[o+2] >= 128 && s[o+3] >= 128 && s[o+4] >= 128 && s[o+5] >= 128 && s[o+6] >= 128 && s[o+7] >= 128 && s[o+8] < 128 && v == (s[o+0] - 128) * pow2(0) + (s[o+1] - 128) * pow2(7) + (s[o+2] - 128) * pow2(14) + (s[o+3] - 128) * pow2(21) + (s[o+4] - 128) * pow2(28) + (s[o+5] - 128) * pow2(35) + (s[o+6] - 128) * pow2(42) + (s[o+7] - 128) * pow2(49) + s[o+8] * pow2(56))
  && (pow2(63) <= v ==> s[o+0] >= 128 && s[o+1] >= 128 && s[o+2] >= 128 && s[o+3] >= 128 && s[o+4] >= 128 && s[o+5] >= 128 && s[o+6] >= 128 && s[o+7] >= 128 && s[o+8] >= 128 && s[o+9] == 1 && v == (s[o+0] - 128) * pow2(0) + (s[o+1] - 128) * pow2(7) + (s[o+2] - 128) * pow2(14) + (s[o+3] - 128) * pow2(21) + (s[o+4] - 128) * pow2(28) + (s[o+5] - 128) * pow2(35) + (s[o+6] - 128) * pow2(42) + (s[o+7] - 128) * pow2(49) + (s[o+8] - 128) * pow2(56) + s[o+9] * pow2(63))

func MarshalByte(v, buf) (n, err)
  prop P11
  modifies elems(buf)
  ensures @err (err != nil) <==> len(buf) < 1
  ensures @n n == (err == nil ? 1 : 0)
  ensures @bytes err == nil ==> buf[0] == v
  ensures @rest forall i int :: n <= i && i < len(buf) ==> buf[i] == old(buf[i])
func UnmarshalByte(buf) (n, v, err)
  prop P11
  ensures @err (err != nil) <==> len(buf) < 1
  ensures @n n == (err == nil ? 1 : 0)
  ensures @val err == nil ==> v == buf[0]
func MarshalUint16(v, buf) (n, err)
  prop P11
  modifies elems(buf)
  ensures @err (err != nil) <==> len(buf) < 2
  ensures @n n == (err == nil ? 2 : 0)
  ensures @bytes err == nil ==> v == buf[0] * 256 + buf[1]
  ensures @rest forall i int :: n <= i && i < len(buf) ==> buf[i] == old(buf[i])
func UnmarshalUint16(buf) (n, v, err)
  prop P11
  ensures @err (err != nil) <==> len(buf) < 2
  ensures @n n == (err == nil ? 2 : 0)
  ensures @val err == nil ==> v == buf[0] * 256 + buf[1]
func MarshalUint32(v, buf) (n, err)
  prop P11
  modifies elems(buf)
  ensures @err (err != nil) <==> len(buf) < 4
  ensures @n n == (err == nil ? 4 : 0)
  ensures @bytes err == nil ==> v == buf[0] * pow2(24) + buf[1] * pow2(16) + buf[2] * 256 + buf[3]
  ensures @rest forall i int :: n <= i && i < len(buf) ==> buf[i] == old(buf[i])
func UnmarshalUint32(buf) (n, v, err)
  prop P11
  ensures @err (err != nil) <==> len(buf) < 4
  ensures @n n == (err == nil ? 4 : 0)
  ensures @val err == nil ==> v == buf[0] * pow2(24) + buf[1] * pow2(16) + buf[2] * 256 + buf[3]
macro be64(b) = b[0] * pow2(56) + b[1] * pow2(48) + b[2] * pow2(40) + b[3] * pow2(32) + b[4] * pow2(24) + b[5] * pow2(16) + b[6] * 256 + b[7]
func MarshalUint64(v, buf) (n, err)
  prop P11
  modifies elems(buf)
  ensures @err (err != nil) <==> len(buf) < 8
  ensures @n n == (err == nil ? 8 : 0)
  ensures @bytes err == nil ==> v == be64(buf)
  ensures @rest forall i int :: n <= i && i < len(buf) ==> buf[i] == old(buf[i])
func UnmarshalUint64(buf) (n, v, err)
  prop P11
  ensures @err (err != nil) <==> len(buf) < 8
  ensures @n n == (err == nil ? 8 : 0)
  ensures @val err == nil ==> v == be64(buf)

func MarshalUint(v, buf) (n, err)
  prop P11
  opt unroll=10
  modifies elems(buf)
  ensures @err (err != nil) <==> len(buf) < nb(v)
  ensures @n n == (err == nil ? nb(v) : 0)
  ensures @bytes err == nil ==> enc(v, buf, 0)
  ensures @rest forall i int :: nb(v) <= i && i < len(buf) ==> buf[i] == old(buf[i])
func UnmarshalUint(buf) (n, v, err)
  prop P11
  opt peel=10
  inv [k int] forall i int :: { buf[i] } 0 <= i && i < k ==> buf[i] >= 128
  ensures @n err == nil ==> 1 <= n && n <= len(buf) && buf[n-1] < 128 && forall i int :: 0 <= i && i < n-1 ==> buf[i] >= 128
  ensures @err err != nil ==> n == 0 && forall i int :: 0 <= i && i < len(buf) ==> buf[i] >= 128
  ensures @inverse forall w uint :: nb(w) <= len(buf) && enc(w, buf, 0) ==> err == nil && n == nb(w) && v == w
func WritableUintSize(v) (r)
  prop P11
  ensures @size r == nb(v)

func MarshalBytes(v, buf) (n, err)
  prop P11
  requires ref(v) != ref(buf) || len(v) == 0 || len(buf) == 0
  modifies elems(buf)
  ensures @err (err != nil) <==> len(buf) < nb(len(v)) + len(v)
  ensures @n n == (err == nil ? nb(len(v)) + len(v) : 0)
  ensures @head err == nil ==> enc(len(v), buf, 0)
  ensures @body err == nil ==> forall i int :: { v[i] } 0 <= i && i < len(v) ==> buf[nb(len(v)) + i] == old(v[i])
  ensures @rest forall i int :: nb(len(v)) + len(v) <= i && i < len(buf) ==> buf[i] == old(buf[i])
func UnmarshalBytes(buf, newBuf) (n, r, err)
  prop P11
  ensures @inverse forall w uint :: nb(w) <= len(buf) && enc(w, buf, 0) && w <= len(buf) - nb(w) ==> err == nil && n == nb(w) + w && len(r) == w
      && forall i int :: 0 <= i && i < len(r) ==> r[i] == buf[nb(w) + i]
  ensures @short forall w uint :: nb(w) <= len(buf) && enc(w, buf, 0) && w > len(buf) - nb(w) ==> err != nil
  ensures @inside err == nil ==> 1 <= n && n <= len(buf) && len(r) < n && forall i int :: 0 <= i && i < len(r) ==> r[i] == buf[n - len(r) + i]
  ensures @own newBuf && err == nil ==> len(r) == 0 || fresh(r)
  ensures @errn err != nil ==> n == 0
func WritebleBytesSize(buf) (r)
  prop P11
  ensures @size r == nb(len(buf)) + len(buf)
func MarshalString(v, buf) (n, err)
  prop P11
  modifies elems(buf)
  ensures @err (err != nil) <==> len(buf) < nb(len(v)) + len(v)
  ensures @n n == (err == nil ? nb(len(v)) + len(v) : 0)
  ensures @head err == nil ==> enc(len(v), buf, 0)
  ensures @body err == nil ==> forall i int :: { v[i] } 0 <= i && i < len(v) ==> buf[nb(len(v)) + i] == v[i]
  ensures @rest forall i int :: nb(len(v)) + len(v) <= i && i < len(buf) ==> buf[i] == old(buf[i])
func UnmarshalString(buf, newBuf) (n, r, err)
  prop P11
  ensures @inverse forall w uint :: nb(w) <= len(buf) && enc(w, buf, 0) && w <= len(buf) - nb(w) ==> err == nil && n == nb(w) + w && len(r) == w
      && forall i int :: 0 <= i && i < len(r) ==> r[i] == buf[nb(w) + i]
  ensures @short forall w uint :: nb(w) <= len(buf) && enc(w, buf, 0) && w > len(buf) - nb(w) ==> err != nil
  ensures @inside err == nil ==> 1 <= n && n <= len(buf) && len(r) < n && forall i int :: 0 <= i && i < len(r) ==> r[i] == buf[n - len(r) + i]
  ensures @errn err != nil ==> n == 0
func WritableStringSize(v) (r)
  prop P11
  ensures @size r == nb(len(v)) + len(v)

macro sent(n, err) = 0 <= n && wLen == old(wLen) + n && forall i Z :: { wOut[i] } i < old(wLen) ==> wOut[i] == old(wOut[i])
func (ow *ObjectsWriter) WriteByte(v) (n, err)
  prop P11
  requires ow.Writer != nil
  modifies ow.buf, ghost(wOut), ghost(wLen)
  ensures @sent sent(n, err)
  ensures @bytes err == nil ==> n == 1 && wOut[old(wLen)] == v
func (ow *ObjectsWriter) WriteUint16(v) (n, err)
  prop P11
  requires ow.Writer != nil
  modifies ow.buf, ghost(wOut), ghost(wLen)
  ensures @sent sent(n, err)
  ensures @bytes err == nil ==> n == 2 && v == wOut[old(wLen)] * 256 + wOut[old(wLen)+1]
func (ow *ObjectsWriter) WriteUint32(v) (n, err)
  prop P11
  requires ow.Writer != nil
  modifies ow.buf, ghost(wOut), ghost(wLen)
  ensures @sent sent(n, err)
  ensures @bytes err == nil ==> n == 4 && v == wOut[old(wLen)] * pow2(24) + wOut[old(wLen)+1] * pow2(16) + wOut[old(wLen)+2] * 256 + wOut[old(wLen)+3]
func (ow *ObjectsWriter) WriteUint64(v) (n, err)
  prop P11
  requires ow.Writer != nil
  modifies ow.buf, ghost(wOut), ghost(wLen)
  ensures @sent sent(n, err)
  ensures @bytes err == nil ==> n == 8 && v == wOut[old(wLen)] * pow2(56) + wOut[old(wLen)+1] * pow2(48) + wOut[old(wLen)+2] * pow2(40) + wOut[old(wLen)+3] * pow2(32) + wOut[old(wLen)+4] * pow2(24) + wOut[old(wLen)+5] * pow2(16) + wOut[old(wLen)+6] * 256 + wOut[old(wLen)+7]
func (ow *ObjectsWriter) WriteUint(v) (n, err)
  prop P11
  requires ow.Writer != nil
  modifies ow.buf, ghost(wOut), ghost(wLen)
  ensures @sent sent(n, err)
  ensures @bytes err == nil ==> n == nb(v) && enc(v, wOut, old(wLen))
func (ow *ObjectsWriter) WritePureBytes(v) (n, err)
  prop P11
  requires ow.Writer != nil
  modifies ghost(wOut), ghost(wLen)
  ensures @sent sent(n, err)
  ensures @bytes err == nil ==> n == len(v) && forall i int :: 0 <= i && i < len(v) ==> wOut[old(wLen) + i] == v[i]
func (ow *ObjectsWriter) WritePureString(v) (n, err)
  prop P11
  requires ow.Writer != nil
  modifies ghost(wOut), ghost(wLen)
  ensures @sent sent(n, err)
  ensures @bytes err == nil ==> n == len(v) && forall i int :: 0 <= i && i < len(v) ==> wOut[old(wLen) + i] == v[i]
func (ow *ObjectsWriter) WriteBytes(v) (n, err)
  prop P11
  requires ow.Writer != nil
  modifies ow.buf, ghost(wOut), ghost(wLen)
  ensures @sent sent(n, err)
  ensures @head err == nil ==> n == nb(len(v)) + len(v) && enc(len(v), wOut, old(wLen))
  ensures @body err == nil ==> forall i int :: { v[i] } 0 <= i && i < len(v) ==> wOut[old(wLen) + nb(len(v)) + i] == v[i]
func (ow *ObjectsWriter) WriteString(v) (n, err)
  prop P11
  requires ow.Writer != nil
  modifies ow.buf, ghost(wOut), ghost(wLen)
  ensures @sent sent(n, err)
  ensures @head err == nil ==> n == nb(len(v)) + len(v) && enc(len(v), wOut, old(wLen))
  ensures @body err == nil ==> forall i int :: { v[i] } 0 <= i && i < len(v) ==> wOut[old(wLen) + nb(len(v)) + i] == v[i]
