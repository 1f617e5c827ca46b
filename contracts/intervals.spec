package github.com/solarisdb/solaris/pkg/intervals

// total preorder given by the comparison function of the basis
macro total(b) = (forall x, y T :: { b.CmpF(x, y) } (b.CmpF(x, y) < 0 <==> b.CmpF(y, x) > 0) && (b.CmpF(x, y) == 0 <==> b.CmpF(y, x) == 0))
   && (forall x T :: { b.CmpF(x, x) } b.CmpF(x, x) == 0)
   && (forall x, y, z T :: { b.CmpF(x, y), b.CmpF(y, z) } (b.CmpF(x, y) <= 0 && b.CmpF(y, z) <= 0) ==> (b.CmpF(x, z) <= 0 && ((b.CmpF(x, y) < 0 || b.CmpF(y, z) < 0) ==> b.CmpF(x, z) < 0)))
macro memb(b, i, v) = (b.CmpF(i.L, v) < 0 || (i.LIn && b.CmpF(i.L, v) == 0)) && (b.CmpF(v, i.R) < 0 || (i.RIn && b.CmpF(v, i.R) == 0))
macro inBasis(b, v) = b.CmpF(b.Min, v) <= 0 && b.CmpF(v, b.Max) <= 0
macro wf(b, i) = b.CmpF(i.L, i.R) <= 0
macro wfIn(b, i) = wf(b, i) && b.CmpF(b.Min, i.L) <= 0 && b.CmpF(i.R, b.Max) <= 0

macro proper(b, i) = b.CmpF(i.L, i.R) < 0 || (b.CmpF(i.L, i.R) == 0 && i.LIn && i.RIn)

func NewBasis(min, max, cmpF) (r)
  prop P01 P07
  ensures @def r.Min == min && r.Max == max && r.CmpF == cmpF
func (b Basis[T]) Open(L, R) (r)
  prop P01
  requires b.CmpF != nil
  panics b.CmpF(L, R) > 0
  ensures @def r.L == L && r.R == R && !r.LIn && !r.RIn
func (b Basis[T]) OpenL(L, R) (r)
  prop P01
  requires b.CmpF != nil
  panics b.CmpF(L, R) >= 0
  ensures @def r.L == L && r.R == R && !r.LIn && r.RIn
func (b Basis[T]) OpenR(L, R) (r)
  prop P01
  requires b.CmpF != nil
  panics b.CmpF(L, R) >= 0
  ensures @def r.L == L && r.R == R && r.LIn && !r.RIn
func (b Basis[T]) Closed(L, R) (r)
  prop P01
  requires b.CmpF != nil
  panics b.CmpF(L, R) > 0
  ensures @def r.L == L && r.R == R && r.LIn && r.RIn

func (b Basis[T]) Negate(i) (r)
  prop P01
  requires b.CmpF != nil
  requires total(b)
  requires wfIn(b, i)
  ensures @len 1 <= len(r) && len(r) <= 2
  ensures @fresh fresh(r) && off(r) == 0
  ensures @complement forall v T :: inBasis(b, v) ==> (memb(b, i, v) <==> !(memb(b, r[0], v) || (len(r) == 2 && memb(b, r[1], v))))
  ensures @inside forall v T :: (memb(b, r[0], v) || (len(r) == 2 && memb(b, r[1], v))) ==> inBasis(b, v)
  ensures @wf wfIn(b, r[0]) && (len(r) == 2 ==> wfIn(b, r[1]))

func (b Basis[T]) Intersect(i1, i2) (r, ok)
  prop P01
  requires b.CmpF != nil
  requires total(b)
  requires wf(b, i1) && wf(b, i2)
  ensures @some ok ==> forall v T :: memb(b, r, v) <==> (memb(b, i1, v) && memb(b, i2, v))
  ensures @none !ok ==> forall v T :: !(memb(b, i1, v) && memb(b, i2, v))
  ensures @wf ok ==> wf(b, r)
  ensures @basis ok && wfIn(b, i1) && wfIn(b, i2) ==> wfIn(b, r)
  ensures @bounds ok ==> b.CmpF(i1.L, r.L) <= 0 && b.CmpF(r.R, i1.R) <= 0 && b.CmpF(i2.L, r.L) <= 0 && b.CmpF(r.R, i2.R) <= 0
  ensures @ends ok ==> (b.CmpF(i2.R, r.R) == 0 && r.RIn ==> i2.RIn) && (b.CmpF(i2.L, r.L) == 0 && r.LIn ==> i2.LIn)
  ensures @proper ok && proper(b, i1) && proper(b, i2) ==> proper(b, r)
  ensures @right ok && proper(b, i1) ==> b.CmpF(i1.L, r.R) < 0 || (b.CmpF(i1.L, r.R) == 0 && r.RIn)
  ensures @left ok && proper(b, i1) ==> b.CmpF(r.L, i1.R) < 0 || (b.CmpF(r.L, i1.R) == 0 && r.LIn)
  ensures @lo ok ==> (b.CmpF(i1.L, i2.L) < 0 ==> r.L == i2.L && r.LIn == i2.LIn) && (b.CmpF(i1.L, i2.L) > 0 ==> r.L == i1.L && r.LIn == i1.LIn) && (b.CmpF(i1.L, i2.L) == 0 ==> b.CmpF(r.L, i1.L) == 0 && b.CmpF(r.L, i2.L) == 0 && (r.LIn <==> i1.LIn && i2.LIn))
  ensures @hi ok ==> (b.CmpF(i1.R, i2.R) < 0 ==> r.R == i1.R && r.RIn == i1.RIn) && (b.CmpF(i1.R, i2.R) > 0 ==> r.R == i2.R && r.RIn == i2.RIn) && (b.CmpF(i1.R, i2.R) == 0 ==> b.CmpF(r.R, i1.R) == 0 && b.CmpF(r.R, i2.R) == 0 && (r.RIn <==> i1.RIn && i2.RIn))
  ensures @apart !ok ==> b.CmpF(i1.R, i2.L) < 0 || (b.CmpF(i1.R, i2.L) == 0 && !(i1.RIn && i2.LIn)) || b.CmpF(i2.R, i1.L) < 0 || (b.CmpF(i2.R, i1.L) == 0 && !(i2.RIn && i1.LIn))

func (b Basis[T]) Union(i1, i2) (r, ok)
  prop P01
  requires b.CmpF != nil
  requires total(b)
  requires wf(b, i1) && wf(b, i2)
  ensures @some ok ==> forall v T :: memb(b, r, v) <==> (memb(b, i1, v) || memb(b, i2, v))
  ensures @none !ok ==> forall v T :: !(memb(b, i1, v) && memb(b, i2, v))
  ensures @wf ok ==> wf(b, r)
  ensures @basis ok && wfIn(b, i1) && wfIn(b, i2) ==> wfIn(b, r)

func (b Basis[T]) Before(i1, i2) (r)
  prop P01
  requires b.CmpF != nil
  requires total(b)
  requires wf(b, i1) && wf(b, i2)
  ensures @sound r ==> forall v, w T :: memb(b, i1, v) && memb(b, i2, w) ==> b.CmpF(v, w) < 0
  ensures @def r <==> (b.CmpF(i1.R, i2.L) < 0 || (b.CmpF(i1.R, i2.L) == 0 && !(i1.RIn && i2.LIn)))
func (b Basis[T]) After(i1, i2) (r)
  prop P01
  requires b.CmpF != nil
  requires total(b)
  requires wf(b, i1) && wf(b, i2)
  ensures @sound r ==> forall v, w T :: memb(b, i1, v) && memb(b, i2, w) ==> b.CmpF(w, v) < 0
  ensures @def r <==> (b.CmpF(i2.R, i1.L) < 0 || (b.CmpF(i2.R, i1.L) == 0 && !(i2.RIn && i1.LIn)))
func (b Basis[T]) StartsBefore(i1, i2) (r)
  prop P01
  requires b.CmpF != nil
  ensures @def r <==> (b.CmpF(i1.L, i2.L) < 0 || (b.CmpF(i1.L, i2.L) == 0 && i1.LIn && !i2.LIn))
func (b Basis[T]) EndsAfter(i1, i2) (r)
  prop P01
  requires b.CmpF != nil
  ensures @def r <==> (b.CmpF(i1.R, i2.R) > 0 || (b.CmpF(i1.R, i2.R) == 0 && i1.RIn && !i2.RIn))
