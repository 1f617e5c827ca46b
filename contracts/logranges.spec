package github.com/oklog/ulid/v2

// the identifier is its creation time in milliseconds (48 bits) followed by 80 random bits
func (id ULID) Time() (r)
  prop P07
  uses umsDef
  ensures @def r == ums(id)
func (id *ULID) SetTime(ms) (err)
  prop P07
  uses umsDef
  modifies *id
  ensures @ok ms < pow2(48) ==> err == nil && ms48((*id)) == ms
  ensures @rest (*id)[6] == old((*id)[6]) && (*id)[7] == old((*id)[7]) && (*id)[8] == old((*id)[8]) && (*id)[9] == old((*id)[9]) && (*id)[10] == old((*id)[10]) && (*id)[11] == old((*id)[11]) && (*id)[12] == old((*id)[12]) && (*id)[13] == old((*id)[13]) && (*id)[14] == old((*id)[14]) && (*id)[15] == old((*id)[15])
  ensures @big ms >= pow2(48) ==> err != nil && *id == old(*id)
func (id *ULID) SetEntropy(e) (err)
  prop P07
  modifies *id
  ensures @ok len(e) == 10 ==> err == nil && (*id)[6] == old(e[0]) && (*id)[7] == old(e[1]) && (*id)[8] == old(e[2]) && (*id)[9] == old(e[3]) && (*id)[10] == old(e[4]) && (*id)[11] == old(e[5]) && (*id)[12] == old(e[6]) && (*id)[13] == old(e[7]) && (*id)[14] == old(e[8]) && (*id)[15] == old(e[9])
  ensures @rest (*id)[0] == old((*id)[0]) && (*id)[1] == old((*id)[1]) && (*id)[2] == old((*id)[2]) && (*id)[3] == old((*id)[3]) && (*id)[4] == old((*id)[4]) && (*id)[5] == old((*id)[5])
func Time(ms) (r)
  prop P07
  ensures @def ms < pow2(60) ==> nanos(r) == ms * 1000000

package github.com/solarisdb/solaris/pkg/storage/logfs
uf nanos(time.Time) Z
// true of every identifier; names the identifiers for which membership is asked
uf isid(ulid.ULID) bool
axiom isidAll(a ulid.ULID) isid(a)

// first and last whole millisecond of an interval
macro firstMs(i) = (i.LIn && nanos(i.L) % 1000000 == 0) ? nanos(i.L) / 1000000 : nanos(i.L) / 1000000 + 1
macro lastMs(i) = (!i.RIn && nanos(i.R) % 1000000 == 0) ? nanos(i.R) / 1000000 - 1 : nanos(i.R) / 1000000
macro rin(r, id) = uid(r.start) <= uid(id) && uid(id) <= uid(r.end)

func minULIDForTime(t) (r)
  prop P07
  uses uidDef
  requires 0 <= nanos(t) && nanos(t) < pow2(48) * 1000000
  ensures @def uid(r) == (nanos(t) / 1000000) * pow2(80)
func maxULIDForTime(t) (r)
  prop P07
  uses uidDef
  inv [u anyslice, x int] forall k int :: { u[k] } 0 <= k && k < x && k < len(u) ==> u[k] == 255
  requires 0 <= nanos(t) && nanos(t) < pow2(48) * 1000000
  ensures @def uid(r) == (nanos(t) / 1000000 + 1) * pow2(80) - 1
func toRange(ti) (r)
  prop P07
  requires 0 <= nanos(ti.L) && nanos(ti.L) < pow2(48) * 1000000 && 0 <= nanos(ti.R) && nanos(ti.R) < pow2(48) * 1000000
  requires firstMs(ti) < pow2(48) && 0 <= lastMs(ti)
  ensures @start uid(r.start) == firstMs(ti) * pow2(80)
  ensures @end uid(r.end) == (lastMs(ti) + 1) * pow2(80) - 1

// chunk bounds, and intervals on the time axis
macro okCi(ci) = uid(ci.Min) <= uid(ci.Max)
macro okTi(i) = wf(tiBasis, i)
macro ordered(rs) = forall j, k int :: { rs[j], rs[k] } 0 <= j && j < k && k < len(rs) ==> uid(rs[j].end) < uid(rs[k].start)
macro tight(rs) = forall j int :: { rs[j] } 0 <= j && j < len(rs) ==> uid(rs[j].start) <= uid(rs[j].end) + 1

// the whole millisecond m belongs to the interval
macro onMs(i, m) = (nanos(i.L) < m * 1000000 || (i.LIn && nanos(i.L) == m * 1000000)) && (m * 1000000 < nanos(i.R) || (i.RIn && nanos(i.R) == m * 1000000))

func getRanges(tis, ci) (r)
  prop P07
  uses uidZero uidSplit
  requires okCi(ci)
  requires forall i int :: { tis[i] } 0 <= i && i < len(tis) ==> proper(tiBasis, tis[i])
  requires forall i, j int :: { tis[i], tis[j] } 0 <= i && i < j && j < len(tis) ==> tiBasis.CmpF(tis[i].R, tis[j].L) < 0 || (tiBasis.CmpF(tis[i].R, tis[j].L) == 0 && !(tis[i].RIn && tis[j].LIn))
  inv [u slice] ordered(u)
  inv [u slice] tight(u)
  inv [u slice] len(u) <= #
  inv [u slice] forall j, i int :: { u[j], tis[i] } 0 <= j && j < len(u) && # <= i && i < len(tis) ==> uid(u[j].end) < firstMs(tis[i]) * pow2(80)
  inv [u slice] # > 0 ==> forall id ulid.ULID :: { isid(id) } isid(id) && ums(ci.Min) <= ums(id) && ums(id) <= ums(ci.Max) && onMs(tis[#-1], ums(id)) ==> len(u) > 0 && rin(u[len(u)-1], id)
  inv [u slice] forall id ulid.ULID, i int :: { isid(id), tis[i] } isid(id) && ums(ci.Min) <= ums(id) && ums(id) <= ums(ci.Max) && 0 <= i && i < # - 1 && onMs(tis[i], ums(id)) ==> exists j int :: { u[j] } 0 <= j && j < len(u) && rin(u[j], id)
  inv [u slice] forall id ulid.ULID, j int :: { isid(id), u[j] } isid(id) && 0 <= j && j < len(u) && rin(u[j], id) ==> (ums(ci.Min) <= ums(id) && ums(id) <= ums(ci.Max)) && ((# > 0 && onMs(tis[#-1], ums(id))) || exists i int :: { tis[i] } 0 <= i && i < # && onMs(tis[i], ums(id)))
  ensures @all forall id ulid.ULID, i int :: { isid(id), tis[i] } isid(id) && ums(ci.Min) <= ums(id) && ums(id) <= ums(ci.Max) && 0 <= i && i < len(tis) && onMs(tis[i], ums(id)) ==> exists j int :: { r[j] } 0 <= j && j < len(r) && rin(r[j], id)
  ensures @only forall id ulid.ULID, j int :: { isid(id), r[j] } isid(id) && 0 <= j && j < len(r) && rin(r[j], id) ==> ums(ci.Min) <= ums(id) && ums(id) <= ums(ci.Max) && exists i int :: { tis[i] } 0 <= i && i < len(tis) && onMs(tis[i], ums(id))
  ensures @ordered ordered(r)
  ensures @tight tight(r)
  ensures @len len(r) <= len(tis)

func reverseRanges(irs) (r)
  prop P07
  inv [l int, r int] l + r == len(irs) - 1 && 0 <= l && l <= r + 1
  inv [l int] forall j int :: { irs[j] } 0 <= j && j < l ==> same(irs[j].start, old(irs[len(irs)-1-j]).end) && same(irs[j].end, old(irs[len(irs)-1-j]).start)
  inv [l int] forall j int :: { irs[j] } len(irs) - l <= j && j < len(irs) ==> same(irs[j].start, old(irs[len(irs)-1-j]).end) && same(irs[j].end, old(irs[len(irs)-1-j]).start)
  inv [l int] forall j int :: { irs[j] } l <= j && j < len(irs) - l ==> same(irs[j], old(irs[j]))
  modifies elems(irs)
  ensures @same r == irs
  ensures @rev2 forall j int :: { old(irs[j]) } 0 <= j && j < len(r) ==> same(r[len(irs)-1-j].start, old(irs[j]).end) && same(r[len(irs)-1-j].end, old(irs[j]).start)
  ensures @rev forall j int :: { r[j] } 0 <= j && j < len(r) ==> same(r[j].start, old(irs[len(irs)-1-j]).end) && same(r[j].end, old(irs[len(irs)-1-j]).start)

func considerSIDAndDesc(irs, sid, desc) (r)
  prop P07
  uses uidZero uidSplit
  requires ordered(irs) && tight(irs)
  modifies elems(irs)
  ensures @none len(irs) == 0 ==> len(r) == 1 && r[0].start == sid && uid(r[0].end) == 0
  ensures @len len(irs) > 0 ==> len(r) <= len(irs)
  ensures @zero uid(sid) == 0 && len(irs) > 0 ==> len(r) == len(irs)
  // ascending: the ranges from the first that reaches sid, cut at sid
  inv !desc ==> forall k int :: { old(irs[k]) } 0 <= k && k < # && k < len(irs) ==> uid(old(irs[k]).end) < uid(sid)
  inv desc ==> forall k int :: { old(irs[k]) } len(irs) - # <= k && 0 <= k && k < len(irs) ==> uid(old(irs[k]).start) > uid(sid)
  ensures @ascFrom len(irs) > 0 && !desc && uid(sid) != 0 ==> forall j int :: { old(irs[j]) } 0 <= j && j < len(irs) - len(r) ==> uid(old(irs[j]).end) < uid(sid)
  ensures @ascEnd len(irs) > 0 && !desc ==> forall j int :: { r[j] } 0 <= j && j < len(r) ==> r[j].end == old(irs[len(irs)-len(r)+j]).end
  ensures @ascStart len(irs) > 0 && !desc ==> forall j int :: { r[j] } 0 <= j && j < len(r) ==> uid(r[j].start) == (uid(sid) != 0 && uid(sid) > uid(old(irs[len(irs)-len(r)+j]).start) ? uid(sid) : uid(old(irs[len(irs)-len(r)+j]).start))
  // descending: the ranges reversed, from the first that reaches sid, cut at sid
  ensures @descFrom len(irs) > 0 && desc && uid(sid) != 0 ==> forall j int :: { old(irs[j]) } len(r) <= j && j < len(irs) ==> uid(old(irs[j]).start) > uid(sid)
  ensures @descEnd len(irs) > 0 && desc ==> forall j int :: { r[j] } 0 <= j && j < len(r) ==> r[j].end == old(irs[len(r)-1-j]).start
  ensures @descStart len(irs) > 0 && desc ==> forall j int :: { r[j] } 0 <= j && j < len(r) ==> uid(r[j].start) == (uid(sid) != 0 && uid(sid) < uid(old(irs[len(r)-1-j]).end) ? uid(sid) : uid(old(irs[len(r)-1-j]).end))
