package github.com/solarisdb/solaris/golibs/ulidutils

// a ULID is the 128-bit big-endian number of its 16 bytes; its text is canonical
macro u128(a) = ((((((((((((((((a[0])*256 + a[1])*256 + a[2])*256 + a[3])*256 + a[4])*256 + a[5])*256 + a[6])*256 + a[7])*256 + a[8])*256 + a[9])*256 + a[10])*256 + a[11])*256 + a[12])*256 + a[13])*256 + a[14])*256 + a[15])
uf ulidOK(string) bool
uf ulidVal(string) Z
uf ulidText(Z) string

// the number of an identifier and its first 48 bits, kept abstract where only the order matters
macro ms48(a) = ((((((a[0])*256 + a[1])*256 + a[2])*256 + a[3])*256 + a[4])*256 + a[5])
uf uid(ulid.ULID) Z
uf ums(ulid.ULID) Z
axiom uidDef(a ulid.ULID) uid(a) == u128(a)
axiom umsDef(a ulid.ULID) ums(a) == ms48(a)
lemma uidZero()
  uses uidDef
  ensures uid(ZeroULID) == 0
lemma uidSplit(a ulid.ULID)
  uses uidDef umsDef
  trigger uid(a)
  ensures 0 <= ums(a) && ums(a) < pow2(48) && ums(a) * pow2(80) <= uid(a) && uid(a) < (ums(a) + 1) * pow2(80)

extern github.com/oklog/ulid/v2.Parse(s) (id, err)
  ensures (err == nil) <==> ulidOK(s)
  ensures ulidOK(s) ==> u128(id) == ulidVal(s)
extern github.com/oklog/ulid/v2.MustParse(s) (id)
  panics !ulidOK(s)
  ensures u128(id) == ulidVal(s)
extern github.com/oklog/ulid/v2.ParseStrict(s) (id, err)
  ensures err == nil ==> u128(id) == ulidVal(s)
extern github.com/oklog/ulid/v2.ULID.String(id) (r)
  ensures r == ulidText(u128(id))
extern github.com/oklog/ulid/v2.ULID.Compare(id, o) (r)
  ensures r == (uid(id) < uid(o) ? -1 : uid(id) == uid(o) ? 0 : 1)

func NextID(ulidID) (r)
  prop P08
  panics !ulidOK(ulidID)
  ensures @refuse ulidOK(ulidID)
  ensures @succ r == ulidText(ulidVal(ulidID) == pow2(128) - 1 ? 0 : ulidVal(ulidID) + 1)
func PrevID(ulidID) (r)
  prop P08
  panics !ulidOK(ulidID)
  ensures @refuse ulidOK(ulidID)
  ensures @pred r == ulidText(ulidVal(ulidID) == 0 ? pow2(128) - 1 : ulidVal(ulidID) - 1)
