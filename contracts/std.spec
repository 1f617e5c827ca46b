package encoding/binary

func (o bigEndian) PutUint16(b, v)
  prop P11 P05 P06
  requires len(b) >= 2
  modifies elems(b[0:2])
  ensures b[0] == v / 256 && b[1] == v % 256
func (o bigEndian) Uint16(b) (r)
  prop P11 P05 P06
  requires len(b) >= 2
  ensures r == b[0] * 256 + b[1]
func (o bigEndian) PutUint32(b, v)
  prop P11 P05 P06
  requires len(b) >= 4
  modifies elems(b[0:4])
  ensures v == b[0] * pow2(24) + b[1] * pow2(16) + b[2] * 256 + b[3]
func (o bigEndian) Uint32(b) (r)
  prop P11 P05 P06
  requires len(b) >= 4
  ensures r == b[0] * pow2(24) + b[1] * pow2(16) + b[2] * 256 + b[3]
func (o bigEndian) PutUint64(b, v)
  prop P11 P05 P06
  requires len(b) >= 8
  modifies elems(b[0:8])
  ensures v == b[0] * pow2(56) + b[1] * pow2(48) + b[2] * pow2(40) + b[3] * pow2(32) + b[4] * pow2(24) + b[5] * pow2(16) + b[6] * 256 + b[7]
func (o bigEndian) Uint64(b) (r)
  prop P11 P05 P06
  requires len(b) >= 8
  ensures r == b[0] * pow2(56) + b[1] * pow2(48) + b[2] * pow2(40) + b[3] * pow2(32) + b[4] * pow2(24) + b[5] * pow2(16) + b[6] * 256 + b[7]

