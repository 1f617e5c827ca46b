package xbinary

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// Search for a value or a buffer on which the encoders and decoders break their contracts.
func TestVerifP11(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed + 11))
	fail := func(f string, a ...any) { t.Helper(); t.Fatalf("COUNTEREXAMPLE: "+f, a...) }
	guard := func(what string, f func()) {
		defer func() {
			if e := recover(); e != nil {
				fail("%s panics: %v", what, e)
			}
		}()
		f()
	}
	// codec under test: encodes v into buf
	type codec struct {
		name string
		size func() int
		enc  func(buf []byte) (int, error)
		dec  func(buf []byte, nb bool) (int, bool, error)
		wr   func(w *ObjectsWriter) (int, error)
	}
	check := func(c codec) {
		sz := c.size()
		for _, extra := range []int{0, 1, 3} {
			buf := bytes.Repeat([]byte{0xA5}, sz+extra)
			guard(c.name, func() {
				n, err := c.enc(buf[:])
				if err != nil || n != sz {
					fail("%s into %d bytes: n=%d err=%v, want n=%d", c.name, len(buf), n, err, sz)
				}
				for i := sz; i < len(buf); i++ {
					if buf[i] != 0xA5 {
						fail("%s wrote beyond its %d bytes", c.name, sz)
					}
				}
				for _, nb := range []bool{false, true} {
					n, ok, err := c.dec(buf, nb)
					if err != nil || n != sz || !ok {
						fail("%s: decoding gives n=%d same=%v err=%v, want n=%d", c.name, n, ok, err, sz)
					}
				}
				var w bytes.Buffer
				ow := &ObjectsWriter{Writer: &w}
				if n, err := c.wr(ow); err != nil || n != sz || !bytes.Equal(w.Bytes(), buf[:sz]) {
					fail("%s: ObjectsWriter wrote n=%d err=%v % x, want % x", c.name, n, err, w.Bytes(), buf[:sz])
				}
			})
		}
		for l := 0; l < sz; l++ {
			if l > 12 && l < sz-2 {
				continue
			}
			full := make([]byte, sz)
			guard(c.name, func() { c.enc(full) })
			guard(fmt.Sprintf("%s into %d bytes", c.name, l), func() {
				big := bytes.Repeat([]byte{0x5A}, sz+8)
				if n, err := c.enc(big[:l:l]); err == nil {
					fail("%s into a buffer of %d bytes succeeds with n=%d", c.name, l, n)
				}
				if n, err := c.enc(big[:l]); err == nil {
					fail("%s into a buffer of %d bytes (larger capacity) succeeds with n=%d", c.name, l, n)
				}
				for i := l; i < len(big); i++ {
					if big[i] != 0x5A {
						fail("%s into %d bytes writes outside the buffer", c.name, l)
					}
				}
			})
			guard(fmt.Sprintf("%s decoding %d of %d bytes", c.name, l, sz), func() {
				for _, nb := range []bool{false, true} {
					if _, _, err := c.dec(full[:l:l], nb); err == nil {
						fail("%s: decoding only %d of %d bytes succeeds", c.name, l, sz)
					}
					if _, _, err := c.dec(full[:l], nb); err == nil {
						fail("%s: decoding only %d of %d bytes (larger capacity) succeeds", c.name, l, sz)
					}
				}
			})
		}
	}
	fixed := func(sz int) func() int { return func() int { return sz } }
	ints := func(v uint64) {
		check(codec{fmt.Sprintf("byte %d", byte(v)), fixed(1), func(b []byte) (int, error) { return MarshalByte(byte(v), b) },
			func(b []byte, _ bool) (int, bool, error) { n, x, e := UnmarshalByte(b); return n, x == byte(v), e },
			func(w *ObjectsWriter) (int, error) { return w.WriteByte(byte(v)) }})
		check(codec{fmt.Sprintf("uint16 %d", uint16(v)), fixed(2), func(b []byte) (int, error) { return MarshalUint16(uint16(v), b) },
			func(b []byte, _ bool) (int, bool, error) { n, x, e := UnmarshalUint16(b); return n, x == uint16(v), e },
			func(w *ObjectsWriter) (int, error) { return w.WriteUint16(uint16(v)) }})
		check(codec{fmt.Sprintf("uint32 %d", uint32(v)), fixed(4), func(b []byte) (int, error) { return MarshalUint32(uint32(v), b) },
			func(b []byte, _ bool) (int, bool, error) { n, x, e := UnmarshalUint32(b); return n, x == uint32(v), e },
			func(w *ObjectsWriter) (int, error) { return w.WriteUint32(uint32(v)) }})
		check(codec{fmt.Sprintf("uint64 %d", v), fixed(8), func(b []byte) (int, error) { return MarshalUint64(v, b) },
			func(b []byte, _ bool) (int, bool, error) { n, x, e := UnmarshalUint64(b); return n, x == v, e },
			func(w *ObjectsWriter) (int, error) { return w.WriteUint64(v) }})
		check(codec{fmt.Sprintf("uint %d", v), func() int { return WritableUintSize(v) }, func(b []byte) (int, error) { return MarshalUint(uint(v), b) },
			func(b []byte, _ bool) (int, bool, error) { n, x, e := UnmarshalUint(b); return n, x == uint(v), e },
			func(w *ObjectsWriter) (int, error) { return w.WriteUint(uint(v)) }})
	}
	for k := 0; k < 64; k++ {
		for d := -2; d <= 2; d++ {
			ints(uint64(1)<<k + uint64(d))
		}
	}
	for i := 0; i < 500; i++ {
		ints(rnd.Uint64() >> rnd.Intn(64))
	}
	lens := []int{0, 1, 2, 5, 126, 127, 128, 129, 255, 256, 300, 16382, 16383, 16384, 16385, 70000}
	for i := 0; i < 20; i++ {
		lens = append(lens, rnd.Intn(700))
	}
	for _, l := range lens {
		p := make([]byte, l)
		rnd.Read(p)
		s := string(p)
		check(codec{fmt.Sprintf("bytes of length %d", l), func() int { return WritebleBytesSize(p) }, func(b []byte) (int, error) { return MarshalBytes(p, b) },
			func(b []byte, nb bool) (int, bool, error) {
				n, x, e := UnmarshalBytes(b, nb)
				if e == nil && nb && len(x) > 0 && len(b) > 0 {
					old := b[n-1]
					b[n-1] ^= 0xff
					same := bytes.Equal(x, p)
					b[n-1] = old
					if !same {
						fail("UnmarshalBytes(newBuf=true) returns a slice sharing the input of length %d", len(b))
					}
				}
				return n, bytes.Equal(x, p), e
			},
			func(w *ObjectsWriter) (int, error) { return w.WriteBytes(p) }})
		check(codec{fmt.Sprintf("string of length %d", l), func() int { return WritableStringSize(s) }, func(b []byte) (int, error) { return MarshalString(s, b) },
			func(b []byte, nb bool) (int, bool, error) { n, x, e := UnmarshalString(b, nb); return n, x == s, e },
			func(w *ObjectsWriter) (int, error) { return w.WriteString(s) }})
		var w bytes.Buffer
		ow := &ObjectsWriter{Writer: &w}
		if n, err := ow.WritePureBytes(p); n != l || err != nil || !bytes.Equal(w.Bytes(), p) {
			fail("WritePureBytes of length %d: n=%d err=%v", l, n, err)
		}
		w.Reset()
		if n, err := ow.WritePureString(s); n != l || err != nil || w.String() != s {
			fail("WritePureString of length %d: n=%d err=%v", l, n, err)
		}
	}
	// malformed input: a header announcing any length, in small buffers
	for i := 0; i < 60000; i++ {
		b := make([]byte, rnd.Intn(24))
		rnd.Read(b)
		if rnd.Intn(2) == 0 {
			for j := 0; j < len(b) && j < rnd.Intn(12); j++ {
				b[j] |= 0x80
			}
		}
		if rnd.Intn(3) == 0 && len(b) >= 10 {
			MarshalUint(^uint(0)-uint(rnd.Intn(30)), b)
		}
		if rnd.Intn(3) == 0 && len(b) >= 10 {
			MarshalUint(uint(1)<<uint(rnd.Intn(64))+uint(rnd.Intn(5))-2, b)
		}
		what := fmt.Sprintf("decoding % x", b)
		guard(what, func() {
			UnmarshalByte(b)
			UnmarshalUint16(b)
			UnmarshalUint32(b)
			UnmarshalUint64(b)
			un, uv, ue := UnmarshalUint(b)
			if ue == nil && (un < 1 || un > len(b)) {
				fail("%s: UnmarshalUint consumes %d bytes", what, un)
			}
			n, x, err := UnmarshalBytes(b[:len(b):len(b)], i&1 == 0)
			if err == nil && (n > len(b) || ue != nil || uint(len(x)) != uv || n != un+len(x)) {
				fail("%s: UnmarshalBytes gives n=%d len=%d header %d/%d", what, n, len(x), un, uv)
			}
			UnmarshalString(b, i&1 == 0)
		})
	}
}
