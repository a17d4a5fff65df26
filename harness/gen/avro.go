// Package gen holds the block model, its generators, and an encoder/decoder of
// the wire format written from SPEC.md, independent of the code under test.
package gen

import (
	"errors"
	"fmt"
	"math"
	"sort"
)

// --- Avro binary encoding, from the Avro specification ---

func putLong(b []byte, v int64) []byte {
	u := uint64(v<<1) ^ uint64(v>>63)
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

func putBytes(b, v []byte) []byte { return append(putLong(b, int64(len(v))), v...) }

// AvroInt encodes an int.
func AvroInt(v int) []byte { return putLong(nil, int64(v)) }

// Dec is a strict reader of Avro data.
type Dec struct {
	b   []byte
	err error
}

func (d *Dec) fail(s string) {
	if d.err == nil {
		d.err = errors.New(s)
	}
}

func (d *Dec) long() int64 {
	var u uint64
	for s := uint(0); ; s += 7 {
		if len(d.b) == 0 || s > 63 {
			d.fail("truncated varint")
			return 0
		}
		c := d.b[0]
		d.b = d.b[1:]
		u |= uint64(c&0x7f) << s
		if c < 0x80 {
			break
		}
	}
	return int64(u>>1) ^ -int64(u&1)
}

func (d *Dec) take(n int64) []byte {
	if n < 0 || n > int64(len(d.b)) {
		d.fail("length out of range")
		return nil
	}
	r := d.b[:n]
	d.b = d.b[n:]
	return r
}

func (d *Dec) bytes() []byte { return append([]byte{}, d.take(d.long())...) }

func (d *Dec) bool() bool {
	x := d.take(1)
	if len(x) == 1 && x[0] > 1 {
		d.fail("bad boolean")
	}
	return len(x) == 1 && x[0] == 1
}

// blocks iterates over the items of an array or map.
func (d *Dec) blocks(item func()) {
	for d.err == nil {
		n := d.long()
		if n == 0 {
			return
		}
		if n == math.MinInt64 {
			d.fail("bad block count")
			return
		}
		if n < 0 {
			n = -n
			d.long()
		}
		for i := int64(0); i < n && d.err == nil; i++ {
			item()
		}
	}
}

func (d *Dec) end() error {
	if d.err != nil {
		return d.err
	}
	if len(d.b) != 0 {
		return fmt.Errorf("%d trailing bytes", len(d.b))
	}
	return nil
}

// Rec is one entry of a block header's updates map.
type Rec struct {
	Value  []byte
	Count  int
	Delete bool
	Sub    [32]byte
}

// Header is a decoded block header message.
type Header struct {
	Num     int64
	Weight  []byte
	Parent  [32]byte
	Updates map[string]Rec
}

// EncodeHeader encodes a header with its entries in sorted order.
func EncodeHeader(h *Header) []byte {
	b := putLong(nil, h.Num)
	b = putBytes(b, h.Weight)
	b = append(b, h.Parent[:]...)
	keys := make([]string, 0, len(h.Updates))
	for k := range h.Updates {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) > 0 {
		b = putLong(b, int64(len(keys)))
		for _, k := range keys {
			r := h.Updates[k]
			b = putBytes(b, []byte(k))
			b = putBytes(b, r.Value)
			b = putLong(b, int64(r.Count))
			if r.Delete {
				b = append(b, 1)
			} else {
				b = append(b, 0)
			}
			b = append(b, r.Sub[:]...)
		}
	}
	return putLong(b, 0)
}

// DecodeHeader decodes a header.
func DecodeHeader(b []byte) (*Header, error) {
	d := &Dec{b: b}
	h := &Header{Num: d.long(), Weight: d.bytes(), Updates: map[string]Rec{}}
	copy(h.Parent[:], d.take(32))
	d.blocks(func() {
		k := string(d.bytes())
		r := Rec{Value: d.bytes(), Count: int(d.long()), Delete: d.bool()}
		copy(r.Sub[:], d.take(32))
		if _, ok := h.Updates[k]; ok {
			d.fail("repeated key " + k)
		}
		h.Updates[k] = r
	})
	return h, d.end()
}

// SubRec is a decoded sub-batch message.
type SubRec struct {
	Delete  []string
	Updates map[string][]byte
}

// EncodeSub encodes a sub-batch message.
func EncodeSub(s *SubRec) []byte {
	var b []byte
	if len(s.Delete) > 0 {
		b = putLong(b, int64(len(s.Delete)))
		for _, k := range s.Delete {
			b = putBytes(b, []byte(k))
		}
	}
	b = putLong(b, 0)
	keys := make([]string, 0, len(s.Updates))
	for k := range s.Updates {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) > 0 {
		b = putLong(b, int64(len(keys)))
		for _, k := range keys {
			b = putBytes(b, []byte(k))
			b = putBytes(b, s.Updates[k])
		}
	}
	return putLong(b, 0)
}

// DecodeSub decodes a sub-batch message.
func DecodeSub(b []byte) (*SubRec, error) {
	d := &Dec{b: b}
	s := &SubRec{Updates: map[string][]byte{}}
	d.blocks(func() { s.Delete = append(s.Delete, string(d.bytes())) })
	d.blocks(func() {
		k := string(d.bytes())
		if _, ok := s.Updates[k]; ok {
			d.fail("repeated key " + k)
		}
		s.Updates[k] = d.bytes()
	})
	return s, d.end()
}

// DecodeInt decodes an int.
func DecodeInt(b []byte) (int, error) {
	d := &Dec{b: b}
	v := d.long()
	return int(v), d.end()
}
