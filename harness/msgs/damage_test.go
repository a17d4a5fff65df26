package msgs

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// Damage is a damaged message that comes before the At-th message.
type Damage struct {
	At, B, M int
	Kind     int
	N        int    // how much is left, or which wrong number it is
	Junk     []byte // for unknown types
}

const (
	dKey     = iota // the key ends early
	dValue          // the value ends early
	dType           // a type nobody knows
	dPart           // a part that the sub-batch does not have
	dCount          // a sub-batch of less than no parts
	dSignal         // a reorg signal without a number
	dSignalK        // a reorg signal without a block
	dIndex          // a part whose number ends early or is none
	dStray          // something that the block's header does not list
	dKinds
)

// DamageCase is a delivery with damaged messages among the others.
type DamageCase struct {
	MsgCase
	Damaged []Damage
}

// message is the damaged message, or false if it cannot be made of its message.
func (d *Damage) message(m gen.Msg, parts int, entries []string) (gen.Msg, bool) {
	cut := func(b []byte, max int) []byte { return append([]byte{}, b[:d.N%(max+1)]...) }
	hash := m.K[1:33]
	switch d.Kind {
	case dKey:
		switch m.K[0] {
		case 1:
			m.K = cut(m.K, 64)
		case 2:
			m.K = cut(m.K, len(m.K)-1)
		default:
			m.K = cut(m.K, 32)
		}
		return m, true
	case dValue:
		if m.K[0] > 2 || len(m.V) == 0 {
			return m, false
		}
		m.V = cut(m.V, len(m.V)-1)
		return m, true
	case dType:
		kind := []byte{byte(7 + d.N/2%240)}
		if d.N%2 == 0 {
			kind = append(kind, hash...)
		}
		m.K = append(kind, d.Junk...)
		return m, true
	case dPart:
		if m.K[0] != 2 {
			return m, false
		}
		n := []int{-1, parts, parts + 1, 1 << 30, -1 << 31, 63, 64, 8191}[d.N%8]
		if n >= 0 && n < parts {
			n = parts
		}
		m.K = append(append([]byte{}, m.K[:65]...), delivery.AvroInt(n)...)
		return m, true
	case dCount:
		if m.K[0] != 1 {
			return m, false
		}
		m.V = delivery.AvroInt([]int{-1, -2, -1 << 31}[d.N%3])
		return m, true
	case dSignal:
		m.K, m.V = append([]byte{5}, hash...), [][]byte{nil, {0x80}, {0xff, 0xff}}[d.N%3]
		return m, true
	case dIndex:
		if m.K[0] != 2 {
			return m, false
		}
		idx := [][]byte{{0x80}, {0x82}, {0x80, 0x80}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00}}[d.N%5]
		m.K = append(append([]byte{}, m.K[:65]...), idx...)
		return m, true
	case dStray:
		path := []string{"~stray", "~stray/1", "~stray/1/2", "/~stray/"}[d.N/4%4]
		for _, e := range entries {
			if strings.HasPrefix(path, e) || strings.HasPrefix(path, "/"+e) {
				return m, false
			}
		}
		id := bytes.Repeat([]byte{0xe7}, 32)
		switch d.N % 4 {
		case 0:
			m.K, m.V = append(append([]byte{3}, hash...), path...), []byte{1}
		case 1:
			m.K, m.V = append(append([]byte{4}, hash...), path...), nil
		case 2:
			m.K, m.V = append(append([]byte{1}, hash...), id...), delivery.AvroInt(d.N/16%4)
		case 3:
			m.K, m.V = append(append(append([]byte{2}, hash...), id...), delivery.AvroInt(d.N/16%4)...), []byte{0, 2, 12, '~', 's', 't', 'r', 'a', 'y', 2, 1, 0}
		}
		return m, true
	case dSignalK:
		m.K, m.V = append([]byte{5}, hash[:d.N%32]...), delivery.AvroInt(7)
		return m, true
	}
	return m, false
}

func runDamage(c *DamageCase) core.Outcome {
	f := make([][]gen.Msg, len(c.Blocks))
	for i := range c.Blocks {
		f[i] = c.Blocks[i].Encode(c.Style)
	}
	tags := map[string]bool{}
	n := 0
	ck := checks{content: true, late: true, early: true}
	ck.before = func(step int, process func(gen.Msg) error) (err error) {
		for i := range c.Damaged {
			d := &c.Damaged[i]
			if d.At != step {
				continue
			}
			m := f[d.B][d.M]
			parts := 0
			var entries []string
			for _, x := range f[d.B] {
				if x.Entry != "" {
					entries = append(entries, x.Entry)
				}
				if m.K[0] == 2 && x.K[0] == 2 && string(x.K[:65]) == string(m.K[:65]) {
					parts++
				}
			}
			bad, ok := d.message(m, parts, entries)
			if !ok {
				continue
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						err = fmt.Errorf("the damaged message %x = %x: panic: %v", bad.K, bad.V, r)
					}
				}()
				process(bad) // it may be refused
			}()
			if err != nil {
				return err
			}
			n++
			tags[[]string{"key-cut", "value-cut", "unknown-type", "part-out-of-range", "negative-count", "signal-without-number", "signal-without-block", "no-part-number", "stray"}[d.Kind]] = true
		}
		return nil
	}
	o := runMessages(&c.MsgCase, ck)
	for t := range tags {
		o.Tags = append(o.Tags, t)
	}
	o.NonTrivial = n > 0
	return o
}

func TestC27(t *testing.T) {
	core.Run(t, "C27", func(t *rapid.T) *DamageCase {
		c := &DamageCase{MsgCase: MsgCase{Tracked: []string{".*"}}}
		genBlocks(t, &c.MsgCase, gen.DefaultOpt, 3)
		genDelivery(t, &c.MsgCase)
		for n := rapid.IntRange(1, 8).Draw(t, "nd"); n > 0; n-- {
			r := c.Deliver[rapid.IntRange(0, len(c.Deliver)-1).Draw(t, "dm")]
			d := Damage{B: r.B, M: r.M, Kind: rapid.IntRange(0, dKinds-1).Draw(t, "dk"), N: rapid.IntRange(0, 1<<16).Draw(t, "dn")}
			d.At = rapid.IntRange(0, len(c.Deliver)-1).Draw(t, "at")
			if d.Kind == dType {
				d.Junk = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "junk")
			}
			c.Damaged = append(c.Damaged, d)
		}
		return c
	}, func(t *testing.T, c *DamageCase) core.Outcome { return runDamage(c) })
}
