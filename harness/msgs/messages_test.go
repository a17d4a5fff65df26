package msgs

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"testing"
	"unicode/utf8"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// Ref names one message: producer index, block index, index in key order.
type Ref struct{ P, B, M int }

// MsgCase is a set of blocks, the producers that publish them, and the order
// in which their messages reach one consumer.
type MsgCase struct {
	Style     int
	Fams      []int
	Blocks    []gen.Block
	Producers []int // 0: the producer under test, 1: the reference encoder
	Thr       int64
	Tracked   []string
	Strict    bool // the processor panics when it cannot tell where a message belongs
	Deliver   []Ref
}

type flat [][][]gen.Msg // [producer][block][msg]

func (c *MsgCase) encode() (flat, error) {
	var f flat
	for _, kind := range c.Producers {
		var per [][]gen.Msg
		var p *delivery.Producer
		if kind == 0 {
			var err error
			if p, err = delivery.NewProducer("default", gen.Schema(c.Fams)); err != nil {
				return nil, fmt.Errorf("NewProducer: %w", err)
			}
		}
		for i := range c.Blocks {
			ref := c.Blocks[i].Encode(c.Style)
			if kind == 1 {
				per = append(per, ref)
				continue
			}
			ms, err := c.Blocks[i].FromProducer(p, c.Style)
			if err != nil {
				return nil, err
			}
			if len(ms) != len(ref) {
				return nil, fmt.Errorf("producer sent %d messages for block %d, the format has %d", len(ms), i, len(ref))
			}
			for j := range ms {
				if !bytes.Equal(ms[j].K, ref[j].K) {
					return nil, fmt.Errorf("producer message key %x, the format has %x", ms[j].K, ref[j].K)
				}
				ms[j].Entry = ref[j].Entry
			}
			per = append(per, ms)
		}
		f = append(f, per)
	}
	return f, nil
}

func (c *MsgCase) config() *delivery.ConsumerConfig {
	cfg := &delivery.ConsumerConfig{ReorgThreshold: c.Thr, FailedReconstructPanic: c.Strict}
	for _, s := range c.Tracked {
		cfg.TrackedPrefixes = append(cfg.TrackedPrefixes, regexp.MustCompile(s))
	}
	return cfg
}

func trackedFn(c *MsgCase) func(string) bool {
	var res []*regexp.Regexp
	for _, s := range c.Tracked {
		res = append(res, regexp.MustCompile(s))
	}
	return func(k string) bool {
		for _, r := range res {
			if r.MatchString(k) {
				return true
			}
		}
		return false
	}
}

func q(s string) string {
	if len(s) > 40 {
		s = s[:40] + "..."
	}
	return fmt.Sprintf("%q", s)
}

// sameContent compares a completed block with what its producer was given.
func sameContent(pb *delivery.PendingBatch, b *gen.Block, style int, w gen.Want) error {
	if pb.Number != b.Num {
		return fmt.Errorf("block %d: number %d, want %d", b.ID, pb.Number, b.Num)
	}
	if pb.Hash != gen.Hash(style, b.ID) || pb.ParentHash != gen.Hash(style, b.Parent) {
		return fmt.Errorf("block %d: wrong hash or parent hash", b.ID)
	}
	if pb.Weight == nil || pb.Weight.Cmp(b.WeightInt()) != 0 {
		return fmt.Errorf("block %d: weight %v, want %v", b.ID, pb.Weight, b.WeightInt())
	}
	var keys []string
	for k := range w.Values {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		got, ok := pb.Values[k]
		if !ok {
			return fmt.Errorf("block %d: value for %s is missing", b.ID, q(k))
		}
		if !bytes.Equal(got, w.Values[k]) {
			return fmt.Errorf("block %d: value for %s is %x, want %x", b.ID, q(k), got, w.Values[k])
		}
	}
	for k := range pb.Values {
		if _, ok := w.Values[k]; !ok {
			return fmt.Errorf("block %d: unexpected value for %s", b.ID, q(k))
		}
	}
	for k := range w.Deletes {
		if _, ok := pb.Deletes[k]; !ok {
			return fmt.Errorf("block %d: delete of %s is missing", b.ID, q(k))
		}
	}
	for k := range pb.Deletes {
		if !w.Deletes[k] {
			return fmt.Errorf("block %d: unexpected delete of %s", b.ID, q(k))
		}
	}
	return nil
}

type checks struct {
	content, late, early bool
	before               func(step int, process func(gen.Msg) error) error
}

// runMessages delivers the case and compares every step with the model: a
// block comes out at the step that delivers the last message it needs.
func runMessages(c *MsgCase, ck checks) core.Outcome {
	f, err := c.encode()
	if err != nil {
		return core.Fail("%v", err)
	}
	tracked := trackedFn(c)
	mp := delivery.NewMessageProcessor(c.config())
	ch := make(chan *delivery.PendingBatch, len(c.Deliver)+10)
	sub := mp.Subscribe(ch)
	defer sub.Unsubscribe()
	signals := make(chan map[int64]types.Hash, 1000)
	reorgs := mp.SubscribeReorgs(signals)
	defer reorgs.Unsubscribe()

	need := make([]map[string]bool, len(c.Blocks))
	byHash := map[types.Hash]int{}
	for i := range c.Blocks {
		byHash[gen.Hash(c.Style, c.Blocks[i].ID)] = i
		need[i] = map[string]bool{}
		for _, m := range c.Blocks[i].Encode(c.Style) {
			if m.Entry == "" || tracked(m.Entry) {
				need[i][string(m.K)] = true
			}
		}
	}
	emitted := make([]*delivery.PendingBatch, len(c.Blocks))
	offs := map[string]int64{}
	process := func(m gen.Msg) error {
		src := m.Topic + ":0"
		offs[src]++
		return mp.ProcessMessage(&gen.Delivered{R: gen.RMsg{Msg: m, Src: src, Off: offs[src]}})
	}
	for step, r := range c.Deliver {
		m := f[r.P][r.B][r.M]
		if ck.before != nil {
			if err := ck.before(step, process); err != nil {
				return core.Fail("step %d: %v", step, err)
			}
			if len(ch) > 0 {
				return core.Fail("step %d: a damaged message released block %x", step, (<-ch).Hash)
			}
		}
		if err := process(m); err != nil {
			return core.Fail("step %d: message rejected: %v", step, err)
		}
		_, wanted := need[r.B][string(m.K)]
		delete(need[r.B], string(m.K))
		expect := wanted && len(need[r.B]) == 0 && emitted[r.B] == nil
		select {
		case pb := <-ch:
			i, ok := byHash[pb.Hash]
			if !ok {
				return core.Fail("step %d: released a block nobody published: %x", step, pb.Hash)
			}
			if emitted[i] != nil {
				if ck.content {
					return core.Fail("step %d: block %d was released twice", step, i)
				}
				continue
			}
			if i != r.B || !expect {
				if ck.early {
					return core.Fail("step %d: block %d was released with %d of its messages missing", step, i, len(need[i]))
				}
			}
			emitted[i] = pb
			if ck.content {
				if err := sameContent(pb, &c.Blocks[i], c.Style, c.Blocks[i].Projection(tracked)); err != nil {
					return core.Fail("step %d: %v", step, err)
				}
				pb.Resumption()
			}
		default:
			if expect && ck.late {
				return core.Fail("step %d: block %d has everything it needs and was not released", step, r.B)
			}
		}
		select {
		case pb := <-ch:
			if ck.content || ck.early {
				return core.Fail("step %d: a second block (%x) was released at one message", step, pb.Hash)
			}
		default:
		}
	}
	if ck.content {
		for i, pb := range emitted {
			if pb != nil {
				if err := sameContent(pb, &c.Blocks[i], c.Style, c.Blocks[i].Projection(tracked)); err != nil {
					return core.Fail("after the end: %v", err)
				}
			}
		}
	}
	if len(signals) > 0 {
		return core.Fail("a reorg was signalled: %v", <-signals)
	}
	n := 0
	for _, e := range emitted {
		if e != nil {
			n++
		}
	}
	o := core.Outcome{}
	if n > 1 {
		o.Tags = append(o.Tags, "many-blocks")
	}
	if len(c.Producers) > 1 {
		o.Tags = append(o.Tags, "redundant-producers")
	}
	return o
}

func genBlocks(t *rapid.T, c *MsgCase, o gen.Opt, max int) {
	c.Style = rapid.IntRange(0, 3).Draw(t, "style")
	c.Strict = rapid.IntRange(0, 3).Draw(t, "strict") == 0
	c.Fams = gen.GenFamilies(t)
	np := rapid.IntRange(1, 3).Draw(t, "np")
	repo := false
	for i := 0; i < np; i++ {
		k := rapid.IntRange(0, 1).Draw(t, "pk")
		repo = repo || k == 0
		c.Producers = append(c.Producers, k)
	}
	o.Grouped = o.Grouped && !repo
	nb := rapid.IntRange(1, max).Draw(t, "nb")
	if rapid.IntRange(0, 199).Draw(t, "crowd") == 100 {
		nb += rapid.IntRange(8, 40).Draw(t, "more")
		o.Many = 0
	}
	sub := 1
	for i := 0; i < nb; i++ {
		b := gen.Block{ID: i + 1, Parent: rapid.IntRange(0, i).Draw(t, "par"), Weight: gen.GenWeight(t)}
		switch rapid.IntRange(0, 3).Draw(t, "numk") {
		case 0:
			b.Num = int64(i)
		case 1:
			b.Num = rapid.Int64Range(0, 1<<40).Draw(t, "num")
		default:
			b.Num = 1000 + int64(i)
		}
		gen.GenBlockContent(t, &b, c.Fams, sub, o)
		sub += o.MaxSubs + o.Many
		c.Blocks = append(c.Blocks, b)
	}
	c.Thr = int64(nb) + rapid.Int64Range(1, 200).Draw(t, "thr")
}

// order permutes a delivery: fully, or by a few swaps, or not at all.
func order(t *rapid.T, l []Ref) []Ref {
	switch rapid.IntRange(0, 4).Draw(t, "ordk") {
	case 0:
		out := append([]Ref{}, l...)
		n := rapid.IntRange(0, 6).Draw(t, "swaps")
		for i := 0; i < n && len(out) > 1; i++ {
			a := rapid.IntRange(0, len(out)-1).Draw(t, "sa")
			b := rapid.IntRange(0, len(out)-1).Draw(t, "sb")
			out[a], out[b] = out[b], out[a]
		}
		return out
	case 1:
		out := make([]Ref, len(l))
		for i := range l {
			out[len(l)-1-i] = l[i]
		}
		return out
	default:
		if len(l) == 0 {
			return l
		}
		return rapid.Permutation(l).Draw(t, "perm")
	}
}

func copies(t *rapid.T) int {
	return []int{1, 1, 1, 2, 2, 3}[rapid.IntRange(0, 5).Draw(t, "copies")]
}

func genDelivery(t *rapid.T, c *MsgCase) {
	var l []Ref
	for b := range c.Blocks {
		for m := range c.Blocks[b].Encode(c.Style) {
			for k := copies(t); k > 0; k-- {
				l = append(l, Ref{rapid.IntRange(0, len(c.Producers)-1).Draw(t, "p"), b, m})
			}
		}
	}
	c.Deliver = order(t, l)
}

func shape(c *MsgCase) (tags []string, counted, subs, dup bool) {
	seen := map[[2]int]bool{}
	for _, r := range c.Deliver {
		k := [2]int{r.B, r.M}
		if seen[k] {
			dup = true
		}
		seen[k] = true
	}
	emptyVal := false
	for _, b := range c.Blocks {
		for _, u := range b.Updates {
			if u.Fam >= 0 {
				counted = true
			}
			if len(u.Val) == 0 {
				emptyVal = true
			}
		}
		for _, s := range b.Subs {
			subs = true
			if len(s.Updates)+len(s.Deletes) == 0 {
				tags = append(tags, "empty-subbatch")
			}
		}
	}
	for _, x := range []struct {
		on bool
		s  string
	}{{counted, "counted-keys"}, {subs, "sub-batches"}, {dup, "duplicates"}, {emptyVal, "empty-value"}} {
		if x.on {
			tags = append(tags, x.s)
		}
	}
	return
}

func TestC01(t *testing.T) {
	core.Run(t, "C01", func(t *rapid.T) MsgCase {
		c := MsgCase{Tracked: [][]string{{".*"}, {""}, {"^[a-m]", "^[^a-m]|^$"}}[rapid.IntRange(0, 2).Draw(t, "trk")]}
		genBlocks(t, &c, gen.DefaultOpt, 4)
		genDelivery(t, &c)
		return c
	}, func(t *testing.T, c MsgCase) core.Outcome {
		o := runMessages(&c, checks{content: true, late: true, early: true})
		tags, counted, subs, dup := shape(&c)
		o.Tags = append(o.Tags, tags...)
		o.NonTrivial = (counted || subs) && dup && len(c.Deliver) > 3
		return o
	})
}

func TestC02(t *testing.T) {
	core.Run(t, "C02", func(t *rapid.T) MsgCase {
		c := MsgCase{Tracked: []string{".*"}}
		genBlocks(t, &c, gen.DefaultOpt, 3)
		var l, last []Ref
		for b := range c.Blocks {
			ms := c.Blocks[b].Encode(c.Style)
			// withhold one message of this block (any kind) and repeat the others
			held := rapid.IntRange(0, len(ms)-1).Draw(t, "held")
			for m := range ms {
				p := func() int { return rapid.IntRange(0, len(c.Producers)-1).Draw(t, "p") }
				if m == held {
					last = append(last, Ref{p(), b, m})
					continue
				}
				for k := copies(t) + rapid.IntRange(0, 2).Draw(t, "more"); k > 0; k-- {
					l = append(l, Ref{p(), b, m})
				}
			}
		}
		c.Deliver = append(order(t, l), order(t, last)...)
		return c
	}, func(t *testing.T, c MsgCase) core.Outcome {
		o := runMessages(&c, checks{early: true, late: true})
		tags, counted, subs, _ := shape(&c)
		o.Tags = append(o.Tags, tags...)
		o.NonTrivial = counted || subs
		return o
	})
}

func TestC03(t *testing.T) {
	core.Run(t, "C03", func(t *rapid.T) MsgCase {
		var c MsgCase
		genBlocks(t, &c, gen.DefaultOpt, 3)
		// patterns: by family, by concrete header entry, by fragment, or none
		entries := map[string]bool{}
		for i := range c.Blocks {
			for _, m := range c.Blocks[i].Encode(c.Style) {
				if m.Entry != "" {
					entries[m.Entry] = true
				}
			}
			for _, u := range c.Blocks[i].Updates {
				if u.Fam < 0 {
					entries[u.KeyString()] = true
				}
			}
		}
		var names []string
		for k := range entries {
			if utf8.ValidString(k) {
				names = append(names, k)
			}
		}
		sort.Strings(names)
		n := rapid.IntRange(0, 4).Draw(t, "ntr")
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 4).Draw(t, "trk"); {
			case k <= 1 && len(names) > 0:
				e := names[rapid.IntRange(0, len(names)-1).Draw(t, "te")]
				p := "^" + regexp.QuoteMeta(e)
				if k == 1 {
					p += "$"
				}
				c.Tracked = append(c.Tracked, p)
			case k == 2:
				c.Tracked = append(c.Tracked, "^"+gen.Families[rapid.IntRange(0, len(gen.Families)-1).Draw(t, "tf")].Regex)
			case k == 3:
				c.Tracked = append(c.Tracked, []string{"zz/", "sub", "/", "^z", "[0-9]", "a"}[rapid.IntRange(0, 5).Draw(t, "frag")])
			case k == 4 && rapid.IntRange(0, 3).Draw(t, "blank") == 0:
				// these may match without any text
				c.Tracked = append(c.Tracked, []string{"^", "$", "", "q*", "^$", "^(?:sub)?$", "\\b"}[rapid.IntRange(0, 6).Draw(t, "blk")])
			}
		}
		// messages that are not of interest may be missing (a topic not read)
		tr := trackedFn(&c)
		var l []Ref
		for b := range c.Blocks {
			drop := rapid.IntRange(0, 2).Draw(t, "dropk")
			for m, msg := range c.Blocks[b].Encode(c.Style) {
				if msg.Entry != "" && !tr(msg.Entry) && (drop == 0 || drop == 1 && rapid.Bool().Draw(t, "drop")) {
					continue
				}
				for k := copies(t); k > 0; k-- {
					l = append(l, Ref{rapid.IntRange(0, len(c.Producers)-1).Draw(t, "p"), b, m})
				}
			}
		}
		c.Deliver = order(t, l)
		return c
	}, func(t *testing.T, c MsgCase) core.Outcome {
		o := runMessages(&c, checks{content: true, late: true, early: true})
		tr := trackedFn(&c)
		in, out := 0, 0
		for i := range c.Blocks {
			for _, m := range c.Blocks[i].Encode(c.Style) {
				if m.Entry != "" && tr(m.Entry) {
					in++
				} else if m.Entry != "" {
					out++
				}
			}
		}
		o.NonTrivial = in > 0 && out > 0
		if len(c.Tracked) == 0 {
			o.Tags = append(o.Tags, "nothing-tracked")
		}
		if in > 0 && out > 0 {
			o.Tags = append(o.Tags, "mixed-tracking")
		}
		return o
	})
}
