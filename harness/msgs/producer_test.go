package msgs

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// ProdCase: blocks pushed through independent producers with one schema, and
// the order in which sub-batches are sent.
type ProdCase struct {
	Style  int
	Fams   []int
	Blocks []gen.Block
	Late   []int // per block: how many further blocks are added before its sub-batches are sent
}

func describe(m gen.Msg) string { return fmt.Sprintf("key %x on topic %q", m.K, m.Topic) }

func compareWire(got, want []gen.Msg, b *gen.Block) error {
	if len(got) != len(want) {
		return fmt.Errorf("block %d: %d messages, the format has %d", b.ID, len(got), len(want))
	}
	for i := range got {
		g, w := got[i], want[i]
		if !bytes.Equal(g.K, w.K) {
			return fmt.Errorf("block %d: %s, the format has %s", b.ID, describe(g), describe(w))
		}
		if g.Topic != w.Topic {
			return fmt.Errorf("block %d: %s, want topic %q", b.ID, describe(g), w.Topic)
		}
		switch g.K[0] {
		case 0:
			gh, err := gen.DecodeHeader(g.V)
			if err != nil {
				return fmt.Errorf("block %d: header does not decode: %v", b.ID, err)
			}
			wh, _ := gen.DecodeHeader(w.V)
			if !reflect.DeepEqual(gh, wh) {
				return fmt.Errorf("block %d: header %+v, want %+v", b.ID, gh, wh)
			}
			ub, err := delivery.UnmarshalBatch(g.V)
			if err != nil {
				return fmt.Errorf("block %d: UnmarshalBatch: %v", b.ID, err)
			}
			if ub.Number != b.Num || !bytes.Equal(ub.Weight, b.WeightInt().Bytes()) || ub.ParentHash != types.Hash(gh.Parent) || len(ub.Updates) != len(gh.Updates) {
				return fmt.Errorf("block %d: UnmarshalBatch gives %+v", b.ID, ub)
			}
			for k, r := range gh.Updates {
				u, ok := ub.Updates[k]
				if !ok || !bytes.Equal(u.Value, r.Value) || u.Count != r.Count || u.Delete != r.Delete || u.Subbatch != types.Hash(r.Sub) {
					return fmt.Errorf("block %d: UnmarshalBatch entry %s is %+v, want %+v", b.ID, q(k), u, r)
				}
			}
		case 2:
			gs, err := gen.DecodeSub(g.V)
			if err != nil {
				return fmt.Errorf("block %d: sub-batch message does not decode: %v", b.ID, err)
			}
			ws, _ := gen.DecodeSub(w.V)
			if !reflect.DeepEqual(gs, ws) {
				return fmt.Errorf("block %d: sub-batch message %x is %+v, want %+v", b.ID, g.K, gs, ws)
			}
		default:
			if !bytes.Equal(g.V, w.V) {
				return fmt.Errorf("block %d: %s has value %x, want %x", b.ID, describe(g), g.V, w.V)
			}
		}
	}
	return nil
}

func collect(dst []gen.Msg, ms map[string][]delivery.Message) []gen.Msg {
	for topic, l := range ms {
		for _, m := range l {
			dst = append(dst, gen.Msg{Topic: topic, K: append([]byte{}, m.Key()...), V: append([]byte{}, m.Value()...)})
		}
	}
	return dst
}

func TestC04(t *testing.T) {
	core.Run(t, "C04", func(t *rapid.T) ProdCase {
		var mc MsgCase
		o := gen.DefaultOpt
		o.Grouped = false
		o.MaxUpdates, o.MaxSubItems = 14, 6
		genBlocks(t, &mc, o, 4)
		c := ProdCase{Style: mc.Style, Fams: mc.Fams, Blocks: mc.Blocks}
		for range c.Blocks {
			c.Late = append(c.Late, rapid.IntRange(0, 2).Draw(t, "late"))
		}
		return c
	}, func(t *testing.T, c ProdCase) core.Outcome {
		for run := 0; run < 2; run++ { // two redundant producers agree with the format, hence with each other
			p, err := delivery.NewProducer("default", gen.Schema(c.Fams))
			if err != nil {
				return core.Fail("NewProducer: %v", err)
			}
			got := make([][]gen.Msg, len(c.Blocks))
			send := func(i int) error {
				b := &c.Blocks[i]
				for j := range b.Subs {
					d, u := b.Subs[j].SubArgs()
					ms, err := p.SendBatch(gen.SubID(c.Style, b.Subs[j].ID), d, u)
					if err != nil {
						return fmt.Errorf("SendBatch: %v", err)
					}
					got[i] = collect(got[i], ms)
				}
				return nil
			}
			for i := range c.Blocks {
				num, hash, parent, weight, up, del, subs := c.Blocks[i].Args(c.Style)
				ms, err := p.AddBlock(num, hash, parent, weight, up, del, subs)
				if err != nil {
					return core.Fail("AddBlock: %v", err)
				}
				got[i] = collect(got[i], ms)
				if run == 0 && len(up) != len(c.Blocks[i].Updates) {
					return core.Fail("AddBlock changed its arguments")
				}
				for j := 0; j <= i; j++ {
					if j+c.Late[j] == i {
						if err := send(j); err != nil {
							return core.Fail("%v", err)
						}
					}
				}
			}
			for j := range c.Blocks {
				if j+c.Late[j] >= len(c.Blocks) {
					if err := send(j); err != nil {
						return core.Fail("%v", err)
					}
				}
			}
			for i := range c.Blocks {
				gen.SortMsgs(got[i])
				if err := compareWire(got[i], c.Blocks[i].Encode(c.Style), &c.Blocks[i]); err != nil {
					return core.Fail("%v", err)
				}
			}
		}
		mc := MsgCase{Blocks: c.Blocks}
		tags, counted, subs, _ := shape(&mc)
		topics := map[string]bool{}
		for i := range c.Blocks {
			for _, m := range c.Blocks[i].Encode(c.Style) {
				topics[m.Topic] = true
			}
		}
		if len(topics) > 2 {
			tags = append(tags, "several-topics")
		}
		return core.Outcome{NonTrivial: counted && subs, Tags: tags}
	})
}

// --- C05 ---

// RawBlock is a block that may be unacceptable.
type RawBlock struct {
	ID, Parent int
	Num        int64
	Weight     []byte
	Updates    []gen.KV
	Deletes    []gen.KV
	Subs       []RawSub
}

// RawSub is a sub-batch that may be unacceptable.
type RawSub struct {
	ID      int // 0: the zero id
	Path    string
	Deletes []string
	Updates []gen.KV
}

// Op is a call. Block >= 0: AddBlock; otherwise SendBatch of sub-batch Sub of block B.
type Op struct {
	Block  int
	B, Sub int
	Extra  int // > 0: SendBatch of an id nobody announced
}

// LifeCase is a call history on one producer.
type LifeCase struct {
	Style  int
	Schema []string
	Blocks []RawBlock
	Ops    []Op
}

var rawSchemas = [][]string{
	{}, {"foo/"}, {"foo/", "bar/[^/]+/baz/"}, {"foo/", "s/"}, {"state/thing", "n/[0-9]+"}, {"d1/|d2/"},
	{"foo/", "foo/bar/"}, {"a", "ab"}, {"foo/", "fo"}, {"x/[0-9"}, {"^foo/"},
}

func schemaVerdict(entries []string) (overlap, bad bool) {
	for i, a := range entries {
		for j, b := range entries {
			if i != j && strings.HasPrefix(a, b) {
				overlap = true
			}
		}
		if _, err := regexp.Compile(a); err != nil {
			bad = true
		}
	}
	return
}

func subID(style, id int) types.Hash {
	if id == 0 {
		return types.Hash{}
	}
	return gen.SubID(style, id)
}

func TestC05(t *testing.T) {
	core.Run(t, "C05", func(t *rapid.T) LifeCase {
		c := LifeCase{Style: rapid.IntRange(0, 3).Draw(t, "style")}
		c.Schema = rawSchemas[rapid.IntRange(0, len(rawSchemas)-1).Draw(t, "schema")]
		nb := rapid.IntRange(1, 3).Draw(t, "nb")
		// a small pool, so that keys and paths collide often
		pool := []string{"foo/", "foo/a", "foo/b", "s/", "s/x", "u1", "u2", "bar/q/baz/", "bar/q/baz/1", "state/thing", "state/thing2", "n/12", "n/12x", "n/1", "d2/z", "q/d2/z", ""}
		key := func(l string) string { return pool[rapid.IntRange(0, len(pool)-1).Draw(t, l)] }
		sub := 1
		for i := 0; i < nb; i++ {
			b := RawBlock{ID: i + 1, Parent: i, Num: int64(i), Weight: gen.GenWeight(t)}
			seen := map[string]bool{}
			for n := rapid.IntRange(0, 5).Draw(t, "nu"); n > 0; n-- {
				k := key("uk")
				if !seen["u"+k] {
					seen["u"+k] = true
					b.Updates = append(b.Updates, gen.KV{Key: k, Val: gen.GenVal(t), Fam: -1})
				}
			}
			for n := rapid.IntRange(0, 3).Draw(t, "nd"); n > 0; n-- {
				k := key("dk")
				if !seen["d"+k] {
					seen["d"+k] = true
					b.Deletes = append(b.Deletes, gen.KV{Key: k, Fam: -1})
				}
			}
			for n := rapid.IntRange(0, 2).Draw(t, "ns"); n > 0; n-- {
				s := RawSub{ID: sub, Path: key("sp")}
				sub++
				if rapid.IntRange(0, 9).Draw(t, "zero") == 0 {
					s.ID = 0
				}
				if seen["s"+s.Path] {
					continue
				}
				seen["s"+s.Path] = true
				for m := rapid.IntRange(0, 3).Draw(t, "sd"); m > 0; m-- {
					s.Deletes = append(s.Deletes, fmt.Sprintf("sub%d/d%d", sub, m))
				}
				for m := rapid.IntRange(0, 3).Draw(t, "su"); m > 0; m-- {
					s.Updates = append(s.Updates, gen.KV{Key: fmt.Sprintf("sub%d/u%d", sub, m), Val: gen.GenVal(t), Fam: -1})
				}
				b.Subs = append(b.Subs, s)
			}
			c.Blocks = append(c.Blocks, b)
			c.Ops = append(c.Ops, Op{Block: i})
			for n := rapid.IntRange(0, 4).Draw(t, "nops"); n > 0; n-- {
				if rapid.IntRange(0, 7).Draw(t, "unk") == 0 {
					c.Ops = append(c.Ops, Op{Block: -1, Extra: rapid.IntRange(1, 3).Draw(t, "x")})
					continue
				}
				bi := rapid.IntRange(0, i).Draw(t, "ob")
				if len(c.Blocks[bi].Subs) == 0 {
					continue
				}
				c.Ops = append(c.Ops, Op{Block: -1, B: bi, Sub: rapid.IntRange(0, len(c.Blocks[bi].Subs)-1).Draw(t, "os")})
			}
		}
		// everything that was not sent yet is sent at the end, some of it again
		for bi := range c.Blocks {
			for si := range c.Blocks[bi].Subs {
				c.Ops = append(c.Ops, Op{Block: -1, B: bi, Sub: si})
			}
		}
		return c
	}, runLife)
}

func runLife(t *testing.T, c LifeCase) core.Outcome {
	schema := map[string]string{}
	for i, s := range c.Schema {
		schema[s] = fmt.Sprintf("t%d", i)
	}
	overlap, bad := schemaVerdict(c.Schema)
	p, err := delivery.NewProducer("default", schema)
	if overlap || bad {
		if err == nil {
			return core.Fail("a schema with overlapping or malformed prefixes %q was accepted", c.Schema)
		}
		if !bad && !errors.Is(err, delivery.ErrPrefixOverlap) {
			return core.Fail("overlapping prefixes reported as %v", err)
		}
		return core.Outcome{NonTrivial: true, Tags: []string{"schema-rejected"}}
	}
	if err != nil {
		return core.Fail("schema %q rejected: %v", c.Schema, err)
	}
	match := func(k string) (topic, prefix string) {
		for i, s := range c.Schema {
			if pre := regexp.MustCompile("^(?:" + s + ")").FindString(k); pre != "" {
				return fmt.Sprintf("t%d", i), pre
			}
		}
		return "default", ""
	}
	mp := delivery.NewMessageProcessor(&delivery.ConsumerConfig{ReorgThreshold: 20, TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".*")}})
	ch := make(chan *delivery.PendingBatch, 20)
	defer mp.Subscribe(ch).Unsubscribe()
	off := int64(0)
	deliver := func(ms map[string][]delivery.Message) error {
		l := collect(nil, ms)
		gen.SortMsgs(l)
		for _, m := range l {
			off++
			if err := mp.ProcessMessage(&gen.Delivered{R: gen.RMsg{Msg: m, Src: m.Topic, Off: off}}); err != nil {
				return err
			}
		}
		return nil
	}
	var tags []string
	accepted := make([]bool, len(c.Blocks))
	sent := map[[2]int]bool{}
	want := map[types.Hash]int{}
	for _, op := range c.Ops {
		if op.Block >= 0 {
			b := &c.Blocks[op.Block]
			del, subs := map[string]struct{}{}, map[string]types.Hash{}
			entries := map[string]int{}
			conflict, zero := false, false
			counted := map[string]bool{}
			for _, u := range b.Updates {
				if _, pre := match(u.Key); pre != "" {
					counted[pre] = true
				} else {
					entries[u.Key]++
				}
			}
			for _, d := range b.Deletes {
				del[d.Key] = struct{}{}
				if _, pre := match(d.Key); pre != "" {
					counted[pre] = true
				} else {
					entries[d.Key]++
				}
			}
			up2 := map[string][]byte{}
			for _, u := range b.Updates {
				up2[u.Key] = u.Val
			}
			for _, s := range b.Subs {
				subs[s.Path] = subID(c.Style, s.ID)
				zero = zero || s.ID == 0
				entries[s.Path]++
			}
			for pre := range counted {
				entries[pre]++
			}
			for _, n := range entries {
				if n > 1 {
					conflict = true
				}
			}
			ms, err := p.AddBlock(b.Num, gen.Hash(c.Style, b.ID), gen.Hash(c.Style, b.Parent), (&gen.Block{Weight: b.Weight}).WeightInt(), up2, del, subs)
			switch {
			case err == nil && (conflict || zero):
				return core.Fail("block %d cannot be carried (conflicting keys: %v, zero batch id: %v) and was accepted", b.ID, conflict, zero)
			case err != nil && !conflict && !zero:
				return core.Fail("block %d was rejected: %v", b.ID, err)
			case err != nil:
				if ms != nil {
					return core.Fail("block %d was rejected with messages", b.ID)
				}
				if !(conflict && errors.Is(err, delivery.ErrPrefixConflict)) && !(zero && errors.Is(err, delivery.ErrInvalidBatch)) {
					return core.Fail("block %d: wrong error %v (conflict %v, zero %v)", b.ID, err, conflict, zero)
				}
				tags = append(tags, "block-rejected")
			default:
				accepted[op.Block] = true
				want[gen.Hash(c.Style, b.ID)] = op.Block
				if err := deliver(ms); err != nil {
					return core.Fail("consumer: %v", err)
				}
			}
			continue
		}
		if op.Extra > 0 {
			if ms, err := p.SendBatch(gen.Hash(0, 90000+op.Extra), []string{"x"}, nil); !errors.Is(err, delivery.ErrUnknownBatch) || ms != nil {
				return core.Fail("a batch nobody announced: %v, error %v", ms, err)
			}
			tags = append(tags, "unknown-batch")
			continue
		}
		b := &c.Blocks[op.B]
		s := b.Subs[op.Sub]
		if !accepted[op.B] {
			continue // nothing is promised for the batches of a rejected block
		}
		u := map[string][]byte{}
		for _, x := range s.Updates {
			u[x.Key] = x.Val
		}
		ms, err := p.SendBatch(subID(c.Style, s.ID), append([]string{}, s.Deletes...), u)
		k := [2]int{op.B, op.Sub}
		if sent[k] {
			if !errors.Is(err, delivery.ErrUnknownBatch) || ms != nil {
				return core.Fail("batch %d of block %d was accepted a second time (error %v)", op.Sub, b.ID, err)
			}
			tags = append(tags, "sent-twice")
			continue
		}
		if err != nil {
			return core.Fail("batch %d of block %d was rejected: %v", op.Sub, b.ID, err)
		}
		sent[k] = true
		topic, _ := match(s.Path)
		for tp := range ms {
			if tp != topic {
				return core.Fail("batch at %q went to topic %q, want %q", s.Path, tp, topic)
			}
		}
		if err := deliver(ms); err != nil {
			return core.Fail("consumer: %v", err)
		}
	}
	// whatever was accepted must come out complete
	got := map[types.Hash]*delivery.PendingBatch{}
	for len(ch) > 0 {
		pb := <-ch
		got[pb.Hash] = pb
	}
	var hs []types.Hash
	for h := range want {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return want[hs[i]] < want[hs[j]] })
	for _, h := range hs {
		b := &c.Blocks[want[h]]
		pb := got[h]
		if pb == nil {
			return core.Fail("block %d was accepted and all its batches sent, but it cannot be reassembled", b.ID)
		}
		w := gen.Want{Values: map[string][]byte{}, Deletes: map[string]bool{}}
		for _, u := range b.Updates {
			w.Values[u.Key] = u.Val
		}
		for _, d := range b.Deletes {
			w.Deletes[d.Key] = true
		}
		for _, s := range b.Subs {
			for _, u := range s.Updates {
				w.Values[u.Key] = u.Val
			}
			for _, d := range s.Deletes {
				w.Deletes[d] = true
			}
		}
		gb := gen.Block{ID: b.ID, Parent: b.Parent, Num: b.Num, Weight: b.Weight}
		if err := sameContent(pb, &gb, c.Style, w); err != nil {
			return core.Fail("accepted, but: %v", err)
		}
	}
	return core.Outcome{NonTrivial: len(tags) > 0 || len(sent) > 1, Tags: tags}
}
