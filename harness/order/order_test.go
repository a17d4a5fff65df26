package order

import (
	"fmt"
	"math/big"
	"regexp"
	"runtime"
	"slices"
	"testing"
	"testing/synctest"
	"time"
	"weak"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// Node is a block of the tree. Node 0 is the oldest ancestor anyone refers to;
// every other node's parent has a smaller index.
type Node struct {
	Parent int
	Inc    int64 // weight above the parent's
}

// Ev is one event: delivery of a block, or (Reorg) a large-reorg signal.
type Ev struct {
	Blk   int
	Msg   bool // as messages rather than as a complete block
	Reorg bool
	Early int  `json:",omitempty"` // so many events before, the first of several messages came
	Full  bool `json:",omitempty"` // all of them come now, not only the others
	Last  bool `json:",omitempty"` // the header is the last of them

	Orphan bool `json:",omitempty"` // a child of a block that comes after a later signal
}

// TreeCase is a block tree and a delivery history.
type TreeCase struct {
	Style     int
	Nodes     []Node
	BaseNum   int64
	BaseW     int64
	WBits     uint `json:",omitempty"` // weights are around 1<<WBits
	Start     int // the block the consumer resumes from; -1: none
	Thr       int64
	Whitelist map[int]int // number offset from node 0's number -> node (-1: a block that does not exist)
	Events    []Ev
	Unquiet   bool  // do not let the processor settle between deliveries
	Live      int   // bound on retained blocks; 0: not checked
	Race      bool  // a large-reorg signal is not given time to settle
	Soak      *Soak `json:",omitempty"`
	Seen      bool  `json:",omitempty"` // blocks of the new chain came before the signal
	Ghost     int   // every Ghost-th delivery is preceded by an incomplete block; 0: none
}

type tree struct {
	c      *TreeCase
	num    []int64
	weight []int64
	byHash map[types.Hash]int
}

func newTree(c *TreeCase) *tree {
	t := &tree{c: c, byHash: map[types.Hash]int{}}
	for i, n := range c.Nodes {
		if i == 0 {
			t.num = append(t.num, c.BaseNum)
			t.weight = append(t.weight, c.BaseW)
		} else {
			t.num = append(t.num, t.num[n.Parent]+1)
			t.weight = append(t.weight, t.weight[n.Parent]+n.Inc)
		}
		t.byHash[gen.Hash(c.Style, i+1)] = i
	}
	return t
}

// big is the weight of block i as the consumer is told it.
func (t *tree) big(i int) *big.Int {
	w := big.NewInt(t.weight[i])
	if t.c.WBits > 0 {
		w.Add(w, new(big.Int).Lsh(big.NewInt(1), t.c.WBits)).Sub(w, big.NewInt(4))
	}
	return w
}

func (t *tree) hash(i int) types.Hash { return gen.Hash(t.c.Style, i+1) }

func (t *tree) parentHash(i int) types.Hash {
	if i == 0 {
		return gen.Hash(t.c.Style, 60000)
	}
	return t.hash(t.c.Nodes[i].Parent)
}

func (t *tree) batch(i int) *delivery.PendingBatch {
	return &delivery.PendingBatch{
		Number: t.num[i], Weight: t.big(i), Hash: t.hash(i), ParentHash: t.parentHash(i),
		Values: map[string][]byte{"k": []byte{byte(i)}}, Deletes: map[string]struct{}{},
	}
}

func (t *tree) message(i int, off int64) delivery.ResumptionMessage {
	b := gen.Block{ID: i + 1, Parent: 60000, Num: t.num[i], Weight: t.big(i).Bytes(), Updates: []gen.KV{{Fam: -1, Key: "k", Val: []byte{byte(i)}}}}
	if i > 0 {
		b.Parent = t.c.Nodes[i].Parent + 1
	}
	return &gen.Delivered{R: gen.RMsg{Msg: b.Encode(t.c.Style)[0], Src: "default:0", Off: off}}
}

// parts are the messages of block i, of which there are several.
func (t *tree) parts(i int, off int64, last bool) []delivery.ResumptionMessage {
	b := gen.Block{ID: i + 1, Parent: 60000, Num: t.num[i], Weight: t.big(i).Bytes(), Updates: []gen.KV{{Fam: -1, Key: "k", Val: []byte{byte(i)}}, {Fam: 0, N: 1, Val: make([]byte, 64)}, {Fam: 0, N: 2, Val: make([]byte, 64)}}}
	if i > 0 {
		b.Parent = t.c.Nodes[i].Parent + 1
	}
	var l []delivery.ResumptionMessage
	for _, m := range b.Encode(t.c.Style) {
		l = append(l, &gen.Delivered{R: gen.RMsg{Msg: m, Src: "default:0", Off: off}})
	}
	if last {
		l = append(l[1:], l[0])
	}
	return l
}

// reorgMessage is the signal as the producer makes it, checked against the format.
func reorgMessage(num int64, h types.Hash) (delivery.ResumptionMessage, error) {
	p, err := delivery.NewProducer("default", nil)
	if err != nil {
		return nil, err
	}
	m, d := p.Reorg(num, h), p.ReorgDone(num, h)
	if want := append([]byte{5}, h[:]...); string(m.Key()) != string(want) || string(m.Value()) != string(gen.AvroInt(int(num))) {
		return nil, fmt.Errorf("the producer signals a reorg to block %d %x as key %x value %x", num, h, m.Key(), m.Value())
	}
	if want := append([]byte{6}, h[:]...); string(d.Key()) != string(want) || string(d.Value()) != string(gen.AvroInt(int(num))) {
		return nil, fmt.Errorf("the producer signals the end of a reorg to block %d %x as key %x value %x", num, h, d.Key(), d.Value())
	}
	return &gen.Delivered{R: gen.RMsg{Msg: gen.Msg{K: m.Key(), V: m.Value()}, Src: "reorg:0", Off: 1}}, nil
}

// walk follows the emitted chain.
type walk struct {
	t        *tree
	tip      int // -1: nothing yet
	tags     map[string]bool
	lastDone *delivery.ChainUpdate
	reorgs   int
	emitted  map[int]bool
}

func (w *walk) node(pb *delivery.PendingBatch) (int, error) {
	i, ok := w.t.byHash[pb.Hash]
	if !ok {
		return 0, fmt.Errorf("an update contains a block nobody delivered (%x)", pb.Hash)
	}
	if pb.ParentHash != w.t.parentHash(i) || pb.Number != w.t.num[i] || pb.Weight.Cmp(w.t.big(i)) != 0 || pb.Values["k"] == nil || pb.Values["k"][0] != byte(i) {
		return 0, fmt.Errorf("block %d was altered", i)
	}
	return i, nil
}

// apply checks one update against the chain emitted so far.
func (w *walk) apply(u *delivery.ChainUpdate, delivered map[int]bool) error {
	oldTip := w.tip
	removed := u.Removed()
	for k := len(removed) - 1; k >= 0; k-- {
		i, err := w.node(removed[k])
		if err != nil {
			return err
		}
		if i != w.tip {
			return fmt.Errorf("update removes block %d while the head is block %d", i, w.tip)
		}
		if i == 0 {
			return fmt.Errorf("update removes the oldest block")
		}
		w.tip = w.t.c.Nodes[i].Parent
	}
	added := u.Added()
	if len(added) == 0 {
		return fmt.Errorf("update adds nothing (removes %d)", len(removed))
	}
	for _, pb := range added {
		i, err := w.node(pb)
		if err != nil {
			return err
		}
		if !delivered[i] {
			return fmt.Errorf("update adds block %d, which was not delivered", i)
		}
		if w.tip >= 0 && (i == 0 || w.t.c.Nodes[i].Parent != w.tip) {
			return fmt.Errorf("update adds block %d on top of block %d, which is not its parent", i, w.tip)
		}
		w.tip = i
		w.emitted[i] = true
	}
	if len(removed) > 0 {
		w.reorgs++
		w.tags["reorg"] = true
		if len(removed) > 1 {
			w.tags["deep-reorg"] = true
		}
		if w.t.weight[w.tip] <= w.t.weight[oldTip] {
			return fmt.Errorf("reorg from block %d (weight %d) to block %d (weight %d), which is not heavier", oldTip, w.t.weight[oldTip], w.tip, w.t.weight[w.tip])
		}
	}
	if len(added) > 1 && len(removed) == 0 {
		w.tags["several-added"] = true
	}
	return nil
}

func (t *tree) allowed(i int) bool {
	for ; i >= 0; i-- {
		// walk up
		n := t.num[i] - t.c.BaseNum
		if w, ok := t.c.Whitelist[int(n)]; ok && w != i {
			return false
		}
		if i == 0 {
			return true
		}
		i = t.c.Nodes[i].Parent + 1
	}
	return true
}

func (t *tree) ancestors(i int) []int {
	var a []int
	for {
		a = append(a, i)
		if i == 0 {
			return a
		}
		i = t.c.Nodes[i].Parent
	}
}

// best is the greatest weight among blocks the consumer can be expected to be
// on: delivered, connected by delivered blocks to the chain it started from.
func (t *tree) best(delivered map[int]bool) int64 {
	s := t.c.Start
	onS := map[int]bool{}
	for _, a := range t.ancestors(s) {
		onS[a] = true
	}
	// delivered ancestors of s above which everything on its chain was delivered
	reach := map[int]bool{s: true}
	for i := s; delivered[i] && i != 0; {
		i = t.c.Nodes[i].Parent
		if delivered[i] {
			reach[i] = true
		}
	}
	best := t.weight[s]
	for b := range delivered {
		if !t.allowed(b) {
			continue
		}
		i, ok := b, true
		for !onS[i] {
			if !delivered[i] {
				ok = false
				break
			}
			i = t.c.Nodes[i].Parent
		}
		if ok && reach[i] && t.weight[b] > best {
			best = t.weight[b]
		}
	}
	return best
}

type want struct{ safe, best, tip, white, live, reorgSignal bool }

func runTree(tt *testing.T, c *TreeCase, ck want) core.Outcome {
	var o core.Outcome
	tags := map[string]bool{}
	err := core.Bubble(tt, func() {
		if c.Soak != nil {
			o = soakBody(c, tags)
		} else {
			o = treeBody(c, ck, tags)
		}
	})
	if err != nil && o.Err == nil {
		o.Err = err
	}
	for k := range tags {
		o.Tags = append(o.Tags, k)
	}
	return o
}

func treeBody(c *TreeCase, ck want, tags map[string]bool) (o core.Outcome) {
	t := newTree(c)
	cfg := &delivery.ConsumerConfig{ReorgThreshold: c.Thr, TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".*")}}
	if c.Start >= 0 {
		cfg.LastEmittedNum, cfg.LastHash, cfg.LastWeight = t.num[c.Start], t.hash(c.Start), t.big(c.Start)
	}
	if len(c.Whitelist) > 0 {
		cfg.Whitelist = map[uint64]types.Hash{}
		for n, i := range c.Whitelist {
			h := gen.Hash(c.Style, 61000+n)
			if i >= 0 {
				h = t.hash(i)
			}
			cfg.Whitelist[uint64(c.BaseNum+int64(n))] = h
		}
	}
	omp, err := delivery.NewOrderedMessageProcessor(cfg)
	if err != nil {
		return core.Fail("NewOrderedMessageProcessor: %v", err)
	}
	defer omp.Close()
	ch := make(chan *delivery.ChainUpdate, len(c.Events)+10)
	sub := omp.Subscribe(ch)
	defer sub.Unsubscribe()
	pch := make(chan *delivery.PendingBatch, len(c.Events)+10)
	if ck.reorgSignal {
		psub := omp.Subscribe(pch)
		defer psub.Unsubscribe()
	}
	since := map[int]bool{} // released since the last signal
	orphan := map[int]bool{}
	for _, e := range c.Events {
		if e.Orphan {
			orphan[e.Blk] = true
			tags["orphan"] = true
		}
	}
	rch := make(chan map[int64]types.Hash, len(c.Events)+10)
	rsub := omp.SubscribeReorg(rch)
	defer rsub.Unsubscribe()

	w := &walk{t: t, tip: c.Start, tags: tags, emitted: map[int]bool{}}
	delivered := map[int]bool{}
	var live []weak.Pointer[delivery.PendingBatch]
	var ghosts []weak.Pointer[byte]
	rest := map[int]*gen.Delivered{}
	conn := map[int]bool{}
	kids := make([][]int, len(c.Nodes))
	for i := 1; i < len(c.Nodes); i++ {
		kids[c.Nodes[i].Parent] = append(kids[c.Nodes[i].Parent], i)
	}
	var tipBest int64
	var connect func(i int)
	connect = func(i int) {
		conn[i] = true
		tipBest = max(tipBest, t.weight[i])
		for _, k := range kids[i] {
			if delivered[k] && !conn[k] {
				connect(k)
			}
		}
	}
	if c.Start >= 0 {
		connect(c.Start)
	}
	settle := func(step int) error {
		synctest.Wait()
		for {
			select {
			case u := <-ch:
				if err := w.apply(u, delivered); err != nil {
					if ck.safe {
						return fmt.Errorf("step %d: %v", step, err)
					}
				}
				if ck.white {
					for _, pb := range u.Added() {
						if i, ok := t.byHash[pb.Hash]; ok && !t.allowed(i) {
							return fmt.Errorf("step %d: block %d was released although it or an ancestor is excluded by the whitelist", step, i)
						}
					}
				}
				u.Done()
				continue
			default:
			}
			return nil
		}
	}
	rootGiven := false
	reorgAt := -1
	for step, e := range c.Events {
		for k, f := range c.Events[step:] {
			if f.Early == k && k > 0 {
				ms := t.parts(f.Blk, int64(step), f.Last)
				for _, m := range ms[:1+f.Blk%(len(ms)-1)] {
					if c.Live > 0 {
						ghosts = append(ghosts, weak.Make(&m.Value()[0]))
					}
					if err := omp.ProcessMessage(m); err != nil {
						return core.Fail("step %d: message rejected: %v", step, err)
					}
				}
				tags["in-parts"] = true
			}
		}
		if e.Reorg {
			rm, err := reorgMessage(t.num[e.Blk], t.hash(e.Blk))
			if err != nil {
				return core.Outcome{Err: err}
			}
			if err := omp.ProcessMessage(rm); err != nil {
				return core.Fail("step %d: reorg message rejected: %v", step, err)
			}
			reorgAt = e.Blk
			clear(since)
			if c.Race {
				continue
			}
			if err := settle(step); err != nil {
				return core.Outcome{Err: err}
			}
			select {
			case m := <-rch:
				if len(m) != 1 || m[t.num[e.Blk]] != t.hash(e.Blk) {
					return core.Fail("step %d: reorg subscribers were told %v, want number %d hash %x", step, m, t.num[e.Blk], t.hash(e.Blk))
				}
			default:
				return core.Fail("step %d: reorg subscribers were not told", step)
			}
			w.tip = e.Blk
			tags["signal"] = true
			continue
		}
		again, last := delivered[e.Blk], w.tip
		if again {
			tags["redelivery"] = true
		} else if e.Blk != 0 && !delivered[c.Nodes[e.Blk].Parent] && c.Nodes[e.Blk].Parent != c.Start {
			tags["child-before-parent"] = true
		}
		delivered[e.Blk] = true
		if e.Blk != 0 && conn[c.Nodes[e.Blk].Parent] && !conn[e.Blk] {
			connect(e.Blk)
		}
		if m := rest[step]; m != nil {
			delete(rest, step)
			ghosts = append(ghosts, weak.Make(&m.Value()[0]))
			if err := omp.ProcessMessage(m); err != nil {
				return core.Fail("step %d: message rejected: %v", step, err)
			}
		}
		if c.Ghost > 0 && step%c.Ghost == 0 {
			v := make([]byte, 64)
			b := gen.Block{ID: 30000 + step, Parent: 60000, Num: t.num[e.Blk], Weight: []byte{1}, Updates: []gen.KV{{Fam: 0, N: 1, Val: v}, {Fam: 0, N: 2, Val: v}}}
			ms := b.Encode(c.Style)
			for _, m := range ms[:len(ms)-1] {
				ghosts = append(ghosts, weak.Make(&m.V[0]))
				if m.K[0] == 3 && rest[step+c.Live] == nil { // again when it is forgotten
					rest[step+c.Live] = &gen.Delivered{R: gen.RMsg{Msg: gen.Msg{K: m.K, V: append([]byte{}, m.V...)}, Src: "default:0", Off: int64(step + c.Live)}}
				}
				if err := omp.ProcessMessage(&gen.Delivered{R: gen.RMsg{Msg: m, Src: "default:0", Off: int64(step)}}); err != nil {
					return core.Fail("step %d: message rejected: %v", step, err)
				}
			}
		}
		if e.Early > 0 && e.Msg {
			ms := t.parts(e.Blk, int64(step), e.Last)
			if !e.Full {
				ms = ms[1+e.Blk%(len(ms)-1):]
			}
			for _, m := range ms {
				if err := omp.ProcessMessage(m); err != nil {
					return core.Fail("step %d: message rejected: %v", step, err)
				}
			}
		} else if e.Msg {
			if err := omp.ProcessMessage(t.message(e.Blk, int64(step))); err != nil {
				return core.Fail("step %d: message rejected: %v", step, err)
			}
		} else {
			pb := t.batch(e.Blk)
			if c.Live > 0 {
				live = append(live, weak.Make(pb))
			}
			omp.ProcessCompleteBatch(pb)
		}
		if c.Start < 0 && !rootGiven {
			rootGiven = true
		}
		if c.Unquiet && step != len(c.Events)-1 {
			continue
		}
		if c.Race {
			if step == len(c.Events)-1 {
				synctest.Wait()
			}
		} else if err := settle(step); err != nil {
			return core.Outcome{Err: err}
		}
		if c.Race {
			if step < len(c.Events)-1 {
				continue
			}
			var signals []int
			for _, e := range c.Events {
				if e.Reorg {
					signals = append(signals, e.Blk)
				}
			}
			for len(ch) > 0 {
				u := <-ch
				// the update follows some of the signals
				for {
					try := *w
					err := try.apply(u, delivered)
					if err == nil {
						w.tip = try.tip
						break
					}
					if len(signals) == 0 {
						return core.Fail("the updates are no walk: %v", err)
					}
					w.tip, signals = signals[0], signals[1:]
				}
			}
			for _, e := range c.Events {
				if e.Reorg {
					select {
					case m := <-rch:
						if len(m) != 1 || m[t.num[e.Blk]] != t.hash(e.Blk) {
							return core.Fail("reorg subscribers were told %v, want number %d hash %x", m, t.num[e.Blk], t.hash(e.Blk))
						}
					default:
						return core.Fail("reorg subscribers were not told of the reorg to block %d", e.Blk)
					}
				}
			}
			if w.tip != e.Blk {
				return core.Fail("step %d: a reorg to block %d was signalled, the new chain up to block %d was delivered, and the head is %d", step, reorgAt, e.Blk, w.tip)
			}
			continue
		}
		if c.Seen && ck.reorgSignal {
			if reorgAt < 0 {
				continue
			}
			at := w.tip // on the new chain, at the block that came or ahead of it
			for at > e.Blk && at != reorgAt {
				at = c.Nodes[at].Parent
			}
			if at != e.Blk {
				return core.Fail("step %d: after the reorg to block %d, block %d of the new chain, which had come before, was delivered and the head is %d", step, reorgAt, e.Blk, w.tip)
			}
			continue
		}
		if ck.reorgSignal {
			// those who take the blocks as they come
			n := 0
			for len(pch) > 0 {
				if pb := <-pch; pb.Hash != t.hash(e.Blk) {
					return core.Fail("step %d: block %d was delivered and another one was released", step, e.Blk)
				}
				n++
			}
			want := 1
			if e.Msg && since[e.Blk] {
				want = 0
			}
			since[e.Blk] = true
			if c.Thr < 40 && again && n < 2 {
				want = n // long ago by that measure
			}
			if n != want {
				return core.Fail("step %d: block %d (as messages: %v) was released %d times, want %d; last signal to block %d", step, e.Blk, e.Msg, n, want, reorgAt)
			}
		}
		if reorgAt >= 0 && ck.reorgSignal {
			if again {
				if w.tip != last {
					return core.Fail("step %d: block %d, delivered again, moved the head from block %d to block %d", step, e.Blk, last, w.tip)
				}
				continue
			}
			if e.Orphan {
				if w.tip != last {
					return core.Fail("step %d: block %d, whose parent has not come, moved the head from block %d to block %d", step, e.Blk, last, w.tip)
				}
				continue
			}
			// after the signal, the new chain comes out block by block
			if orphan[w.tip] && c.Nodes[w.tip].Parent == e.Blk {
				tags["orphan-released"] = true
				continue
			}
			if w.tip != e.Blk {
				return core.Fail("step %d: after the reorg to block %d, block %d was delivered and the head is %d", step, reorgAt, e.Blk, w.tip)
			}
			continue
		}
		if ck.tip && t.weight[w.tip] < tipBest {
			return core.Fail("step %d: the heaviest complete chain has weight %d, the head is block %d with weight %d", step, tipBest, w.tip, t.weight[w.tip])
		}
		if ck.best {
			tr := *t
			cc := *c
			if c.Start < 0 {
				cc.Start = c.Events[0].Blk
			}
			tr.c = &cc
			best := tr.best(delivered)
			if w.tip < 0 || t.weight[w.tip] < best {
				tw := int64(-1)
				if w.tip >= 0 {
					tw = t.weight[w.tip]
				}
				return core.Fail("step %d: the heaviest complete chain has weight %d, the head is block %d with weight %d", step, best, w.tip, tw)
			}
		}
	}
	if c.Race {
		o.NonTrivial = true
		return o
	}
	select {
	case m := <-rch:
		return core.Fail("reorg subscribers were told %v without a reorg message", m)
	default:
	}
	clear(rest)
	if c.Live > 0 {
		n := 0
		for k := 0; k < 2; k++ {
			runtime.GC()
		}
		for _, p := range live {
			if p.Value() != nil {
				n++
			}
		}
		if n > c.Live && ck.live {
			return core.Fail("after %d blocks, %d of them are still held, with a reorg threshold of %d", len(live), n, c.Thr)
		}
		g := 0
		for _, p := range ghosts {
			if p.Value() != nil {
				g++
			}
		}
		if g > 2*c.Live && ck.live {
			return core.Fail("of %d messages of blocks that come in parts, %d are still held, with a reorg threshold of %d", len(ghosts), g, c.Thr)
		}
	}
	time.Sleep(time.Millisecond)
	o.NonTrivial = true
	return o
}

// --- generators ---

func genInc(t *rapid.T) int64 {
	return []int64{1, 1, 1, 2, 3, 50}[rapid.IntRange(0, 5).Draw(t, "inc")]
}

// genTree draws a tree of n nodes, mixing chains and forks.
func genTree(t *rapid.T, c *TreeCase, n int, huge bool) {
	c.Style = rapid.IntRange(0, 3).Draw(t, "style")
	c.BaseNum = rapid.SampledFrom([]int64{0, 1, 100, 1 << 33}).Draw(t, "bn")
	c.BaseW = rapid.SampledFrom([]int64{0, 7, 1000}).Draw(t, "bw")
	c.WBits = rapid.SampledFrom([]uint{0, 0, 0, 32, 64, 64, 128}).Draw(t, "wbits")
	c.Nodes = []Node{{}}
	tip := 0
	if huge && rapid.IntRange(0, 299).Draw(t, "huge") == 150 { // two long chains
		n += rapid.IntRange(90, 300).Draw(t, "more")
		fork := rapid.IntRange(0, 20).Draw(t, "fork")
		turn := fork + (n-fork)*rapid.IntRange(1, 9).Draw(t, "turn")/10
		first := rapid.SampledFrom([]int64{0, 1, 2, 3}).Draw(t, "first") // the weights of the first chain's blocks, if the same
		for i := 1; i < n; i++ {
			nd := Node{i - 1, 1}
			if i == turn {
				nd.Parent = min(fork, i-1)
			}
			if first == 0 {
				nd.Inc = genInc(t)
			} else if i < turn {
				nd.Inc = first
			}
			c.Nodes = append(c.Nodes, nd)
		}
		return
	}
	for i := 1; i < n; i++ {
		p := tip
		switch rapid.IntRange(0, 4).Draw(t, "pk") {
		case 0:
			p = rapid.IntRange(0, i-1).Draw(t, "p")
		case 1:
			p = rapid.IntRange(max(0, i-4), i-1).Draw(t, "pr")
		}
		c.Nodes = append(c.Nodes, Node{p, genInc(t)})
		tip = i
	}
}

func perm(t *rapid.T, l []Ev) []Ev {
	if len(l) == 0 {
		return l
	}
	switch rapid.IntRange(0, 3).Draw(t, "ordk") {
	case 0:
		return rapid.Permutation(l).Draw(t, "perm")
	case 1:
		out := append([]Ev{}, l...)
		for n := rapid.IntRange(0, 5).Draw(t, "sw"); n > 0; n-- {
			a, b := rapid.IntRange(0, len(l)-1).Draw(t, "a"), rapid.IntRange(0, len(l)-1).Draw(t, "b")
			out[a], out[b] = out[b], out[a]
		}
		return out
	case 2:
		out := make([]Ev, len(l))
		for i := range l {
			out[len(l)-1-i] = l[i]
		}
		return out
	}
	return l
}

// genHistory draws a start and a delivery of most blocks, with repeats.
func genHistory(t *rapid.T, c *TreeCase, all bool) {
	c.Thr = int64(len(c.Nodes)) + 2
	c.Start = 0
	if rapid.IntRange(0, 2).Draw(t, "sk") == 0 {
		c.Start = rapid.IntRange(0, len(c.Nodes)-1).Draw(t, "start")
	}
	var l []Ev
	for i := range c.Nodes {
		if !all && rapid.IntRange(0, max(11, len(c.Nodes))).Draw(t, "skip") == 7 {
			continue
		}
		if i == 0 && rapid.Bool().Draw(t, "noroot") {
			continue
		}
		k := 1
		if rapid.IntRange(0, 4).Draw(t, "dup") == 0 {
			k = 2
		}
		for ; k > 0; k-- {
			l = append(l, Ev{Blk: i, Msg: rapid.Bool().Draw(t, "msg")})
		}
	}
	c.Events = perm(t, l)
}

// startFirst delivers the chain of the block the consumer resumes from before
// anything else, or not at all: a consumer that holds no copy of its own head
// cannot leave it, and looks again only when the next block comes.
func startFirst(t *rapid.T, c *TreeCase) {
	own := map[int]bool{}
	for _, a := range newTree(c).ancestors(c.Start) {
		own[a] = true
	}
	var first, rest []Ev
	for _, e := range c.Events {
		if own[e.Blk] {
			first = append(first, e)
		} else {
			rest = append(rest, e)
		}
	}
	if rapid.Bool().Draw(t, "withstart") {
		rest = append(first, rest...)
	}
	c.Events = rest
}

// genInitEmpty: no block to resume from; parents come first, at least until
// more blocks were released than a consumer starts with ("the first several").
func genInitEmpty(t *rapid.T, c *TreeCase, later bool) {
	c.Thr = int64(len(c.Nodes)) + 2
	c.Start = -1
	ordered := len(c.Nodes)
	if later && rapid.Bool().Draw(t, "later") {
		ordered = rapid.IntRange(12, 16).Draw(t, "ordered")
	}
	order := make([]int, len(c.Nodes))
	for i := range order {
		order[i] = i
	}
	if ordered < len(order) {
		copy(order[ordered:], rapid.Permutation(order[ordered:]).Draw(t, "order"))
	}
	for i, blk := range order {
		c.Events = append(c.Events, Ev{Blk: blk, Msg: rapid.Bool().Draw(t, "msg")})
		if rapid.IntRange(0, 5).Draw(t, "dup") == 0 {
			c.Events = append(c.Events, Ev{Blk: order[rapid.IntRange(0, i).Draw(t, "dupi")], Msg: rapid.Bool().Draw(t, "msg")})
		}
	}
}

func interesting(o *core.Outcome) {
	o.NonTrivial = false
	for _, t := range o.Tags {
		if t == "reorg" || t == "child-before-parent" {
			o.NonTrivial = true
		}
	}
}

func TestC06(t *testing.T) {
	core.Run(t, "C06", func(t *rapid.T) TreeCase {
		var c TreeCase
		genTree(t, &c, rapid.IntRange(2, 24).Draw(t, "n"), true)
		switch rapid.IntRange(0, 5).Draw(t, "mode") {
		case 0:
			genInitEmpty(t, &c, true)
			if rapid.IntRange(0, 3).Draw(t, "small") == 0 {
				c.Thr = rapid.Int64Range(1, 8).Draw(t, "thr")
			}
		default:
			genHistory(t, &c, false)
			c.Unquiet = rapid.Bool().Draw(t, "unquiet")
			if rapid.Bool().Draw(t, "small") { // with the window too small for the tree
				c.Thr = rapid.Int64Range(1, 6).Draw(t, "thr")
			}
		}
		return c
	}, func(t *testing.T, c TreeCase) core.Outcome {
		o := runTree(t, &c, want{safe: true})
		interesting(&o)
		return o
	})
}

func TestC07(t *testing.T) {
	core.Run(t, "C07", func(t *rapid.T) TreeCase {
		var c TreeCase
		genTree(t, &c, rapid.IntRange(2, 20).Draw(t, "n"), true)
		if rapid.IntRange(0, 5).Draw(t, "mode") == 0 {
			genInitEmpty(t, &c, true)
		} else {
			genHistory(t, &c, rapid.Bool().Draw(t, "all"))
			startFirst(t, &c)
			c.Unquiet = rapid.IntRange(0, 3).Draw(t, "unquiet") == 0
		}
		return c
	}, func(t *testing.T, c TreeCase) core.Outcome {
		o := runTree(t, &c, want{best: true})
		interesting(&o)
		return o
	})
}

// genLong draws a long history in which no reorg goes back by more than
// 2*Thr deliveries.
func genLong(t *rapid.T, c *TreeCase) {
	c.Style = rapid.IntRange(0, 3).Draw(t, "style")
	c.BaseNum = rapid.SampledFrom([]int64{0, 1, 100, 1 << 33}).Draw(t, "bn")
	c.WBits = rapid.SampledFrom([]uint{0, 0, 64}).Draw(t, "wbits")
	c.Thr = rapid.Int64Range(2, 12).Draw(t, "thr")
	win := rapid.IntRange(0, int(c.Thr)/2).Draw(t, "win")
	reach := 2*int(c.Thr) - 2*win
	forks := rapid.IntRange(0, 6).Draw(t, "forks") // of 10
	n := rapid.IntRange(int(c.Thr)*4, int(c.Thr)*4+rapid.SampledFrom([]int{20, 150}).Draw(t, "len")).Draw(t, "n")
	c.Nodes = []Node{{}}
	weight, depth, pos := []int64{0}, []int{0}, []int{0}
	lca := func(a, b int) int {
		for a != b {
			if depth[a] >= depth[b] {
				a = c.Nodes[a].Parent
			} else {
				b = c.Nodes[b].Parent
			}
		}
		return a
	}
	best := 0
	c.Events = nil
	seq := []int{0}
	for len(seq) < n {
		if rapid.IntRange(0, 9).Draw(t, "re") == 0 {
			seq = append(seq, seq[rapid.IntRange(0, len(seq)-1).Draw(t, "which")])
			continue
		}
		p := best
		if rapid.IntRange(0, 9).Draw(t, "f") < forks {
			p = seq[rapid.IntRange(max(0, len(seq)-reach), len(seq)-1).Draw(t, "p")]
			// the blocks that may be the head by the time this one arrives
			root := lca(p, best)
			for _, x := range seq[max(0, len(seq)-2*win-1):] {
				if pos[x] >= len(seq)-reach {
					root = lca(root, x)
				}
			}
			if pos[root] < len(seq)-reach {
				p = best
			}
		}
		inc := genInc(t)
		c.Nodes = append(c.Nodes, Node{p, inc})
		i := len(c.Nodes) - 1
		weight, depth, pos = append(weight, weight[p]+inc), append(depth, depth[p]+1), append(pos, len(seq))
		if weight[i] > weight[best] {
			best = i
		}
		seq = append(seq, i)
	}
	for i := 0; win > 0 && i+win < len(seq); i += win + 1 {
		if rapid.Bool().Draw(t, "shuf") {
			copy(seq[i:], rapid.Permutation(append([]int{}, seq[i:i+win+1]...)).Draw(t, "perm"))
		}
	}
	split := rapid.IntRange(0, 3).Draw(t, "split")
	tr := newTree(c)
	high, seen := int64(0), map[int]bool{} // the highest number so far
	for k, i := range seq {
		e := Ev{Blk: i, Msg: rapid.IntRange(0, 9).Draw(t, "msg") < 2}
		high = max(high, tr.num[i])
		if k > 0 && !seen[i] && tr.num[i] >= high-c.Thr && rapid.IntRange(0, 9).Draw(t, "part") < split {
			e.Last = rapid.IntRange(0, 2).Draw(t, "last") == 0
			e.Early, e.Msg = rapid.IntRange(1, min(k, max(1, int(c.Thr)/2))).Draw(t, "early"), e.Last || rapid.IntRange(0, 3).Draw(t, "whole") > 0
		}
		seen[i] = true
		c.Events = append(c.Events, e)
	}
	if win == 0 && rapid.IntRange(0, 3).Draw(t, "empty") == 0 {
		c.Start = -1 // no block to resume from
	}
	c.Live = int(2*c.Thr) + win + 4
	if rapid.Bool().Draw(t, "ghosts") {
		c.Ghost = rapid.IntRange(2, 5).Draw(t, "ghost")
	}
}

func TestC08(t *testing.T) {
	core.Run(t, "C08", func(t *rapid.T) TreeCase {
		var c TreeCase
		if rapid.IntRange(0, 39).Draw(t, "soak") == 39 {
			genSoak(t, &c)
		} else {
			genLong(t, &c)
		}
		return c
	}, func(t *testing.T, c TreeCase) core.Outcome {
		o := runTree(t, &c, want{safe: true, tip: true, live: true})
		interesting(&o)
		return o
	})
}

// genWhitelist fixes the block at some heights.
func genWhitelist(t *rapid.T, c *TreeCase) {
	c.Whitelist = map[int]int{}
	tr := newTree(c)
	top := int(tr.num[len(c.Nodes)-1] - c.BaseNum)
	for _, n := range tr.num {
		top = max(top, int(n-c.BaseNum))
	}
	own := map[int]int{}
	if c.Start >= 0 {
		for _, a := range tr.ancestors(c.Start) {
			own[int(tr.num[a]-c.BaseNum)] = a
		}
	}
	for k := rapid.IntRange(1, 3).Draw(t, "wl"); k > 0; k-- {
		n := rapid.IntRange(0, top).Draw(t, "wn")
		var at []int
		for i := range c.Nodes {
			if int(tr.num[i]-c.BaseNum) == n {
				at = append(at, i)
			}
		}
		if a, ok := own[n]; ok { // what the consumer resumes from complies
			c.Whitelist[n] = a
		} else if c.Start < 0 && n == 0 || rapid.IntRange(0, 5).Draw(t, "wk") > 0 {
			c.Whitelist[n] = at[rapid.IntRange(0, len(at)-1).Draw(t, "wi")]
		} else {
			c.Whitelist[n] = -1
		}
	}
}

func TestC09(t *testing.T) {
	core.Run(t, "C09", func(t *rapid.T) TreeCase {
		var c TreeCase
		genTree(t, &c, rapid.IntRange(2, 20).Draw(t, "n"), true)
		if rapid.IntRange(0, 5).Draw(t, "mode") == 0 {
			genInitEmpty(t, &c, false)
		} else {
			genHistory(t, &c, rapid.Bool().Draw(t, "all"))
			startFirst(t, &c)
			c.Unquiet = rapid.IntRange(0, 3).Draw(t, "unquiet") == 0
		}
		genWhitelist(t, &c)
		return c
	}, func(t *testing.T, c TreeCase) core.Outcome {
		o := runTree(t, &c, want{white: true, best: true})
		tr := newTree(&c)
		o.NonTrivial = false
		for _, e := range c.Events {
			if !tr.allowed(e.Blk) {
				o.NonTrivial = true
			}
		}
		return o
	})
}

// genSignal draws a history, then a large reorg: the signal and a chain of
// blocks not seen before, of any weight, built on the block it names.
func genSignal(t *rapid.T, c *TreeCase) {
	genTree(t, c, rapid.IntRange(2, 12).Draw(t, "n"), false)
	c.BaseNum %= 1 << 20
	genInitEmpty(t, c, false)
	c.Start = c.Events[0].Blk // resumes from the oldest block
	c.Thr = 40
	small := rapid.IntRange(0, 2).Draw(t, "small") == 0
	if small { // most of what came before is forgotten
		c.Thr = int64(rapid.IntRange(1, 5).Draw(t, "thr"))
	}
	n := len(c.Nodes)
	unseen := map[int]bool{}
	for k := rapid.IntRange(1, 3).Draw(t, "signals"); k > 0; k-- {
		to := rapid.IntRange(0, n-1).Draw(t, "to")
		if rapid.IntRange(0, 3).Draw(t, "unseen") == 0 { // a block that never came here
			c.Nodes = append(c.Nodes, Node{to, genInc(t)})
			to = len(c.Nodes) - 1
			unseen[to] = true
		}
		signal := len(c.Events)
		c.Events = append(c.Events, Ev{Blk: to, Reorg: true})
		tip := to
		for m := rapid.IntRange(1, 5).Draw(t, "m"); m > 0; m-- {
			c.Nodes = append(c.Nodes, Node{tip, genInc(t)})
			tip = len(c.Nodes) - 1
			e := Ev{Blk: tip, Msg: rapid.Bool().Draw(t, "msg")}
			if back := len(c.Events) - signal; rapid.IntRange(0, 3).Draw(t, "part") == 0 { // of which a part came before the signal
				e.Early, e.Full = min(len(c.Events), back+rapid.IntRange(1, 12).Draw(t, "early")), true
			}
			c.Events = append(c.Events, e)
			if rapid.IntRange(0, 4).Draw(t, "dup") == 0 {
				c.Events = append(c.Events, Ev{Blk: tip, Msg: e.Msg})
			}
			old := rapid.IntRange(0, n-1).Draw(t, "oldb")
			if !c.Race && !small && !unseen[old] && rapid.IntRange(0, 3).Draw(t, "old") == 0 { // one from before
				c.Events = append(c.Events, Ev{Blk: old, Msg: rapid.IntRange(0, 3).Draw(t, "msg") > 0})
			}
		}
		if !c.Race && rapid.IntRange(0, 2).Draw(t, "orphan") == 0 { // children of the new tip that came long before it
			for m := rapid.IntRange(1, 2).Draw(t, "orphans"); m > 0; m-- {
				c.Nodes = append(c.Nodes, Node{tip, genInc(t)})
				at := rapid.IntRange(1, signal).Draw(t, "orphanAt")
				c.Events = slices.Insert(c.Events, at, Ev{Blk: len(c.Nodes) - 1, Orphan: true})
				signal++
			}
		}
		n = len(c.Nodes)
	}
}

// genSeen draws two chains on one block, of which the consumer follows the
// first; then a signal to that block, and all of the second chain again with
// enough further blocks to be the heaviest.
func genSeen(t *rapid.T, c *TreeCase) {
	c.Style = rapid.IntRange(0, 3).Draw(t, "style")
	c.BaseNum, c.BaseW = rapid.Int64Range(0, 100).Draw(t, "bn"), rapid.Int64Range(1, 300).Draw(t, "bw")
	c.Seen = true
	c.Thr = int64(rapid.IntRange(1, 12).Draw(t, "thr"))
	add := func(p int, inc int64) int {
		c.Nodes = append(c.Nodes, Node{p, inc})
		return len(c.Nodes) - 1
	}
	msg := func() bool { return rapid.Bool().Draw(t, "msg") }
	anc := add(0, 1)
	c.Events = append(c.Events, Ev{Blk: anc})
	for k := rapid.IntRange(0, 4).Draw(t, "common"); k > 0; k-- {
		anc = add(anc, genInc(t))
		c.Events = append(c.Events, Ev{Blk: anc, Msg: msg()})
	}
	x, y := anc, anc
	var wx, wy int64
	var other []int
	for k := rapid.IntRange(1, 24).Draw(t, "chains"); k > 0; k-- {
		if rapid.Bool().Draw(t, "second") {
			inc := genInc(t)
			y = add(y, inc)
			wy += inc
			other = append(other, y)
			c.Events = append(c.Events, Ev{Blk: y, Msg: msg()})
		} else {
			inc := genInc(t)
			x = add(x, inc)
			wx += inc
			c.Events = append(c.Events, Ev{Blk: x, Msg: msg()})
		}
	}
	c.Events = append(c.Events, Ev{Blk: anc, Reorg: true})
	for _, b := range other {
		c.Events = append(c.Events, Ev{Blk: b, Msg: msg()})
	}
	for k := rapid.IntRange(1, 3).Draw(t, "more"); k > 0; k-- {
		inc := genInc(t)
		if k == 1 {
			inc = max(inc, wx-wy+1)
		}
		wy += inc
		y = add(y, inc)
		c.Events = append(c.Events, Ev{Blk: y, Msg: msg()})
	}
}

func TestC10(t *testing.T) {
	core.Run(t, "C10", func(t *rapid.T) TreeCase {
		var c TreeCase
		if rapid.IntRange(0, 3).Draw(t, "seen") == 0 {
			genSeen(t, &c)
			return c
		}
		c.Race = rapid.IntRange(0, 2).Draw(t, "race") == 0
		genSignal(t, &c)
		return c
	}, func(t *testing.T, c TreeCase) core.Outcome {
		return runTree(t, &c, want{safe: true, reorgSignal: true})
	})
}
