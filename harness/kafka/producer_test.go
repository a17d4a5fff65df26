package kafka

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

const (
	oAdd     = iota // producer P announces block Blk
	oSub            // producer P sends sub-batch Sub of block Blk
	oNew            // producer P starts
	oForeign        // the header of block Blk arrives from elsewhere in partition Part
	oNoise          // N messages without a key arrive in partition Part
	oPurge          // producer P forgets what it has seen
	oTrim           // partition Part keeps N messages
	oBurst          // the headers of N other blocks arrive in partition Part
	oFollow         // so do those of N blocks that producer P announces then
	oShaky          // another producer starts, and F happens to its requests
)

// POp is one step. Steps up to one that settles run at the same time, in
// order per producer.
type POp struct {
	Kind, P, Blk, Sub, Part, N int
	Settle                     bool
	Gap                        int64
	F                          *Fault `json:",omitempty"`
}

// ProdCase is a history of producers of one cluster.
type ProdCase struct {
	Style, Brokers int
	Fams           []int
	Scheme         string
	Options        string
	Parts          map[string]int
	Blocks         []gen.Block
	Ops            []POp
}

type tri int

const (
	no tri = iota
	maybe
	yes
)

type prodModel struct {
	p    transports.Producer
	seen map[int]bool
	edge map[int]bool // at the edge of the window when it started
	pend map[int]tri  // by sub-batch
	skip map[int]tri
}

type span struct{ lo, hi int }

type prodRun struct {
	c       *ProdCase
	w       *world
	fc      *sarama.FakeCluster
	pm      []*prodModel
	read    map[string]int64 // next offset to look at
	ours    map[string]bool  // appended by the harness
	loose   map[int]bool     // headers appended since things last settled
	where   map[string]int   // topic and key -> partition
	msgs    map[string]*wantMsg
	sends   int
	skips   int
	races   int
	purges  int
	windows int
}

type wantMsg struct {
	blk, sub int
	msg      gen.Msg
}

func headerOf(b *gen.Block, style int) gen.Msg {
	for _, m := range b.Encode(style) {
		if m.K[0] == 0 {
			return m
		}
	}
	panic("no header")
}

func sameValue(m gen.Msg, v []byte) error {
	if m.K[0] != 0 {
		if m.K[0] == 2 {
			w, _ := gen.DecodeSub(m.V)
			g, err := gen.DecodeSub(v)
			if err != nil {
				return err
			}
			if len(w.Delete)+len(g.Delete) > 0 && !reflect.DeepEqual(w.Delete, g.Delete) || len(w.Updates)+len(g.Updates) > 0 && !reflect.DeepEqual(w.Updates, g.Updates) {
				return fmt.Errorf("is %v, want %v", g, w)
			}
			return nil
		}
		if !bytes.Equal(m.V, v) {
			return fmt.Errorf("is %x, want %x", v, m.V)
		}
		return nil
	}
	w, _ := gen.DecodeHeader(m.V)
	g, err := gen.DecodeHeader(v)
	if err != nil {
		return err
	}
	if !reflect.DeepEqual(w, g) {
		return fmt.Errorf("is %v, want %v", g, w)
	}
	return nil
}

// settle waits for everything to come to rest and compares what has been
// written with what could have been.
func (r *prodRun) settle(blocks, subs map[int]span) error {
	rest := 5 * time.Second
	if strings.Contains(r.c.Options, "max.waittime=3000") {
		rest = 12 * time.Second // a partition may join after several fetches
	}
	time.Sleep(rest)
	synctest.Wait()
	count := map[string]int{}
	for _, l := range logs(r.fc) {
		src := fmt.Sprintf("%s:%d", l.topic, l.part)
		if l.rec.Offset < r.read[src] {
			continue
		}
		r.read[src] = l.rec.Offset + 1
		if l.topic == "default" && len(l.rec.Key) == 33 && l.rec.Key[0] == 0 {
			for i := range r.c.Blocks {
				h := gen.Hash(r.c.Style, r.c.Blocks[i].ID)
				if bytes.Equal(h[:], l.rec.Key[1:]) {
					for _, m := range r.pm {
						if m != nil {
							m.seen[i] = true
						}
					}
				}
			}
		}
		if r.ours[fmt.Sprintf("%s/%d", src, l.rec.Offset)] || len(l.rec.Key) > 0 && l.rec.Key[0] == byte(delivery.PingType) {
			continue
		}
		k := l.topic + "\x00" + string(l.rec.Key)
		w := r.msgs[k]
		if w == nil {
			return fmt.Errorf("%s holds a message with the unexpected key %x", src, l.rec.Key)
		}
		if err := sameValue(w.msg, l.rec.Value); err != nil {
			return fmt.Errorf("%s: the value of message %x of block %d %v", src, l.rec.Key, r.c.Blocks[w.blk].ID, err)
		}
		if at, ok := r.where[k]; ok && at != l.part {
			return fmt.Errorf("message %x is in partitions %d and %d of %s", l.rec.Key, at, l.part, l.topic)
		}
		r.where[k] = l.part
		count[k]++
	}
	got := map[[2]int]int{}
	for k, w := range r.msgs {
		id := [2]int{w.blk, w.sub}
		n, ok := got[id]
		if ok && n != count[k] {
			return fmt.Errorf("block %d, sub-batch %d: one message was sent %d times, and %x %d times", r.c.Blocks[w.blk].ID, w.sub, n, w.msg.K, count[k])
		}
		got[id] = count[k]
		s := blocks[w.blk]
		what := fmt.Sprintf("block %d", r.c.Blocks[w.blk].ID)
		if w.sub >= 0 {
			s = subs[w.sub]
			what = fmt.Sprintf("sub-batch %d", w.sub)
		}
		if count[k] < s.lo || count[k] > s.hi {
			return fmt.Errorf("message %x (%s) was sent %d times, expected %d to %d", w.msg.K, what, count[k], s.lo, s.hi)
		}
	}
	r.loose = map[int]bool{}
	return nil
}

var errStuck = errors.New("starting a producer does not end")

func (r *prodRun) resolve() (p transports.Producer, err error) {
	made := make(chan struct{})
	addr := ""
	for b := 1; b <= r.c.Brokers; b++ {
		addr += "," + r.fc.Addr(b)
	}
	go func() {
		p, err = transports.ResolveProducerWithResumer(r.c.Scheme+addr[1:]+r.c.Options, "default", gen.Schema(r.c.Fams), nil)
		close(made)
	}()
	select {
	case <-made:
	case <-time.After(2 * time.Minute):
		return nil, errStuck
	}
	return p, err
}

// shaky starts a producer that nobody uses while requests fail. It may say why
// it does not start.
func (r *prodRun) shaky(f Fault) error {
	if err := r.settle(nil, nil); err != nil {
		return err
	}
	r.w.mu.Lock()
	r.w.faults = []Fault{f}
	r.w.mu.Unlock()
	_, err := r.resolve()
	r.w.mu.Lock()
	r.w.faults = nil
	r.w.mu.Unlock()
	if err == errStuck {
		return fmt.Errorf("%v after some %ss failed", err, f.API)
	}
	return r.settle(nil, nil)
}

func (r *prodRun) start(i int, eager bool) error {
	if err := r.settle(nil, nil); err != nil {
		return err
	}
	time.Sleep(time.Millisecond)
	ends := map[int]int64{}
	for part := 0; part < r.fc.Partitions("default"); part++ {
		if l := r.fc.Log("default", part); len(l) > 0 {
			ends[part] = l[len(l)-1].Offset + 1
		}
	}
	p, err := r.resolve()
	if err != nil {
		return fmt.Errorf("starting a producer: %v", err)
	}
	m := &prodModel{p: p, seen: map[int]bool{}, edge: map[int]bool{}, pend: map[int]tri{}, skip: map[int]tri{}}
	r.pm[i] = m
	out := 0
	for part := 0; part < r.fc.Partitions("default"); part++ {
		l := r.fc.Log("default", part)
		for _, rec := range l {
			if len(rec.Key) != 33 || rec.Key[0] != 0 {
				continue
			}
			if rec.Offset < ends[part]-100 {
				out++
				continue
			}
			// heartbeats may have arrived while it started
			set := m.seen
			if rec.Offset < l[len(l)-1].Offset+1-100 {
				set = m.edge
			}
			for b := range r.c.Blocks {
				h := gen.Hash(r.c.Style, r.c.Blocks[b].ID)
				if bytes.Equal(h[:], rec.Key[1:]) {
					set[b] = true
				}
			}
		}
	}
	if out > 0 {
		r.windows++
	}
	if eager { // it is used the moment it has started
		return nil
	}
	return r.settle(nil, nil)
}

// run makes the calls of a group and compares.
func (r *prodRun) run(group []POp) error {
	blocks, subs := map[int]span{}, map[int]span{}
	bump := func(m map[int]span, k, lo, hi int) {
		s := m[k]
		m[k] = span{s.lo + lo, s.hi + hi}
	}
	adders := map[int]map[int]bool{} // block -> producers that may send it
	for _, op := range group {
		if op.Kind == oAdd && !r.pm[op.P].seen[op.Blk] {
			if adders[op.Blk] == nil {
				adders[op.Blk] = map[int]bool{}
			}
			adders[op.Blk][op.P] = true
		}
	}
	done := map[[2]int]bool{}
	want := make([]func(error) error, len(group))
	for i, op := range group {
		m := r.pm[op.P]
		b := &r.c.Blocks[op.Blk]
		what := fmt.Sprintf("producer %d, block %d", op.P, b.ID)
		ok := func(err error) error {
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			return nil
		}
		if op.Kind == oAdd {
			want[i] = ok
			risky := r.loose[op.Blk] || m.edge[op.Blk] || done[[2]int{op.P, op.Blk}]
			for p := range adders[op.Blk] {
				risky = risky || p != op.P
			}
			switch {
			case m.seen[op.Blk]:
				r.skips++
				for k := range b.Subs {
					m.skip[b.Subs[k].ID] = yes
				}
			case !risky:
				r.sends++
				bump(blocks, op.Blk, 1, 1)
				for k := range b.Subs {
					m.pend[b.Subs[k].ID] = yes
				}
			default:
				r.races++
				bump(blocks, op.Blk, 0, 1)
				for k := range b.Subs {
					id := b.Subs[k].ID
					m.pend[id] = max(m.pend[id], maybe)
					m.skip[id] = max(m.skip[id], maybe)
				}
			}
			done[[2]int{op.P, op.Blk}] = true
			continue
		}
		id := b.Subs[op.Sub].ID
		what += fmt.Sprintf(", sub-batch %d", id)
		unknown := func(err error) error {
			if err != delivery.ErrUnknownBatch {
				return fmt.Errorf("%s: error is %v, want %v", what, err, delivery.ErrUnknownBatch)
			}
			return nil
		}
		either := func(err error) error {
			if err != nil {
				return unknown(err)
			}
			return nil
		}
		switch {
		case m.pend[id] == yes:
			want[i] = ok
			bump(subs, id, 1, 1)
		case m.pend[id] == maybe && m.skip[id] == no:
			want[i] = either
			bump(subs, id, 0, 1)
		case m.pend[id] == maybe:
			want[i] = ok
			bump(subs, id, 0, 1)
		case m.skip[id] == yes:
			want[i] = ok
		case m.skip[id] == maybe:
			want[i] = either
		default:
			want[i] = unknown
		}
		m.pend[id] = no
	}
	// The first announcement of a racing block is sent by somebody.
	for b, ps := range adders {
		edge := false
		for p := range ps {
			edge = edge || r.pm[p].edge[b]
		}
		if edge {
			continue
		}
		if s := blocks[b]; s.lo == 0 && len(ps) > 0 && !r.loose[b] {
			blocks[b] = span{1, s.hi}
		}
	}
	errs := make([]error, len(group))
	var wg sync.WaitGroup
	for p := range r.pm {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, op := range group {
				if op.P != p {
					continue
				}
				b := &r.c.Blocks[op.Blk]
				if op.Kind == oAdd {
					num, hash, parent, weight, up, del, subs := b.Args(r.c.Style)
					errs[i] = r.pm[p].p.AddBlock(num, hash, parent, weight, up, del, subs)
				} else {
					d, u := b.Subs[op.Sub].SubArgs()
					errs[i] = r.pm[p].p.SendBatch(gen.SubID(r.c.Style, b.Subs[op.Sub].ID), d, u)
				}
			}
		}()
	}
	wg.Wait()
	if err := r.settle(blocks, subs); err != nil {
		return err
	}
	for i := range group {
		if err := want[i](errs[i]); err != nil {
			return err
		}
	}
	return nil
}

func (r *prodRun) append(part int, key, value []byte) {
	off := r.fc.Append("default", part, key, value, time.Now())
	r.ours[fmt.Sprintf("default:%d/%d", part, off)] = true
}

// follow lets n blocks that are none of the case's arrive from elsewhere, and
// announces them.
func (r *prodRun) follow(op POp, part int) error {
	if err := r.settle(nil, nil); err != nil {
		return err
	}
	v := headerOf(&r.c.Blocks[0], r.c.Style).V
	const base = 70000
	for k := 0; k < op.N; k++ {
		h := gen.Hash(r.c.Style, base+k)
		r.append(part, append([]byte{0}, h[:]...), v)
	}
	if err := r.settle(nil, nil); err != nil || op.Kind == oBurst {
		return err
	}
	for k := 0; k < op.N; k++ {
		subs := map[string]types.Hash{}
		for j := 0; j < 3; j++ {
			subs[fmt.Sprintf("f/%d", j)] = gen.SubID(r.c.Style, base+3*k+j)
		}
		if err := r.pm[op.P].p.AddBlock(int64(k), gen.Hash(r.c.Style, base+k), gen.Hash(r.c.Style, base+k-1), big.NewInt(1), nil, nil, subs); err != nil {
			return fmt.Errorf("announcing a block that had arrived: %v", err)
		}
	}
	return r.settle(nil, nil)
}

func runProd(c *ProdCase) (o core.Outcome) {
	w := newWorld(c.Brokers)
	r := &prodRun{c: c, w: w, fc: w.clusters[0], pm: make([]*prodModel, 3), read: map[string]int64{}, ours: map[string]bool{}, loose: map[int]bool{}, where: map[string]int{}, msgs: map[string]*wantMsg{}}
	for i := range c.Blocks {
		for _, m := range c.Blocks[i].Encode(c.Style) {
			x := &wantMsg{blk: i, sub: -1, msg: m}
			if m.K[0] == 1 || m.K[0] == 2 {
				for k := range c.Blocks[i].Subs {
					id := gen.SubID(c.Style, c.Blocks[i].Subs[k].ID)
					if bytes.Equal(m.K[33:65], id[:]) {
						x.sub = c.Blocks[i].Subs[k].ID
					}
				}
			}
			r.msgs[m.Topic+"\x00"+string(m.K)] = x
		}
	}
	for i, t := range topicsOf(c.Fams) {
		if n := c.Parts[t]; n > 0 {
			r.fc.Create(t, spread(n, c.Brokers, i))
		}
	}
	var group []POp
	flush := func() error {
		g := group
		group = nil
		if len(g) == 0 {
			return nil
		}
		return r.run(g)
	}
	for _, op := range c.Ops {
		var err error
		if op.Kind > oSub {
			err = flush()
		}
		if op.Gap > 0 && err == nil {
			if err = flush(); err == nil {
				time.Sleep(time.Duration(op.Gap) * time.Millisecond)
				err = r.settle(nil, nil)
			}
		}
		if err != nil {
			return core.Outcome{Err: err}
		}
		op.Blk %= len(c.Blocks)
		op.P %= len(r.pm)
		if n := len(c.Blocks[op.Blk].Subs); n > 0 {
			op.Sub %= n
		} else if op.Kind == oSub {
			continue
		}
		if (op.Kind <= oSub || op.Kind == oPurge || op.Kind == oFollow) && r.pm[op.P] == nil {
			op.P = 0
			if r.pm[0] == nil {
				if err := r.start(0, op.Settle); err != nil {
					return core.Outcome{Err: err}
				}
			}
		}
		part := 0
		if n := r.fc.Partitions("default"); n > 0 {
			part = op.Part % n
		} else if op.Kind >= oForeign {
			continue
		}
		switch op.Kind {
		case oAdd, oSub:
			group = append(group, op)
			if op.Settle {
				err = flush()
			}
		case oNew:
			if r.pm[op.P] == nil {
				err = r.start(op.P, op.Settle)
			}
		case oForeign:
			h := headerOf(&c.Blocks[op.Blk], c.Style)
			r.append(part, h.K, h.V)
			if op.Settle {
				err = r.settle(nil, nil)
			} else {
				r.loose[op.Blk] = true
			}
		case oNoise:
			for k := 0; k < op.N; k++ {
				key, value := foreign(op.P + 5*part + k)
				r.append(part, key, value)
			}
		case oShaky:
			err = r.shaky(*op.F)
			o.Tags = append(o.Tags, "shaky-start")
		case oBurst, oFollow:
			err = r.follow(op, part)
			o.Tags = append(o.Tags, "burst")
		case oPurge:
			if err = r.settle(nil, nil); err == nil {
				r.pm[op.P].p.PurgeReplayCache()
				r.pm[op.P].seen, r.pm[op.P].edge = map[int]bool{}, map[int]bool{}
				r.pm[op.P].skip = map[int]tri{}
				r.purges++
			}
		case oTrim:
			if err = r.settle(nil, nil); err == nil {
				if l := r.fc.Log("default", part); len(l) > 0 {
					r.fc.Trim("default", part, l[len(l)-1].Offset+1-int64(op.N))
				}
			}
		}
		if err != nil {
			return core.Outcome{Err: err}
		}
	}
	if err := flush(); err != nil {
		return core.Outcome{Err: err}
	}
	if len(r.fc.BadReqs) > 0 {
		return core.Fail("the cluster did not understand a request: %v", r.fc.BadReqs)
	}
	for k, n := range map[string]int{"sent": r.sends, "skipped": r.skips, "race": r.races, "purge": r.purges, "beyond-window": r.windows} {
		if n > 0 {
			o.Tags = append(o.Tags, k)
		}
	}
	o.NonTrivial = r.sends > 0 && (r.skips > 0 || r.races > 0)
	return o
}

func TestC16(t *testing.T) {
	core.Run(t, "C16", func(t *rapid.T) ProdCase {
		c := ProdCase{Style: []int{0, 2, 3}[rapid.IntRange(0, 2).Draw(t, "style")], Brokers: rapid.IntRange(1, 3).Draw(t, "brokers")}
		c.Fams = gen.GenFamilies(t)
		if len(c.Fams) > 3 {
			c.Fams = c.Fams[:3]
		}
		c.Scheme = []string{"kafka://", "cardinal://kafka://"}[rapid.IntRange(0, 1).Draw(t, "scheme")]
		c.Options = genOptions(t)
		c.Parts = genParts(t, topicsOf(c.Fams))
		c.Blocks = genTree(t, 5, 3, c.Fams)
		counts := []int{3, 60, 99, 100, 101, 150}
		for k := rapid.IntRange(0, 4).Draw(t, "before"); k > 0; k-- {
			op := POp{Kind: oForeign, Blk: rapid.IntRange(0, 4).Draw(t, "blk"), Part: rapid.IntRange(0, 3).Draw(t, "part"), Settle: true}
			if rapid.Bool().Draw(t, "noise") {
				op = POp{Kind: oNoise, Part: op.Part, N: counts[rapid.IntRange(0, 5).Draw(t, "n")]}
				if rapid.IntRange(0, 3).Draw(t, "trim") == 0 {
					op.Kind, op.N = oTrim, 0
				}
			}
			if len(c.Ops) == 0 {
				c.Parts["default"] = rapid.IntRange(1, 3).Draw(t, "dparts")
			}
			c.Ops = append(c.Ops, op)
		}
		kinds := []int{oAdd, oSub, oAdd, oSub, oNew, oAdd, oSub, oForeign, oPurge, oAdd, oNew, oNoise, oTrim, oAdd, oSub}
		for k := rapid.IntRange(2, 9).Draw(t, "ops3") * 3; k > 0; k-- {
			op := POp{Kind: kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")], P: rapid.IntRange(0, 2).Draw(t, "p"), Blk: rapid.IntRange(0, 4).Draw(t, "blk")}
			op.Settle = rapid.IntRange(0, 2).Draw(t, "settle") > 0
			op.Gap = []int64{0, 0, 0, 0, 1000, 31000}[rapid.IntRange(0, 5).Draw(t, "gap")]
			switch op.Kind {
			case oSub:
				op.Sub = rapid.IntRange(0, 1).Draw(t, "sub")
			case oForeign:
				op.Part = rapid.IntRange(0, 3).Draw(t, "part")
			case oNoise:
				op.Part, op.N = rapid.IntRange(0, 3).Draw(t, "part"), counts[rapid.IntRange(0, 5).Draw(t, "n")]
			case oTrim:
				op.Part, op.N = rapid.IntRange(0, 3).Draw(t, "part"), []int{0, 1, 2, 99, 100, 101}[rapid.IntRange(0, 5).Draw(t, "keep")]
			}
			c.Ops = append(c.Ops, op)
		}
		if rapid.IntRange(0, 4).Draw(t, "shaky") == 0 {
			op := POp{Kind: oShaky, F: &Fault{API: rapid.SampledFrom([]string{"OffsetRequest", "OffsetRequest", "MetadataRequest", "FetchRequest", "CreateTopicsRequest"}).Draw(t, "api"), N: rapid.IntRange(1, 6).Draw(t, "times"), Kind: rapid.IntRange(0, 3).Draw(t, "fkind"), Delay: rapid.SampledFrom([]int64{1, 900, 5000}).Draw(t, "fdelay"), Skip: rapid.IntRange(0, 6).Draw(t, "skip")}}
			at := rapid.IntRange(0, len(c.Ops)).Draw(t, "at")
			c.Ops = append(c.Ops[:at:at], append([]POp{op}, c.Ops[at:]...)...)
		}
		if rapid.IntRange(0, 9).Draw(t, "burst") == 0 {
			// once, such that a producer need not remember more than it can
			op := POp{Kind: oBurst, P: rapid.IntRange(0, 2).Draw(t, "p"), Part: rapid.IntRange(0, 3).Draw(t, "part"), N: []int{150, 500, 2000, 3500}[rapid.IntRange(0, 3).Draw(t, "n")]}
			if rapid.Bool().Draw(t, "follow") {
				op.Kind, op.N = oFollow, []int{20, 100, 300}[rapid.IntRange(0, 2).Draw(t, "n")]
			}
			at := rapid.IntRange(0, len(c.Ops)).Draw(t, "at")
			c.Ops = append(c.Ops[:at:at], append([]POp{op}, c.Ops[at:]...)...)
		}
		return c
	}, func(t *testing.T, c ProdCase) core.Outcome {
		var o core.Outcome
		if err := core.Bubble(t, func() { o = runProd(&c) }); err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
