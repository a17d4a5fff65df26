package kafka

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

const (
	ePub     = iota // producer A publishes its next block
	eRepub          // producer A publishes block B again
	eCut            // all connections end
	eDown           // broker A is down for Ms; its partitions move after Elect
	eMove           // partition B of topic A gets another leader
	eFault          // the next requests of a kind fail
	eStart          // consumer A starts
	eRestart        // consumer A is closed and resumes
	eNext           // producer A publishes the first block nobody has published
	eNoise          // N messages without a key in partition B of topic A
)

// Ev is one event of the timeline.
type Ev struct {
	Kind, A, B, N int
	Gap           int64 // ms before it
	Ms            int64
	Elect         int64
	F             Fault
	Extra         int64
	Tight         bool
	Trim          bool
}

// E2ECase is the life of producers, a cluster and consumers.
type E2ECase struct {
	Style     int
	Brokers   int
	Fams      []int
	Scheme    string
	Options   string
	Parts     map[string]int // topics that exist beforehand
	Blocks    []gen.Block
	Linear    bool
	Zero      bool // consumers start without a block
	Producers int
	Events    []Ev
	Finish    bool // everything is published in the end
	Shaky     bool `json:",omitempty"` // requests may fail while a consumer starts
	Large     bool `json:",omitempty"` // one of the values is of more than a megabyte
}

type e2e struct {
	c      *E2ECase
	w      *world
	fc     *sarama.FakeCluster
	topics []string

	mu              sync.Mutex
	prod            []transports.Producer
	jobs            []chan job
	next            []int
	any             int
	busy            int
	perrs           int
	pub             map[int]int
	apps            []*app
	starts          []map[int]bool // per consumer, blocks complete when it started
	readyAt         []bool
	since           []map[int]bool
	restart         int
	overlaps, below int
	ever            map[int]bool // blocks that have been complete
	trimmed         bool
}

type job struct {
	blk  int
	slow int64
}

func (e *e2e) addrs() string {
	var l []string
	for i := 1; i <= e.c.Brokers; i++ {
		l = append(l, e.fc.Addr(i))
	}
	return strings.Join(l, ",")
}

func (e *e2e) url() string { return e.c.Scheme + e.addrs() + e.c.Options }

func (e *e2e) ends() map[string]int64 {
	out := map[string]int64{}
	for _, t := range e.topics {
		for p := 0; p < e.fc.Partitions(t); p++ {
			if l := e.fc.Log(t, p); len(l) > 0 {
				out[fmt.Sprintf("%s:%d", t, p)] = l[len(l)-1].Offset + 1
			}
		}
	}
	return out
}

func (e *e2e) producer(i int) {
	p := e.prod[i]
	for j := range e.jobs[i] {
		b := &e.c.Blocks[j.blk]
		num, hash, parent, weight, up, del, subs := b.Args(e.c.Style)
		err := p.AddBlock(num, hash, parent, weight, up, del, subs)
		for k := range b.Subs {
			if j.slow > 0 {
				time.Sleep(time.Duration(j.slow) * time.Millisecond)
			}
			d, u := b.Subs[k].SubArgs()
			if serr := p.SendBatch(gen.SubID(e.c.Style, b.Subs[k].ID), d, u); serr != nil && err == nil {
				err = serr
			}
		}
		e.mu.Lock()
		if err != nil {
			e.perrs++
		}
		e.pub[b.ID]++
		e.busy--
		e.mu.Unlock()
	}
}

func (e *e2e) publish(i, blk int, slow int64) {
	e.mu.Lock()
	e.busy++
	e.mu.Unlock()
	e.jobs[i] <- job{blk, slow}
}

// releasable: complete, and so are all ancestors.
func (e *e2e) releasable() map[int]bool {
	return e.closure(e.complete())
}

func (e *e2e) complete() map[int]bool {
	for id, ok := range complete(e.fc, e.c.Blocks, e.c.Style) {
		if ok {
			e.ever[id] = true
		}
	}
	return e.ever
}

func (e *e2e) closure(done map[int]bool) map[int]bool {
	out := map[int]bool{0: true}
	for i := range e.c.Blocks {
		b := &e.c.Blocks[i]
		out[b.ID] = done[b.ID] && out[b.Parent]
	}
	return out
}

// missing names the messages of a block which are in no log.
func (e *e2e) missing(id int) string {
	have := map[string]bool{}
	for _, l := range logs(e.fc) {
		have[l.topic+"\x00"+string(l.rec.Key)] = true
	}
	s := ""
	for i := range e.c.Blocks {
		if b := &e.c.Blocks[i]; b.ID == id {
			for _, m := range b.Encode(e.c.Style) {
				if !have[m.Topic+"\x00"+string(m.K)] {
					s += fmt.Sprintf("%s:%x ", m.Topic, m.K)
				}
			}
		}
	}
	return s
}

var errStart = errors.New("Start")

// start starts (or resumes) consumer i.
func (e *e2e) start(i int, token []byte, rollback int64) (err error) {
	a := e.apps[i]
	var con transports.Consumer
	a.mu.Lock()
	h := a.chain[len(a.chain)-1]
	a.mu.Unlock()
	num, weight := e.c.Blocks[0].Num-1, rootWeight(e.c.Blocks)
	if b := a.byHash[h]; b != nil {
		num, weight = b.Num, b.WeightInt()
	}
	begin := func() {
		if con, err = transports.ResolveConsumer(e.url(), "default", e.topics, token, rollback, consumerConfig(h, num, weight)); err != nil {
			return
		}
		a.follow(con)
		e.starts[i] = e.releasable()
		if err = con.Start(); err != nil {
			err = fmt.Errorf("%w: %v", errStart, err)
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	if e.c.Shaky && !e.c.Zero {
		if begin(); err == nil {
			e.readyAt[i] = false
			return nil
		}
		if errors.Is(err, errStart) {
			if err := a.stop(); err != nil {
				return err
			}
		}
	}
	e.w.quiet(begin)
	e.readyAt[i] = false
	return err
}

func (e *e2e) pollReady(i int) error {
	a := e.apps[i]
	if a == nil || e.readyAt[i] || !ready(a.con) {
		return nil
	}
	e.readyAt[i] = true
	if e.c.Zero {
		return nil
	}
	synctest.Wait()
	if e.c.Linear {
		for id := range e.starts[i] {
			if id > 0 && e.starts[i][id] && !a.has(id) {
				return fmt.Errorf("consumer %d is ready, but block %d, which was there when it started, has not been released", i, id)
			}
		}
		return nil
	}
	return e.checkHead(i, e.starts[i], true)
}

// checkHead: the head must be the heaviest of the blocks (or a heavier one).
func (e *e2e) checkHead(i int, rel map[int]bool, atLeast bool) error {
	best, w := 0, rootWeight(e.c.Blocks)
	for k := range e.c.Blocks {
		if b := &e.c.Blocks[k]; rel[b.ID] && b.WeightInt().Cmp(w) > 0 {
			best, w = b.ID, b.WeightInt()
		}
	}
	h := rootWeight(e.c.Blocks)
	id := 0
	if b := e.apps[i].byHash[e.apps[i].head()]; b != nil {
		h, id = b.WeightInt(), b.ID
	}
	if cmp := h.Cmp(w); cmp != 0 && !(atLeast && cmp > 0) {
		return fmt.Errorf("consumer %d is at block %d, but block %d and its ancestors have been published and are heavier", i, id, best)
	}
	return nil
}

func (e *e2e) doRestart(i int, ev Ev) error {
	a := e.apps[i]
	if err := a.stop(); err != nil {
		return err
	}
	e.restart++
	a.mu.Lock()
	h := a.chain[len(a.chain)-1]
	tokText := a.tokens[h]
	b := a.byHash[h]
	a.mu.Unlock()
	if b == nil {
		return e.start(i, nil, 0)
	}
	tok, err := parseToken(tokText)
	if err != nil {
		return err
	}
	// how far ahead of block b the consumer can have read
	seen := a.seen[b.ID]
	later := map[string]int64{}
	order := map[types.Hash]int{}
	for k := range e.c.Blocks {
		order[gen.Hash(e.c.Style, e.c.Blocks[k].ID)] = k
	}
	for _, l := range logs(e.fc) {
		if len(l.rec.Key) < 33 || l.rec.Key[0] > 4 {
			continue
		}
		src := fmt.Sprintf("%s:%d", l.topic, l.part)
		if k, ok := order[types.BytesToHash(l.rec.Key[1:33])]; ok && e.c.Blocks[k].ID > b.ID {
			if o, ok := later[src]; !ok || l.rec.Offset < o {
				later[src] = l.rec.Offset
			}
		}
	}
	for src := range tok {
		known := false
		for _, t := range e.topics {
			known = known || strings.HasPrefix(src, t+":")
		}
		if !known {
			return fmt.Errorf("token %q names %s, which the consumer does not read", tokText, src)
		}
	}
	var rollback, tight int64
	for src, o := range later {
		if n := seen[src] - 1 - o; n > rollback {
			rollback = n
		}
		if at, ok := tok[src]; ok && at-o > tight {
			tight = at - o
		}
	}
	if ev.Tight && tight < rollback {
		rollback = tight
	}
	if tight > 0 {
		e.overlaps++
	}
	rollback += ev.Extra
	if ev.Trim && e.apps[1-i] == nil {
		e.complete()
		e.trimmed = true
		for _, t := range e.topics {
			for p := 0; p < e.fc.Partitions(t); p++ {
				src := fmt.Sprintf("%s:%d", t, p)
				upto, ok := tok[src]
				if o, l := later[src]; l && (!ok || o < upto) {
					upto, ok = o, true
				}
				if ok {
					e.fc.Trim(t, p, upto)
					if at := tok[src]; at-rollback < upto && upto < at && at > rollback {
						e.below++
					}
				}
			}
		}
	}
	if err := e.start(i, []byte(tokText), rollback); err != nil {
		return fmt.Errorf("resuming at block %d with token %q and rollback %d: %v", b.ID, tokText, rollback, err)
	}
	return nil
}

func runE2E(c *E2ECase) (o core.Outcome) {
	w := newWorld(c.Brokers)
	e := &e2e{c: c, w: w, fc: w.clusters[0], topics: topicsOf(c.Fams), pub: map[int]int{}, ever: map[int]bool{}}
	fc := e.fc
	for i, t := range e.topics {
		if n := c.Parts[t]; n > 0 {
			fc.Create(t, spread(n, c.Brokers, i))
		}
	}
	e.jobs = make([]chan job, c.Producers)
	e.next = make([]int, c.Producers)
	for i := range e.jobs {
		time.Sleep(time.Millisecond) // producers are told apart by when they start
		var p transports.Producer
		var err error
		made := make(chan struct{})
		go func() {
			p, err = transports.ResolveProducerWithResumer(e.url(), "default", gen.Schema(c.Fams), nil)
			close(made)
		}()
		select {
		case <-made:
		case <-time.After(time.Hour):
			return core.Fail("starting a producer does not end")
		}
		if err != nil {
			return core.Fail("starting a producer: %v", err)
		}
		e.prod = append(e.prod, p)
		e.jobs[i] = make(chan job, 1000)
		go e.producer(i)
	}
	root := gen.Hash(c.Style, 0)
	if c.Zero {
		root = types.Hash{}
	}
	e.apps = make([]*app, 2)
	e.starts = make([]map[int]bool, 2)
	e.readyAt = make([]bool, 2)
	e.since = make([]map[int]bool, 2)
	begin := func(i int) error {
		e.apps[i] = newApp(c.Blocks, c.Style)
		e.apps[i].chain = []types.Hash{root}
		e.apps[i].ends = e.ends
		e.since[i] = map[int]bool{}
		for id := range e.pub {
			e.since[i][id] = true
		}
		return e.start(i, nil, 0)
	}
	var downs sync.WaitGroup
	for _, ev := range c.Events {
		time.Sleep(time.Duration(ev.Gap) * time.Millisecond)
		synctest.Wait()
		switch ev.Kind {
		case ePub:
			i := ev.A % c.Producers
			if e.next[i] < len(c.Blocks) {
				e.publish(i, e.next[i], ev.Ms)
				e.next[i]++
				e.any = max(e.any, e.next[i])
			}
		case eNext:
			if e.any < len(c.Blocks) {
				k := e.any
				if e.any+1 < len(c.Blocks) && ev.B == 1 {
					// the block after it first
					e.publish((ev.A+1)%c.Producers, k+1, ev.Extra)
					time.Sleep(time.Duration(ev.N) * time.Millisecond)
					e.any++
				}
				e.publish(ev.A%c.Producers, k, ev.Ms)
				e.any++
			}
		case eRepub:
			i := ev.A % c.Producers
			if b := ev.B % len(c.Blocks); b < e.next[i] {
				e.publish(i, b, ev.Ms)
			}
		case eCut:
			fc.Cut()
			w.mu.Lock()
			w.hit["cut"]++
			w.mu.Unlock()
		case eDown:
			id := int32(ev.A%c.Brokers) + 1
			downs.Wait()
			downs.Add(1)
			w.hit["down"]++
			fc.SetUp(id, false)
			go func() {
				defer downs.Done()
				time.Sleep(time.Duration(ev.Elect) * time.Millisecond)
				if c.Brokers > 1 {
					for _, t := range fc.Topics() {
						for p := 0; p < fc.Partitions(t); p++ {
							if fc.Leader(t, p) == id {
								fc.Move(t, p, int32((ev.A+1+p%(c.Brokers-1))%c.Brokers)+1)
							}
						}
					}
					time.Sleep(time.Duration(ev.Ms) * time.Millisecond)
				}
				fc.SetUp(id, true)
			}()
		case eMove:
			t := e.topics[ev.A%len(e.topics)]
			if n := fc.Partitions(t); n > 0 && c.Brokers > 1 {
				fc.Move(t, ev.B%n, int32(ev.N%c.Brokers)+1)
				w.hit["move"]++
			}
		case eFault:
			w.mu.Lock()
			w.faults = append(w.faults, ev.F)
			w.mu.Unlock()
		case eStart:
			i := ev.A % 2
			if e.apps[i] == nil && !e.trimmed {
				downs.Wait()
				if c.Zero {
					for k := 0; k < 600 && e.working(); k++ {
						time.Sleep(100 * time.Millisecond)
					}
					time.Sleep(time.Second)
				}
				if err := begin(i); err != nil {
					return core.Fail("starting a consumer: %v", err)
				}
			}
		case eRestart:
			i := ev.A % 2
			downs.Wait()
			if e.apps[i] == nil && !e.trimmed {
				if err := begin(i); err != nil {
					return core.Fail("starting a consumer: %v", err)
				}
			} else if e.apps[i] != nil && c.Linear {
				// Just after a block was released
				for k, h := 0, e.apps[i].head(); k < ev.N && e.apps[i].head() == h; k++ {
					time.Sleep(time.Millisecond)
				}
				if err := e.doRestart(i, ev); err != nil {
					return core.Outcome{Err: err}
				}
			}
		case eNoise:
			t := e.topics[ev.A%len(e.topics)]
			if n := fc.Partitions(t); n > 0 {
				for k := 0; k < ev.N; k++ {
					key, value := foreign(ev.A + 5*ev.B + k)
					fc.Append(t, ev.B%n, key, value, time.Now())
				}
			}
		}
		for i := range e.apps {
			if err := e.pollReady(i); err != nil {
				return core.Outcome{Err: err}
			}
			if e.apps[i] != nil && e.apps[i].err() != nil {
				return core.Outcome{Err: e.apps[i].err()}
			}
		}
	}
	downs.Wait()
	w.mu.Lock()
	w.faults = nil
	w.mu.Unlock()
	if c.Finish {
		for i := range e.next {
			for ; e.next[i] < len(c.Blocks); e.next[i]++ {
				e.publish(i, e.next[i], 0)
				if c.Zero {
					time.Sleep(3 * time.Second)
				}
			}
		}
	}
	for i := range e.apps {
		if i == 0 && e.apps[i] == nil && !c.Zero && !e.trimmed {
			if err := begin(i); err != nil {
				return core.Fail("starting a consumer: %v", err)
			}
		}
	}
	for k := 0; k < 1800 && e.working(); k++ {
		time.Sleep(100 * time.Millisecond)
	}
	if e.working() {
		return core.Fail("publishing does not end")
	}
	time.Sleep(15 * time.Second)
	// What could not be sent is reported by later calls.
	for i, p := range e.prod {
		for k := 0; k < 12 && !c.Zero; k++ {
			h := types.Hash{0xfe, byte(i), byte(k), 1}
			if err := p.AddBlock(7, h, types.Hash{0xfd, byte(i), byte(k)}, big.NewInt(1), nil, nil, nil); err != nil {
				e.perrs++
			}
		}
	}
	time.Sleep(3 * time.Second)
	done := e.complete()
	// The library's idempotent mode loses messages it buffers during a retry.
	if e.perrs == 0 && (len(w.hit) == 0 || !strings.Contains(c.Options, "idempotent")) {
		for id := range e.pub {
			if !done[id] {
				return core.Fail("block %d was published without an error, but not all of it is in the logs: %s", id, e.missing(id))
			}
		}
	}
	rel := e.closure(done)
	for k := 0; k < 60; k++ {
		all := true
		for i, a := range e.apps {
			if err := e.pollReady(i); err != nil {
				return core.Outcome{Err: err}
			}
			all = all && (a == nil || e.readyAt[i] && e.checkHead(i, rel, false) == nil)
		}
		if all {
			break
		}
		time.Sleep(time.Second)
	}
	time.Sleep(3 * time.Second)
	synctest.Wait()
	released, reorgs := 0, 0
	for i, a := range e.apps {
		if a == nil {
			continue
		}
		if err := a.err(); err != nil {
			return core.Outcome{Err: err}
		}
		if c.Zero {
			for id := range e.pub {
				if !e.since[i][id] && rel[id] && !a.has(id) {
					return core.Fail("block %d was published after consumer %d started to follow, and is not released", id, i)
				}
			}
		} else if err := e.checkHead(i, rel, false); err != nil {
			why := ""
			for k := range c.Blocks {
				if b := &c.Blocks[k]; !a.has(b.ID) {
					why = fmt.Sprintf("%d: %s", b.ID, a.con.WhyNotReady(gen.Hash(c.Style, b.ID)))
					break
				}
			}
			return core.Fail("%v (producer errors: %d, restarts: %d; %s)", err, e.perrs, e.restart, why)
		}
		a.mu.Lock()
		for id, n := range a.released {
			if c.Linear && !c.Zero && n > 1 {
				a.fail("block %d was released %d times", id, n)
			}
			if !rel[id] && !c.Zero {
				a.fail("block %d was released, but not all of it has been published", id)
			}
		}
		released += len(a.released)
		reorgs += a.reorgs
		a.mu.Unlock()
		if err := a.err(); err != nil {
			return core.Outcome{Err: err}
		}
		if !e.readyAt[i] {
			return core.Fail("consumer %d has everything and does not become ready", i)
		}
	}
	if len(fc.BadReqs) > 0 {
		return core.Fail("the cluster did not understand a request: %v", fc.BadReqs)
	}
	for _, a := range e.apps {
		if a != nil {
			if err := a.stop(); err != nil {
				return core.Outcome{Err: err}
			}
		}
	}
	dup := 0
	for _, n := range e.pub {
		if n > 1 {
			dup++
		}
	}
	for k := range w.hit {
		o.Tags = append(o.Tags, k)
	}
	if e.restart > 0 {
		o.Tags = append(o.Tags, "restart")
	}
	if e.overlaps > 0 {
		o.Tags = append(o.Tags, "restart-inside-later-block")
	}
	if e.below > 0 {
		o.Tags = append(o.Tags, "rollback-below-retention")
	}
	if e.trimmed {
		o.Tags = append(o.Tags, "retention")
	}
	if c.Large {
		o.Tags = append(o.Tags, "large")
	}
	if reorgs > 0 {
		o.Tags = append(o.Tags, "reorg")
	}
	if e.perrs > 0 {
		o.Tags = append(o.Tags, "producer-error")
	}
	if dup > 0 {
		o.Tags = append(o.Tags, "published-twice")
	}
	if c.Zero {
		o.Tags = append(o.Tags, "follow-from-now")
	}
	o.NonTrivial = released > 2 && (len(w.hit) > 0 || e.restart > 0 || reorgs > 0 || dup > 0)
	return o
}

func (e *e2e) working() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.busy > 0
}

func genOptions(t *rapid.T) string {
	var l []string
	if v := rapid.IntRange(0, 5).Draw(t, "codec"); v < 5 {
		l = append(l, "compression.codec="+[]string{"none", "gzip", "snappy", "lz4", "zstd"}[v])
	}
	l = append(l, "max.waittime="+[]string{"1000", "250", "3000"}[rapid.IntRange(0, 2).Draw(t, "wait")])
	if rapid.IntRange(0, 3).Draw(t, "fd") == 0 {
		l = append(l, "fetch.default=100")
	}
	switch rapid.IntRange(0, 3).Draw(t, "mode") {
	case 0:
		l = append(l, "idempotent=1", "net.maxopenrequests=1", "request.required.acks=-1")
	case 1:
		l = append(l, "net.maxopenrequests=1", "retry.backoff.ms=20")
	case 2:
		l = append(l, "retry.backoff.ms=50", "message.send.max.retries=50")
	}
	return "?" + strings.Join(l, "&")
}

func genParts(t *rapid.T, topics []string) map[string]int {
	parts := map[string]int{}
	for _, x := range topics {
		if n := rapid.IntRange(0, 12).Draw(t, "parts"); n > 0 {
			if n > 8 {
				n += 3 // as many as a cluster of six brokers is given by default
			} else {
				n = (n + 1) / 2
			}
			parts[x] = n
		}
	}
	return parts
}

func TestC15(t *testing.T) {
	core.Run(t, "C15", func(t *rapid.T) E2ECase {
		c := E2ECase{Style: []int{0, 2, 3}[rapid.IntRange(0, 2).Draw(t, "style")], Brokers: rapid.IntRange(1, 4).Draw(t, "brokers")}
		c.Fams = gen.GenFamilies(t)
		if len(c.Fams) > 3 {
			c.Fams = c.Fams[:3]
		}
		c.Scheme = []string{"kafka://", "cardinal://kafka://"}[rapid.IntRange(0, 1).Draw(t, "scheme")]
		c.Options = genOptions(t)
		topics := topicsOf(c.Fams)
		c.Parts = genParts(t, topics)
		kind := rapid.IntRange(0, 6).Draw(t, "kind")
		c.Zero = kind == 0
		c.Linear = kind <= 3
		forks := 3
		if c.Linear {
			forks = 0
		}
		c.Blocks = genTree(t, 9, forks, c.Fams)
		if rapid.IntRange(0, 19).Draw(t, "large") == 13 {
			if b := &c.Blocks[rapid.IntRange(0, len(c.Blocks)-1).Draw(t, "largeblock")]; len(b.Updates) > 0 {
				b.Updates[0].Pad = []int{900 << 10, 1100 << 10, 4 << 20, 9900000}[rapid.IntRange(0, 3).Draw(t, "largesize")]
				c.Large = true
			}
		}
		c.Producers = rapid.IntRange(1, 3).Draw(t, "producers")
		c.Finish = rapid.IntRange(0, 2).Draw(t, "finish") > 0
		if c.Zero {
			// With more partitions, older blocks may arrive first.
			c.Producers, c.Parts["default"] = 1, 1
			n := rapid.IntRange(0, len(c.Blocks)).Draw(t, "before")
			for i := 0; i <= len(c.Blocks); i++ {
				if i == n {
					c.Events = append(c.Events, Ev{Kind: eStart, Gap: 3000})
				}
				if i < len(c.Blocks) {
					c.Events = append(c.Events, Ev{Kind: ePub, Gap: 3000})
				}
			}
			return c
		}
		c.Shaky = rapid.IntRange(0, 2).Draw(t, "shaky") > 0
		crowd := rapid.Bool().Draw(t, "crowd")
		if crowd {
			c.Parts["default"] = rapid.IntRange(1, 2).Draw(t, "parts")
			if rapid.Bool().Draw(t, "long") {
				c.Events = append(c.Events, Ev{Kind: eNoise, N: 300})
			}
		}
		apis := []string{"ProduceRequest", "ProduceRequest", "FetchRequest", "FetchRequest", "MetadataRequest", "OffsetRequest"}
		for k := rapid.IntRange(2, 8).Draw(t, "events4") * 4; k > 0; k-- {
			ev := Ev{Gap: []int64{0, 0, 1, 10, 100, 700, 2500}[rapid.IntRange(0, 6).Draw(t, "gap")]}
			// low numbers are drawn more often
			k := []int{0, 16, 1, 12, 2, 17, 8, 15, 9, 10, 3, 13, 4, 18, 11, 5, 19, 14, 6, 7}[rapid.IntRange(0, 19).Draw(t, "k")]
			if crowd && k < 9 {
				k = 20
			}
			switch k {
			case 20:
				ev.Kind, ev.A, ev.Ms, ev.Gap = eNext, rapid.IntRange(0, 2).Draw(t, "p"), []int64{0, 5, 20, 300}[rapid.IntRange(0, 3).Draw(t, "slow")], min(ev.Gap, 100)
				ev.Extra = []int64{0, 20, 300}[rapid.IntRange(0, 2).Draw(t, "slow2")]
				ev.B, ev.N = rapid.IntRange(0, 1).Draw(t, "swap"), []int{0, 1, 30}[rapid.IntRange(0, 2).Draw(t, "swapgap")]
			case 0, 1, 2, 3, 4, 5, 6, 7:
				ev.Kind, ev.A, ev.Ms = ePub, rapid.IntRange(0, 2).Draw(t, "p"), []int64{0, 0, 0, 5, 300}[rapid.IntRange(0, 4).Draw(t, "slow")]
			case 8:
				ev.Kind, ev.A, ev.B = eRepub, rapid.IntRange(0, 2).Draw(t, "p"), rapid.IntRange(0, 8).Draw(t, "b")
			case 9:
				ev.Kind = eCut
			case 10:
				ev.Kind, ev.A, ev.Ms, ev.Elect = eDown, rapid.IntRange(0, 3).Draw(t, "broker"), []int64{0, 200, 1500}[rapid.IntRange(0, 2).Draw(t, "down")], []int64{0, 50, 300}[rapid.IntRange(0, 2).Draw(t, "elect")]
			case 11:
				ev.Kind, ev.A, ev.B, ev.N = eMove, rapid.IntRange(0, 3).Draw(t, "topic"), rapid.IntRange(0, 7).Draw(t, "part"), rapid.IntRange(0, 3).Draw(t, "leader")
			case 12, 13, 14:
				ev.Kind = eFault
				ev.F = Fault{API: apis[rapid.IntRange(0, len(apis)-1).Draw(t, "api")], N: rapid.IntRange(1, 3).Draw(t, "n"), Kind: rapid.IntRange(0, 3).Draw(t, "fk"), Delay: []int64{1, 40, 900}[rapid.IntRange(0, 2).Draw(t, "delay")]}
				if ev.F.API == "OffsetRequest" { // many during a start, not only the first
					ev.F.N, ev.F.Skip = rapid.IntRange(1, 6).Draw(t, "n2"), rapid.IntRange(0, 12).Draw(t, "skip")
				}
			case 15:
				ev.Kind, ev.A = eStart, rapid.IntRange(0, 1).Draw(t, "con")
			case 16, 17, 18:
				ev.Kind, ev.A = eRestart, rapid.IntRange(0, 1).Draw(t, "con")
				ev.N = []int{0, 600}[rapid.IntRange(0, 1).Draw(t, "soon")]
				ev.Extra = []int64{0, 0, 1, 3, 50}[rapid.IntRange(0, 4).Draw(t, "extra")]
				ev.Tight = rapid.Bool().Draw(t, "tight")
				ev.Trim = rapid.IntRange(0, 1).Draw(t, "trim") == 0
				if crowd && rapid.Bool().Draw(t, "inside") {
					// while a later block, begun first, is incomplete
					c.Events = append(c.Events, Ev{Kind: eNext, A: ev.A, B: 1, N: 1, Gap: ev.Gap, Ms: 0, Extra: 300})
					ev.N, ev.Gap = 0, []int64{1, 0, 5, 30}[rapid.IntRange(0, 3).Draw(t, "insidegap")]
				}
			case 19:
				ev.Kind, ev.A, ev.B, ev.N = eNoise, rapid.IntRange(0, 3).Draw(t, "topic"), rapid.IntRange(0, 7).Draw(t, "part"), []int{1, 3, 300, 700}[rapid.IntRange(0, 3).Draw(t, "n")]
			}
			c.Events = append(c.Events, ev)
		}
		return c
	}, func(t *testing.T, c E2ECase) core.Outcome {
		var o core.Outcome
		if err := core.Bubble(t, func() { o = runE2E(&c) }); err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
