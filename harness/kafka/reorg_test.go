package kafka

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// Branch is a reorg: its blocks are on block Anc, the first Own of them are
// sent on the reorg's own topic and the rest with the other blocks.
type Branch struct {
	Anc, From, To, Own int
	Early              bool // the rest is sent before the reorg is complete
	Noise              int  // messages on its topic that are no part of it
	Cut                int  // connections break after that many of its messages (if above zero)
	Seen               int  `json:",omitempty"` // so many of its blocks are sent with the other blocks before the signal, too
}

// ReorgCase is a chain, and reorgs which are announced on the stream.
type ReorgCase struct {
	Style    int
	Brokers  int
	Fams     []int
	Options  string
	Parts    map[string]int
	Thr      int64
	Blocks   []gen.Block
	First    int // how many blocks are in the first chain
	Branches []Branch
	Gaps     []int64 // ms before each message
	Late     bool    // the consumer starts when everything is there
	Dead     bool    // the last reorg is never completed
	Gone     bool    // the topic of the last reorg is emptied before the consumer starts
	Rot      int     `json:",omitempty"` // the consumer's list of topics is rotated by that
	Restart  int     `json:",omitempty"` // in the end, the consumer is restarted from that block (-1: from none)
	Rollback int64   `json:",omitempty"`
}

type reorgApp struct {
	mu     sync.Mutex
	c      *ReorgCase
	con    transports.Consumer
	byHash map[types.Hash]*gen.Block
	chain  []types.Hash
	tokens map[types.Hash]string
	told   map[types.Hash]int
	bad    error
	end    chan struct{}
	ended  chan struct{}
	subs   []types.Subscription
}

func (a *reorgApp) head() types.Hash {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.chain[len(a.chain)-1]
}

// toldOf is whether the application was told of reorgs to all these blocks.
func (a *reorgApp) toldOf(due []types.Hash) bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	for _, h := range due {
		if a.told[h] == 0 {
			return false
		}
	}
	return true
}

func (a *reorgApp) err() error {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.bad
}

func (a *reorgApp) fail(f string, v ...any) {
	if a.bad == nil {
		a.bad = fmt.Errorf(f, v...)
	}
}

func (a *reorgApp) name(h types.Hash) string {
	if b := a.byHash[h]; b != nil {
		return fmt.Sprintf("block %d", b.ID)
	}
	if h == gen.Hash(a.c.Style, 0) {
		return "block 0"
	}
	return fmt.Sprintf("%x", h)
}

func (a *reorgApp) follow() {
	updates, reorgs := make(chan *delivery.ChainUpdate), make(chan map[int64]types.Hash)
	a.subs = []types.Subscription{a.con.Subscribe(updates), a.con.SubscribeReorg(reorgs)}
	a.end = make(chan struct{})
	end, ended := a.end, make(chan struct{})
	a.ended = ended
	go func() {
		defer close(ended)
		for {
			select {
			case <-end:
				return
			case r := <-reorgs:
				a.mu.Lock()
				for num, h := range r {
					a.told[h]++
					at := -1
					for i, x := range a.chain {
						if x == h {
							at = i
						}
					}
					want := a.c.Blocks[0].Num - 1
					if b := a.byHash[h]; b != nil {
						want = b.Num
					}
					if at < 0 || num != want {
						a.fail("told of a reorg to %s, number %d (want %d), which is not in the chain", a.name(h), num, want)
					} else {
						a.chain = a.chain[:at+1]
					}
				}
				a.mu.Unlock()
			case u := <-updates:
				a.mu.Lock()
				for i := len(u.Removed()) - 1; i >= 0; i-- {
					if pb := u.Removed()[i]; a.chain[len(a.chain)-1] != pb.Hash {
						a.fail("an update removes %s, but the head is %s", a.name(pb.Hash), a.name(a.chain[len(a.chain)-1]))
					} else {
						a.chain = a.chain[:len(a.chain)-1]
					}
				}
				for _, pb := range u.Added() {
					if pb.ParentHash != a.chain[len(a.chain)-1] {
						a.fail("an update adds %s, whose parent is not the head, %s", a.name(pb.Hash), a.name(a.chain[len(a.chain)-1]))
					}
					if b := a.byHash[pb.Hash]; b == nil {
						a.fail("an unknown block %x was released", pb.Hash)
					} else if err := same(pb, b, a.c.Style); err != nil {
						a.fail("%v", err)
					}
					a.chain = append(a.chain, pb.Hash)
					a.tokens[pb.Hash] = pb.Resumption()
				}
				a.mu.Unlock()
				u.Done()
			}
		}
	}()
}

func (a *reorgApp) stop() error {
	if _, err := within("Close", func() (struct{}, error) { a.con.Close(); return struct{}{}, nil }); err != nil {
		return err
	}
	for _, s := range a.subs {
		s.Unsubscribe()
	}
	close(a.end)
	<-a.ended // or it may apply what it is handed now
	return nil
}

type reorgRun struct {
	c   *ReorgCase
	fc  *sarama.FakeCluster
	app *reorgApp
	due []types.Hash // reorgs that were signalled
	gap int
}

func (r *reorgRun) wait() {
	if r.c.Late || len(r.c.Gaps) == 0 {
		return
	}
	if g := r.c.Gaps[r.gap%len(r.c.Gaps)]; g > 0 {
		time.Sleep(time.Duration(g) * time.Millisecond)
	}
	r.gap++
}

func (r *reorgRun) put(topic string, key, value []byte) {
	r.wait()
	n := r.fc.Partitions(topic)
	if n == 0 {
		n = 1
		r.fc.Create(topic, spread(1, r.c.Brokers, len(key)))
	}
	h := fnv.New32a()
	h.Write(key)
	r.fc.Append(topic, int(h.Sum32()%uint32(n)), key, value, time.Now())
}

func (r *reorgRun) block(b *gen.Block, topic string) {
	for _, m := range b.Encode(r.c.Style) {
		if topic == "" {
			r.put(m.Topic, m.K, m.V)
		} else {
			r.put(topic, m.K, m.V)
		}
	}
}

func (r *reorgRun) start(token []byte, h types.Hash, rollback int64) error {
	num, weight := r.c.Blocks[0].Num-1, rootWeight(r.c.Blocks)
	if b := r.app.byHash[h]; b != nil {
		num, weight = b.Num, b.WeightInt()
	}
	cfg := consumerConfig(h, num, weight)
	cfg.ReorgThreshold = r.c.Thr
	_, err := within("starting a consumer", func() (struct{}, error) {
		url := "kafka://" + r.fc.Addr(1) + r.c.Options
		topics := topicsOf(r.c.Fams)
		topics = append(topics[r.c.Rot%len(topics):len(topics):len(topics)], topics[:r.c.Rot%len(topics)]...)
		con, err := transports.ResolveConsumer(url, "default", topics, token, rollback, cfg)
		if err != nil {
			return struct{}{}, err
		}
		r.app.con = con
		r.app.follow()
		return struct{}{}, con.Start()
	})
	return err
}

// reach waits until the application has a block as its head.
func (r *reorgRun) reach(id int, what string) error {
	for k := 0; k < 900; k++ {
		if err := r.app.err(); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if r.app.head() == gen.Hash(r.c.Style, id) && r.app.toldOf(r.due) {
			return nil
		}
		time.Sleep(time.Second)
	}
	r.app.mu.Lock()
	defer r.app.mu.Unlock()
	why := ""
	for i := range r.c.Blocks {
		b := &r.c.Blocks[i]
		why += fmt.Sprintf("; %d: %s", b.ID, r.app.con.WhyNotReady(gen.Hash(r.c.Style, b.ID)))
	}
	return fmt.Errorf("%s: the head is %s, want block %d (told of %d reorgs%s)", what, r.app.name(r.app.chain[len(r.app.chain)-1]), id, len(r.app.told), why)
}

// restart starts the consumer again at a block of the chain.
func (r *reorgRun) restart(head int) error {
	a := r.app
	if err := a.err(); err != nil {
		return err
	}
	at := 0
	for i, h := range a.chain {
		if r.c.Restart > 0 && h == gen.Hash(r.c.Style, r.c.Restart) {
			at = i
		}
	}
	a.chain = a.chain[:at+1]
	a.told, r.due = map[types.Hash]int{}, nil
	var token []byte
	if at > 0 {
		token = []byte(a.tokens[a.chain[at]])
	}
	what := fmt.Sprintf("after a restart at %s with token %q and rollback %d", a.name(a.chain[at]), token, r.c.Rollback)
	if err := r.start(token, a.chain[at], r.c.Rollback); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if err := r.reach(head, what); err != nil {
		return err
	}
	for k := 0; k < 900 && !ready(a.con); k++ {
		time.Sleep(time.Second)
	}
	if !ready(a.con) {
		return fmt.Errorf("%s, the consumer has everything and does not become ready", what)
	}
	if a.head() != gen.Hash(r.c.Style, head) {
		return fmt.Errorf("%s: the head was block %d and is %s", what, head, a.name(a.head()))
	}
	for h, n := range a.told {
		if n > 1 {
			return fmt.Errorf("%s, told %d times of the reorg to %s", what, n, a.name(h))
		}
	}
	return a.stop()
}

func runReorg(c *ReorgCase) (o core.Outcome) {
	w := newWorld(c.Brokers)
	r := &reorgRun{c: c, fc: w.clusters[0]}
	r.app = &reorgApp{c: c, byHash: map[types.Hash]*gen.Block{}, chain: []types.Hash{gen.Hash(c.Style, 0)}, tokens: map[types.Hash]string{}, told: map[types.Hash]int{}}
	for i := range c.Blocks {
		r.app.byHash[gen.Hash(c.Style, c.Blocks[i].ID)] = &c.Blocks[i]
	}
	for _, t := range topicsOf(c.Fams) {
		r.fc.Create(t, spread(max(1, c.Parts[t]), c.Brokers, 0))
	}
	if !c.Late {
		if err := r.start(nil, gen.Hash(c.Style, 0), 0); err != nil {
			return core.Fail("starting a consumer: %v", err)
		}
	}
	head := 0
	for i := 0; i < c.First; i++ {
		r.block(&c.Blocks[i], "")
		head = c.Blocks[i].ID
	}
	p, err := delivery.NewProducer("default", gen.Schema(c.Fams))
	if err != nil {
		return core.Fail("%v", err)
	}
	reach := func(what string) error {
		if c.Late {
			return nil
		}
		return r.reach(head, what)
	}
	if err := reach("before any reorg"); err != nil {
		return core.Outcome{Err: err}
	}
	deep, topics := 0, []string{}
	for i, br := range c.Branches {
		anc := gen.Hash(c.Style, br.Anc)
		num := c.Blocks[0].Num - 1
		if br.Anc > 0 {
			num = c.Blocks[br.Anc-1].Num
		}
		if head > 0 && c.Blocks[head-1].Num-num > c.Thr {
			deep++
		}
		topic := fmt.Sprintf("default-re-%x", anc[:])
		topics = append(topics, topic)
		for k := br.From; k < br.From+br.Seen; k++ {
			r.block(&c.Blocks[k], "")
		}
		dead := c.Dead && i == len(c.Branches)-1
		r.fc.Create(topic, spread(1, c.Brokers, i))
		signal, complete := p.Reorg(num, anc), p.ReorgDone(num, anc)
		r.put("default", signal.Key(), signal.Value())
		if !c.Gone || i < len(c.Branches)-1 {
			r.due = append(r.due, anc)
		}
		if n := br.Noise; n > 0 {
			key, value := foreign(n)
			r.put(topic, key, value)
		}
		r.put(topic, signal.Key(), signal.Value())
		sent := 0
		for k := br.From; k < br.From+br.Own; k++ {
			r.block(&c.Blocks[k], topic)
			if sent++; sent == br.Cut && !c.Late {
				synctest.Wait()
				r.fc.Cut()
			}
		}
		rest := func() {
			for k := br.From + br.Own; k < br.To; k++ {
				r.block(&c.Blocks[k], "")
			}
		}
		if dead {
			head = c.Blocks[br.From+br.Own-1].ID
			break
		}
		if br.Early {
			rest()
		}
		if br.Noise > 16 {
			key, value := foreign(br.Noise)
			r.put(topic, key, value)
		}
		r.put(topic, complete.Key(), complete.Value())
		if c.Gone && i == len(c.Branches)-1 {
			r.fc.Trim(topic, 0, int64(len(r.fc.Log(topic, 0))))
			break
		}
		if !br.Early {
			rest()
		}
		head = c.Blocks[br.To-1].ID
		if err := reach(fmt.Sprintf("after a reorg to block %d", br.Anc)); err != nil {
			return core.Outcome{Err: err}
		}
		if n := r.app.told[anc]; n != 1 && !c.Late {
			return core.Fail("told %d times of the reorg to block %d", n, br.Anc)
		}
	}
	if c.Late {
		if err := r.start(nil, gen.Hash(c.Style, 0), 0); err != nil {
			return core.Fail("starting a consumer: %v", err)
		}
	}
	if err := r.reach(head, "in the end"); err != nil {
		return core.Outcome{Err: err}
	}
	for i, br := range c.Branches {
		want := 1
		if c.Gone && i == len(c.Branches)-1 {
			want = 0
		}
		if n := r.app.told[gen.Hash(c.Style, br.Anc)]; n != want {
			return core.Fail("told %d times of the reorg to block %d", n, br.Anc)
		}
	}
	if !c.Dead || !c.Late {
		for k := 0; k < 900 && !ready(r.app.con); k++ {
			time.Sleep(time.Second)
		}
		if !ready(r.app.con) {
			return core.Fail("the consumer has everything and does not become ready")
		}
	}
	time.Sleep(5 * time.Second)
	if !c.Dead {
		// the topics of reorgs are left alone when these are complete
		time.Sleep(2 * time.Minute)
		n := map[string]int{}
		for _, t := range topics {
			n[t] = r.fc.Fetched(t)
		}
		time.Sleep(time.Minute)
		for _, t := range topics {
			if k := r.fc.Fetched(t) - n[t]; k > 0 {
				return core.Fail("in the minute after everything is complete, the consumer asked for %s %d times", t, k)
			}
		}
	}
	if err := r.app.stop(); err != nil {
		return core.Outcome{Err: err}
	}
	if c.Restart != 0 {
		if err := r.restart(head); err != nil {
			return core.Outcome{Err: err}
		}
		o.Tags = append(o.Tags, "restart")
	}
	if err := r.app.err(); err != nil {
		return core.Outcome{Err: err}
	}
	if len(r.fc.BadReqs) > 0 {
		return core.Fail("the cluster did not understand a request: %v", r.fc.BadReqs)
	}
	if deep > 0 {
		o.Tags = append(o.Tags, "deep")
	}
	if c.Gone {
		o.Tags = append(o.Tags, "deleted")
	}
	if c.Late {
		o.Tags = append(o.Tags, "late")
	}
	if c.Dead {
		o.Tags = append(o.Tags, "never-completed")
	}
	if len(c.Branches) > 1 {
		o.Tags = append(o.Tags, "several")
	}
	o.NonTrivial = deep > 0
	return o
}

func TestC28(t *testing.T) {
	core.Run(t, "C28", func(t *rapid.T) ReorgCase {
		c := ReorgCase{Style: []int{0, 2, 3}[rapid.IntRange(0, 2).Draw(t, "style")], Brokers: rapid.IntRange(1, 3).Draw(t, "brokers")}
		c.Options = genOptions(t)
		c.Late = rapid.IntRange(0, 3).Draw(t, "late") == 3
		c.Parts = map[string]int{}
		if !c.Late {
			c.Fams = gen.GenFamilies(t)
			if len(c.Fams) > 3 {
				c.Fams = c.Fams[:3]
			}
			c.Parts = genParts(t, topicsOf(c.Fams))
		}
		c.Thr = []int64{128, 2, 3, 5, 10}[rapid.IntRange(0, 4).Draw(t, "thr")]
		c.Dead = rapid.IntRange(0, 7).Draw(t, "dead") == 7
		c.Gone = c.Late && !c.Dead && rapid.IntRange(0, 5).Draw(t, "gone") == 5
		base, basew := int64(rapid.IntRange(0, 20).Draw(t, "base")), int64(rapid.IntRange(0, 300).Draw(t, "basew"))
		weight, num := map[int]int64{0: basew}, map[int]int64{0: base}
		add := func(parent int, least int64) {
			id := len(c.Blocks) + 1
			num[id], weight[id] = num[parent]+1, max(least, weight[parent]+int64(rapid.IntRange(1, 4).Draw(t, "w")))
			b := gen.Block{ID: id, Parent: parent, Num: num[id], Weight: big.NewInt(weight[id]).Bytes()}
			gen.GenBlockContent(t, &b, c.Fams, id*8, gen.Opt{MaxUpdates: 4, MaxDeletes: 2, MaxSubs: 2, MaxSubItems: 2, Many: 7})
			c.Blocks = append(c.Blocks, b)
		}
		c.First = rapid.IntRange(1, 14).Draw(t, "first")
		chain := []int{0}
		for i := 0; i < c.First; i++ {
			add(chain[i], 0)
			chain = append(chain, i+1)
		}
		one := len(topicsOf(c.Fams)) == 1 && c.Parts["default"] <= 1 // between partitions a signal has no place
		used := map[int]bool{}
		for k := rapid.IntRange(1, 3).Draw(t, "branches"); k > 0; k-- {
			at := rapid.IntRange(0, len(chain)-2).Draw(t, "at")
			if used[chain[at]] {
				continue
			}
			used[chain[at]] = true
			br := Branch{Anc: chain[at], From: len(c.Blocks), Early: rapid.Bool().Draw(t, "early"), Noise: rapid.IntRange(0, 33).Draw(t, "noise")}
			heavy := weight[chain[len(chain)-1]] + 1
			chain = chain[: at+1 : at+1]
			n := rapid.IntRange(1, 6).Draw(t, "own")
			br.Own = n
			br.Cut = rapid.IntRange(-2, n).Draw(t, "cut")
			n += rapid.IntRange(0, 3).Draw(t, "rest")
			for i := 0; i < n; i++ {
				least := int64(0)
				if i == br.Own-1 {
					least = heavy
				}
				add(chain[len(chain)-1], least)
				chain = append(chain, len(c.Blocks))
			}
			br.To = len(c.Blocks)
			if one && !c.Gone && rapid.IntRange(0, 2).Draw(t, "seen") == 0 {
				br.Seen = rapid.IntRange(1, br.Own).Draw(t, "seenBlocks")
			}
			c.Branches = append(c.Branches, br)
		}
		c.Rot = rapid.IntRange(0, 3).Draw(t, "rot")
		if c.Late && !c.Dead && !c.Gone && rapid.Bool().Draw(t, "restart") {
			c.Restart = chain[rapid.IntRange(0, len(chain)-1).Draw(t, "restartAt")]
			if c.Restart == 0 {
				c.Restart = -1
			}
			on := map[int]bool{}
			for _, id := range chain {
				on[id] = true
			}
			for _, br := range c.Branches {
				if !on[br.Anc] {
					c.Restart = 0 // the signal would be read again though its block was abandoned
				}
			}
			c.Rollback = []int64{0, 1, 3, 10, 1000}[rapid.IntRange(0, 4).Draw(t, "rollback")]
		}
		c.Gaps = rapid.SliceOfN(rapid.SampledFrom([]int64{0, 0, 0, 1, 20, 300, 1500, 4000}), 0, 12).Draw(t, "gaps")
		return c
	}, func(t *testing.T, c ReorgCase) core.Outcome {
		var o core.Outcome
		if err := core.Bubble(t, func() { o = runReorg(&c) }); err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
