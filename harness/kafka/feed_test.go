package kafka

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

const (
	fBlock  = iota // block Blk is written to the clusters in Mask
	fNoise         // N messages without a key arrive in partition Part of a topic
	fPing          // N heartbeats of others arrive in partition Part
	fBad           // a header that cannot be decoded arrives in partition Part
	fLatest        // a producer of the clusters in Mask asks for the latest block
	fTrim          // partition Part of the default topic keeps N messages
)

// FOp is one step of a feed's history.
type FOp struct {
	Kind, Blk, Mask, Cl, Part, N, Topic int
	Split, Down                         int
	Gap                                 int64
}

// FeedCase is what one or two clusters have gone through when an application
// asks where to start.
type FeedCase struct {
	Style   int
	Brokers []int
	Fams    []int
	Scheme  string
	Options string
	Parts   []map[string]int
	Blocks  []gen.Block
	Ops     []FOp
	Start   int   // the consumer has this block
	Before  int64 // it asks for this many ms before the first later message
	Times   []int64
	Roll    int64
	Tail    int // the last Tail blocks are written once the consumer runs
	Null    int
}

func clusterTopic(i int, topic string) string {
	if i == 0 {
		return topic
	}
	return "b-" + topic
}

type feedRun struct {
	c    *FeedCase
	w    *world
	hits map[string]bool
}

func (r *feedRun) url(i int) string {
	var l []string
	for b := 1; b <= r.c.Brokers[i]; b++ {
		l = append(l, r.w.clusters[i].Addr(b))
	}
	return r.c.Scheme + strings.Join(l, ",") + r.c.Options
}

func (r *feedRun) write(op FOp) {
	b := &r.c.Blocks[op.Blk]
	msgs := b.Encode(r.c.Style)
	if n := len(msgs); n > 0 {
		k := op.N % n
		msgs = append(msgs[k:len(msgs):len(msgs)], msgs[:k]...)
	}
	for k, m := range msgs {
		mask := op.Mask
		if op.Split > 0 { // each message goes somewhere
			mask = (op.Split>>(2*(k%8)))&3%3 + 1
		}
		for i, fc := range r.w.clusters {
			if len(r.w.clusters) > 1 && mask&(1<<i) == 0 {
				continue
			}
			topic := clusterTopic(i, m.Topic)
			part := (int(m.K[len(m.K)-1]) + int(m.K[len(m.K)/2]) + len(m.K)) % fc.Partitions(topic)
			fc.Append(topic, part, m.K, m.V, time.Now())
		}
	}
}

// latest is the highest block number in what a producer looks at.
func (r *feedRun) latest(i int) int64 {
	var n int64
	fc := r.w.clusters[i]
	t := clusterTopic(i, "default")
	for p := 0; p < fc.Partitions(t); p++ {
		l := fc.Log(t, p)
		for _, rec := range l {
			if len(rec.Key) != 33 || rec.Key[0] != 0 {
				continue
			}
			h, err := gen.DecodeHeader(rec.Value)
			if err != nil {
				continue
			}
			if rec.Offset < l[len(l)-1].Offset+1-100 {
				if h.Num > n {
					r.hits["beyond-window"] = true
				}
				continue
			}
			n = max(n, h.Num)
		}
	}
	return n
}

func within[T any](what string, f func() (T, error)) (v T, err error) {
	end := make(chan struct{})
	go func() {
		v, err = f()
		close(end)
	}()
	select {
	case <-end:
		return v, err
	case <-time.After(time.Hour):
		return v, fmt.Errorf("%s does not end", what)
	}
}

func (r *feedRun) ask(op FOp) error {
	params := []transports.ProducerBrokerParams{}
	idx := []int{}
	for i := range r.w.clusters {
		if len(r.w.clusters) > 1 && op.Mask&(1<<i) == 0 {
			continue
		}
		schema := map[string]string{}
		for k, v := range gen.Schema(r.c.Fams) {
			schema[k] = clusterTopic(i, v)
		}
		idx = append(idx, i)
		params = append(params, transports.ProducerBrokerParams{URL: r.url(i), DefaultTopic: clusterTopic(i, "default"), Schema: schema})
	}
	time.Sleep(time.Millisecond)
	p, err := within("starting a producer", func() (transports.Producer, error) {
		if len(params) == 1 && op.N%2 == 0 {
			return transports.ResolveProducerWithResumer(params[0].URL, params[0].DefaultTopic, params[0].Schema, nil)
		}
		return transports.ResolveMuxProducer(params, nil)
	})
	if err != nil {
		return fmt.Errorf("starting a producer: %v", err)
	}
	p.SetHealth(false)
	synctest.Wait()
	want, down := int64(-1), 0
	for k, i := range idx {
		if len(idx) > 1 && op.Down&(1<<k) != 0 {
			down++
			for b := 1; b <= r.c.Brokers[i]; b++ {
				r.w.clusters[i].SetUp(int32(b), false)
			}
			continue
		}
		if n := r.latest(i); want < 0 || n < want {
			want = n
		}
	}
	got, err := within("LatestBlockFromFeed", p.LatestBlockFromFeed)
	for _, i := range idx {
		for b := 1; b <= r.c.Brokers[i]; b++ {
			r.w.clusters[i].SetUp(int32(b), true)
		}
	}
	switch {
	case down == len(idx):
		if err == nil {
			return fmt.Errorf("LatestBlockFromFeed is %d while no cluster can be reached", got)
		}
	case err != nil:
		return fmt.Errorf("LatestBlockFromFeed: %v", err)
	case got != want:
		return fmt.Errorf("LatestBlockFromFeed is %d, want %d", got, want)
	default:
		r.hits["latest"] = true
		if want > 0 {
			r.hits["latest-positive"] = true
		}
		if len(idx) > 1 {
			r.hits["latest-mux"] = true
		}
	}
	if down > 0 {
		r.hits["down"] = true
	}
	return nil
}

func (r *feedRun) params() []transports.BrokerParams {
	var l []transports.BrokerParams
	for i := range r.w.clusters {
		var topics []string
		for _, t := range topicsOf(r.c.Fams) {
			topics = append(topics, clusterTopic(i, t))
		}
		l = append(l, transports.BrokerParams{URL: r.url(i), DefaultTopic: clusterTopic(i, "default"), Topics: topics, Rollback: r.c.Roll})
	}
	if r.c.Null > 0 {
		k := r.c.Null % (len(l) + 1)
		l = append(l[:k:k], append([]transports.BrokerParams{{URL: "null://"}}, l[k:]...)...)
	}
	return l
}

func (r *feedRun) token(t int64) (string, error) {
	b, err := within("ResumptionForTimestamp", func() ([]byte, error) { return transports.ResumptionForTimestamp(r.params(), t) })
	if err != nil {
		return "", fmt.Errorf("ResumptionForTimestamp: %v", err)
	}
	got, err := parseToken(string(b))
	if err != nil {
		return "", err
	}
	n := 0
	for i, fc := range r.w.clusters {
		for _, topic := range topicsOf(r.c.Fams) {
			topic = clusterTopic(i, topic)
			for p := 0; p < fc.Partitions(topic); p++ {
				want := int64(-1)
				for _, rec := range fc.Log(topic, p) {
					if rec.Time.UnixMilli() >= t {
						want = rec.Offset
						break
					}
				}
				k := fmt.Sprintf("%s:%d", topic, p)
				v, ok := got[k]
				if !ok || v != want {
					return "", fmt.Errorf("the token for %d names %d (%v) for %s, want %d", t, v, ok, k, want)
				}
				if want > 0 {
					r.hits["middle"] = true
				}
				if want < 0 {
					r.hits["none-after"] = true
				}
				n++
			}
		}
	}
	if n != len(got) {
		return "", fmt.Errorf("the token names %d partitions, want %d: %s", len(got), n, b)
	}
	return string(b), nil
}

func runFeed(c *FeedCase) (o core.Outcome) {
	w := newWorld(c.Brokers...)
	r := &feedRun{c: c, w: w, hits: map[string]bool{}}
	for i, fc := range w.clusters {
		for k, t := range topicsOf(c.Fams) {
			n := c.Parts[i][t]
			if n < 1 {
				n = 1
			}
			fc.Create(clusterTopic(i, t), spread(n, c.Brokers[i], k))
		}
	}
	c.Tail = min(c.Tail, len(c.Blocks)-1)
	live := len(c.Blocks) - c.Tail
	started := time.Now()
	for _, op := range c.Ops {
		time.Sleep(time.Duration(op.Gap) * time.Millisecond)
		cl := op.Cl % len(w.clusters)
		fc := w.clusters[cl]
		def := clusterTopic(cl, "default")
		part := op.Part % fc.Partitions(def)
		switch op.Kind {
		case fBlock:
			op.Blk %= live
			r.write(op)
		case fNoise:
			ts := topicsOf(c.Fams)
			t := clusterTopic(cl, ts[op.Topic%len(ts)])
			for k := 0; k < op.N; k++ {
				key, value := foreign(op.Topic + 5*op.Part + k)
				if op.Topic+5*op.Part+k == 12 { // a reorg whose topic does not exist
					h := gen.Hash(0, 991)
					key, value = append([]byte{5}, h[:]...), delivery.AvroInt(3)
				}
				fc.Append(t, op.Part%fc.Partitions(t), key, value, time.Now())
			}
		case fPing:
			for k := 0; k < op.N; k++ {
				v, _ := time.Now().MarshalBinary()
				fc.Append(def, part, delivery.PingType.GetKey(bytes.Repeat([]byte{7}, 32)), v, time.Now())
			}
		case fBad:
			h := gen.Hash(c.Style, 900+op.N)
			fc.Append(def, part, append([]byte{0}, h[:]...), []byte{0xff}, time.Now())
		case fLatest:
			if err := r.ask(op); err != nil {
				return core.Outcome{Err: err}
			}
		case fTrim:
			if l := fc.Log(def, part); len(l) > 0 {
				fc.Trim(def, part, l[len(l)-1].Offset+1-int64(op.N))
			}
		}
	}
	// The rest of what the consumer is to find.
	desc := map[int]bool{}
	root := c.Start % (live + 1)
	for i := range c.Blocks {
		if c.Blocks[i].Parent != i { // on a chain that forks it starts before the forks
			root = 0
		}
	}
	desc[root] = true
	for i := range c.Blocks {
		if desc[c.Blocks[i].Parent] {
			desc[c.Blocks[i].ID] = true
		}
	}
	var from time.Time
	keys := map[string]bool{}
	for i := range c.Blocks {
		if b := &c.Blocks[i]; b.ID != root && desc[b.ID] {
			for _, m := range b.Encode(c.Style) {
				keys[string(m.K)] = true
			}
		}
	}
	for _, fc := range w.clusters {
		for _, l := range logs(fc) {
			if keys[string(l.rec.Key)] && (from.IsZero() || l.rec.Time.Before(from)) {
				from = l.rec.Time
			}
		}
	}
	if from.IsZero() {
		from = time.Now()
	}
	for _, t := range c.Times {
		if _, err := r.token(started.UnixMilli() + t); err != nil {
			return core.Outcome{Err: err}
		}
	}
	tok, err := r.token(from.UnixMilli() - c.Before)
	if err != nil {
		return core.Outcome{Err: err}
	}
	a := newApp(c.Blocks, c.Style)
	hash, num, weight := gen.Hash(c.Style, root), c.Blocks[0].Num-1, rootWeight(c.Blocks)
	if root > 0 {
		num, weight = c.Blocks[root-1].Num, c.Blocks[root-1].WeightInt()
	}
	a.chain = append(a.chain, hash)
	params := r.params()
	con, err := within("creating a consumer", func() (transports.Consumer, error) {
		if len(params) == 1 {
			return transports.ResolveConsumer(params[0].URL, params[0].DefaultTopic, params[0].Topics, []byte(tok), params[0].Rollback, consumerConfig(hash, num, weight))
		}
		return transports.ResolveMuxConsumer(params, []byte(tok), consumerConfig(hash, num, weight))
	})
	if err != nil {
		return core.Fail("creating a consumer: %v", err)
	}
	a.follow(con)
	if _, err := within("starting a consumer", func() (int, error) { return 0, con.Start() }); err != nil {
		return core.Fail("starting a consumer: %v", err)
	}
	select {
	case <-con.Ready():
	case <-time.After(3 * time.Minute):
		return core.Fail("the consumer does not get ready")
	}
	check := func(when string) error {
		time.Sleep(20 * time.Second)
		synctest.Wait()
		if err := a.err(); err != nil {
			return fmt.Errorf("%s: %v", when, err)
		}
		done := completeIn(w.clusters, c.Blocks, c.Style)
		conn := map[int]bool{root: true}
		weights := map[types.Hash]*big.Int{hash: weight}
		bestW := weight
		for i := range c.Blocks {
			b := &c.Blocks[i]
			if b.ID == root || !conn[b.Parent] || !done[b.ID] {
				continue
			}
			conn[b.ID] = true
			weights[gen.Hash(c.Style, b.ID)] = b.WeightInt()
			if b.WeightInt().Cmp(bestW) > 0 {
				bestW = b.WeightInt()
			}
		}
		if got := weights[a.head()]; got == nil || got.Cmp(bestW) != 0 {
			return fmt.Errorf("%s, the head is %x (weight %v), but there is one of weight %v, from token %s", when, a.head(), got, bestW, tok)
		}
		if len(conn) > 2 {
			r.hits["released"] = true
		}
		return nil
	}
	if err := check("once the consumer is ready"); err != nil {
		return core.Outcome{Err: err}
	}
	for i := live; i < len(c.Blocks); i++ {
		r.write(FOp{Blk: i, Mask: i%3 + 1, N: i})
		time.Sleep(time.Duration(i%3) * 100 * time.Millisecond)
	}
	if c.Tail > 0 {
		if err := check("after more blocks"); err != nil {
			return core.Outcome{Err: err}
		}
	}
	if err := a.stop(); err != nil {
		return core.Outcome{Err: err}
	}
	for _, fc := range w.clusters {
		if len(fc.BadReqs) > 0 {
			return core.Fail("the cluster did not understand a request: %v", fc.BadReqs)
		}
	}
	for k := range r.hits {
		o.Tags = append(o.Tags, k)
	}
	sort.Strings(o.Tags)
	o.NonTrivial = r.hits["released"] && r.hits["middle"] || r.hits["latest-positive"]
	return o
}

// completeIn tells which blocks have all their messages in some cluster.
func completeIn(clusters []*sarama.FakeCluster, blocks []gen.Block, style int) map[int]bool {
	have := map[string]bool{}
	for _, fc := range clusters {
		for _, l := range logs(fc) {
			have[string(l.rec.Key)] = true
		}
	}
	out := map[int]bool{}
	for i := range blocks {
		all := true
		for _, m := range blocks[i].Encode(style) {
			all = all && have[string(m.K)]
		}
		if all {
			out[blocks[i].ID] = true
		}
	}
	return out
}

func TestC17(t *testing.T) {
	core.Run(t, "C17", func(t *rapid.T) FeedCase {
		c := FeedCase{Style: []int{0, 2, 3}[rapid.IntRange(0, 2).Draw(t, "style")]}
		c.Fams = gen.GenFamilies(t)
		if len(c.Fams) > 3 {
			c.Fams = c.Fams[:3]
		}
		c.Scheme = []string{"kafka://", "cardinal://kafka://"}[rapid.IntRange(0, 1).Draw(t, "scheme")]
		c.Options = genOptions(t)
		for k := []int{1, 2}[rapid.IntRange(0, 1).Draw(t, "clusters")]; k > 0; k-- {
			c.Brokers = append(c.Brokers, rapid.IntRange(1, 3).Draw(t, "brokers"))
			c.Parts = append(c.Parts, genParts(t, topicsOf(c.Fams)))
		}
		c.Blocks = genTree(t, 8, rapid.IntRange(0, 1).Draw(t, "forks")*4, c.Fams)
		counts := []int{3, 60, 99, 100, 101, 150, 98, 700}
		kinds := []int{fBlock, fLatest, fNoise, fBlock, fPing, fBad, fTrim, fNoise}
		next := 0
		for k := rapid.IntRange(1, 8).Draw(t, "ops3") * 3; k > 0; k-- {
			op := FOp{Kind: kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")]}
			op.Gap = []int64{1, 0, 10, 1000, 7}[rapid.IntRange(0, 4).Draw(t, "gap")]
			op.Cl, op.Part = rapid.IntRange(0, 1).Draw(t, "cl"), rapid.IntRange(0, 3).Draw(t, "part")*[]int{1, 5}[rapid.IntRange(0, 1).Draw(t, "far")]
			switch op.Kind {
			case fBlock:
				op.Blk = next
				next++
				if rapid.IntRange(0, 3).Draw(t, "again") == 3 {
					op.Blk = rapid.IntRange(0, 7).Draw(t, "blk")
				}
				op.Mask, op.N = rapid.IntRange(1, 3).Draw(t, "mask"), rapid.IntRange(0, 20).Draw(t, "rot")
				if rapid.IntRange(0, 3).Draw(t, "splits") == 3 {
					op.Split = rapid.IntRange(1, 65535).Draw(t, "split")
				}
			case fNoise, fPing:
				op.N, op.Topic = counts[rapid.IntRange(0, len(counts)-1).Draw(t, "n")], rapid.IntRange(0, 3).Draw(t, "topic")
			case fBad:
				op.N = rapid.IntRange(0, 3).Draw(t, "bad")
			case fLatest:
				op.Mask, op.N = rapid.IntRange(1, 3).Draw(t, "mask"), rapid.IntRange(0, 1).Draw(t, "direct")
				op.Down = rapid.IntRange(0, 7).Draw(t, "down")
				if op.Down > 3 {
					op.Down = 0
				}
			case fTrim:
				op.N = []int{0, 1, 2, 99, 100, 101}[rapid.IntRange(0, 5).Draw(t, "keep")]
			}
			c.Ops = append(c.Ops, op)
		}
		c.Start = rapid.IntRange(0, 8).Draw(t, "start")
		c.Before = []int64{0, 1, 500}[rapid.IntRange(0, 2).Draw(t, "early")]
		for k := rapid.IntRange(0, 2).Draw(t, "times"); k > 0; k-- {
			c.Times = append(c.Times, int64(rapid.IntRange(-5, 12000).Draw(t, "time")))
		}
		c.Roll = []int64{0, 1, 5}[rapid.IntRange(0, 2).Draw(t, "roll")]
		c.Tail = rapid.IntRange(0, 3).Draw(t, "tail")
		c.Null = []int{0, 0, 1, 2, 3}[rapid.IntRange(0, 4).Draw(t, "null")]
		return c
	}, func(t *testing.T, c FeedCase) core.Outcome {
		var o core.Outcome
		if err := core.Bubble(t, func() { o = runFeed(&c) }); err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
