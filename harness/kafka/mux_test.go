package kafka

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/wslink"
)

// The kinds of streams.
const (
	sKafka = iota
	sWS
	sNull
	sMissing // a Kafka stream one of whose topics does not exist
	sUnknown
	sUnreachable
)

// The kinds of operations on a producer of several streams.
const (
	mBlock  = iota // block Blk
	mSubs          // the sub-batches of block Blk from Sub on
	mReorg         // Reorg to block Blk
	mHealth        // SetHealth(N is even)
	mPurge         // PurgeReplayCache
	mCount         // ProducerCount for N seconds
	mLatest        // LatestBlockFromFeed, with the streams of Mask down
	mOther         // another producer publishes block Blk's header to the streams of Mask
	mBeat          // N other producers send heartbeats to the streams of Mask
	mKinds
)

// MStream is one stream of a list.
type MStream struct {
	Kind, Brokers int
	Fams          []int
	Parts         map[string]int
	Cardinal      bool
	Text          string // the URL of an unknown kind
}

// MOp is one step.
type MOp struct {
	Kind, Blk, Sub, Mask, N int
	Gap                     int64
}

// MuxCase is a list of streams and what is done with them.
type MuxCase struct {
	Produce bool
	Style   int
	Streams []MStream
	Blocks  []gen.Block
	Clash   map[int]int // per block index, how its content clashes
	Ops     []MOp
	Masks   []int // consumer: the streams each block is published to
	Late    int   // consumer: the last blocks are published once it runs
	Single  bool
	Asks    []int64 // consumer: when Ready is asked for, ms
	Gap     int64
	Beats   []int // consumer: heartbeats of so many producers on each stream
}

type muxRun struct {
	c     *MuxCase
	w     *world
	at    []int // the cluster of each stream, -1: none
	hosts map[string]*wslink.Host
	hits  map[string]bool
}

func (r *muxRun) url(i, cl int) string {
	s := &r.c.Streams[i]
	u := ""
	switch s.Kind {
	case sKafka, sMissing:
		var l []string
		for b := 1; b <= s.Brokers; b++ {
			l = append(l, r.w.clusters[cl].Addr(b))
		}
		u = "kafka://" + strings.Join(l, ",") + "?max.waittime=1000"
	case sWS:
		u = "ws://localhost:70000"
	case sNull:
		u = "null://"
	case sUnreachable:
		u = "kafka://z1:9092"
	case sUnknown:
		return s.Text
	}
	if s.Cardinal {
		u = "cardinal://" + u
	}
	return u
}

func mtopic(cl int, topic string) string { return fmt.Sprintf("m%d-%s", cl, topic) }

// content is what the application hands to a producer.
func (r *muxRun) content(k int) (num int64, hash, parent types.Hash, weight *big.Int, up map[string][]byte, del map[string]struct{}, subs map[string]types.Hash) {
	b := &r.c.Blocks[k]
	num, hash, parent, weight, up, del, subs = b.Args(r.c.Style)
	var keys []string
	for k := range up {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return
	}
	key := keys[r.c.Clash[k]%len(keys)]
	switch r.c.Clash[k] % 4 {
	case 1: // a value and a deletion
		del[key] = struct{}{}
	case 2: // a value and a sub-batch
		subs = map[string]types.Hash{key: gen.SubID(r.c.Style, 9000+k)}
	case 3: // a value under the path of a sub-batch, which some count
		if u := b.Updates[0]; u.Fam >= 0 {
			subs = map[string]types.Hash{u.PrefixOf(): gen.SubID(r.c.Style, 9000+k)}
		}
	}
	return
}

func (r *muxRun) runProducer() error {
	c := r.c
	n := len(c.Streams)
	store := &raceStore{}
	mk := func(i, cl int) transports.ProducerBrokerParams {
		p := transports.ProducerBrokerParams{URL: r.url(i, cl)}
		if cl >= 0 {
			p.DefaultTopic = mtopic(cl, "default")
			p.Schema = map[string]string{}
			for k, v := range gen.Schema(c.Streams[i].Fams) {
				p.Schema[k] = mtopic(cl, v)
			}
		}
		return p
	}
	var params []transports.ProducerBrokerParams
	bad := false
	for i := range c.Streams {
		params = append(params, mk(i, r.at[i]))
		bad = bad || c.Streams[i].Kind == sUnknown || c.Streams[i].Kind == sUnreachable || c.Streams[i].Kind == sNull
	}
	mux, err := within("creating a producer", func() (transports.Producer, error) { return transports.ResolveMuxProducer(params, store) })
	if bad != (err != nil) {
		return fmt.Errorf("creating a producer of several streams: %v; some stream cannot be produced: %v", err, bad)
	}
	for i := range c.Streams {
		ok := c.Streams[i].Kind == sKafka
		p, err := within("creating a producer", func() (transports.Producer, error) {
			return transports.ResolveProducer(params[i].URL, params[i].DefaultTopic, params[i].Schema)
		})
		if ok != (err == nil) {
			return fmt.Errorf("creating a producer of %q without a resumer: %v", params[i].URL, err)
		}
		if p != nil && ok {
			p.SetHealth(false)
		}
		if c.Streams[i].Kind == sWS {
			if _, err := transports.ResolveProducerWithResumer(params[i].URL, "", nil, nil); err == nil {
				return fmt.Errorf("a websocket producer without a resumer was made")
			}
		}
	}
	if bad {
		r.hits["refused"] = true
		return nil
	}
	// each stream once more, on its own
	alone := make([]transports.Producer, n)
	twin := make([]int, n)
	for i := range c.Streams {
		twin[i] = -1
		if r.at[i] >= 0 {
			twin[i] = len(r.w.clusters)/2 + r.at[i]
		}
		p := mk(i, twin[i])
		time.Sleep(time.Millisecond)
		if alone[i], err = within("creating a producer", func() (transports.Producer, error) {
			return transports.ResolveProducerWithResumer(p.URL, p.DefaultTopic, p.Schema, store)
		}); err != nil {
			return fmt.Errorf("creating a producer of %q: %v", p.URL, err)
		}
	}
	// both is what the mux must answer
	compare := func(what string, got error, f func(p transports.Producer) error) error {
		var want error
		failed := 0
		for i := range alone {
			if err := f(alone[i]); err != nil {
				failed++
				if want == nil {
					want = err
				}
			}
		}
		if failed > 0 && failed < n {
			r.hits["some-streams-refuse"] = true
		}
		if !errors.Is(got, want) && got != want || (got == nil) != (want == nil) {
			return fmt.Errorf("%s: %v, but the first of the streams that refuses says %v", what, got, want)
		}
		return nil
	}
	sides := func(i int) []int {
		if r.at[i] < 0 {
			return nil
		}
		return []int{r.at[i], twin[i]}
	}
	// what a producer sends after an outage may be refused or not
	down := false
	for _, op := range c.Ops {
		if down && op.Kind != mLatest {
			continue
		}
		time.Sleep(time.Duration(op.Gap) * time.Millisecond)
		synctest.Wait()
		k := op.Blk % len(c.Blocks)
		switch op.Kind {
		case mBlock:
			num, hash, parent, weight, up, del, subs := r.content(k)
			add := func(p transports.Producer) error { return p.AddBlock(num, hash, parent, weight, up, del, subs) }
			if err := compare(fmt.Sprintf("AddBlock of block %d", c.Blocks[k].ID), add(mux), add); err != nil {
				return err
			}
		case mSubs:
			b := &c.Blocks[k]
			if c.Clash[k]%4 >= 2 {
				id := gen.SubID(c.Style, 9000+k)
				send := func(p transports.Producer) error { return p.SendBatch(id, []string{"x"}, nil) }
				if err := compare("SendBatch", send(mux), send); err != nil {
					return err
				}
				continue
			}
			for j := op.Sub; j < len(b.Subs); j++ {
				d, u := b.Subs[j].SubArgs()
				send := func(p transports.Producer) error { return p.SendBatch(gen.SubID(c.Style, b.Subs[j].ID), d, u) }
				if err := compare("SendBatch", send(mux), send); err != nil {
					return err
				}
			}
		case mReorg:
			b := &c.Blocks[k]
			f := func(p transports.Producer) error {
				done, err := p.Reorg(b.Num, gen.Hash(c.Style, b.ID))
				if done == nil {
					return fmt.Errorf("Reorg returned no function")
				}
				done()
				return err
			}
			if err := compare("Reorg", f(mux), f); err != nil {
				return err
			}
		case mHealth:
			mux.SetHealth(op.N%2 == 0)
			for _, p := range alone {
				p.SetHealth(op.N%2 == 0)
			}
		case mPurge:
			mux.PurgeReplayCache()
			for _, p := range alone {
				p.PurgeReplayCache()
			}
		case mCount:
			d := time.Duration(op.N) * time.Second
			var want uint
			for _, p := range alone {
				want += p.ProducerCount(d)
			}
			if got := mux.ProducerCount(d); got != want {
				return fmt.Errorf("ProducerCount is %d, but the streams count %d", got, want)
			}
			if want > 0 {
				r.hits["counted"] = true
			}
		case mLatest:
			set := func(up bool) {
				for i := range c.Streams {
					if op.Mask&(1<<i) == 0 {
						continue
					}
					for _, cl := range sides(i) {
						for b := 1; b <= c.Streams[i].Brokers; b++ {
							r.w.clusters[cl].SetUp(int32(b), up)
						}
					}
				}
			}
			set(false)
			got, err := within("LatestBlockFromFeed", mux.LatestBlockFromFeed)
			want, ok := int64(0), false
			for i, p := range alone {
				v, err := within("LatestBlockFromFeed", p.LatestBlockFromFeed)
				if err != nil {
					continue
				}
				if c.Streams[i].Kind == sKafka && op.Mask&(1<<i) != 0 {
					return fmt.Errorf("LatestBlockFromFeed is %d while no broker can be reached", v)
				}
				if !ok || v < want {
					want, ok = v, true
				}
			}
			set(true)
			if ok != (err == nil) || ok && got != want {
				return fmt.Errorf("LatestBlockFromFeed is %d (%v), but the lowest of the streams that can tell is %d (%v)", got, err, want, ok)
			}
			if ok && want > 0 {
				r.hits["latest"] = true
			}
			time.Sleep(10 * time.Second)
			down = down || op.Mask != 0
		case mOther:
			m := headerOf(&c.Blocks[k], c.Style)
			for i := range c.Streams {
				if op.Mask&(1<<i) == 0 {
					continue
				}
				for _, cl := range sides(i) {
					def := mtopic(cl, "default")
					r.w.clusters[cl].Append(def, op.N%r.w.clusters[cl].Partitions(def), m.K, m.V, time.Now())
				}
				r.hits["other"] = true
			}
			time.Sleep(10 * time.Millisecond)
		case mBeat:
			v, _ := time.Now().MarshalBinary()
			for i := range c.Streams {
				if op.Mask&(1<<i) == 0 {
					continue
				}
				for _, cl := range sides(i) {
					for j := 0; j < op.N; j++ {
						r.w.clusters[cl].Append(mtopic(cl, "default"), 0, delivery.PingType.GetKey(bytes.Repeat([]byte{byte(j)}, 32)), v, time.Now())
					}
				}
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	time.Sleep(35 * time.Second)
	synctest.Wait()
	// the same messages on both sides
	for i := range c.Streams {
		if r.at[i] < 0 {
			continue
		}
		text := func(cl int) (l []string, beats int) {
			fc := r.w.clusters[cl]
			for _, p := range logs(fc) {
				if len(p.rec.Key) > 0 && p.rec.Key[0] == byte(delivery.PingType) {
					beats++
					continue
				}
				// the encoding of maps has no order
				v := fmt.Sprintf("%x", p.rec.Value)
				if len(p.rec.Key) == 33 && p.rec.Key[0] == 0 {
					if h, err := gen.DecodeHeader(p.rec.Value); err == nil {
						v = fmt.Sprintf("%+v", *h)
					}
				}
				l = append(l, fmt.Sprintf("%s %d %x %s", strings.TrimPrefix(p.topic, fmt.Sprintf("m%d-", cl)), p.part, p.rec.Key, v))
			}
			sort.Strings(l)
			return
		}
		a, beatsA := text(r.at[i])
		b, beatsB := text(twin[i])
		if strings.Join(a, "\n") != strings.Join(b, "\n") {
			return fmt.Errorf("stream %d has other messages than it has on its own: %d messages %v, want %d messages %v", i, len(a), diffOf(a, b), len(b), diffOf(b, a))
		}
		if d := beatsA - beatsB; !down && (d < -1 || d > 1) {
			return fmt.Errorf("stream %d has %d heartbeats, %d on its own", i, beatsA, beatsB)
		}
		if len(a) > 0 {
			r.hits["sent"] = true
		}
	}
	return nil
}

// diffOf is what a has and b has not.
func diffOf(a, b []string) (l []string) {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	for _, x := range a {
		if n[x]--; n[x] < 0 && len(l) < 3 {
			l = append(l, x)
		}
	}
	return
}

func (r *muxRun) runConsumer() error {
	c := r.c
	var params []transports.BrokerParams
	var wsp []transports.Producer
	stores := make([]*raceStore, len(c.Streams))
	sent := map[int]bool{}
	bad, startable, readable := false, 0, 0
	for i := range c.Streams {
		s := &c.Streams[i]
		bp := transports.BrokerParams{URL: r.url(i, r.at[i])}
		wsp = append(wsp, nil)
		switch s.Kind {
		case sWS:
			stores[i] = &raceStore{}
			p, err := transports.NewWebsocketProducer("ws://localhost:70000", stores[i])
			if err != nil {
				return fmt.Errorf("creating a websocket producer: %v", err)
			}
			wsp[i] = p
			name := fmt.Sprintf("w%d", i)
			r.hosts[name] = wslink.New(p.(interface{ Service() interface{} }).Service())
			bp.URL = "ws://" + name + ":1/"
			if s.Cardinal {
				bp.URL = "cardinal://" + bp.URL
			}
			startable++
			readable++
		case sKafka, sMissing:
			bp.DefaultTopic = mtopic(r.at[i], "default")
			for _, t := range topicsOf(s.Fams) {
				bp.Topics = append(bp.Topics, mtopic(r.at[i], t))
			}
			if s.Kind == sMissing {
				k := s.Brokers % (len(bp.Topics) + 1)
				bp.Topics = append(bp.Topics[:k:k], append([]string{"nope"}, bp.Topics[k:]...)...)
			} else {
				startable++
				readable++
			}
		case sNull:
			startable++
		default:
			bad = true
		}
		params = append(params, bp)
	}
	wslink.Hook(r.hosts)
	write := func(k int) {
		b := &c.Blocks[k]
		for i := range c.Streams {
			s := &c.Streams[i]
			if c.Masks[k]&(1<<i) == 0 || s.Kind != sKafka && s.Kind != sWS {
				continue
			}
			sent[b.ID] = true
			if s.Kind == sWS {
				num, hash, parent, weight, up, del, subs := b.Args(c.Style)
				wsp[i].AddBlock(num, hash, parent, weight, up, del, subs)
				for j := range b.Subs {
					d, u := b.Subs[j].SubArgs()
					wsp[i].SendBatch(gen.SubID(c.Style, b.Subs[j].ID), d, u)
				}
				stores[i].add(pendingBatch(b, c.Style))
				continue
			}
			fc := r.w.clusters[r.at[i]]
			for _, m := range b.Encode(c.Style) {
				topic := mtopic(r.at[i], m.Topic)
				fc.Append(topic, int(m.K[len(m.K)-1])%fc.Partitions(topic), m.K, m.V, time.Now())
			}
		}
	}
	live := len(c.Blocks) - c.Late%len(c.Blocks)
	for k := 0; k < live; k++ {
		write(k)
	}
	root := gen.Hash(c.Style, 0)
	con, err := within("creating a consumer", func() (transports.Consumer, error) {
		cfg := consumerConfig(root, c.Blocks[0].Num-1, rootWeight(c.Blocks))
		if len(params) == 1 && c.Single {
			return transports.ResolveConsumer(params[0].URL, params[0].DefaultTopic, params[0].Topics, nil, 0, cfg)
		}
		return transports.ResolveMuxConsumer(params, nil, cfg)
	})
	if bad != (err != nil) {
		return fmt.Errorf("creating a consumer: %v; some stream cannot be consumed: %v", err, bad)
	}
	if bad {
		r.hits["refused"] = true
		return nil
	}
	a := newApp(c.Blocks, c.Style)
	a.chain = []types.Hash{root}
	a.follow(con)
	// Ready, asked for at any time, is answered
	answers := make(chan int, len(c.Asks)*2)
	for _, ms := range c.Asks {
		go func() {
			time.Sleep(time.Duration(ms) * time.Millisecond)
			ch := con.Ready()
			<-ch
			if readable > 0 {
				<-ch // and to all that wait for one answer
			}
			answers <- 1
		}()
	}
	_, err = within("Start", func() (int, error) { return 0, con.Start() })
	if (err == nil) != (startable > 0) {
		return fmt.Errorf("Start: %v, but %d of %d streams can be read", err, startable, len(params))
	}
	if startable < len(params) {
		r.hits["partly-unreadable"] = true
	}
	if readable > 0 {
		if err := within1("Ready", func() { <-con.Ready() }); err != nil {
			return err
		}
		if err := within1("an earlier or later call of Ready", func() {
			for range c.Asks {
				<-answers
			}
		}); err != nil {
			return err
		}
	} else if startable > 0 {
		if err := within1("Ready of null streams", func() { <-con.Ready() }); err != nil {
			return err
		}
	}
	head := func(when string) error {
		rel := map[int]bool{0: true}
		best, bw := 0, rootWeight(c.Blocks)
		for k := range c.Blocks {
			b := &c.Blocks[k]
			rel[b.ID] = sent[b.ID] && rel[b.Parent]
			if rel[b.ID] && b.WeightInt().Cmp(bw) > 0 {
				best, bw = b.ID, b.WeightInt()
			}
		}
		id, hw := 0, rootWeight(c.Blocks)
		if b := a.byHash[a.head()]; b != nil {
			id, hw = b.ID, b.WeightInt()
		}
		if readable > 0 && hw.Cmp(bw) != 0 {
			return fmt.Errorf("%s, the consumer is at block %d, but block %d and its ancestors have been published and are heavier", when, id, best)
		}
		if readable > 1 && id > 0 {
			r.hits["followed"] = true
		}
		return nil
	}
	time.Sleep(40 * time.Second)
	synctest.Wait()
	if err := head("at first"); err != nil {
		return err
	}
	w := con.Waiter()
	if w == nil || con.Waiter() != w {
		return fmt.Errorf("Waiter: %v, then another", w)
	}
	for k := live; k < len(c.Blocks); k++ {
		write(k)
		time.Sleep(time.Duration(c.Gap) * time.Millisecond)
	}
	var beating uint
	for i, n := range c.Beats {
		v, _ := time.Now().MarshalBinary()
		for j := 0; j < n && i < len(c.Streams) && c.Streams[i].Kind == sKafka; j++ {
			topic := mtopic(r.at[i], "default")
			fc := r.w.clusters[r.at[i]]
			fc.Append(topic, j%fc.Partitions(topic), delivery.PingType.GetKey(bytes.Repeat([]byte{byte(j)}, 32)), v, time.Now())
			beating++
		}
	}
	time.Sleep(40 * time.Second)
	synctest.Wait()
	if n := con.ProducerCount(2 * time.Minute); n != beating {
		return fmt.Errorf("%d heartbeats have been sent to the streams, but ProducerCount is %d", beating, n)
	} else if n > 1 {
		r.hits["heard"] = true
	}
	if readable > 0 {
		if err := head("in the end"); err != nil {
			return err
		}
		if b := a.byHash[a.head()]; b != nil && live < len(c.Blocks) && b.ID > live {
			if res := w.WaitForHashResult(gen.Hash(c.Style, b.ID), time.Second); res != waiter.Success {
				return fmt.Errorf("waiting for block %d, which has been applied: %v", b.ID, res)
			}
			r.hits["waited"] = true
		}
	} else if res := w.WaitForHashResult(gen.Hash(c.Style, 1), time.Second); res != waiter.NotFound {
		return fmt.Errorf("waiting for a block of no stream: %v", res)
	}
	if err := a.stop(); err != nil {
		return err
	}
	return a.err()
}

func runMux(c *MuxCase) (o core.Outcome) {
	r := &muxRun{c: c, hosts: map[string]*wslink.Host{}, hits: map[string]bool{}}
	var brokers []int
	for i := range c.Streams {
		r.at = append(r.at, -1)
		if k := c.Streams[i].Kind; k == sKafka || k == sMissing {
			r.at[i] = len(brokers)
			brokers = append(brokers, c.Streams[i].Brokers)
		}
	}
	sides := 1
	if c.Produce {
		sides = 2
		brokers = append(brokers, brokers...)
	}
	r.w = newWorld(brokers...)
	for side := 0; side < sides; side++ {
		for i := range c.Streams {
			if r.at[i] < 0 {
				continue
			}
			cl := r.at[i] + side*len(brokers)/2
			for k, t := range topicsOf(c.Streams[i].Fams) {
				r.w.clusters[cl].Create(mtopic(cl, t), spread(max(1, c.Streams[i].Parts[t]), c.Streams[i].Brokers, k))
			}
		}
	}
	var err error
	if c.Produce {
		err = r.runProducer()
	} else {
		err = r.runConsumer()
	}
	if err != nil {
		return core.Outcome{Err: err}
	}
	o.NonTrivial = r.hits["some-streams-refuse"] || r.hits["followed"] || r.hits["partly-unreadable"] || r.hits["refused"] && len(c.Streams) > 1
	for k := range r.hits {
		o.Tags = append(o.Tags, k)
	}
	return o
}

func genMux(t *rapid.T) *MuxCase {
	c := &MuxCase{Produce: rapid.Bool().Draw(t, "produce"), Style: rapid.SampledFrom([]int{0, 2, 3}).Draw(t, "style"), Clash: map[int]int{}}
	fams := rapid.SampledFrom([][]int{{0}, {0, 2}, {0, 3, 5}}).Draw(t, "fams")
	n := rapid.SampledFrom([]int{2, 3, 2, 3, 1}).Draw(t, "streams")
	ws := false
	for i := 0; i < n; i++ {
		s := MStream{Brokers: rapid.IntRange(1, 2).Draw(t, "brokers"), Cardinal: rapid.Bool().Draw(t, "cardinal"), Parts: map[string]int{}}
		switch rapid.IntRange(0, 11).Draw(t, "kind") {
		case 0, 1, 2:
			s.Kind = sWS
			ws = true
		case 3:
			s.Kind = sNull
			if c.Produce && rapid.IntRange(0, 3).Draw(t, "keep") > 0 {
				s.Kind = sKafka
			}
		case 4:
			s.Kind = sMissing
			if c.Produce {
				s.Kind = sKafka
			}
		case 5:
			s.Kind = rapid.SampledFrom([]int{sKafka, sKafka, sKafka, sUnknown, sUnreachable}).Draw(t, "bad")
			s.Text = rapid.SampledFrom([]string{"", "foo://x:1", "http://a1:9092", "a1:9092", "kafka", "cardinal://", "KAFKA//a1:9092", "wsx://a"}).Draw(t, "text")
		}
		s.Fams = fams
		if c.Produce { // each stream splits the blocks in its own way
			s.Fams = nil
			for _, f := range fams {
				if rapid.Bool().Draw(t, "fam") {
					s.Fams = append(s.Fams, f)
				}
			}
		}
		for _, tp := range topicsOf(s.Fams) {
			s.Parts[tp] = rapid.IntRange(1, 3).Draw(t, "parts")
		}
		c.Streams = append(c.Streams, s)
	}
	forks := 0
	if !c.Produce {
		forks = rapid.IntRange(0, 3).Draw(t, "forks")
	}
	c.Blocks = genTree(t, 10, forks, fams)
	if ws {
		utf8Keys(c.Blocks)
	}
	if !c.Produce {
		for range c.Blocks {
			c.Masks = append(c.Masks, rapid.SampledFrom([]int{7, 1, 2, 4, 3, 5, 6, 7}).Draw(t, "mask"))
		}
		c.Late = rapid.IntRange(0, 9).Draw(t, "late")
		c.Single = rapid.Bool().Draw(t, "single")
		for k := rapid.IntRange(0, 4).Draw(t, "asks"); k > 0; k-- {
			c.Asks = append(c.Asks, rapid.SampledFrom([]int64{0, 1, 900, 3000, 60000}).Draw(t, "ask"))
		}
		c.Gap = rapid.SampledFrom([]int64{0, 10, 1000}).Draw(t, "gap")
		for range c.Streams {
			c.Beats = append(c.Beats, rapid.IntRange(0, 2).Draw(t, "beats"))
		}
		return c
	}
	for k := range c.Blocks {
		if rapid.IntRange(0, 2).Draw(t, "clash") == 0 {
			c.Clash[k] = rapid.IntRange(0, 15).Draw(t, "how")
			if c.Clash[k]%4 != 0 {
				c.Blocks[k].Subs = c.Blocks[k].Subs[:min(1, len(c.Blocks[k].Subs))]
			}
		}
	}
	next := 0
	for k := rapid.IntRange(2, 18).Draw(t, "ops"); k > 0; k-- {
		op := MOp{Kind: rapid.SampledFrom([]int{mBlock, mBlock, mBlock, mSubs, mSubs, mReorg, mHealth, mPurge, mCount, mLatest, mLatest, mOther, mOther, mBeat, mBeat}).Draw(t, "op"),
			Blk: rapid.IntRange(0, 9).Draw(t, "blk"), Mask: rapid.IntRange(0, 7).Draw(t, "mask"), N: rapid.IntRange(0, 3).Draw(t, "n"),
			Gap: rapid.SampledFrom([]int64{3000, 4000, 20000}).Draw(t, "gap")} // a producer has seen what it has sent
		switch op.Kind {
		case mBlock:
			if rapid.IntRange(0, 4).Draw(t, "again") > 0 {
				op.Blk = next
				next++
			}
		case mSubs:
			if rapid.Bool().Draw(t, "last") {
				op.Blk = max(0, next-1)
			}
			op.Sub = rapid.IntRange(0, 1).Draw(t, "sub")
		case mLatest:
			if k > 2 {
				op.Mask = 0
			}
		case mCount:
			op.N = rapid.SampledFrom([]int{1, 5, 60, 600}).Draw(t, "secs")
		}
		c.Ops = append(c.Ops, op)
		if op.Kind == mBeat {
			c.Ops = append(c.Ops, MOp{Kind: mCount, N: 60, Gap: 3000})
		}
	}
	return c
}

func TestC23(t *testing.T) {
	core.Run(t, "C23", genMux, func(t *testing.T, c *MuxCase) (o core.Outcome) {
		err := core.Bubble(t, func() { o = runMux(c) })
		if err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
