package kafka

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

const (
	hWait    = iota // nothing
	hHealth         // producer P is (N > 0) or is not healthy
	hCount          // everybody is asked how many producers were there in the last D s
	hForeign        // heartbeats of stranger N and of D others arrive in partition Part of cluster Cl
	hStart          // producer P starts, on the clusters in Mask
	hFollow         // consumer P starts, on the clusters in Mask
	hNoise          // N messages without a key arrive in partition Part of cluster Cl
	hAdd            // producer P announces block Blk
)

// HOp happens Cycles half minutes after the next moment with phase Phase.
type HOp struct {
	Kind, P, Phase, Cycles, N, D, Cl, Part, Mask, Blk int
	All                                               bool
}

// BeatCase is a timeline of producers that show that they are there.
type BeatCase struct {
	Brokers []int
	Parts   []int
	Options string
	Blocks  []gen.Block
	Ops     []HOp
	Crowd   []int64 // ms before each of several producers that start one after another in the end
}

type counter interface{ ProducerCount(time.Duration) uint }

// reader is what a producer or consumer makes of the heartbeats in a cluster.
type reader struct {
	cl       int
	from, to time.Time     // when it read what was there
	offsets  map[int]int64 // where it started
	fuzzy    bool          // or somewhat later
}

type beater struct {
	p        transports.Producer
	mask     int
	from, to time.Time
	health   []struct {
		at time.Time
		ok bool
	}
	ids     []string // per cluster
	readers []*reader
	added   map[int]bool
}

type follower struct {
	c       transports.Consumer
	readers []*reader
}

type beatRun struct {
	c        *BeatCase
	w        *world
	base     time.Time
	pm       []*beater
	cm       []*follower
	foreign  map[string]bool
	healthy  int
	sick     int
	counted  int
	expired  int
	consumed int
}

const slack = 1500 * time.Millisecond

func (r *beatRun) url(i int) string {
	var l []string
	for b := 1; b <= r.c.Brokers[i]; b++ {
		l = append(l, r.w.clusters[i].Addr(b))
	}
	return "kafka://" + strings.Join(l, ",") + r.c.Options
}

// at waits for the next moment at a phase of the half minute.
func (r *beatRun) at(phase time.Duration, cycles int) {
	d := (phase - time.Since(r.base)%(30*time.Second) + 30*time.Second) % (30 * time.Second)
	time.Sleep(d + time.Duration(cycles)*30*time.Second)
	synctest.Wait()
}

func (r *beatRun) readers(mask int, all bool, window int64) []*reader {
	var l []*reader
	for i, fc := range r.w.clusters {
		if len(r.w.clusters) > 1 && mask&(1<<i) == 0 {
			continue
		}
		t := clusterTopic(i, "default")
		rd := &reader{cl: i, offsets: map[int]int64{}, from: time.Now()}
		for p := 0; p < fc.Partitions(t); p++ {
			n := int64(len(fc.Log(t, p)))
			rd.offsets[p] = max(0, n-window)
			if all {
				rd.offsets[p] = 0
			}
		}
		l = append(l, rd)
	}
	return l
}

func beatID(k []byte) (string, bool) {
	if len(k) == 0 || k[0] != byte(delivery.PingType) {
		return "", false
	}
	return string(k[1:]), true
}

// bounds is how many producers a count over d can be.
func (r *beatRun) bounds(readers []*reader, own []string, d time.Duration) (lo, hi uint) {
	now := time.Now()
	for _, rd := range readers {
		fc := r.w.clusters[rd.cl]
		t := clusterTopic(rd.cl, "default")
		type span struct{ a, b time.Time }
		sure := map[string]bool{}
		last := map[string]span{}
		for p := 0; p < fc.Partitions(t); p++ {
			for _, rec := range fc.Log(t, p) {
				id, ok := beatID(rec.Key)
				if !ok || rec.Offset < rd.offsets[p] || own != nil && own[rd.cl] == id {
					continue
				}
				sure[id] = sure[id] || !rd.fuzzy || rec.Time.After(rd.to)
				a, b := rec.Time, rec.Time.Add(slack)
				if a.Before(rd.from) {
					a = rd.from
				}
				if b.Before(rd.to) {
					b = rd.to
				}
				if s, ok := last[id]; !ok || s.a.Before(a) || s.b.Before(b) {
					last[id] = span{a, b}
				}
			}
		}
		for id, s := range last {
			if now.Sub(s.a) < d && sure[id] {
				lo++
			}
			if now.Sub(s.b) < d {
				hi++
			} else {
				r.expired++
			}
		}
	}
	return lo, hi
}

// count asks everybody.
func (r *beatRun) count(d time.Duration) error {
	check := func(who string, c counter, readers []*reader, own []string) error {
		lo, hi := r.bounds(readers, own, d)
		if got := c.ProducerCount(d); got < lo || got > hi {
			return fmt.Errorf("after %v, %s counts %d producers within %v, want %d to %d", time.Since(r.base), who, got, d, lo, hi)
		}
		if lo > 0 {
			r.counted++
		}
		return nil
	}
	for i, b := range r.pm {
		if b != nil {
			if err := check(fmt.Sprintf("producer %d", i), b.p, b.readers, b.ids); err != nil {
				return err
			}
		}
	}
	for i, f := range r.cm {
		if f != nil {
			if err := check(fmt.Sprintf("consumer %d", i), f.c, f.readers, nil); err != nil {
				return err
			}
			r.consumed++
		}
	}
	return nil
}

// beats compares the heartbeats in the logs with the producers.
func (r *beatRun) beats() error {
	now := time.Now()
	for i, fc := range r.w.clusters {
		t := clusterTopic(i, "default")
		byID := map[string][]time.Time{}
		for p := 0; p < fc.Partitions(t); p++ {
			for _, rec := range fc.Log(t, p) {
				id, ok := beatID(rec.Key)
				if !ok || r.foreign[id] {
					continue
				}
				if len(id) != 32 {
					return fmt.Errorf("a heartbeat has the key %x", rec.Key)
				}
				var v time.Time
				if err := v.UnmarshalBinary(rec.Value); err != nil {
					return fmt.Errorf("a heartbeat has the value %x: %v", rec.Value, err)
				}
				if rec.Time.Before(v.Add(-slack)) || rec.Time.After(v.Add(slack)) {
					return fmt.Errorf("a heartbeat written at %v says %v", rec.Time, v)
				}
				byID[id] = append(byID[id], v)
			}
		}
		for k, b := range r.pm {
			if b == nil || len(r.w.clusters) > 1 && b.mask&(1<<i) == 0 {
				continue
			}
			// whose heartbeats are these?
			for id, l := range byID {
				in := (l[0].Sub(b.from)%(30*time.Second) + 30*time.Second) % (30 * time.Second)
				if in <= b.to.Sub(b.from)+time.Second || in > 29*time.Second {
					if b.ids[i] != "" && b.ids[i] != id {
						return fmt.Errorf("producer %d has heartbeats with the ids %x and %x", k, b.ids[i], id)
					}
					b.ids[i] = id
				}
			}
			got := byID[b.ids[i]]
			delete(byID, b.ids[i])
			used := 0
			for n := time.Duration(1); ; n++ {
				lo, hi := b.from.Add(n*30*time.Second-slack/10), b.to.Add(n*30*time.Second+slack)
				if hi.After(now) {
					break
				}
				ok := true
				for _, h := range b.health {
					if h.at.Before(lo) {
						ok = h.ok
					}
				}
				found := 0
				for _, v := range got {
					if !v.Before(lo) && !v.After(hi) {
						found++
					}
				}
				used += found
				switch {
				case ok && found != 1:
					return fmt.Errorf("producer %d, healthy, sent %d heartbeats %v after it started, want 1 (cluster %d)", k, found, n*30*time.Second, i)
				case !ok && found > 0:
					return fmt.Errorf("producer %d, not healthy, sent a heartbeat %v after it started", k, n*30*time.Second)
				case ok:
					r.healthy++
				default:
					r.sick++
				}
			}
			if used != len(got) {
				return fmt.Errorf("producer %d sent %d heartbeats, %d of which are due", k, len(got), used)
			}
		}
		for id, l := range byID {
			return fmt.Errorf("nobody sent the heartbeat of %x at %v", id, l[0].Sub(r.base))
		}
	}
	return nil
}

// ids are the ids of the heartbeats in cluster 0.
func (r *beatRun) ids() map[string]bool {
	fc, t, m := r.w.clusters[0], clusterTopic(0, "default"), map[string]bool{}
	for p := 0; p < fc.Partitions(t); p++ {
		for _, rec := range fc.Log(t, p) {
			if id, ok := beatID(rec.Key); ok {
				m[id] = true
			}
		}
	}
	return m
}

// crowd starts producers in quick succession, and tells them apart by the ids
// they use.
func (r *beatRun) crowd() error {
	if len(r.c.Crowd) == 0 {
		return nil
	}
	before := r.ids()
	for _, b := range r.pm {
		if b != nil {
			b.p.SetHealth(true) // from here on they are told apart by their ids, too
			if b.ids[0] == "" && (len(r.w.clusters) == 1 || b.mask&1 != 0) {
				return nil // it never sent one, so that its id is not known
			}
		}
	}
	var ps []transports.Producer
	for _, gap := range r.c.Crowd {
		time.Sleep(time.Duration(gap) * time.Millisecond)
		p, err := within("starting a producer", func() (transports.Producer, error) {
			return transports.NewKafkaProducer(r.url(0), clusterTopic(0, "default"), nil)
		})
		if err != nil {
			return fmt.Errorf("starting one of many producers: %v", err)
		}
		ps = append(ps, p)
	}
	time.Sleep(35 * time.Second)
	fresh := 0
	for id := range r.ids() {
		if !before[id] {
			fresh++
		}
	}
	if fresh != len(ps) {
		return fmt.Errorf("%d producers that started one after another (after %v ms) have %d ids", len(ps), r.c.Crowd, fresh)
	}
	for i, p := range ps {
		if n := p.ProducerCount(time.Hour); n < uint(len(ps)-1) {
			return fmt.Errorf("one of %d producers that started one after another (the %d.) counts %d others", len(ps), i, n)
		}
	}
	return nil
}

func runBeat(c *BeatCase) (o core.Outcome) {
	w := newWorld(c.Brokers...)
	r := &beatRun{c: c, w: w, base: time.Now(), pm: make([]*beater, 4), cm: make([]*follower, 2), foreign: map[string]bool{}}
	for i, fc := range w.clusters {
		if c.Parts[i] > 0 {
			fc.Create(clusterTopic(i, "default"), spread(c.Parts[i], c.Brokers[i], 0))
		}
	}
	for _, op := range c.Ops {
		phase := time.Duration(op.Phase*7+4) * time.Second
		if op.Kind == hStart {
			if r.pm[op.P] != nil {
				continue
			}
			phase = time.Duration(op.P*7) * time.Second
		}
		r.at(phase, op.Cycles)
		cl := op.Cl % len(w.clusters)
		fc := w.clusters[cl]
		def := clusterTopic(cl, "default")
		if op.Kind >= hHealth {
			if err := r.beats(); err != nil {
				return core.Outcome{Err: err}
			}
		}
		switch op.Kind {
		case hHealth:
			if b := r.pm[op.P%4]; b != nil {
				b.p.SetHealth(op.N > 0)
				b.health = append(b.health, struct {
					at time.Time
					ok bool
				}{time.Now(), op.N > 0})
			}
		case hCount:
			if err := r.count(time.Duration(op.D) * time.Second); err != nil {
				return core.Outcome{Err: err}
			}
		case hForeign:
			if n := fc.Partitions(def); n > 0 {
				for k := 0; k <= op.D; k++ {
					id := bytes.Repeat([]byte{byte(op.N), 0xaa ^ byte(k)}, 16)
					r.foreign[string(id)] = true
					v, _ := time.Now().Add(-time.Hour).MarshalBinary()
					fc.Append(def, (op.Part+k)%n, delivery.PingType.GetKey(id), v, time.Now())
				}
			}
		case hNoise:
			if n := fc.Partitions(def); n > 0 {
				for k := 0; k < op.N; k++ {
					key, value := foreign(op.Part + k)
					fc.Append(def, op.Part%n, key, value, time.Now())
				}
			}
		case hAdd:
			if b := r.pm[op.P%4]; b != nil {
				blk := &c.Blocks[op.Blk%len(c.Blocks)]
				num, hash, parent, weight, up, del, _ := blk.Args(0)
				if err := b.p.AddBlock(num, hash, parent, weight, up, del, nil); err != nil {
					return core.Fail("AddBlock: %v", err)
				}
			}
		case hStart:
			b := &beater{mask: op.Mask, ids: make([]string, 2), readers: r.readers(op.Mask, false, 100), from: time.Now()}
			var params []transports.ProducerBrokerParams
			for _, rd := range b.readers {
				schema := map[string]string{}
				for k, v := range gen.Schema([]int{0}) {
					schema[k] = clusterTopic(rd.cl, v)
				}
				params = append(params, transports.ProducerBrokerParams{URL: r.url(rd.cl), DefaultTopic: clusterTopic(rd.cl, "default"), Schema: schema})
			}
			var err error
			b.p, err = within("starting a producer", func() (transports.Producer, error) {
				if len(params) == 1 && !op.All {
					return transports.ResolveProducerWithResumer(params[0].URL, params[0].DefaultTopic, params[0].Schema, nil)
				}
				return transports.ResolveMuxProducer(params, nil)
			})
			if err != nil {
				return core.Fail("starting a producer: %v", err)
			}
			b.to = time.Now()
			if b.to.Sub(b.from) > 2*time.Second { // too long to tell producers apart
				return core.Outcome{Tags: []string{"slow-start"}}
			}
			for _, rd := range b.readers {
				rd.to = b.to.Add(slack)
			}
			r.pm[op.P] = b
		case hFollow:
			if r.cm[op.P%2] != nil {
				continue
			}
			// It keeps to what is there.
			ok := true
			for i, fc := range w.clusters {
				ok = ok && fc.Partitions(clusterTopic(i, "default")) > 0
			}
			if !ok {
				continue
			}
			f := &follower{readers: r.readers(op.Mask, op.All, 1)}
			for _, rd := range f.readers {
				rd.fuzzy = !op.All // a heartbeat may arrive while it starts
			}
			hash := types.Hash{}
			if op.All {
				hash = gen.Hash(0, 0)
			}
			var params []transports.BrokerParams
			for _, rd := range f.readers {
				t := clusterTopic(rd.cl, "default")
				params = append(params, transports.BrokerParams{URL: r.url(rd.cl), DefaultTopic: t, Topics: []string{t}})
			}
			var err error
			f.c, err = within("starting a consumer", func() (transports.Consumer, error) {
				con, err := transports.ResolveMuxConsumer(params, nil, consumerConfig(hash, c.Blocks[0].Num-1, rootWeight(c.Blocks)))
				if err != nil {
					return nil, err
				}
				updates := make(chan *delivery.ChainUpdate, 100)
				con.Subscribe(updates)
				go func() {
					for u := range updates {
						u.Done()
					}
				}()
				go func() { <-con.Ready() }()
				return con, con.Start()
			})
			if err != nil {
				return core.Fail("starting a consumer: %v", err)
			}
			for _, rd := range f.readers {
				rd.to = time.Now().Add(10 * time.Second)
			}
			r.cm[op.P%2] = f
		}
	}
	time.Sleep(65 * time.Second)
	r.at(4*time.Second, 0)
	if err := r.beats(); err != nil {
		return core.Outcome{Err: err}
	}
	if err := r.count(time.Minute); err != nil {
		return core.Outcome{Err: err}
	}
	if err := r.crowd(); err != nil {
		return core.Outcome{Err: err}
	}
	for i, fc := range w.clusters {
		if len(fc.BadReqs) > 0 {
			return core.Fail("cluster %d did not understand a request: %v", i, fc.BadReqs)
		}
	}
	for k, n := range map[string]int{"heartbeat": r.healthy, "silent": r.sick, "counted": r.counted, "too-old": r.expired, "consumer": r.consumed} {
		if n > 0 {
			o.Tags = append(o.Tags, k)
		}
	}
	o.NonTrivial = r.healthy > 0 && r.counted > 0 && (r.sick > 0 || r.expired > 0)
	return o
}

func TestC18(t *testing.T) {
	core.Run(t, "C18", func(t *rapid.T) BeatCase {
		c := BeatCase{Options: genOptions(t)}
		for k := rapid.IntRange(1, 2).Draw(t, "clusters"); k > 0; k-- {
			c.Brokers = append(c.Brokers, rapid.IntRange(1, 3).Draw(t, "brokers"))
			c.Parts = append(c.Parts, rapid.IntRange(0, 3).Draw(t, "parts"))
		}
		c.Blocks = genTree(t, 3, 0, []int{0})
		kinds := []int{hStart, hHealth, hCount, hForeign, hStart, hFollow, hCount, hHealth, hWait, hNoise, hAdd}
		for k := rapid.IntRange(1, 8).Draw(t, "ops3") * 3; k > 0; k-- {
			op := HOp{Kind: kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")], P: rapid.IntRange(0, 3).Draw(t, "p"), Phase: rapid.IntRange(0, 3).Draw(t, "phase")}
			op.Cycles = []int{0, 0, 1, 2, 5}[rapid.IntRange(0, 4).Draw(t, "cycles")]
			op.N = rapid.IntRange(0, 2).Draw(t, "n")
			switch op.Kind {
			case hHealth:
				op.N = rapid.IntRange(0, 1).Draw(t, "ok")
			case hCount:
				op.D = []int{60, 31, 120, 15, 300, 1, 10000}[rapid.IntRange(0, 6).Draw(t, "d")]
			case hForeign:
				op.N, op.Cl, op.Part = rapid.IntRange(1, 3).Draw(t, "n"), rapid.IntRange(0, 1).Draw(t, "cl"), rapid.IntRange(0, 2).Draw(t, "part")
				if rapid.IntRange(0, 3).Draw(t, "others") == 3 {
					op.D = []int{5, 20, 60, 200}[rapid.IntRange(0, 3).Draw(t, "others2")]
				}
			case hNoise:
				op.N, op.Cl, op.Part = []int{3, 98, 99, 100, 101}[rapid.IntRange(0, 4).Draw(t, "n")], rapid.IntRange(0, 1).Draw(t, "cl"), rapid.IntRange(0, 2).Draw(t, "part")
			case hStart, hFollow:
				op.Mask, op.All = rapid.IntRange(1, 3).Draw(t, "mask"), rapid.Bool().Draw(t, "all")
			case hAdd:
				op.Blk = rapid.IntRange(0, 2).Draw(t, "blk")
			}
			c.Ops = append(c.Ops, op)
		}
		if rapid.IntRange(0, 3).Draw(t, "crowded") == 3 {
			for k := rapid.IntRange(2, 4).Draw(t, "crowd"); k > 0; k-- {
				c.Crowd = append(c.Crowd, []int64{1, 20, 400, 1500}[rapid.IntRange(0, 3).Draw(t, "cgap")])
			}
		}
		return c
	}, func(t *testing.T, c BeatCase) core.Outcome {
		var o core.Outcome
		if err := core.Bubble(t, func() { o = runBeat(&c) }); err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
