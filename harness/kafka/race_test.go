package kafka

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unicode/utf8"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/wslink"
)

const (
	rPublish = iota // producer A publishes its next N blocks
	rRaw            // the messages of block B arrive again in cluster A
	rBeat           // N heartbeats of others arrive in cluster A
	rCount          // everything that counts producers does
	rHealth         // the health of producer A changes
	rLatest         // producer A is asked for the latest block
	rPurge          // the replay cache of producer A is purged
	rWhy            // WhyNotReady for N blocks from B on
	rReady          // Ready
	rWait           // waiting for the hash or number of N blocks from B on
	rSub            // N short subscriptions
	rCut            // the websocket connections end
	rKinds
)

// RAct is a call made at the same moment as the others of its step.
type RAct struct{ Kind, A, B, N int }

// RStep is a set of calls made at the same moment.
type RStep struct {
	Gap   int64 // ms before it
	Align bool  // then wait for the next heartbeat of the first producer
	Acts  []RAct
}

// RaceCase is a system whose parts are used at the same time.
type RaceCase struct {
	Style   int
	Brokers []int
	Fams    []int
	Options string
	Parts   []map[string]int
	Blocks  []gen.Block
	Prods   int
	WS      bool
	Second  bool // a second subscriber that marks blocks done
	Buffer  int
	Start   int // the step that the consumer starts with
	Steps   []RStep
	Race    bool // the consumer is closed along with the last step
	Latency int64
}

var raceSeen int

// races are the races found since the last call: those where a line of the
// repository accesses the memory.
var raceAccess = regexp.MustCompile(`(?m)^(?:  )?(?:(?:Previous )?(?:[Aa]tomic )?(?:[Rr]ead|[Ww]rite)) at `)

func races() (out []string, foreign int) {
	files, _ := filepath.Glob(fmt.Sprintf("race.%d", os.Getpid()))
	if len(files) == 0 {
		return nil, 0
	}
	data, err := os.ReadFile(files[0])
	if err != nil || len(data) <= raceSeen {
		return nil, 0
	}
	text := string(data[raceSeen:])
	raceSeen = len(data)
	for _, rep := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		ours := ""
		for _, sec := range strings.Split(rep, "\n\n") {
			if !raceAccess.MatchString(sec) {
				continue
			}
			lines := strings.Split(sec, "\n")
			for i := range lines {
				l := strings.TrimSpace(lines[i])
				if !strings.HasPrefix(l, "/") {
					continue
				}
				if strings.HasPrefix(l, runtime.GOROOT()+"/") {
					continue
				}
				if strings.HasPrefix(l, "/repo/") {
					ours += strings.Fields(l)[0] + " "
				}
				break
			}
		}
		if ours == "" {
			foreign++
			continue
		}
		if len(rep) > 3000 {
			rep = rep[:3000]
		}
		out = append(out, "data race at "+ours+"\n"+rep)
	}
	return out, foreign
}

type raceStore struct {
	mu   sync.Mutex
	list []*delivery.PendingBatch
}

func (s *raceStore) add(pb *delivery.PendingBatch) {
	s.mu.Lock()
	s.list = append(s.list, pb)
	s.mu.Unlock()
}

func (s *raceStore) BlocksFrom(ctx context.Context, block uint64, hash types.Hash) (chan *delivery.PendingBatch, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	ch := make(chan *delivery.PendingBatch, len(s.list))
	for _, pb := range s.list {
		if uint64(pb.Number) >= block {
			ch <- pb
		}
	}
	close(ch)
	return ch, nil
}

func (s *raceStore) GetBlock(ctx context.Context, block uint64) *delivery.PendingBatch { return nil }

func runRace(c *RaceCase) (o core.Outcome) {
	races()
	w := newWorld(c.Brokers...)
	urls := make([]string, len(w.clusters))
	params := []transports.BrokerParams{}
	pparams := []transports.ProducerBrokerParams{}
	for i, fc := range w.clusters {
		topics := []string{}
		for k, t := range topicsOf(c.Fams) {
			fc.Create(clusterTopic(i, t), spread(max(1, c.Parts[i][t]), c.Brokers[i], k))
			topics = append(topics, clusterTopic(i, t))
		}
		var l []string
		for b := 1; b <= c.Brokers[i]; b++ {
			l = append(l, fc.Addr(b))
		}
		urls[i] = "kafka://" + strings.Join(l, ",") + c.Options
		schema := map[string]string{}
		for k, v := range gen.Schema(c.Fams) {
			schema[k] = clusterTopic(i, v)
		}
		params = append(params, transports.BrokerParams{URL: urls[i], DefaultTopic: clusterTopic(i, "default"), Topics: topics})
		pparams = append(pparams, transports.ProducerBrokerParams{URL: urls[i], DefaultTopic: clusterTopic(i, "default"), Schema: schema})
	}
	var host *wslink.Host
	var wsp transports.Producer
	store := &raceStore{}
	if c.WS {
		var err error
		if wsp, err = transports.NewWebsocketProducer("ws://localhost:70000", store); err != nil {
			return core.Fail("starting a websocket producer: %v", err)
		}
		host = wslink.New(wsp.(interface{ Service() interface{} }).Service())
		wslink.Hook(map[string]*wslink.Host{"w": host})
		params = append(params, transports.BrokerParams{URL: "ws://w:1/"})
	}
	made := time.Now()
	prods := []transports.Producer{}
	jobs := []chan int{}
	next := make([]int, c.Prods)
	var busy sync.WaitGroup
	for i := 0; i < c.Prods; i++ {
		time.Sleep(time.Millisecond)
		if i == 0 {
			made = time.Now()
		}
		p, err := within("starting a producer", func() (transports.Producer, error) { return transports.ResolveMuxProducer(pparams, nil) })
		if err != nil {
			return core.Fail("starting a producer: %v", err)
		}
		prods = append(prods, p)
		ch := make(chan int, 1000)
		jobs = append(jobs, ch)
		go func() {
			for k := range ch {
				b := &c.Blocks[k]
				all := []transports.Producer{p}
				if i == 0 && wsp != nil {
					all = append(all, wsp)
				}
				num, hash, parent, weight, up, del, subs := b.Args(c.Style)
				for _, p := range all {
					p.AddBlock(num, hash, parent, weight, up, del, subs)
				}
				for k := range b.Subs {
					d, u := b.Subs[k].SubArgs()
					for _, p := range all {
						p.SendBatch(gen.SubID(c.Style, b.Subs[k].ID), d, u)
					}
				}
				if i == 0 && wsp != nil {
					store.add(pendingBatch(b, c.Style))
				}
				busy.Done()
			}
		}()
	}
	root := gen.Hash(c.Style, 0)
	a := newApp(c.Blocks, c.Style)
	a.chain = []types.Hash{root}
	con, err := within("creating a consumer", func() (transports.Consumer, error) {
		return transports.ResolveMuxConsumer(params, nil, consumerConfig(root, c.Blocks[0].Num-1, rootWeight(c.Blocks)))
	})
	if err != nil {
		return core.Fail("creating a consumer: %v", err)
	}
	a.follow(con)
	if c.Second {
		ch := make(chan *delivery.ChainUpdate, 100)
		con.Subscribe(ch)
		go func() {
			n := 0
			for u := range ch {
				for _, pb := range u.Added() {
					n += len(pb.Values) + len(pb.Deletes) + len(pb.Resumption())
				}
				u.Done()
			}
		}()
	}
	var startErr error
	started := make(chan struct{})
	classes := map[string]bool{}
	act := func(x RAct) {
		switch x.Kind {
		case rPublish:
			i := x.A % c.Prods
			for k := 0; k <= x.N && next[i] < len(c.Blocks); k++ {
				busy.Add(1)
				jobs[i] <- next[i]
				next[i]++
			}
		case rRaw:
			cl := x.A % len(w.clusters)
			b := &c.Blocks[x.B%len(c.Blocks)]
			busy.Add(1)
			go func() {
				defer busy.Done()
				for _, m := range b.Encode(c.Style) {
					topic := clusterTopic(cl, m.Topic)
					w.clusters[cl].Append(topic, int(m.K[len(m.K)-1])%w.clusters[cl].Partitions(topic), m.K, m.V, time.Now())
				}
			}()
		case rBeat:
			cl := x.A % len(w.clusters)
			def := clusterTopic(cl, "default")
			v, _ := time.Now().MarshalBinary()
			for k := 0; k <= x.N; k++ {
				w.clusters[cl].Append(def, (x.B+k)%w.clusters[cl].Partitions(def), delivery.PingType.GetKey(bytes.Repeat([]byte{byte(x.B + k)}, 32)), v, time.Now())
			}
		default:
			busy.Add(1)
			go func() {
				defer busy.Done()
				for k := 0; k <= x.N; k++ {
					b := &c.Blocks[(x.B+k)%len(c.Blocks)]
					h := gen.Hash(c.Style, b.ID)
					switch x.Kind {
					case rCount:
						con.ProducerCount(time.Minute)
						for _, p := range prods {
							p.ProducerCount(time.Minute)
						}
					case rHealth:
						prods[x.A%c.Prods].SetHealth((x.B+k)%2 == 0)
					case rLatest:
						prods[x.A%c.Prods].LatestBlockFromFeed()
						return
					case rPurge:
						prods[x.A%c.Prods].PurgeReplayCache()
					case rWhy:
						con.WhyNotReady(h)
					case rReady:
						ready(con)
					case rWait:
						wt := con.Waiter()
						if k%2 == 0 {
							wt.WaitForHash(h, 50*time.Millisecond)
						} else if wt.WaitForNumberResult(b.Num, time.Millisecond) == waiter.Success {
							runtime.Gosched()
						}
					case rSub:
						switch (x.B + k) % 3 {
						case 0:
							ch := make(chan *delivery.ChainUpdate, 100)
							s := con.Subscribe(ch)
							for n := 0; n < 5; n++ {
								select {
								case u := <-ch:
									u.Done()
								default:
									runtime.Gosched()
								}
							}
							s.Unsubscribe()
						case 1:
							ch := make(chan *delivery.PendingBatch, 100)
							s := con.Subscribe(ch)
							for n := 0; n < 5; n++ {
								select {
								case pb := <-ch:
									_ = pb.Resumption() + fmt.Sprint(len(pb.Values))
									pb.Done()
								default:
									runtime.Gosched()
								}
							}
							s.Unsubscribe()
						case 2:
							con.SubscribeReorg(make(chan map[int64]types.Hash, 10)).Unsubscribe()
						}
					case rCut:
						if host != nil {
							host.Cut()
						}
						return
					}
					runtime.Gosched()
				}
			}()
		}
		classes[fmt.Sprint("act-", x.Kind)] = true
	}
	drain := func() error {
		_, err := within("a call", func() (int, error) { busy.Wait(); return 0, nil })
		return err
	}
	for i, st := range c.Steps {
		time.Sleep(time.Duration(st.Gap) * time.Millisecond)
		if st.Align {
			d := 30 * time.Second
			time.Sleep(d - time.Since(made)%d)
		}
		if i == c.Start%len(c.Steps) {
			go func() {
				startErr = con.Start()
				close(started)
			}()
		}
		if i == len(c.Steps)-1 && c.Race {
			if err := within1("Start", func() { <-started }); err != nil {
				return core.Outcome{Err: err}
			}
			closing := make(chan struct{})
			defer func() { <-closing }()
			go func() {
				con.Close()
				close(closing)
			}()
		}
		for _, x := range st.Acts {
			act(x)
		}
	}
	if err := within1("Start", func() { <-started }); err != nil {
		return core.Outcome{Err: err}
	}
	if startErr != nil {
		return core.Fail("Start: %v", startErr)
	}
	if err := drain(); err != nil {
		return core.Outcome{Err: err}
	}
	if !c.Race {
		// everything that could be released is, whatever happened in the meantime
		if err := within1("Ready", func() { <-con.Ready() }); err != nil {
			return core.Outcome{Err: err}
		}
		time.Sleep(30 * time.Second)
		synctest.Wait()
		{
			done := completeIn(w.clusters, c.Blocks, c.Style)
			rel := map[int]bool{0: true}
			best, bw := 0, rootWeight(c.Blocks)
			for k := range c.Blocks {
				b := &c.Blocks[k]
				rel[b.ID] = done[b.ID] && rel[b.Parent]
				if rel[b.ID] && b.WeightInt().Cmp(bw) > 0 {
					best, bw = b.ID, b.WeightInt()
				}
			}
			id, hw := 0, rootWeight(c.Blocks)
			if b := a.byHash[a.head()]; b != nil {
				id, hw = b.ID, b.WeightInt()
			}
			if hw.Cmp(bw) != 0 {
				why := ""
				for k := range c.Blocks {
					why += fmt.Sprintf(" %d: %s;", c.Blocks[k].ID, con.WhyNotReady(gen.Hash(c.Style, c.Blocks[k].ID)))
				}
				return core.Fail("the consumer is at block %d, but block %d and its ancestors have been published and are heavier;%s", id, best, why)
			}
			if best > 0 {
				classes["released"] = true
			}
		}
		if err := a.stop(); err != nil {
			return core.Outcome{Err: err}
		}
	}
	if err := a.err(); err != nil {
		return core.Outcome{Err: err}
	}
	n := 0
	a.mu.Lock()
	defer a.mu.Unlock()
	for id := range a.released {
		if a.released[id] > 0 {
			n++
		}
	}
	o.NonTrivial = n > 0 && len(classes) > 2
	for k := range classes {
		o.Tags = append(o.Tags, k)
	}
	return o
}

// utf8Keys makes all keys valid in JSON.
func utf8Keys(blocks []gen.Block) {
	for i := range blocks {
		for _, l := range [][]gen.KV{blocks[i].Updates, blocks[i].Deletes} {
			for j := range l {
				if k := l[j].KeyString(); !utf8.ValidString(k) {
					l[j].Key = strings.ToValidUTF8(k, "?")
				}
			}
		}
	}
}

func within1(what string, f func()) error {
	_, err := within(what, func() (int, error) { f(); return 0, nil })
	return err
}

func genRace(t *rapid.T) *RaceCase {
	c := &RaceCase{
		Style: rapid.SampledFrom([]int{0, 2, 3}).Draw(t, "style"),
		Fams:  rapid.SampledFrom([][]int{{0}, {1}, {0, 1}, {0, 2}}).Draw(t, "fams"),
		Prods: rapid.IntRange(1, 2).Draw(t, "prods"),
		WS:    rapid.Bool().Draw(t, "ws"),
	}
	n := rapid.IntRange(1, 2).Draw(t, "clusters")
	for i := 0; i < n; i++ {
		c.Brokers = append(c.Brokers, rapid.IntRange(1, 2).Draw(t, "brokers"))
		parts := map[string]int{}
		for _, tp := range topicsOf(c.Fams) {
			parts[tp] = rapid.IntRange(1, 3).Draw(t, "parts")
		}
		c.Parts = append(c.Parts, parts)
	}
	c.Options = rapid.SampledFrom([]string{"?max.waittime=1000", "?max.waittime=3000", "?max.waittime=500&fetch.default=100"}).Draw(t, "options")
	c.Blocks = genTree(t, 24, rapid.IntRange(0, 3).Draw(t, "forks"), c.Fams)
	if c.WS {
		utf8Keys(c.Blocks)
	}
	c.Second = rapid.Bool().Draw(t, "second")
	c.Race = rapid.IntRange(0, 4).Draw(t, "race") == 0
	steps := rapid.IntRange(1, 8).Draw(t, "steps")
	c.Start = rapid.IntRange(0, 2).Draw(t, "start")
	for i := 0; i < steps; i++ {
		st := RStep{Gap: int64(rapid.SampledFrom([]int{0, 1, 5, 50, 250, 1000, 3000}).Draw(t, "gap")), Align: rapid.IntRange(0, 9).Draw(t, "align") == 0}
		for k := rapid.IntRange(1, 6).Draw(t, "acts"); k > 0; k-- {
			x := RAct{Kind: rapid.IntRange(0, rKinds-1).Draw(t, "kind"), A: rapid.IntRange(0, 1).Draw(t, "a"), B: rapid.IntRange(0, 23).Draw(t, "b"), N: rapid.IntRange(0, 5).Draw(t, "n")}
			if k == 1 {
				x.Kind = rPublish
			}
			st.Acts = append(st.Acts, x)
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func TestC22(t *testing.T) {
	core.Run(t, "C22", genRace, func(t *testing.T, c *RaceCase) (o core.Outcome) {
		err := core.Bubble(t, func() { o = runRace(c) })
		if err != nil && o.Err == nil {
			o.Err = err
		}
		found, foreign := races()
		if len(found) > 0 && o.Err == nil {
			o.Err = fmt.Errorf("%s", found[0])
		}
		if foreign > 0 {
			o.Tags = append(o.Tags, "foreign-race")
		}
		return o
	})
}
