package kafka

import (
	"fmt"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/utils"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/wslink"
)

// What is asked of a cluster, or opened and closed.
const (
	lLatest   = iota // LatestBlockFromFeed of a producer
	lResume          // ResumptionForTimestamp
	lCreate          // CreateTopicIfDoesNotExist
	lConsumer        // a consumer is started and closed after Wait ms
	lNever           // a consumer is closed that was not started
	lMux             // a consumer of several streams, of which stream Bad is Kind
	lTopic           // a topic consumer
)

// LOp is one of these.
type LOp struct {
	Kind   int
	Topic  int // which of the topics; one past the last does not exist
	Bad    int
	Fail   string // the URL of a bad stream
	Wait   int64
	Down   []int // these brokers are down meanwhile
	Faults []Fault
	Refuse bool // the cluster refuses to create topics
	Mid    bool // brokers go down or up while it runs
	Token  bool // the resumption token is no token
}

// LeaveCase is a cluster and what is done with it.
type LeaveCase struct {
	Brokers int
	Parts   int
	Topics  int
	Blocks  []gen.Block
	Style   int
	Prod    bool // a producer exists
	Ops     []LOp
}

func runLeave(c *LeaveCase) (o core.Outcome) {
	w := newWorld(c.Brokers)
	fc := w.clusters[0]
	var names []string
	for i := 0; i < c.Topics; i++ {
		names = append(names, fmt.Sprintf("t%d", i))
		fc.Create(names[i], spread(c.Parts, c.Brokers, i))
	}
	for k := range c.Blocks {
		m := headerOf(&c.Blocks[k], c.Style)
		fc.Append(names[0], k%c.Parts, m.K, m.V, time.Now())
	}
	var addrs []string
	for b := 1; b <= c.Brokers; b++ {
		addrs = append(addrs, fc.Addr(b))
	}
	url := "kafka://" + strings.Join(addrs, ",") + "?max.waittime=1000"
	wslink.Hook(nil)
	var prod transports.Producer
	if c.Prod {
		var err error
		if prod, err = within("creating a producer", func() (transports.Producer, error) {
			return transports.ResolveProducer(url, names[0], nil)
		}); err != nil {
			return core.Fail("creating a producer: %v", err)
		}
		prod.SetHealth(false)
	}
	settle := func() {
		time.Sleep(3 * time.Minute)
		synctest.Wait()
	}
	settle()
	hits := map[string]bool{}
	for i, op := range c.Ops {
		if op.Kind == lLatest && prod == nil {
			continue
		}
		if prod != nil && (len(op.Down) > 0 || len(op.Faults) > 0) {
			op.Down, op.Faults = nil, nil // they would change the producer's own connections
		}
		topic := "nope"
		if op.Topic < len(names) {
			topic = names[op.Topic]
		}
		conns, routines := fc.Conns(), runtime.NumGoroutine()
		w.mu.Lock()
		w.faults = append([]Fault{}, op.Faults...)
		w.mu.Unlock()
		up := func(up bool) {
			for _, b := range op.Down {
				fc.SetUp(int32(b%c.Brokers)+1, up)
			}
		}
		if op.Refuse {
			fc.CreateErr = sarama.ErrPolicyViolation
		}
		if op.Mid {
			go func() {
				time.Sleep(time.Duration(op.Wait) * time.Millisecond)
				up(false)
				time.Sleep(2 * time.Second)
				up(true)
			}()
		} else {
			up(false)
		}
		cfg := consumerConfig(gen.Hash(c.Style, 0), c.Blocks[0].Num-1, rootWeight(c.Blocks))
		var token []byte
		if op.Token {
			token = []byte(topic + ":0=x")
		}
		what := ""
		var failed error
		exact := true // no goroutine may be left either
		shut := func(con transports.Consumer) error {
			return within1("Close", con.Close)
		}
		var err error
		switch op.Kind {
		case lLatest:
			what = "LatestBlockFromFeed"
			_, failed = within(what, prod.LatestBlockFromFeed)
		case lResume:
			what = "ResumptionForTimestamp"
			_, failed = within(what, func() ([]byte, error) {
				return transports.ResumptionForTimestamp([]transports.BrokerParams{{URL: url, DefaultTopic: topic, Topics: []string{names[0], topic}}}, time.Now().UnixMilli())
			})
		case lCreate:
			what = "CreateTopicIfDoesNotExist"
			if op.Topic >= len(names) {
				topic = fmt.Sprintf("new%d", i)
			}
			_, failed = within(what, func() (int, error) { return 0, transports.CreateTopicIfDoesNotExist(url, topic, 2, nil) })
		case lTopic:
			what = "NewTopicConsumer"
			var tc utils.TopicConsumer
			tc, failed = within(what, func() (utils.TopicConsumer, error) { return utils.NewTopicConsumer(url, topic, 2) })
			if failed == nil {
				time.Sleep(time.Duration(op.Wait) * time.Millisecond)
				if err = within1("Close", func() { tc.Close() }); err == nil {
					hits["topic"] = true
				}
			}
		case lConsumer, lNever:
			what = "a consumer"
			exact = false
			var con transports.Consumer
			con, failed = within(what, func() (transports.Consumer, error) {
				return transports.ResolveConsumer(url, names[0], []string{names[0], topic}[:1+op.Bad%2], token, 0, cfg)
			})
			if failed != nil {
				break
			}
			if op.Kind == lNever {
				err = shut(con)
				hits["not-started"] = true
				break
			}
			if _, failed = within("Start", func() (int, error) { return 0, con.Start() }); failed != nil {
				hits["failed-start"] = true
			}
			time.Sleep(time.Duration(op.Wait) * time.Millisecond)
			err = shut(con)
		case lMux:
			what = "a consumer of several streams"
			exact = false
			var params []transports.BrokerParams
			for k := 0; k < 3; k++ {
				params = append(params, transports.BrokerParams{URL: url, DefaultTopic: names[0], Topics: names[:1]})
			}
			if op.Fail != "" {
				params[op.Bad%3].URL = op.Fail
			}
			if op.Topic >= len(names) {
				params[op.Bad%3].Topics = []string{topic}
			}
			var con transports.Consumer
			con, failed = within(what, func() (transports.Consumer, error) { return transports.ResolveMuxConsumer(params, token, cfg) })
			if failed != nil {
				break
			}
			if op.Wait > 0 {
				_, failed = within("Start", func() (int, error) { return 0, con.Start() })
				time.Sleep(time.Duration(op.Wait) * time.Millisecond)
			}
			err = shut(con)
		}
		if !op.Mid {
			up(true)
		}
		if err != nil {
			return core.Fail("%s: %v", what, err)
		}
		fc.CreateErr = 0
		w.mu.Lock()
		w.faults = nil
		w.mu.Unlock()
		settle()
		if n := fc.Conns(); n > conns {
			return core.Fail("%s (%v) has left %d connections, %d before", what, failed, n, conns)
		}
		if n := runtime.NumGoroutine(); exact && n > routines {
			return core.Fail("%s (%v) has left %d goroutines, %d before", what, failed, n, routines)
		}
		hits[what] = true
		if failed != nil {
			hits["failed"] = true
			hits[what+" failed"] = true
			o.NonTrivial = true
		}
	}
	o.NonTrivial = o.NonTrivial || len(hits) > 1
	for k := range hits {
		o.Tags = append(o.Tags, k)
	}
	return o
}

func genLeave(t *rapid.T) *LeaveCase {
	c := &LeaveCase{
		Brokers: rapid.IntRange(1, 3).Draw(t, "brokers"),
		Parts:   rapid.IntRange(1, 4).Draw(t, "parts"),
		Topics:  rapid.IntRange(1, 2).Draw(t, "topics"),
		Style:   rapid.SampledFrom([]int{0, 2, 3}).Draw(t, "style"),
		Prod:    rapid.IntRange(0, 3).Draw(t, "prod") == 0,
	}
	c.Blocks = genTree(t, 6, 0, []int{0})
	for n := rapid.IntRange(1, 5).Draw(t, "ops"); n > 0; n-- {
		kinds := []int{lResume, lCreate, lConsumer, lNever, lMux, lTopic, lConsumer, lMux}
		if c.Prod {
			kinds = append(kinds, lLatest, lLatest, lLatest, lLatest)
		}
		op := LOp{Kind: rapid.SampledFrom(kinds).Draw(t, "op"),
			Topic:  rapid.IntRange(0, c.Topics).Draw(t, "topic"),
			Bad:    rapid.IntRange(0, 2).Draw(t, "bad"),
			Wait:   rapid.SampledFrom([]int64{0, 1, 100, 2000, 20000}).Draw(t, "wait"),
			Refuse: rapid.IntRange(0, 3).Draw(t, "refuse") == 0,
			Mid:    rapid.Bool().Draw(t, "mid"),
			Token:  rapid.IntRange(0, 5).Draw(t, "token") == 0,
		}
		if rapid.IntRange(0, 2).Draw(t, "break") == 0 {
			op.Down = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 3).Draw(t, "down")
		}
		if rapid.IntRange(0, 2).Draw(t, "faulty") == 0 {
			for k := rapid.IntRange(1, 3).Draw(t, "faults"); k > 0; k-- {
				op.Faults = append(op.Faults, Fault{API: rapid.SampledFrom([]string{"FetchRequest", "MetadataRequest", "OffsetRequest", "CreateTopicsRequest"}).Draw(t, "api"),
					N: rapid.SampledFrom([]int{1, 2, 40}).Draw(t, "times"), Kind: rapid.IntRange(0, 3).Draw(t, "fault"), Delay: rapid.SampledFrom([]int64{50, 3000}).Draw(t, "ms")})
			}
		}
		if op.Kind == lMux && rapid.Bool().Draw(t, "odd") {
			op.Fail = rapid.SampledFrom([]string{"foo://x", "kafka://z1:9092", "null://", "ws://w0:1/"}).Draw(t, "fail")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func TestC25(t *testing.T) {
	core.Run(t, "C25", genLeave, func(t *testing.T, c *LeaveCase) (o core.Outcome) {
		err := core.Bubble(t, func() { o = runLeave(c) })
		if err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
