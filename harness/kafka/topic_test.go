package kafka

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/utils"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// The kinds of steps of a topic consumer's history.
const (
	tOpen   = iota // a consumer of topic Topic with a buffer of N
	tWrite         // N messages to partition Part of topic Topic
	tPause         // the application stops reading
	tResume        // it reads again
	tClose         // consumer Con is closed
	tMove          // another broker leads partition Part
	tDown          // broker N is down for Gap
	tCut           // all connections end
	tFault         // a fault
)

// TOp is one step, after Gap ms.
type TOp struct {
	Kind, Topic, Part, Con, N, Size int
	Gap                             int64
	Fault                           Fault
}

// ReadCase is what happens to topics that are read as they are.
type ReadCase struct {
	Brokers  int
	Parts    []int // of each topic
	Old      int   // messages each partition holds before
	Trim     int64 // of these, so many have been removed
	Opts     string
	MaxBatch int
	Delay    int64 // between two reads, ms
	Ops      []TOp
}

// treader is an application that reads a topic.
type treader struct {
	tc    utils.TopicConsumer
	topic int
	from  []int64 // the first message each partition owes
	mu    sync.Mutex
	got   []*sarama.ConsumerMessage
	gate  chan struct{} // closed while the application reads
	end   chan struct{}
	shut  bool
}

func (r *treader) read(delay time.Duration) {
	for {
		r.mu.Lock()
		gate := r.gate
		r.mu.Unlock()
		select {
		case <-gate:
		case <-r.end:
			return
		}
		select {
		case m := <-r.tc.Messages():
			if m == nil {
				return
			}
			r.mu.Lock()
			r.got = append(r.got, m)
			r.mu.Unlock()
			time.Sleep(delay)
		case <-r.end:
			return
		}
	}
}

// check compares what has been read with the logs.
func (r *treader) check(fc *sarama.FakeCluster, name string, all bool) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	next := append([]int64{}, r.from...)
	for _, m := range r.got {
		if m.Topic != name || int(m.Partition) >= len(next) {
			return fmt.Errorf("a consumer of %s got a message of %s, partition %d", name, m.Topic, m.Partition)
		}
		if m.Offset != next[m.Partition] {
			return fmt.Errorf("partition %d: got message %d, want %d", m.Partition, m.Offset, next[m.Partition])
		}
		next[m.Partition]++
		for _, rec := range fc.Log(name, int(m.Partition)) {
			if rec.Offset == m.Offset && (!bytes.Equal(rec.Key, m.Key) || !bytes.Equal(rec.Value, m.Value) || (rec.Value == nil) != (m.Value == nil) || !rec.Time.Equal(m.Timestamp)) {
				return fmt.Errorf("partition %d: message %d is %x: %x (%v), want %x: %x (%v)", m.Partition, m.Offset, m.Key, m.Value, m.Timestamp, rec.Key, rec.Value, rec.Time)
			}
		}
	}
	if !all {
		return nil
	}
	for p := range next {
		if log := fc.Log(name, p); len(log) > 0 {
			if end := log[len(log)-1].Offset + 1; end > next[p] {
				return fmt.Errorf("partition %d: messages %d to %d have not been delivered", p, next[p], end-1)
			}
		}
	}
	return nil
}

func runRead(c *ReadCase) (o core.Outcome) {
	w := newWorld(c.Brokers)
	fc := w.clusters[0]
	fc.MaxBatch = c.MaxBatch
	var names []string
	serial := 0
	write := func(topic, part, n, size int) {
		for ; n > 0; n-- {
			serial++
			key := []byte(fmt.Sprintf("k%d", serial))
			if serial%5 == 0 {
				key = nil
			}
			value := bytes.Repeat([]byte{byte(serial)}, size)
			switch serial % 7 {
			case 2: // a key whose value is deleted
				value = nil
			case 4:
				value = []byte{}
			}
			fc.Append(names[topic], part, key, value, time.Now().Truncate(time.Millisecond))
		}
	}
	for i, n := range c.Parts {
		names = append(names, fmt.Sprintf("topic-%d", i))
		fc.Create(names[i], spread(n, c.Brokers, i))
		for p := 0; p < n; p++ {
			write(i, p, c.Old, 10)
			fc.Trim(names[i], p, c.Trim)
		}
	}
	var addrs []string
	for b := 1; b <= c.Brokers; b++ {
		addrs = append(addrs, fc.Addr(b))
	}
	url := "kafka://" + strings.Join(addrs, ",") + c.Opts
	var readers []*treader
	hits := map[string]bool{}
	started := runtime.NumGoroutine()
	shut := func(r *treader) error {
		if r.shut {
			return nil
		}
		r.shut = true
		_, err := within("Close", func() (int, error) { return 0, r.tc.Close() })
		close(r.end)
		if err != nil {
			return fmt.Errorf("closing a topic consumer: %v", err)
		}
		return nil
	}
	step := func(op TOp) error {
		ti := op.Topic % len(names)
		p := op.Part % c.Parts[ti]
		switch op.Kind {
		case tOpen:
			if len(readers) > 3 {
				return nil
			}
			r := &treader{topic: ti, gate: make(chan struct{}), end: make(chan struct{})}
			close(r.gate)
			open := func() error {
				tc, err := within("NewTopicConsumer", func() (utils.TopicConsumer, error) { return utils.NewTopicConsumer(url, names[ti], op.N) })
				r.tc = tc
				return err
			}
			var err error
			w.quiet(func() { err = open() })
			if err != nil {
				return fmt.Errorf("NewTopicConsumer: %v", err)
			}
			for q := 0; q < c.Parts[ti]; q++ {
				end := c.Trim
				if log := fc.Log(names[ti], q); len(log) > 0 {
					end = log[len(log)-1].Offset + 1
				}
				r.from = append(r.from, end)
			}
			if r.from[0] > 0 {
				hits["not-empty"] = true
			}
			readers = append(readers, r)
			go r.read(time.Duration(c.Delay) * time.Millisecond)
		case tWrite:
			write(ti, p, op.N, op.Size)
		case tPause, tResume:
			if len(readers) == 0 {
				return nil
			}
			r := readers[op.Con%len(readers)]
			r.mu.Lock()
			defer r.mu.Unlock()
			open := false
			select {
			case <-r.gate:
				open = true
			default:
			}
			if op.Kind == tPause && open {
				r.gate = make(chan struct{})
				hits["paused"] = true
			}
			if op.Kind == tResume && !open {
				close(r.gate)
			}
		case tClose:
			if len(readers) > 0 {
				hits["closed-early"] = true
				return shut(readers[op.Con%len(readers)])
			}
		case tMove:
			if to := int32(op.N%c.Brokers) + 1; to != fc.Leader(names[ti], p) {
				fc.Move(names[ti], p, to)
				hits["moved"] = true
			}
		case tDown:
			b := int32(op.N%c.Brokers) + 1
			fc.SetUp(b, false)
			time.Sleep(time.Duration(op.Size) * time.Millisecond)
			fc.SetUp(b, true)
			hits["down"] = true
		case tCut:
			fc.Cut()
			hits["cut"] = true
		case tFault:
			w.mu.Lock()
			w.faults = append(w.faults, op.Fault)
			w.mu.Unlock()
		}
		return nil
	}
	for _, op := range c.Ops {
		time.Sleep(time.Duration(op.Gap) * time.Millisecond)
		if err := step(op); err != nil {
			return core.Outcome{Err: err}
		}
	}
	w.mu.Lock()
	w.faults = nil
	w.mu.Unlock()
	for _, r := range readers {
		r.mu.Lock()
		select {
		case <-r.gate:
		default:
			close(r.gate)
		}
		r.mu.Unlock()
	}
	for k := 0; k < 120; k++ {
		time.Sleep(10 * time.Second)
		synctest.Wait()
		done := true
		for _, r := range readers {
			done = done && (r.shut || r.check(fc, names[r.topic], true) == nil)
		}
		if done {
			break
		}
	}
	time.Sleep(10 * time.Second)
	synctest.Wait()
	total := 0
	for i, r := range readers {
		if err := r.check(fc, names[r.topic], !r.shut); err != nil {
			return core.Fail("consumer %d: %v", i, err)
		}
		total += len(r.got)
	}
	for _, r := range readers {
		if err := shut(r); err != nil {
			return core.Outcome{Err: err}
		}
	}
	time.Sleep(2 * time.Minute)
	synctest.Wait()
	if n := fc.Conns(); n != 0 {
		return core.Fail("all topic consumers have been closed, but there are %d connections", n)
	}
	if n := runtime.NumGoroutine(); n > started {
		return core.Fail("all topic consumers have been closed, but there are %d goroutines, %d before", n, started)
	}
	if total == 0 {
		hits = nil
	}
	w.mu.Lock()
	for k := range w.hit {
		if hits != nil {
			hits["fault-"+k] = true
		}
	}
	w.mu.Unlock()
	for k := range hits {
		o.Tags = append(o.Tags, k)
	}
	o.NonTrivial = total > 1 && len(hits) > 0
	return o
}

func genRead(t *rapid.T) *ReadCase {
	c := &ReadCase{
		Brokers:  rapid.IntRange(1, 3).Draw(t, "brokers"),
		Parts:    rapid.SliceOfN(rapid.IntRange(1, 4), 1, 2).Draw(t, "parts"),
		Old:      rapid.SampledFrom([]int{0, 0, 1, 3, 40}).Draw(t, "old"),
		Opts:     rapid.SampledFrom([]string{"", "?max.waittime=1000", "?fetch.default=64", "?fetch.default=100&max.waittime=500", "?log=0&net.maxopenrequests=1"}).Draw(t, "opts"),
		MaxBatch: rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "batch"),
		Delay:    rapid.SampledFrom([]int64{0, 0, 1, 50, 400}).Draw(t, "delay"),
	}
	if rapid.IntRange(0, 2).Draw(t, "trimmed") == 0 {
		c.Trim = int64(rapid.IntRange(0, c.Old).Draw(t, "trim"))
	}
	gap := func() int64 { return rapid.SampledFrom([]int64{0, 0, 1, 100, 3000, 30000}).Draw(t, "gap") }
	c.Ops = append(c.Ops, TOp{Kind: tOpen, Topic: rapid.IntRange(0, 1).Draw(t, "topic"), N: rapid.SampledFrom([]int{0, 1, 2, 512}).Draw(t, "buffer")})
	for n := rapid.IntRange(1, 14).Draw(t, "ops"); n > 0; n-- {
		op := TOp{Kind: rapid.SampledFrom([]int{tWrite, tWrite, tWrite, tWrite, tWrite, tOpen, tPause, tResume, tClose, tMove, tDown, tCut, tFault}).Draw(t, "op"),
			Topic: rapid.IntRange(0, 1).Draw(t, "topic"), Part: rapid.IntRange(0, 3).Draw(t, "part"), Con: rapid.IntRange(0, 3).Draw(t, "con"), Gap: gap()}
		switch op.Kind {
		case tOpen:
			op.N = rapid.SampledFrom([]int{0, 1, 2, 512}).Draw(t, "buffer")
		case tWrite:
			op.N = rapid.SampledFrom([]int{1, 2, 5, 30, 300}).Draw(t, "n")
			op.Size = rapid.SampledFrom([]int{0, 1, 20, 200}).Draw(t, "size")
		case tMove, tDown:
			op.N = rapid.IntRange(0, 2).Draw(t, "broker")
			op.Size = rapid.SampledFrom([]int{1, 1000, 20000}).Draw(t, "for")
		case tFault:
			op.Fault = Fault{API: rapid.SampledFrom([]string{"FetchRequest", "FetchRequest", "MetadataRequest", "OffsetRequest"}).Draw(t, "api"), N: rapid.IntRange(1, 3).Draw(t, "times"),
				Kind: rapid.IntRange(0, 3).Draw(t, "fault"), Delay: rapid.SampledFrom([]int64{50, 3000}).Draw(t, "ms")}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func TestC24(t *testing.T) {
	core.Run(t, "C24", genRead, func(t *testing.T, c *ReadCase) (o core.Outcome) {
		err := core.Bubble(t, func() { o = runRead(c) })
		if err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
