package ws

import (
	"context"
	"encoding/json"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	rpc "github.com/openrelayxyz/cardinal-rpc"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	"github.com/openrelayxyz/cardinal-types/hexutil"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

const (
	pAdd = iota
	pSub
	pUnknown
	pReorg
	pSubscribe
	pCancel
	pGet
	pBurst // A announcements at once
)

// PEv is one event at the producer.
type PEv struct {
	Kind, A, B int
	Gap        int64 // ms before it
	Slow       int64 // ms a subscriber takes per message
	Drop       bool  // the subscriber disconnects instead of unsubscribing
	Fail       bool  // history is not available
}

// ProducerCase is a timeline at a websocket producer.
type ProducerCase struct {
	Style   int
	Blocks  []gen.Block
	PerItem int64 // ms the history takes per block
	Buffer  int
	Events  []PEv
	Net     bool `json:",omitempty"` // over the loopback network
	Storm   bool `json:",omitempty"` // subscribers come and go meanwhile
}

type subscriber struct {
	id       any
	ctx      context.Context
	cancel   context.CancelFunc
	outputs  chan interface{}
	got      []*wireMsg
	texts    []string
	from     int // blocks committed after this one are wanted; -1: all
	at       int // announcements made before
	inStore  int
	ended    bool // cancelled
	refused  bool
	wantFail bool
	bad      error
}

type announcement struct {
	text  string
	block int // index of a whole-block announcement without sub-batches, or -1
}

func runProducer(c *ProducerCase) (o core.Outcome) {
	st := &store{style: c.Style, perItem: time.Duration(c.PerItem) * time.Millisecond, buffer: c.Buffer}
	p, err := transports.NewWebsocketProducer("ws://localhost:70000", st)
	if err != nil {
		return core.Outcome{Err: err}
	}
	svc, ok := p.(interface{ Service() interface{} })
	if !ok {
		panic("the websocket producer has no Service method")
	}
	reg := rpc.NewRegistry(4)
	reg.Register("cardinal", svc.Service())
	hash := func(i int) types.Hash { return gen.Hash(c.Style, i) }

	var anns []announcement
	announced := make([]bool, len(c.Blocks)+1)
	subsSent := map[[2]int]bool{}
	var subs []*subscriber
	reader := func(s *subscriber, slow time.Duration) {
		for {
			select {
			case <-s.ctx.Done():
				return
			case item := <-s.outputs:
				if slow > 0 {
					time.Sleep(slow)
				}
				data, err := json.Marshal(item)
				if err != nil {
					s.bad = err
					return
				}
				var n rpc.SubscriptionResponseRaw
				if err := json.Unmarshal(data, &n); err != nil || n.Method != "cardinal_subscribe" {
					s.bad = fmt.Errorf("unexpected message %s", data)
					return
				}
				var m wireMsg
				if err := json.Unmarshal(n.Params.Result, &m); err != nil {
					s.bad = fmt.Errorf("unexpected item %s: %v", n.Params.Result, err)
					return
				}
				s.got = append(s.got, &m)
				s.texts = append(s.texts, m.text())
			}
		}
	}
	within := func(what string, f func()) error {
		done := make(chan struct{})
		go func() { f(); close(done) }()
		select {
		case <-done:
			return nil
		case <-time.After(time.Minute):
			return fmt.Errorf("%s does not return", what)
		}
	}
	for _, ev := range c.Events {
		time.Sleep(time.Duration(ev.Gap) * time.Millisecond)
		synctest.Wait()
		switch ev.Kind {
		case pAdd:
			b := &c.Blocks[ev.A]
			if announced[b.ID] || (b.Parent > 0 && !announced[b.Parent]) {
				continue
			}
			announced[b.ID] = true
			st.commit(b)
			num, h, parent, weight, up, del, sm := b.Args(c.Style)
			var err error
			if e := within("AddBlock", func() { err = p.AddBlock(num, h, parent, weight, up, del, sm) }); e != nil {
				return core.Outcome{Err: e}
			}
			if err != nil {
				return core.Fail("block rejected: %v", err)
			}
			a := announcement{headMsg(b, c.Style).text(), -1}
			if len(b.Subs) == 0 {
				a.block = ev.A
			}
			anns = append(anns, a)
		case pSub:
			b := &c.Blocks[ev.A]
			if len(b.Subs) == 0 {
				continue
			}
			i := ev.B % len(b.Subs)
			d, u := b.Subs[i].SubArgs()
			var err error
			if e := within("SendBatch", func() { err = p.SendBatch(gen.SubID(c.Style, b.Subs[i].ID), d, u) }); e != nil {
				return core.Outcome{Err: e}
			}
			if !announced[b.ID] || subsSent[[2]int{ev.A, i}] {
				if err != delivery.ErrUnknownBatch {
					return core.Fail("a sub-batch that is not expected (announced %v, sent %v): error %v, want %v", announced[b.ID], subsSent[[2]int{ev.A, i}], err, delivery.ErrUnknownBatch)
				}
				o.Tags = append(o.Tags, "unexpected-sub")
				continue
			}
			if err != nil {
				return core.Fail("sub-batch rejected: %v", err)
			}
			subsSent[[2]int{ev.A, i}] = true
			anns = append(anns, announcement{subMsg(b, i, c.Style).text(), -1})
		case pUnknown:
			if err := p.SendBatch(gen.SubID(c.Style, 9000+ev.A), nil, map[string][]byte{"x": {1}}); err != delivery.ErrUnknownBatch {
				return core.Fail("an unknown sub-batch: error %v, want %v", err, delivery.ErrUnknownBatch)
			}
		case pReorg:
			done, err := p.Reorg(int64(ev.B), hash(500+ev.A))
			if err != nil || done == nil {
				return core.Fail("reorg rejected: %v", err)
			}
			done()
			r := wireMsg{Type: "reorg", Batch: &wireBatch{Number: hexutil.Uint64(ev.B), Hash: hash(500 + ev.A)}}
			anns = append(anns, announcement{r.text(), -1})
		case pBurst:
			// Nobody who reads slowly holds the producer up: there is room for
			// many announcements per subscriber.
			begun := time.Now()
			for i := 0; i < ev.A; i++ {
				n := uint64(ev.B + i)
				if e := within("Reorg", func() { _, err = p.Reorg(int64(n), hash(500)) }); e != nil {
					return core.Outcome{Err: e}
				}
				if err != nil {
					return core.Fail("reorg rejected: %v", err)
				}
				r := wireMsg{Type: "reorg", Batch: &wireBatch{Number: hexutil.Uint64(n), Hash: hash(500)}}
				anns = append(anns, announcement{r.text(), -1})
			}
			if d := time.Since(begun); d > time.Second {
				return core.Fail("%d announcements at once took %v", ev.A, d)
			}
			if len(subs) > 0 {
				o.Tags = append(o.Tags, "burst")
			}
		case pSubscribe:
			s := &subscriber{outputs: make(chan interface{}, 256), at: len(anns), wantFail: ev.Fail}
			s.ctx, s.cancel = context.WithCancel(context.Background())
			var num int64
			var h types.Hash
			s.from = -1
			h = hash(ev.A)
			if ev.A > 0 {
				num = c.Blocks[ev.A-1].Num
				if announced[ev.A] {
					s.from = ev.A
				}
			}
			st.mu.Lock()
			s.inStore = len(st.blocks)
			st.fail = ev.Fail
			st.mu.Unlock()
			go reader(s, time.Duration(ev.Slow)*time.Millisecond)
			id, rerr, _ := reg.Call(s.ctx, "cardinal_subscribe", raw("streams", hexutil.Uint64(num), h), s.outputs, -1)
			st.mu.Lock()
			st.fail = false
			st.mu.Unlock()
			if ev.Fail {
				if id != nil {
					return core.Fail("a subscription was established without history")
				}
				o.Tags = append(o.Tags, "refused")
				s.cancel()
				continue
			}
			if rerr != nil || id == nil {
				return core.Fail("subscription refused: %v", rerr)
			}
			s.id = id
			subs = append(subs, s)
		case pCancel:
			if len(subs) == 0 {
				continue
			}
			s := subs[ev.A%len(subs)]
			if s.ended {
				continue
			}
			s.ended = true
			if ev.Drop {
				s.cancel()
				reg.Disconnect(s.ctx)
			} else if _, rerr, _ := reg.Call(s.ctx, "cardinal_unsubscribe", raw(s.id), s.outputs, -1); rerr != nil {
				return core.Fail("unsubscribe: %v", rerr)
			}
			o.Tags = append(o.Tags, "cancelled")
		case pGet:
			res, rerr, _ := reg.Call(context.Background(), "cardinal_streamsBlock", raw(hexutil.Uint64(ev.A)), nil, -1)
			want := st.GetBlock(context.Background(), uint64(ev.A))
			if want == nil {
				if rerr == nil {
					return core.Fail("block %d is not known, but was returned", ev.A)
				}
				continue
			}
			if rerr != nil {
				return core.Fail("block %d: %v", ev.A, rerr)
			}
			data, _ := json.Marshal(res)
			var m wireMsg
			if err := json.Unmarshal(data, &m); err != nil {
				return core.Fail("block %d: %s", ev.A, data)
			}
			for i := len(st.blocks) - 1; i >= 0; i-- {
				if st.blocks[i].Num == int64(ev.A) {
					if w := fullMsg(st.blocks[i], c.Style).text(); m.text() != w {
						return core.Fail("block %d by number: %s, want %s", ev.A, m.text(), w)
					}
					break
				}
			}
			o.Tags = append(o.Tags, "by-number")
		}
	}
	time.Sleep(10 * time.Minute)
	synctest.Wait()

	full := map[string]int{}
	for i := range c.Blocks {
		full[fullMsg(&c.Blocks[i], c.Style).text()] = i
	}
	for n, s := range subs {
		if s.bad != nil {
			return core.Fail("subscriber %d: %v", n, s.bad)
		}
		if err := checkStream(c, s, st, anns, full, subsSent); err != nil {
			return core.Fail("subscriber %d: %v", n, err)
		}
		hist, live := 0, 0
		for _, t := range s.texts {
			if _, ok := full[t]; ok {
				hist++
			} else if t != "ready" {
				live++
			}
		}
		if !s.ended && hist > 1 && live > 1 {
			o.NonTrivial = true
		}
		if !s.ended {
			o.Tags = append(o.Tags, "kept")
		}
	}
	if len(subs) > 1 {
		o.Tags = append(o.Tags, "several")
	}
	for _, s := range subs {
		s.cancel()
	}
	synctest.Wait()
	return o
}

func checkStream(c *ProducerCase, s *subscriber, st *store, anns []announcement, full map[string]int, subsSent map[[2]int]bool) error {
	// What may come at all: whole blocks after the requested one, one marker,
	// and announcements made since the subscription began, in order.
	ready := -1
	for i, t := range s.texts {
		if t == "ready" {
			if ready >= 0 {
				return fmt.Errorf("ready twice")
			}
			ready = i
		}
	}
	if ready < 0 && !s.ended {
		return fmt.Errorf("never ready")
	}
	start := 0 // position in commit order
	if s.from >= 0 {
		for i, b := range st.blocks {
			if b.ID == s.from {
				start = i + 1
			}
		}
	}
	pos := map[int]int{}
	for i, b := range st.blocks {
		pos[b.ID-1] = i
	}
	live := anns[s.at:]
	// announcements that cannot be mistaken for history must form a
	// contiguous run of such announcements that lasts to the end
	var distinct, gotDistinct []string
	for _, a := range live {
		if a.block < 0 {
			distinct = append(distinct, a.text)
		}
	}
	for i, t := range s.texts {
		if t == "ready" {
			continue
		}
		if b, ok := full[t]; ok {
			if pos[b] < start {
				return fmt.Errorf("item %d is block %d, which precedes the requested one", i, b+1)
			}
			continue
		}
		gotDistinct = append(gotDistinct, t)
	}
	if !s.ended {
		if len(gotDistinct) > len(distinct) {
			return fmt.Errorf("%d live items, but only %d were announced: %q", len(gotDistinct), len(distinct), gotDistinct)
		}
		tail := distinct[len(distinct)-len(gotDistinct):]
		for i := range tail {
			if tail[i] != gotDistinct[i] {
				return fmt.Errorf("live item %d of %d is\n %s\nwant\n %s", i, len(tail), gotDistinct[i], tail[i])
			}
		}
		// after the marker: a tail of the announcements, nothing else
		after := s.texts[ready+1:]
		if len(after) > len(live) {
			return fmt.Errorf("%d items after ready, but only %d announcements", len(after), len(live))
		}
		lt := live[len(live)-len(after):]
		for i := range lt {
			if lt[i].text != after[i] {
				return fmt.Errorf("item %d after ready is\n %s\nwant\n %s", i, after[i], lt[i].text)
			}
		}
	} else {
		// a run that may stop early
		ok := len(gotDistinct) == 0
		for f := 0; f+len(gotDistinct) <= len(distinct) && !ok; f++ {
			ok = true
			for i := range gotDistinct {
				if distinct[f+i] != gotDistinct[i] {
					ok = false
					break
				}
			}
		}
		if !ok {
			return fmt.Errorf("live items are not a run of the announcements: %q", gotDistinct)
		}
	}
	// history: the blocks committed when the subscription began, in order
	next := start
	for i, t := range s.texts {
		if next >= s.inStore || t == "ready" && i == ready {
			break
		}
		b, ok := full[t]
		if !ok || pos[b] != next {
			return fmt.Errorf("history item %d is\n %s\nwant block %d", i, t, st.blocks[next].ID)
		}
		next++
	}
	if !s.ended && next < s.inStore {
		return fmt.Errorf("ready before block %d of the history", st.blocks[next].ID)
	}
	if s.ended {
		return nil
	}
	// nothing is missing
	have := map[string]bool{}
	for _, t := range s.texts {
		have[t] = true
	}
	for i := start; i < len(st.blocks); i++ {
		b := st.blocks[i]
		if have[fullMsg(b, c.Style).text()] {
			continue
		}
		if !have[headMsg(b, c.Style).text()] {
			return fmt.Errorf("block %d was announced, but never came (position %d, %d at the start)", b.ID, i, s.inStore)
		}
		for j := range b.Subs {
			if subsSent[[2]int{b.ID - 1, j}] && !have[subMsg(b, j, c.Style).text()] {
				return fmt.Errorf("sub-batch %d of block %d was sent, but never came", j, b.ID)
			}
		}
	}
	return nil
}

func TestC13(t *testing.T) {
	core.Run(t, "C13", func(t *rapid.T) ProducerCase {
		c := ProducerCase{Style: rapid.IntRange(0, 3).Draw(t, "style"), Blocks: genTree(t, 9, 5)}
		c.PerItem = []int64{0, 0, 1, 7}[rapid.IntRange(0, 3).Draw(t, "per")]
		c.Buffer = []int{0, 1, 20}[rapid.IntRange(0, 2).Draw(t, "buf")]
		gap := func() int64 { return []int64{0, 1, 1, 2, 5, 30}[rapid.IntRange(0, 5).Draw(t, "gap")] }
		real := rapid.IntRange(0, 299).Draw(t, "net")
		c.Net, c.Storm = real == 299, real >= 297 && real < 299
		next, room := 0, 800
		var open [][2]int
		for k := rapid.IntRange(1, 40).Draw(t, "events"); k > 0; k-- {
			ev := PEv{Gap: gap()}
			switch rapid.IntRange(0, 14).Draw(t, "k") {
			case 0, 1, 2, 3, 4:
				if next == len(c.Blocks) {
					continue
				}
				ev.Kind, ev.A = pAdd, next
				for i := range c.Blocks[next].Subs {
					open = append(open, [2]int{next, i})
				}
				next++
			case 5, 6, 7:
				if len(open) == 0 {
					continue
				}
				ev.Kind = pSub
				i := rapid.IntRange(0, len(open)-1).Draw(t, "open")
				ev.A, ev.B = open[i][0], open[i][1]
				if rapid.IntRange(0, 7).Draw(t, "again") > 0 {
					open = append(open[:i], open[i+1:]...)
				}
			case 8:
				ev.Kind, ev.A = pUnknown, rapid.IntRange(0, 3).Draw(t, "u")
			case 9:
				ev.Kind, ev.A, ev.B = pReorg, rapid.IntRange(0, 3).Draw(t, "r"), rapid.IntRange(0, 1<<30).Draw(t, "rn")
			case 10, 11:
				ev.Kind, ev.A = pSubscribe, rapid.IntRange(0, len(c.Blocks)).Draw(t, "from")
				if rapid.Bool().Draw(t, "root") {
					ev.A = 0
				}
				ev.Slow = []int64{0, 0, 0, 3, 40}[rapid.IntRange(0, 4).Draw(t, "slow")]
				ev.Fail = rapid.IntRange(0, 14).Draw(t, "fail") == 0
			case 12:
				ev.Kind, ev.A, ev.Drop = pCancel, rapid.IntRange(0, 3).Draw(t, "c"), rapid.Bool().Draw(t, "drop")
			case 14:
				if room == 0 || rapid.IntRange(0, 2).Draw(t, "burst") > 0 {
					continue
				}
				ev.Kind, ev.A, ev.B = pBurst, min(room, []int{20, 100, 300, 800}[rapid.IntRange(0, 3).Draw(t, "many")]), rapid.IntRange(0, 1<<30).Draw(t, "rn")
				room -= ev.A
			case 13:
				ev.Kind = pGet
				ev.A = int(c.Blocks[rapid.IntRange(0, len(c.Blocks)-1).Draw(t, "g")].Num) + rapid.IntRange(0, 1).Draw(t, "g1")
			}
			c.Events = append(c.Events, ev)
		}
		return c
	}, func(t *testing.T, c ProducerCase) core.Outcome {
		var o core.Outcome
		if c.Net && netRuns < 12 {
			netRuns++
			return runNet(&c)
		}
		if c.Storm {
			return runStorm(&c)
		}
		if err := core.Bubble(t, func() { o = runProducer(&c) }); err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
