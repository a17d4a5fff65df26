package wait

import (
	"fmt"
	"math/big"
	"regexp"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// Op kinds.
const (
	header   = iota // the header message of block B arrives
	rest            // the remaining messages of block B arrive
	complete        // block B arrives whole
	forHash         // somebody waits for the hash of block B
	forNum          // somebody waits for number N
	stop            // the waiter is stopped
)

// Op is one event; Gap is the time that passes before it.
type Op struct {
	Kind, B int
	N       int64
	Ms      int64 // timeout
	Gap     int64
	Quick   bool // the variant without a result
}

// WaitCase is a small tree, the time the application takes for each update,
// and a timeline.
type WaitCase struct {
	Style   int
	Base    int64 `json:",omitempty"` // number of block 0
	Parents []int // of blocks 1..n; block 0 is where the consumer starts
	Heavy   []int
	Delay   []int64
	Ops     []Op
}

type waitRec struct {
	op         Op
	start, end time.Duration
	res        waiter.WaitResult
	before     int // ops before it
}

const never = time.Duration(1<<62 - 1)

func run(c *WaitCase) (o core.Outcome) {
	n := len(c.Parents)
	num := make([]int64, n+1)
	weight := make([]int64, n+1)
	num[0] = c.Base
	for i := 1; i <= n; i++ {
		p := c.Parents[i-1]
		num[i], weight[i] = num[p]+1, weight[p]+int64(c.Heavy[i-1])
	}
	hash := func(i int) types.Hash { return gen.Hash(c.Style, i+5) }
	idx := map[types.Hash]int{}
	for i := 0; i <= n; i++ {
		idx[hash(i)] = i
	}
	omp, err := delivery.NewOrderedMessageProcessor(&delivery.ConsumerConfig{LastHash: hash(0), LastEmittedNum: c.Base, LastWeight: new(big.Int), ReorgThreshold: 64, TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".*")}})
	if err != nil {
		return core.Outcome{Err: err}
	}
	defer omp.Close()
	t0 := time.Now()
	now := func() time.Duration { return time.Since(t0) }
	applied := make([]time.Duration, n+1)
	firstNum := map[int64]time.Duration{}
	for i := range applied {
		applied[i] = never
		firstNum[num[i]] = never
	}
	ch := make(chan *delivery.ChainUpdate, 100)
	defer omp.Subscribe(ch).Unsubscribe()
	var mu sync.Mutex
	appDone := make(chan struct{})
	updates := 0
	go func() {
		defer close(appDone)
		for u := range ch {
			if len(c.Delay) > 0 {
				time.Sleep(time.Duration(c.Delay[updates%len(c.Delay)]) * time.Millisecond)
			}
			updates++
			mu.Lock()
			for _, pb := range u.Added() {
				i := idx[pb.Hash]
				if applied[i] == never {
					applied[i] = now()
				}
				if firstNum[pb.Number] == never {
					firstNum[pb.Number] = now()
				}
			}
			mu.Unlock()
			u.Done()
		}
	}()
	w := waiter.NewOmpWaiter(omp)
	synctest.Wait()

	messages := func(i int) []gen.Msg {
		b := gen.Block{ID: i + 5, Parent: c.Parents[i-1] + 5, Num: num[i], Weight: big.NewInt(weight[i]).Bytes(), Updates: []gen.KV{{Fam: 0, N: 1, Val: []byte{1}}, {Fam: 0, N: 2, Val: nil}}}
		return b.Encode(c.Style)
	}
	announced := make([]time.Duration, n+1)
	annAt := make([]int, n+1) // op index
	lastAnn := make([]time.Duration, n+1)
	for i := range announced {
		announced[i], annAt[i] = never, 1<<30
	}
	stopAt, stopTime := 1<<30, never
	var recs []*waitRec
	var wg sync.WaitGroup
	off := int64(0)
	deliver := func(ms []gen.Msg) error {
		for _, m := range ms {
			off++
			if err := omp.ProcessMessage(&gen.Delivered{R: gen.RMsg{Msg: m, Src: "s:0", Off: off}}); err != nil {
				return fmt.Errorf("message rejected: %v", err)
			}
		}
		return nil
	}
	for k, op := range c.Ops {
		time.Sleep(time.Duration(op.Gap) * time.Millisecond)
		synctest.Wait()
		ann := func() {
			if annAt[op.B] > k {
				annAt[op.B], announced[op.B] = k, now()
			}
			lastAnn[op.B] = now()
		}
		switch op.Kind {
		case header:
			ms := messages(op.B)
			if err := deliver(ms[:1]); err != nil {
				return core.Outcome{Err: err}
			}
			ann()
		case rest:
			if err := deliver(messages(op.B)[1:]); err != nil {
				return core.Outcome{Err: err}
			}
		case complete:
			omp.ProcessCompleteBatch(&delivery.PendingBatch{Number: num[op.B], Hash: hash(op.B), ParentHash: hash(c.Parents[op.B-1]), Weight: big.NewInt(weight[op.B]), Values: map[string][]byte{}, Deletes: map[string]struct{}{}})
			ann()
		case forHash, forNum:
			r := &waitRec{op: op, before: k, start: now()}
			recs = append(recs, r)
			wg.Add(1)
			go func() {
				defer wg.Done()
				d := time.Duration(op.Ms) * time.Millisecond
				switch {
				case op.Kind == forHash && op.Quick:
					w.WaitForHash(hash(op.B), d)
					r.res = -1
				case op.Kind == forHash:
					r.res = w.WaitForHashResult(hash(op.B), d)
				case op.Quick:
					w.WaitForNumber(c.Base+op.N, d)
					r.res = -1
				default:
					r.res = w.WaitForNumberResult(c.Base+op.N, d)
				}
				r.end = now()
			}()
		case stop:
			w.Stop()
			stopAt, stopTime = k, now()
		}
		synctest.Wait()
	}
	wg.Wait()
	time.Sleep(30 * time.Second)
	synctest.Wait()

	same := map[int64]int{}
	for i := 1; i <= n; i++ {
		if annAt[i] < 1<<30 {
			same[num[i]]++
		}
	}
	for _, r := range recs {
		if r.before > stopAt || r.end >= stopTime || r.start+time.Duration(r.op.Ms)*time.Millisecond >= stopTime {
			continue // nothing is promised of a stopped waiter
		}
		d := time.Duration(r.op.Ms) * time.Millisecond
		var at int
		var ann, ap, last, expiry time.Duration // announced, applied, last announced, forgotten
		what := ""
		if r.op.Kind == forHash {
			i := r.op.B
			what = fmt.Sprintf("the hash of block %d", i)
			at, ann, ap, last = annAt[i], announced[i], applied[i], lastAnn[i]
			expiry = never
			if f := firstNum[num[i]]; f != never {
				expiry = max(f, ann) + 60*time.Second
			}
		} else {
			what = fmt.Sprintf("number %d", c.Base+r.op.N)
			at, ann, ap, expiry = 1<<30, never, never, never
			for i := 1; i <= n; i++ {
				if num[i] == c.Base+r.op.N {
					at = min(at, annAt[i])
					ann = min(ann, announced[i])
					ap = min(ap, applied[i])
					last = max(last, lastAnn[i])
				}
			}
			if ap != never {
				expiry = ap + 60*time.Second
			}
		}
		var want waiter.WaitResult
		var wantEnd time.Duration
		lenient := false
		switch {
		case at > r.before:
			want, wantEnd = waiter.NotFound, r.start
		case r.start >= expiry:
			want, wantEnd = waiter.NotFound, r.start
			// with siblings or repeats it may be remembered longer
			if r.start == expiry || last > expiry-60*time.Second || same[numOf(c, r, num)] > 1 {
				lenient = true
			}
		case ap >= expiry && r.start+d >= expiry:
			// forgotten during the wait, because a sibling was applied a
			// minute ago
			lenient = true
		case ap <= r.start:
			want, wantEnd = waiter.Success, r.start
		case ap <= r.start+d:
			want, wantEnd = waiter.Success, ap
		default:
			want, wantEnd = waiter.Timeout, r.start+d
		}
		if ap == r.start+d && wantEnd == ap && ap > r.start && !lenient { // a tie
			if r.end != ap {
				return core.Fail("waiting %v for %s from %v: ended at %v", d, what, r.start, r.end)
			}
			continue
		}
		if lenient {
			if r.res == waiter.Success && r.end < ap {
				return core.Fail("waiting for %s from %v succeeded at %v, but it was applied at %v", what, r.start, r.end, ap)
			}
			continue
		}
		if r.op.Quick {
			want = -1
		}
		if r.res != want || r.end != wantEnd {
			return core.Fail("waiting %v for %s from %v: result %d at %v, want %d at %v (announced %v, applied %v)", d, what, r.start, r.res, r.end, want, wantEnd, ann, ap)
		}
		o.Tags = append(o.Tags, []string{"quick", "success", "timeout", "not-found"}[want+1])
		if want == waiter.Success && r.end > r.start {
			o.Tags = append(o.Tags, "waited")
			o.NonTrivial = true
		}
		if want == waiter.Success && r.end == r.start {
			o.Tags = append(o.Tags, "history")
			o.NonTrivial = true
		}
	}
	close(ch)
	return o
}

func numOf(c *WaitCase, r *waitRec, num []int64) int64 {
	if r.op.Kind == forHash {
		return num[r.op.B]
	}
	return c.Base + r.op.N
}

func TestC12(t *testing.T) {
	core.Run(t, "C12", func(t *rapid.T) WaitCase {
		c := WaitCase{Style: rapid.IntRange(0, 3).Draw(t, "style")}
		c.Base = rapid.SampledFrom([]int64{0, 0, -1, 17000000, 1 << 40}).Draw(t, "base")
		n := rapid.IntRange(1, 7).Draw(t, "n")
		for i := 1; i <= n; i++ {
			p := i - 1
			if rapid.IntRange(0, 3).Draw(t, "fork") == 0 {
				p = rapid.IntRange(0, i-1).Draw(t, "p")
			}
			c.Parents = append(c.Parents, p)
			c.Heavy = append(c.Heavy, rapid.IntRange(1, 3).Draw(t, "w"))
		}
		c.Delay = rapid.SliceOfN(rapid.SampledFrom([]int64{0, 0, 3, 700}), 0, 3).Draw(t, "delay")
		gap := func() int64 {
			return []int64{0, 0, 0, 1, 5, 100, 1000, 20000, 61000}[rapid.IntRange(0, 8).Draw(t, "gap")]
		}
		half := map[int]bool{}
		for k := rapid.IntRange(1, 30).Draw(t, "ops"); k > 0; k-- {
			op := Op{Gap: gap(), B: rapid.IntRange(1, n).Draw(t, "b")}
			switch rapid.IntRange(0, 8).Draw(t, "k") {
			case 0:
				op.Kind = header
				half[op.B] = true
			case 1:
				op.Kind = rest
			case 2, 3, 4:
				op.Kind = complete
			case 5, 6:
				op.Kind = forHash
			case 7:
				op.Kind = forNum
				op.N = int64(rapid.IntRange(0, n+1).Draw(t, "num"))
			case 8:
				if rapid.IntRange(0, 15).Draw(t, "stop") > 0 {
					op.Kind = forHash
					break
				}
				op.Kind = stop
				c.Ops = append(c.Ops, op)
				// once
				for ; k > 1; k-- {
					c.Ops = append(c.Ops, Op{Kind: complete, B: rapid.IntRange(1, n).Draw(t, "b"), Gap: gap()})
				}
				return c
			}
			if op.Kind == forHash || op.Kind == forNum {
				op.Ms = []int64{1, 1, 3, 50, 2000, 30000}[rapid.IntRange(0, 5).Draw(t, "ms")]
				op.Quick = rapid.IntRange(0, 9).Draw(t, "quick") == 0
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, func(t *testing.T, c WaitCase) core.Outcome {
		var o core.Outcome
		if err := core.Bubble(t, func() { o = run(&c) }); err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
