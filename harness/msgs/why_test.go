package msgs

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
	"testing/synctest"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// WhyCase is a delivery at whose every step the consumer is asked what each
// block waits for.
type WhyCase struct {
	MsgCase
	Ordered bool // ask the processor that releases blocks in order
	Every   int  // ask at every Every-th step
}

// answers are the right answers for a block whose messages of the given keys
// are missing; hdr is whether its header has come.
func answers(missing map[string]string, hash types.Hash) map[string]bool {
	l := map[string]bool{}
	for k := range missing {
		if k[0] == 0 {
			return map[string]bool{"not found": true}
		}
	}
	for k := range missing {
		if k[0] == 1 {
			return map[string]bool{"Pending batches": true}
		}
	}
	for k, entry := range missing {
		if k[0] == 3 || k[0] == 4 {
			l[fmt.Sprintf("Pending prefix '%v'", entry)] = true
		}
	}
	if len(l) > 0 {
		return l
	}
	for k := range missing {
		if k[0] == 2 {
			id := types.BytesToHash([]byte(k[33:65]))
			i, n := 0, 0
			for k[65+n]&0x80 != 0 {
				n++
			}
			for j := n; j >= 0; j-- {
				i = i<<7 | int(k[65+j]&0x7f)
			}
			l[fmt.Sprintf("Pending batch '%#x'[%d]", id, i>>1)] = true
		}
	}
	return l
}

func runWhy(c *WhyCase) (o core.Outcome) {
	f, err := c.encode()
	if err != nil {
		return core.Fail("%v", err)
	}
	tracked := trackedFn(&c.MsgCase)
	var ask func(types.Hash) string
	var process func(delivery.ResumptionMessage) error
	emitted := map[types.Hash]bool{}
	drain := func() {}
	root := new(big.Int)
	if c.Ordered {
		cfg := c.config()
		cfg.LastHash, cfg.LastEmittedNum, cfg.LastWeight = gen.Hash(c.Style, 0), 99, root
		omp, err := delivery.NewOrderedMessageProcessor(cfg)
		if err != nil {
			return core.Fail("NewOrderedMessageProcessor: %v", err)
		}
		defer omp.Close()
		ch := make(chan *delivery.ChainUpdate, len(c.Deliver)+10)
		sub := omp.Subscribe(ch)
		defer sub.Unsubscribe()
		ask, process = omp.WhyNotReady, omp.ProcessMessage
		drain = func() {
			synctest.Wait()
			for len(ch) > 0 {
				u := <-ch
				for _, pb := range u.Added() {
					emitted[pb.Hash] = true
					if pb.Weight.Cmp(root) > 0 {
						root = pb.Weight
					}
				}
			}
		}
	} else {
		mp := delivery.NewMessageProcessor(c.config())
		ch := make(chan *delivery.PendingBatch, len(c.Deliver)+10)
		sub := mp.Subscribe(ch)
		defer sub.Unsubscribe()
		ask, process = mp.WhyNotReady, mp.ProcessMessage
	}
	missing := make([]map[string]string, len(c.Blocks))
	for i := range c.Blocks {
		missing[i] = map[string]string{}
		for _, m := range c.Blocks[i].Encode(c.Style) {
			if m.Entry == "" || tracked(m.Entry) {
				missing[i][string(m.K)] = m.Entry
			}
		}
	}
	kinds := map[string]bool{}
	check := func(step int) error {
		drain()
		if got := ask(gen.Hash(c.Style, 999)); got != "not found" {
			return fmt.Errorf("step %d: a block nobody published: %q", step, got)
		}
		for i := range c.Blocks {
			b := &c.Blocks[i]
			h := gen.Hash(c.Style, b.ID)
			got := ask(h)
			var want map[string]bool
			switch {
			case len(missing[i]) > 0:
				want = answers(missing[i], h)
			case !c.Ordered:
				want = map[string]bool{"not found": true} // complete, and gone
			case emitted[h]:
				want = map[string]bool{"done, not evicted": true}
			default:
				// complete, but not part of the chain
				want = map[string]bool{"pending parent": true, "done, not evicted": true}
				for a := b; a.WeightInt().Cmp(root) > 0 && a.Parent != 0; {
					if len(missing[a.Parent-1]) > 0 {
						want = map[string]bool{"pending parent": true}
						break
					}
					a = &c.Blocks[a.Parent-1]
				}
			}
			if !want[got] {
				var l []string
				for k := range want {
					l = append(l, k)
				}
				sort.Strings(l)
				return fmt.Errorf("step %d: block %d, of which %d messages are missing, is said to wait for %q, want %q", step, b.ID, len(missing[i]), got, l)
			}
			for _, k := range []string{"not found", "Pending batches", "Pending prefix", "Pending batch '", "pending parent", "done"} {
				if strings.HasPrefix(got, k) {
					kinds[k] = true
				}
			}
		}
		return nil
	}
	if err := check(-1); err != nil {
		return core.Outcome{Err: err}
	}
	offs := map[string]int64{}
	for step, r := range c.Deliver {
		m := f[r.P][r.B][r.M]
		src := m.Topic + ":0"
		offs[src]++
		if err := process(&gen.Delivered{R: gen.RMsg{Msg: m, Src: src, Off: offs[src]}}); err != nil {
			return core.Fail("step %d: message rejected: %v", step, err)
		}
		delete(missing[r.B], string(m.K))
		if step%c.Every == 0 || step == len(c.Deliver)-1 {
			if err := check(step); err != nil {
				return core.Outcome{Err: err}
			}
		}
	}
	for k := range kinds {
		o.Tags = append(o.Tags, k)
	}
	if c.Ordered {
		o.Tags = append(o.Tags, "ordered")
	}
	o.NonTrivial = len(kinds) > 2
	return o
}

func TestC26(t *testing.T) {
	core.Run(t, "C26", func(t *rapid.T) *WhyCase {
		c := &WhyCase{Ordered: rapid.Bool().Draw(t, "ordered"), Every: rapid.IntRange(1, 3).Draw(t, "every")}
		c.Tracked = [][]string{{".*"}, {".*"}, {""}, {"^[a-m]", "^[^a-m]|^$"}}[rapid.IntRange(0, 3).Draw(t, "trk")]
		o := gen.DefaultOpt
		genBlocks(t, &c.MsgCase, o, 4)
		if c.Ordered {
			if c.Style == 1 {
				c.Style = 0 // there the hash of the oldest block stands for none
			}
			for i := range c.Blocks {
				b := &c.Blocks[i]
				b.Num = 100
				w := big.NewInt(int64(rapid.IntRange(1, 4).Draw(t, "inc")))
				if b.Parent > 0 {
					p := &c.Blocks[b.Parent-1]
					b.Num = p.Num + 1
					w.Add(w, p.WeightInt())
				}
				b.Weight = w.Bytes()
			}
		}
		genDelivery(t, &c.MsgCase)
		return c
	}, func(t *testing.T, c *WhyCase) (o core.Outcome) {
		err := core.Bubble(t, func() { o = runWhy(c) })
		if err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
