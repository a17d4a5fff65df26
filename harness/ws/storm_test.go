package ws

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"sync"
	"time"

	rpc "github.com/openrelayxyz/cardinal-rpc"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types/hexutil"

	"verif/harness/core"
	"verif/harness/gen"
)

// runStorm has subscribers that come and go, each of its own thread, while the
// producer announces without a pause.
func runStorm(c *ProducerCase) (o core.Outcome) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(8))
	st := &store{style: c.Style, buffer: c.Buffer}
	for i := range c.Blocks {
		st.commit(&c.Blocks[i])
	}
	p, err := transports.NewWebsocketProducer("ws://localhost:70000", st)
	if err != nil {
		return core.Outcome{Err: err}
	}
	svc, ok := p.(interface{ Service() interface{} })
	if !ok {
		panic("the websocket producer has no Service method")
	}
	const clients, rounds = 12, 25
	var mu sync.Mutex
	var bad error
	progress := make(chan struct{}, 1)
	var wg sync.WaitGroup
	client := func(i int) error {
		reg := rpc.NewRegistry(4) // registries are not shared between threads
		reg.Register("cardinal", svc.Service())
		last := &c.Blocks[len(c.Blocks)-1]
		for r := 0; r < rounds; r++ {
			ctx, cancel := context.WithCancel(context.Background())
			outputs := make(chan interface{}, 1000)
			_, rerr, _ := reg.Call(ctx, "cardinal_subscribe", raw("streams", hexutil.Uint64(last.Num), gen.Hash(c.Style, last.ID)), outputs, -1)
			if rerr != nil {
				cancel()
				return fmt.Errorf("subscription %d of client %d: %v", r, i, rerr)
			}
			ready, prev := false, uint64(0)
			for n := (i*7 + r*13) % 60; n >= 0; n-- {
				var item interface{}
				select {
				case item = <-outputs:
				case <-time.After(30 * time.Second):
					cancel()
					return fmt.Errorf("subscription %d of client %d: nothing comes (ready %v, last signal %d)", r, i, ready, prev)
				}
				var m wireMsg
				data, err := json.Marshal(item)
				var sr rpc.SubscriptionResponseRaw
				if err == nil {
					err = json.Unmarshal(data, &sr)
				}
				if err == nil {
					err = json.Unmarshal(sr.Params.Result, &m)
				}
				switch {
				case err != nil:
				case m.Type == "ready" && !ready:
					ready = true
				case m.Type == "reorg" && m.Batch != nil && (prev == 0 || uint64(m.Batch.Number) == prev+1):
					// what is announced around the switch may come before ready
					prev = uint64(m.Batch.Number)
				default:
					err = fmt.Errorf("unexpected item %s (ready %v, last signal %d)", data, ready, prev)
				}
				if err != nil {
					cancel()
					return fmt.Errorf("subscription %d of client %d: %v", r, i, err)
				}
			}
			cancel()
		}
		return nil
	}
	for i := 0; i < clients; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := client(i); err != nil {
				mu.Lock()
				bad = err
				mu.Unlock()
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	announced := make(chan error, 1)
	go func() {
		for n := int64(1); ; n++ {
			select {
			case <-done:
				announced <- nil
				return
			default:
			}
			if _, err := p.Reorg(n, gen.Hash(c.Style, 500)); err != nil {
				announced <- err
				return
			}
			select {
			case progress <- struct{}{}:
			default:
			}
		}
	}()
	for {
		select {
		case err := <-announced:
			if err != nil {
				return core.Fail("reorg rejected: %v", err)
			}
			mu.Lock()
			defer mu.Unlock()
			if bad != nil {
				return core.Outcome{Err: bad}
			}
			o.Tags = []string{"storm"}
			o.NonTrivial = true
			return o
		case <-progress:
		case <-time.After(60 * time.Second):
			return core.Fail("subscribers that come and go hold the producer up")
		}
	}
}
