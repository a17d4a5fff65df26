package ws

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/signal"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"github.com/openrelayxyz/cardinal-types/hexutil"
	"pgregory.net/rapid"

	"verif/harness/gen"
)

func TestMain(m *testing.M) {
	// The signal package's goroutine must not start inside a bubble.
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGUSR2)
	websocket.DefaultDialer.Proxy = nil
	os.Exit(m.Run())
}

// wireBatch and wireSub are the JSON the protocol defines.
type wireBatch struct {
	Number  hexutil.Uint64           `json:"number"`
	Weight  *hexutil.Big             `json:"weight"`
	Hash    types.Hash               `json:"hash"`
	Parent  types.Hash               `json:"parent"`
	Values  map[string]hexutil.Bytes `json:"values"`
	Deletes []string                 `json:"deletes"`
	Batches map[string]types.Hash    `json:"batches"`
}

type wireSub struct {
	Hash    types.Hash               `json:"hash"`
	BatchID types.Hash               `json:"batchid"`
	Values  map[string]hexutil.Bytes `json:"values"`
	Deletes []string                 `json:"deletes"`
}

type wireMsg struct {
	Type  string     `json:"type"`
	Batch *wireBatch `json:"batch,omitempty"`
	Sub   *wireSub   `json:"subbatch,omitempty"`
}

func sorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

func valuesText(m map[string]hexutil.Bytes) string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&b, "%q=%x,", k, []byte(m[k]))
	}
	return b.String()
}

// text is a canonical form, for comparison.
func (m *wireMsg) text() string {
	switch m.Type {
	case "batch":
		b := m.Batch
		if b == nil {
			return "batch without content"
		}
		subs := []string{}
		for k, v := range b.Batches {
			subs = append(subs, fmt.Sprintf("%q:%x", k, v[:]))
		}
		w := "?"
		if b.Weight != nil {
			w = b.Weight.ToInt().String()
		}
		return fmt.Sprintf("batch %d %x %x %s {%s} %q %q", uint64(b.Number), b.Hash[:], b.Parent[:], w, valuesText(b.Values), sorted(b.Deletes), sorted(subs))
	case "subbatch":
		s := m.Sub
		if s == nil {
			return "subbatch without content"
		}
		return fmt.Sprintf("subbatch %x %x {%s} %q", s.Hash[:], s.BatchID[:], valuesText(s.Values), sorted(s.Deletes))
	case "reorg":
		if m.Batch == nil {
			return "reorg without content"
		}
		return fmt.Sprintf("reorg %d %x", uint64(m.Batch.Number), m.Batch.Hash[:])
	}
	return m.Type
}

// headMsg is the announcement of a block, without its sub-batches.
func headMsg(b *gen.Block, style int) *wireMsg {
	num, hash, parent, weight, up, del, subs := b.Args(style)
	m := &wireMsg{Type: "batch", Batch: &wireBatch{Number: hexutil.Uint64(num), Weight: (*hexutil.Big)(weight), Hash: hash, Parent: parent, Values: map[string]hexutil.Bytes{}, Deletes: []string{}, Batches: subs}}
	for k, v := range up {
		m.Batch.Values[k] = v
	}
	for k := range del {
		m.Batch.Deletes = append(m.Batch.Deletes, k)
	}
	return m
}

func subMsg(b *gen.Block, i, style int) *wireMsg {
	d, u := b.Subs[i].SubArgs()
	m := &wireMsg{Type: "subbatch", Sub: &wireSub{Hash: gen.Hash(style, b.ID), BatchID: gen.SubID(style, b.Subs[i].ID), Values: map[string]hexutil.Bytes{}, Deletes: d}}
	for k, v := range u {
		m.Sub.Values[k] = v
	}
	return m
}

// fullMsg is the whole block in one message.
func fullMsg(b *gen.Block, style int) *wireMsg {
	m := headMsg(b, style)
	m.Batch.Batches = map[string]types.Hash{}
	for i := range b.Subs {
		d, u := b.Subs[i].SubArgs()
		for k, v := range u {
			m.Batch.Values[k] = v
		}
		m.Batch.Deletes = append(m.Batch.Deletes, d...)
	}
	return m
}

func pendingBatch(b *gen.Block, style int) *delivery.PendingBatch {
	num, hash, parent, weight, _, _, _ := b.Args(style)
	pb := &delivery.PendingBatch{Number: num, Weight: weight, Hash: hash, ParentHash: parent, Values: map[string][]byte{}, Deletes: map[string]struct{}{}}
	w := b.FullWant()
	for k, v := range w.Values {
		pb.Values[k] = append([]byte{}, v...)
	}
	for k := range w.Deletes {
		pb.Deletes[k] = struct{}{}
	}
	return pb
}

// same compares a released block with its definition.
func same(pb *delivery.PendingBatch, b *gen.Block, style int) error {
	w := pendingBatch(b, style)
	if pb.Number != w.Number || pb.Hash != w.Hash || pb.ParentHash != w.ParentHash || pb.Weight == nil || pb.Weight.Cmp(w.Weight) != 0 {
		return fmt.Errorf("block %d: number, hash, parent or weight differ: %d %x %x %v, want %d %x %x %v", b.ID, pb.Number, pb.Hash, pb.ParentHash, pb.Weight, w.Number, w.Hash, w.ParentHash, w.Weight)
	}
	if len(pb.Values) != len(w.Values) || len(pb.Deletes) != len(w.Deletes) {
		return fmt.Errorf("block %d: %d values and %d deletes, want %d and %d", b.ID, len(pb.Values), len(pb.Deletes), len(w.Values), len(w.Deletes))
	}
	for k, v := range w.Values {
		got, ok := pb.Values[k]
		if !ok || !bytes.Equal(got, v) {
			return fmt.Errorf("block %d: value of %q is %x (present: %v), want %x", b.ID, k, got, ok, v)
		}
	}
	for k := range w.Deletes {
		if _, ok := pb.Deletes[k]; !ok {
			return fmt.Errorf("block %d: deletion of %q is missing", b.ID, k)
		}
	}
	return nil
}

// genTree draws blocks 1..n whose parents come before them; block 0 is where
// the stream starts. Keys are text, as JSON carries nothing else.
func genTree(t *rapid.T, max, forks int) []gen.Block {
	n := rapid.IntRange(1, max).Draw(t, "n")
	blocks := make([]gen.Block, n)
	weight := make([]int64, n+1)
	num := make([]int64, n+1)
	num[0] = int64([]int{0, 1, 17, 1 << 33}[rapid.IntRange(0, 3).Draw(t, "base")])
	weight[0] = int64(rapid.IntRange(0, 300).Draw(t, "basew"))
	for i := 1; i <= n; i++ {
		p := i - 1
		if forks > 0 && rapid.IntRange(0, forks).Draw(t, "fork") == 0 {
			p = rapid.IntRange(max0(i-4), i-1).Draw(t, "p")
		}
		num[i], weight[i] = num[p]+1, weight[p]+int64(rapid.IntRange(1, 4).Draw(t, "w"))
		b := gen.Block{ID: i, Parent: p, Num: num[i], Weight: big.NewInt(weight[i]).Bytes()}
		gen.GenBlockContent(t, &b, []int{0, 5, 7}, i*8, gen.Opt{MaxUpdates: 3, MaxDeletes: 2, MaxSubs: 3, MaxSubItems: 2, Many: 7})
		for j := range b.Updates {
			b.Updates[j].Key = strings.ToValidUTF8(b.Updates[j].KeyString(), "?")
		}
		for j := range b.Deletes {
			b.Deletes[j].Key = strings.ToValidUTF8(b.Deletes[j].KeyString(), "?")
		}
		blocks[i-1] = b
	}
	return blocks
}

func max0(i int) int { return max(i, 0) }

// store is the application's block database, which serves history.
type store struct {
	mu      sync.Mutex
	style   int
	blocks  []*gen.Block // in the order they were committed
	perItem time.Duration
	calls   int
	fail    bool
	buffer  int
}

func (s *store) commit(b *gen.Block) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.blocks = append(s.blocks, b)
}

// after is what was committed after the given block; everything if it is not known.
func (s *store) after(hash types.Hash) []*gen.Block {
	s.mu.Lock()
	defer s.mu.Unlock()
	from := 0
	for i, b := range s.blocks {
		if gen.Hash(s.style, b.ID) == hash {
			from = i + 1
		}
	}
	return append([]*gen.Block{}, s.blocks[from:]...)
}

func (s *store) BlocksFrom(ctx context.Context, block uint64, hash types.Hash) (chan *delivery.PendingBatch, error) {
	s.mu.Lock()
	s.calls++
	fail := s.fail
	s.mu.Unlock()
	if fail {
		return nil, fmt.Errorf("no history")
	}
	l := s.after(hash)
	ch := make(chan *delivery.PendingBatch, s.buffer)
	go func() {
		defer close(ch)
		for _, b := range l {
			if s.perItem > 0 {
				time.Sleep(s.perItem)
			}
			select {
			case ch <- pendingBatch(b, s.style):
			case <-ctx.Done():
				return
			}
		}
	}()
	return ch, nil
}

func (s *store) GetBlock(ctx context.Context, block uint64) *delivery.PendingBatch {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := len(s.blocks) - 1; i >= 0; i-- {
		if uint64(s.blocks[i].Num) == block {
			return pendingBatch(s.blocks[i], s.style)
		}
	}
	return nil
}

func raw(vs ...any) []json.RawMessage {
	var out []json.RawMessage
	for _, v := range vs {
		d, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		out = append(out, d)
	}
	return out
}
