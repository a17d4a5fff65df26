package kafka

import (
	"bytes"
	"fmt"
	"math/big"
	"net"
	"os"
	"os/signal"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	cmetrics "github.com/openrelayxyz/cardinal-types/metrics"
	"github.com/rcrowley/go-metrics"
	"pgregory.net/rapid"

	"verif/harness/gen"
)

func TestMain(m *testing.M) {
	// What is set up once must not be set up inside a bubble.
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGUSR2)
	sarama.WarmUp()
	metrics.NewMeter()
	cmetrics.NewMinorMeter("/verif/warmup")
	os.Exit(m.Run())
}

// Fault is what happens to the next N requests of a kind.
type Fault struct {
	API   string
	N     int
	Kind  int   // 0: dropped before, 1: dropped after, 2: not the leader, 3: delayed
	Delay int64 // ms
	Skip  int   `json:",omitempty"` // requests to which nothing happens first
}

// world is one or more clusters.
type world struct {
	mu       sync.Mutex
	clusters []*sarama.FakeCluster
	faults   []Fault
	calm     int // no faults while above zero
	hit      map[string]int
}

// newWorld makes clusters; the brokers of the i-th are a1, a2...; b1, b2...
func newWorld(brokers ...int) *world {
	w := &world{hit: map[string]int{}}
	for i, n := range brokers {
		fc := sarama.NewFakeCluster(n)
		fc.Host = string(rune('a'+i)) + "%d:9092"
		fc.Fault = w.fault
		w.clusters = append(w.clusters, fc)
	}
	sarama.DialHook = func(network, addr string) (net.Conn, error) {
		for i, fc := range w.clusters {
			if addr[0] == byte('a'+i) {
				return fc.Dial(network, addr)
			}
		}
		return nil, fmt.Errorf("no such host %s", addr)
	}
	return w
}

func (w *world) fault(broker int32, api string) (f sarama.FakeFault) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.calm > 0 {
		return
	}
	for i := range w.faults {
		x := &w.faults[i]
		if x.N == 0 || x.API != api {
			continue
		}
		if x.Skip > 0 {
			x.Skip--
			continue
		}
		x.N--
		w.hit[fmt.Sprintf("%s-%d", api, x.Kind)]++
		switch x.Kind {
		case 0:
			f.DropBefore = true
		case 1:
			f.DropAfter = true
		case 2:
			f.Err = sarama.ErrNotLeaderForPartition
		case 3:
			f.Delay = time.Duration(x.Delay) * time.Millisecond
		}
		return
	}
	return
}

// quiet runs f without faults.
func (w *world) quiet(f func()) {
	w.mu.Lock()
	w.calm++
	w.mu.Unlock()
	f()
	w.mu.Lock()
	w.calm--
	w.mu.Unlock()
}

func spread(n, brokers, off int) []int32 {
	l := make([]int32, n)
	for i := range l {
		l[i] = int32((i+off)%brokers) + 1
	}
	return l
}

// logged is every key in a cluster's logs, with its value, topic and place.
type place struct {
	topic string
	part  int
	rec   sarama.FakeRecord
}

func logs(fc *sarama.FakeCluster) []place {
	var out []place
	for _, t := range fc.Topics() {
		for p := 0; p < fc.Partitions(t); p++ {
			for _, r := range fc.Log(t, p) {
				out = append(out, place{t, p, r})
			}
		}
	}
	return out
}

// complete tells which blocks have all their messages in the logs.
func complete(fc *sarama.FakeCluster, blocks []gen.Block, style int) map[int]bool {
	have := map[string]bool{}
	for _, l := range logs(fc) {
		have[l.topic+"\x00"+string(l.rec.Key)] = true
	}
	out := map[int]bool{}
	for i := range blocks {
		all := true
		for _, m := range blocks[i].Encode(style) {
			all = all && have[m.Topic+"\x00"+string(m.K)]
		}
		out[blocks[i].ID] = all
	}
	return out
}

func pendingBatch(b *gen.Block, style int) *delivery.PendingBatch {
	num, hash, parent, weight, _, _, _ := b.Args(style)
	pb := &delivery.PendingBatch{Number: num, Weight: weight, Hash: hash, ParentHash: parent, Values: map[string][]byte{}, Deletes: map[string]struct{}{}}
	w := b.FullWant()
	for k, v := range w.Values {
		pb.Values[k] = v
	}
	for k := range w.Deletes {
		pb.Deletes[k] = struct{}{}
	}
	return pb
}

func same(pb *delivery.PendingBatch, b *gen.Block, style int) error {
	w := pendingBatch(b, style)
	if pb.Number != w.Number || pb.Hash != w.Hash || pb.ParentHash != w.ParentHash || pb.Weight == nil || pb.Weight.Cmp(w.Weight) != 0 {
		return fmt.Errorf("block %d: number, hash, parent or weight differ: %d %x %x %v, want %d %x %x %v", b.ID, pb.Number, pb.Hash, pb.ParentHash, pb.Weight, w.Number, w.Hash, w.ParentHash, w.Weight)
	}
	if len(pb.Values) != len(w.Values) || len(pb.Deletes) != len(w.Deletes) {
		return fmt.Errorf("block %d: %d values and %d deletes, want %d and %d", b.ID, len(pb.Values), len(pb.Deletes), len(w.Values), len(w.Deletes))
	}
	for k, v := range w.Values {
		got, ok := pb.Values[k]
		if !ok || !bytes.Equal(got, v) {
			return fmt.Errorf("block %d: value of %q is %x (present: %v), want %x", b.ID, k, got, ok, v)
		}
	}
	for k := range w.Deletes {
		if _, ok := pb.Deletes[k]; !ok {
			return fmt.Errorf("block %d: deletion of %q is missing", b.ID, k)
		}
	}
	return nil
}

// genTree draws blocks 1..n whose parents come before them; block 0 is where
// the stream starts. With forks zero it is a chain.
func genTree(t *rapid.T, max, forks int, fams []int) []gen.Block {
	n := rapid.IntRange(1, max).Draw(t, "n")
	blocks := make([]gen.Block, n)
	weight := make([]int64, n+1)
	num := make([]int64, n+1)
	num[0] = int64([]int{0, 1, 17, 1 << 33}[rapid.IntRange(0, 3).Draw(t, "base")])
	weight[0] = int64(rapid.IntRange(0, 300).Draw(t, "basew"))
	for i := 1; i <= n; i++ {
		p := i - 1
		if forks > 0 && rapid.IntRange(0, forks).Draw(t, "fork") == 0 {
			p = rapid.IntRange(max0(i-4), i-1).Draw(t, "p")
		}
		num[i], weight[i] = num[p]+1, weight[p]+int64(rapid.IntRange(1, 4).Draw(t, "w"))
		b := gen.Block{ID: i, Parent: p, Num: num[i], Weight: big.NewInt(weight[i]).Bytes()}
		gen.GenBlockContent(t, &b, fams, i*8, gen.Opt{MaxUpdates: 5, MaxDeletes: 2, MaxSubs: 2, MaxSubItems: 3, Many: 7})
		blocks[i-1] = b
	}
	return blocks
}

func max0(i int) int { return max(i, 0) }

// rootWeight is a weight below every block's.
func rootWeight(blocks []gen.Block) *big.Int {
	w := new(big.Int).Sub(blocks[0].WeightInt(), big.NewInt(4))
	if w.Sign() < 0 {
		w.SetInt64(0)
	}
	return w
}

func topicsOf(fams []int) []string {
	set := map[string]bool{"default": true}
	for _, f := range fams {
		set[gen.Topic(f)] = true
	}
	out := []string{}
	for t := range set {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

func parseToken(s string) (map[string]int64, error) {
	out := map[string]int64{}
	for _, t := range strings.Split(s, ";") {
		i := strings.LastIndex(t, "=")
		if i < 0 {
			return nil, fmt.Errorf("malformed token %q", s)
		}
		n, err := strconv.ParseInt(t[i+1:], 10, 64)
		if err != nil {
			return nil, fmt.Errorf("malformed token %q: %v", s, err)
		}
		if _, ok := out[t[:i]]; ok {
			return nil, fmt.Errorf("token %q names a source twice", s)
		}
		out[t[:i]] = n
	}
	return out, nil
}

// app is an application that follows a consumer and keeps what it needs to
// resume.
type app struct {
	mu       sync.Mutex
	style    int
	byHash   map[types.Hash]*gen.Block
	con      transports.Consumer
	chain    []types.Hash // applied, from where it started
	tokens   map[types.Hash]string
	seen     map[int]map[string]int64 // per applied block, ends of the logs when it was applied
	ends     func() map[string]int64
	released map[int]int
	reorgs   int
	bad      error
	end      chan struct{}
	ended    chan struct{}
	unsub    []types.Subscription
	stopping bool
}

func newApp(blocks []gen.Block, style int) *app {
	a := &app{style: style, byHash: map[types.Hash]*gen.Block{}, tokens: map[types.Hash]string{}, released: map[int]int{}, seen: map[int]map[string]int64{}}
	for i := range blocks {
		a.byHash[gen.Hash(style, blocks[i].ID)] = &blocks[i]
	}
	return a
}

func (a *app) fail(f string, v ...any) {
	if a.bad == nil {
		a.bad = fmt.Errorf(f, v...)
	}
}

func (a *app) head() types.Hash {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.chain[len(a.chain)-1]
}

func (a *app) err() error {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.bad
}

func (a *app) has(id int) bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.released[id] > 0
}

// follow applies what the consumer releases.
func (a *app) follow(con transports.Consumer) {
	a.con = con
	a.end = make(chan struct{})
	updates := make(chan *delivery.ChainUpdate, 1000)
	a.unsub = append(a.unsub, con.Subscribe(updates))
	fresh := len(a.chain) == 1 && a.chain[0] == types.Hash{}
	end, ended := a.end, make(chan struct{})
	a.ended = ended
	go func() {
		defer close(ended)
		for {
			var u *delivery.ChainUpdate
			select {
			case <-end:
				return
			case u = <-updates:
			}
			a.mu.Lock()
			if a.stopping { // drained, not applied
				a.mu.Unlock()
				u.Done()
				continue
			}
			for i := len(u.Removed()) - 1; i >= 0; i-- {
				if pb := u.Removed()[i]; a.chain[len(a.chain)-1] != pb.Hash {
					a.fail("an update removes %x, but the head is %x", pb.Hash, a.chain[len(a.chain)-1])
				} else {
					a.chain = a.chain[:len(a.chain)-1]
				}
				a.reorgs++
			}
			for _, pb := range u.Added() {
				if pb.ParentHash != a.chain[len(a.chain)-1] && !(fresh && len(a.chain) == 1) {
					a.fail("an update adds %x, whose parent is not the head", pb.Hash)
				}
				b := a.byHash[pb.Hash]
				if b == nil {
					a.fail("an unknown block %x was released", pb.Hash)
				} else {
					if err := same(pb, b, a.style); err != nil {
						a.fail("%v", err)
					}
					a.released[b.ID]++
					if a.ends != nil {
						a.seen[b.ID] = a.ends()
					}
				}
				a.chain = append(a.chain, pb.Hash)
				a.tokens[pb.Hash] = pb.Resumption()
			}
			a.mu.Unlock()
			u.Done()
		}
	}()
}

// stop closes the consumer and stops applying.
func (a *app) stop() error {
	a.mu.Lock()
	a.stopping = true
	a.mu.Unlock()
	closed := make(chan struct{})
	go func() {
		a.con.Close()
		close(closed)
	}()
	select {
	case <-closed:
	case <-time.After(time.Hour):
		return fmt.Errorf("Close does not return")
	}
	for _, s := range a.unsub {
		s.Unsubscribe()
	}
	a.unsub = nil
	close(a.end)
	<-a.ended // or it may apply what it is handed now
	a.mu.Lock()
	a.stopping = false
	a.mu.Unlock()
	return nil
}

func ready(con transports.Consumer) bool {
	select {
	case <-con.Ready():
		return true
	default:
		return false
	}
}

func consumerConfig(hash types.Hash, num int64, weight *big.Int) *delivery.ConsumerConfig {
	return &delivery.ConsumerConfig{LastHash: hash, LastEmittedNum: num, LastWeight: weight, ReorgThreshold: 128, TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".*")}}
}

// foreign is a message that is not part of a stream, or not whole.
func foreign(n int) (key, value []byte) {
	h := gen.Hash(0, 990)
	id := bytes.Repeat([]byte{9}, 32)
	switch n % 17 {
	case 16: // one byte short of a hash
		return append([]byte{0}, h[:31]...)[:32:32], []byte("x")
	case 1:
		return []byte{0}, []byte("x")
	case 2:
		return []byte{0, 1, 2}, []byte{2, 0x7e}
	case 3:
		return append([]byte{1}, h[:]...), delivery.AvroInt(1)
	case 4:
		return append(append([]byte{2}, h[:]...), id...), []byte{0, 0}
	case 5:
		return []byte{3, 1}, []byte("v")
	case 6:
		return []byte{4}, nil
	case 7:
		return []byte{7}, []byte("?")
	case 8:
		return append([]byte{0x42}, h[:]...), []byte("?")
	case 9: // the end of a reorg that did not begin
		return append([]byte{6}, h[:]...), delivery.AvroInt(3)
	case 10:
		return append(append([]byte{1}, h[:]...), id...), nil
	case 11:
		return append(append(append([]byte{2}, h[:]...), id...), delivery.AvroInt(1)...), []byte{1}
	}
	return nil, []byte("x")
}
