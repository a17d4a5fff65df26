package order

import (
	"math/big"
	"regexp"
	"runtime"
	"testing/synctest"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// Soak is a piece of history that repeats: a small tree built on the heaviest
// block of the previous round, delivered in a given order.
type Soak struct {
	Nodes  []Node // parents are -1 (the head of the previous round) or earlier nodes
	Order  []int
	Msg    bool
	Ghosts int // incomplete blocks per round
	Rounds int
}

func genSoak(t *rapid.T, c *TreeCase) {
	s := &Soak{Msg: rapid.Bool().Draw(t, "msg"), Ghosts: max(0, rapid.IntRange(-2, 2).Draw(t, "ghosts"))}
	n := rapid.IntRange(1, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		p := i - 1
		if i > 0 && rapid.IntRange(0, 2).Draw(t, "fork") == 0 {
			p = rapid.IntRange(-1, i-1).Draw(t, "p")
		}
		s.Nodes = append(s.Nodes, Node{p, genInc(t)})
		s.Order = append(s.Order, i)
		if rapid.IntRange(0, 5).Draw(t, "dup") == 0 {
			s.Order = append(s.Order, i)
		}
	}
	if rapid.Bool().Draw(t, "shuffle") {
		s.Order = rapid.Permutation(s.Order).Draw(t, "order")
	}
	s.Rounds = 1600 / n
	c.Style = rapid.IntRange(0, 3).Draw(t, "style")
	c.Thr = rapid.Int64Range(int64(n)+2, 16).Draw(t, "thr")
	c.Soak = s
}

// soakBody repeats the piece and compares what is allocated after a third of
// the rounds with what is allocated after all.
func soakBody(c *TreeCase, tags map[string]bool) (o core.Outcome) {
	s := c.Soak
	n := len(s.Nodes)
	// the heaviest node of a round becomes the root of the next
	w := make([]int64, n)
	best := 0
	for i, nd := range s.Nodes {
		w[i] = nd.Inc
		if nd.Parent >= 0 {
			w[i] += w[nd.Parent]
		}
		if w[i] > w[best] {
			best = i
		}
	}
	w[best]++ // no ties
	depth := make([]int64, n)
	for i, nd := range s.Nodes {
		depth[i] = 1
		if nd.Parent >= 0 {
			depth[i] += depth[nd.Parent]
		}
	}
	hash := func(round, i int) types.Hash { return gen.Hash(c.Style, 2+round*n+i) }
	root, rootNum, rootW := gen.Hash(c.Style, 1), int64(0), int64(0)
	omp, err := delivery.NewOrderedMessageProcessor(&delivery.ConsumerConfig{LastHash: root, LastWeight: new(big.Int), ReorgThreshold: c.Thr, TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".*")}})
	if err != nil {
		return core.Fail("NewOrderedMessageProcessor: %v", err)
	}
	defer omp.Close()
	ch := make(chan *delivery.ChainUpdate, 1000)
	sub := omp.Subscribe(ch)
	defer sub.Unsubscribe()
	var head types.Hash
	heap := func() int64 {
		for k := 0; k < 3; k++ {
			runtime.GC()
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	var before int64
	for r := 0; r < s.Rounds; r++ {
		if r == s.Rounds/3 {
			before = heap()
		}
		for g := 0; g < s.Ghosts; g++ {
			b := gen.Block{ID: 30000 + r*s.Ghosts + g, Parent: 60000, Num: rootNum + 1, Weight: []byte{1}, Updates: []gen.KV{{Fam: 0, N: 1, Val: []byte{1}}, {Fam: 0, N: 2, Val: []byte{1}}}}
			ms := b.Encode(c.Style)
			for _, m := range ms[:len(ms)-1] {
				if err := omp.ProcessMessage(&gen.Delivered{R: gen.RMsg{Msg: m, Src: "default:0", Off: int64(r)}}); err != nil {
					return core.Fail("message rejected: %v", err)
				}
			}
		}
		for _, i := range s.Order {
			parent := root
			if p := s.Nodes[i].Parent; p >= 0 {
				parent = hash(r, p)
			}
			pb := &delivery.PendingBatch{Number: rootNum + depth[i], Weight: big.NewInt(rootW + w[i]), Hash: hash(r, i), ParentHash: parent, Values: map[string][]byte{"k": {1}}, Deletes: map[string]struct{}{}}
			if s.Msg {
				m, err := headerOnly(pb)
				if err != nil {
					return core.Outcome{Err: err}
				}
				if err := omp.ProcessMessage(&gen.Delivered{R: gen.RMsg{Msg: m, Src: "default:0", Off: int64(r)}}); err != nil {
					return core.Fail("message rejected: %v", err)
				}
			} else {
				omp.ProcessCompleteBatch(pb)
			}
		}
		synctest.Wait()
		for len(ch) > 0 {
			u := <-ch
			head = u.Added()[len(u.Added())-1].Hash
			u.Done()
		}
		root, rootNum, rootW = hash(r, best), rootNum+depth[best], rootW+w[best]
		if head != root {
			return core.Fail("round %d: the head is not the heaviest block", r)
		}
	}
	grown := heap() - before
	runtime.KeepAlive(omp)
	// Of a block that never completes, the hash may be kept.
	rounds := int64(s.Rounds - s.Rounds/3)
	if limit := 32<<10 + rounds*int64(n)*40 + rounds*int64(s.Ghosts)*128; grown > limit {
		return core.Fail("%d rounds of %d blocks and %d incomplete ones, all but the last few beyond the threshold of %d, take %d bytes", rounds, n, s.Ghosts, c.Thr, grown)
	}
	tags["soak"] = true
	o.NonTrivial = true
	return o
}

func headerOnly(pb *delivery.PendingBatch) (gen.Msg, error) {
	p, err := delivery.NewProducer("default", nil)
	if err != nil {
		return gen.Msg{}, err
	}
	m, err := p.AddBlock(pb.Number, pb.Hash, pb.ParentHash, pb.Weight, pb.Values, pb.Deletes, nil)
	if err != nil {
		return gen.Msg{}, err
	}
	return gen.Msg{K: m["default"][0].Key(), V: m["default"][0].Value()}, nil
}
