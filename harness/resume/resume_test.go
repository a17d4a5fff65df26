package resume

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// ResumeCase is a chain of blocks, the logs it was published to by redundant
// producers, how far and in what order two incarnations of a consumer read
// them, and where the first stops.
type ResumeCase struct {
	Style   int
	Fams    []int
	Blocks  []gen.Block // a chain: block i+1 is the child of block i
	Ends    []int       // per producer: how many blocks it publishes before it dies
	Mix     []int       // which producer publishes next
	Shuffle []int       // order of messages within a block
	Parts   int         // partitions per topic
	Tracked []string
	Read    []int // which source the first incarnation reads next
	Stop    int   // the application stops after applying this many blocks
	Read2   []int // which source the second incarnation reads next
	Extra   int64 // rollback beyond the read-ahead
}

type entry struct {
	gen.Msg
	blk int
}

type logs struct {
	names []string
	byN   map[string]int
	log   [][]entry
}

func (l *logs) add(src string, e entry) {
	i, ok := l.byN[src]
	if !ok {
		i = len(l.names)
		l.byN[src] = i
		l.names = append(l.names, src)
		l.log = append(l.log, nil)
	}
	l.log[i] = append(l.log[i], e)
}

// publish writes the logs: each producer publishes the blocks in order.
func (c *ResumeCase) publish() *logs {
	l := &logs{byN: map[string]int{}}
	pos := make([][2]int, len(c.Ends)) // block, message
	perm := map[int][]int{}
	sh := 0
	next := func(p int) bool {
		for pos[p][0] < c.Ends[p] {
			b := pos[p][0]
			ms := c.Blocks[b].Encode(c.Style)
			if pos[p][1] == len(ms) {
				pos[p] = [2]int{b + 1, 0}
				continue
			}
			if pos[p][1] == 0 { // a fresh order of the block's messages
				o := make([]int, len(ms))
				for i := range o {
					o[i] = i
				}
				for i := len(o) - 1; i > 0; i-- {
					if len(c.Shuffle) > 0 {
						j := c.Shuffle[sh%len(c.Shuffle)] % (i + 1)
						sh++
						o[i], o[j] = o[j], o[i]
					}
				}
				perm[p] = o
			}
			m := ms[perm[p][pos[p][1]]]
			pos[p][1]++
			h := fnv.New32a()
			h.Write(m.K)
			l.add(fmt.Sprintf("%s:%d", m.Topic, int(h.Sum32())%c.Parts), entry{m, b})
			return true
		}
		return false
	}
	for _, p := range c.Mix {
		next(p % len(c.Ends))
	}
	for p := range c.Ends {
		for next(p) {
		}
	}
	return l
}

// reader draws the order in which sources are read.
type reader struct {
	picks []int
	k     int
}

func (r *reader) next(pos []int64, l *logs) int {
	var open []int
	for i := range l.log {
		if pos[i] < int64(len(l.log[i])) {
			open = append(open, i)
		}
	}
	if len(open) == 0 {
		return -1
	}
	if r.k < len(r.picks) {
		r.k++
		return open[r.picks[r.k-1]%len(open)]
	}
	return open[0]
}

func parse(token string) (map[string]int64, error) {
	out := map[string]int64{}
	for _, t := range strings.Split(token, ";") {
		parts := strings.Split(t, "=")
		if len(parts) != 2 {
			return nil, fmt.Errorf("malformed token %q", token)
		}
		n, err := strconv.ParseInt(parts[1], 10, 64)
		if err != nil {
			return nil, fmt.Errorf("malformed token %q: %v", token, err)
		}
		if _, ok := out[parts[0]]; ok {
			return nil, fmt.Errorf("token %q names a source twice", token)
		}
		out[parts[0]] = n
	}
	return out, nil
}

func same(pb *delivery.PendingBatch, b *gen.Block, style int, w gen.Want) error {
	if pb.Number != b.Num || pb.Hash != gen.Hash(style, b.ID) || pb.ParentHash != gen.Hash(style, b.Parent) || pb.Weight.Cmp(b.WeightInt()) != 0 {
		return fmt.Errorf("block %d: wrong header", b.ID)
	}
	if len(pb.Values) != len(w.Values) || len(pb.Deletes) != len(w.Deletes) {
		return fmt.Errorf("block %d: %d values and %d deletes, want %d and %d", b.ID, len(pb.Values), len(pb.Deletes), len(w.Values), len(w.Deletes))
	}
	for k, v := range w.Values {
		if got, ok := pb.Values[k]; !ok || string(got) != string(v) {
			return fmt.Errorf("block %d: value of %q is %x, want %x", b.ID, k, got, v)
		}
	}
	for k := range w.Deletes {
		if _, ok := pb.Deletes[k]; !ok {
			return fmt.Errorf("block %d: delete of %q is missing", b.ID, k)
		}
	}
	return nil
}

func (c *ResumeCase) cfg() *delivery.ConsumerConfig {
	cfg := &delivery.ConsumerConfig{ReorgThreshold: int64(len(c.Blocks)) + 10}
	for _, s := range c.Tracked {
		cfg.TrackedPrefixes = append(cfg.TrackedPrefixes, regexp.MustCompile(s))
	}
	return cfg
}

func run(c *ResumeCase) (o core.Outcome) {
	l := c.publish()
	tracked := func(k string) bool {
		for _, s := range c.Tracked {
			if regexp.MustCompile(s).MatchString(k) {
				return true
			}
		}
		return false
	}
	index := map[types.Hash]int{}
	for i := range c.Blocks {
		index[gen.Hash(c.Style, c.Blocks[i].ID)] = i
	}
	root := gen.Hash(c.Style, c.Blocks[0].Parent)

	// incarnation reads from the given positions and returns how many blocks
	// came out on top of block `from` (index of the last applied; -1 for none).
	incarnation := func(from int, pos []int64, r *reader, stop int) (out []*delivery.PendingBatch, readAt []map[string]int64, err error) {
		cfg := c.cfg()
		cfg.LastHash, cfg.LastEmittedNum, cfg.LastWeight = root, c.Blocks[0].Num-1, new(big.Int)
		if from >= 0 {
			b := &c.Blocks[from]
			cfg.LastHash, cfg.LastEmittedNum, cfg.LastWeight = gen.Hash(c.Style, b.ID), b.Num, b.WeightInt()
		}
		omp, err := delivery.NewOrderedMessageProcessor(cfg)
		if err != nil {
			return nil, nil, err
		}
		defer omp.Close()
		ch := make(chan *delivery.ChainUpdate, 1000)
		defer omp.Subscribe(ch).Unsubscribe()
		at := from
		headerAt := map[int]map[string]int64{}
		for stop < 0 || len(out) < stop {
			i := r.next(pos, l)
			if i < 0 {
				break
			}
			e := l.log[i][pos[i]]
			if err := omp.ProcessMessage(&gen.Delivered{R: gen.RMsg{Msg: e.Msg, Src: l.names[i], Off: pos[i]}}); err != nil {
				return nil, nil, fmt.Errorf("message rejected: %v", err)
			}
			pos[i]++
			if _, ok := headerAt[e.blk]; e.K[0] == 0 && !ok {
				m := map[string]int64{}
				for k, n := range pos {
					if n > 0 {
						m[l.names[k]] = n - 1
					}
				}
				headerAt[e.blk] = m
			}
			synctest.Wait()
			for len(ch) > 0 {
				u := <-ch
				if len(u.Removed()) > 0 {
					return nil, nil, fmt.Errorf("a chain without forks had %d blocks removed", len(u.Removed()))
				}
				for _, pb := range u.Added() {
					k, ok := index[pb.Hash]
					if !ok || k != at+1 {
						return nil, nil, fmt.Errorf("block %d was released after block %d", k, at)
					}
					if err := same(pb, &c.Blocks[k], c.Style, c.Blocks[k].Projection(tracked)); err != nil {
						return nil, nil, err
					}
					at = k
					out = append(out, pb)
					readAt = append(readAt, headerAt[k])
				}
				u.Done()
			}
		}
		return out, readAt, nil
	}

	first, readAt, err := incarnation(-1, make([]int64, len(l.log)), &reader{picks: c.Read}, c.Stop)
	if err != nil {
		return core.Outcome{Err: fmt.Errorf("before the restart: %v", err)}
	}
	if len(first) == 0 {
		return core.Outcome{Err: fmt.Errorf("the chain was published and read to the end, and no block was released")}
	}
	k := min(c.Stop, len(first)) - 1
	token := first[k].Resumption()
	tok, err := parse(token)
	if err != nil {
		return core.Outcome{Err: err}
	}
	// How far the consumer had read ahead of block k when it met its header,
	// in the sources that held nothing of block k: that much rollback is asked for.
	var rollback int64
	for i, name := range l.names {
		own := false
		later := int64(-1)
		for off, e := range l.log[i] {
			if e.blk == k && (e.Entry == "" || tracked(e.Entry)) {
				own = true
			}
			if e.blk > k && later < 0 {
				later = int64(off)
			}
		}
		if at, ok := readAt[k][name]; ok && later >= 0 && !own && at-later > rollback {
			rollback = at - later
		}
	}
	rollback += c.Extra
	pos := make([]int64, len(l.log))
	skipped := false
	for i, name := range l.names {
		if off, ok := tok[name]; ok && off >= rollback {
			pos[i] = off - rollback
		}
		if pos[i] > int64(len(l.log[i])) {
			return core.Fail("the token %q points beyond the end of %s (%d messages)", token, name, len(l.log[i]))
		}
		if pos[i] > 0 {
			skipped = true
		}
	}
	second, _, err := incarnation(k, pos, &reader{picks: c.Read2}, -1)
	if err != nil {
		return core.Outcome{Err: fmt.Errorf("after resuming at block %d with token %q and rollback %d: %v", k, token, rollback, err)}
	}
	if k+len(second) != len(c.Blocks)-1 {
		return core.Fail("after resuming at block %d with token %q and rollback %d, %d blocks were released, want %d", k, token, rollback, len(second), len(c.Blocks)-1-k)
	}
	if skipped {
		o.Tags = append(o.Tags, "skipped-some")
	}
	if rollback > c.Extra {
		o.Tags = append(o.Tags, "read-ahead")
	}
	if len(c.Ends) > 1 {
		o.Tags = append(o.Tags, "redundant-producers")
	}
	o.NonTrivial = skipped && len(second) > 0
	return o
}

func TestC11(t *testing.T) {
	core.Run(t, "C11", func(t *rapid.T) ResumeCase {
		c := ResumeCase{Style: rapid.IntRange(0, 3).Draw(t, "style")}
		c.Fams = gen.GenFamilies(t)
		nb := rapid.IntRange(2, 6).Draw(t, "nb")
		o := gen.Opt{MaxUpdates: 5, MaxDeletes: 2, MaxSubs: 1, MaxSubItems: 2}
		for i := 0; i < nb; i++ {
			b := gen.Block{ID: i + 2, Parent: i + 1, Num: 10 + int64(i), Weight: []byte{byte(1 + i)}}
			gen.GenBlockContent(t, &b, c.Fams, 1+i, o)
			c.Blocks = append(c.Blocks, b)
		}
		np := rapid.IntRange(1, 3).Draw(t, "np")
		for p := 0; p < np; p++ {
			e := nb
			if p > 0 {
				e = rapid.IntRange(0, nb).Draw(t, "end")
			}
			c.Ends = append(c.Ends, e)
		}
		bytes := func(l string, n int) []int {
			return rapid.SliceOfN(rapid.IntRange(0, 9), 0, n).Draw(t, l)
		}
		c.Mix, c.Shuffle, c.Read, c.Read2 = bytes("mix", 60), bytes("shuf", 40), bytes("read", 80), bytes("read2", 80)
		c.Parts = rapid.IntRange(1, 3).Draw(t, "parts")
		if rapid.IntRange(0, 4).Draw(t, "many") == 4 {
			c.Parts = rapid.IntRange(4, 16).Draw(t, "parts2")
		}
		c.Tracked = [][]string{{".*"}, {".*"}, {".*"}, {"^[a-m]"}}[rapid.IntRange(0, 3).Draw(t, "trk")]
		c.Stop = rapid.IntRange(1, nb-1).Draw(t, "stop")
		c.Extra = int64([]int{0, 0, 0, 1, 5, 1000}[rapid.IntRange(0, 5).Draw(t, "extra")])
		return c
	}, func(t *testing.T, c ResumeCase) core.Outcome {
		var o core.Outcome
		if err := core.Bubble(t, func() { o = run(&c) }); err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
