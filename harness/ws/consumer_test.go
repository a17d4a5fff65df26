package ws

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"regexp"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	"github.com/openrelayxyz/cardinal-types/hexutil"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

const (
	cAdd    = iota // the server announces block A; with Early, 1+More sub-batches come before it
	cSub           // the server sends sub-batch B of block A
	cCut           // the connection ends
	cNoise         // something that is not part of the stream
	cRepeat        // the server announces block A again, whole
)

// CEv is one event at the server.
type CEv struct {
	Kind, A, B int
	Gap        int64 // ms before it
	Down       int64 // ms the server is down after a cut
	Mode       int   // how the connection ends, or what noise comes
	Early      bool
	More       int // further sub-batches that come before the block
}

// Conn is how the server treats one connection.
type Conn struct {
	BadHandshake bool
	Drop         bool  // closes instead of answering the subscription
	Refuse       int   // 1: an answer without result, 2: an error
	Noise        bool  // something else before the answer
	Wait         int64 // ms before the answer
	PerItem      int64 // ms per message
	CutAfter     int   // the connection ends after this many messages (0: never)
	SubID        int
	Bulk         bool // what is sent is read in pieces of any size, not message by message
}

// ConsumerCase is a server's life as seen by one consumer.
type ConsumerCase struct {
	Style     int
	Scheme    string
	Blocks    []gen.Block
	Events    []CEv
	Conns     []Conn
	StartDown int64
	FinalCut  bool
	Finish    bool // send what is missing at the end
	CloseDown bool // close while the server is down
	CloseAt   int64
	CloseDial int64 `json:",omitempty"` // how long it takes to connect then (ms)
	Signal    bool
	Pre       int  // further blocks right before the signal
	Fresh     int  // further blocks on the first new one after it
	Bulk      bool // for the connections that are not in Conns
	Rush      bool // nothing is given time to be handled
	Chatter   int  // noise after the signal
}

type wsServer struct {
	mu          sync.Mutex
	c           *ConsumerCase
	st          *store
	down        bool
	conns       int // connections accepted
	dials       int
	slow        time.Duration // how long it takes to connect
	open        int           // connections that are served
	active      *srvConn
	sentHead    map[int]map[int]bool // per block, sub-batches sent on the current connection; nil: head not sent
	complete    map[int]bool         // a whole copy, or the head with all sub-batches, was sent
	readySent   bool
	bad         error
	requests    []types.Hash
	established bool
	calm        bool // no more cuts
}

type srvConn struct {
	ws    *websocket.Conn
	queue []any // *wireMsg, string (raw text), or func()
	wake  chan struct{}
	cfg   Conn
	subid uint64
	n     int
	dead  bool
	heads map[int]map[int]bool
}

func (s *wsServer) dial(network, addr string) (net.Conn, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.dials++
	if s.slow > 0 {
		s.mu.Unlock()
		time.Sleep(s.slow)
		s.mu.Lock()
	}
	if s.down {
		return nil, fmt.Errorf("connection refused")
	}
	cl, sv := net.Pipe()
	cfg := Conn{Bulk: s.c.Bulk}
	if s.conns < len(s.c.Conns) {
		cfg = s.c.Conns[s.conns]
	}
	s.conns++
	s.open++
	if cfg.Bulk {
		cl = newBulkConn(cl)
	}
	go s.serve(&lockedConn{sv, make(chan struct{}, 1)}, cfg)
	return cl, nil
}

// bulkConn collects what arrives before it is read.
type bulkConn struct {
	net.Conn
	mu   sync.Mutex
	buf  []byte
	err  error
	wake chan struct{}
}

func newBulkConn(c net.Conn) net.Conn {
	b := &bulkConn{Conn: c, wake: make(chan struct{}, 1)}
	go func() {
		p := make([]byte, 1<<16)
		for b.err == nil {
			n, err := c.Read(p)
			b.mu.Lock()
			b.buf, b.err = append(b.buf, p[:n]...), err
			b.mu.Unlock()
			select {
			case b.wake <- struct{}{}:
			default:
			}
		}
	}()
	return b
}

func (b *bulkConn) Read(p []byte) (int, error) {
	for {
		b.mu.Lock()
		n, err := copy(p, b.buf), b.err
		b.buf = b.buf[n:]
		b.mu.Unlock()
		if n > 0 {
			return n, nil
		}
		if err != nil {
			return 0, err
		}
		<-b.wake
		time.Sleep(time.Millisecond) // more may come
	}
}

// lockedConn makes writers wait on a channel, as the lock in net.Pipe does not
// let virtual time pass.
type lockedConn struct {
	net.Conn
	busy chan struct{}
}

func (l *lockedConn) Write(b []byte) (int, error) {
	l.busy <- struct{}{}
	defer func() { <-l.busy }()
	return l.Conn.Write(b)
}

type hijacked struct {
	conn net.Conn
	brw  *bufio.ReadWriter
	h    http.Header
}

func (h *hijacked) Header() http.Header         { return h.h }
func (h *hijacked) Write(b []byte) (int, error) { return h.conn.Write(b) }
func (h *hijacked) WriteHeader(int)             {}
func (h *hijacked) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return h.conn, h.brw, nil
}

func (s *wsServer) fail(f string, a ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.bad == nil {
		s.bad = fmt.Errorf(f, a...)
	}
}

func (s *wsServer) serve(conn net.Conn, cfg Conn) {
	defer func() {
		conn.Close()
		s.mu.Lock()
		s.open--
		s.mu.Unlock()
	}()
	r := bufio.NewReader(conn)
	req, err := http.ReadRequest(r)
	if err != nil {
		return
	}
	if cfg.BadHandshake {
		conn.Write([]byte("HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\n\r\n"))
		return
	}
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	ws, err := up.Upgrade(&hijacked{conn, bufio.NewReadWriter(r, bufio.NewWriter(conn)), http.Header{}}, req, nil)
	if err != nil {
		s.fail("handshake: %v", err)
		return
	}
	_, data, err := ws.ReadMessage()
	if err != nil {
		return
	}
	var call struct {
		Version string            `json:"jsonrpc"`
		ID      json.RawMessage   `json:"id"`
		Method  string            `json:"method"`
		Params  []json.RawMessage `json:"params"`
	}
	var what string
	var num hexutil.Uint64
	var hash types.Hash
	if json.Unmarshal(data, &call) != nil || call.Method != "cardinal_subscribe" || len(call.Params) != 3 ||
		json.Unmarshal(call.Params[0], &what) != nil || what != "streams" ||
		json.Unmarshal(call.Params[1], &num) != nil || json.Unmarshal(call.Params[2], &hash) != nil {
		s.fail("unexpected request %s", data)
		return
	}
	time.Sleep(time.Duration(cfg.Wait) * time.Millisecond)
	if cfg.Drop {
		return
	}
	if cfg.Noise {
		ws.WriteMessage(websocket.TextMessage, []byte(`{"jsonrpc":"2.0","id":-1,"error":{"code":-1,"message":"x"}}`))
		ws.WriteMessage(websocket.TextMessage, []byte(`not json`))
	}
	switch cfg.Refuse {
	case 1:
		ws.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s}`, call.ID)))
	case 2:
		ws.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":{"code":-32000,"message":"not now"}}`, call.ID)))
	}
	if cfg.Refuse > 0 {
		for {
			if _, _, err := ws.ReadMessage(); err != nil {
				return
			}
		}
	}
	c := &srvConn{ws: ws, wake: make(chan struct{}, 1), cfg: cfg, subid: uint64(cfg.SubID), heads: map[int]map[int]bool{}}
	s.mu.Lock()
	if s.down {
		s.mu.Unlock()
		return
	}
	if s.bad == nil {
		s.bad = s.checkRequest(uint64(num), hash)
	}
	s.requests = append(s.requests, hash)
	c.queue = append(c.queue, fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":"0x%x"}`, call.ID, cfg.SubID))
	for _, b := range s.history(int64(num), hash) {
		b := b
		c.queue = append(c.queue, func() { s.mu.Lock(); s.complete[b.ID] = true; s.mu.Unlock() }, fullMsg(b, s.c.Style))
	}
	c.queue = append(c.queue, func() { s.mu.Lock(); s.readySent = true; s.mu.Unlock() }, &wireMsg{Type: "ready"})
	s.active = c
	s.established = true
	s.mu.Unlock()
	go func() {
		for {
			if _, _, err := ws.ReadMessage(); err != nil {
				s.mu.Lock()
				c.dead = true
				if s.active == c {
					s.active = nil
				}
				s.mu.Unlock()
				conn.Close()
				c.poke()
				return
			}
		}
	}()
	for {
		s.mu.Lock()
		if c.dead {
			s.mu.Unlock()
			return
		}
		var item any
		if len(c.queue) > 0 {
			item = c.queue[0]
			c.queue = c.queue[1:]
		}
		s.mu.Unlock()
		switch v := item.(type) {
		case nil:
			<-c.wake
			continue
		case func():
			v()
			continue
		case string:
			ws.WriteMessage(websocket.TextMessage, []byte(v))
			continue
		case *wireMsg:
			s.mu.Lock()
			calm := s.calm
			s.mu.Unlock()
			if cfg.CutAfter > 0 && c.n >= cfg.CutAfter && !calm {
				s.mu.Lock()
				c.dead = true
				if s.active == c {
					s.active = nil
				}
				s.mu.Unlock()
				return
			}
			c.n++
			if cfg.PerItem > 0 {
				time.Sleep(time.Duration(cfg.PerItem) * time.Millisecond)
			}
			inner, _ := json.Marshal(v)
			ws.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x%x","result":%s}}`, c.subid, inner)))
		}
	}
}

func (c *srvConn) poke() {
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

// checkRequest: the block must be one the consumer can have.
func (s *wsServer) checkRequest(num uint64, hash types.Hash) error {
	base := s.c.Blocks[0].Num - 1
	if hash == gen.Hash(s.c.Style, 0) && num == uint64(base) {
		return nil
	}
	for i := range s.c.Blocks {
		b := &s.c.Blocks[i]
		if gen.Hash(s.c.Style, b.ID) == hash && uint64(b.Num) == num {
			if !s.complete[b.ID] {
				return fmt.Errorf("the consumer asks for what follows block %d, of which it has not been sent everything", b.ID)
			}
			return nil
		}
	}
	return fmt.Errorf("the consumer asks for what follows an unknown block: number %d, hash %x", num, hash[:])
}

// history is what the server has announced after a block, and what is higher.
func (s *wsServer) history(num int64, hash types.Hash) []*gen.Block {
	later := map[*gen.Block]bool{}
	for _, b := range s.st.after(hash) {
		later[b] = true
	}
	var out []*gen.Block
	for _, b := range s.st.blocks {
		if later[b] || b.Num > num {
			out = append(out, b)
		}
	}
	return out
}

// send queues an item on the current connection.
func (s *wsServer) send(items ...any) {
	if s.active == nil {
		return
	}
	s.active.queue = append(s.active.queue, items...)
	s.active.poke()
}

// noise queues something that is not an item of the subscription.
func (s *wsServer) noise(mode int) {
	a := s.active
	if a == nil {
		return
	}
	switch mode {
	case 0:
		s.send("")
	case 1:
		s.send(`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x77","result":{"type":"reorg","batch":{"number":"0x1","hash":"0x0000000000000000000000000000000000000000000000000000000000000001"}}}}`)
	case 2:
		s.send(`{"jsonrpc":"2.0","method":"other_thing","params":{"subscription":"0x0","result":{"type":"ready"}}}`)
	case 3:
		s.send(func() { a.ws.WriteControl(websocket.PingMessage, []byte("x"), time.Now().Add(time.Second)) })
	case 4: // an answer to something that was not asked
		s.send(`{"jsonrpc":"2.0","id":77,"result":true}`)
	case 5:
		s.send(`{"jsonrpc":"2.0","id":null,"error":{"code":-32700,"message":"could not parse"}}`)
	case 6:
		s.send("not a message")
	case 7: // a kind of item this consumer does not know
		s.send(&wireMsg{Type: "weather"})
	case 8: // something else about the same subscription
		s.send(fmt.Sprintf(`{"jsonrpc":"2.0","method":"other_thing","params":{"subscription":"0x%x"}}`, a.subid))
	case 9:
		s.send(fmt.Sprintf(`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x%x"}}`, a.subid))
	default: // damaged items
		s.send(fmt.Sprintf(`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x%x","result":%s}}`, a.subid, []string{
			`{"type":"batch"}`,
			`{"type":"subbatch"}`,
			`{"type":"reorg"}`,
			`{"type":"batch","batch":{"number":"0x3e8","hash":"0x0000000000000000000000000000000000000000000000000000000000000003","parent":"0x0000000000000000000000000000000000000000000000000000000000000002"}}`,
			`{"type":"reorg","batch":{"number":"what","hash":"0x0000000000000000000000000000000000000000000000000000000000000003"}}`,
			`"batch"`,
		}[mode%6]))
	}
}

func (s *wsServer) cut(mode int) {
	s.mu.Lock()
	c := s.active
	s.active = nil
	if c == nil || c.dead {
		s.mu.Unlock()
		return
	}
	c.dead = true
	s.mu.Unlock()
	c.poke()
	switch mode {
	case 1:
		c.ws.UnderlyingConn().Write([]byte{0x81, 0x7e, 0x10})
	case 2:
		c.ws.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1001, "bye"), time.Now().Add(time.Second))
	}
	c.ws.Close()
}

func runConsumer(c *ConsumerCase) (o core.Outcome) {
	st := &store{style: c.Style}
	s := &wsServer{c: c, st: st, complete: map[int]bool{}, down: c.StartDown > 0}
	websocket.DefaultDialer.NetDial = s.dial
	defer func() { websocket.DefaultDialer.NetDial = nil }()
	root := c.Blocks[0]
	rootWeight := new(big.Int).Sub(root.WeightInt(), big.NewInt(4))
	if rootWeight.Sign() < 0 {
		rootWeight.SetInt64(0)
	}
	cfg := &delivery.ConsumerConfig{LastEmittedNum: root.Num - 1, LastHash: gen.Hash(c.Style, 0), LastWeight: rootWeight, ReorgThreshold: 128, TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".*")}}
	con, err := transports.ResolveConsumer(c.Scheme+"localhost:8555", "", nil, nil, 0, cfg)
	if err != nil {
		return core.Outcome{Err: err}
	}
	byHash := map[types.Hash]*gen.Block{}
	for i := range c.Blocks {
		byHash[gen.Hash(c.Style, c.Blocks[i].ID)] = &c.Blocks[i]
	}
	sig := &gen.Block{ID: 900, Parent: 800, Num: 78, Weight: []byte{1}}
	if c.Signal {
		byHash[gen.Hash(c.Style, 900)] = sig
	}
	var mu sync.Mutex
	var bad error
	fail := func(f string, a ...any) {
		if bad == nil {
			bad = fmt.Errorf(f, a...)
		}
	}
	released := map[int]int{}
	chain := []types.Hash{cfg.LastHash}
	reorgs := 0
	var signals []map[int64]types.Hash
	updates := make(chan *delivery.ChainUpdate, 1000)
	batches := make(chan *delivery.PendingBatch, 1000)
	sigs := make(chan map[int64]types.Hash, 10)
	defer con.Subscribe(updates).Unsubscribe()
	defer con.Subscribe(batches).Unsubscribe()
	defer con.SubscribeReorg(sigs).Unsubscribe()
	end := make(chan struct{})
	defer close(end)
	go func() {
		for {
			select {
			case <-end:
				return
			case pb := <-batches:
				mu.Lock()
				b := byHash[pb.Hash]
				if b == nil {
					fail("an unknown block %x was released", pb.Hash)
				} else {
					s.mu.Lock()
					ok := s.complete[b.ID]
					s.mu.Unlock()
					if !ok && b.ID < 700 {
						fail("block %d was released before everything of it was sent", b.ID)
					}
					if err := same(pb, b, c.Style); err != nil {
						fail("%v", err)
					}
					released[b.ID]++
				}
				mu.Unlock()
			case u := <-updates:
				mu.Lock()
				for i := len(u.Removed()) - 1; i >= 0; i-- {
					if pb := u.Removed()[i]; chain[len(chain)-1] != pb.Hash {
						fail("an update removes %x, but the head is %x", pb.Hash, chain[len(chain)-1])
					} else {
						chain = chain[:len(chain)-1]
					}
					reorgs++
				}
				for _, pb := range u.Added() {
					if pb.ParentHash != chain[len(chain)-1] && byHash[pb.Hash] != sig {
						fail("an update adds %x, whose parent is not the head", pb.Hash)
					}
					chain = append(chain, pb.Hash)
				}
				mu.Unlock()
				u.Done()
			case m := <-sigs:
				mu.Lock()
				signals = append(signals, m)
				mu.Unlock()
			}
		}
	}()
	started := make(chan error, 1)
	go func() { started <- con.Start() }()
	isReady := func() bool {
		select {
		case <-con.Ready():
			return true
		default:
			return false
		}
	}
	if c.StartDown > 0 {
		time.Sleep(time.Duration(c.StartDown) * time.Millisecond)
		s.mu.Lock()
		s.down = false
		s.mu.Unlock()
	}
	synctest.Wait()
	announced := map[int]bool{}
	cuts, mid := 0, false
	for _, ev := range c.Events {
		time.Sleep(time.Duration(ev.Gap) * time.Millisecond)
		synctest.Wait()
		switch ev.Kind {
		case cAdd, cRepeat:
			b := &c.Blocks[ev.A]
			if ev.Kind == cAdd && (announced[b.ID] || b.Parent > 0 && !announced[b.Parent]) || ev.Kind == cRepeat && !announced[b.ID] {
				continue
			}
			s.mu.Lock()
			if ev.Kind == cRepeat {
				s.send(func() { s.mu.Lock(); s.complete[b.ID] = true; s.mu.Unlock() }, fullMsg(b, c.Style))
				s.mu.Unlock()
				break
			}
			announced[b.ID] = true
			st.commit(b)
			if a := s.active; a != nil {
				a.heads[b.ID] = map[int]bool{}
				if ev.Early && len(b.Subs) > 0 {
					for k := 0; k <= ev.More && k < len(b.Subs); k++ {
						i := (ev.B + k) % len(b.Subs)
						a.heads[b.ID][i] = true
						s.send(subMsg(b, i, c.Style))
					}
				}
				if len(a.heads[b.ID]) == len(b.Subs) {
					s.send(func() { s.mu.Lock(); s.complete[b.ID] = true; s.mu.Unlock() })
				}
				s.send(headMsg(b, c.Style))
			}
			s.mu.Unlock()
		case cSub:
			b := &c.Blocks[ev.A]
			if len(b.Subs) == 0 || !announced[b.ID] {
				continue
			}
			i := ev.B % len(b.Subs)
			s.mu.Lock()
			if a := s.active; a != nil {
				if h := a.heads[b.ID]; h == nil {
					// announced on an earlier connection: the history has it
				} else if h[i] {
					s.mu.Unlock()
					continue
				} else {
					h[i] = true
					if len(h) == len(b.Subs) {
						s.send(func() { s.mu.Lock(); s.complete[b.ID] = true; s.mu.Unlock() })
					}
				}
				s.send(subMsg(b, i, c.Style))
			}
			s.mu.Unlock()
		case cCut:
			s.mu.Lock()
			if s.active != nil {
				cuts++
				for id, h := range s.active.heads {
					if !s.complete[id] && len(h) < len(byHash[gen.Hash(c.Style, id)].Subs) {
						mid = true
					}
				}
			}
			s.down = ev.Down > 0
			s.mu.Unlock()
			s.cut(ev.Mode)
			if ev.Down > 0 {
				time.Sleep(time.Duration(ev.Down) * time.Millisecond)
				s.mu.Lock()
				s.down = false
				s.mu.Unlock()
			}
		case cNoise:
			s.mu.Lock()
			s.noise(ev.Mode)
			s.mu.Unlock()
		}
		synctest.Wait()
		s.mu.Lock()
		rs := s.readySent
		s.mu.Unlock()
		if !rs && isReady() {
			return core.Fail("ready before the server said so")
		}
	}
	if c.FinalCut {
		s.cut(0)
	}
	time.Sleep(5 * time.Minute)
	synctest.Wait()
	if c.Finish && !c.FinalCut {
		s.mu.Lock()
		for i := range c.Blocks {
			b := &c.Blocks[i]
			if a := s.active; a != nil && a.heads[b.ID] != nil {
				for j := range b.Subs {
					if !a.heads[b.ID][j] {
						s.send(subMsg(b, j, c.Style))
					}
				}
				s.send(func() { s.mu.Lock(); s.complete[b.ID] = true; s.mu.Unlock() })
			}
		}
		// completeness is recorded before the last messages go out
		if a := s.active; a != nil {
			var fs, rest []any
			for _, it := range a.queue {
				if _, ok := it.(func()); ok {
					fs = append(fs, it)
				} else {
					rest = append(rest, it)
				}
			}
			a.queue = append(fs, rest...)
		}
		s.mu.Unlock()
		time.Sleep(time.Minute)
		synctest.Wait()
	}
	select {
	case err := <-started:
		if err != nil {
			return core.Fail("Start: %v", err)
		}
	default:
		return core.Fail("Start does not return")
	}
	s.mu.Lock()
	act, sbad := s.active != nil, s.bad
	s.mu.Unlock()
	if sbad != nil {
		return core.Outcome{Err: sbad}
	}
	mu.Lock()
	err = bad
	mu.Unlock()
	if err != nil {
		return core.Outcome{Err: err}
	}
	if !act {
		return core.Fail("the server is up, but the consumer has not subscribed for five minutes")
	}
	if !isReady() {
		return core.Fail("the server said it is ready, but the consumer is not")
	}
	// every complete block arrived, and the head is the heaviest that connects
	connected := map[int]bool{0: true}
	var best *gen.Block
	for _, b := range st.blocks {
		s.mu.Lock()
		done := s.complete[b.ID]
		s.mu.Unlock()
		if done && released[b.ID] == 0 {
			return core.Fail("everything of block %d was sent, but it was not released", b.ID)
		}
		if !done && released[b.ID] > 0 {
			return core.Fail("block %d was released too early", b.ID)
		}
		if done && connected[b.Parent] {
			connected[b.ID] = true
			if best == nil || b.WeightInt().Cmp(best.WeightInt()) > 0 {
				best = b
			}
		}
		if (c.FinalCut || c.Finish) && !done {
			return core.Fail("the server never sent everything of block %d: the consumer asked for too late a block (requests %x)", b.ID, s.requests)
		}
	}
	mu.Lock()
	head := chain[len(chain)-1]
	mu.Unlock()
	if best != nil {
		if b := byHash[head]; b == nil || b.WeightInt().Cmp(best.WeightInt()) != 0 {
			return core.Fail("the head is %x, want block %d", head, best.ID)
		}
	} else if len(chain) > 1 {
		return core.Fail("blocks were applied although none is complete")
	}
	if c.Signal {
		h := gen.Hash(c.Style, 800)
		pause := func() {
			s.mu.Unlock()
			if !c.Rush {
				time.Sleep(time.Second)
				synctest.Wait()
			}
			s.mu.Lock()
		}
		prev := &gen.Block{ID: 0, Num: root.Num - 1, Weight: rootWeight.Bytes()}
		if best != nil {
			prev = best
		}
		last := sig
		var pre, fresh []*gen.Block
		child := func(id int, p *gen.Block) *gen.Block {
			b := &gen.Block{ID: id, Parent: p.ID, Num: p.Num + 1, Weight: new(big.Int).Add(p.WeightInt(), big.NewInt(1)).Bytes()}
			byHash[gen.Hash(c.Style, id)] = b
			return b
		}
		mu.Lock()
		for i := 0; i < c.Pre; i++ {
			prev = child(700+i, prev)
			pre = append(pre, prev)
		}
		for i := 0; i < c.Fresh; i++ {
			last = child(901+i, last)
			fresh = append(fresh, last)
		}
		mu.Unlock()
		s.mu.Lock()
		s.calm = true
		for _, b := range pre {
			s.send(fullMsg(b, c.Style))
			pause()
		}
		s.send(&wireMsg{Type: "reorg", Batch: &wireBatch{Number: 77, Hash: h}})
		pause()
		if c.Chatter > 0 {
			s.noise(c.Chatter - 1)
			pause()
		}
		s.send(fullMsg(sig, c.Style))
		for _, b := range fresh {
			pause()
			s.send(fullMsg(b, c.Style))
		}
		s.mu.Unlock()
		time.Sleep(30 * time.Second)
		synctest.Wait()
		mu.Lock()
		ok := len(signals) == 1 && len(signals[0]) == 1 && signals[0][77] == h && chain[len(chain)-1] == gen.Hash(c.Style, last.ID)
		tail := append(append(pre, sig), fresh...)
		for i, b := range tail {
			at := len(chain) - len(tail) + i
			ok = ok && at > 0 && chain[at] == gen.Hash(c.Style, b.ID)
		}
		for i := 0; i < c.Pre; i++ {
			ok = ok && released[700+i] == 1
		}
		for i := 900; i <= last.ID; i++ {
			ok = ok && released[i] == 1
		}
		err := bad
		mu.Unlock()
		if err != nil {
			return core.Fail("around a reorg signal: %v", err)
		}
		if !ok {
			return core.Fail("after a reorg signal: signals %v, chain %x (want it to end with %d blocks before the signal and %x), released %v", signals, chain, len(pre), gen.Hash(c.Style, last.ID), released)
		}
		o.Tags = append(o.Tags, "signal")
	} else if len(signals) > 0 {
		return core.Fail("a reorg was signalled: %v", signals)
	}
	// closing
	if c.CloseDown || c.CloseDial > 0 {
		s.mu.Lock()
		s.down = c.CloseDown
		s.slow = time.Duration(c.CloseDial) * time.Millisecond
		s.mu.Unlock()
		s.cut(0)
		time.Sleep(time.Duration(c.CloseAt) * time.Millisecond)
		synctest.Wait()
	}
	closed := make(chan struct{})
	go func() { con.Close(); close(closed) }()
	time.Sleep(10 * time.Second)
	synctest.Wait()
	select {
	case <-closed:
	default:
		return core.Fail("Close does not return")
	}
	s.mu.Lock()
	s.down = false
	d := s.dials
	s.mu.Unlock()
	time.Sleep(2 * time.Minute)
	synctest.Wait()
	if s.dials != d || s.active != nil {
		return core.Fail("a closed consumer is still connected, or reconnects")
	}
	if s.open > 0 {
		return core.Fail("a closed consumer leaves a connection open")
	}
	o.NonTrivial = (cuts > 0 && len(st.blocks) > 2) || reorgs > 0
	if mid {
		o.Tags = append(o.Tags, "cut-between-batches")
	}
	if cuts > 0 {
		o.Tags = append(o.Tags, "cut")
	}
	if reorgs > 0 {
		o.Tags = append(o.Tags, "reorg")
	}
	if c.CloseDown {
		o.Tags = append(o.Tags, "closed-while-down")
	}
	if c.CloseDial > 0 {
		o.Tags = append(o.Tags, "closed-while-dialing")
	}
	for i, cc := range c.Conns {
		if i < s.conns {
			if cc.Refuse > 0 {
				o.Tags = append(o.Tags, "refused")
			}
			if cc.BadHandshake || cc.Drop {
				o.Tags = append(o.Tags, "failed-connection")
			}
		}
	}
	return o
}

func TestC14(t *testing.T) {
	core.Run(t, "C14", func(t *rapid.T) ConsumerCase {
		c := ConsumerCase{Style: []int{0, 2, 3}[rapid.IntRange(0, 2).Draw(t, "style")], Blocks: genTree(t, 9, 4)}
		c.Scheme = []string{"ws://", "cardinal://ws://"}[rapid.IntRange(0, 1).Draw(t, "scheme")]
		if rapid.IntRange(0, 5).Draw(t, "sd") == 0 {
			c.StartDown = int64(rapid.IntRange(1, 3000).Draw(t, "startdown"))
		}
		for k := rapid.IntRange(0, 5).Draw(t, "conns"); k > 0; k-- {
			cc := Conn{Wait: []int64{0, 0, 1, 50}[rapid.IntRange(0, 3).Draw(t, "wait")], PerItem: []int64{0, 0, 0, 3}[rapid.IntRange(0, 3).Draw(t, "per")], SubID: []int{0, 0, 1, 300}[rapid.IntRange(0, 3).Draw(t, "sub")]}
			switch rapid.IntRange(0, 9).Draw(t, "ck") {
			case 0:
				cc.BadHandshake = true
			case 1:
				cc.Drop = true
			case 2:
				cc.Refuse = rapid.IntRange(1, 2).Draw(t, "refuse")
			case 3:
				cc.Noise = true
			case 4, 5:
				cc.CutAfter = rapid.IntRange(1, 6).Draw(t, "cutafter")
			}
			cc.Bulk = rapid.Bool().Draw(t, "bulk")
			c.Conns = append(c.Conns, cc)
		}
		next := 0
		var open [][2]int
		gap := func() int64 { return []int64{0, 0, 1, 5, 30, 2500}[rapid.IntRange(0, 5).Draw(t, "gap")] }
		for k := rapid.IntRange(1, 40).Draw(t, "events"); k > 0; k-- {
			ev := CEv{Gap: gap()}
			switch rapid.IntRange(0, 12).Draw(t, "k") {
			case 0, 1, 2, 3, 4:
				if next == len(c.Blocks) {
					continue
				}
				ev.Kind, ev.A = cAdd, next
				if n := len(c.Blocks[next].Subs); n > 0 {
					ev.Early, ev.B = rapid.IntRange(0, 4).Draw(t, "early") == 0, rapid.IntRange(0, n-1).Draw(t, "earlysub")
					if ev.Early {
						ev.More = rapid.IntRange(0, n-1).Draw(t, "earlymore")
					}
					for i := range c.Blocks[next].Subs {
						open = append(open, [2]int{next, i})
					}
				}
				next++
			case 5, 6, 7, 8:
				if len(open) == 0 {
					continue
				}
				ev.Kind = cSub
				i := rapid.IntRange(0, len(open)-1).Draw(t, "open")
				ev.A, ev.B = open[i][0], open[i][1]
				open = append(open[:i], open[i+1:]...)
			case 9, 10:
				ev.Kind, ev.Mode = cCut, rapid.IntRange(0, 2).Draw(t, "mode")
				ev.Down = []int64{0, 0, 1, 1500}[rapid.IntRange(0, 3).Draw(t, "down")]
			case 11:
				ev.Kind, ev.Mode = cNoise, rapid.IntRange(0, 15).Draw(t, "noise")
			case 12:
				if next == 0 {
					continue
				}
				ev.Kind, ev.A = cRepeat, rapid.IntRange(0, next-1).Draw(t, "rep")
			}
			c.Events = append(c.Events, ev)
		}
		c.FinalCut = rapid.Bool().Draw(t, "finalcut")
		c.Finish = rapid.Bool().Draw(t, "finish")
		c.CloseDown = rapid.IntRange(0, 3).Draw(t, "closedown") == 0
		if rapid.IntRange(0, 3).Draw(t, "closedial") == 0 {
			c.CloseDial = int64(rapid.IntRange(1, 3000).Draw(t, "dialtime"))
		}
		c.CloseAt = []int64{0, 0, 500, 1000, 1500}[rapid.IntRange(0, 4).Draw(t, "closeat")]
		c.Bulk = rapid.Bool().Draw(t, "lastbulk")
		c.Signal = rapid.IntRange(0, 5).Draw(t, "signal") == 0
		if c.Signal {
			c.Pre, c.Fresh, c.Rush = rapid.IntRange(0, 3).Draw(t, "pre"), rapid.IntRange(0, 3).Draw(t, "fresh"), rapid.Bool().Draw(t, "rush")
			c.Chatter = rapid.IntRange(0, 16).Draw(t, "chatter")
		}
		return c
	}, func(t *testing.T, c ConsumerCase) core.Outcome {
		var o core.Outcome
		if err := core.Bubble(t, func() { o = runConsumer(&c) }); err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
