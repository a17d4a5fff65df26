// Package wslink connects websocket consumers to websocket producers without a
// network: connections are pipes, and the service of a producer answers at the
// other end.
package wslink

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-rpc"
)

// Host is a websocket server.
type Host struct {
	reg   rpc.Registry
	mu    sync.Mutex
	up    bool
	conns []net.Conn
	Dials int
}

func New(service interface{}) *Host {
	h := &Host{reg: rpc.NewRegistry(4), up: true}
	h.reg.Register("cardinal", service)
	return h
}

// Hook makes the hosts reachable by the name before the port.
func Hook(hosts map[string]*Host) {
	websocket.DefaultDialer.NetDial = func(network, addr string) (net.Conn, error) {
		name, _, _ := strings.Cut(addr, ":")
		if h := hosts[name]; h != nil {
			return h.dial()
		}
		return nil, fmt.Errorf("no such host %s", addr)
	}
}

func (h *Host) SetUp(up bool) {
	h.mu.Lock()
	h.up = up
	h.mu.Unlock()
	if !up {
		h.Cut()
	}
}

// Cut ends all connections.
func (h *Host) Cut() {
	h.mu.Lock()
	l := h.conns
	h.conns = nil
	h.mu.Unlock()
	for _, c := range l {
		c.Close()
	}
}

// Open is the number of connections.
func (h *Host) Open() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.conns)
}

func (h *Host) dial() (net.Conn, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.Dials++
	if !h.up {
		return nil, fmt.Errorf("connection refused")
	}
	cl, sv := net.Pipe()
	h.conns = append(h.conns, sv)
	go h.serve(sv)
	return cl, nil
}

// locked makes writers wait on a channel, as the lock in net.Pipe does not let
// virtual time pass.
type locked struct {
	net.Conn
	busy chan struct{}
}

func (l *locked) Write(b []byte) (int, error) {
	l.busy <- struct{}{}
	defer func() { <-l.busy }()
	return l.Conn.Write(b)
}

type hijacked struct {
	conn net.Conn
	brw  *bufio.ReadWriter
	h    http.Header
}

func (h *hijacked) Header() http.Header         { return h.h }
func (h *hijacked) Write(b []byte) (int, error) { return h.conn.Write(b) }
func (h *hijacked) WriteHeader(int)             {}
func (h *hijacked) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return h.conn, h.brw, nil
}

func (h *Host) gone(c net.Conn) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for i := range h.conns {
		if h.conns[i] == c {
			h.conns = append(h.conns[:i:i], h.conns[i+1:]...)
			return
		}
	}
}

func (h *Host) serve(sv net.Conn) {
	defer h.gone(sv)
	defer sv.Close()
	conn := &locked{sv, make(chan struct{}, 1)}
	r := bufio.NewReader(conn)
	req, err := http.ReadRequest(r)
	if err != nil {
		return
	}
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	ws, err := up.Upgrade(&hijacked{conn, bufio.NewReadWriter(r, bufio.NewWriter(conn)), http.Header{}}, req, nil)
	if err != nil {
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	_, data, err := ws.ReadMessage()
	if err != nil {
		return
	}
	var call struct {
		ID     json.RawMessage   `json:"id"`
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	if json.Unmarshal(data, &call) != nil {
		return
	}
	outputs := make(chan interface{}, 64)
	res, rerr, _ := h.reg.Call(ctx, call.Method, call.Params, outputs, -1)
	resp := map[string]interface{}{"jsonrpc": "2.0", "id": call.ID}
	if rerr != nil {
		resp["error"] = rerr
	} else {
		resp["result"] = res
	}
	d, err := json.Marshal(resp)
	if err != nil || ws.WriteMessage(websocket.TextMessage, d) != nil {
		return
	}
	go func() { // notices the end of the connection
		for {
			if _, _, err := ws.ReadMessage(); err != nil {
				cancel()
				h.reg.Disconnect(ctx)
				return
			}
		}
	}()
	for {
		select {
		case <-ctx.Done():
			return
		case item := <-outputs:
			d, err := json.Marshal(item)
			if err != nil || ws.WriteMessage(websocket.TextMessage, d) != nil {
				return
			}
		}
	}
}
