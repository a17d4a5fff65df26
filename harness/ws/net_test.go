package ws

import (
	"encoding/json"
	"fmt"
	"net"
	"time"

	"github.com/gorilla/websocket"
	rpc "github.com/openrelayxyz/cardinal-rpc"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types/hexutil"

	"verif/harness/core"
	"verif/harness/gen"
)

// netRuns bounds the cases of this process that use the network, as the
// producer never stops listening.
var netRuns int

// runNet has a producer that listens on a port of the loopback network, and
// clients that connect to it there.
func runNet(c *ProducerCase) (o core.Outcome) {
	st := &store{style: c.Style, buffer: c.Buffer}
	half := len(c.Blocks) / 2
	for i := 0; i < half; i++ {
		st.commit(&c.Blocks[i])
	}
	var conns [2]*websocket.Conn
	var p transports.Producer
	var err error
	// the port may be taken by someone else meanwhile
	for try := 0; try < 4 && conns[0] == nil; try++ {
		l, e := net.Listen("tcp", "127.0.0.1:0")
		if e != nil {
			panic(e)
		}
		addr := l.Addr().String()
		l.Close()
		_, port, _ := net.SplitHostPort(addr)
		if p, err = transports.NewWebsocketProducer("ws://localhost:"+port, st); err != nil {
			return core.Fail("no producer on port %s: %v", port, err)
		}
		for k := 0; k < 50 && conns[0] == nil; k++ {
			conns[0], _, err = (&websocket.Dialer{HandshakeTimeout: 10 * time.Second}).Dial("ws://"+addr+"/", nil)
			if err != nil {
				time.Sleep(100 * time.Millisecond)
			}
		}
		if conns[0] != nil {
			defer conns[0].Close()
			if conns[1], _, err = (&websocket.Dialer{HandshakeTimeout: 10 * time.Second}).Dial("ws://"+addr+"/", nil); err != nil {
				return core.Fail("a second client: %v", err)
			}
			defer conns[1].Close()
		}
	}
	if conns[0] == nil {
		return core.Fail("nobody answers on the producer's port: %v", err)
	}
	ids := [2]*hexutil.Uint64{}
	// next is the next item of a client's subscription
	next := func(i int) (string, error) {
		for {
			conns[i].SetReadDeadline(time.Now().Add(30 * time.Second))
			_, data, err := conns[i].ReadMessage()
			if err != nil {
				return "", err
			}
			if len(data) == 0 {
				continue
			}
			var n rpc.SubscriptionResponseRaw
			if err := json.Unmarshal(data, &n); err != nil || n.Method != "cardinal_subscribe" || ids[i] == nil || n.Params.ID != *ids[i] {
				return "", fmt.Errorf("unexpected message %s", data)
			}
			var m wireMsg
			if err := json.Unmarshal(n.Params.Result, &m); err != nil {
				return "", fmt.Errorf("unexpected item %s: %v", n.Params.Result, err)
			}
			return m.text(), nil
		}
	}
	var want [2][]string
	subscribe := func(i, from int) error {
		num := int64(0)
		if from > 0 {
			num = c.Blocks[from-1].Num
		}
		call, err := rpc.NewCall("cardinal_subscribe", "streams", hexutil.Uint64(num), gen.Hash(c.Style, from))
		if err != nil {
			return err
		}
		data, _ := json.Marshal(call)
		if err := conns[i].WriteMessage(websocket.TextMessage, data); err != nil {
			return err
		}
		conns[i].SetReadDeadline(time.Now().Add(30 * time.Second))
		_, data, err = conns[i].ReadMessage()
		if err != nil {
			return fmt.Errorf("no answer to the subscription: %v", err)
		}
		var r rpc.Response
		id := ""
		if err := json.Unmarshal(data, &r); err == nil {
			id, _ = r.Result.(string)
		}
		n, err := hexutil.DecodeUint64(id)
		if err != nil {
			return fmt.Errorf("the subscription was answered with %s", data)
		}
		x := hexutil.Uint64(n)
		ids[i] = &x
		for _, b := range st.after(gen.Hash(c.Style, from)) {
			want[i] = append(want[i], fullMsg(b, c.Style).text())
		}
		want[i] = append(want[i], "ready")
		for len(want[i]) > 0 { // the history, before anything is announced
			t, err := next(i)
			if err != nil {
				return fmt.Errorf("in the history: %v", err)
			}
			if t != want[i][0] {
				return fmt.Errorf("the history goes on with %s, want %s", t, want[i][0])
			}
			want[i] = want[i][1:]
		}
		return nil
	}
	for i, from := range []int{0, half} {
		if err := subscribe(i, from); err != nil {
			return core.Fail("client %d, from block %d: %v", i, from, err)
		}
	}
	say := func(t string) {
		for i := range want {
			want[i] = append(want[i], t)
		}
	}
	for k := half; k < len(c.Blocks); k++ {
		b := &c.Blocks[k]
		st.commit(b)
		if err := p.AddBlock(b.Args(c.Style)); err != nil {
			return core.Fail("block rejected: %v", err)
		}
		say(headMsg(b, c.Style).text())
		for i := range b.Subs {
			d, u := b.Subs[i].SubArgs()
			if err := p.SendBatch(gen.SubID(c.Style, b.Subs[i].ID), d, u); err != nil {
				return core.Fail("sub-batch rejected: %v", err)
			}
			say(subMsg(b, i, c.Style).text())
		}
	}
	for i := range want {
		for _, w := range want[i] {
			t, err := next(i)
			if err != nil {
				return core.Fail("client %d, live: %v, want %s", i, err, w)
			}
			if t != w {
				return core.Fail("client %d, live: %s, want %s", i, t, w)
			}
		}
	}
	o.Tags = []string{"network"}
	o.NonTrivial = half > 1 && len(c.Blocks)-half > 1
	return o
}
