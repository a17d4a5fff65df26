package kafka

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"hash"
	"net/url"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unicode"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// scramServer is the other side of RFC 5802, without channel binding.
type scramServer struct {
	h     func() hash.Hash
	users map[string]string
	salt  []byte
	iter  int
	snon  string
	lie   int // what the server does wrong
	step  int
	first string // client-first-message-bare
	sfirs string
	nonce string
	user  string
	badly string
}

const (
	lieNone  = iota
	lieNonce // its nonce does not start with the client's
	lieSig   // it does not know the password
	lieErr   // it reports an error instead of a signature
	lieEmpty // it sends nothing
)

func (s *scramServer) hi(pw string) []byte {
	m := hmac.New(s.h, []byte(pw))
	m.Write(s.salt)
	m.Write(binary.BigEndian.AppendUint32(nil, 1))
	u := m.Sum(nil)
	out := append([]byte{}, u...)
	for i := 1; i < s.iter; i++ {
		m.Reset()
		m.Write(u)
		u = m.Sum(u[:0])
		for k := range out {
			out[k] ^= u[k]
		}
	}
	return out
}

func (s *scramServer) mac(k []byte, m string) []byte {
	h := hmac.New(s.h, k)
	h.Write([]byte(m))
	return h.Sum(nil)
}

func (s *scramServer) bad(f string, v ...any) error {
	s.badly = fmt.Sprintf(f, v...)
	return errors.New(s.badly)
}

var errCred = errors.New("wrong user or password")

// answer takes a client message.
func (s *scramServer) answer(in string) (string, bool, error) {
	s.step++
	switch s.step {
	case 1:
		if !strings.HasPrefix(in, "n,,") {
			return "", false, s.bad("the first message is %q", in)
		}
		s.first = in[3:]
		f := strings.Split(s.first, ",")
		if len(f) != 2 || !strings.HasPrefix(f[0], "n=") || !strings.HasPrefix(f[1], "r=") || len(f[1]) < 10 {
			return "", false, s.bad("the first message is %q", in)
		}
		s.user = strings.NewReplacer("=2C", ",", "=3D", "=").Replace(f[0][2:])
		s.nonce = f[1][2:] + s.snon
		if s.lie == lieNonce {
			s.nonce = "x" + s.nonce
		}
		s.sfirs = fmt.Sprintf("r=%s,s=%s,i=%d", s.nonce, base64.StdEncoding.EncodeToString(s.salt), s.iter)
		return s.sfirs, false, nil
	case 2:
		i := strings.LastIndex(in, ",p=")
		if i < 0 || in[:i] != "c=biws,r="+s.nonce {
			return "", false, s.bad("the final message is %q", in)
		}
		proof, err := base64.StdEncoding.DecodeString(in[i+3:])
		if err != nil {
			return "", false, s.bad("the final message is %q: %v", in, err)
		}
		pw, ok := s.users[s.user]
		salted := s.hi(pw)
		ck := s.mac(salted, "Client Key")
		h := s.h()
		h.Write(ck)
		stored := h.Sum(nil)
		auth := s.first + "," + s.sfirs + "," + in[:i]
		sig := s.mac(stored, auth)
		if len(sig) != len(proof) {
			return "", false, s.bad("the proof has %d bytes", len(proof))
		}
		for k := range sig {
			sig[k] ^= proof[k]
		}
		if s.lie != lieSig && (!ok || !hmac.Equal(sig, ck)) {
			return "e=invalid-proof", false, errCred
		}
		v := s.mac(s.mac(salted, "Server Key"), auth)
		switch s.lie {
		case lieSig:
			v[0] ^= 1
		case lieErr:
			return "e=other-error", true, nil
		case lieEmpty:
			return "", true, nil
		}
		return "v=" + base64.StdEncoding.EncodeToString(v), true, nil
	}
	return "", false, s.bad("a message too many: %q", in)
}

// AuthCase is an authentication.
type AuthCase struct {
	Mech   int // 0: SCRAM-SHA-256, 1: SCRAM-SHA-512, 2: none
	Server int // what the server offers
	User   string
	Pass   string
	Typed  string // password given, if different
	As     string // user given, if different
	Salt   []byte
	Iter   int
	Lie    int
	Whole  bool // a producer over a cluster
	Others map[string]string
	Order  []int   // whose turn it is, of several exchanges
	Delays []int64 // ms before the server's answers
}

var mechs = []string{"SCRAM-SHA-256", "SCRAM-SHA-512", "PLAIN"}
var hashes = []func() hash.Hash{sha256.New, sha512.New}

func (c *AuthCase) typed() (user, pass string) {
	user, pass = c.User, c.Pass
	if c.Typed != "" {
		pass = c.Typed
	}
	if c.As != "" {
		user = c.As
	}
	return
}

func (c *AuthCase) knows(user, pass string) bool {
	return user == c.User && pass == c.Pass || c.Others[user] == pass && c.Others[user] != ""
}

func (c *AuthCase) server() *scramServer {
	users := map[string]string{}
	for k, v := range c.Others {
		users[k] = v
	}
	users[c.User] = c.Pass
	return &scramServer{h: hashes[c.Server%2], users: users, salt: c.Salt, iter: c.Iter, snon: "s%!~", lie: c.Lie}
}

func (c *AuthCase) url(hosts string) string {
	u, p := c.typed()
	s := "kafka://" + url.UserPassword(u, p).String() + "@" + hosts + "?compression.codec=none"
	if c.Mech < 2 {
		s += "&sasl.mechanism=" + mechs[c.Mech]
	}
	return s
}

// exchange is the messages of one connection.
type exchange struct {
	c      *AuthCase
	client sarama.SCRAMClient
	s      *scramServer
	msg    string
	out    string
	done   bool
	n      int
	err    error // of the client
	serr   error // of the server
	over   bool
}

// step is the client's next message, and the server's answer.
func (x *exchange) step() error {
	u, p := x.c.typed()
	if x.n == 0 {
		if err := x.client.Begin(u, p, ""); err != nil {
			return fmt.Errorf("Begin: %v", err)
		}
		var err error
		if x.msg, err = x.client.Step(""); err != nil {
			return fmt.Errorf("the first step: %v", err)
		}
	}
	x.n++
	if x.n > 5 || x.client.Done() {
		x.over = true
		return nil
	}
	x.out, x.done, x.serr = x.s.answer(x.msg)
	if x.s.badly != "" {
		return fmt.Errorf("user %q, password %q: %s", u, p, x.s.badly)
	}
	x.msg, x.err = x.client.Step(x.out)
	x.over = x.err != nil || x.serr != nil
	return nil
}

func (x *exchange) verdict() error {
	u, p := x.c.typed()
	good := x.c.knows(u, p) && x.c.Lie == lieNone
	switch {
	case good && x.err != nil:
		return fmt.Errorf("user %q, password %q: the client reports %v", u, p, x.err)
	case good && (!x.done || !x.client.Done() || x.serr != nil):
		return fmt.Errorf("user %q, password %q: the exchange does not succeed: %v", u, p, x.serr)
	case !good && x.err == nil:
		return fmt.Errorf("the client accepts the server's %q (lie %d, password known: %v)", x.out, x.c.Lie, x.c.knows(u, p))
	}
	return nil
}

// direct is the exchange of messages alone, on several connections whose
// messages are interleaved, one after another or at once.
func (c *AuthCase) direct() core.Outcome {
	_, cfg := transports.ParseKafkaURL(c.url("h:1"))
	n := 2 + len(c.Delays)
	var xs []*exchange
	for i := 0; i < n; i++ {
		s := c.server()
		s.h = hashes[c.Mech]
		xs = append(xs, &exchange{c: c, client: cfg.Net.SASL.SCRAMClientGeneratorFunc(), s: s})
	}
	for _, k := range c.Order {
		if x := xs[k%n]; !x.over {
			if err := x.step(); err != nil {
				return core.Outcome{Err: err}
			}
		}
	}
	nonces := map[string]bool{}
	for i, x := range xs {
		for !x.over {
			if err := x.step(); err != nil {
				return core.Outcome{Err: err}
			}
		}
		if err := x.verdict(); err != nil {
			return core.Fail("connection %d of %d: %v", i+1, n, err)
		}
		if x.s.nonce != "" && nonces[x.s.nonce] {
			return core.Fail("two of %d connections use one nonce, %q", n, x.s.nonce)
		}
		nonces[x.s.nonce] = true
	}
	return core.Outcome{NonTrivial: true, Tags: []string{"direct"}}
}

// whole is a producer that publishes a block if it is let in.
func (c *AuthCase) whole() (o core.Outcome) {
	w := newWorld(2 + len(c.Delays)%3)
	fc := w.clusters[0]
	var bad []string
	var mu sync.Mutex
	answers := 0
	delay := func() {
		if len(c.Delays) > 0 {
			mu.Lock()
			d := c.Delays[answers%len(c.Delays)]
			answers++
			mu.Unlock()
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
	}
	fc.Auth = func(mech string) (func([]byte) ([]byte, bool, error), error) {
		if mech != mechs[c.Server] {
			return nil, errors.New("not supported")
		}
		if mech == "PLAIN" {
			return func(in []byte) ([]byte, bool, error) {
				delay()
				f := bytes.Split(in, []byte{0})
				if len(f) != 3 || len(f[0]) > 0 || !c.knows(string(f[1]), string(f[2])) {
					return nil, false, errCred
				}
				return nil, true, nil
			}, nil
		}
		s := c.server()
		return func(in []byte) ([]byte, bool, error) {
			delay()
			out, done, err := s.answer(string(in))
			if s.badly != "" {
				mu.Lock()
				bad = append(bad, s.badly)
				mu.Unlock()
			}
			return []byte(out), done, err
		}, nil
	}
	b := gen.Block{ID: 1, Num: 1, Weight: []byte{1}}
	p, err := within("starting a producer", func() (transports.Producer, error) {
		var hosts []string
		for i := 0; i < 2+len(c.Delays)%3; i++ {
			hosts = append(hosts, fc.Addr(i+1))
		}
		return transports.ResolveProducerWithResumer(c.url(strings.Join(hosts, ",")), "default", map[string]string{}, nil)
	})
	if err == nil {
		num, hash, parent, weight, up, del, subs := b.Args(0)
		err = p.AddBlock(num, hash, parent, weight, up, del, subs)
		time.Sleep(time.Minute)
		synctest.Wait()
	}
	n := 0
	for _, l := range logs(fc) {
		if len(l.rec.Key) > 0 && l.rec.Key[0] == 0 {
			n++
		}
	}
	u, pw := c.typed()
	good := c.Mech == c.Server && c.knows(u, pw) && (c.Lie == lieNone || c.Mech == 2)
	switch {
	case len(bad) > 0:
		return core.Fail("user %q, password %q: %v", u, pw, bad)
	case good && (err != nil || n != 1 || fc.Authed == 0):
		return core.Fail("user %q, password %q, %s: %d blocks arrive, error: %v", u, pw, mechs[c.Mech], n, err)
	case !good && (err == nil || n > 0):
		return core.Fail("%d blocks arrive, error: %v, though the server should not be trusted or does not trust the client (mechanisms %d and %d, lie %d)", n, err, c.Mech, c.Server, c.Lie)
	}
	tag := "let-in"
	if !good {
		tag = "kept-out"
	}
	return core.Outcome{NonTrivial: true, Tags: []string{tag}}
}

func TestC20(t *testing.T) {
	core.Run(t, "C20", func(t *rapid.T) AuthCase {
		text := rapid.StringOfN(rapid.OneOf(rapid.RuneFrom([]rune("ab,=3D2C@:/?#%&+\"'\\ ")), rapid.RuneFrom([]rune("éüßжß漢z")), rapid.RuneFrom(nil, asciiGraphic)), 1, 10, -1)
		word := func(l string) string {
			s := strings.TrimSpace(text.Draw(t, l))
			if s == "" {
				s = "x"
			}
			return s
		}
		c := AuthCase{Mech: rapid.IntRange(0, 1).Draw(t, "mech"), User: word("user"), Pass: word("pass"), Others: map[string]string{}}
		for k := rapid.IntRange(0, 2).Draw(t, "others"); k > 0; k-- {
			c.Others[word("o")] = word("op")
		}
		c.Salt = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "salt")
		c.Iter = []int{4096, 4097, 5000}[rapid.IntRange(0, 2).Draw(t, "iter")]
		switch rapid.IntRange(0, 5).Draw(t, "wrong") {
		case 1:
			c.Typed = word("typed")
		case 2:
			c.As = word("as")
		case 3, 4:
			c.Lie = rapid.IntRange(1, 4).Draw(t, "lie")
		case 5:
			c.Typed = c.Pass + "x"
		}
		for k := rapid.IntRange(0, 3).Draw(t, "delays"); k > 0; k-- {
			c.Delays = append(c.Delays, []int64{0, 1, 7, 100}[rapid.IntRange(0, 3).Draw(t, "delay")])
		}
		c.Order = rapid.SliceOfN(rapid.IntRange(0, 4), 0, 10).Draw(t, "order")
		c.Whole = rapid.Bool().Draw(t, "whole")
		c.Server = c.Mech
		if c.Whole {
			c.Mech = rapid.IntRange(0, 2).Draw(t, "mech2")
			c.Server = c.Mech
			if rapid.IntRange(0, 4).Draw(t, "other") == 0 {
				c.Server = rapid.IntRange(0, 2).Draw(t, "server")
			}
		}
		return c
	}, func(t *testing.T, c AuthCase) core.Outcome {
		if !c.Whole {
			return c.direct()
		}
		var o core.Outcome
		if err := core.Bubble(t, func() { o = c.whole() }); err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}

var asciiGraphic = &unicode.RangeTable{R16: []unicode.Range16{{Lo: '!', Hi: '~', Stride: 1}}, LatinOffset: 1}
