package kafka

import (
	"fmt"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// URLCase is a Kafka URL in parts.
type URLCase struct {
	Scheme   bool
	Hosts    []string
	User     string
	Pass     string
	HasPass  bool
	Slash    bool
	Params   [][2]string
	Encoding int
}

func (c *URLCase) text() string {
	s := ""
	if c.Scheme {
		s = "kafka://"
	}
	if c.User != "" {
		u := url.User(c.User)
		if c.HasPass {
			u = url.UserPassword(c.User, c.Pass)
		}
		s += u.String() + "@"
	}
	s += strings.Join(c.Hosts, ",")
	if c.Slash {
		s += "/"
	}
	for i, p := range c.Params {
		s += string("?&"[min(i, 1)])
		switch c.Encoding {
		case 1: // everything escaped
			for _, b := range []byte(p[0]) {
				s += fmt.Sprintf("%%%02X", b)
			}
			s += "="
			for _, b := range []byte(p[1]) {
				s += fmt.Sprintf("%%%02x", b)
			}
		default:
			s += url.QueryEscape(p[0]) + "=" + url.QueryEscape(p[1])
		}
	}
	return s
}

// expected is what the options of a URL mean.
func (c *URLCase) expected() *sarama.Config {
	cfg := sarama.NewConfig()
	cfg.Version = sarama.V2_5_0_0
	cfg.Producer.Compression = sarama.CompressionSnappy
	cfg.Producer.Retry.Max = 100
	cfg.Producer.RequiredAcks = sarama.WaitForAll
	for _, p := range c.Params {
		n, err := strconv.ParseInt(p[1], 10, 64)
		num := err == nil
		switch p[0] {
		case "tls":
			cfg.Net.TLS.Enable = p[1] == "1"
		case "fetch.default":
			if num {
				cfg.Consumer.Fetch.Default = int32(n)
			}
		case "max.waittime":
			if num {
				cfg.Consumer.MaxWaitTime = time.Duration(n) * time.Millisecond
			}
		case "compression.codec":
			for k, v := range map[string]sarama.CompressionCodec{"none": sarama.CompressionNone, "gzip": sarama.CompressionGZIP, "lz4": sarama.CompressionLZ4, "zstd": sarama.CompressionZSTD} {
				if p[1] == k {
					cfg.Producer.Compression = v
				}
			}
		case "message.send.max.retries":
			if num {
				cfg.Producer.Retry.Max = int(n)
			}
		case "request.required.acks":
			if num {
				cfg.Producer.RequiredAcks = sarama.RequiredAcks(n)
			}
		case "retry.backoff.ms":
			if num {
				cfg.Producer.Retry.Backoff = time.Duration(n) * time.Millisecond
			}
		case "net.maxopenrequests":
			if num {
				cfg.Net.MaxOpenRequests = int(n)
			}
		case "idempotent":
			cfg.Producer.Idempotent = p[1] == "1"
		case "sasl.mechanism":
			switch p[1] {
			case "SCRAM-SHA-256", "SCRAM-SHA-512", "GSSAPI":
				cfg.Net.SASL.Mechanism = sarama.SASLMechanism(p[1])
			}
		}
	}
	if c.User != "" {
		cfg.Net.SASL.Enable = true
		cfg.Net.SASL.User = c.User
		if c.HasPass {
			cfg.Net.SASL.Password = c.Pass
		}
	}
	return cfg
}

// differ names the fields in which two values differ, functions aside.
func differ(path string, a, b reflect.Value) []string {
	switch a.Kind() {
	case reflect.Struct:
		var l []string
		for i := 0; i < a.NumField(); i++ {
			l = append(l, differ(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i))...)
		}
		return l
	case reflect.Func:
		if a.IsNil() != b.IsNil() && !strings.HasSuffix(path, "GeneratorFunc") {
			return []string{path}
		}
		return nil
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.String:
		if !a.Equal(b) {
			return []string{fmt.Sprintf("%s (%v, want %v)", path, a, b)}
		}
	case reflect.Interface, reflect.Ptr, reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return []string{path}
		}
	}
	return nil
}

func (c *URLCase) run() core.Outcome {
	hosts, cfg := transports.ParseKafkaURL(c.text())
	if !reflect.DeepEqual(hosts, c.Hosts) {
		return core.Fail("%s: the brokers are %q, want %q", c.text(), hosts, c.Hosts)
	}
	want := c.expected()
	if l := differ("Config", reflect.ValueOf(*cfg), reflect.ValueOf(*want)); len(l) > 0 {
		return core.Fail("%s: the configuration differs in %v", c.text(), l)
	}
	size := map[sarama.SASLMechanism]int{sarama.SASLTypeSCRAMSHA256: 32, sarama.SASLTypeSCRAMSHA512: 64}[want.Net.SASL.Mechanism]
	if size > 0 {
		g := cfg.Net.SASL.SCRAMClientGeneratorFunc
		if g == nil || g() == g() {
			return core.Fail("%s: there is no SCRAM client for each connection", c.text())
		}
	} else if cfg.Net.SASL.SCRAMClientGeneratorFunc != nil {
		return core.Fail("%s: there is a SCRAM client", c.text())
	}
	known := 0
	for _, p := range c.Params {
		if p[0] != "unknown" {
			known++
		}
	}
	return core.Outcome{NonTrivial: known >= 2}
}

func TestC19(t *testing.T) {
	core.Run(t, "C19", func(t *rapid.T) URLCase {
		c := URLCase{Scheme: rapid.Bool().Draw(t, "scheme"), Slash: rapid.Bool().Draw(t, "slash"), Encoding: rapid.IntRange(0, 1).Draw(t, "enc")}
		k := rapid.IntRange(1, 4).Draw(t, "hosts")
		if rapid.IntRange(0, 7).Draw(t, "manyhosts") == 7 {
			k = rapid.IntRange(5, 40).Draw(t, "hosts2")
		}
		for ; k > 0; k-- {
			c.Hosts = append(c.Hosts, rapid.StringMatching(`[a-z0-9]([a-z0-9.-]{0,12}[a-z0-9])?`).Draw(t, "host")+fmt.Sprintf(":%d", rapid.IntRange(1, 65535).Draw(t, "port")))
		}
		if rapid.IntRange(0, 2).Draw(t, "auth") > 0 {
			c.User = rapid.StringN(1, 8, -1).Draw(t, "user")
			if c.HasPass = rapid.IntRange(0, 3).Draw(t, "haspass") > 0; c.HasPass {
				c.Pass = rapid.StringN(0, 8, -1).Draw(t, "pass")
			}
		}
		ints := []string{"7", "0", "-1", "1", "100", "2147483647", "x", "", "1.5", "1e3", " 4", "0x10", "99999999999999999999"}
		for _, o := range []struct {
			name string
			vals []string
		}{
			{"tls", []string{"1", "0", "true", ""}}, {"fetch.default", ints}, {"max.waittime", ints},
			{"compression.codec", []string{"none", "gzip", "lz4", "zstd", "snappy", "", "brotli", "GZIP"}},
			{"message.send.max.retries", ints}, {"request.required.acks", []string{"-1", "0", "1", "all", ""}},
			{"retry.backoff.ms", ints}, {"net.maxopenrequests", ints}, {"idempotent", []string{"1", "0", "true", ""}},
			{"sasl.mechanism", []string{"SCRAM-SHA-256", "SCRAM-SHA-512", "GSSAPI", "PLAIN", "", "scram-sha-256"}}, {"unknown", []string{"1", "a&b=c"}},
		} {
			if rapid.Bool().Draw(t, o.name) {
				c.Params = append(c.Params, [2]string{o.name, o.vals[rapid.IntRange(0, len(o.vals)-1).Draw(t, "v")]})
			}
		}
		c.Params = rapid.Permutation(c.Params).Draw(t, "order")
		return c
	}, func(t *testing.T, c URLCase) core.Outcome { return c.run() })
}

// TopicOp is a request for a topic, or a producer that starts and needs some.
type TopicOp struct {
	Topic    int // 0: none
	N        int32
	Config   map[string]string
	NilCfg   bool
	Producer bool
	Fams     []int
	Together bool // with the one before
	Dead     int  // unreachable addresses before the brokers'
	Brokers  int  // how many of the brokers' addresses it knows
	First    int
	Refuse   int // error the cluster gives
}

// TopicCase is a history of requests for topics.
type TopicCase struct {
	Brokers int
	Ops     []TopicOp
	Existed []int
	Slow    int64 // ms it takes to create a topic
}

var refusals = []sarama.KError{sarama.ErrNoError, sarama.ErrPolicyViolation, sarama.ErrTopicAuthorizationFailed, sarama.ErrClusterAuthorizationFailed, sarama.ErrInvalidReplicationFactor}

func topicName(i int) string {
	if i == 0 {
		return ""
	}
	return fmt.Sprintf("topic-%d", i)
}

func runTopics(c *TopicCase) (o core.Outcome) {
	w := newWorld(c.Brokers)
	fc := w.clusters[0]
	if c.Slow > 0 {
		w.faults = []Fault{{API: "CreateTopicsRequest", N: -1, Kind: 3, Delay: c.Slow}}
	}
	parts := map[string]int{}
	for _, i := range c.Existed {
		if i > 0 {
			fc.Create(topicName(i), spread(i, c.Brokers, 0))
			parts[topicName(i)] = i
		}
	}
	created, refused, together, errs := 0, 0, 0, make([]error, len(c.Ops))
	for i := 0; i < len(c.Ops); {
		j := i + 1
		for j < len(c.Ops) && c.Ops[j].Together {
			j++
		}
		refuse := refusals[c.Ops[i].Refuse]
		fc.CreateErr = refuse
		before := len(fc.Creates)
		// What is asked for, by topic.
		want := map[string][]*TopicOp{}
		add := func(name string, op *TopicOp) { want[name] = append(want[name], op) }
		var wg sync.WaitGroup
		for k := i; k < j; k++ {
			op := &c.Ops[k]
			var l []string
			for d := 0; d < op.Dead; d++ {
				l = append(l, fmt.Sprintf("z%d:9092", d))
			}
			for b := 0; b < min(op.Brokers, c.Brokers); b++ {
				l = append(l, fc.Addr((op.First+b)%c.Brokers+1))
			}
			u := "kafka://" + strings.Join(l, ",") + "?compression.codec=none"
			var call func() error
			if op.Producer {
				schema := gen.Schema(op.Fams)
				add("default", &TopicOp{N: -1})
				for _, t := range schema {
					add(t, &TopicOp{N: -1})
				}
				call = func() error {
					_, err := transports.ResolveProducerWithResumer(u, "default", schema, nil)
					return err
				}
			} else {
				add(topicName(op.Topic), op)
				cfg := map[string]*string{}
				for k, v := range op.Config {
					cfg[k] = &v
				}
				if op.NilCfg {
					cfg = nil
				}
				call = func() error {
					return transports.CreateTopicIfDoesNotExist(u, topicName(op.Topic), op.N, cfg)
				}
			}
			time.Sleep(time.Millisecond)
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[k] = call()
			}()
		}
		if _, err := within("creating topics", func() (int, error) { wg.Wait(); return 0, nil }); err != nil {
			return core.Outcome{Err: err}
		}
		synctest.Wait()
		if j > i+1 {
			together++
		}
		missing := false
		for t := range want {
			missing = missing || t != "" && parts[t] == 0
		}
		for k := i; k < j; k++ {
			op := &c.Ops[k]
			switch fail := !op.Producer && op.Topic == 0; {
			case fail && errs[k] == nil:
				return core.Fail("a topic without a name is no error")
			case fail:
			case refuse == sarama.ErrNoError && errs[k] != nil:
				return core.Fail("step %d (topic %q, producer %v): %v", k, topicName(op.Topic), op.Producer, errs[k])
			case refuse != sarama.ErrNoError && !op.Producer && parts[topicName(op.Topic)] == 0:
				if errs[k] == nil {
					return core.Fail("step %d: the cluster refused to create topic %q (%v), but there is no error", k, topicName(op.Topic), refuse)
				}
				if !strings.Contains(errs[k].Error(), refuse.Error()) {
					return core.Fail("step %d: the cluster refused with %q, but the error is %q", k, refuse, errs[k])
				}
				refused++
			case refuse != sarama.ErrNoError && op.Producer:
				lacks := parts["default"] == 0
				for _, t := range gen.Schema(op.Fams) {
					lacks = lacks || parts[t] == 0
				}
				if lacks != (errs[k] != nil) {
					return core.Fail("step %d: starting a producer while topics are refused (and missing: %v) gives %v", k, lacks, errs[k])
				}
			case refuse != sarama.ErrNoError && errs[k] != nil:
				return core.Fail("step %d: topic %q exists, but %v", k, topicName(op.Topic), errs[k])
			}
		}
		seen := map[string]int{}
		for _, cr := range fc.Creates[before:] {
			ops := want[cr.Topic]
			if len(ops) == 0 {
				return core.Fail("topic %q was created, but nobody asked for it", cr.Topic)
			}
			if parts[cr.Topic] > 0 {
				return core.Fail("topic %q existed already, but was created", cr.Topic)
			}
			if cr.Broker != 1 {
				return core.Fail("broker %d was asked to create topic %q; the controller is 1", cr.Broker, cr.Topic)
			}
			ok := false
			var exp string
			for _, op := range ops {
				n := op.N
				if n <= 0 {
					n = int32(2 * c.Brokers)
				}
				cfg := map[string]string{}
				if !op.NilCfg {
					for k, v := range op.Config {
						cfg[k] = v
					}
				}
				cfg["max.message.bytes"] = "10000024"
				ok = ok || cr.Partitions == n && int(cr.Replication) == min(3, c.Brokers) && reflect.DeepEqual(cr.Config, cfg)
				exp = fmt.Sprintf("%d partitions, %d replicas, %v", n, min(3, c.Brokers), cfg)
			}
			if !ok {
				return core.Fail("topic %q was created with %d partitions, %d replicas, %v; want %s", cr.Topic, cr.Partitions, cr.Replication, cr.Config, exp)
			}
			seen[cr.Topic]++
		}
		for t, ops := range want {
			if t == "" {
				continue
			}
			if seen[t] > len(ops) {
				return core.Fail("topic %q was created %d times", t, seen[t])
			}
			n := fc.Partitions(t)
			if refuse == sarama.ErrNoError {
				if n == 0 {
					return core.Fail("topic %q does not exist", t)
				}
				if parts[t] > 0 && n != parts[t] {
					return core.Fail("topic %q had %d partitions, and has %d", t, parts[t], n)
				}
				if parts[t] == 0 {
					created++
				}
				parts[t] = n
			} else if n != parts[t] {
				return core.Fail("topic %q had %d partitions, and has %d, though the cluster refused", t, parts[t], n)
			}
		}
		if missing && refuse == sarama.ErrNoError {
			o.NonTrivial = true
		}
		i = j
	}
	if len(fc.BadReqs) > 0 {
		return core.Fail("the cluster did not understand a request: %v", fc.BadReqs)
	}
	for k, n := range map[string]int{"created": created, "refused": refused, "together": together} {
		if n > 0 {
			o.Tags = append(o.Tags, k)
		}
	}
	return o
}

func TestC21(t *testing.T) {
	core.Run(t, "C21", func(t *rapid.T) TopicCase {
		c := TopicCase{Brokers: rapid.IntRange(1, 5).Draw(t, "brokers")}
		c.Slow = []int64{50, 0}[rapid.IntRange(0, 1).Draw(t, "slow")]
		for k := rapid.IntRange(0, 2).Draw(t, "existed"); k > 0; k-- {
			c.Existed = append(c.Existed, rapid.IntRange(0, 4).Draw(t, "t"))
		}
		for k := rapid.IntRange(1, 6).Draw(t, "ops"); k > 0; k-- {
			op := TopicOp{Topic: rapid.IntRange(0, 4).Draw(t, "topic"), Producer: rapid.IntRange(0, 2).Draw(t, "producer") == 0}
			op.N = []int32{-1, 0, 1, 3, 7}[rapid.IntRange(0, 4).Draw(t, "n")]
			op.NilCfg = rapid.Bool().Draw(t, "nilcfg")
			if rapid.Bool().Draw(t, "cfg") {
				op.Config = map[string]string{"retention.ms": strconv.Itoa(rapid.IntRange(1, 9).Draw(t, "ret"))}
			}
			if op.Producer {
				op.Fams = gen.GenFamilies(t)
				op.Topic = 0
			}
			op.Together = rapid.IntRange(0, 2).Draw(t, "together") == 0
			op.Dead = []int{0, 0, 1, 2}[rapid.IntRange(0, 3).Draw(t, "dead")]
			op.Brokers = rapid.IntRange(1, 5).Draw(t, "known")
			op.First = rapid.IntRange(0, 4).Draw(t, "first")
			if rapid.IntRange(0, 3).Draw(t, "refuses") == 3 {
				op.Refuse = rapid.IntRange(1, len(refusals)-1).Draw(t, "refuse")
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, func(t *testing.T, c TopicCase) core.Outcome {
		var o core.Outcome
		if err := core.Bubble(t, func() { o = runTopics(&c) }); err != nil && o.Err == nil {
			o.Err = err
		}
		return o
	})
}
