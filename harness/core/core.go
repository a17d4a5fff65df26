// Package core runs one property: it draws cases with rapid, executes them
// outside rapid's draw phase, counts what was covered, and leaves behind a
// replayable case for every failure.
//
// A property is a pair (generator of a JSON-serialisable case, runner of a
// case). The runner is a pure function of the case and of the code under test.
package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	log "github.com/inconshreveable/log15"
	"pgregory.net/rapid"
)

// Outcome of one case.
type Outcome struct {
	Err        error    // non-nil: the property is violated
	Known      string   // non-empty: the violation is the listed finding with this key
	NonTrivial bool     // by the property's rule
	Tags       []string // classes the case falls into
}

// Fail builds a violating outcome.
func Fail(format string, args ...any) Outcome { return Outcome{Err: fmt.Errorf(format, args...)} }

// Result is what one shard process writes for the driver.
type Result struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Hashes      []uint64       `json:"hashes"`
	Tags        map[string]int `json:"tags"`
	Known       map[string]int `json:"known"`
	Samples     []any          `json:"samples"`
	Failure     *Failure       `json:"failure,omitempty"`
	Batches     int            `json:"batches"`
	Complete    bool           `json:"complete"`
}

// Failure is a shrunk violating case.
type Failure struct {
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error"`
	Shape string          `json:"shape,omitempty"`
}

// Env of a shard process (set by the driver).
type env struct {
	id       string
	out      string // result file
	cur      string // file that holds the case being run
	seed     uint64
	first    int // first batch index
	batches  int
	perBatch int
	budget   time.Duration
	shrink   time.Duration
	replay   string
	isolate  bool
	thorough bool
	hang     time.Duration
	corpus   string
	known    map[string]bool
}

func getenv() env {
	num := func(k string, d int) int {
		if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
			return v
		}
		return d
	}
	s, _ := strconv.ParseUint(os.Getenv("VH_SEED"), 10, 64)
	known := map[string]bool{}
	for _, k := range strings.Split(os.Getenv("VH_KNOWN"), ",") {
		if k != "" {
			known[k] = true
		}
	}
	return env{
		id:       os.Getenv("VH_ID"),
		out:      os.Getenv("VH_OUT"),
		cur:      os.Getenv("VH_CUR"),
		seed:     s,
		first:    num("VH_FIRST", 0),
		batches:  num("VH_BATCHES", 10),
		perBatch: num("VH_PER_BATCH", 100),
		budget:   time.Duration(num("VH_BUDGET_MS", 20000)) * time.Millisecond,
		shrink:   time.Duration(num("VH_SHRINK_MS", 15000)) * time.Millisecond,
		replay:   os.Getenv("VH_REPLAY"),
		isolate:  os.Getenv("VH_ISOLATE") == "1",
		thorough: os.Getenv("VERIF_TIER") == "thorough",
		hang:     time.Duration(num("VH_HANG_MS", 90000)) * time.Millisecond,
		corpus:   os.Getenv("VH_CORPUS"),
		known:    known,
	}
}

// Thorough reports whether this is the thorough tier (generators may widen).
func Thorough() bool { return getenv().thorough }

func mix(a, b, c uint64) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%d/%d", a, b, c)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// fakeTB receives rapid's verdict without touching the real testing.T.
type fakeTB struct {
	failed bool
	msgs   []string
}

type stop struct{}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return "property" }
func (f *fakeTB) Logf(s string, a ...any)   { f.msgs = append(f.msgs, fmt.Sprintf(s, a...)) }
func (f *fakeTB) Log(a ...any)              { f.msgs = append(f.msgs, fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(s string, a ...any)  { panic(stop{}) }
func (f *fakeTB) Skip(a ...any)             { panic(stop{}) }
func (f *fakeTB) SkipNow()                  { panic(stop{}) }
func (f *fakeTB) Errorf(s string, a ...any) { f.failed = true; f.Logf(s, a...) }
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.Log(a...) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.failed = true; f.Logf(s, a...); panic(stop{}) }
func (f *fakeTB) Fatal(a ...any)            { f.failed = true; f.Log(a...); panic(stop{}) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(stop{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

// Run is the body of every property's test function. Gen must make all random
// choices; run must be deterministic given the case.
func Run[C any](t *testing.T, id string, gen func(*rapid.T) C, run func(t *testing.T, c C) Outcome) {
	e := getenv()
	if e.id == "" {
		t.Skip("run by the driver")
	}
	if e.id != id {
		return
	}
	log.Root().SetHandler(log.DiscardHandler())
	debug.SetGCPercent(200)

	var caseStart atomic.Int64
	go func() {
		for {
			time.Sleep(time.Second)
			if s := caseStart.Load(); s != 0 && time.Since(time.Unix(0, s)) > e.hang {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "HANG: a single case did not finish within %v\n%s\n", e.hang, buf[:n])
				os.Exit(7)
			}
		}
	}()

	one := func(c C) (o Outcome) {
		caseStart.Store(time.Now().UnixNano())
		defer caseStart.Store(0)
		defer func() {
			if p := recover(); p != nil {
				o = Outcome{Err: fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack())), NonTrivial: true}
			}
		}()
		o = run(t, c)
		if o.Known != "" && !e.known[o.Known] {
			// a failure with the shape of a finding that is not listed
			if o.Err == nil {
				o.Err = fmt.Errorf("%s", o.Known)
			}
			o.Known = ""
		}
		return o
	}

	if e.replay != "" {
		data, err := os.ReadFile(e.replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			os.Exit(2)
		}
		var f Failure
		raw := json.RawMessage(data)
		if json.Unmarshal(data, &f) == nil && len(f.Case) > 0 {
			raw = f.Case
		}
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			os.Exit(2)
		}
		o := one(c)
		for n, _ := strconv.Atoi(os.Getenv("VH_REPLAY_RUNS")); n > 1 && o.Err == nil && o.Known == ""; n-- {
			o = one(c) // what fails may depend on the schedule
		}
		if o.Known != "" {
			fmt.Fprintln(os.Stderr, "KNOWN", o.Known, o.Err)
			os.Exit(0)
		}
		if o.Err != nil {
			fmt.Fprintln(os.Stderr, "FAIL", o.Err)
			os.Exit(5)
		}
		fmt.Fprintln(os.Stderr, "PASS")
		os.Exit(0)
	}

	res := &Result{Tags: map[string]int{}, Known: map[string]int{}}
	write := func() {
		data, _ := json.Marshal(res)
		tmp := e.out + ".tmp"
		if os.WriteFile(tmp, data, 0o644) == nil {
			os.Rename(tmp, e.out)
		}
	}
	seen := map[uint64]bool{}
	var curf *os.File
	if e.cur != "" {
		curf, _ = os.OpenFile(e.cur, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	}
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", e.shrink.String())
	flag.Set("rapid.checks", strconv.Itoa(e.perBatch))
	deadline := time.Now().Add(e.budget)

	if e.corpus != "" {
		// cases kept from earlier failures, run as they are
		files, _ := filepath.Glob(filepath.Join(e.corpus, "*.json"))
		for _, fn := range files {
			data, err := os.ReadFile(fn)
			var f Failure
			if err == nil {
				err = json.Unmarshal(data, &f)
			}
			var c C
			if err == nil {
				err = json.Unmarshal(f.Case, &c)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, "HARNESS-ERROR: corpus", fn, err)
				os.Exit(2)
			}
			if curf != nil {
				curf.Truncate(0)
				curf.WriteAt([]byte(fmt.Sprintf("{\"batch\":-1,\"case\":%s}", f.Case)), 0)
			}
			var o Outcome
			if e.isolate {
				o = isolated(f.Case, e)
			} else {
				o = one(c)
			}
			res.Evaluations++
			res.Tags["corpus"]++
			if o.Known != "" {
				res.Known[o.Known]++
			} else if o.Err != nil {
				res.Failure = &Failure{Case: f.Case, Error: o.Err.Error(), Shape: fmt.Sprintf("%T (corpus %s)", c, filepath.Base(fn))}
				break
			}
		}
	}

	for b := e.first; b < e.first+e.batches && res.Failure == nil; b++ {
		if time.Now().After(deadline) {
			break
		}
		bs := mix(e.seed, uint64(b), hashBytes([]byte(id)))
		flag.Set("rapid.seed", strconv.FormatUint(bs, 10))
		if curf != nil {
			curf.Truncate(0)
			curf.WriteAt([]byte(fmt.Sprintf("{\"batch\":%d}", b)), 0)
		}
		failing := false
		tb := &fakeTB{}
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(stop); !ok {
						panic(p)
					}
				}
			}()
			rapid.Check(tb, func(rt *rapid.T) {
				c := gen(rt)
				data, err := json.Marshal(c)
				if err != nil {
					panic("case not serialisable: " + err.Error())
				}
				if curf != nil {
					curf.WriteAt(append([]byte(fmt.Sprintf("{\"batch\":%d,\"case\":", b)), append(data, '}')...), 0)
					curf.Truncate(int64(len(data)) + int64(len(fmt.Sprintf("{\"batch\":%d,\"case\":", b))) + 1)
				}
				var o Outcome
				if e.isolate {
					o = isolated(data, e)
				} else {
					o = one(c)
				}
				if !failing {
					res.Evaluations++
					h := hashBytes(data)
					if o.NonTrivial && !seen[h] {
						seen[h] = true
						res.NonTrivial++
						res.Hashes = append(res.Hashes, h)
						if len(res.Samples) < 2 && len(data) < 6000 {
							var s any
							json.Unmarshal(data, &s)
							res.Samples = append(res.Samples, s)
						}
					}
					for _, tag := range o.Tags {
						res.Tags[tag]++
					}
				}
				if o.Known != "" {
					if !failing {
						res.Known[o.Known]++
					}
					return
				}
				if o.Err != nil {
					failing = true
					if res.Failure == nil || len(data) <= len(res.Failure.Case) {
						res.Failure = &Failure{Case: data, Error: o.Err.Error(), Shape: fmt.Sprintf("%T", c)}
					}
					rt.Fatalf("%v", o.Err)
				}
			})
		}()
		if tb.failed && res.Failure == nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", strings.Join(tb.msgs, "\n"))
			os.Exit(2)
		}
		res.Batches++
		if b%8 == 7 {
			write()
		}
	}
	res.Complete = true
	write()
	os.Exit(0)
}

// isolated runs one case in a process of its own, for cases that may take the
// whole process down.
func isolated(data []byte, e env) Outcome {
	f, err := os.CreateTemp(filepath.Dir(e.out), "iso-*.json")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	f.Write(data)
	f.Close()
	cmd := exec.Command(os.Args[0], "-test.run", "^Test"+e.id+"$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VH_REPLAY="+f.Name(), "VH_ISOLATE=0")
	out, err := cmd.CombinedOutput()
	if err == nil {
		return Outcome{NonTrivial: true}
	}
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 2 && !strings.Contains(string(out), "goroutine ") {
		panic("isolated run: " + string(out))
	}
	s := string(out)
	if len(s) > 4000 {
		s = s[:4000]
	}
	return Outcome{Err: fmt.Errorf("process died: %v\n%s", err, s), NonTrivial: true}
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

// Bubble runs f under virtual time. Goroutines the code under test leaves
// behind do not fail the case; a panic in f does.
func Bubble(t *testing.T, f func()) (err error) {
	var inner any
	var stack []byte
	done := false
	func() {
		defer func() {
			if p := recover(); p != nil {
				s := fmt.Sprint(p)
				if done && strings.Contains(s, "blocked goroutines remain") {
					return // leftovers; time has stopped for them
				}
				err = fmt.Errorf("bubble: %v", s)
			}
		}()
		synctest.Test(t, func(*testing.T) {
			defer func() {
				if p := recover(); p != nil {
					inner = p
					stack = debug.Stack()
				}
				done = true
			}()
			f()
		})
	}()
	if inner != nil {
		return fmt.Errorf("panic: %v\n%s", inner, trimStack(stack))
	}
	return err
}
