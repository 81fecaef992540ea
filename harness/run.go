package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"time"
)

// Trace is one behaviour of the specification to be replayed, or one scenario
// to be recorded.
type Trace struct {
	ID    string          `json:"id"`
	Mod   string          `json:"mod"`
	Cfg   json.RawMessage `json:"cfg,omitempty"`
	Steps json.RawMessage `json:"steps"`
}

// Result of a trace.
type Result struct {
	ID       string          `json:"id"`
	OK       bool            `json:"ok"`
	Viol     string          `json:"viol,omitempty"` // what the code did wrong
	Step     int             `json:"step"`
	Expected interface{}     `json:"expected,omitempty"`
	Observed interface{}     `json:"observed,omitempty"`
	Err      string          `json:"err,omitempty"` // harness problem, not a verdict
	Flaky    bool            `json:"flaky,omitempty"`
	Env      string          `json:"env,omitempty"`
	Rec      json.RawMessage `json:"rec,omitempty"` // recorded execution
	Steps    int             `json:"nsteps"`
}

// Opts are the timing options of a run.
type Opts struct {
	Seed   int64
	Wait   time.Duration // how long an expected state may take to appear
	Settle time.Duration // how long nothing may happen before it is believed that nothing will
	Slow   bool
}

type runner func(tr Trace, o Opts, r *Result)

var runners = map[string]runner{}

// violation is used with panic to end a run.
type violation struct {
	msg      string
	expected interface{}
	observed interface{}
}

func fail(exp, obs interface{}, f string, a ...interface{}) {
	panic(violation{fmt.Sprintf(f, a...), exp, obs})
}

type harnessErr struct{ msg string }

func broken(f string, a ...interface{}) { panic(harnessErr{fmt.Sprintf(f, a...)}) }

func runOne(tr Trace, o Opts) (r Result) {
	r.ID = tr.ID
	r.OK = true
	done := make(chan Result, 1)
	go func() {
		res := Result{ID: tr.ID, OK: true}
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case violation:
					res.OK = false
					res.Viol, res.Expected, res.Observed = x.msg, x.expected, x.observed
				case harnessErr:
					res.OK = false
					res.Err = x.msg
				default:
					buf := make([]byte, 8192)
					n := runtime.Stack(buf, false)
					res.OK = false
					msg := fmt.Sprintf("panic: %v\n%s", e, buf[:n])
					// A panic in the calling goroutine is a panic of the code under
					// test or of the harness: decide by the stack.
					if panicInRepo(string(buf[:n])) {
						res.Viol = msg
					} else {
						res.Err = msg
					}
				}
			}
			done <- res
		}()
		run, ok := runners[tr.Mod]
		if !ok {
			broken("no runner for module %q", tr.Mod)
		}
		run(tr, o, &res)
	}()
	select {
	case r = <-done:
	case <-time.After(10*o.Wait + 2*time.Minute):
		r = Result{ID: tr.ID, OK: false, Err: "watchdog: trace did not finish"}
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		os.Stderr.Write(buf[:n])
	}
	return r
}

// panicInRepo says whether the innermost frame below the panic, of those in the
// harness or the code under test, is in the code under test.
func panicInRepo(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.HasPrefix(l, "github.com/filecoin-project/storetheindex/") {
			return true
		}
	}
	return false
}

func rngFor(seed int64, id string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", seed, id)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}
