// Package vclock stands in for the clock of package time in packages whose
// sources are rewritten to use it (see bin/check). Until Fake is called it is
// the real clock.
package vclock

import (
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	fake   bool
	now    time.Time
	timers = map[*Timer]bool{}
	made   = map[string]int{}
)

// Timer is a time.Timer or time.Ticker of the fake clock.
type Timer struct {
	C      <-chan time.Time
	c      chan time.Time
	when   time.Time
	period time.Duration
	armed  bool
	arms   int
	f      func()
	by     string
	real   *time.Timer
	realT  *time.Ticker
}

// Ticker is the same.
type Ticker = Timer

// Fake switches to a fake clock standing at t, without timers.
func Fake(t time.Time) {
	mu.Lock()
	defer mu.Unlock()
	fake = true
	now = t
	timers = map[*Timer]bool{}
}

// Faked says whether the clock is fake.
func Faked() bool {
	mu.Lock()
	defer mu.Unlock()
	return fake
}

func Now() time.Time {
	mu.Lock()
	defer mu.Unlock()
	if !fake {
		return time.Now()
	}
	return now
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func newTimer(d, period time.Duration, f func()) *Timer {
	by := maker()
	mu.Lock()
	defer mu.Unlock()
	made[by]++
	t := &Timer{c: make(chan time.Time, 1), period: period, f: f, by: by}
	t.C = t.c
	if !fake {
		switch {
		case f != nil:
			t.real = time.AfterFunc(d, f)
		case period > 0:
			t.realT = time.NewTicker(d)
			t.C = t.realT.C
		default:
			t.real = time.NewTimer(d)
			t.C = t.real.C
		}
		return t
	}
	t.when, t.armed, t.arms = now.Add(d), true, 1
	timers[t] = true
	return t
}

func NewTimer(d time.Duration) *Timer            { return newTimer(d, 0, nil) }
func NewTicker(d time.Duration) *Timer           { return newTimer(d, d, nil) }
func AfterFunc(d time.Duration, f func()) *Timer { return newTimer(d, 0, f) }
func After(d time.Duration) <-chan time.Time     { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time      { return NewTicker(d).C }
func Sleep(d time.Duration)                      { <-NewTimer(d).C }

func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	if t.realT != nil {
		t.realT.Reset(d)
		return true
	}
	mu.Lock()
	defer mu.Unlock()
	was := t.armed
	t.when, t.armed = now.Add(d), true
	t.arms++
	if t.period > 0 {
		t.period = d
	}
	return was
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	if t.realT != nil {
		t.realT.Stop()
		return true
	}
	mu.Lock()
	defer mu.Unlock()
	was := t.armed
	t.armed = false
	t.arms++
	delete(timers, t)
	return was
}

// Fired identifies a timer that fired.
type Fired struct {
	t    *Timer
	arms int
}

// Advance moves the fake clock and fires what is due, in order.
func Advance(d time.Duration) []Fired {
	mu.Lock()
	defer mu.Unlock()
	end := now.Add(d)
	var out []Fired
	for {
		var due []*Timer
		for t := range timers {
			if t.armed && !t.when.After(end) {
				due = append(due, t)
			}
		}
		if len(due) == 0 {
			break
		}
		sort.Slice(due, func(i, j int) bool { return due[i].when.Before(due[j].when) })
		t := due[0]
		if t.when.After(now) {
			now = t.when
		}
		out = append(out, Fired{t, t.arms})
		if t.period > 0 {
			t.when = t.when.Add(t.period)
		} else {
			t.armed = false
		}
		if t.f != nil {
			go t.f()
		} else {
			select {
			case t.c <- now:
			default:
			}
		}
	}
	now = end
	return out
}

// Handled says whether the timers that fired have been set again or stopped (or need not be).
func Handled(fs []Fired) bool {
	mu.Lock()
	defer mu.Unlock()
	for _, f := range fs {
		if f.t.period > 0 || f.t.f != nil {
			if len(f.t.c) != 0 {
				return false
			}
			continue
		}
		if f.t.arms == f.arms {
			return false
		}
	}
	return true
}

// Mark returns the timers there are; Forget drops those that are not in the mark.
func Mark() map[*Timer]bool {
	mu.Lock()
	defer mu.Unlock()
	m := map[*Timer]bool{}
	for t := range timers {
		m[t] = true
	}
	return m
}

// maker is the function that makes a timer.
func maker() string {
	pc := make([]uintptr, 10)
	fs := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fs.Next()
		if !strings.Contains(f.Function, "/vclock.") || !more {
			return f.Function
		}
	}
}

// Made is the number of timers that functions of the packages whose path
// contains s have made so far.
func Made(s string) int {
	mu.Lock()
	defer mu.Unlock()
	n := 0
	for f, k := range made {
		if strings.Contains(f, s) {
			n += k
		}
	}
	return n
}

// Pending is the number of timers that wait and were made by such functions.
func Pending(s string) int {
	mu.Lock()
	defer mu.Unlock()
	n := 0
	for t := range timers {
		if t.armed && strings.Contains(t.by, s) {
			n++
		}
	}
	return n
}

// Forget drops the timers made since the mark.
func Forget(m map[*Timer]bool) {
	mu.Lock()
	defer mu.Unlock()
	for t := range timers {
		if !m[t] {
			delete(timers, t)
		}
	}
}
