package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"sync"
	"time"

	logging "github.com/ipfs/go-log/v2"
)

func main() {
	in := flag.String("in", "", "traces (ndjson)")
	out := flag.String("out", "", "results (ndjson)")
	par := flag.Int("par", 48, "traces in parallel")
	seed := flag.Int64("seed", 1, "seed")
	wait := flag.Duration("wait", 15*time.Second, "")
	settle := flag.Duration("settle", 20*time.Millisecond, "")
	maxViol := flag.Int("maxviol", 3, "stop after this many violations")
	budget := flag.Duration("budget", 0, "stop starting traces after this long")
	single := flag.Bool("once", false, "no confirmation runs")
	lvl := flag.String("log", "fatal", "log level")
	flag.Parse()
	logging.SetLogLevel("*", *lvl)

	f, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var traces []Trace
	sc := bufio.NewReaderSize(f, 1<<20)
	dec := json.NewDecoder(sc)
	for dec.More() {
		var t Trace
		if err = dec.Decode(&t); err != nil {
			fmt.Fprintln(os.Stderr, "bad trace file:", err)
			os.Exit(2)
		}
		traces = append(traces, t)
	}
	start := time.Now()
	var mu sync.Mutex
	var results []Result
	nviol := 0
	sem := make(chan struct{}, *par)
	var wg sync.WaitGroup
	skipped := 0
	var suspects []Trace
	for _, tr := range traces {
		sem <- struct{}{}
		mu.Lock()
		stop := nviol >= *maxViol || (*budget > 0 && time.Since(start) > *budget)
		mu.Unlock()
		if stop {
			<-sem
			skipped++
			continue
		}
		wg.Add(1)
		go func(tr Trace) {
			defer wg.Done()
			defer func() { <-sem }()
			r := runOne(tr, Opts{Seed: *seed, Wait: *wait / 2, Settle: *settle})
			mu.Lock()
			if (r.Viol != "" || r.Err != "") && !*single {
				suspects = append(suspects, tr)
				nviol++
			}
			results = append(results, r)
			mu.Unlock()
		}(tr)
	}
	wg.Wait()
	// Confirm suspects one at a time on an otherwise idle process, until enough
	// of them are confirmed.
	nconf := 0
	cstart := time.Now()
	for _, tr := range suspects {
		if nconf >= *maxViol || time.Since(cstart) > 4*time.Minute && nconf > 0 {
			for i := range results {
				if results[i].ID == tr.ID {
					results[i].Flaky = true
				}
			}
			continue
		}
		var first *Result
		idx := -1
		for i := range results {
			if results[i].ID == tr.ID {
				idx = i
				first = &results[i]
			}
		}
		confirmed := false
		var last Result
		if racy[tr.Mod] {
			last, confirmed = confirmRacy(tr, Opts{Seed: *seed, Wait: *wait, Settle: *settle})
		}
		for k := 0; k < 4 && !confirmed; k++ {
			last = runOne(tr, Opts{Seed: *seed, Wait: *wait, Settle: 15 * *settle, Slow: k < 2})
			if last.Viol != "" {
				confirmed = true
			}
		}
		if confirmed {
			nconf++
			results[idx] = last
		} else {
			// not reproduced: neither a verdict nor, unless the re-run has
			// one also, a problem of the harness
			first.Flaky = true
			first.Err = last.Err
		}
	}
	sort.Slice(results, func(i, j int) bool { return results[i].ID < results[j].ID })
	o, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := bufio.NewWriter(o)
	enc := json.NewEncoder(w)
	for _, r := range results {
		enc.Encode(r)
	}
	w.Flush()
	o.Close()
	fmt.Printf("ran=%d skipped=%d wall=%.1fs\n", len(results), skipped, time.Since(start).Seconds())
	os.Exit(0)
}

// modules whose scenarios have outcomes that depend on the schedule
var racy = map[string]bool{}

// confirmRacy repeats a scenario until it goes wrong again.
func confirmRacy(tr Trace, o Opts) (Result, bool) {
	start := time.Now()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var res Result
	found := false
	n := 0
	for p := 0; p < 16; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				n++
				k := n
				stop := found || k > 600 || time.Since(start) > 90*time.Second
				mu.Unlock()
				if stop {
					return
				}
				oo := o
				if k%2 == 0 {
					oo.Seed += int64(k)
				}
				r := runOne(tr, oo)
				if r.Viol != "" {
					mu.Lock()
					res, found = r, true
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	return res, found
}
