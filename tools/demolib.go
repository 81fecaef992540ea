package main

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"time"

	logging "github.com/ipfs/go-log/v2"
)

// helpers of the demonstrations

func must(err error) {
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(3)
	}
}

func want(what string, got, exp interface{}) {
	if !reflect.DeepEqual(got, exp) {
		fmt.Printf("WRONG %s:\n  got      %v\n  expected %v\n", what, got, exp)
		os.Exit(1)
	}
}

func quietLogs() { logging.SetLogLevel("*", "fatal") }

// syncNow does an explicit sync and waits for it; it returns the id of what was synced.
func syncNow(w *world, n *Node, pub string, depth int, resync bool) string {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := w.chain(pub)
	res, err := n.ing.Sync(ctx, ident(pub).ID, ch.addr(), depth, resync)
	must(err)
	select {
	case c, ok := <-res:
		if ok {
			return w.idOf(c)
		}
		return "none"
	case <-time.After(20 * time.Second):
		return "hang"
	}
}

func index(w *world, n *Node) string {
	s := ""
	for _, t := range observeIdx(w, n.in.dur) {
		s += fmt.Sprint(t)
	}
	return s
}

func latest(w *world, n *Node, pub string) string {
	c, err := n.ing.GetLatestSync(ident(pub).ID)
	must(err)
	return w.idOf(c)
}
