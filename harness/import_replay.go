package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-indexer-core/engine"
	"github.com/filecoin-project/go-indexer-core/store/memory"
	adminhttpclient "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	"github.com/filecoin-project/storetheindex/internal/ingest"
	"github.com/filecoin-project/storetheindex/internal/registry"
	adminserver "github.com/filecoin-project/storetheindex/server/admin/http"
	"github.com/ipfs/go-cid"
	"github.com/multiformats/go-multibase"
	"github.com/multiformats/go-multihash"
)

func init() { runners["Import"] = runImport }

type impLine struct{ Kind, Label, Enc string }
type impStep struct {
	Op, Fmt, Eol, Prov, Ctx, Md, Fault, Res string
	Fin                                     bool
	Lines                                   []impLine
	Exp                                     struct{ Idx [][]string }
}

// noPutIdx is an index whose writes can be made to fail.
type noPutIdx struct {
	indexer.Interface
	mu   sync.Mutex
	down bool
}

func (d *noPutIdx) Put(v indexer.Value, ms ...multihash.Multihash) error {
	d.mu.Lock()
	down := d.down
	d.mu.Unlock()
	if down {
		return errors.New("index refuses writes")
	}
	return d.Interface.Put(v, ms...)
}

func runImport(tr Trace, o Opts, r *Result) {
	var steps []impStep
	if err := json.Unmarshal(tr.Steps, &steps); err != nil {
		broken("steps: %v", err)
	}
	r.Steps = len(steps)
	rng := rngFor(o.Seed, tr.ID)
	dir, err := os.MkdirTemp("", "import")
	if err != nil {
		broken("%v", err)
	}
	defer os.RemoveAll(dir)
	idx := &noPutIdx{Interface: engine.New(nil, memory.New())}
	url, stop := startAdmin(idx, &ingest.Ingester{}, nil, nil)
	defer stop()
	cl, err := adminhttpclient.New(url)
	if err != nil {
		broken("client: %v", err)
	}
	// how many identifiers a bulk label stands for
	bulk := map[string]int{}
	sizes := []int{253, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1024, 5000}
	size := func(l string) int {
		if bulk[l] == 0 {
			bulk[l] = sizes[rng.Intn(len(sizes))]
		}
		return bulk[l]
	}
	cidText := func(name, enc string) string {
		m := mhOf(name)
		switch enc {
		case "v0":
			return cid.NewCidV0(m).String()
		case "pb":
			return cid.NewCidV1(cid.DagProtobuf, m).String()
		default:
			c := cid.NewCidV1(cid.Raw, m)
			b := []multibase.Encoding{multibase.Base32, multibase.Base32, multibase.Base58BTC, multibase.Base36, multibase.Base64url, multibase.Base16Upper}[rng.Intn(6)]
			t, err := c.StringOfBase(b)
			if err != nil {
				broken("%v", err)
			}
			return t
		}
	}
	long := func(n int) string { return strings.Repeat("long ", n/5) }
	bad := func(format string) string {
		c := cid.NewCidV1(cid.Raw, mhOf("junk")).String()
		if format == "manifest" {
			return []string{"{", "null", "[]", `{"RecordType":"DagAggregateEntry","DagCidV1":"` + c[:20] + `"}`, `{"RecordType":"DagAggregateEntry"}`, c}[rng.Intn(6)]
		}
		return []string{"b", c[:20], c + "q", "\x00\xff", "Qm", "{}"}[rng.Intn(6)]
	}
	write := func(s impStep) string {
		eol := "\n"
		if s.Eol == "crlf" {
			eol = "\r\n"
		}
		entry := func(name, enc string) string {
			c := cidText(name, enc)
			if s.Fmt == "cidlist" {
				return c
			}
			e := map[string]interface{}{"RecordType": "DagAggregateEntry", "NodeCount": 3, "PathPrefixes": []string{"a", "b"}}
			v1 := cidText(name, "v1")
			switch enc {
			case "big":
				e["DagCidV1"] = v1
				e["PathPrefixes"] = []string{long(70000), long(200)}
			case "v0":
				e["DagCidV0"] = c
				switch rng.Intn(3) {
				case 0:
					e["DagCidV1"] = ""
				case 1:
					e["DagCidV1"] = v1[:len(v1)-5]
				}
			case "pb":
				e["DagCidV1"] = v1
				e["DagCidV0"] = cid.NewCidV0(mhOf(name)).String()
			default:
				e["DagCidV1"] = v1
			}
			b, _ := json.Marshal(e)
			return string(b)
		}
		var ls []string
		for _, l := range s.Lines {
			switch l.Kind {
			case "ok":
				ls = append(ls, entry(l.Label, l.Enc))
			case "bulk":
				for k := 0; k < size(l.Label); k++ {
					ls = append(ls, entry(fmt.Sprint(l.Label, "#", k), l.Enc))
				}
			case "blank":
				ls = append(ls, []string{"", " ", "\t"}[rng.Intn(3)])
			case "long":
				ls = append(ls, long([]int{70000, 140000, 1200000}[rng.Intn(3)]))
			case "other": // well-formed but not an entry
				if s.Fmt == "manifest" {
					ls = append(ls, `{"RecordType":"DagAggregateSummary","EntryCount":3,"DagCidV1":"`+cidText("other", "v1")+`"}`)
				} else {
					ls = append(ls, "# "+cidText("other", "v1"))
				}
			default: // bad, or many bad ones
				n := 1
				if l.Kind == "many" {
					n = []int{20, 150, 300, 1500}[rng.Intn(4)]
				}
				for ; n > 0; n-- {
					ls = append(ls, bad(s.Fmt))
				}
			}
		}
		text := strings.Join(ls, eol)
		if s.Fin && len(ls) > 0 {
			text += eol
		}
		f := filepath.Join(dir, fmt.Sprintf("f%d", rng.Int63()))
		if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
			broken("%v", err)
		}
		return f
	}

	for i, s := range steps {
		r.Step = i
		f := write(s)
		ctx, cancel := context.WithTimeout(context.Background(), o.Wait)
		prov := ident(s.Prov).ID.String()
		params := map[string][]byte{"file": []byte(f), "context_id": svcCtx(s.Ctx), "metadata": []byte("metadata " + s.Md)}
		switch s.Fault {
		case "nofile":
			params["file"] = []byte(filepath.Join(dir, "nothing"))
		case "dir":
			params["file"] = []byte(dir)
		case "noctx":
			delete(params, "context_id")
		case "nomd":
			delete(params, "metadata")
		case "noname":
			delete(params, "file")
		case "badprov":
			prov = "nobody"
		case "idxdown":
			idx.mu.Lock()
			idx.down = true
			idx.mu.Unlock()
		}
		res, detail := "ok", ""
		if s.Fault == "none" && rng.Intn(2) == 0 {
			if s.Fmt == "manifest" {
				err = cl.ImportFromManifest(ctx, f, ident(s.Prov).ID, params["context_id"], params["metadata"])
			} else {
				err = cl.ImportFromCidList(ctx, f, ident(s.Prov).ID, params["context_id"], params["metadata"])
			}
			if err != nil {
				res, detail = "err", err.Error()
			}
		} else {
			body, _ := json.Marshal(params)
			if s.Fault == "badjson" {
				body = body[:len(body)/2]
			}
			st, b := plainHTTP(ctx, i, http.MethodPost, url+"/import/"+s.Fmt+"/"+prov, body)
			if st != http.StatusOK {
				res, detail = "err", fmt.Sprint(st, " ", string(b))
			}
		}
		cancel()
		idx.mu.Lock()
		idx.down = false
		idx.mu.Unlock()
		os.Remove(f)
		if res != s.Res {
			fail(s.Res, res+" "+detail, "step %d: result of importing %s %v (%s, problem: %s)", i, s.Fmt, s.Lines, s.Eol, s.Fault)
		}
		// everything that is in the index
		want := map[string]bool{}
		for _, e := range s.Exp.Idx {
			n := 1
			names := []string{e[0]}
			if strings.HasPrefix(e[0], "B") {
				names = nil
				for n = 0; n < size(e[0]); n++ {
					names = append(names, fmt.Sprint(e[0], "#", n))
				}
			}
			for _, nm := range names {
				want[strings.Join([]string{nm, e[1], e[2], e[3]}, "/")] = true
			}
		}
		names := []string{"x", "y", "z", "junk", "other"}
		for l, n := range bulk {
			for k := 0; k <= n; k++ {
				names = append(names, fmt.Sprint(l, "#", k))
			}
		}
		got := 0
		for _, nm := range names {
			vs, _, err := idx.Get(mhOf(nm))
			if err != nil {
				broken("index: %v", err)
			}
			for _, v := range vs {
				k := strings.Join([]string{nm, labelOf(v.ProviderID), strings.TrimPrefix(string(v.ContextID), "ctx-"), strings.TrimPrefix(string(v.MetadataBytes), "metadata ")}, "/")
				if !want[k] {
					fail("absent", k, "step %d: the index has something that was not imported", i)
				}
				got++
			}
		}
		if got != len(want) {
			var miss []string
			for k := range want {
				p := strings.SplitN(k, "/", 2)
				vs, _, _ := idx.Get(mhOf(p[0]))
				ok := false
				for _, v := range vs {
					ok = ok || strings.HasPrefix(p[1], labelOf(v.ProviderID)+"/"+strings.TrimPrefix(string(v.ContextID), "ctx-"))
				}
				if !ok {
					miss = append(miss, k)
				}
			}
			sort.Strings(miss)
			if len(miss) > 5 {
				miss = miss[:5]
			}
			fail(len(want), got, "step %d: %d imported identifiers are not in the index, for example %v (%s %s)", i, len(want)-got, miss, s.Fmt, s.Eol)
		}
		// and nothing else
		if n := idxCount(idx.Interface); n >= 0 && n != len(wantNames(want)) {
			fail(len(wantNames(want)), n, "step %d: number of identifiers in the index", i)
		}
	}
}

// startAdmin serves the admin interface on a free port.
func startAdmin(idx indexer.Interface, ing *ingest.Ingester, reg *registry.Registry, reload chan<- chan error) (string, func()) {
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			broken("%v", err)
		}
		addr := l.Addr().String()
		l.Close()
		srv, err := adminserver.New(addr, idx, ing, reg, reload)
		if err != nil {
			if try < 20 {
				continue // somebody else took the port
			}
			broken("admin server: %v", err)
		}
		go srv.Start()
		return "http://" + addr, func() {
			c, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
			defer cancel()
			srv.Shutdown(c)
		}
	}
}

func wantNames(w map[string]bool) map[string]bool {
	out := map[string]bool{}
	for k := range w {
		out[strings.SplitN(k, "/", 2)[0]] = true
	}
	return out
}

// idxCount counts the multihashes in an index, -1 if it cannot.
func idxCount(i indexer.Interface) int {
	it, err := i.Iter()
	if err != nil {
		return -1
	}
	n := 0
	for {
		_, _, err := it.Next()
		if err != nil {
			return n
		}
		n++
	}
}
