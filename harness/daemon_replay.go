package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	httpadminclient "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	httpfinderclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	p2pfinderclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	httpingestclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	p2pingestclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/libp2p"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/ipfs/go-cid"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() { runners["Daemon"] = runDaemon }

type dFile struct {
	Off       []string
	Allow     bool
	Exc       []string
	Lvl, Intv string
	Peering   bool
	Bad       string
}
type dStep struct {
	Op, Via, Res string
	Arg          json.RawMessage
	Exp          struct {
		File                          dFile
		Up                            bool
		On, Allowed, Known, Must, May []string
		Lvl, Peering                  string
		Ads                           struct{ N, Tried, Got, Sure int }
	}
}

var (
	daemonSem   = make(chan struct{}, 10)
	daemonCount uint32
	peerHostMu  sync.Mutex
	peerHost    host.Host
)

// aPeerHost is a host that daemons can be told to stay connected with.
func aPeerHost() host.Host {
	peerHostMu.Lock()
	defer peerHostMu.Unlock()
	if peerHost == nil {
		h, err := libp2p.New(libp2p.ListenAddrStrings("/ip4/127.0.0.1/tcp/0"))
		if err != nil {
			broken("host: %v", err)
		}
		peerHost = h
	}
	return peerHost
}

// outFile is a file that the daemon writes to itself, so that what it wrote before
// answering is there when the answer is.
type outFile struct{ f *os.File }

func newOutFile(name string) *outFile {
	f, err := os.Create(name)
	if err != nil {
		broken("%v", err)
	}
	return &outFile{f}
}
func (l *outFile) from(n int64) string {
	b, _ := os.ReadFile(l.f.Name())
	if int64(len(b)) < n {
		return ""
	}
	return string(b[n:])
}
func (l *outFile) size() int64 {
	st, err := os.Stat(l.f.Name())
	if err != nil {
		return 0
	}
	return st.Size()
}

type daemonRun struct {
	o     Opts
	rng   *rand.Rand
	root  string
	ip    string
	store string
	id    *Ident
	cmd   *exec.Cmd
	exit  chan error
	out   *outFile // standard output
	log   *outFile // standard error
	nfile int
	ch    *Chain                  // a publisher
	ads   [][]multihash.Multihash // what it published
}

// publish makes the publisher publish another advertisement.
func (d *daemonRun) publish() {
	i := len(d.ads) + 1
	var parts [][]multihash.Multihash
	var all []multihash.Multihash
	for c := 1 + d.rng.Intn(3); c > 0; c-- {
		var part []multihash.Multihash
		for n := 1 + d.rng.Intn(30); n > 0; n-- {
			part = append(part, mhOf(fmt.Sprintf("d-%d-%d", i, len(all))))
			all = append(all, part[len(part)-1])
		}
		parts = append(parts, part)
	}
	link, _ := d.ch.chunks(parts)
	v := d.ch.ident
	ad := schema.Advertisement{Provider: v.ID.String(), Addresses: []string{"/ip4/127.0.0.1/tcp/9"}, Entries: link,
		ContextID: []byte(fmt.Sprint("ctx-", i)), Metadata: []byte(fmt.Sprint("md-", i))}
	if h := d.ch.getHead(); h.Defined() {
		ad.PreviousID = cidlink.Link{Cid: h}
	}
	d.ch.setHead(d.ch.storeAd(ad, v.Priv))
	d.ads = append(d.ads, all)
}

func (d *daemonRun) addr(s string) (string, int) {
	port := map[string]int{"admin": 3002, "finder": 3000, "ingest": 3001, "p2p": 3003}[s]
	return fmt.Sprintf("%s:%d", d.ip, port), port
}

func (d *daemonRun) url(s string) string {
	a, _ := d.addr(s)
	return "http://" + a
}

// write replaces the configuration file.
func (d *daemonRun) write(f dFile) {
	off := map[string]bool{}
	for _, s := range f.Off {
		off[s] = true
	}
	at := func(s string) string {
		if off[s] {
			return "none"
		}
		_, p := d.addr(s)
		return fmt.Sprintf("/ip4/%s/tcp/%d", d.ip, p)
	}
	exc := []string{}
	for _, p := range f.Exc {
		exc = append(exc, ident(p).ID.String())
	}
	if !f.Allow {
		exc = append(exc, ident("o").ID.String(), d.ch.ident.ID.String())
	}
	sk, err := crypto.MarshalPrivateKey(d.id.Priv)
	if err != nil {
		broken("key: %v", err)
	}
	intv := "1h"
	if f.Intv == "fast" {
		intv = "40ms"
	}
	peers := []string{}
	if f.Peering {
		h := aPeerHost()
		peers = append(peers, h.Addrs()[0].String()+"/p2p/"+h.ID().String())
	}
	type m = map[string]interface{}
	policy := m{"Allow": f.Allow, "Except": exc, "Publish": true}
	limit := m{"Apply": false}
	logging := m{"Level": f.Lvl, "Loggers": m{}}
	ds := m{"Dir": "datastore", "Type": "levelds"}
	workers := 1 + d.rng.Intn(4)
	switch f.Bad {
	case "policy":
		policy["Except"] = append(exc, "nobody")
	case "publish":
		policy["PublishExcept"] = []string{"nobody"}
	case "level":
		logging["Level"] = "loud"
	case "logger":
		logging["Loggers"] = m{"no-such-logger": "info"}
	case "loglevel":
		logging["Loggers"] = m{"indexer/admin": "loud"}
	case "dstype":
		ds["Type"] = "cardboard"
	case "rate":
		limit["Except"] = []string{"nobody"}
	case "ratenum":
		limit["BlocksPerSecond"] = -1
	case "interval":
		intv = "-1s"
	case "workers":
		workers = -1
	case "peer":
		peers = []string{"/ip4/127.0.0.1/tcp/3003"}
	}
	cfg := m{
		"Version":   2,
		"Identity":  m{"PeerID": d.id.ID.String(), "PrivKey": base64.StdEncoding.EncodeToString(sk)},
		"Addresses": m{"Admin": at("admin"), "Finder": at("finder"), "Ingest": at("ingest"), "P2PAddr": at("p2p")},
		"Bootstrap": m{"Peers": []string{}, "MinimumPeers": 0},
		"Datastore": ds,
		"Discovery": m{"LotusGateway": "none", "Policy": policy},
		"Indexer":   m{"ValueStoreType": d.store, "ConfigCheckInterval": intv, "ShutdownTimeout": "60s"},
		"Ingest":    m{"RateLimit": limit, "IngestWorkerCount": workers, "StoreBatchSize": []int{-1, 1, 2, 4096}[d.rng.Intn(4)], "PubSubTopic": "/verif/" + d.ip},
		"Logging":   logging,
		"Peering":   m{"Peers": peers},
	}
	b, err := json.MarshalIndent(cfg, "", " ")
	if err != nil {
		broken("%v", err)
	}
	if f.Bad == "cut" {
		b = b[:len(b)-5]
	}
	d.nfile++
	tmp := filepath.Join(d.root, fmt.Sprint("new", d.nfile))
	if err := os.WriteFile(tmp, b, 0o600); err != nil {
		broken("%v", err)
	}
	// a time of its own for every version of the file, which may be older
	// than the one it replaces (a file that was moved here)
	age := time.Duration(d.nfile) * time.Second
	if d.rng.Intn(2) == 0 {
		age = -age * 60
	}
	when := time.Now().Add(age)
	os.Chtimes(tmp, when, when)
	if err := os.Rename(tmp, filepath.Join(d.root, "repo", "config")); err != nil {
		broken("%v", err)
	}
}

func (d *daemonRun) env() []string {
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "STORETHEINDEX") && !strings.HasPrefix(e, "GOLOG") && !strings.HasPrefix(e, "INDEXER") {
			env = append(env, e)
		}
	}
	return append(env, "STORETHEINDEX_PATH="+filepath.Join(d.root, "repo"), "GOLOG_LOG_FMT=nocolor")
}

func (d *daemonRun) command(args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), d.o.Wait)
	defer cancel()
	cmd := exec.CommandContext(ctx, theBinary(), args...)
	cmd.Env = d.env()
	b, err := cmd.CombinedOutput()
	return string(b), err
}

func (d *daemonRun) start(args ...string) {
	d.cmd = exec.Command(theBinary(), append([]string{"daemon"}, args...)...)
	d.cmd.Env = d.env()
	d.cmd.Dir = d.root
	d.nfile++
	d.out, d.log = newOutFile(filepath.Join(d.root, fmt.Sprint("out", d.nfile))), newOutFile(filepath.Join(d.root, fmt.Sprint("log", d.nfile)))
	d.cmd.Stdout, d.cmd.Stderr = d.out.f, d.log.f
	defer d.out.f.Close()
	defer d.log.f.Close()
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := d.cmd.Start(); err != nil {
		broken("start: %v", err)
	}
	ex := make(chan error, 1)
	d.exit = ex
	go func(c *exec.Cmd) { ex <- c.Wait() }(d.cmd)
}

func (d *daemonRun) tail() string {
	s := d.log.from(0)
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

// ended says whether the process has ended.
func (d *daemonRun) ended() (error, bool) {
	select {
	case err := <-d.exit:
		d.exit <- err
		return err, true
	default:
		return nil, false
	}
}

func (d *daemonRun) kill() {
	if d.cmd != nil && d.cmd.Process != nil {
		d.cmd.Process.Kill()
		<-d.exit
		d.cmd = nil
	}
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func runDaemon(tr Trace, o Opts, r *Result) {
	var steps []dStep
	if err := json.Unmarshal(tr.Steps, &steps); err != nil {
		broken("steps: %v", err)
	}
	r.Steps = len(steps)
	daemonSem <- struct{}{}
	defer func() { <-daemonSem }()
	root, err := os.MkdirTemp("", "daemon")
	if err != nil {
		broken("%v", err)
	}
	defer os.RemoveAll(root)
	n := atomic.AddUint32(&daemonCount, 1)
	pid := os.Getpid()
	d := &daemonRun{o: o, rng: rngFor(o.Seed, tr.ID), root: root, id: ident("daemon-" + tr.ID),
		ip: fmt.Sprintf("127.%d.%d.%d", 10+pid%200, 1+(n/200)%250, 1+n%200)}
	d.ch = newChain(ident("vendor-" + tr.ID))
	defer d.ch.drop()
	if d.o.Wait < 30*time.Second {
		d.o.Wait = 30 * time.Second
	}
	d.store = "pogreb"
	if d.rng.Intn(4) == 0 {
		d.store = "sth"
	}
	if err := os.MkdirAll(filepath.Join(root, "repo"), 0o755); err != nil {
		broken("%v", err)
	}
	defer d.kill()
	d.write(dFile{Allow: true, Lvl: "info", Intv: "slow", Bad: "none"})
	for i, s := range steps {
		r.Step = i
		d.step(i, s)
		if s.Exp.Up {
			d.observe(i, s)
		}
	}
}

func (d *daemonRun) step(i int, s dStep) {
	ctx, cancel := context.WithTimeout(context.Background(), d.o.Wait)
	defer cancel()
	admin, err := httpadminclient.New(d.url("admin"))
	if err != nil {
		broken("%v", err)
	}
	check := func(err error, what string) {
		if (err == nil) != (s.Res == "ok") {
			fail(s.Res, fmt.Sprint(err), "step %d: %s (file: %s)\n%s", i, what, s.Exp.File.Bad, d.tail())
		}
	}
	var arg string
	json.Unmarshal(s.Arg, &arg)
	switch s.Op {
	case "edit":
		d.write(s.Exp.File)
	case "start":
		var a struct {
			Flags []string
			Watch bool
		}
		json.Unmarshal(s.Arg, &a)
		args := []string{fmt.Sprintf("--watch-config=%v", a.Watch)}
		for _, f := range a.Flags {
			args = append(args, "--no"+f)
		}
		d.start(args...)
		deadline := time.Now().Add(d.o.Wait)
		for {
			if err, ended := d.ended(); ended {
				if s.Res == "ok" {
					fail("running", fmt.Sprint("ended: ", err), "step %d: start with %v, servers %v\n%s", i, args, s.Exp.On, d.tail())
				}
				if err == nil {
					fail("an error", "exit 0", "step %d: start with an unusable configuration (%s)", i, s.Exp.File.Bad)
				}
				d.cmd = nil
				break
			}
			if strings.Contains(d.out.from(0), "Indexer is ready") {
				if s.Res != "ok" {
					time.Sleep(100 * time.Millisecond)
					if _, ended := d.ended(); ended {
						continue
					}
					fail("refused", "running", "step %d: start with an unusable configuration (%s)", i, s.Exp.File.Bad)
				}
				break
			}
			if time.Now().After(deadline) {
				fail(s.Res, "neither ready nor ended", "step %d: start with %v\n%s", i, args, d.tail())
			}
			time.Sleep(5 * time.Millisecond)
		}
	case "stop", "kill":
		// it may be asked for something at the same time
		var wg sync.WaitGroup
		if d.rng.Intn(3) == 0 {
			for k := 0; k < 3; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					admin.ReloadConfig(ctx)
				}()
			}
			time.Sleep(time.Duration(d.rng.Intn(4000)) * time.Microsecond)
		}
		d.end(i, s.Op)
		wg.Wait()
	case "publish":
		var k int
		json.Unmarshal(s.Arg, &k)
		for ; k > 0; k-- {
			d.publish()
		}
	case "pull":
		if err := d.pull(ctx, admin, s.Via); err != nil {
			fail("accepted", err.Error(), "step %d: asking for the publisher's content (%s)\n%s", i, s.Via, d.tail())
		}
	case "cut":
		blocks := 0
		for _, a := range d.ads {
			blocks += 1 + (len(a)+29)/30
		}
		left := int32(d.rng.Intn(blocks + 1))
		reached := make(chan struct{})
		var once sync.Once
		d.ch.mu.Lock()
		d.ch.gate = func(cid.Cid) {
			if atomic.AddInt32(&left, -1) <= 0 {
				once.Do(func() { close(reached) })
			}
		}
		d.ch.mu.Unlock()
		if err := d.pull(ctx, admin, s.Via); err != nil {
			fail("accepted", err.Error(), "step %d: asking for the publisher's content (%s)\n%s", i, s.Via, d.tail())
		}
		select {
		case <-reached:
			time.Sleep(time.Duration(d.rng.Intn(20000)) * time.Microsecond)
		case <-time.After(500 * time.Millisecond):
		}
		d.end(i, arg)
		d.ch.mu.Lock()
		d.ch.gate = nil
		d.ch.mu.Unlock()
	case "setlevel":
		if d.rng.Intn(4) == 0 {
			out, err := d.command("config", "-i", d.url("admin"), "set", "log.level", ".*", arg)
			check(err, "log level from the command line: "+out)
		} else {
			check(admin.SetLogLevels(ctx, map[string]string{".*": arg}), "log level")
		}
	case "reload":
		switch s.Via {
		case "admin":
			check(admin.ReloadConfig(ctx), "reload through the admin interface")
		case "cli":
			out, err := d.command("admin", "reload-config", "-i", d.url("admin"))
			if err != nil {
				err = fmt.Errorf("%v: %s", err, out)
			}
			check(err, "reload from the command line")
		case "hup":
			d.cmd.Process.Signal(syscall.SIGHUP)
			if s.Res != "ok" {
				time.Sleep(300 * time.Millisecond)
			}
		case "both":
			n := 2 + d.rng.Intn(6)
			errs := make([]error, n)
			var wg sync.WaitGroup
			for k := range errs {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					errs[k] = admin.ReloadConfig(ctx)
				}(k)
				if d.rng.Intn(2) == 0 {
					time.Sleep(time.Duration(d.rng.Intn(800)) * time.Microsecond)
				}
				d.cmd.Process.Signal(syscall.SIGHUP)
			}
			wg.Wait()
			for _, err := range errs {
				check(err, fmt.Sprintf("one of %d reloads through the admin interface, along with as many signals", n))
			}
		}
	case "allow", "block":
		f := admin.Allow
		if s.Op == "block" {
			f = admin.Block
		}
		if d.rng.Intn(4) == 0 {
			out, err := d.command("admin", s.Op, "-p", ident(arg).ID.String(), "-i", d.url("admin"))
			check(err, s.Op+" from the command line: "+out)
		} else {
			check(f(ctx, ident(arg).ID), s.Op)
		}
	case "import":
		name := filepath.Join(d.root, "list")
		if err := os.WriteFile(name, []byte(cid.NewCidV1(cid.Raw, mhOf("imp-"+arg)).String()+"\n"), 0o600); err != nil {
			broken("%v", err)
		}
		if d.rng.Intn(4) == 0 {
			out, err := d.command("import", "cidlist", "-p", ident("o").ID.String(), "-c", "ctx-"+arg, "-m", "metadata", "-f", name, "-i", d.url("admin"))
			check(err, "import from the command line: "+out)
		} else {
			check(admin.ImportFromCidList(ctx, name, ident("o").ID, []byte("ctx-"+arg), []byte("metadata")), "import")
		}
	case "announce":
		cl, err := httpingestclient.New(d.url("ingest"))
		if err != nil {
			broken("%v", err)
		}
		// there is nothing to fetch there
		a, err := multiaddr.NewMultiaddr(fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/http/httpath/nothing", server().port))
		if err != nil {
			broken("%v", err)
		}
		err = cl.Announce(ctx, &peer.AddrInfo{ID: ident(arg).ID, Addrs: []multiaddr.Multiaddr{a}}, cid.NewCidV1(cid.Raw, mhOf("ad-"+arg)))
		got := "ok"
		if err != nil {
			got = "err"
			if strings.Contains(err.Error(), http.StatusText(http.StatusForbidden)) || strings.Contains(err.Error(), "403") {
				got = "refused"
			}
			if strings.Contains(err.Error(), "EOF") || strings.Contains(err.Error(), "reset") {
				got = "no answer"
			}
		}
		if got != s.Res {
			fail(s.Res, fmt.Sprint(got, ": ", err), "step %d: announcement", i)
		}
	case "sync":
		st, b := plainHTTP(ctx, i, http.MethodPost, d.url("admin")+"/ingest/sync/"+ident(arg).ID.String(), nil)
		if st/100 == 2 {
			fail("an error", fmt.Sprint(st, string(b)), "step %d: sync without libp2p hosting", i)
		}
	default:
		broken("unknown op %s", s.Op)
	}
}

// end ends the process.
func (d *daemonRun) end(i int, how string) {
	sig := syscall.SIGTERM
	if how == "kill" {
		sig = syscall.SIGKILL
	} else if d.rng.Intn(2) == 0 {
		sig = syscall.SIGINT
	}
	d.cmd.Process.Signal(sig)
	select {
	case err := <-d.exit:
		d.cmd = nil
		if how == "stop" && err != nil {
			fail("exit 0", err.Error(), "step %d: stopping\n%s", i, d.tail())
		}
	case <-time.After(d.o.Wait):
		fail("ended", "still running", "step %d: stopping\n%s", i, d.tail())
	}
}

// pull has the daemon asked to fetch what the publisher has.
func (d *daemonRun) pull(ctx context.Context, admin *httpadminclient.Client, via string) error {
	switch via {
	case "announce":
		cl, err := httpingestclient.New(d.url("ingest"))
		if err != nil {
			broken("%v", err)
		}
		return cl.Announce(ctx, &peer.AddrInfo{ID: d.ch.ident.ID, Addrs: []multiaddr.Multiaddr{d.ch.addr()}}, d.ch.getHead())
	case "cli":
		out, err := d.command("admin", "sync", "-i", d.url("admin"), "--pubid", d.ch.ident.ID.String(), "--addr", d.ch.addr().String())
		if err != nil {
			err = fmt.Errorf("%v: %s", err, out)
		}
		return err
	}
	return admin.Sync(ctx, d.ch.ident.ID, d.ch.addr(), 0, via == "resync")
}

func (d *daemonRun) observe(i int, s dStep) {
	if err, ended := d.ended(); ended {
		fail("running", fmt.Sprint("ended: ", err), "step %d: the daemon after %s\n%s", i, s.Op, d.tail())
	}
	deadline := time.Now().Add(d.o.Wait)
	settled := false
	for {
		what, exp, obs := d.look(i, s)
		if what == "" {
			if settled || !d.mayLag(s) {
				return
			}
			// nothing else happens on its own a little later
			settled = true
			time.Sleep(120 * time.Millisecond)
			continue
		}
		if settled || time.Now().After(deadline) || !d.mayLag(s) && what != "peering" {
			fail(exp, obs, "step %d: %s after %s %s %s\n%s", i, what, s.Op, s.Via, string(s.Arg), d.tail())
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// mayLag: the effect of the step appears some time after it.
func (d *daemonRun) mayLag(s dStep) bool {
	return s.Op == "edit" || s.Op == "start" || s.Op == "pull" || s.Op == "reload" && (s.Via == "hup" || s.Via == "both")
}

// look compares what the daemon does with what it should do.
func (d *daemonRun) look(i int, s dStep) (string, interface{}, interface{}) {
	ctx, cancel := context.WithTimeout(context.Background(), d.o.Wait)
	defer cancel()
	for _, srv := range []string{"admin", "finder", "ingest", "p2p"} {
		a, _ := d.addr(srv)
		c, err := net.DialTimeout("tcp", a, 2*time.Second)
		if err == nil {
			c.Close()
		}
		if (err == nil) != has(s.Exp.On, srv) {
			return "the " + srv + " server", has(s.Exp.On, srv), fmt.Sprint(err)
		}
	}
	if has(s.Exp.On, "admin") {
		if st, b := plainHTTP(ctx, i, http.MethodGet, d.url("admin")+"/healthcheck", nil); st != 200 {
			return "health", 200, string(b)
		}
		// the log level shows in what an admin request logs
		n := d.log.size()
		if st, b := plainHTTP(ctx, i, http.MethodPut, d.url("admin")+"/ingest/allow/"+ident("nobody").ID.String(), nil); st != 200 {
			return "allowing a peer", 200, string(b)
		}
		got := "error"
		if strings.Contains(d.log.from(n), "\tINFO\t") {
			got = "info"
		}
		if got != s.Exp.Lvl {
			return "the log level", s.Exp.Lvl, got
		}
	}
	if has(s.Exp.On, "ingest") {
		cl, err := httpingestclient.New(d.url("ingest"))
		if err != nil {
			broken("%v", err)
		}
		allowed := []string{}
		for _, p := range []string{"o", "p", "q"} {
			id := ident(p)
			err := cl.Register(ctx, id.ID, id.Priv, []string{rAddr(p).String()})
			if err == nil {
				allowed = append(allowed, p)
			} else if !strings.Contains(err.Error(), "403") && !strings.Contains(err.Error(), http.StatusText(http.StatusForbidden)) {
				return "registration of " + p, "accepted or refused", err.Error()
			}
		}
		want := append([]string{"o"}, s.Exp.Allowed...)
		sort.Strings(want)
		if !reflect.DeepEqual(allowed, want) {
			return "which peers may register", want, allowed
		}
	}
	if has(s.Exp.On, "finder") {
		cl, err := httpfinderclient.New(d.url("finder"))
		if err != nil {
			broken("%v", err)
		}
		l, err := cl.ListProviders(ctx)
		if err != nil {
			return "list of providers", "an answer", err.Error()
		}
		known := []string{}
		vendor := false
		for _, p := range l {
			if p.AddrInfo.ID == d.ch.ident.ID {
				vendor = true
				continue
			}
			known = append(known, labelOf(p.AddrInfo.ID))
		}
		if !vendor && s.Exp.Ads.Got > 0 || vendor && s.Exp.Ads.Tried == 0 {
			return "list of providers with the publisher", s.Exp.Ads.Got > 0, vendor
		}
		sort.Strings(known)
		want := append([]string{}, s.Exp.Known...)
		sort.Strings(want)
		if !reflect.DeepEqual(known, want) {
			return "list of providers", want, known
		}
		for _, l := range []string{"x", "y", "z"} {
			resp, err := cl.Find(ctx, mhOf("imp-"+l))
			if err != nil {
				return "lookup of " + l, "an answer", err.Error()
			}
			n := 0
			for _, m := range resp.MultihashResults {
				for _, p := range m.ProviderResults {
					n++
					if p.Provider.ID != ident("o").ID || string(p.ContextID) != "ctx-"+l {
						return "lookup of " + l, "o", labelOf(p.Provider.ID)
					}
				}
			}
			if has(s.Exp.Must, l) && n != 1 || !has(s.Exp.Must, l) && !has(s.Exp.May, l) && n != 0 {
				return "lookup of " + l, has(s.Exp.Must, l), n
			}
		}
		if what, exp, obs := d.lookAds(ctx, cl, s); what != "" {
			return what, exp, obs
		}
		resp, err := http.Get(d.url("finder") + "/health")
		if err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
	}
	if has(s.Exp.On, "p2p") {
		n := len(aPeerHost().Network().ConnsToPeer(d.id.ID))
		if s.Exp.Peering == "yes" && n == 0 {
			return "peering", "connected", "not connected"
		}
		if s.Exp.Peering == "no" && n != 0 {
			return "peering", "not connected", "connected"
		}
		if s.Op == "start" {
			return d.lookP2P(ctx, s)
		}
	}
	return "", nil, nil
}

// lookP2P uses the daemon over libp2p.
func (d *daemonRun) lookP2P(ctx context.Context, s dStep) (string, interface{}, interface{}) {
	h, err := libp2p.New(libp2p.NoListenAddrs)
	if err != nil {
		broken("libp2p: %v", err)
	}
	defer h.Close()
	_, port := d.addr("p2p")
	text := fmt.Sprintf("/ip4/%s/tcp/%d", d.ip, port)
	a, err := multiaddr.NewMultiaddr(text)
	if err != nil {
		broken("p2p address %q: %v", text, err)
	}
	if err = h.Connect(ctx, peer.AddrInfo{ID: d.id.ID, Addrs: []multiaddr.Multiaddr{a}}); err != nil {
		return "connecting over libp2p", "connected", err.Error()
	}
	fc, err := p2pfinderclient.New(h, d.id.ID)
	if err != nil {
		broken("client: %v", err)
	}
	l, err := fc.ListProviders(ctx)
	if (err == nil) != has(s.Exp.On, "finder") {
		return "finding over libp2p", has(s.Exp.On, "finder"), fmt.Sprint(err)
	}
	if err == nil {
		known := []string{}
		for _, p := range l {
			if p.AddrInfo.ID != d.ch.ident.ID {
				known = append(known, labelOf(p.AddrInfo.ID))
			}
		}
		sort.Strings(known)
		want := append([]string{}, s.Exp.Known...)
		sort.Strings(want)
		if !reflect.DeepEqual(known, want) {
			return "list of providers over libp2p", want, known
		}
	}
	ic, err := p2pingestclient.New(h, d.id.ID)
	if err != nil {
		broken("client: %v", err)
	}
	o := ident("o")
	err = ic.Register(ctx, o.ID, o.Priv, []string{rAddr("o").String()})
	if (err == nil) != has(s.Exp.On, "ingest") {
		return "registering over libp2p", has(s.Exp.On, "ingest"), fmt.Sprint(err)
	}
	return "", nil, nil
}

// lookAds looks up the content of the advertisements.
func (d *daemonRun) lookAds(ctx context.Context, cl *httpfinderclient.Client, s dStep) (string, interface{}, interface{}) {
	if len(d.ads) == 0 {
		return "", nil, nil
	}
	at := map[string]int{}
	var all []multihash.Multihash
	for i, ad := range d.ads {
		for _, m := range ad {
			at[string(m)] = i
		}
		all = append(all, ad...)
	}
	resp, err := cl.FindBatch(ctx, all)
	if err != nil {
		return "lookup of advertised content", "an answer", err.Error()
	}
	found := make([]int, len(d.ads))
	for _, m := range resp.MultihashResults {
		i, ok := at[string(m.Multihash)]
		if !ok {
			return "lookup of advertised content", "what was asked for", m.Multihash.B58String()
		}
		found[i]++
		if len(m.ProviderResults) != 1 || m.ProviderResults[0].Provider.ID != d.ch.ident.ID || string(m.ProviderResults[0].ContextID) != fmt.Sprint("ctx-", i+1) ||
			string(m.ProviderResults[0].Metadata) != fmt.Sprint("md-", i+1) {
			return "lookup of advertised content", "the publisher's", fmt.Sprint(m.ProviderResults)
		}
	}
	for i, n := range found {
		full := n == len(d.ads[i])
		what := fmt.Sprintf("content of advertisement %d of %d", i+1, len(d.ads))
		switch {
		case i < s.Exp.Ads.Got && !full:
			return what, fmt.Sprint("all of ", len(d.ads[i])), n
		case i >= s.Exp.Ads.Tried && n != 0:
			return what + ", never asked for,", 0, n
		case i > 0 && n > 0 && found[i-1] != len(d.ads[i-1]):
			return what + " though the one before is not complete", 0, n
		}
	}
	return "", nil, nil
}
