package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/config"
)

func init() { runners["Config"] = runConfig }

type cfgExp struct {
	File, Mem, Backup map[string]string
}
type cfgStep struct {
	Op, Res string
	Exp     cfgExp
}

// The settings and their documented defaults (doc/config.md and the comments in config/).
var cfgDefaults = map[string]interface{}{
	"Version":                          2,
	"Identity.PeerID":                  "",
	"Identity.PrivKey":                 "",
	"Addresses.Admin":                  "/ip4/127.0.0.1/tcp/3002",
	"Addresses.Finder":                 "/ip4/0.0.0.0/tcp/3000",
	"Addresses.Ingest":                 "/ip4/0.0.0.0/tcp/3001",
	"Addresses.P2PAddr":                "/ip4/0.0.0.0/tcp/3003",
	"Addresses.NoResourceManager":      false,
	"Bootstrap.Peers":                  nil, // filled in by cfgInit
	"Bootstrap.MinimumPeers":           4,
	"Datastore.Dir":                    "datastore",
	"Datastore.Type":                   "levelds",
	"Discovery.LotusGateway":           "https://api.chain.love",
	"Discovery.Policy.Allow":           true,
	"Discovery.Policy.Except":          []string{},
	"Discovery.Policy.Publish":         true,
	"Discovery.Policy.PublishExcept":   []string{},
	"Discovery.PollInterval":           24 * time.Hour,
	"Discovery.PollRetryAfter":         5 * time.Hour,
	"Discovery.PollStopAfter":          7 * 24 * time.Hour,
	"Discovery.PollOverrides":          []config.Polling{},
	"Discovery.RediscoverWait":         5 * time.Minute,
	"Discovery.Timeout":                2 * time.Minute,
	"Indexer.CacheSize":                300000,
	"Indexer.ConfigCheckInterval":      30 * time.Second,
	"Indexer.GCInterval":               30 * time.Minute,
	"Indexer.ShutdownTimeout":          10 * time.Second,
	"Indexer.ValueStoreDir":            "valuestore",
	"Indexer.ValueStoreType":           "sth",
	"Ingest.AdvertisementDepthLimit":   33554432,
	"Ingest.EntriesDepthLimit":         65536,
	"Ingest.HttpSyncRetryMax":          4,
	"Ingest.HttpSyncRetryWaitMax":      30 * time.Second,
	"Ingest.HttpSyncRetryWaitMin":      time.Second,
	"Ingest.HttpSyncTimeout":           10 * time.Second,
	"Ingest.IngestWorkerCount":         10,
	"Ingest.PubSubTopic":               "/indexer/ingest/mainnet",
	"Ingest.RateLimit.Apply":           false,
	"Ingest.RateLimit.Except":          []string{},
	"Ingest.RateLimit.BlocksPerSecond": 100,
	"Ingest.RateLimit.BurstSize":       500,
	"Ingest.ResendDirectAnnounce":      false,
	"Ingest.StoreBatchSize":            4096,
	"Ingest.SyncSegmentDepthLimit":     2000,
	"Ingest.SyncTimeout":               2 * time.Hour,
	"Logging.Level":                    "info",
	"Logging.Loggers":                  map[string]string{"basichost": "warn", "bootstrap": "warn", "dt_graphsync": "warn", "dt-impl": "warn", "graphsync": "warn"},
	"Peering.Peers":                    []string{},
}

// The bootstrap peers are a long list; only its being that list matters.
func cfgDefault(f string) interface{} {
	if f == "Bootstrap.Peers" {
		return config.NewBootstrap().Peers
	}
	return cfgDefaults[f]
}

func cfgFields() []string {
	var fs []string
	for f := range cfgDefaults {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return fs
}

func cfgRef(c *config.Config, f string) reflect.Value {
	v := reflect.ValueOf(c).Elem()
	for _, p := range strings.Split(f, ".") {
		v = v.FieldByName(p)
		if !v.IsValid() {
			broken("no setting %s", f)
		}
	}
	return v
}

// cfgVal is the value of a setting in comparable form.
func cfgVal(v reflect.Value) interface{} {
	switch x := v.Interface().(type) {
	case config.Duration:
		return time.Duration(x)
	case []string:
		return append([]string{}, x...)
	case []config.Polling:
		return append([]config.Polling{}, x...)
	case map[string]string:
		m := map[string]string{}
		for k, e := range x {
			m[k] = e
		}
		return m
	default:
		return x
	}
}

func cfgNorm(v interface{}) interface{} {
	if v == nil {
		return v
	}
	return cfgVal(reflect.ValueOf(v))
}

// theBinary is the program itself, which lies next to the harness.
func theBinary() string {
	p, err := os.Executable()
	if err != nil {
		broken("%v", err)
	}
	return filepath.Join(filepath.Dir(p), "storetheindex")
}

func sorted(v interface{}) interface{} {
	l := append([]string{}, v.([]string)...)
	sort.Strings(l)
	return l
}

type cfgRun struct {
	rng   *rand.Rand
	names map[string]string                 // setting of the specification -> setting
	vals  map[string]map[string]interface{} // setting -> label -> value
}

func (x *cfgRun) value(f, label string) interface{} {
	def := cfgDefault(f)
	switch label {
	case "def":
		return def
	case "zero":
		switch d := def.(type) {
		case []string:
			return []string{}
		case []config.Polling:
			return []config.Polling{}
		case map[string]string:
			return map[string]string{}
		default:
			return reflect.Zero(reflect.TypeOf(d)).Interface()
		}
	}
	if x.vals[f] == nil {
		x.vals[f] = map[string]interface{}{}
	}
	if v, ok := x.vals[f][label]; ok {
		return v
	}
	var v interface{}
	for v == nil || reflect.DeepEqual(v, def) || reflect.DeepEqual(v, x.value(f, "zero")) {
		n := x.rng
		strs := func() []string {
			var l []string
			for k := n.Intn(3); k >= 0; k-- {
				l = append(l, ident(fmt.Sprint("peer", n.Intn(1000))).ID.String())
			}
			return l
		}
		durs := []time.Duration{time.Duration(n.Int63n(int64(1000 * time.Hour))), time.Duration(1+n.Intn(5000)) * time.Millisecond, time.Duration(1+n.Intn(500)) * time.Minute, -time.Minute, 1, 1500 * time.Microsecond}
		switch def.(type) {
		case bool:
			v = true
			if def == true {
				x.vals[f][label] = true // there is no third value
				return true
			}
		case int:
			v = []int{-1, 1, 2, n.Intn(100), n.Intn(1 << 30), 3}[n.Intn(6)]
		case string:
			v = []string{"none", fmt.Sprint("value ", n.Intn(1000)), "/ip4/127.0.0.1/tcp/" + fmt.Sprint(1+n.Intn(60000)), "é\"\\<>&"}[n.Intn(4)]
		case time.Duration:
			v = durs[n.Intn(len(durs))]
		case []string:
			v = strs()
		case []config.Polling:
			var l []config.Polling
			for k := n.Intn(3); k >= 0; k-- {
				l = append(l, config.Polling{ProviderID: strs()[0], Interval: config.Duration(durs[n.Intn(len(durs))]), RetryAfter: config.Duration(durs[n.Intn(len(durs))]), StopAfter: config.Duration(durs[n.Intn(len(durs))])})
			}
			v = l
		case map[string]string:
			m := map[string]string{}
			for k := n.Intn(4); k >= 0; k-- {
				m[[]string{"basichost", "indexer/ingest", "dt-impl", "x", "graphsync"}[n.Intn(5)]] = []string{"warn", "debug", "error"}[n.Intn(3)]
			}
			v = m
		}
	}
	x.vals[f][label] = v
	return v
}

// durText writes a duration down in one of the ways Go reads.
func (x *cfgRun) durText(d time.Duration) string {
	switch x.rng.Intn(4) {
	case 0:
		if d%time.Second == 0 {
			return fmt.Sprintf("%ds", d/time.Second)
		}
	case 1:
		return fmt.Sprintf("%dns", int64(d))
	case 2:
		if d%time.Millisecond == 0 {
			return fmt.Sprintf("%dms", d/time.Millisecond)
		}
	}
	return d.String()
}

func (x *cfgRun) text(file map[string]string) []byte {
	root := map[string]interface{}{}
	sect := func(path []string) map[string]interface{} {
		m := root
		for _, p := range path {
			if m[p] == nil {
				m[p] = map[string]interface{}{}
			}
			m = m[p].(map[string]interface{})
		}
		return m
	}
	var fs []string
	for f := range file {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		if file[f] == "absent" {
			// the section may be there or not
			p := strings.Split(x.names[f], ".")
			if len(p) > 1 && x.rng.Intn(2) == 0 {
				sect(p[:len(p)-1])
			}
			continue
		}
		name := x.names[f]
		v := x.value(name, file[f])
		switch y := v.(type) {
		case time.Duration:
			v = x.durText(y)
		case []config.Polling:
			l := []interface{}{}
			for _, e := range y {
				l = append(l, map[string]interface{}{"ProviderID": e.ProviderID, "Interval": x.durText(time.Duration(e.Interval)), "RetryAfter": x.durText(time.Duration(e.RetryAfter)), "StopAfter": x.durText(time.Duration(e.StopAfter))})
			}
			v = l
		case []string:
			if len(y) == 0 && x.rng.Intn(2) == 0 {
				v = nil
			}
		}
		p := strings.Split(name, ".")
		sect(p[:len(p)-1])[p[len(p)-1]] = v
	}
	if x.rng.Intn(3) == 0 {
		root["SomethingElse"] = map[string]interface{}{"a": 1}
	}
	b, err := json.MarshalIndent(root, "", "  ")
	if err != nil {
		broken("%v", err)
	}
	return append(b, []string{"", "\n", "  \n\n"}[x.rng.Intn(3)]...)
}

func runConfig(tr Trace, o Opts, r *Result) {
	var steps []cfgStep
	if err := json.Unmarshal(tr.Steps, &steps); err != nil {
		broken("steps: %v", err)
	}
	r.Steps = len(steps)
	x := &cfgRun{rng: rngFor(o.Seed, tr.ID), names: map[string]string{}, vals: map[string]map[string]interface{}{}}
	root, err := os.MkdirTemp("", "config")
	if err != nil {
		broken("%v", err)
	}
	defer func() { os.RemoveAll(root) }()
	path := filepath.Join(root, "repo", "config")
	os.MkdirAll(filepath.Dir(path), 0o755)

	// the settings that the behaviour is about
	var zd, zv []string
	for _, f := range cfgFields() {
		switch {
		case f == "Version" || f == "Ingest.RateLimit.BurstSize" || strings.HasPrefix(f, "Logging."):
		case cfgZeroIsDefault[f]:
			zd = append(zd, f)
		default:
			zv = append(zv, f)
		}
	}
	x.rng.Shuffle(len(zd), func(i, j int) { zd[i], zd[j] = zd[j], zd[i] })
	x.rng.Shuffle(len(zv), func(i, j int) { zv[i], zv[j] = zv[j], zv[i] })
	var fields []string
	for f := range steps[0].Exp.Mem {
		fields = append(fields, f)
	}
	sort.Strings(fields)
	for _, f := range fields {
		switch {
		case strings.HasPrefix(f, "zd"):
			x.names[f], zd = zd[0], zd[1:]
		case strings.HasPrefix(f, "zv"):
			x.names[f], zv = zv[0], zv[1:]
		default:
			x.names[f] = f
		}
	}
	burst := "Ingest.RateLimit.BurstSize"
	memBurst, fileBurst := 0, 0
	var cur *config.Config
	isOK := func(m map[string]string) bool { return m["bad"] == "" }
	rate := func(m map[string]string) int {
		bps := "Ingest.RateLimit.BlocksPerSecond"
		for f, n := range x.names {
			if n == bps {
				l := m[f]
				if l == "" {
					l = "def"
				}
				return 5 * x.value(bps, l).(int)
			}
		}
		return 5 * cfgDefault(bps).(int)
	}
	compare := func(i int, c *config.Config, want map[string]string, b int, what string) {
		known := map[string]string{}
		for f, n := range x.names {
			known[n] = f
		}
		for _, n := range cfgFields() {
			label := "def"
			if f, ok := known[n]; ok {
				label = want[f]
			} else if strings.HasPrefix(n, "Identity.") {
				continue
			}
			var exp interface{}
			if label == "rate" {
				exp = b
			} else {
				exp = cfgNorm(x.value(n, label))
			}
			got := cfgVal(cfgRef(c, n))
			if n == "Bootstrap.Peers" {
				// the order means nothing
				exp, got = sorted(exp), sorted(got)
			}
			if !reflect.DeepEqual(exp, got) {
				fail(fmt.Sprintf("%v", exp), fmt.Sprintf("%v", got), "step %d: %s of %s", i, n, what)
			}
		}
	}
	command := func(args ...string) (string, error) {
		cmd := exec.Command(theBinary(), args...)
		cmd.Env = append(os.Environ(), "STORETHEINDEX_PATH="+filepath.Dir(path))
		b, err := cmd.CombinedOutput()
		return string(b), err
	}
	var prev cfgExp
	prev.File = map[string]string{"bad": "missing"}
	for i, s := range steps {
		r.Step = i
		before, _ := os.ReadFile(path)
		switch s.Op {
		case "write":
			os.RemoveAll(path)
			t := x.text(s.Exp.File)
			if err := os.WriteFile(path, t, 0o600); err != nil {
				broken("%v", err)
			}
		case "spoil":
			t, _ := os.ReadFile(path)
			if len(t) < 10 {
				t = x.text(map[string]string{})
			}
			os.RemoveAll(path)
			switch s.Res {
			case "missing":
			case "dir":
				os.MkdirAll(path, 0o755)
			case "empty":
				os.WriteFile(path, nil, 0o600)
			case "cut":
				t = []byte(strings.TrimSpace(string(t)))
				os.WriteFile(path, t[:1+x.rng.Intn(len(t)-1)], 0o600)
			case "type":
				bad := []string{`{"Version":"x"}`, `{"Addresses":[]}`, `{"Addresses":{"Admin":3}}`, `{"Discovery":{"PollInterval":5}}`, `{"Discovery":{"PollInterval":"5 minutes"}}`,
					`{"Ingest":{"IngestWorkerCount":"10"}}`, `{"Discovery":{"Policy":{"Allow":"yes"}}}`, `{"Logging":{"Loggers":[]}}`, `{"Discovery":{"PollOverrides":[{"Interval":""}]}}`, `[]`, `"x"`, `{"Indexer":{"GCInterval":""}}`}
				os.WriteFile(path, []byte(bad[x.rng.Intn(len(bad))]), 0o600)
			default:
				broken("unknown way to spoil a file: %s", s.Res)
			}
		case "load":
			c, err := config.Load(path)
			if s.Res == "ok" {
				if err != nil {
					fail("loaded", err.Error(), "step %d: loading a usable file", i)
				}
				if l := prev.File[burst]; l == "zero" || l == "rate" && fileBurst == 0 {
					memBurst = rate(s.Exp.Mem)
				} else if l == "rate" {
					memBurst = fileBurst
				}
				cur = c
				compare(i, c, s.Exp.Mem, memBurst, "a loaded file")
			} else {
				if err == nil {
					fail("an error", "loaded", "step %d: loading a file that is %s", i, s.Res)
				}
				if s.Res == "missing" && !errors.Is(err, config.ErrNotInitialized) {
					fail(config.ErrNotInitialized.Error(), err.Error(), "step %d: loading a missing file", i)
				}
			}
		case "set":
			for _, f := range fields {
				if s.Exp.Mem[f] != prev.Mem[f] {
					v := cfgRef(cur, x.names[f])
					n := cfgNorm(x.value(x.names[f], s.Exp.Mem[f]))
					v.Set(reflect.ValueOf(n).Convert(v.Type()))
				}
			}
		case "save":
			if err := cur.Save(path); err != nil {
				fail("saved", err.Error(), "step %d: saving", i)
			}
			fileBurst = memBurst
			compare(i, cur, s.Exp.Mem, memBurst, "the settings after saving them")
		case "upgrade":
			var err error
			var out string
			var c *config.Config
			ver := 0
			if isOK(prev.File) {
				if l := prev.File["Version"]; l != "absent" {
					ver = x.value("Version", l).(int)
				}
			}
			if x.rng.Intn(4) == 0 {
				out, err = command("init", "--upgrade")
			} else if c, err = config.Load(path); err == nil {
				err = c.UpgradeConfig(path)
			}
			if (err == nil) != (s.Res == "ok") {
				fail(s.Res, fmt.Sprint(err, " ", out), "step %d: upgrading a file that is %s", i, s.Res)
			}
			if err == nil {
				if l := prev.File[burst]; l == "zero" || l == "rate" && fileBurst == 0 {
					memBurst = rate(s.Exp.Mem)
				} else if l == "rate" {
					memBurst = fileBurst
				}
				fileBurst = memBurst
				old, err := os.ReadFile(fmt.Sprintf("%s.v%d", path, ver))
				if err != nil || string(old) != string(before) {
					fail(string(before), fmt.Sprint(err, string(old)), "step %d: the file as it was before the upgrade", i)
				}
				if c == nil {
					if c, err = config.Load(path); err != nil {
						fail("loaded", err.Error(), "step %d: loading the upgraded file", i)
					}
				}
				cur = c
				compare(i, c, s.Exp.Mem, memBurst, "an upgraded file")
				var raw map[string]json.RawMessage
				now, _ := os.ReadFile(path)
				if err := json.Unmarshal(now, &raw); err != nil {
					fail("JSON", err.Error(), "step %d: the upgraded file", i)
				}
			}
		case "init":
			out, err := command("init")
			if (err == nil) != (s.Res == "ok") {
				fail(s.Res, fmt.Sprint(err, " ", out), "step %d: init", i)
			}
			if err == nil {
				c, err := config.Load(path)
				if err != nil {
					fail("loaded", err.Error(), "step %d: loading a new file", i)
				}
				if _, _, err := c.Identity.Decode(); err != nil {
					fail("an identity", err.Error(), "step %d: identity of a new file", i)
				}
				for _, f := range []string{"Identity.PeerID", "Identity.PrivKey"} {
					if x.vals[f] == nil {
						x.vals[f] = map[string]interface{}{}
					}
					x.vals[f]["gen"] = cfgVal(cfgRef(c, f))
				}
				compare(i, c, s.Exp.File, 0, "a new file")
			}
		default:
			broken("unknown op %s", s.Op)
		}
		// a refusal leaves the file as it was
		after, _ := os.ReadFile(path)
		if (s.Op == "load" || s.Res != "ok" && s.Op != "spoil") && string(before) != string(after) {
			fail(string(before), string(after), "step %d: %s changed the file", i, s.Op)
		}
		// what is in the file is what the specification says: read it independently
		if isOK(s.Exp.File) && s.Op != "write" && s.Op != "load" && s.Op != "init" && s.Res == "ok" && s.Op != "set" {
			x.readBack(i, after, s.Exp.File, fileBurst)
		}
		prev = s.Exp
	}
}

// readBack checks the text of a file against what it should say.
func (x *cfgRun) readBack(i int, text []byte, want map[string]string, burst int) {
	var root map[string]interface{}
	if err := json.Unmarshal(text, &root); err != nil {
		fail("JSON", err.Error(), "step %d: the file", i)
	}
	for f, label := range want {
		n := x.names[f]
		var v interface{} = root
		for _, p := range strings.Split(n, ".") {
			m, _ := v.(map[string]interface{})
			v = m[p]
		}
		var exp interface{}
		if label == "rate" {
			exp = burst
		} else {
			exp = x.value(n, label)
		}
		ok := true
		switch e := exp.(type) {
		case time.Duration:
			s, _ := v.(string)
			d, err := time.ParseDuration(s)
			ok = d == e && (err == nil || e == 0)
		case int:
			g, _ := v.(float64)
			ok = int(g) == e
		case bool:
			g, _ := v.(bool)
			ok = g == e
		case string:
			g, _ := v.(string)
			ok = g == e
		case []string:
			g, _ := v.([]interface{})
			ok = len(g) == len(e)
			for k := range e {
				if n == "Bootstrap.Peers" {
					break
				}
				ok = ok && g[k] == e[k]
			}
		case []config.Polling:
			g, _ := v.([]interface{})
			ok = len(g) == len(e)
		case map[string]string:
			g, _ := v.(map[string]interface{})
			ok = len(g) == len(e)
			for k := range e {
				ok = ok && g[k] == e[k]
			}
		}
		if !ok {
			fail(fmt.Sprint(exp), fmt.Sprint(v), "step %d: %s in the file", i, n)
		}
	}
}

var cfgZeroIsDefault = map[string]bool{
	"Addresses.Admin": true, "Addresses.Finder": true, "Addresses.Ingest": true, "Addresses.P2PAddr": true,
	"Datastore.Dir": true, "Datastore.Type": true,
	"Discovery.PollInterval": true, "Discovery.PollRetryAfter": true, "Discovery.PollStopAfter": true, "Discovery.Timeout": true,
	"Indexer.CacheSize": true, "Indexer.ConfigCheckInterval": true, "Indexer.GCInterval": true, "Indexer.ShutdownTimeout": true,
	"Indexer.ValueStoreDir": true, "Indexer.ValueStoreType": true,
	"Ingest.AdvertisementDepthLimit": true, "Ingest.EntriesDepthLimit": true, "Ingest.HttpSyncRetryMax": true, "Ingest.HttpSyncRetryWaitMax": true,
	"Ingest.HttpSyncRetryWaitMin": true, "Ingest.HttpSyncTimeout": true, "Ingest.IngestWorkerCount": true, "Ingest.PubSubTopic": true,
	"Ingest.StoreBatchSize": true, "Ingest.SyncSegmentDepthLimit": true, "Ingest.SyncTimeout": true,
}
