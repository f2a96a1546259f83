package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/filecoin-project/storetheindex/command"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/urfave/cli/v2"
)

// The configuration file of a node: the operator initialises it, edits it,
// breaks it and upgrades it with the real commands, which fail or are killed at
// any operation on a file; meanwhile a daemon reads it.
type ConfWorld struct {
	*World
	dir, file string
	user      map[string][]byte // the operator's own files
	armed     bool              // a command runs
	crashed   bool
	versions  [][]byte // what a reader may find at the moment
	opn       int
}

func (cw *ConfWorld) hook(op, name string, b []byte) ([]byte, error) {
	if !cw.armed || !strings.HasPrefix(name, cw.dir) {
		return b, nil
	}
	if cw.crashed {
		runtime.Goexit()
	}
	cw.event("file %s %s %d", op, strings.TrimPrefix(name, cw.dir), len(b))
	cw.hit("file:" + op)
	if f := cw.fault("file.crash", 0); f != nil {
		cw.crashed = true
		if op == "write" {
			// part of it was written
			return b[:len(b)*int(f.A)/100], errKilled
		}
		runtime.Goexit()
	}
	switch op {
	case "write":
		if f := cw.fault("file.full", 0); f != nil {
			return b[:len(b)*int(f.A)/100], syscall.ENOSPC
		}
	case "create", "rename", "remove":
		if cw.fault("file.eio", 0) != nil {
			return nil, syscall.EIO
		}
	}
	return b, nil
}

var errKilled = fmt.Errorf("killed")

// command runs a command of the program; crashed if it was killed.
func (cw *ConfWorld) command(args ...string) (err error, crashed bool) {
	app := &cli.App{Name: "storetheindex", Commands: []*cli.Command{command.InitCmd}, Writer: io.Discard, ErrWriter: io.Discard,
		ExitErrHandler: func(*cli.Context, error) {}}
	cw.crashed, cw.armed = false, true
	done := make(chan struct{})
	go func() {
		defer close(done)
		err = app.RunContext(context.Background(), append([]string{"storetheindex"}, args...))
	}()
	<-done
	cw.armed = false
	cw.event("command %v: %v crashed=%v", args, err != nil, cw.crashed)
	return err, cw.crashed
}

func (cw *ConfWorld) read(name string) []byte {
	b, err := os.ReadFile(name)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		panic(err)
	}
	return b
}

// zeroCounts are the settings for which zero is a value, not "unset".
var zeroCounts = map[string]bool{
	"Bootstrap.MinimumPeers": true, "Discovery.RediscoverWait": true, "Discovery.LotusGateway": true,
	"Ingest.RateLimit.BlocksPerSecond": true,
}

func toMap(v interface{}) map[string]interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	m := map[string]interface{}{}
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	return m
}

// sorted is a list in order: that of the default bootstrap peers is not fixed.
func sorted(v interface{}) interface{} {
	a, ok := v.([]interface{})
	if !ok {
		return v
	}
	var ss []string
	for _, x := range a {
		ss = append(ss, fmt.Sprint(x))
	}
	sortStrings(ss)
	return ss
}

// against compares a loaded configuration with the text of its file.
func (cw *ConfWorld) against(path string, got, file, def map[string]interface{}) string {
	for k, g := range got {
		p := k
		if path != "" {
			p = path + "." + k
		}
		f, have := file[k]
		if gm, ok := g.(map[string]interface{}); ok && k != "Loggers" {
			fm, _ := f.(map[string]interface{})
			dm, _ := def[k].(map[string]interface{})
			if d := cw.against(p, gm, fm, dm); d != "" {
				return d
			}
			continue
		}
		if k == "Loggers" {
			fm, _ := f.(map[string]interface{})
			gm, _ := g.(map[string]interface{})
			for l, v := range fm {
				if gm[l] != v {
					return fmt.Sprintf("%s.%s is %v, the file says %v", p, l, gm[l], v)
				}
			}
			continue
		}
		if !have {
			if d := def[k]; !reflect.DeepEqual(sorted(g), sorted(d)) {
				return fmt.Sprintf("%s is %v, not in the file, the default is %v", p, g, d)
			}
			continue
		}
		zero := f == nil || f == "" || f == "0s" || f == 0.0
		if a, ok := f.([]interface{}); ok && len(a) == 0 {
			ga, _ := g.([]interface{})
			if len(ga) != 0 {
				return fmt.Sprintf("%s is %v, the file says none", p, g)
			}
			continue
		}
		if zero && !zeroCounts[p] {
			continue
		}
		if !reflect.DeepEqual(g, f) {
			return fmt.Sprintf("%s is %v, the file says %v", p, g, f)
		}
	}
	return ""
}

// parse says what a file means; nil if it is none.
func parse(b []byte) map[string]interface{} {
	m := map[string]interface{}{}
	if len(b) == 0 || json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m
}

func defaults() map[string]interface{} {
	c, err := config.InitWithIdentity(config.Identity{})
	if err != nil {
		panic(err)
	}
	m := toMap(c)
	delete(m, "Version")
	m["Version"] = 0.0
	return m
}

// load loads the configuration and judges the outcome against the versions of
// the file that a reader may have met.
func (cw *ConfWorld) load(quiet bool) *config.Config {
	c, err := config.Load(cw.file)
	if err != nil {
		if quiet && len(cw.versions) == 1 && parse(cw.versions[0]) != nil {
			cw.fail("unreadable", "a good configuration file cannot be loaded: %v", err)
		}
		return nil
	}
	got := toMap(c)
	why := ""
	for _, v := range cw.versions {
		f := parse(v)
		if f == nil {
			continue
		}
		d := cw.against("", got, f, defaults())
		if d == "" {
			cw.identity(c, f)
			return c
		}
		why = d
	}
	cw.fail("wrong-config", "loading the configuration gives something else than the file says: %s", why)
	return nil
}

// identity judges who the node would be.
func (cw *ConfWorld) identity(c *config.Config, file map[string]interface{}) {
	fi, _ := file["Identity"].(map[string]interface{})
	want := peer.ID("")
	if s, ok := fi["PrivKey"].(string); ok {
		if b, err := base64.StdEncoding.DecodeString(s); err == nil {
			if k, err := crypto.UnmarshalPrivateKey(b); err == nil {
				want, _ = peer.IDFromPrivateKey(k)
			}
		}
	}
	if s, ok := fi["PeerID"].(string); ok && s != "" && s != want.String() {
		want = ""
	}
	id, k, err := c.Identity.Decode()
	if want == "" {
		if err == nil {
			cw.fail("wrong-identity", "the node would run as %s, which its configuration does not say", id)
		}
		return
	}
	if err != nil {
		cw.fail("no-identity", "the identity of a good configuration is refused: %v", err)
		return
	}
	if id != want || !id.MatchesPrivateKey(k) {
		cw.fail("wrong-identity", "the node would run as %s instead of %s", id, want)
	}
}

// others checks the files that are the operator's own.
func (cw *ConfWorld) others(what string) {
	for name, b := range cw.user {
		if !bytes.Equal(cw.read(filepath.Join(cw.dir, name)), b) {
			cw.fail("user-file", "%s destroyed the operator's file %q", what, name)
		}
	}
}

// edited is a configuration file as operators write it.
func (cw *ConfWorld) edited(op *Op) []byte {
	r := rand.New(rand.NewSource(op.A))
	full := toMap(mustConf(r))
	if chance(r, 30) {
		full["Version"] = float64(1 + r.Intn(3))
	}
	// some settings are left out
	var thin func(m map[string]interface{}, path string)
	thin = func(m map[string]interface{}, path string) {
		ks := make([]string, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			if path == "Identity." {
				continue
			}
			if mm, ok := m[k].(map[string]interface{}); ok && k != "Loggers" {
				if chance(r, 10) && k != "Identity" {
					delete(m, k)
				} else {
					thin(mm, path+k+".")
				}
				continue
			}
			if chance(r, int(op.B)) {
				delete(m, k)
			}
		}
	}
	thin(full, "")
	id := full["Identity"].(map[string]interface{})
	switch op.X {
	case 1:
		delete(id, "PeerID")
	case 2:
		other, _ := peer.IDFromPrivateKey(keyFor("conf", 99))
		id["PeerID"] = other.String()
	case 3:
		id["PrivKey"] = "AAAA"
	}
	if chance(r, 20) {
		full["Comment"] = "kept by the operator"
	}
	b, err := json.MarshalIndent(full, "", pickStr(r, "", "  ", "\t"))
	if err != nil {
		panic(err)
	}
	if chance(r, 30) {
		b = append(b, '\n')
	}
	return b
}

func pickStr(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

// mustConf is a configuration with settings other than the defaults.
func mustConf(r *rand.Rand) *config.Config {
	k := keyFor("conf", r.Intn(4))
	kb, err := crypto.MarshalPrivateKey(k)
	if err != nil {
		panic(err)
	}
	id, err := peer.IDFromPrivateKey(k)
	if err != nil {
		panic(err)
	}
	c, err := config.InitWithIdentity(config.Identity{PeerID: id.String(), PrivKey: base64.StdEncoding.EncodeToString(kb)})
	if err != nil {
		panic(err)
	}
	var vary func(v reflect.Value)
	vary = func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			name := v.Type().Field(i).Name
			if name == "Identity" || name == "Version" {
				continue
			}
			if f.Kind() == reflect.Struct {
				vary(f)
				continue
			}
			if !chance(r, 50) {
				continue
			}
			switch x := f.Addr().Interface().(type) {
			case *config.Duration:
				*x = config.Duration(time.Duration(r.Intn(4)*(1+r.Intn(100))) * time.Second)
			case *string:
				*x = pickStr(r, "", "none", "/ip4/127.0.0.1/tcp/4000", "levelds", "x")
			case *int:
				*x = r.Intn(6) - 1
			case *bool:
				*x = !*x
			case *[]string:
				*x = [][]string{nil, {}, {"/dns4/example.com/tcp/1/p2p/12D3KooWCVe8MmsEMes2FzgTpt9fXtmCY7wrq91GRiaC8PHSCCBj"}, {id.String(), id.String()}}[r.Intn(4)]
			case *map[string]string:
				*x = []map[string]string{nil, {}, {"graphsync": "debug", "other": "error"}}[r.Intn(3)]
			case *[]config.Polling:
				*x = []config.Polling{{ProviderID: id.String(), Interval: config.Duration(time.Hour), RetryAfter: config.Duration(time.Minute), StopAfter: config.Duration(2 * time.Hour)}}
			}
		}
	}
	vary(reflect.ValueOf(c).Elem())
	return c
}

func (cw *ConfWorld) step(op *Op) {
	old := cw.read(cw.file)
	switch op.K {
	case "edit", "break":
		b := cw.edited(op)
		if op.K == "break" {
			b = b[:len(b)*int(op.Y)/100]
			if op.Y == 0 {
				b = []byte{}
			}
		}
		atomically(func() {
			if err := os.WriteFile(cw.file, b, 0o644); err != nil {
				panic(err)
			}
			cw.versions, cw.opn = [][]byte{b}, cw.opn+1
		})
		cw.event("%s %x", op.K, len(b))
	case "remove":
		atomically(func() {
			os.Remove(cw.file)
			cw.versions, cw.opn = [][]byte{nil}, cw.opn+1
		})
	case "load":
		cw.load(true)
	case "init":
		args, want := cw.flags(op)
		atomically(func() { cw.versions, cw.opn = nil, cw.opn+1 })
		err, crashed := cw.command(append([]string{"init"}, args...)...)
		now := cw.read(cw.file)
		atomically(func() { cw.versions, cw.opn = [][]byte{now}, cw.opn+1 })
		if old != nil {
			if !bytes.Equal(old, now) {
				cw.fail("init-replaced", "init changed an existing configuration file")
			} else if err == nil && !crashed {
				cw.fail("init-accepted", "init reported success though there was a configuration already")
			}
			break
		}
		if err != nil || crashed {
			break
		}
		c := cw.load(true)
		if c == nil {
			if !cw.failed() {
				cw.fail("init-unusable", "init reported success and left no configuration that can be loaded")
			}
			break
		}
		if _, _, err := c.Identity.Decode(); err != nil || c.Identity.PeerID == "" {
			cw.fail("init-identity", "init left a configuration without identity: %v", err)
		}
		if c.Version != config.Version {
			cw.fail("init-version", "init wrote version %d", c.Version)
		}
		if d := cw.against("", toMap(c), want, func() map[string]interface{} {
			m := defaults()
			m["Version"], m["Identity"] = float64(c.Version), toMap(c)["Identity"]
			return m
		}()); d != "" {
			cw.fail("init-settings", "after init %v: %s", args, d)
		}
	case "upgrade":
		of := parse(old)
		ver := 0
		if of != nil {
			if v, ok := of["Version"].(float64); ok {
				ver = int(v)
			}
		}
		// While it runs a reader may find the old one or the new one, which mean the same.
		atomically(func() { cw.versions, cw.opn = [][]byte{old, upgraded(of)}, cw.opn+1 })
		err, crashed := cw.command("init", "--upgrade")
		now := cw.read(cw.file)
		backup := cw.read(fmt.Sprintf("%s.v%d", cw.file, ver))
		atomically(func() { cw.versions, cw.opn = [][]byte{now}, cw.opn+1 })
		if of == nil {
			if err == nil && !crashed {
				cw.fail("upgrade-accepted", "upgrade reported success without a good configuration")
			}
			if !bytes.Equal(now, old) {
				cw.fail("upgrade-damage", "a configuration that could not be read was changed by upgrade")
			}
			break
		}
		if !bytes.Equal(now, old) && !bytes.Equal(backup, old) {
			cw.fail("config-lost", "upgrade (failed=%v, killed=%v) left the previous configuration, with the identity of the node, neither in place nor in its backup", err != nil, crashed)
			break
		}
		atomically(func() { cw.versions, cw.opn = [][]byte{now, old, upgraded(of)}, cw.opn+1 })
		c := cw.load(false)
		if err == nil && !crashed && !cw.failed() {
			if c == nil {
				cw.fail("upgrade-unusable", "upgrade reported success and left no configuration that can be loaded")
			} else if c.Version != config.Version {
				cw.fail("upgrade-version", "upgrade left version %d", c.Version)
			} else {
				m := toMap(c)
				m["Version"] = of["Version"]
				if of["Version"] == nil {
					m["Version"] = 0.0
				}
				if d := cw.against("", m, of, defaults()); d != "" {
					cw.fail("upgrade-changed", "upgrade changed a setting: %s", d)
				}
				// the file itself names everything
				if nf := parse(now); nf == nil || cw.against("", toMap(c), nf, map[string]interface{}{}) != "" {
					cw.fail("upgrade-file", "the upgraded file is not what it loads as")
				}
			}
		}
		atomically(func() { cw.versions, cw.opn = [][]byte{now}, cw.opn+1 })
	}
	cw.others(op.K)
}

// upgraded is the old file with the version of an upgraded one.
func upgraded(m map[string]interface{}) []byte {
	if m == nil {
		return nil
	}
	n := map[string]interface{}{}
	for k, v := range m {
		n[k] = v
	}
	n["Version"] = config.Version
	b, err := json.Marshal(n)
	if err != nil {
		panic(err)
	}
	return b
}

// flags draws the flags of init, and what they should set.
func (cw *ConfWorld) flags(op *Op) ([]string, map[string]interface{}) {
	var args []string
	addr, boot, idx, disc, ing := map[string]interface{}{}, map[string]interface{}{}, map[string]interface{}{}, map[string]interface{}{}, map[string]interface{}{}
	on := func(bit uint) bool { return op.A>>bit&1 == 1 }
	if on(0) {
		n := []int{-1, 5, 100}[op.A>>10%3]
		args = append(args, fmt.Sprintf("--cachesize=%d", n))
		idx["CacheSize"] = float64(n)
	}
	if on(1) {
		args = append(args, "--store=memory")
		idx["ValueStoreType"] = "memory"
	}
	if on(2) {
		args = append(args, "--listen-admin=/ip4/127.0.0.1/tcp/5002")
		addr["Admin"] = "/ip4/127.0.0.1/tcp/5002"
	}
	if on(3) {
		args = append(args, "--listen-finder=/ip4/127.0.0.1/tcp/5000")
		addr["Finder"] = "/ip4/127.0.0.1/tcp/5000"
	}
	if on(4) {
		args = append(args, "--listen-ingest=/ip4/127.0.0.1/tcp/5001")
		addr["Ingest"] = "/ip4/127.0.0.1/tcp/5001"
	}
	if on(5) {
		args = append(args, "--lotus-gateway=https://gw.example.com")
		disc["LotusGateway"] = "https://gw.example.com"
	}
	if on(6) {
		args = append(args, "--no-bootstrap")
		boot["Peers"], boot["MinimumPeers"] = []interface{}{}, 1.0
	}
	if on(7) {
		args = append(args, "--pubsub-topic=/t")
		ing["PubSubTopic"] = "/t"
	}
	return args, map[string]interface{}{"Addresses": addr, "Bootstrap": boot, "Indexer": idx, "Discovery": disc, "Ingest": ing}
}

func runConfig(w *World) {
	dir, err := scratchDir()
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	cw := &ConfWorld{World: w, dir: filepath.Join(dir, "node"), user: map[string][]byte{}, versions: [][]byte{nil}}
	cw.file = filepath.Join(cw.dir, "config")
	os.Setenv(config.EnvDir, cw.dir)
	if w.knob("dir", 0) == 1 {
		if err := os.Mkdir(cw.dir, 0o755); err != nil {
			panic(err)
		}
		names := []string{"test", "notes", "config.bak", "test.txt", "config.tmp", "config.old"}
		for i, n := range names {
			if w.knob("user", 0)>>uint(i)&1 == 1 {
				cw.user[n] = []byte("the operator's own " + n)
				if err := os.WriteFile(filepath.Join(cw.dir, n), cw.user[n], 0o644); err != nil {
					panic(err)
				}
			}
		}
	}
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout, os.Stderr = null, null
	os.SimFile = cw.hook
	defer func() { os.SimFile = nil }()
	over := false
	if w.knob("reader", 0) == 1 {
		// a running daemon looks at its configuration now and then
		go func() {
			for !over && !cw.failed() {
				time.Sleep(time.Duration(w.knob("readEvery", 50)) * time.Microsecond)
				vs := len(cw.versions)
				if vs == 0 {
					continue
				}
				// judged only if nothing changed meanwhile
				before := cw.opn
				c, err := config.Load(cw.file)
				atomically(func() {
					if err == nil && before == cw.opn {
						cw.reader(c)
					}
				})
			}
		}()
	}
	for i := range w.plan.Ops {
		op := &w.plan.Ops[i]
		if op.D > 0 {
			time.Sleep(time.Duration(op.D) * time.Microsecond)
		}
		if cw.failed() {
			break
		}
		if _, err := os.Stat(cw.dir); err != nil && op.K != "init" && op.K != "upgrade" {
			if err := os.Mkdir(cw.dir, 0o755); err != nil {
				panic(err)
			}
		}
		cw.event("op %s a=%d b=%d x=%d y=%d", op.K, op.A, op.B, op.X, op.Y)
		cw.hit("op:" + op.K)
		cw.opn++
		cw.step(op)
		cw.opn++
		cw.state("%s %v %v", op.K, cw.read(cw.file) != nil, cw.crashed)
	}
	over = true
}

// reader judges what a daemon loaded during an operation.
func (cw *ConfWorld) reader(c *config.Config) {
	got := toMap(c)
	why := ""
	for _, v := range cw.versions {
		if f := parse(v); f != nil {
			if why = cw.against("", got, f, defaults()); why == "" {
				cw.hit("read")
				return
			}
		}
	}
	if why != "" {
		cw.fail("wrong-config", "a daemon that read the configuration meanwhile got something else than the old or the new one: %s", why)
	}
}

func init() {
	register("config", &Scenario{run: runConfig, gen: func(r *rand.Rand, p *Plan, tier string) {
		k := p.Knobs
		k["dir"] = r.Int63n(2)
		k["user"] = r.Int63n(64)
		k["reader"] = r.Int63n(2)
		k["readEvery"] = pick(r, 5, 50, 500)
		n := 2 + r.Intn(10)
		if tier == "thorough" {
			n = 2 + r.Intn(25)
		}
		for i := 0; i < n; i++ {
			op := Op{D: r.Int63n(200), A: r.Int63n(1 << 20), B: pick(r, 0, 20, 60), K: pickStr(r, "edit", "edit", "edit", "break", "upgrade", "upgrade", "upgrade", "upgrade", "init", "init", "load", "remove")}
			if chance(r, 25) {
				op.X = 1 + r.Int63n(3)
			}
			op.Y = r.Int63n(100)
			p.Ops = append(p.Ops, op)
		}
		for i := 0; i < r.Intn(5); i++ {
			f := Fault{K: pickStr(r, "file.crash", "file.crash", "file.full", "file.eio"), N: r.Int63n(int64(n) * 3), A: r.Int63n(101)}
			if f.K == "file.full" {
				f.N = r.Int63n(int64(n)/2 + 1)
			}
			p.Faults = append(p.Faults, f)
		}
	}}, "P22")
}
