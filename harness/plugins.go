package zzverif

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// script tells what a plugin does
type script struct {
	Handshake string // ADDR and NET stand for the address and network of the plugin
	Silent    bool   // ends without a handshake
	Hang      bool   // waits without a handshake
	Noise     string // is written after the handshake
	Deaf      bool   // ignores the signal to terminate
	Slow      int    // the time in milliseconds it takes to terminate
	Replies   map[string]answer
}

type answer struct {
	Status int
	Body   string
	Drop   bool // closes the connection without a reply
}

// runMain is the main function of the program that the harness is compiled with
var runMain func()

// TestMain makes the test binary a plugin, or the program itself, when it is started as one
func TestMain(m *testing.M) {
	if os.Getenv(`VERIF_MAIN`) != `` && runMain != nil {
		runMain()
		os.Exit(0)
	}
	if os.Getenv(`HIERA_MAGIC_COOKIE`) == strconv.Itoa(sdk.MagicCookie) {
		if bs, err := os.ReadFile(os.Args[0] + `.script`); err == nil {
			sc := &script{}
			if json.Unmarshal(bs, sc) == nil {
				sc.run()
			}
		}
		os.Exit(3)
	}
	os.Exit(m.Run())
}

func (sc *script) run() {
	logf, err := os.OpenFile(os.Args[0]+`.log`, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600)
	if err != nil {
		os.Exit(4)
	}
	nw, at := `tcp`, `127.0.0.1:0`
	if os.Getenv(`HIERA_PLUGIN_TRANSPORT`) == `unix` {
		nw, at = `unix`, filepath.Join(os.Getenv(`HIERA_PLUGIN_SOCKET_DIR`), fmt.Sprintf("p%d.sock", os.Getpid()))
	}
	_, _ = fmt.Fprintf(logf, "start %s %s\n", nw, os.Getenv(`HIERA_PLUGIN_SOCKET_DIR`))
	sc.await()
	if sc.Silent {
		os.Exit(0)
	}
	time.AfterFunc(40*time.Second, func() { os.Exit(5) })
	if sc.Hang {
		select {}
	}
	ls, err := net.Listen(nw, at)
	if err != nil {
		os.Exit(6)
	}
	_, _ = os.Stderr.WriteString("this is a plugin\n")
	_, _ = os.Stdout.WriteString(strings.NewReplacer(`ADDR`, ls.Addr().String(), `NET`, nw).Replace(sc.Handshake))
	go func() {
		if sc.Noise != `` {
			for i := 0; i < 100; i++ {
				_, _ = os.Stdout.WriteString(sc.Noise)
			}
		}
	}()
	_ = http.Serve(ls, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, _ = fmt.Fprintf(logf, "call %s %s %s\n", r.Method, r.URL.EscapedPath(), r.URL.RawQuery)
		key := r.URL.Query().Get(`key`)
		var parts []string
		if json.Unmarshal([]byte(key), &parts) == nil && len(parts) == 1 {
			key = `["` + parts[0] + `"]`
		}
		a, ok := sc.Replies[strings.TrimPrefix(r.URL.Path, `/`)+` `+key]
		if !ok {
			a, ok = sc.Replies[strings.TrimPrefix(r.URL.Path, `/`)]
		}
		if !ok {
			a = answer{Status: 404}
		}
		if a.Drop {
			if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
				_ = c.Close()
			}
			return
		}
		w.WriteHeader(a.Status)
		_, _ = w.Write([]byte(a.Body))
	}))
	os.Exit(0)
}

// await notes the process and what it is told, and ends it unless the plugin is deaf
func (sc *script) await() {
	note := func(s string) {
		if f, err := os.OpenFile(os.Args[0]+`.pids`, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600); err == nil {
			_, _ = fmt.Fprintf(f, "%s %d\n", s, os.Getpid())
			_ = f.Close()
		}
	}
	ch := make(chan os.Signal, 9)
	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
	note(`start`)
	go func() {
		for s := range ch {
			note(s.String())
			if !sc.Deaf {
				time.Sleep(time.Duration(sc.Slow) * time.Millisecond)
				os.Exit(0)
			}
		}
	}()
}

// alive tells if a process runs; one that has ended but that nobody has waited for does not
func alive(pid int) bool {
	bs, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return false
	}
	s := string(bs)
	s = s[strings.LastIndex(s, `)`)+1:]
	return !strings.HasPrefix(s, ` Z`) && !strings.HasPrefix(s, ` X`)
}

// TestC30 looks at the processes of plugins after a session has ended
func TestC30(t *testing.T) {
	h := newH(t, "sessions that start up to three plugins (that end at once, late or not at all when told to, or whose handshake fails) and end with or without an error; distinct by plugins and end")
	exe, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	for round := 0; h.more(600); round++ {
		w := h.newWorld()
		cfg := "version: 5\nhierarchy:\n"
		n := 1 + h.n_(3)
		if round == 0 {
			n = 2
		}
		var paths []string
		var scs []*script
		for i := 0; i < n; i++ {
			sc := &script{Replies: map[string]answer{`lookup_key/f`: {Status: 404}}, Slow: []int{0, 0, 30, 200}[h.n_(4)]}
			sc.Handshake = `{"version": 1, "address": "ADDR", "network": "NET", "functions": {"lookup_key": ["f"]}}`
			switch {
			case round == 0 && i == 0:
				sc.Deaf = true
			case round == 1 && i == n-1:
				sc.Hang = true
			case round > 1 && h.one(5):
				sc.Handshake = h.pick(`{"version": 2, "address": "ADDR", "network": "NET", "functions": {}}`, `{"version": 1}`, `nonsense`, `{"version": 1, "address": "ADDR", "network": "NET", "functions": {"lookup_key": 1}}`)
			}
			name := fmt.Sprintf("p%d", i)
			path := filepath.Join(w.dir, `plugin`, name)
			_ = os.MkdirAll(filepath.Dir(path), 0o700)
			_ = os.Symlink(exe, path)
			bs, _ := json.Marshal(sc)
			_ = os.WriteFile(path+`.script`, bs, 0o600)
			w.text += "plugin " + name + " " + string(bs) + "\n"
			cfg += "  - name: L" + name + "\n    lookup_key: f\n    pluginfile: " + name + "\n"
			paths, scs = append(paths, path), append(scs, sc)
		}
		w.write(`hiera.yaml`, cfg)
		o := vf.Map(api.HieraConfig, filepath.Join(w.dir, `hiera.yaml`), `unixSocketDir`, w.dir)
		end := h.n_(5)
		if round < 5 {
			end = 4 - round
		}
		in := h.c("%sa session that starts the plugins and ends %s", w.text, []string{`normally (DoWithParent)`, `with a panic (DoWithParent)`, `normally (TryWithParent)`, `with an error (TryWithParent)`, `with a panic (TryWithParent)`}[end])
		h.current(in)
		// the deaf take three seconds each, a silent one as long
		hangs := time.AfterFunc(40*time.Second, func() {
			for _, path := range paths {
				ps, _ := pids(path)
				for _, pid := range ps {
					if alive(pid) {
						_ = syscall.Kill(pid, syscall.SIGKILL)
					}
				}
			}
			fmt.Printf("FAILING-INPUT: %s\n  the code:     the session has not ended after 40 seconds\n  the property: it ends, and so do its plugins\n", cut(in, 6000))
			os.Exit(1)
		})
		bad := false
		use := func(s api.Session) {
			r := lookupReal(s.Invocation(nil, nil), `a`, nil)
			bad = r.bad
			if bad {
				// a plugin that is not accepted is ended at once
				for i, path := range paths {
					ps, _ := pids(path)
					if len(ps) == 0 {
						break
					}
					last := i == n-1
					if !last {
						nx, _ := pids(paths[i+1])
						last = len(nx) == 0
					}
					if last {
						for _, pid := range ps {
							gone(h, in, pid, `that is not accepted`)
						}
					}
				}
			}
		}
		begin := time.Now()
		switch end {
		case 0:
			hiera.DoWithParent(context.Background(), nil, o, use)
		case 1:
			_ = try(func() interface{} {
				hiera.DoWithParent(context.Background(), nil, o, func(s api.Session) { use(s); panic(`ended`) })
				return nil
			})
		default:
			_ = try(func() interface{} {
				_ = hiera.TryWithParent(context.Background(), nil, o, func(s api.Session) error {
					use(s)
					switch end {
					case 3:
						return fmt.Errorf(`ended`)
					case 4:
						panic(`ended`)
					}
					return nil
				})
				return nil
			})
		}
		took := time.Since(begin)
		hangs.Stop()
		deaf := 0
		for i, path := range paths {
			ps, log := pids(path)
			for _, pid := range ps {
				gone(h, in, pid, `of the session`)
			}
			if scs[i].Deaf {
				deaf++
			}
			if len(ps) > 0 && !bad && !strings.Contains(log, `interrupt`) {
				h.fail(in, "the plugin p"+fmt.Sprint(i)+" was not told to terminate", "it is told to terminate before it is killed")
			}
			if len(ps) > 1 {
				h.fail(in, fmt.Sprintf("%d processes of a plugin", len(ps)), "one")
			}
		}
		if deaf > 0 && !bad && took < 2500*time.Millisecond {
			h.fail(in, fmt.Sprintf("the session ended after %v", took), "a plugin has three seconds to terminate")
		}
		w.done()
	}
}

func pids(path string) (ps []int, log string) {
	bs, _ := os.ReadFile(path + `.pids`)
	log = string(bs)
	for _, l := range strings.Split(log, "\n") {
		if strings.HasPrefix(l, `start `) {
			if n, err := strconv.Atoi(l[6:]); err == nil {
				ps = append(ps, n)
			}
		}
	}
	return
}

func gone(h *H, in string, pid int, what string) {
	for i := 0; i < 200; i++ {
		if !alive(pid) {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	_ = syscall.Kill(pid, syscall.SIGKILL)
	h.fail(in, "the process of a plugin "+what+" still runs", "it has ended")
}

// answer makes up a reply; v is the value it stands for, bad that it is an error
func (h *H) answer(kind string) (a answer, v dgo.Value, bad bool) {
	switch h.n_(10) {
	case 0, 1:
		return answer{Status: 404, Body: h.pick(``, `404 value not found`, `{"a": "b"}`)}, nil, false
	case 2:
		return answer{Status: []int{500, 400, 201, 204, 403, 502, 202, 206, 304, 405, 410}[h.n_(11)], Body: ``}, nil, true
	case 3:
		return answer{Status: []int{500, 400, 201, 403, 203, 503}[h.n_(6)], Body: h.pick(`"text"`, `{"a": "other"}`)}, nil, true
	case 4:
		if h.coin() {
			return answer{Drop: true}, nil, true
		}
		return answer{Status: 200, Body: h.pick(`{`, `nonsense`, `["a"`, `"open`)}, nil, true
	}
	if kind == `data_hash` {
		m := vf.MutableMap()
		for _, k := range []string{`a`, `b`, `d::e`} {
			if h.coin() {
				m.Put(k, h.worldValue(worldOpts{}, 0, 2))
			}
		}
		v = m
	} else {
		v = h.worldValue(worldOpts{}, 0, 3)
	}
	return answer{Status: 200, Body: js(v) + h.pick(``, "\n")}, v, false
}

type pfunc struct {
	kind, name string
	answers    map[string]answer
	values     map[string]dgo.Value
	bad        map[string]bool
}

// pluginKeys are the keys the harness asks for
var pluginKeys = []string{`a`, `b`, `d::e`, `a b`, `x&y=z`, `ä%41+`}

func TestC25(t *testing.T) {
	h := newH(t, "random plugins (handshakes right and wrong in every part, functions of every kind, replies of many kinds, both transports) and lookups through them; distinct by plugin and lookups")
	exe, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	h.manyCalls(exe)
	hung := false
	for h.more(3000) {
		w := h.newWorld()
		sc := &script{Replies: map[string]answer{}}
		var fns []*pfunc
		listed := map[string][]string{}
		for _, k := range []string{`data_hash`, `lookup_key`, `data_dig`} {
			for n := h.n_(3); n > 0; n-- {
				f := &pfunc{kind: k, name: fmt.Sprintf("%s_%d", strings.Replace(k, `_`, ``, 1), n), answers: map[string]answer{}, values: map[string]dgo.Value{}, bad: map[string]bool{}}
				listed[k] = append(listed[k], f.name)
				if k == `data_hash` {
					f.answers[``], f.values[``], f.bad[``] = h.answer(k)
					sc.Replies[k+`/`+f.name] = f.answers[``]
				} else {
					for _, key := range pluginKeys {
						arg := key
						if k == `data_dig` {
							arg = `["` + key + `"]`
						}
						f.answers[key], f.values[key], f.bad[key] = h.answer(k)
						sc.Replies[k+`/`+f.name+` `+arg] = f.answers[key]
					}
				}
				fns = append(fns, f)
			}
		}
		missing := &pfunc{kind: `lookup_key`, name: `nosuch`}
		if len(fns) == 0 || h.one(10) {
			fns = append(fns, missing)
		}
		fj, _ := json.Marshal(listed)
		shake := map[string]string{`version`: `1`, `address`: `"ADDR"`, `network`: `"NET"`, `functions`: string(fj)}
		transport := h.pick(`unix`, `tcp`, ``, `other`)
		real := transport
		if transport != `tcp` {
			real = `unix`
		}
		valid := true
		if h.one(3) {
			valid = false
			switch h.n_(7) {
			case 0:
				shake[`version`] = h.pick(`2`, `0`, `"1"`, `null`, `true`, `1.5`, `[1]`, `-1`)
			case 1:
				delete(shake, h.pick(`version`, `address`, `functions`))
			case 2:
				shake[`address`] = h.pick(`null`, `7`, `["ADDR"]`)
			case 3:
				shake[`functions`] = h.pick(`null`, `7`, `["a"]`, `"lookup_key"`)
			case 4:
				sc.Silent = true
			case 5:
				// a network that is not named is tcp
				shake[`network`] = h.pick(`null`, `3`)
				if h.coin() {
					delete(shake, `network`)
				}
				valid = real == `tcp`
				if !valid {
					real = `broken` // the plugin is accepted but cannot be called
				}
			default:
				if h.one(8) && !hung {
					sc.Hang, hung = true, true
				} else {
					shake = nil
					sc.Handshake = h.pick(`nonsense`, `[]`, `"x"`, `{"version": 1`, "3\n", `null`)
					if sc.Handshake == `{"version": 1` {
						sc.Noise = ` nonsense`
					}
				}
			}
		}
		if shake != nil {
			var ps []string
			for k, v := range shake {
				ps = append(ps, `"`+k+`": `+v)
			}
			sc.Handshake = `{` + strings.Join(ps, `, `) + `}` + h.pick("\n", ``)
			if h.one(4) {
				sc.Noise = "more\n"
			}
		}
		opts := map[string]interface{}{}
		sock := w.dir
		if transport != `` {
			opts[`pluginTransport`] = transport
		}
		opts[`unixSocketDir`] = sock
		file := h.pick(`plug`, `a plugin`, `p.x`)
		pdir := filepath.Join(w.dir, h.pick(`plugin`, `other dir`))
		_ = os.MkdirAll(pdir, 0o700)
		path := filepath.Join(pdir, file)
		_ = os.Symlink(exe, path)
		bs, _ := json.Marshal(sc)
		_ = os.WriteFile(path+`.script`, bs, 0o600)
		w.text = "plugin " + strings.ReplaceAll(string(bs), w.dir, `DIR`) + "\ntransport " + transport + "\n"
		f := fns[h.n_(len(fns))]
		cfg := "version: 5\nhierarchy:\n  - name: L\n    " + f.kind + ": " + f.name + "\n    pluginfile: " + js(vf.String(file)) + "\n    plugindir: " + js(vf.String(h.pick(filepath.Base(pdir), pdir))) + "\n"
		var options dgo.Map
		if h.coin() {
			options = vf.Map(`o1`, h.pick(`x`, `a b&c`, `ä"'`), `o2`, vf.Values(1, vf.Map(`k`, true)))
			cfg += "    options: " + js(options) + "\n"
		}
		if h.one(3) {
			cfg += "    uri: http://x/y?z=1\n"
			o := vf.MutableMap()
			if options != nil {
				o.PutAll(options)
			}
			o.Put(`path`, `http://x/y?z=1`)
			options = o
		}
		w.write(`hiera.yaml`, cfg)
		started := 0
		w.session(nil, opts, func(s api.Session) {
			for n := 0; n < 6; n++ {
				key := pluginKeys[h.n_(len(pluginKeys))]
				in := h.c("%slookup of %q", w.text, key)
				h.current(in)
				before := len(readLog(path))
				got := lookupReal(s.Invocation(nil, nil), key, nil)
				log := readLog(path)
				var want res
				switch {
				case !valid && real != `broken`:
					want = res{bad: true, err: `the plugin is not accepted`}
				case f == missing:
					want = res{bad: true, err: `the plugin has no such function`}
				case real == `broken`:
					want = res{bad: true, err: `the plugin cannot be reached`}
				case f.kind == `data_hash`:
					want = f.result(``)
					if m, ok := want.v.(dgo.Map); ok {
						want = res{}
						if v := m.Get(key); v != nil {
							want.v = v
						}
					}
				default:
					want = f.result(key)
				}
				if !sameRes(got, want) {
					h.fail(in, got.text()+"\nlog of the plugin:\n"+strings.Join(log, "\n"), want.text())
				}
				if valid && len(log) > before && f != missing {
					h.pluginCall(in, f, key, options, log[len(log)-1])
				}
				started = 0
				for _, l := range log {
					if strings.HasPrefix(l, `start `) {
						started++
					}
				}
				if valid && started > 1 {
					h.fail(in, fmt.Sprintf("%d processes of the plugin were started", started), "one")
				}
				if valid && real == `unix` && len(log) > 0 && log[0] != `start unix `+sock {
					h.fail(in, log[0], `start unix `+sock)
				}
				if got.bad && !valid && n > 0 {
					break
				}
			}
		})
		w.done()
	}
}

func (f *pfunc) result(key string) res {
	if f.bad[key] {
		return res{bad: true, err: fmt.Sprintf("the reply %v", f.answers[key])}
	}
	if v := f.values[key]; v != nil {
		return res{v: v}
	}
	return res{}
}

func readLog(path string) []string {
	bs, err := os.ReadFile(path + `.log`)
	if err != nil {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(bs), "\n"), "\n")
}

// pluginCall checks that the last call of the plugin passed the options and the key
func (h *H) pluginCall(in string, f *pfunc, key string, options dgo.Map, last string) {
	h.t.Helper()
	ps := strings.SplitN(last, ` `, 4)
	if len(ps) < 4 || ps[0] != `call` {
		return
	}
	q, err := url.ParseQuery(ps[3])
	if err != nil {
		h.fail(in, last, "a valid query")
	}
	if ps[1] != `GET` || ps[2] != `/`+f.kind+`/`+f.name {
		h.fail(in, last, `GET /`+f.kind+`/`+f.name)
	}
	switch f.kind {
	case `lookup_key`:
		if q.Get(`key`) != key {
			h.fail(in, last, "the key "+key)
		}
	case `data_dig`:
		if !oneJSON(q.Get(`key`)+"\n", vf.Values(key)) {
			h.fail(in, last, "the key "+js(vf.Values(key)))
		}
	default:
		if _, ok := q[`key`]; ok {
			h.fail(in, last, "no key")
		}
	}
	if options == nil || options.Len() == 0 {
		if _, ok := q[`options`]; ok && q.Get(`options`) != `{}` {
			h.fail(in, last, "no options")
		}
		return
	}
	if !oneJSON(q.Get(`options`)+"\n", options) {
		h.fail(in, last, "the options "+js(options))
	}
}

// manyCalls makes more calls to one plugin than the process may have open files
func (h *H) manyCalls(exe string) {
	for _, transport := range []string{`unix`, `tcp`} {
		w := h.newWorld()
		sc := &script{Replies: map[string]answer{`lookup_key/f k`: {Status: 200, Body: `"v"`}, `lookup_key/f m`: {Status: 404, Body: `none`}, `lookup_key/f e`: {Status: 500, Body: `bad`}},
			Handshake: `{"version": 1, "address": "ADDR", "network": "NET", "functions": {"lookup_key": ["f"]}}` + "\n"}
		pdir := filepath.Join(w.dir, `plugin`)
		_ = os.MkdirAll(pdir, 0o700)
		path := filepath.Join(pdir, `many`)
		_ = os.Symlink(exe, path)
		bs, _ := json.Marshal(sc)
		_ = os.WriteFile(path+`.script`, bs, 0o600)
		w.text = "plugin " + string(bs) + "\ntransport " + transport + "\n"
		w.write(`hiera.yaml`, "version: 5\nhierarchy:\n  - name: L\n    lookup_key: f\n    pluginfile: many\n")
		in := h.c("%s150 lookups with at most 60 more open files", w.text)
		h.current(in)
		w.session(nil, map[string]interface{}{`pluginTransport`: transport, `unixSocketDir`: w.dir}, func(s api.Session) {
			want := map[string]string{`k`: `v`, `m`: `not found`, `e`: `an error`}
			_ = lookupReal(s.Invocation(nil, nil), `k`, nil)
			fds, _ := os.ReadDir(`/proc/self/fd`)
			var old syscall.Rlimit
			if len(fds) == 0 || syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old) != nil {
				return
			}
			lim := old
			lim.Cur = uint64(len(fds) + 60)
			if syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim) != nil {
				return
			}
			defer func() { _ = syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old) }()
			for n := 0; n < 150; n++ {
				k := []string{`k`, `m`, `e`}[n%3]
				if got := lookupReal(s.Invocation(nil, nil), k, nil).text(); !strings.HasPrefix(got, want[k]) {
					_ = syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
					h.fail(in, fmt.Sprintf("lookup %d, of %q: %s", n+1, k, got), want[k])
				}
			}
		})
		w.done()
	}
}
