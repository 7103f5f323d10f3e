package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/config"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// cfgEntry is a level as the text of a configuration gives it
type cfgEntry struct {
	name, kind, fn, dataDir, pluginDir, pluginFile string
	opts                                           dgo.Map
	locs                                           []string // kind:template
	hasLocs                                        bool
}

func (e cfgEntry) String() string {
	o := `none`
	if e.opts != nil {
		o = js(e.opts)
	}
	return fmt.Sprintf("%s(%s %s, options %s, datadir %q, plugindir %q, pluginfile %q, locations %v %v)", e.name, e.kind, e.fn, o, e.dataDir, e.pluginDir, e.pluginFile, e.hasLocs, e.locs)
}

// sortGlobs puts the files that one pattern finds, the order of which is not specified, in alphabetical order
func sortGlobs(ls []string) []string {
	pat := func(s string) string {
		p := strings.SplitN(s, `:`, 3)
		if len(p) == 3 && contains(p[1], `*`) {
			return p[1]
		}
		return ``
	}
	for i := 0; i < len(ls); {
		j := i + 1
		for pat(ls[i]) != `` && j < len(ls) && pat(ls[j]) == pat(ls[i]) {
			j++
		}
		sort.Strings(ls[i:j])
		i = j
	}
	return ls
}

func realEntry(e api.Entry, resolved bool) string {
	r := cfgEntry{name: e.Name(), dataDir: e.DataDir(), pluginDir: e.PluginDir(), pluginFile: e.PluginFile(), opts: e.Options()}
	if f := e.Function(); f != nil {
		r.kind, r.fn = string(f.Kind()), f.Name()
	}
	if e.Locations() != nil {
		r.hasLocs = true
		for _, l := range e.Locations() {
			if resolved {
				r.locs = append(r.locs, fmt.Sprintf("%s:%s:%s:%v", l.Kind(), l.Original(), l.Resolved(), l.Exists()))
			} else {
				r.locs = append(r.locs, string(l.Kind())+`:`+l.Original())
			}
		}
	}
	if resolved {
		sortGlobs(r.locs)
	}
	return r.String()
}

// mkEntry makes up an entry, its text and what it means; bad tells that it must be rejected
func (h *H) mkEntry(name string, tmpl func(s string) string, defaults bool) (e cfgEntry, text string, bad bool) {
	e.name = name
	add := func(k, v string) { text += "    " + k + ": " + v + "\n" }
	q := func(s string) string { return `"` + s + `"` }
	if h.coin() {
		e.kind = h.pick(`data_hash`, `lookup_key`, `data_dig`)
		e.fn = tmpl(h.pick(`fa`, `yaml_data`, `scope`))
		add(e.kind, q(e.fn))
		if h.one(12) {
			k := h.pick(`data_hash`, `lookup_key`, `data_dig`)
			if k != e.kind {
				add(k, `other`)
				bad = true
			}
		}
	}
	if h.coin() {
		m := vf.MutableMap()
		for i := h.n_(3); i > 0; i-- {
			m.Put(h.pick(`o`, `opt_x`, `z-9`), tmpl(h.pick(`v`, `w`)))
		}
		if h.one(12) {
			m.Put(h.pick(`path`, `uri`), `x`)
			bad = true
		} else if h.one(12) {
			m.Put(h.pick(`1a`, `a_`, `a b`, ``), `x`)
			bad = true
		}
		e.opts = m
		add(`options`, js(m))
	}
	if h.one(3) {
		e.dataDir = tmpl(h.pick(`dd`, `/abs/dd`))
		add(`datadir`, q(e.dataDir))
	}
	if h.one(3) {
		e.pluginDir = tmpl(h.pick(`pd`, `/abs/pd`))
		add(`plugindir`, q(e.pluginDir))
	}
	if !defaults {
		if h.one(3) {
			e.pluginFile = h.pick(`pf`, `x%{v}`)
			add(`pluginfile`, q(e.pluginFile))
		}
		loc := func() {
			e.hasLocs = true
			n := 1 + h.n_(3)
			var ts []string
			for i := 0; i < n; i++ {
				ts = append(ts, tmpl(h.pick(`f1.yaml`, `f2.yaml`, `f3.yaml`, `no.yaml`, `*.yaml`)))
			}
			k := h.pick(`path`, `glob`, `uri`)
			if h.coin() {
				e.locs = append(e.locs, k+`:`+ts[0])
				add(k, q(ts[0]))
			} else {
				for i, t := range ts {
					e.locs = append(e.locs, k+`:`+t)
					ts[i] = q(t)
				}
				add(k+`s`, `[`+strings.Join(ts, `, `)+`]`)
			}
		}
		switch h.n_(6) {
		case 0, 1, 2:
			loc()
			if h.one(12) && !contains(text, `uris:`) {
				add(`uris`, `["x"]`)
				bad = true
			}
		case 3:
			e.hasLocs = true
			t := h.pick(`m_%{x}.yaml`, `%{v}_%{x}.yaml`)
			e.locs = []string{`mapped_paths:mapped_paths{sourceVar:` + `list, key:x, template:` + t + `}`}
			add(`mapped_paths`, `[list, x, "`+t+`"]`)
		case 4:
			if h.one(3) {
				add(h.pick(`mapped_paths`, `paths`, `globs`), h.pick(`[]`, `[""]`, `x`, `[1, 2, 3]`))
				bad = true
			}
		}
	}
	if h.one(20) {
		add(h.pick(`unknown`, `Path`, `name2`), `x`)
		bad = true
	}
	if h.one(20) {
		k := h.pick(`datadir`, `plugindir`)
		if !contains(text, k) {
			add(k, h.pick(`""`, `7`, `[a]`))
			bad = true
		}
	}
	return
}

func (h *H) mkConfig(tmpl func(s string) string) (text string, defaults *cfgEntry, hier, dhier []cfgEntry, hasHier, bad bool) {
	text = "version: " + h.pick(`5`, `5`, `5`, `5`, `5`, `5`, `5`, `5`, `5`, `4`, `"5"`, `5.5`) + "\n"
	bad = !strings.HasPrefix(text, "version: 5\n")
	if h.coin() {
		e, t, b := h.mkEntry(`defaults`, tmpl, true)
		if t != `` {
			defaults = &e
			text += "defaults:\n" + strings.ReplaceAll(t, "    ", "  ")
			bad = bad || b
		}
	}
	for _, sec := range []string{`hierarchy`, `default_hierarchy`} {
		if h.one(4) {
			continue
		}
		names := []string{`one`, `two`, `a b`, `x`}
		h.rnd.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		n := h.n_(4)
		if sec == `hierarchy` {
			hasHier = true
		}
		if n == 0 {
			text += sec + ": []\n"
			continue
		}
		text += sec + ":\n"
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			name := names[i]
			if h.one(15) {
				name = names[0]
			}
			if seen[name] {
				bad = true
			}
			seen[name] = true
			e, t, b := h.mkEntry(name, tmpl, false)
			bad = bad || b
			text += "  - name: " + name + "\n" + t
			if sec == `hierarchy` {
				hier = append(hier, e)
			} else {
				dhier = append(dhier, e)
			}
		}
	}
	return
}

func TestC12(t *testing.T) {
	h := newH(t, "random configuration texts, well-formed ones and ones with a single fault; distinct by text")
	h.equalLocations()
	defer os.Unsetenv(`HIERA_DATADIR`)
	defer os.Unsetenv(`HIERA_PLUGINDIR`)
	dir, _ := os.MkdirTemp(``, `c12`)
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, `hiera.yaml`)
	for h.more(6000) {
		dd, pd := `data`, `plugin`
		_ = os.Unsetenv(`HIERA_DATADIR`)
		_ = os.Unsetenv(`HIERA_PLUGINDIR`)
		if h.one(4) {
			dd = h.pick(`envdata`, ``)
			_ = os.Setenv(`HIERA_DATADIR`, dd)
		}
		if h.one(4) {
			pd = h.pick(`envplugin`, ``)
			_ = os.Setenv(`HIERA_PLUGINDIR`, pd)
		}
		text, defaults, hier, dhier, hasHier, bad := h.mkConfig(func(s string) string { return s })
		missing := h.one(20)
		if h.one(15) {
			text = h.pick("- a\n", "version: 5\nfoo: bar\n", "hierarchy: []\n", "version: 5\nhierarchy: x\n", "version: 5\nhierarchy:\n  - path: x\n", "version: 5\ndefaults: []\n", "{", "", "x", "version: 5\nhierarchy:\n  - name: ''\n", "version: 5\ndefaults:\n  path: x\n", "version: 5\ndefaults:\n  name: x\n", "version: 5\nhierarchy:\n  - name: x\n    mapped_paths: [a, b]\n")
			bad = true
		}
		in := h.c("HIERA_DATADIR=%q HIERA_PLUGINDIR=%q configuration\n%s", dd, pd, text)
		var want string
		std := cfgEntry{name: ``, kind: `data_hash`, fn: `yaml_data`, dataDir: dd, pluginDir: pd}
		stdH := []cfgEntry{{name: `Root`, dataDir: `.`, hasLocs: true, locs: []string{`path:data.yaml`}}, {name: `Common`, hasLocs: true, locs: []string{`path:common.yaml`}}}
		if missing {
			_ = os.Remove(p)
			in = h.c("HIERA_DATADIR=%q HIERA_PLUGINDIR=%q no configuration file", dd, pd)
			bad, defaults, hasHier, dhier = false, nil, false, nil
		} else if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
			t.Fatal(err)
		}
		if defaults == nil {
			defaults = &std
		}
		if !hasHier {
			hier = stdH
		}
		want = fmt.Sprintf("root %s defaults %s\n%v\n%v", dir, defaults, hier, dhier)
		var cfg api.Config
		if e := tryErr(func() { cfg = config.New(p) }); e != nil {
			if !bad {
				h.fail(in, fmt.Sprint("rejected: ", e), want)
			}
			continue
		}
		if bad {
			h.fail(in, "accepted", "rejected with an error")
		}
		show := func(es []api.Entry) string {
			var ss []string
			for _, e := range es {
				ss = append(ss, realEntry(e, false))
			}
			return `[` + strings.Join(ss, ` `) + `]`
		}
		wp := p
		if missing {
			wp = ``
		}
		got := fmt.Sprintf("root %s defaults %s\n%v\n%v", cfg.Root(), realEntry(cfg.Defaults(), false), show(cfg.Hierarchy()), show(cfg.DefaultHierarchy()))
		if cfg.Path() != wp {
			h.fail(in, "path "+cfg.Path(), wp)
		}
		// the name of the default entry is not observable
		got = strings.Replace(got, `defaults defaults(`, `defaults (`, 1)
		want = strings.Replace(want, `defaults defaults(`, `defaults (`, 1)
		if got != want {
			h.fail(in, got, want)
		}
	}
}

// expand is the interpolation of scope variables without methods
func expand(s string, scope map[string]dgo.Value) string {
	for k, v := range scope {
		if x, ok := v.(dgo.String); ok {
			s = strings.ReplaceAll(s, `%{`+k+`}`, x.GoString())
		}
	}
	return s
}

// resolveConfig resolves random configurations in several scopes and compares with what the text means
func (h *H) resolveConfig(max int) {
	// methods are not permitted in a configuration
	const method = `%{literal('x')}`
	hasMethod := func(e *cfgEntry) bool {
		return contains(fmt.Sprint(e.fn, e.dataDir, e.pluginDir, e.opts, e.locs), method)
	}
	h.t.Helper()
	defer os.Unsetenv(`HIERA_DATADIR`)
	defer os.Unsetenv(`HIERA_PLUGINDIR`)
	for h.more(max) {
		w := h.newWorld()
		for _, f := range []string{`data/f1.yaml`, `data/f2.yaml`, `dd/f1.yaml`, `dd1/f1.yaml`, `data/1f1.yaml`, `data/m_p.yaml`, `dd/2_q.yaml`, `data/sub/f1.yaml`} {
			if h.coin() {
				w.write(f, "{}\n")
			}
		}
		for _, f := range []string{`data/f3.yaml`, `dd/f0.yaml`, `data/1f3.yaml`} {
			if h.one(4) {
				// a directory is not one of the files that a glob finds
				_ = os.MkdirAll(filepath.Join(w.dir, f), 0o700)
			} else if h.one(4) {
				// nor is a link to nothing, which does not exist as a path either
				_ = os.MkdirAll(filepath.Join(w.dir, filepath.Dir(f)), 0o700)
				_ = os.Symlink(filepath.Join(w.dir, `nothing`), filepath.Join(w.dir, f))
			}
		}
		dd, pd := `data`, `plugin`
		_ = os.Unsetenv(`HIERA_DATADIR`)
		_ = os.Unsetenv(`HIERA_PLUGINDIR`)
		if h.one(6) {
			dd = `dd`
			_ = os.Setenv(`HIERA_DATADIR`, dd)
			pd = `envpd`
			if h.coin() {
				dd, pd = filepath.Join(w.dir, `dd1`), filepath.Join(w.dir, `abspd`)
				_ = os.Setenv(`HIERA_DATADIR`, dd)
			}
			_ = os.Setenv(`HIERA_PLUGINDIR`, pd)
		}
		text, defaults, hier, _, hasHier, bad := h.mkConfig(func(s string) string {
			switch h.n_(6) {
			case 0:
				return `%{v}` + s
			case 1:
				return s + `%{v}%{u}`
			case 2:
				return s + `%{nosuch}`
			case 3:
				if h.one(8) {
					return s + method
				}
			}
			return s
		})
		if bad || !hasHier {
			w.done()
			continue
		}
		w.write(`hiera.yaml`, text)
		cfg := config.New(filepath.Join(w.dir, `hiera.yaml`))
		w.session(nil, nil, func(s api.Session) {
			for n := 0; n < 3; n++ {
				sc := map[string]dgo.Value{`v`: vf.String(h.pick(`1`, `2`, ``, `%{u}`)), `u`: vf.String(h.pick(`U`, ``)), `nosuch`: vf.String(``)}
				sm := vf.MutableMap(`v`, sc[`v`], `u`, sc[`u`])
				if sc[`v`].String() == `%{u}` {
					sc[`v`] = sc[`u`]
				}
				var list []string
				switch h.n_(5) {
				case 0:
					sm.Put(`list`, `p`)
					list = []string{`p`}
				case 1:
					sm.Put(`list`, vf.Values(`p`, `q`, `p`))
					list = []string{`p`, `q`, `p`}
				case 2:
					sm.Put(`list`, vf.Values())
				case 3:
					sm.Put(`list`, vf.Map(`p`, `q`))
				}
				in := h.c("HIERA_DATADIR=%q HIERA_PLUGINDIR=%q\n%svariables %v", dd, pd, w.text, sm)
				h.current(in)
				ic := s.Invocation(sm, nil)
				x := func(t string) string { return expand(t, sc) }
				def := cfgEntry{kind: `data_hash`, fn: `yaml_data`, dataDir: dd, pluginDir: pd}
				if defaults != nil {
					d := *defaults
					if d.fn != `` {
						def.kind, def.fn = d.kind, d.fn
					}
					if d.dataDir != `` {
						def.dataDir = d.dataDir
					}
					if d.pluginDir != `` {
						def.pluginDir = d.pluginDir
					}
					def.opts = d.opts
				}
				absDir := func(p string) string {
					if filepath.IsAbs(p) {
						return p
					}
					return filepath.Join(w.dir, p)
				}
				xm := func(m dgo.Map) dgo.Map {
					r := vf.MutableMap()
					if m != nil {
						m.EachEntry(func(e dgo.MapEntry) { r.Put(e.Key(), x(e.Value().String())) })
					}
					return r
				}
				// built-in defaults are not templates when there is no defaults section of that setting
				var rd api.Entry
				e := tryErr(func() { rd = cfg.Defaults().Resolve(ic, nil) })
				if defaults != nil && hasMethod(defaults) {
					if e == nil {
						h.fail(in, "the defaults resolve", "an error as methods are not permitted")
					}
					continue
				}
				if e != nil {
					h.fail(in, fmt.Sprint("error: ", e), "the defaults resolve")
				}
				for i, he := range cfg.Hierarchy() {
					e := hier[i]
					if e.fn == `` {
						e.kind, e.fn = def.kind, def.fn
					}
					e.fn = x(e.fn)
					if e.dataDir == `` {
						e.dataDir = def.dataDir
					}
					e.dataDir = x(e.dataDir)
					if e.pluginDir == `` {
						e.pluginDir = def.pluginDir
					}
					e.pluginDir = absDir(x(e.pluginDir))
					if e.opts == nil {
						e.opts = def.opts
					}
					e.opts = xm(e.opts)
					root := absDir(e.dataDir)
					var locs []string
					for _, l := range e.locs {
						k, tm := l[:strings.Index(l, `:`)], l[strings.Index(l, `:`)+1:]
						switch k {
						case `path`:
							p := filepath.Join(root, x(tm))
							_, err := os.Stat(p)
							locs = append(locs, fmt.Sprintf("path:%s:%s:%v", tm, p, err == nil))
						case `uri`:
							locs = append(locs, fmt.Sprintf("uri:%s:%s:true", tm, x(tm)))
						case `glob`:
							p := filepath.Join(root, x(tm))
							ms, _ := filepath.Glob(p)
							sort.Strings(ms)
							for _, m := range ms {
								if fi, err := os.Stat(m); err != nil || fi.IsDir() {
									continue
								}
								locs = append(locs, fmt.Sprintf("path:%s:%s:true", tm, m))
							}
						default:
							tm = tm[strings.Index(tm, `template:`)+9 : len(tm)-1]
							for _, el := range list {
								p := filepath.Join(root, strings.ReplaceAll(x(tm), `%{x}`, el))
								_, err := os.Stat(p)
								locs = append(locs, fmt.Sprintf("path:%s:%s:%v", tm, p, err == nil))
							}
						}
					}
					e.locs = sortGlobs(locs)
					before := realEntry(he, false)
					var re api.Entry
					er := tryErr(func() { re = he.Resolve(ic, rd) })
					if hasMethod(&hier[i]) {
						if er == nil {
							h.fail(in, fmt.Sprintf("level %d is resolved to %s", i, realEntry(re, true)), "an error as methods are not permitted")
						}
						continue
					}
					if er != nil {
						h.fail(in, fmt.Sprint("error: ", er), e.String())
					}
					if g := realEntry(re, true); g != e.String() {
						h.fail(in, g, e.String())
					}
					if a := realEntry(he, false); a != before || a != hier[i].String() {
						h.fail(in, "the configuration is now "+a, "it is still "+hier[i].String())
					}
				}
			}
		})
		w.done()
	}
}

func TestC13(t *testing.T) {
	h := newH(t, "random configurations with templates, each resolved in three scopes; distinct by configuration and scope")
	h.resolveConfig(9000)
}

func TestC14(t *testing.T) {
	h := newH(t, "random configurations with templates, each resolved in three scopes; distinct by configuration and scope")
	h.equalLocations()
	h.resolveConfig(9000)
}

func TestC16(t *testing.T) {
	h := newH(t, "random histories of lookups, repairs and breakages of a configuration file, over several invocations of one session; distinct by the history")
	h.configPaths()
	h.waitingLoads()
	for h.more(2500) {
		w := h.newWorld()
		good := func(n int) string {
			return fmt.Sprintf("version: 5\nhierarchy:\n  - name: L\n    path: \"%%{f}%d.yaml\"\n", n)
		}
		bads := []string{"version: 4\n", "{", "- x\n", "version: 5\nhierarchy:\n  - name: L\n    path: x\n    uri: y\n", "version: 5\nhierarchy: [{name: a}, {name: a}]\n"}
		for i := 0; i < 3; i++ {
			for _, f := range []string{``, `g`} {
				w.write(fmt.Sprintf(`data/%s%d.yaml`, f, i), fmt.Sprintf("a: %s%d\n", f+`x`, i))
			}
		}
		file := `hiera.yaml`
		if h.one(3) {
			file = `other.yaml`
		}
		cur := -1 // what the file holds
		set := func(n int) {
			cur = n
			c := h.pick(bads...)
			if n >= 0 {
				c = good(n)
			}
			w.write(file, c)
		}
		set(-1)
		if h.coin() {
			set(0)
		}
		loaded := -1
		log := ``
		w.session(nil, map[string]interface{}{api.HieraConfig: filepath.Join(w.dir, file)}, func(s api.Session) {
			type inv struct {
				ic  api.Invocation
				f   string
				res string
			}
			var ics []*inv
			for i := 0; i < 3+h.n_(6); i++ {
				switch h.n_(4) {
				case 0:
					set(h.n_(4) - 1)
					log += fmt.Sprintf("the file now holds %d\n", cur)
					continue
				case 1:
					w.scope[`f`] = vf.String(h.pick(``, `g`))
				}
				var iv *inv
				if len(ics) > 0 && h.coin() {
					iv = ics[h.n_(len(ics))]
				} else {
					f := h.pick(``, `g`)
					iv = &inv{s.Invocation(vf.Map(`f`, f), nil), f, ``}
					ics = append(ics, iv)
				}
				log += fmt.Sprintf("lookup with f=%q in a %v invocation\n", iv.f, iv.res == ``)
				in := h.c("%s%s", w.text, log)
				h.current(in)
				if loaded < 0 {
					loaded = cur
				}
				want := ``
				if loaded >= 0 {
					want = fmt.Sprintf("%sx%d", iv.f, loaded)
				}
				var r res
				h.within(in, 20*time.Second, func() { r = lookupReal(iv.ic, `a`, nil) })
				got := ``
				if !r.bad && r.v != nil {
					got = fmt.Sprint(r.v)
				} else if !r.bad {
					got = `not found`
				} else if loaded >= 0 {
					got = r.text()
				}
				if got != want {
					if want == `` {
						want = `an error, and nothing is cached`
					}
					h.fail(in, got, want)
				}
				if loaded >= 0 {
					iv.res = want
					c1 := iv.ic.Config(``, ``)
					if c2 := iv.ic.Config(``, ``); c1 != c2 {
						h.fail(in, "the configuration is resolved again by the same invocation", "it is resolved once")
					}
					for _, o := range ics {
						if o.res != `` && o.ic.Config(``, ``).Config() != c1.Config() {
							h.fail(in, "invocations do not share the configuration", "it is shared")
						}
					}
				}
			}
		})
		w.done()
	}
	h.manyWaiters()
}

// manyWaiters: lookups of other goroutines come back when a load fails
func (h *H) manyWaiters() {
	for i := 0; i < 20; i++ {
		w := h.newWorld()
		w.write(`hiera.yaml`, "version: 4\n")
		in := h.c("%sfour lookups at the same time, number %d", w.text, i)
		h.current(in)
		w.session(nil, nil, func(s api.Session) {
			done := make(chan res, 4)
			for j := 0; j < 4; j++ {
				go func() { done <- lookupReal(s.Invocation(nil, nil), `a`, nil) }()
			}
			for j := 0; j < 4; j++ {
				select {
				case r := <-done:
					if !r.bad {
						h.fail(in, r.text(), "an error")
					}
				case <-time.After(20 * time.Second):
					h.fail(in, "does not return", "an error")
				}
			}
		})
		w.done()
	}
}

func TestC15(t *testing.T) {
	h := newH(t, worldRule+"; functions record how they are called")
	h.unresolved()
	for h.more(4000) {
		w := h.genWorld(worldOpts{})
		w.session(nil, nil, func(s api.Session) {
			for n := 0; n < 3; n++ {
				ic := s.Invocation(nil, nil)
				w.calls = nil
				var keys []string
				for i := 0; i < 6; i++ {
					key := h.worldKey()
					keys = append(keys, key)
					in := h.c("%slookups of %q in one invocation", w.text, keys)
					h.current(in)
					before := len(w.calls)
					want := w.oracle(func() dgo.Value { return w.lookup(&mstate{}, key, nil) })
					got := lookupReal(ic, key, nil)
					if !sameRes(got, want) {
						h.fail(in, got.text(), want.text())
					}
					segs, _ := oParse(key)
					for _, c := range w.calls[before:] {
						for _, l := range w.levels {
							if strings.HasPrefix(c, l.fn+`(`) {
								arg := c[strings.LastIndex(c, `,`)+1 : len(c)-1]
								okArg := arg == segs[0].s || arg == `lookup_options` || l.kind == `data_hash` && arg == `` || l.kind == `data_dig` && (arg == fmt.Sprint(vf.Values(segs[0].s)) || arg == fmt.Sprint(vf.Values(`lookup_options`)))
								if !okArg {
									h.fail(in, "call "+c, "the root of the key "+segs[0].s)
								}
							}
						}
					}
				}
				seen := map[string]int{}
				for _, c := range w.calls {
					seen[c]++
					for _, l := range w.levels {
						if l.kind == `data_hash` && strings.HasPrefix(c, l.fn+`(`) && seen[c] > 1 {
							h.fail(fmt.Sprintf("%slookups of %q in one invocation", w.text, keys), fmt.Sprintf("calls %v", w.calls), "a data_hash function is called at most once per location")
						}
					}
				}
			}
		})
		w.done()
	}
	h.entries(h.n + 1500)
}

// entries looks at what the functions of a level receive and what becomes of what they return
func (h *H) entries(max int) {
	for h.more(max) {
		w := h.newWorld()
		kind := h.pick(`data_hash`, `lookup_key`, `data_dig`)
		opts := vf.MutableMap()
		for i := h.n_(3); i > 0; i-- {
			opts.Put(h.pick(`o`, `p`), h.pick(`1`, `2`))
		}
		cfg := "version: 5\nhierarchy:\n  - name: F\n    " + kind + ": fn\n    options: " + js(opts) + "\n"
		var locs []string
		if h.coin() {
			locs = []string{`http://a`, `http://b`}[:1+h.n_(2)]
			cfg += "    uris: [" + strings.Join(locs, `, `) + "]\n"
		}
		w.write(`hiera.yaml`, cfg)
		var ret dgo.Value
		switch h.n_(5) {
		case 0:
			ret = nil
		case 1:
			ret = vf.Nil
		default:
			ret = h.gen(2)
		}
		raw := ret
		if kind == `data_hash` {
			m := vf.MutableMap()
			if ret != nil {
				m.Put(`k`, ret)
			}
			raw = m
		}
		var seen []string
		note := func(pc sdk.ProviderContext, key interface{}) {
			m := pc.OptionsMap()
			if m == nil {
				m = vf.Map()
			}
			seen = append(seen, fmt.Sprintf("%v %v", key, sortedMap(m)))
		}
		var fn interface{}
		switch kind {
		case `lookup_key`:
			fn = func(pc sdk.ProviderContext, key string) dgo.Value {
				note(pc, key)
				if key == `lookup_options` {
					return nil
				}
				return raw
			}
		case `data_dig`:
			fn = func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
				note(pc, key)
				if same(key.Get(0), vf.String(`lookup_options`)) {
					return nil
				}
				return raw
			}
		default:
			fn = func(pc sdk.ProviderContext) dgo.Map { note(pc, ``); return raw.(dgo.Map) }
		}
		declared := h.one(5)
		if !declared {
			w.funcs.Put(`fn`, vf.Value(fn))
		}
		in := h.c("%sfunction fn declared: %v, giving %v", w.text, !declared, txt(raw))
		h.current(in)
		w.session(nil, nil, func(s api.Session) {
			r := lookupReal(s.Invocation(nil, nil), `k`, nil)
			if declared {
				// there is neither a function nor a plugin of that name
				if !r.bad && r.v != nil {
					h.fail(in, r.text(), "not found")
				}
				return
			}
			want := res{}
			if ret != nil {
				want.v = ret
			}
			if !sameRes(r, want) {
				h.fail(in, r.text(), want.text())
			}
			key := `k`
			switch kind {
			case `data_hash`:
				key = ``
			case `data_dig`:
				key = fmt.Sprint(vf.Values(`k`))
			}
			n := len(locs)
			if ret != nil && n > 1 {
				n = 1
			}
			var ws []string
			for i := 0; i < n || i == 0 && len(locs) == 0; i++ {
				m := opts.ThawedCopy().(dgo.Map)
				if len(locs) > 0 {
					m.Put(`path`, locs[i])
				}
				ws = append(ws, fmt.Sprintf("%v %v", key, sortedMap(m)))
			}
			var got []string
			for _, c := range seen {
				if !strings.Contains(c, `lookup_options`) {
					got = append(got, c)
				}
			}
			if kind == `data_hash` {
				// the lookup of lookup_options already consulted every location
				m := map[string]bool{}
				for _, c := range got {
					m[c] = true
				}
				for _, c := range ws {
					if !m[c] {
						h.fail(in, fmt.Sprintf("calls %v", seen), fmt.Sprintf("a call %s", c))
					}
				}
			} else if fmt.Sprint(got) != fmt.Sprint(ws) {
				h.fail(in, fmt.Sprintf("calls %v", seen), fmt.Sprintf("calls %v", ws))
			}
		})
		w.done()
	}
	_ = hiera.Lookup
}

func sortedMap(m dgo.Map) string {
	var ss []string
	m.EachEntry(func(e dgo.MapEntry) { ss = append(ss, fmt.Sprintf("%v=%v", e.Key(), e.Value())) })
	sort.Strings(ss)
	return strings.Join(ss, `,`)
}
