package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

func TestC09(t *testing.T) {
	h := newH(t, worldRule+"; and direct interpolations of texts with and without methods")
	h.changedStrings()
	h.doubleInterpolation()
	for h.more(8000) {
		o := worldOpts{ipol: true, nofn: true}
		w := h.genWorld(o)
		w.session(nil, nil, func(s api.Session) {
			for n := 0; n < 30; n++ {
				txt := h.worldText(o, -1)
				switch h.n_(10) {
				case 0:
					txt = h.pick(` `, "\n", `x`, ``) + txt + h.pick(` `, "\n", ``)
				case 1:
					txt = h.pick(`%{ v1 }`, `%{unknown('x')}`, `%{lookup("a")}`, `%{lookup('a'`, `%{}`, `%{v1`, `%{{v1}}`, `%{literal('%')}{v1}`, `%{alias('v1')}%{v1}`,
						`%{v1}%{strict_alias('a')}`, `%{lookup('')}`, `%{lookup('a)}`, `%{literal('a")}`, `%{literal("it's")}`, `%{literal('say "x"')}`, `%{lookup(a)}`, `%{lookup}`, `%{v4.'k'}`, `%{'v1'}`, `%{"v1"}`, `%%{v1}`, `%{strict_alias('missing')}`, `%{alias('missing')}`, `%{Lookup('a')}`, `%{scope('v4.l.1')}`, `%{v4.l.7}`, `%{scope("v4.'k'")}`,
						"%{\tv1\t}", `%{v1}%{}%{v1}`, `%{v1}%{""}`, `%{  ::  }`, `%{literal('v1')}%{v1}`, `%{lookup('a.nosuch')}`, `%{lookup('missing')}x`, `%{hiera("d::e")}`, `%{1}`, `%{.}`, `%{v1.x}`, `\%{v1}`, `é%{v1}é`)
				}
				methods := !h.one(4)
				in := h.c("%sinterpolation of %q, methods allowed %v", w.text, txt, methods)
				h.current(in)
				ic := s.Invocation(nil, nil)
				want := w.oracle(func() dgo.Value { return w.ipolString(&mstate{}, txt, methods) })
				got := try(func() interface{} {
					if x, _ := ic.InterpolateString(txt, methods); x != nil {
						return x
					}
					return nil
				})
				if !sameRes(got, want) {
					h.fail(in, got.text(), want.text())
				}
			}
			for n := 0; n < 6; n++ {
				key := h.worldKey()
				in := h.c("%slookup of %q", w.text, key)
				h.current(in)
				want := w.oracle(func() dgo.Value { return w.lookup(&mstate{}, key, nil) })
				got := lookupReal(s.Invocation(nil, nil), key, nil)
				if !sameRes(got, want) {
					h.fail(in, got.text(), want.text())
				}
			}
		})
		w.done()
	}
}

// doubleInterpolation shows the known finding double-interpolation
func (h *H) doubleInterpolation() {
	w := h.newWorld()
	defer w.done()
	w.write(`hiera.yaml`, "version: 5\nhierarchy:\n  - name: L\n    path: l.yaml\n")
	w.write(`data/l.yaml`, "a: \"%{literal('%')}{X}\"\n")
	w.scope[`X`] = vf.String(`value of X`)
	in := h.c("%sscope X=\"value of X\", lookup of \"a\"", w.text)
	w.session(nil, nil, func(s api.Session) {
		r := lookupReal(s.Invocation(nil, nil), `a`, nil)
		switch {
		case !r.bad && same(r.v.(dgo.Value), vf.String(`%{X}`)):
		case !r.bad && same(r.v.(dgo.Value), vf.String(`value of X`)):
			h.known = append(h.known, `double-interpolation`)
		default:
			h.fail(in, r.text(), `%{X}`)
		}
	})
}

func TestC11(t *testing.T) {
	h := newH(t, "random session and invocation variables, nested temporary scopes that end normally or fail, mapped paths; distinct by all of them")
	names := []string{`a`, `b`, `c`, `x`, `aa`}
	vars := func() (map[string]dgo.Value, dgo.Map) {
		o := map[string]dgo.Value{}
		m := vf.MutableMap()
		for _, n := range names {
			if h.coin() {
				v := []dgo.Value{vf.String(h.pick(`1`, `2`, ``)), vf.Nil, vf.Boolean(false), vf.Values(1)}[h.n_(4)]
				o[n] = v
				m.Put(n, v)
			}
		}
		return o, m
	}
	for h.more(6000) {
		so, sm := vars()
		in0 := fmt.Sprintf("session variables %v", sm)
		withTop(nil, vf.Map(api.HieraConfig, `/nonexistent/hiera.yaml`, api.HieraScope, sm.FrozenCopy()), func(s api.Session) {
			for i := 0; i < 5; i++ {
				io, im := vars()
				var ic api.Invocation
				if h.one(4) {
					io = nil
					ic = s.Invocation(nil, nil)
				} else {
					ic = s.Invocation(im, nil)
				}
				in1 := h.c("%s invocation variables %v", in0, io)
				check := func(in string, over ...map[string]dgo.Value) {
					for _, n := range names {
						var w dgo.Value
						for _, o := range append(over, io, so) {
							if v, ok := o[n]; ok {
								w = v
								break
							}
						}
						for _, k := range []interface{}{n, vf.String(n)} {
							if v := ic.Scope().Get(k); !same(v, w) {
								h.fail(fmt.Sprintf("%s variable %s", in, n), txt(v), txt(w))
							}
						}
					}
				}
				check(in1)
				var rec func(in string, d int, over []map[string]dgo.Value)
				rec = func(in string, d int, over []map[string]dgo.Value) {
					if d == 0 {
						return
					}
					to, tm := vars()
					fails := h.one(3)
					in = h.c("%s, under temporary variables %v that hide the others, failing %v", in, tm, fails)
					r := tryErr(func() {
						ic.DoWithScope(tm, func() {
							full := map[string]dgo.Value{}
							for _, n := range names {
								full[n] = to[n]
							}
							check(in, full)
							rec(in, d-1, []map[string]dgo.Value{full})
							check(in+" after the nested work", full)
							if fails {
								panic(mErr{`stop`})
							}
						})
					})
					if (r != nil) != fails {
						h.fail(in, fmt.Sprint(r), "the error of the work, and no other")
					}
					check(in+" afterwards", over...)
				}
				rec(in1, 3, nil)
			}
		})
		// a variable that is mapped hides that one only
		w := h.newWorld()
		k := h.pick(names...)
		src := h.pick(`src`, `a`)
		w.scope = map[string]dgo.Value{}
		for n, v := range so {
			w.scope[n] = v
		}
		w.scope[src] = vf.Values(`p`, `q`)
		w.write(`hiera.yaml`, fmt.Sprintf("version: 5\nhierarchy:\n  - name: M\n    mapped_paths: [%s, %s, \"%%{a}-%%{b}-%%{c}-%%{x}-%%{aa}.yaml\"]\n", src, k))
		in := h.c("%svariables %v", w.text, w.scope)
		want := ``
		for _, e := range []string{`p`, `q`} {
			var ps []string
			for _, n := range names {
				v := w.scope[n]
				if n == k {
					v = vf.String(e)
				}
				s := ``
				if v != nil {
					s = v.String()
				}
				ps = append(ps, s)
			}
			want += filepath.Join(w.dir, `data`, strings.Join(ps, `-`)+`.yaml`) + "\n"
		}
		w.session(nil, nil, func(s api.Session) {
			got := ``
			for _, l := range s.Invocation(nil, nil).Config(``, ``).Hierarchy()[0].Hierarchy().Locations() {
				got += l.Resolved() + "\n"
			}
			if got != want {
				h.fail(in, got, want)
			}
		})
		w.done()
	}
}

func TestC19(t *testing.T) {
	h := newH(t, "random combinations of the options config, root, config file name, dialect and scope and of HIERA_CONFIGFILE; distinct by the combination")
	h.tried()
	h.functionsOption()
	defer os.Unsetenv(`HIERA_CONFIGFILE`)
	cwd, _ := os.Getwd()
	for h.more(3000) {
		o := vf.MutableMap()
		root, file := cwd, `hiera.yaml`
		env := ``
		if h.coin() {
			env = h.pick(`env.yaml`, `sub/env.yaml`, `hiera.yaml`)
			_ = os.Setenv(`HIERA_CONFIGFILE`, env)
			file = env
		} else {
			_ = os.Unsetenv(`HIERA_CONFIGFILE`)
		}
		if h.coin() {
			root = h.pick(`/some/root`, `rel/root`, `/`, ``)
			o.Put(api.HieraRoot, root)
		}
		if h.coin() {
			file = h.pick(`other.yaml`, `hiera.yaml`, `d/x.yaml`)
			o.Put(api.HieraConfigFileName, file)
		}
		want := filepath.Join(root, file)
		if h.one(3) {
			want = h.pick(`/x/hiera.yaml`, `y.yaml`)
			o.Put(api.HieraConfig, want)
		}
		dialect := streamer.DgoDialect()
		badDialect := false
		switch h.n_(5) {
		case 0:
			o.Put(api.HieraDialect, `dgo`)
		case 1:
			o.Put(api.HieraDialect, `pcore`)
			dialect = pcore.Dialect()
		case 2:
			o.Put(api.HieraDialect, h.pick(`puppet`, ``, `DGO`, `Pcore`))
			badDialect = true
		}
		var scope dgo.Map
		if h.coin() {
			scope = vf.MutableMap(`v`, h.pick(`1`, `2`), `n`, vf.Values(1, 2))
			o.Put(api.HieraScope, scope)
		}
		if h.coin() {
			o.Put(`something`, h.pick(`else`, ``))
		}
		wantScope := map[string]string{}
		if scope != nil {
			wantScope[`v`] = scope.Get(`v`).String()
			wantScope[`n`] = js(scope.Get(`n`))
		}
		before, frozen := js(o), o.Frozen()
		in := h.c("options %s, HIERA_CONFIGFILE %q", before, env)
		var opts interface{} = o
		if o.Len() == 0 && h.coin() {
			opts = nil
		}
		var s api.Session
		r := tryErr(func() { s = session.New(ctx, nil, opts, nil) })
		if badDialect {
			if _, ok := r.(error); !ok {
				h.fail(in, fmt.Sprint(r), "an error about the dialect")
			}
			continue
		}
		if r != nil {
			h.fail(in, "error: "+fmt.Sprint(r), "no error")
		}
		if js(o) != before || o.Frozen() != frozen || (scope != nil && scope.Frozen()) {
			h.fail(in, "the options are now "+js(o), "the options are not modified")
		}
		if o.Len() > 0 {
			for _, k := range []string{`something`, api.HieraConfig, api.HieraRoot} {
				v := o.Get(k)
				if k == api.HieraConfig && v == nil {
					continue
				}
				if !same(s.SessionOptions().Get(k), v) {
					h.fail(in+" option "+k, txt(s.SessionOptions().Get(k)), txt(v))
				}
			}
		}
		check := func(in string) {
			if g := s.SessionOptions().Get(api.HieraConfig); !same(g, vf.String(want)) {
				h.fail(in, "configuration path "+txt(g), want)
			}
			if g := s.Dialect(); fmt.Sprintf("%T", g) != fmt.Sprintf("%T", dialect) {
				h.fail(in, fmt.Sprintf("%T", g), fmt.Sprintf("%T", dialect))
			}
			for _, k := range []string{`v`, `n`, `other`} {
				g := ``
				if v := s.Scope().Get(k); v != nil {
					if g = v.String(); k == `n` {
						g = js(v)
					}
				}
				if g != wantScope[k] {
					h.fail(in, "variable "+k+" is "+g, wantScope[k])
				}
			}
		}
		check(in)
		if scope != nil {
			scope.Put(`v`, `changed`)
			scope.Put(`other`, `changed`)
		}
		o.Put(api.HieraConfig, `changed`)
		o.Put(`something`, `changed`)
		o.Put(api.HieraDialect, `changed`)
		o.Put(api.HieraScope, vf.Map(`v`, `changed`))
		_ = os.Setenv(`HIERA_CONFIGFILE`, `changed`)
		check(in + ", after the caller changed options and scope")
		if same(s.SessionOptions().Get(`something`), vf.String(`changed`)) {
			h.fail(in, "a later change of the options affects the session", "it does not")
		}
	}
}

func TestC24(t *testing.T) {
	h := newH(t, "random sequences of reads and writes of the provider cache in up to three sessions through many contexts; distinct by the sequence")
	keys := []string{`a`, `b`, ``, `1`, `true`}
	for h.more(3000) {
		type sess struct {
			s api.Session
			m map[string]dgo.Value
			c []api.ServerContext
		}
		var ss []*sess
		for i := 0; i < 1+h.n_(2); i++ {
			ss = append(ss, &sess{s: session.New(ctx, nil, vf.Map(api.HieraConfig, `/nonexistent/hiera.yaml`), nil), m: map[string]dgo.Value{}})
		}
		log := ``
		for i := 0; i < 3+h.n_(25); i++ {
			x := h.n_(len(ss))
			q := ss[x]
			if len(q.c) == 0 || h.one(3) {
				c := q.s.Invocation(nil, nil).ServerContext(nil)
				switch h.n_(4) {
				case 0:
					c = c.ForData()
				case 1:
					c = c.ForLookupOptions()
				}
				q.c = append(q.c, c)
			}
			c := q.c[h.n_(len(q.c))]
			k := h.pick(keys...)
			v := h.gen(2)
			switch h.n_(5) {
			case 0, 1:
				log += fmt.Sprintf("session %d Cache(%q, %s)\n", x, k, js(v))
				if old := c.Cache(k, v); !same(old, q.m[k]) {
					h.fail(log, txt(old), txt(q.m[k]))
				}
				q.m[k] = v
			case 2:
				m := vf.MutableMap()
				for n := h.n_(4); n > 0; n-- {
					var kk dgo.Value = vf.String(h.pick(keys...))
					if h.one(3) {
						kk = []dgo.Value{vf.Integer(1), vf.Boolean(true)}[h.n_(2)]
						if m.Get(kk.String()) != nil {
							continue
						}
					} else if m.Get(vf.Integer(1)) != nil || m.Get(vf.Boolean(true)) != nil {
						continue
					}
					m.Put(kk, h.gen(2))
				}
				log += fmt.Sprintf("session %d CacheAll(%s)\n", x, js(m))
				c.CacheAll(m)
				m.EachEntry(func(e dgo.MapEntry) { q.m[e.Key().String()] = e.Value() })
			case 3:
				log += fmt.Sprintf("session %d CachedValue(%q)\n", x, k)
				w, has := q.m[k]
				if g, ok := c.CachedValue(k); ok != has || !same(g, w) {
					h.fail(log, fmt.Sprintf("%s, %v", txt(g), ok), fmt.Sprintf("%s, %v", txt(w), has))
				}
			default:
				log += fmt.Sprintf("session %d CachedEntries\n", x)
				seen := map[string]bool{}
				c.CachedEntries(func(k string, v dgo.Value) {
					if w, has := q.m[k]; seen[k] || !has || !same(v, w) {
						h.fail(log, fmt.Sprintf("%q: %s", k, txt(v)), fmt.Sprintf("%q: %s once", k, txt(w)))
					}
					seen[k] = true
				})
				if len(seen) != len(q.m) {
					h.fail(log, fmt.Sprintf("visits %v", seen), fmt.Sprintf("visits %v", q.m))
				}
			}
		}
		h.c("%s", log)
		for _, q := range ss {
			for _, k := range keys {
				w, has := q.m[k]
				if g, ok := q.s.Invocation(nil, nil).ServerContext(nil).CachedValue(k); ok != has || !same(g, w) {
					h.fail(log+"read "+k, fmt.Sprintf("%s, %v", txt(g), ok), fmt.Sprintf("%s, %v", txt(w), has))
				}
			}
		}
	}
	_ = hiera.Lookup
	_ = sdk.ProtoVersion
}
