package zzverif

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/dgoyaml/yaml"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
)

// dataFile makes up a file; a nil map stands for an error, the path is empty when there is none
func (h *H) dataFile(w *world, ext string) (file string, content dgo.Map) {
	w.n++
	f := fmt.Sprintf("d%d%s", w.n, ext)
	p := filepath.Join(w.dir, f)
	switch h.n_(10) {
	case 0:
		return p, vf.Map()
	case 1:
		s := h.pick("[1]", "\"text\"", "12", "null", "{", "{\"a\": ", "[{\"a\": 1}", "")
		if ext == `.json` && h.coin() {
			s = h.pick("a: b", "{'a': 1}", `{"a": 1,}`, `{"a" 1}`, `{"a": 1} x`, `{"a": 1}}`, `{} {}`)
		}
		w.write(f, s)
		return p, nil
	case 2:
		_ = os.MkdirAll(p, 0o700)
		return p, nil
	}
	m := vf.MutableMap()
	for n := h.n_(5); n > 0; n-- {
		m.Put(h.pick(`a`, `b`, `c::d`, ``, `é`, `x y`, `a.b`), h.worldValue(worldOpts{}, 0, 3))
	}
	s := js(m)
	if ext != `.json` && m.Len() > 0 && h.coin() {
		bs, err := yaml.Marshal(m)
		if err != nil {
			h.t.Fatal(err)
		}
		s = string(bs)
	} else if h.coin() {
		var x interface{}
		if json.Unmarshal([]byte(s), &x) == nil {
			bs, _ := json.MarshalIndent(x, ``, `  `)
			s = string(bs) + "\n"
		}
	}
	w.write(f, s)
	return p, m
}

func TestC28(t *testing.T) {
	h := newH(t, "random data files in JSON and YAML (empty, missing, malformed, directories, no maps), random environments and scopes, random keys; distinct by files and keys")
	for h.more(20000) {
		w := h.newWorld()
		switch h.n_(4) {
		case 0, 1:
			ext := h.pick(`.json`, `.yaml`)
			f, m := h.dataFile(w, ext)
			if h.one(12) {
				f = ``
				m = nil
			}
			in := h.c("%s of %q\n%s", ext, strings.TrimPrefix(f, w.dir), w.text)
			h.current(in)
			opts := vf.MutableMap()
			if f != `` {
				opts.Put(`path`, f)
			}
			opts.Put(`other`, filepath.Join(w.dir, `other`))
			withInvocation(func(ic api.Invocation) {
				got := try(func() interface{} {
					if ext == `.json` {
						return provider.JSONData(ic.ServerContext(opts))
					}
					return provider.YamlData(ic.ServerContext(opts))
				})
				want := res{bad: true, err: `no map`}
				if m != nil {
					want = res{v: m}
				}
				if !sameRes(got, want) {
					h.fail(in, got.text(), want.text())
				}
			})
		case 2:
			name := h.pick(`ZZV_A`, `ZZV_B`, `ZZV_c d`, `ZZV_a::b`)
			val := h.pick(``, `x`, `a=b`, "two\nlines", ` pad `, `%{v}`, `=`)
			_ = os.Unsetenv(`ZZV_A`)
			set := h.coin()
			if set {
				_ = os.Setenv(name, val)
			} else {
				_ = os.Unsetenv(name)
			}
			key := h.pick(`env::`+name, `env::`+name, `env`, `env:`, `env::`, name, `env::`+name+`x`, `Env::`+name, `env:::`+name, `::env::`+name, `env ::`+name, `envi`)
			in := h.c("%s=%q (set: %v), environment of %q", name, val, set, key)
			withInvocation(func(ic api.Invocation) {
				v := provider.Environment(ic.ServerContext(vf.Map()), key)
				var want dgo.Value
				switch key {
				case `env::` + name:
					if set {
						want = vf.String(val)
					}
				case `env`:
					m := vf.MutableMap()
					for _, e := range os.Environ() {
						if i := strings.IndexByte(e, '='); i > 0 {
							m.Put(e[:i], e[i+1:])
						}
					}
					want = m
				}
				if !same(v, want) {
					h.fail(in, txt(v), txt(want))
				}
			})
			_ = os.Unsetenv(name)
		default:
			if h.coin() {
				w.scope[`v`] = h.worldValue(worldOpts{}, 0, 2)
				w.scope[`a::b`] = vf.String(h.pick(`x`, `%{v}`))
				w.session(nil, nil, func(s api.Session) {
					var si interface{}
					if h.coin() {
						si = map[string]interface{}{`v`: 7, `n`: `new`}
					}
					for n := 0; n < 4; n++ {
						key := h.pick(`v`, `a::b`, `n`, `v.k`, ``, `nosuch`)
						ic := s.Invocation(si, nil)
						want := w.scope[key]
						if si != nil && key == `v` {
							want = vf.Integer(7)
						}
						if si != nil && key == `n` {
							want = vf.String(`new`)
						}
						in := h.c("scope v=%s a::b=%s, nested %v: scope of %q", txt(w.scope[`v`]), txt(w.scope[`a::b`]), si, key)
						if v := provider.ScopeLookupKey(ic.ServerContext(vf.Map()), key); !same(v, want) {
							h.fail(in, txt(v), txt(want))
						}
					}
				})
				break
			}
			f, m := h.dataFile(w, `.yaml`)
			w.session(provider.YamlLookupKey, map[string]interface{}{`path`: f}, func(s api.Session) {
				for n := 0; n < 6; n++ {
					key := h.pick(`a`, `b`, `c::d`, `é`, `nosuch`)
					in := h.c("%syaml lookup of %q", w.text, key)
					h.current(in)
					got := try(func() interface{} {
						v := provider.YamlLookupKey(s.Invocation(nil, nil).ServerContext(vf.Map()), key)
						if v == nil {
							return nil
						}
						return v
					})
					want := res{bad: true, err: `no map`}
					if m != nil {
						want = res{}
						if v := m.Get(key); v != nil {
							want.v = v
						}
					}
					if !sameRes(got, want) {
						h.fail(in, got.text(), want.text())
					}
					if n == 2 && m != nil {
						// it is read once
						_ = os.RemoveAll(f)
						w.text += "--- then the file is replaced\n"
						_ = os.WriteFile(f, []byte("a: LATE\nnosuch: LATE\n"), 0o600)
					}
				}
			})
		}
		w.done()
	}
}
