package zzverif

import (
	"fmt"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

func (h *H) keyText() string {
	n := h.n_(9)
	b := strings.Builder{}
	for i := 0; i < n; i++ {
		b.WriteString(h.pick(`a`, `b`, `.`, `.`, `'`, `"`, `1`, `0`, `23`, `-`, `x y`, `::`, `é`, `%`, ` `, "\t", `+1`, `0x1`, `_`, `4294967296`, `A`, `[`, `\`, `$`, string(rune(1+h.n_(0xd000)))))
	}
	s := b.String()
	if h.one(3) {
		s = `a` + s
	}
	return s
}

// goodKey makes a key that parses
func (h *H) goodKey() string {
	for {
		b := strings.Builder{}
		b.WriteString(h.pick(`a`, `b`, `'1'`, `"x.y"`))
		for i := h.n_(5); i > 0; i-- {
			b.WriteString(h.pick(`.a`, `.b`, `.0`, `.1`, `.2`, `.-1`, `.'0'`, `."a"`, `.'c.d'`, `.d`, `.''`, `. e`, `.E`, `.+1`, `.1_0`))
		}
		if _, ok := oParse(b.String()); ok {
			return b.String()
		}
	}
}

func showSegs(segs []seg) string {
	var ss []string
	for _, s := range segs {
		if s.ix {
			ss = append(ss, fmt.Sprint(s.i))
		} else {
			ss = append(ss, fmt.Sprintf("%q", s.s))
		}
	}
	return `[` + strings.Join(ss, `, `) + `]`
}

func showParts(ps []interface{}) string {
	var ss []string
	for _, p := range ps {
		if s, ok := p.(string); ok {
			ss = append(ss, fmt.Sprintf("%q", s))
		} else if i, ok := p.(int); ok {
			ss = append(ss, fmt.Sprint(i))
		} else {
			ss = append(ss, fmt.Sprintf("%T %v", p, p))
		}
	}
	return `[` + strings.Join(ss, `, `) + `]`
}

func TestC01(t *testing.T) {
	h := newH(t, "random texts of letters, digits, dots, quotes, spaces and colons; distinct by text")
	h.equalKeys()
	for h.more(60000) {
		s := h.keyText()
		if h.one(6) {
			s = h.goodKey()
		}
		in := h.c("key %q", s)
		segs, ok := oParse(s)
		want := "error"
		if ok {
			want = fmt.Sprintf("%s root %q source %q", showSegs(segs), segs[0].s, s)
		}
		r := try(func() interface{} { return api.NewKey(s) })
		got := "error"
		if r.bad {
			if _, isErr := tryErr(func() { api.NewKey(s) }).(error); !isErr {
				h.fail(in, "a panic that is not an error", want)
			}
		} else {
			k := r.v.(api.Key)
			got = fmt.Sprintf("%s root %q source %q", showParts(k.Parts()), k.Root(), k.Source())
		}
		if got != want {
			h.fail(in, got, want)
		}
		rk := api.NewRootKey(s)
		if len(rk.Parts()) != 1 || rk.Root() != s || rk.Source() != s {
			h.fail("root "+in, showParts(rk.Parts()), "one segment that is the text")
		}
	}
}

func tryErr(f func()) (e interface{}) {
	defer func() { e = recover() }()
	f()
	return nil
}

// digValue makes a value with arrays and maps that have text and integer keys
func (h *H) digValue(depth int) dgo.Value {
	k := h.n_(6)
	if depth == 0 {
		k = h.n_(2)
	}
	switch k {
	case 0:
		return vf.String(h.pick(`a`, `b`, `text`))
	case 1:
		return []dgo.Value{vf.Integer(3), vf.Nil, vf.Boolean(false)}[h.n_(3)]
	case 2, 3:
		a := vf.MutableValues()
		for i := h.n_(4); i > 0; i-- {
			a.Add(h.digValue(depth - 1))
		}
		return a
	default:
		m := vf.MutableMap()
		for i := h.n_(6); i > 0; i-- {
			var k dgo.Value = vf.String(h.pick(`a`, `b`, `0`, `c.d`, ``, `d`))
			if h.one(3) {
				k = vf.Integer(int64(h.n_(4) - 1))
			}
			m.Put(k, h.digValue(depth-1))
		}
		return m
	}
}

func TestC02(t *testing.T) {
	h := newH(t, "random keys of up to six segments and values of arrays and maps up to depth four; distinct by key and value")
	withInvocation(func(ic api.Invocation) {
		for h.more(40000) {
			ks := h.goodKey()
			v := h.digValue(4)
			segs, _ := oParse(ks)
			k := api.NewKey(ks)
			in := h.c("key %s value %s", ks, js(v))
			before := js(v)
			want := res{}
			if w := oDig(segs[1:], v); w != nil {
				want.v = w
			}
			got := try(func() interface{} {
				if r := k.Dig(ic, v); r != nil {
					return r
				}
				return nil
			})
			if !sameRes(got, want) {
				h.fail(in+", dig", got.text(), want.text())
			}
			var w dgo.Value = v
			for i := len(segs) - 1; i > 0; i-- {
				m := vf.MutableMap()
				if segs[i].ix {
					m.Put(segs[i].i, w)
				} else {
					m.Put(segs[i].s, w)
				}
				w = m
			}
			got = try(func() interface{} { return k.Bury(v) })
			if !sameRes(got, res{v: w}) {
				h.fail(in+", bury", got.text(), txt(w))
			}
			if js(v) != before {
				h.fail(in, "the value is now "+js(v), "it is not modified")
			}
			got = try(func() interface{} { return k.Dig(ic, k.Bury(v)) })
			if !sameRes(got, res{v: v}) {
				h.fail(in+", dig after bury", got.text(), txt(v))
			}
		}
	})
}

func ensure(t dgo.Type, v dgo.Value) dgo.Value {
	if t == nil || t.Instance(v) {
		return v
	}
	return vf.New(t, v)
}

func TestC08(t *testing.T) {
	h := newH(t, "random names, data, overrides, defaults and types; distinct by all of them")
	names := []string{`a`, `b`, `c`, `d`}
	value := func() dgo.Value {
		switch h.n_(6) {
		case 0:
			return vf.String(h.pick(`1`, `12`, `x`))
		case 1:
			return vf.Integer(int64(h.n_(5)))
		case 2:
			return vf.Values(`x`)
		case 3:
			return vf.Nil
		default:
			return vf.String(h.pick(`p`, `q`))
		}
	}
	amap := func() dgo.Map {
		if h.one(5) {
			return nil
		}
		m := vf.MutableMap()
		for _, n := range names {
			if h.one(5) {
				m.Put(n, value())
			}
		}
		return m
	}
	get := func(m dgo.Map, ns []string) dgo.Value {
		if m != nil {
			for _, n := range ns {
				if v := m.Get(n); v != nil {
					return v
				}
			}
		}
		return nil
	}
	types := []dgo.Type{nil, typ.Any, typ.String, typ.Integer, tf.ParseType(`[]any`)}
	for h.more(8000) {
		data := amap()
		var asked []string
		tp := func(_ sdk.ProviderContext, key string) dgo.Value {
			asked = append(asked, key)
			if data == nil {
				return nil
			}
			return data.Get(key)
		}
		withTop(tp, nil, func(s api.Session) {
			for i := 0; i < 10; i++ {
				ic := s.Invocation(nil, nil)
				data = amap()
				override, defaults := amap(), amap()
				var dflt dgo.Value
				if h.one(4) {
					dflt = value()
				}
				var fn dgo.Producer
				called := 0
				fv := value()
				if h.coin() {
					fn = func() dgo.Value { called++; return fv }
				}
				var ns []string
				for n := h.n_(4); n > 0; n-- {
					ns = append(ns, h.pick(names...))
				}
				ty := types[h.n_(len(types))]
				in := h.c("names %v type %v data %v overrides %v defaults %v default %v function %v giving %v", ns, ty, data, override, defaults, dflt, fn != nil, fv)
				h.current(in)
				wantCalled := 0
				var wantAsked []string
				want := try(func() interface{} {
					v := get(override, ns)
					if v == nil {
						for _, n := range ns {
							wantAsked = append(wantAsked, n)
							if data != nil {
								if v = data.Get(n); v != nil {
									break
								}
							}
						}
					}
					if v == nil {
						v = get(defaults, ns)
					}
					if v == nil {
						v = dflt
					}
					if v == nil && fn != nil {
						wantCalled = 1
						v = fv
					}
					if v == nil {
						return nil
					}
					return ensure(ty, v)
				})
				asked = nil
				got := try(func() interface{} {
					if v := hiera.Lookup2(ic, ns, ty, dflt, override, defaults, nil, fn); v != nil {
						return v
					}
					return nil
				})
				if !sameRes(got, want) {
					h.fail(in, got.text(), want.text())
				}
				if called != wantCalled || fmt.Sprint(asked) != fmt.Sprint(wantAsked) {
					h.fail(in, fmt.Sprintf("the function is called %d times, the names looked up are %v", called, asked), fmt.Sprintf("%d times, %v", wantCalled, wantAsked))
				}

				if h.coin() {
					var st dgo.StructMapType
					if h.coin() {
						st = tf.ParseType(`{a:string,b:any,c:int}`).(dgo.StructMapType)
					}
					in := h.c("all of %v type %v data %v overrides %v defaults %v", ns, st, data, override, defaults)
					want := try(func() interface{} {
						m := vf.MutableMap()
						for _, n := range ns {
							v := get(override, []string{n})
							if v == nil && data != nil {
								v = data.Get(n)
							}
							if v == nil {
								v = get(defaults, []string{n})
							}
							if v == nil {
								continue
							}
							if st != nil {
								e := st.Get(n)
								if e == nil {
									mfail("no type")
								}
								v = ensure(e.Value().(dgo.Type), v)
							}
							m.Put(n, v)
						}
						return m
					})
					got := try(func() interface{} { return hiera.LookupAll(ic, ns, st, override, defaults, nil) })
					if !sameRes(got, want) {
						h.fail(in, got.text(), want.text())
					}
				}
			}
		})
	}
}
