package zzverif

import (
	"fmt"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
)

const worldRule = "random configurations with up to four levels (data_hash files, functions, mapped paths, URIs), data, lookup_options and scope; random keys and merge options; distinct by configuration, key and options"

// lookups makes up configurations and compares lookups with the model
func (h *H) lookups(max int, o worldOpts, merges bool) {
	h.t.Helper()
	for h.more(max) {
		w := h.genWorld(o)
		w.session(nil, nil, func(s api.Session) {
			var ic api.Invocation
			for n := 0; n < 12; n++ {
				if ic == nil || h.coin() {
					ic = s.Invocation(nil, nil)
				}
				key := h.worldKey()
				if h.one(30) {
					key = h.pick(`lookup_options`, `lookup_options.a`, `a..b`, `'a`, `3`, ``, `missing`)
				}
				var merge dgo.Value
				var opts interface{}
				if merges && h.one(2) {
					m := h.pick(`first`, `unique`, `hash`, `deep`)
					if h.one(20) {
						m = `nosuch`
					}
					merge = vf.String(m)
					if h.one(3) {
						merge = vf.Map(`strategy`, m)
					}
					if h.one(20) {
						merge = h.oddMerge(m)
					}
					opts = vf.Map(`merge`, merge)
				}
				in := h.c("%slookup of %q with merge %v", w.text, key, merge)
				h.current(in)
				want := w.oracle(func() dgo.Value { return w.lookup(&mstate{}, key, merge) })
				got := lookupReal(ic, key, opts)
				if !sameRes(got, want) {
					h.fail(in, got.text(), want.text())
				}
				if got.err != `` {
					if fresh := lookupReal(s.Invocation(nil, nil), key, opts); fresh.err != got.err {
						h.fail(in+"\nafter other lookups, some of which failed, with the same invocation", got.text(), fresh.text()+" (as with a new invocation)")
					}
				}
			}
		})
		w.done()
	}
}

// oddMerge is a merge option that is not just the name of a strategy
func (h *H) oddMerge(m string) dgo.Value {
	switch h.n_(6) {
	case 0:
		return vf.Map()
	case 1:
		return vf.Map(`stratgy`, m)
	case 2:
		return vf.Map(`strategy`, 1)
	case 3:
		return vf.Map(`strategy`, vf.Values(m))
	case 4:
		return vf.Integer(1)
	}
	return vf.Values(m)
}

func TestC06(t *testing.T) {
	h := newH(t, worldRule)
	h.emptyLevels()
	h.lookups(6000, worldOpts{}, true)
}

func TestC07(t *testing.T) {
	h := newH(t, worldRule)
	h.providerLists()
	h.lookups(6000, worldOpts{lo: true}, true)
}

func TestC10(t *testing.T) {
	h := newH(t, worldRule+"; and direct interpolations of collections")
	h.collections(4000)
	h.lookups(h.n+2000, worldOpts{ipol: true}, true)
}

func TestC27(t *testing.T) {
	h := newH(t, worldRule)
	h.conversions()
	h.lookups(6000, worldOpts{lo: true, conv: true}, true)
	for i := 0; i < 300; i++ {
		w := h.genWorld(worldOpts{lo: true})
		key := h.pick(`lookup_options`, `lookup_options.a`, `lookup_options.a.merge`, `'lookup_options'`, `"lookup_options".b`)
		in := h.c("%slookup of %q", w.text, key)
		w.session(nil, nil, func(s api.Session) {
			if r := lookupReal(s.Invocation(nil, nil), key, nil); r.bad || r.v != nil {
				h.fail(in, r.text(), "not found")
			}
		})
		w.done()
	}
}

func TestC26(t *testing.T) {
	h := newH(t, worldRule+"; the expressions form cycles")
	h.lookups(5000, worldOpts{ipol: true, cyclic: true}, false)
}

func TestC17(t *testing.T) {
	h := newH(t, worldRule+"; each with every kind of explainer and without")
	h.explainModes()
	h.explanations()
	for h.more(4000) {
		w := h.genWorld(worldOpts{ipol: true, lo: true, conv: true, cyclic: h.one(3)})
		w.session(nil, nil, func(s api.Session) {
			for n := 0; n < 8; n++ {
				key := h.worldKey()
				if h.one(15) {
					key = h.pick(`lookup_options`, `lookup_options.a`, `a..b`, `missing`)
				}
				var opts interface{}
				if h.one(3) {
					opts = vf.Map(`merge`, h.pick(`first`, `unique`, `hash`, `deep`, `nosuch`))
				}
				plain := lookupReal(s.Invocation(nil, nil), key, opts)
				for k := 0; k < 3; k++ {
					ex := explain.NewExplainer(k > 0, k > 1)
					in := h.c("%slookup of %q with %v and explainer(options %v, only options %v)", w.text, key, opts, k > 0, k > 1)
					h.current(in)
					rec := &recorder{Explainer: ex}
					r := lookupReal(s.Invocation(nil, rec), key, opts)
					if !sameRes(r, plain) || r.err != plain.err {
						h.fail(in, r.text(), plain.text()+" (as without an explainer)")
					}
					if rec.depth != 0 {
						h.fail(in, fmt.Sprintf("%d steps of the explanation are still open", rec.depth), "every step that is opened is closed")
					}
					if rec.bad != `` {
						h.fail(in, rec.bad, "the steps are nested")
					}
				}
			}
		})
		w.done()
	}
}

// recorder counts the steps that are open
type recorder struct {
	api.Explainer
	depth int
	bad   string
}

func (r *recorder) Pop() {
	r.depth--
	if r.depth < 0 {
		r.bad = "a step is closed that is not open"
	}
	r.Explainer.Pop()
}
func (r *recorder) PushDataProvider(p api.DataProvider) { r.depth++; r.Explainer.PushDataProvider(p) }
func (r *recorder) PushInterpolation(s string)          { r.depth++; r.Explainer.PushInterpolation(s) }
func (r *recorder) PushInvalidKey(k interface{})        { r.depth++; r.Explainer.PushInvalidKey(k) }
func (r *recorder) PushLocation(l api.Location)         { r.depth++; r.Explainer.PushLocation(l) }
func (r *recorder) PushLookup(k api.Key)                { r.depth++; r.Explainer.PushLookup(k) }
func (r *recorder) PushMerge(m api.MergeStrategy)       { r.depth++; r.Explainer.PushMerge(m) }
func (r *recorder) PushModule(m string)                 { r.depth++; r.Explainer.PushModule(m) }
func (r *recorder) PushSegment(s interface{})           { r.depth++; r.Explainer.PushSegment(s) }
func (r *recorder) PushSubLookup(k api.Key)             { r.depth++; r.Explainer.PushSubLookup(k) }

// collections compares the interpolation of collections with the model
func (h *H) collections(max int) {
	h.t.Helper()
	for h.more(max) {
		w := h.genWorld(worldOpts{ipol: true, nofn: true})
		w.session(nil, nil, func(s api.Session) {
			for n := 0; n < 20; n++ {
				v := h.worldValue(worldOpts{ipol: true}, -1, 4)
				methods := !h.one(4)
				in := h.c("%sinterpolation of %s, methods allowed %v", w.text, js(v), methods)
				h.current(in)
				before := js(v)
				ic := s.Invocation(nil, nil).ForData()
				lic := ic
				want := w.oracle(func() dgo.Value { return w.ipol(&mstate{}, v, methods) })
				got := try(func() interface{} {
					if x := lic.Interpolate(v, methods); x != nil {
						return x
					}
					return nil
				})
				if !sameRes(got, want) {
					h.fail(in, got.text(), want.text())
				}
				if js(v) != before {
					h.fail(in, "the value is now "+js(v), "the value is not modified")
				}
				if !got.bad && got.v != nil && !want.bad && same(v, want.v.(dgo.Value)) && !contains(js(v), `%{`) {
					if _, ok := v.(dgo.Array); ok && got.v != interface{}(v) {
						h.fail(in, "another value", "the value itself")
					}
				}
			}
		})
		w.done()
	}
}
