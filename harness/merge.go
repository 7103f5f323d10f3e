package zzverif

import (
	"fmt"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/merge"
)

// gen makes a random value: text, number, boolean, array or map, nested up to depth
func (h *H) gen(depth int) dgo.Value {
	if h.rnd.Intn(12) == 0 {
		return vf.Nil
	}
	k := h.rnd.Intn(7)
	if depth <= 0 && k > 3 {
		k = h.rnd.Intn(4)
	}
	switch k {
	case 0, 1:
		return vf.String(h.pick(`a`, `b`, `c`, ``))
	case 2:
		return vf.Integer(int64(h.rnd.Intn(3)))
	case 3:
		return vf.Boolean(h.coin())
	case 4, 5:
		return h.genMap(depth)
	default:
		return h.genArray(depth)
	}
}

func (h *H) genArray(depth int) dgo.Array {
	a := vf.MutableValues()
	for n := h.rnd.Intn(4); n > 0; n-- {
		a.Add(h.gen(depth - 1))
	}
	return a.FrozenCopy().(dgo.Array)
}

func (h *H) genMap(depth int) dgo.Map {
	m := vf.MutableMap()
	for n := h.rnd.Intn(4); n > 0; n-- {
		m.Put(h.pick(`a`, `b`, `c`, `d`), h.gen(depth-1))
	}
	return m.FrozenCopy().(dgo.Map)
}

func txt(v interface{}) string {
	if v == nil {
		return "<not found>"
	}
	return fmt.Sprint(v)
}

// list turns a dgo array to a slice
func list(a dgo.Array) []dgo.Value {
	r := make([]dgo.Value, a.Len())
	for i := range r {
		r[i] = a.Get(i)
	}
	return r
}

func has(vs []dgo.Value, v dgo.Value) bool {
	for _, x := range vs {
		if v.Equals(x) {
			return true
		}
	}
	return false
}

func flat(v dgo.Value) []dgo.Value {
	a, ok := v.(dgo.Array)
	if !ok {
		return []dgo.Value{v}
	}
	var r []dgo.Value
	for _, e := range list(a) {
		r = append(r, flat(e)...)
	}
	return r
}

func uniq(vs []dgo.Value) []dgo.Value {
	var r []dgo.Value
	for _, v := range vs {
		if !has(r, v) {
			r = append(r, v)
		}
	}
	return r
}

func arr(vs []dgo.Value) dgo.Value {
	a := vf.MutableValues()
	for _, v := range vs {
		a.Add(v)
	}
	return a.FrozenCopy()
}

// the oracle of each strategy
func oFirst(vs []dgo.Value) dgo.Value {
	for _, v := range vs {
		if v != nil {
			return v
		}
	}
	return nil
}

func found(vs []dgo.Value) []dgo.Value {
	var r []dgo.Value
	for _, v := range vs {
		if v != nil {
			r = append(r, v)
		}
	}
	return r
}

func oUnique(vs []dgo.Value) dgo.Value {
	f := found(vs)
	if len(f) == 0 {
		return nil
	}
	if len(vs) == 1 {
		if _, ok := f[0].(dgo.Array); !ok {
			return f[0]
		}
	}
	var all []dgo.Value
	for _, v := range f {
		all = append(all, flat(v)...)
	}
	return arr(uniq(all))
}

func oHash(vs []dgo.Value) dgo.Value {
	f := found(vs)
	if len(f) == 0 {
		return nil
	}
	r := f[0]
	for _, v := range f[1:] {
		a, ok := r.(dgo.Map)
		b, ok2 := v.(dgo.Map)
		if !ok || !ok2 {
			continue
		}
		m := vf.MutableMap()
		a.EachEntry(func(e dgo.MapEntry) { m.Put(e.Key(), e.Value()) })
		b.EachEntry(func(e dgo.MapEntry) {
			if a.Get(e.Key()) == nil {
				m.Put(e.Key(), e.Value())
			}
		})
		r = m
	}
	return r
}

func oDeep2(a, b dgo.Value) dgo.Value {
	switch x := a.(type) {
	case dgo.Map:
		y, ok := b.(dgo.Map)
		if !ok {
			return a
		}
		m := vf.MutableMap()
		x.EachEntry(func(e dgo.MapEntry) {
			v := e.Value()
			if w := y.Get(e.Key()); w != nil {
				v = oDeep2(v, w)
			}
			m.Put(e.Key(), v)
		})
		y.EachEntry(func(e dgo.MapEntry) {
			if x.Get(e.Key()) == nil {
				m.Put(e.Key(), e.Value())
			}
		})
		return m
	case dgo.Array:
		if y, ok := b.(dgo.Array); ok {
			return arr(uniq(append(list(x), list(y)...)))
		}
	}
	return a
}

func oDeep(vs []dgo.Value) dgo.Value {
	f := found(vs)
	if len(f) == 0 {
		return nil
	}
	r := f[0]
	for _, v := range f[1:] {
		r = oDeep2(r, v)
	}
	return r
}

func same(a, b dgo.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Equals(b)
}

// sources makes a list of found and missing values
func (h *H) sources() []dgo.Value {
	vs := make([]dgo.Value, h.rnd.Intn(5))
	kind := h.rnd.Intn(4)
	for i := range vs {
		switch {
		case h.one(4):
		case kind == 0:
			vs[i] = h.genMap(3)
		case kind == 1:
			vs[i] = h.genArray(3)
		default:
			vs[i] = h.gen(3)
		}
	}
	return vs
}

func (h *H) mergeCase(name string, vs []dgo.Value, oracle func([]dgo.Value) dgo.Value, stops bool) {
	h.t.Helper()
	var ss []string
	for _, v := range vs {
		ss = append(ss, txt(v))
	}
	in := h.c("strategy %s over sources [%s]", name, strings.Join(ss, " | "))
	var asked []int
	var r res
	withInvocation(func(ic api.Invocation) {
		r = try(func() interface{} {
			v := merge.GetStrategy(name, nil).MergeLookup(seq(len(vs)), ic, func(x interface{}) dgo.Value {
				asked = append(asked, x.(int))
				return vs[x.(int)]
			})
			if v == nil {
				return nil
			}
			return v
		})
	})
	want := oracle(append([]dgo.Value(nil), vs...))
	if r.bad {
		h.fail(in, r.err, txt(want))
	}
	got, _ := r.v.(dgo.Value)
	if !same(got, want) {
		h.fail(in, txt(got), txt(want))
	}
	n := len(vs)
	if stops {
		for i, v := range vs {
			if v != nil {
				n = i + 1
				break
			}
		}
	}
	if g, w := fmt.Sprint(asked), fmt.Sprint(seq(n)); g != w {
		h.fail(in, "sources consulted "+g, "sources consulted "+w)
	}
	for i, v := range vs {
		if txt(v) != ss[i] {
			h.fail(in, "source changed to "+txt(v), "the sources are not modified")
		}
	}
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

const mergeRule = "random lists of up to four sources, each without a value or with a nested value; distinct by the sources"

func TestC03(t *testing.T) {
	h := newH(t, mergeRule)
	h.mergeKinds()
	for h.more(4000) {
		h.mergeCase(`first`, h.sources(), oFirst, true)
	}
}

func TestC04(t *testing.T) {
	h := newH(t, mergeRule)
	h.mergeKinds()
	for h.more(6000) {
		h.mergeCase(`unique`, h.sources(), oUnique, false)
		h.mergeCase(`hash`, h.sources(), oHash, false)
	}
}

func TestC05(t *testing.T) {
	h := newH(t, mergeRule+"; and pairs of values")
	h.mergeKinds()
	for h.more(8000) {
		h.mergeCase(`deep`, h.sources(), oDeep, false)
		a, b := h.gen(4), h.gen(4)
		if h.coin() {
			a, b = h.genMap(4), h.genMap(4)
		}
		in := h.c("merge.Deep(%s, %s)", a, b)
		sa, sb := txt(a), txt(b)
		v, merged := merge.Deep(a, b, nil)
		w := oDeep2(a, b)
		if !merged {
			v = a
		}
		if !same(v, w) {
			h.fail(in, txt(v), txt(w))
		}
		if merged != !same(a, w) {
			h.fail(in, fmt.Sprint("merged ", merged), fmt.Sprint("merged ", !same(a, w)))
		}
		if txt(a) != sa || txt(b) != sb {
			h.fail(in, "arguments changed to "+txt(a)+", "+txt(b), "the arguments are not modified")
		}
	}
}
