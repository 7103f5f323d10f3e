package zzverif

import (
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

type worldOpts struct {
	ipol   bool // values have interpolation expressions
	lo     bool // there are lookup_options
	conv   bool // with conversions
	cyclic bool // expressions may form cycles
	nofn   bool // no functions of the harness
}

var rootKeys = []string{`a`, `b`, `c`, `d::e`, `f`}

// value makes a value for the key at the given position; expressions refer to later keys only unless cycles are wanted
func (h *H) worldValue(o worldOpts, at, depth int) dgo.Value {
	k := h.n_(8)
	if depth <= 0 && k > 4 {
		k = h.n_(5)
	}
	switch k {
	case 0:
		if h.one(3) {
			return vf.Nil
		}
		return vf.Integer(int64(h.n_(4)))
	case 1, 2, 3, 4:
		if !o.ipol || h.one(3) {
			return vf.String(h.pick(`x`, `y`, `z`, ``, `some text`))
		}
		return vf.String(h.worldText(o, at))
	case 5, 6:
		m := vf.MutableMap()
		for n := h.n_(4); n > 0; n-- {
			var kk dgo.Value = vf.String(h.pick(`k`, `l`, `m`, `n`))
			if o.ipol && h.one(8) {
				kk = vf.String(`%{v1}`)
			}
			m.Put(kk, h.worldValue(o, at, depth-1))
		}
		return m.FrozenCopy()
	default:
		a := vf.MutableValues()
		for n := h.n_(4); n > 0; n-- {
			a.Add(h.worldValue(o, at, depth-1))
		}
		return a.FrozenCopy()
	}
}

func (h *H) worldText(o worldOpts, at int) string {
	ref := func() string {
		i := at + 1 + h.n_(len(rootKeys))
		if o.cyclic {
			i = h.n_(len(rootKeys))
		}
		if i >= len(rootKeys) {
			return h.pick(`missing`, `missing.k`)
		}
		return rootKeys[i] + h.pick(``, ``, ``, `.k`, `.0`, `.l.1`)
	}
	q := h.pick(`'`, `"`)
	expr := func() string {
		switch h.n_(7) {
		case 0:
			return `%{` + h.pick(``, ` `) + h.pick(`v1`, `v2`, `v3`, `v4.k`, `v4.l.0`, `nosuch`, `::v1`) + h.pick(``, ` `) + `}`
		case 1:
			return `%{` + h.pick(``, `::`, `""`, `''`, `"::"`, `'::'`) + `}`
		case 2:
			return `%{literal(` + q + h.pick(`text`, `a b`, `.`) + q + `)}`
		case 3:
			return `%{scope(` + q + h.pick(`v1`, `v4.k`, `nosuch`) + q + `)}`
		default:
			return `%{` + h.pick(`lookup`, `hiera`) + `(` + q + ref() + q + `)}`
		}
	}
	switch h.n_(8) {
	case 0:
		return `%{alias(` + q + ref() + q + `)}`
	case 1:
		if o.cyclic {
			return expr() + `-` + expr()
		}
		return `%{strict_alias(` + q + ref() + q + `)}`
	case 2:
		if h.one(6) {
			return h.pick(`x%{alias('`+rootKeys[len(rootKeys)-1]+`')}`, `%{bad('x')}`, `%{a..b}`)
		}
		return h.pick(`100% `, `{x}`, `%`, `a`) + expr()
	case 3:
		return expr() + expr()
	default:
		return h.pick(``, `a`, `<`) + expr() + h.pick(``, `b`, `>`)
	}
}

func (h *H) worldData(o worldOpts) dgo.Map {
	m := vf.MutableMap()
	for i, k := range rootKeys {
		if h.one(3) {
			continue
		}
		m.Put(k, h.worldValue(o, i, 3))
	}
	if o.lo && h.one(2) {
		lo := vf.MutableMap()
		for _, k := range rootKeys {
			if h.one(2) {
				continue
			}
			e := vf.MutableMap()
			if h.one(2) {
				s := h.pick(`first`, `unique`, `hash`, `deep`)
				if h.one(20) {
					s = `nosuch`
				}
				if h.one(3) {
					e.Put(`merge`, vf.Map(`strategy`, s))
				} else {
					e.Put(`merge`, s)
				}
				if h.one(25) {
					e.Put(`merge`, h.oddMerge(s))
				}
			}
			if o.conv && h.one(3) {
				e.Put(`convert_to`, h.pick(`string`, `int`, `[]any`, `any`))
			}
			lo.Put(k, e)
		}
		m.Put(`lookup_options`, lo)
	}
	return m.FrozenCopy().(dgo.Map)
}

// genWorld makes up a configuration with data
func (h *H) genWorld(o worldOpts) *world {
	w := h.newWorld()
	w.scope[`v1`] = vf.String(h.pick(`one`, `1`, ``))
	if h.coin() {
		w.scope[`v2`] = vf.String(h.pick(`two`, `%{v1}`, `-%{v1}-`))
	}
	w.scope[`v4`] = vf.Map(`k`, h.pick(`vk`, `%{v1}`), `l`, vf.Values(`e0`, 1))
	if o.cyclic && h.coin() {
		w.scope[`v3`] = vf.String(h.pick(`%{v3}`, `%{v2}`, `x%{lookup('a')}`))
	}
	cfg := "version: 5\nhierarchy:\n"
	nl := 1 + h.n_(4)
	for i := 0; i < nl; i++ {
		l := &level{name: fmt.Sprintf("L%d", i), kind: `data_hash`, fn: `yaml_data`, data: map[string]dgo.Map{}}
		cfg += "  - name: " + l.name + "\n"
		k := h.n_(5)
		if o.nofn && k == 4 {
			k = 0
		}
		file := func(j int) string { return fmt.Sprintf("l%d_%d.yaml", i, j) }
		put := func(name string) {
			l.files = append(l.files, name)
			if h.one(5) {
				return
			}
			d := h.worldData(o)
			l.data[name] = d
			w.write(`data/`+name, js(d))
		}
		switch k {
		case 0, 1:
			cfg += "    path: " + file(0) + "\n"
			put(file(0))
		case 2:
			cfg += "    paths:\n"
			for j := 0; j < 1+h.n_(3); j++ {
				cfg += "      - " + file(j) + "\n"
				put(file(j))
			}
		case 3:
			cfg += "    mapped_paths: [v5, x, \"l" + fmt.Sprint(i) + "_%{x}.yaml\"]\n"
			if w.scope[`v5`] == nil {
				n := h.n_(3)
				a := vf.MutableValues()
				for j := 0; j < n; j++ {
					a.Add(fmt.Sprint(j))
				}
				w.scope[`v5`] = a.FrozenCopy()
			}
			for j := 0; j < w.scope[`v5`].(dgo.Array).Len(); j++ {
				put(file(j))
			}
		default:
			l.kind, l.fn = h.pick(`lookup_key`, `data_dig`, `data_hash`), fmt.Sprintf("fn%d", i)
			cfg += "    " + l.kind + ": " + l.fn + "\n"
			if h.coin() {
				l.files = []string{``}
				l.data[``] = h.worldData(worldOpts{ipol: o.ipol && l.kind == `data_hash`, lo: o.lo, conv: o.conv, cyclic: o.cyclic})
			} else {
				cfg += "    uris:\n"
				for j := 0; j < 1+h.n_(2); j++ {
					u := fmt.Sprintf("http://x/%d", j)
					cfg += "      - " + u + "\n"
					l.files = append(l.files, u)
					l.data[u] = h.worldData(worldOpts{ipol: o.ipol && l.kind == `data_hash`, lo: o.lo, conv: o.conv, cyclic: o.cyclic})
				}
			}
			for f, d := range l.data {
				w.text += fmt.Sprintf("--- function %s at %q finds\n%s\n", l.fn, f, js(d))
			}
			w.addFunction(l)
		}
		w.levels = append(w.levels, l)
	}
	w.write(`hiera.yaml`, cfg)
	var ss []string
	for k, v := range w.scope {
		ss = append(ss, k+`=`+txt(v))
	}
	w.text += "--- scope " + strings.Join(ss, `, `) + "\n"
	return w
}

func (w *world) addFunction(l *level) {
	at := func(pc sdk.ProviderContext) string {
		if p := pc.Option(`path`); p != nil {
			return p.String()
		}
		return ``
	}
	call := func(pc sdk.ProviderContext, key string) dgo.Map {
		w.calls = append(w.calls, l.fn+`(`+at(pc)+`,`+key+`)`)
		return l.data[at(pc)]
	}
	var f interface{}
	switch l.kind {
	case `lookup_key`:
		f = func(pc sdk.ProviderContext, key string) dgo.Value { return call(pc, key).Get(key) }
	case `data_dig`:
		f = func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			return call(pc, fmt.Sprint(key)).Get(key.Get(0))
		}
	default:
		f = func(pc sdk.ProviderContext) dgo.Map { return call(pc, ``) }
	}
	w.funcs.Put(l.fn, vf.Value(f))
}

func (h *H) worldKey() string {
	k := rootKeys[h.n_(len(rootKeys))]
	return k + h.pick(``, ``, ``, ``, `.k`, `.l`, `.0`, `.1`, `.k.l`, `.k.0`, `.m.n`, `.'k'`, `."0"`)
}
