package zzverif

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
)

// module is a module of the model: levels with data
type module struct {
	name string
	data []dgo.Map
}

func (m *module) find(key, strategy string) dgo.Value {
	var vs []dgo.Value
	for _, d := range m.data {
		v := d.Get(key)
		vs = append(vs, v)
		if v != nil && strategy == `first` {
			break
		}
	}
	return oMerge(strategy, vs)
}

func (m *module) lookup(key, root string, segs []seg, merge string) dgo.Value {
	if merge == `` {
		merge = `first`
		if lo, ok := m.find(`lookup_options`, `deep`).(dgo.Map); ok && strings.HasPrefix(root, m.name+`::`) {
			if e, ok := lo.Get(root).(dgo.Map); ok {
				if v := e.Get(`merge`); v != nil {
					merge = strategyOf(v)
				}
			}
		}
	}
	return oDig(segs, m.find(root, merge))
}

var moduleNames = []string{`mod`, `other`, `m`, `a_b`, `mod2`}

func (h *H) inCase(s string) string {
	switch h.n_(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	default:
		return s
	}
}

// moduleData makes up data of a module, with keys of this and of other modules
func (h *H) moduleData(name string) dgo.Map {
	m := vf.MutableMap()
	lo := vf.MutableMap()
	for _, n := range []string{name, name, h.pick(moduleNames...), h.inCase(name)} {
		for _, k := range []string{`::a`, `::b`, `::c::d`, `::`, ``} {
			if h.coin() {
				m.Put(n+k, h.worldValue(worldOpts{}, 0, 2))
			}
			if n == strings.ToLower(n) && h.one(3) {
				lo.Put(n+k, vf.Map(`merge`, h.pick(`first`, `unique`, `hash`, `deep`)))
			}
		}
	}
	if h.coin() {
		m.Put(`lookup_options`, lo)
	}
	return m.FrozenCopy().(dgo.Map)
}

func TestC20(t *testing.T) {
	h := newH(t, "random module paths with up to three directories that hold module directories in any case, files with a module's name, modules without a configuration and missing directories; random keys with and without a module; distinct by path and key")
	h.foldedNames()
	for h.more(8000) {
		w := h.newWorld()
		var path []string
		found := map[string]*module{}
		for i := h.n_(4); i > 0; i-- {
			p := filepath.Join(w.dir, `p`+string(rune('0'+i)))
			path = append(path, p)
			w.text += "--- directory " + filepath.Base(p) + " of the module path\n"
			if h.one(6) {
				continue // does not exist
			}
			_ = os.MkdirAll(p, 0o700)
			for _, n := range moduleNames {
				if h.coin() {
					continue
				}
				dn := h.inCase(n)
				rel := filepath.Join(filepath.Base(p), dn)
				switch h.n_(7) {
				case 0:
					w.write(rel, `a file`)
					continue
				case 1:
					_ = os.MkdirAll(filepath.Join(w.dir, rel), 0o700)
					w.text += "--- " + rel + " without a configuration\n"
					continue
				case 2:
					_ = os.MkdirAll(filepath.Join(w.dir, rel, `hiera.yaml`), 0o700)
					w.text += "--- " + rel + "/hiera.yaml is a directory\n"
					continue
				case 3:
					// besides there is one whose name differs by case and which is none
					if dn != n {
						w.write(filepath.Join(filepath.Base(p), n), `a file`)
					}
				}
				m := &module{name: n}
				cfg := "version: 5\nhierarchy:\n"
				for j := 0; j < 1+h.n_(3); j++ {
					f := string(rune('a'+j)) + `.yaml`
					cfg += "  - name: L" + f + "\n    path: " + f + "\n"
					d := h.moduleData(n)
					m.data = append(m.data, d)
					w.write(filepath.Join(rel, `data`, f), js(d))
				}
				w.write(filepath.Join(rel, `hiera.yaml`), cfg)
				if _, ok := found[n]; !ok {
					found[n] = m
				}
			}
		}
		opts := map[string]interface{}{}
		if len(path) > 0 || h.coin() {
			opts[provider.ModulePath] = strings.Join(path, string(os.PathListSeparator))
		} else {
			w.text += "--- no module path\n"
		}
		// what the module of a name is is decided once
		decided := map[string]bool{}
		w.session(provider.ModuleLookupKey, opts, func(s api.Session) {
			for n := 0; n < 14; n++ {
				mn := h.pick(append(moduleNames, `missing`, `mod`)...)
				kn := mn
				if h.one(5) {
					kn = h.inCase(mn)
				}
				root := kn + h.pick(`::a`, `::b`, `::c::d`, `::a`, `::b`, `::`, ``, `:a`)
				if h.one(15) {
					root = `::` + root
				}
				key := root
				if h.one(4) {
					key += h.pick(`.k`, `.0`, `.k.l`)
				}
				merge := ``
				var lo interface{}
				if h.one(4) {
					merge = h.pick(`first`, `unique`, `hash`, `deep`)
					lo = vf.Map(`merge`, merge)
				}
				in := h.c("%slookup of %q with merge %q", w.text, key, merge)
				h.current(in)
				got := lookupReal(s.Invocation(nil, nil), key, lo)
				want := w.oracle(func() dgo.Value {
					segs, ok := oParse(key)
					if !ok {
						mfail(`bad key`)
					}
					ix := strings.Index(segs[0].s, `::`)
					if ix <= 0 {
						return nil
					}
					name := strings.ToLower(segs[0].s[:ix])
					decided[name] = true
					if m, ok := found[name]; ok {
						return m.lookup(key, segs[0].s, segs[1:], merge)
					}
					return nil
				})
				if !sameRes(got, want) {
					h.fail(in, got.text(), want.text())
				}
				if h.one(10) && len(path) > 0 {
					// a directory that appears first on the path after the module was decided changes nothing
					name := h.pick(moduleNames...)
					if decided[name] {
						d := filepath.Join(filepath.Base(path[0]), strings.ToUpper(name)+``)
						if _, err := os.Lstat(filepath.Join(w.dir, d)); os.IsNotExist(err) {
							w.text += "--- and after " + name + " was found, or not:\n"
							w.write(filepath.Join(d, `hiera.yaml`), "version: 5\nhierarchy: [{name: X, path: x.yaml}]\n")
							w.write(filepath.Join(d, `data`, `x.yaml`), name+"::a: LATE\n"+name+"::b: LATE\n")
						}
					}
				}
			}
		})
		w.done()
	}
}
