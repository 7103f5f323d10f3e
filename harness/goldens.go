package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// explained is what a lookup in a fixed configuration is explained with: the text of the explanation in which every
// event of the lookup must appear once, below the step in which it happened
type explained struct {
	name string
	top  sdk.LookupKey
	key  string
	opts dgo.Map
	opt  bool
	only bool
}

func (h *H) explainedWorld() *world {
	w := h.newWorld()
	w.write(`hiera.yaml`, `version: 5
defaults:
  datadir: data
hierarchy:
  - name: Nodes
    path: "nodes/%{x}.yaml"
  - name: Multi
    paths: [a.yaml, missing.yaml, "b_%{x}.yaml"]
  - name: Globs
    glob: "g/*.yaml"
  - name: Mapped
    mapped_paths: [v5, y, "m_%{y}.yaml"]
  - name: Key function
    lookup_key: fn
    uris: ["http://h/1", "http://h/2"]
  - name: Dig function
    data_dig: dg
  - name: No matches
    glob: "none/*.yaml"
  - name: Hash function
    data_hash: dh
default_hierarchy:
  - name: Default
    path: dflt.yaml
`)
	w.write(`data/nodes/n.yaml`, js(vf.Map(`a`, 1, `str`, `x is %{x}`, `ref`, `%{lookup('a')}-%{lookup('nope')}`, `al`, `%{alias('map')}`,
		`deep`, vf.Map(`p`, vf.Map(`n`, 1)), `list`, vf.Values(1, 2), `sec`, `hidden`, `lit`, `%{literal('%')}{x}`, `sc`, `%{scope('x')}%{v4.k}%{missing}`,
		`sub`, `%{lookup('map.k')}`, `inv`, `%{lookup('lookup_options')}`,
		`lookup_options`, vf.Map(`deep`, `deep`, `list`, vf.Map(`merge`, `unique`), `sec`, vf.Map(`convert_to`, `sensitive`), `num`, vf.Map(`convert_to`, `string`)))))
	w.write(`data/a.yaml`, js(vf.Map(`a`, 2, `b`, `from a`, `deep`, vf.Map(`p`, vf.Map(`m`, 2)), `map`, vf.Map(`k`, `v`, `l`, vf.Values(`e0`, vf.Map(`z`, 3))), `list`, vf.Values(2, 3),
		`lookup_options`, vf.Map(`map`, vf.Map(`merge`, `hash`)))))
	w.write(`data/b_n.yaml`, js(vf.Map(`map`, vf.Map(`o`, nil), `c`, `from b`, `num`, 42)))
	w.write(`data/g/1.yaml`, js(vf.Map(`glob`, 1, `deep`, vf.Map(`q`, true))))
	w.write(`data/g/2.yaml`, js(vf.Map(`glob`, 2)))
	w.write(`data/m_one.yaml`, js(vf.Map(`mapped`, `%{y}`, `list`, vf.Values(4))))
	w.write(`data/m_two.yaml`, js(vf.Map(`mapped`, `two`)))
	w.write(`data/dflt.yaml`, js(vf.Map(`d`, `default`)))
	w.scope[`x`] = vf.String(`n`)
	w.scope[`v4`] = vf.Map(`k`, `vk`)
	w.scope[`v5`] = vf.Strings(`one`, `none`, `two`)
	w.funcs.Put(`fn`, func(pc sdk.ProviderContext, key string) dgo.Value {
		pc.(api.ServerContext).Explain(func() string { return `key function asked for ` + key })
		if key == `f` && fmt.Sprint(pc.Option(`path`)) == `http://h/2` {
			return vf.String(`from fn`)
		}
		return nil
	})
	w.funcs.Put(`dg`, func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
		if key.Get(0).Equals(`dig`) {
			return vf.String(fmt.Sprintf(`dug %v`, key))
		}
		return nil
	})
	w.funcs.Put(`dh`, func(pc sdk.ProviderContext) dgo.Map { return vf.Map(`hash`, `from dh`) })
	w.write(`modules/mod/hiera.yaml`, "version: 5\nhierarchy:\n  - name: M\n    path: m.yaml\n")
	w.write(`modules/mod/data/m.yaml`, js(vf.Map(`mod::a`, vf.Map(`x`, 1), `lookup_options`, vf.Map(`mod::a`, `hash`))))
	return w
}

func explainedCases() []explained {
	var cs []explained
	add := func(name, key string, top sdk.LookupKey, opts dgo.Map, opt, only bool) {
		cs = append(cs, explained{name + ` ` + key, top, key, opts, opt, only})
	}
	for _, k := range []string{`a`, `b`, `c`, `str`, `ref`, `al`, `al.k`, `deep`, `deep.p.m`, `list`, `sec`, `num`, `lit`, `sc`, `sub`, `inv`, `map`, `map.l.1.z`, `map.nope`, `map.l.7`,
		`glob`, `mapped`, `f`, `dig`, `dig.a.1`, `hash`, `d`, `missing`, `lookup_options`, `lookup_options.a`} {
		add(`plain`, k, nil, nil, false, false)
		if len(k) < 5 || k == `missing` {
			add(`options`, k, nil, nil, true, false)
			add(`only options`, k, nil, nil, true, true)
		}
	}
	for _, m := range []string{`first`, `unique`, `hash`, `deep`} {
		add(`merge `+m, map[string]string{`first`: `glob`, `unique`: `list`, `hash`: `map`, `deep`: `deep`}[m], nil, vf.Map(`merge`, m), false, false)
		add(`merge and options `+m, `map`, nil, vf.Map(`merge`, vf.Map(`strategy`, m)), true, false)
	}
	for _, k := range []string{`a`, `mod::a`, `mod::a.x`, `nomod::a`, `deep`, `sec`, `missing`} {
		add(`mux`, k, provider.MuxLookupKey, nil, false, false)
		add(`mux with options`, k, provider.MuxLookupKey, vf.Map(`merge`, `deep`), true, false)
		add(`module`, k, provider.ModuleLookupKey, nil, true, false)
		add(`mux only options`, k, provider.MuxLookupKey, nil, false, true)
	}
	return cs
}

func (h *H) explanations() {
	w := h.explainedWorld()
	defer w.done()
	got := map[string]string{}
	var names []string
	for _, c := range explainedCases() {
		top := c.top
		if top == nil {
			top = provider.ConfigLookupKey
		}
		more := map[string]interface{}{provider.ModulePath: filepath.Join(w.dir, `modules`),
			provider.LookupKeyFunctions: []sdk.LookupKey{provider.Environment, provider.ModuleLookupKey, provider.ConfigLookupKey}}
		w.session(top, more, func(s api.Session) {
			ex := explain.NewExplainer(c.opt, c.only)
			in := h.c("%sexplanation of lookup %s with %v", w.text, c.name, c.opts)
			h.current(in)
			var opts interface{}
			if c.opts != nil {
				opts = c.opts
			}
			r := lookupReal(s.Invocation(nil, ex), c.key, opts)
			plain := lookupReal(s.Invocation(nil, nil), c.key, opts)
			if !sameRes(r, plain) {
				h.fail(in, r.text(), plain.text()+` (as without an explainer)`)
			}
			text := strings.ReplaceAll(strings.TrimRight(ex.(fmt.Stringer).String(), " \n"), w.dir, `DIR`) + "\n=> " + strings.ReplaceAll(r.text(), w.dir, `DIR`)
			got[c.name] = text
			names = append(names, c.name)
			if want, ok := golden[c.name]; ok && want != text && os.Getenv(`VERIF_GOLDEN`) == `` {
				g, e := diffLine(text, want)
				h.fail(in, g, e)
			}
		})
	}
	if f := os.Getenv(`VERIF_GOLDEN`); f != `` {
		sort.Strings(names)
		b := &strings.Builder{}
		b.WriteString("package zzverif\n\n// golden is what is written by: VERIF_GOLDEN=FILE tools/h.sh TestC17\nvar golden = map[string]string{\n")
		for _, n := range names {
			fmt.Fprintf(b, "\t%s: %s,\n", strconv.Quote(n), strconv.Quote(got[n]))
		}
		b.WriteString("}\n")
		_ = os.WriteFile(f, []byte(b.String()), 0o600)
	}
}

// diffLine is the first line that differs, together with its neighbours
func diffLine(a, b string) (string, string) {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	i := 0
	for i < len(as) && i < len(bs) && as[i] == bs[i] {
		i++
	}
	part := func(ls []string) string {
		from, to := i-2, i+3
		if from < 0 {
			from = 0
		}
		if to > len(ls) {
			to = len(ls)
		}
		return fmt.Sprintf("line %d: %s", i+1, strings.Join(ls[from:to], "\n"))
	}
	return part(as), part(bs)
}
