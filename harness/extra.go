package zzverif

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/cli"
	"github.com/lyraproj/hiera/config"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/internal"
	"github.com/lyraproj/hiera/merge"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// providerLists looks up with the list of functions of MuxLookupKey
func (h *H) providerLists() {
	options := func(pc sdk.ProviderContext) bool {
		sc, ok := pc.(api.ServerContext)
		return ok && sc.Invocation().LookupOptionsMode()
	}
	val := func(v interface{}) sdk.LookupKey {
		return func(pc sdk.ProviderContext, key string) dgo.Value {
			if key == `a` || v == nil || options(pc) {
				return nil
			}
			return vf.Value(v)
		}
	}
	lo := sdk.LookupKey(func(pc sdk.ProviderContext, key string) dgo.Value {
		if !options(pc) {
			return nil
		}
		return vf.Map(`u`, vf.Map(`merge`, `unique`), `d`, vf.Map(`merge`, `deep`), `s`, vf.Map(`convert_to`, `sensitive`)).Get(key)
	})
	other := sdk.LookupKey(func(pc sdk.ProviderContext, key string) dgo.Value {
		if !options(pc) {
			return nil
		}
		return vf.Map(`merge_`, `first`)
	})
	only := func(k string, v interface{}) sdk.LookupKey {
		return func(pc sdk.ProviderContext, key string) dgo.Value {
			if k == key && !options(pc) {
				return vf.Value(v)
			}
			return nil
		}
	}
	for _, c := range []struct {
		list interface{}
		key  string
		opts interface{}
		want string
	}{
		{nil, `x`, nil, `not found`},
		{`no list`, `x`, nil, `not found`},
		{vf.Values(), `x`, nil, `not found`},
		{vf.Values(vf.Value(val(`one`)), vf.Value(val(`two`))), `x`, nil, `one`},
		{vf.Values(vf.Value(val(`one`)), vf.Value(val(`two`))), `a`, nil, `not found`},
		{vf.Values(vf.Value(val(nil)), vf.Value(val(`two`))), `x`, nil, `two`},
		{vf.Values(`no function`, 3, vf.Value(only(`x`, `two`))), `x`, nil, `two`},
		{vf.Values(vf.Value(only(`x`, `one`)), `no function`), `y`, nil, `not found`},
		{vf.Values(vf.Value(only(`x`, `one`)), vf.Value(only(`x`, `two`))), `x`, vf.Map(`merge`, `unique`), `{"one","two"}`},
		{vf.Values(vf.Value(only(`u`, 1)), vf.Value(only(`u`, 2)), vf.Value(lo)), `u`, nil, `{1,2}`},
		{vf.Values(vf.Value(only(`u`, 1)), vf.Value(only(`u`, 2)), vf.Value(lo)), `u`, vf.Map(`merge`, `first`), `1`},
		{vf.Values(vf.Value(lo), vf.Value(only(`d`, vf.Map(`p`, vf.Map(`x`, 1)))), vf.Value(only(`d`, vf.Map(`p`, vf.Map(`y`, 2))))), `d.p.y`, nil, `2`},
		{vf.Values(vf.Value(other), vf.Value(only(`u`, 1)), vf.Value(only(`u`, 2)), vf.Value(lo)), `u`, nil, `{1,2}`},
		{vf.Values(vf.Value(other), vf.Value(only(`s`, `hidden`)), vf.Value(lo)), `s`, nil, `sensitive [value redacted]`},
		{vf.Values(vf.Value(only(`s`, `hidden`)), vf.Value(lo)), `s`, nil, `sensitive [value redacted]`},
	} {
		o := vf.MutableMap(api.HieraConfig, `/nonexistent/hiera.yaml`)
		if c.list != nil {
			o.Put(provider.LookupKeyFunctions, c.list)
		}
		in := h.c("MuxLookupKey with the functions %v, lookup of %s with %v", c.list, c.key, c.opts)
		h.current(in)
		withTop(provider.MuxLookupKey, o, func(s api.Session) {
			if got := lookupReal(s.Invocation(nil, nil), c.key, c.opts); got.text() != c.want {
				h.fail(in, got.text(), c.want)
			}
		})
	}
	in := h.c("MuxLookupKey, ConfigLookupKey and Environment with a context of another kind")
	r := try(func() interface{} {
		v := provider.MuxLookupKey(foreign{}, `a`)
		if v == nil {
			return nil
		}
		return v
	})
	if r.bad || r.v != nil {
		h.fail(in, r.text(), `not found`)
	}
}

type foreign struct{}

func (foreign) Option(string) dgo.Value            { return nil }
func (foreign) StringOption(string) (string, bool) { return ``, false }
func (foreign) BoolOption(string) (bool, bool)     { return false, false }
func (foreign) IntOption(string) (int, bool)       { return 0, false }
func (foreign) FloatOption(string) (float64, bool) { return 0, false }
func (foreign) OptionsMap() dgo.Map                { return vf.Map() }
func (foreign) ToData(interface{}) dgo.Value       { return nil }

// explainModes: an invocation tells how it is explained
func (h *H) explainModes() {
	withTop(func(sdk.ProviderContext, string) dgo.Value { return nil }, nil, func(s api.Session) {
		for k := 0; k < 4; k++ {
			in := h.c("an invocation with explainer number %d", k)
			var ex api.Explainer
			if k > 0 {
				ex = explain.NewExplainer(k > 1, k > 2)
			}
			ic := s.Invocation(nil, ex)
			h.eq(in+`: ExplainMode`, ic.ExplainMode(), k > 0)
			h.eq(in+`: ExplainMode for data`, ic.ForData().ExplainMode(), k == 1 || k == 2)
			h.eq(in+`: ExplainMode for options`, ic.ForLookupOptions().ExplainMode(), k > 1)
			h.eq(in+`: ExplainMode for options for options`, ic.ForLookupOptions().ForLookupOptions().ExplainMode(), k > 1)
			h.eq(in+`: ExplainMode for configurations`, ic.ForConfig().ExplainMode(), false)
			h.eq(in+`: DataMode`, []bool{ic.DataMode(), ic.ForData().DataMode(), ic.ForLookupOptions().DataMode(), ic.ForData().ForData().DataMode()}, []bool{false, true, false, true})
			h.eq(in+`: LookupOptionsMode`, []bool{ic.LookupOptionsMode(), ic.ForData().LookupOptionsMode(), ic.ForLookupOptions().LookupOptionsMode()}, []bool{false, false, true})
		}
	})
}

// conversions with arguments
func (h *H) conversions() {
	for _, c := range []struct {
		conv interface{}
		v    interface{}
		want string
	}{
		{`int`, `12`, `12`}, {vf.Values(`int`), `12`, `12`}, {vf.Values(`int`, 16), `ff`, `255`}, {vf.Values(`int`, 2), `101`, `5`},
		{vf.Values(`string`, `%04d`), 7, `0007`}, {`string`, 7, `7`}, {`sensitive`, `x`, `sensitive [value redacted]`},
		{vf.Values(`sensitive`), `x`, `sensitive [value redacted]`}, {`int`, `no`, `an error`}, {`float`, `1.5`, `1.5`}, {`nosuchtype`, `x`, `an error`},
	} {
		w := h.newWorld()
		w.write(`hiera.yaml`, "version: 5\nhierarchy:\n  - name: L\n    path: a.yaml\n")
		w.write(`data/a.yaml`, js(vf.Map(`a`, c.v, `lookup_options`, vf.Map(`a`, vf.Map(`convert_to`, c.conv)))))
		in := h.c("%slookup of a", w.text)
		h.current(in)
		w.session(nil, nil, func(s api.Session) {
			for _, k := range []string{`a`, `a`} {
				if got := lookupReal(s.Invocation(nil, nil), k, nil).text(); !strings.HasPrefix(got, c.want) {
					h.fail(in, got, c.want)
				}
			}
		})
		w.done()
	}
}

// noFunctions is an invocation that finds no functions
type noFunctions struct{ invocation }

type invocation interface{ api.Invocation }

func (noFunctions) LoadFunction(api.Entry) (dgo.Function, bool) { return nil, false }

// unresolved: a function that is not found finds nothing, and that is reported
func (h *H) unresolved() {
	for _, k := range []string{`data_hash`, `data_dig`, `lookup_key`} {
		w := h.newWorld()
		w.write(`hiera.yaml`, "version: 5\nhierarchy:\n  - name: L\n    "+k+": nosuch\n")
		in := h.c("%slookup of a when the function is not found", w.text)
		h.current(in)
		w.session(nil, nil, func(s api.Session) {
			ex := explain.NewExplainer(false, false)
			ic := s.Invocation(nil, ex)
			cfg := config.New(filepath.Join(w.dir, `hiera.yaml`))
			e := cfg.Hierarchy()[0].Resolve(ic, cfg.Defaults().Resolve(ic, nil))
			var p api.DataProvider
			switch k {
			case `data_hash`:
				p = internal.NewDataHashProvider(e)
			case `data_dig`:
				p = internal.NewDataDigProvider(e)
			default:
				p = internal.NewLookupKeyProvider(e)
			}
			for n := 0; n < 2; n++ {
				r := try(func() interface{} {
					if v := p.LookupKey(api.NewKey(`a.b`), noFunctions{ic}, nil); v != nil {
						return v
					}
					return nil
				})
				if r.bad || r.v != nil {
					h.fail(in, r.text(), `not found`)
				}
			}
			if x := ex.(fmt.Stringer).String(); strings.Count(x, `unresolved function 'nosuch'`) != 1 {
				h.fail(in, "the explanation is "+x, "it says once that the function is unresolved")
			}
		})
		w.done()
	}
}

// equalLocations: locations are equal when they are of the same kind, original and resolution
func (h *H) equalLocations() {
	ls := []api.Location{config.NewPath(`a`), config.NewPath(`b`), config.NewGlob(`a`), config.NewGlob(`b`), config.NewURI(`a`), config.NewURI(`b`),
		config.NewMappedPaths(`s`, `k`, `t`), config.NewMappedPaths(`s2`, `k`, `t`), config.NewMappedPaths(`s`, `k2`, `t`), config.NewMappedPaths(`s`, `k`, `t2`)}
	again := []api.Location{config.NewPath(`a`), config.NewPath(`b`), config.NewGlob(`a`), config.NewGlob(`b`), config.NewURI(`a`), config.NewURI(`b`),
		config.NewMappedPaths(`s`, `k`, `t`), config.NewMappedPaths(`s2`, `k`, `t`), config.NewMappedPaths(`s`, `k2`, `t`), config.NewMappedPaths(`s`, `k`, `t2`)}
	for i, a := range ls {
		for j, b := range again {
			in := h.c("locations %v and %v", a, b)
			if got := a.Equals(b); got != (i == j) {
				h.fail(in, fmt.Sprintf("equal: %v", got), fmt.Sprintf("equal: %v", i == j))
			}
		}
		if a.Equals(nil) || a.Equals(`a`) || a.Equals(vf.String(`a`)) {
			h.fail(h.c("location %v and a string", a), "equal", "not equal")
		}
	}
}

// failingWriter fails after some bytes
type failingWriter struct{ left int }

func (f *failingWriter) Write(bs []byte) (int, error) {
	if len(bs) > f.left {
		n := f.left
		f.left = 0
		return n, errors.New(`the disk is full`)
	}
	f.left -= len(bs)
	return len(bs), nil
}

// failingOutput: output that cannot be written is an error in every form
func (h *H) failingOutput() {
	withInvocation(func(ic api.Invocation) {
		s := ic.(api.Session)
		for _, f := range []hiera.RenderName{hiera.JSON, hiera.YAML, hiera.Binary, hiera.Text} {
			for _, v := range []dgo.Value{vf.String(`some text`), vf.Nil, vf.Binary([]byte{1, 2, 3}, false), vf.Map(`a`, vf.Values(1, 2))} {
				if f == hiera.Binary && (v.Equals(vf.Nil) || v.Type().String() == `map`) {
					continue
				}
				if _, ok := v.(dgo.Map); ok && f == hiera.Binary {
					continue
				}
				in := h.c("%v in the form %s to a writer that fails", v, f)
				h.current(in)
				r := try(func() interface{} { hiera.Render(s, f, v, &failingWriter{0}); return nil })
				if !r.bad {
					h.fail(in, "no error", "an error")
				}
			}
		}
	})
}

// optStrings: the value of the option default
func (h *H) optStrings() {
	o := &cli.OptString{}
	h.eq(h.c("OptString that is not set"), []interface{}{o.String(), o.StringPointer() == nil, (*cli.OptString)(nil).String()}, []interface{}{``, true, ``})
	for _, v := range []string{``, `x`} {
		_ = o.Set(v)
		h.eq(h.c("OptString set to %q", v), []interface{}{o.String(), o.StringPointer() != nil && *o.StringPointer() == v}, []interface{}{v, true})
	}
}

// tried: an error of the consumer is the result of TryWithParent, and so is what it panics with
func (h *H) tried() {
	tp := func(sdk.ProviderContext, string) dgo.Value { return nil }
	o := vf.Map(api.HieraConfig, `/nonexistent/hiera.yaml`)
	boom := errors.New(`boom`)
	for n, f := range []func(api.Session) error{
		func(api.Session) error { return boom },
		func(api.Session) error { panic(boom) },
	} {
		in := h.c("TryWithParent with consumer %d that fails", n)
		if err := hiera.TryWithParent(context.Background(), tp, o, f); err == nil || err.Error() != `boom` {
			h.fail(in, fmt.Sprint(err), `boom`)
		}
	}
	if err := hiera.TryWithParent(context.Background(), tp, o, func(api.Session) error { return nil }); err != nil {
		h.fail(h.c("TryWithParent with a consumer that succeeds"), err.Error(), "no error")
	}
	for _, v := range []interface{}{`x`, 3, vf.Values(1)} {
		r := try(func() interface{} { return api.ToMap(`it`, v) })
		if !r.bad {
			h.fail(h.c("ToMap of %v", v), r.text(), "an error")
		}
	}
	h.eq(h.c("ToMap of nil"), api.ToMap(`it`, nil).Len(), 0)
	h.eq(h.c("ToMap of a map"), api.ToMap(`it`, map[string]int{`a`: 1}).Get(`a`), vf.Integer(1))
}

// functionsOption: the functions of a session are those of its options
func (h *H) functionsOption() {
	for n := 0; n < 3; n++ {
		w := h.newWorld()
		w.write(`hiera.yaml`, "version: 5\nhierarchy:\n  - name: L\n    lookup_key: f\n")
		in := h.c("%sfunctions option number %d", w.text, n)
		var fs interface{}
		want := `an error`
		switch n {
		case 0:
			fs = vf.Map(`f`, vf.Value(func(sdk.ProviderContext, string) dgo.Value { return vf.String(`called`) }))
			want = `called`
		case 1:
			fs = vf.Map(`g`, vf.Value(func(sdk.ProviderContext, string) dgo.Value { return vf.String(`called`) }))
		default:
			fs = `no map`
		}
		w.session(nil, map[string]interface{}{api.HieraFunctions: fs}, func(s api.Session) {
			if got := lookupReal(s.Invocation(nil, nil), `a`, nil).text(); !strings.HasPrefix(got, want) {
				h.fail(in, got, want)
			}
		})
		w.done()
	}
}

// equalKeys: keys are equal when their sources are
func (h *H) equalKeys() {
	ks := []string{`a`, `a.b`, `b`, `a.'b'`, `a.0`}
	for i, a := range ks {
		for j, b := range ks {
			if got := api.NewKey(a).Equals(api.NewKey(b)); got != (i == j) {
				h.fail(h.c("keys %q and %q", a, b), fmt.Sprintf("equal: %v", got), fmt.Sprintf("equal: %v", i == j))
			}
		}
		if api.NewKey(a).Equals(a) || api.NewKey(a).Equals(nil) {
			h.fail(h.c("key %q and its text", a), "equal", "not equal")
		}
	}
}

// mergeKinds: what is not a slice has no variants
func (h *H) mergeKinds() {
	withInvocation(func(ic api.Invocation) {
		f := func(v interface{}) dgo.Value { return vf.Value(v) }
		for _, n := range []string{`first`, `unique`, `hash`, `deep`} {
			for _, vs := range []interface{}{nil, 3, `x`, map[string]int{`a`: 1}, []int{}, (*int)(nil)} {
				in := h.c("strategy %s with the variants %v", n, vs)
				r := try(func() interface{} {
					if v := merge.GetStrategy(n, nil).MergeLookup(vs, ic, f); v != nil {
						return v
					}
					return nil
				})
				if r.bad || r.v != nil {
					h.fail(in, r.text(), `not found`)
				}
			}
		}
	})
}

// changedStrings: a string that is interpolated is reported as changed
func (h *H) changedStrings() {
	withInvocation(func(ic api.Invocation) {
		for s, want := range map[string]string{`plain`: `plain false`, `%{literal('x')}y`: `xy true`, `%{}`: ` true`, `%`: `% false`, `{%}`: `{%} false`, `%{''}z`: `z true`} {
			in := h.c("InterpolateString of %q", s)
			v, ch := ic.InterpolateString(s, true)
			if got := fmt.Sprint(v, ` `, ch); got != want {
				if got2 := v.String() + ` ` + fmt.Sprint(ch); got2 != want {
					h.fail(in, got2, want)
				}
			}
		}
	})
}

// waitingLoads: an invocation that needs a configuration while it is loaded waits for it; when that load fails it loads
// the configuration itself
func (h *H) waitingLoads() {
	for _, first := range []bool{true, false} {
		w := h.newWorld()
		w.write(`data/a.yaml`, "a: found\n")
		file := filepath.Join(w.dir, `hiera.yaml`)
		if syscall.Mkfifo(file, 0o600) != nil {
			w.done()
			return
		}
		feed := func(text string) error {
			for i := 0; i < 400; i++ {
				if f, err := os.OpenFile(file, os.O_WRONLY|syscall.O_NONBLOCK, 0); err == nil {
					_, err = f.WriteString(text)
					_ = f.Close()
					return err
				}
				time.Sleep(10 * time.Millisecond)
			}
			return errors.New("nobody reads the configuration")
		}
		good := "version: 5\nhierarchy:\n  - name: L\n    path: a.yaml\n"
		in := h.c("two lookups while the configuration is read, which succeeds: %v", first)
		h.current(in)
		w.session(nil, nil, func(s api.Session) {
			as, bs := make(chan res, 1), make(chan res, 1)
			go func() { as <- lookupReal(s.Invocation(nil, nil), `a`, nil) }()
			var wr *os.File
			for i := 0; i < 400 && wr == nil; i++ {
				wr, _ = os.OpenFile(file, os.O_WRONLY|syscall.O_NONBLOCK, 0)
				time.Sleep(5 * time.Millisecond)
			}
			if wr == nil {
				h.fail(in, "the configuration is not read", "it is")
			}
			go func() { bs <- lookupReal(s.Invocation(nil, nil), `a`, nil) }()
			time.Sleep(100 * time.Millisecond)
			text := good
			if !first {
				text = "version: 4\n"
			}
			_, _ = wr.WriteString(text)
			_ = wr.Close()
			get := func(ch chan res, who, want string) {
				select {
				case r := <-ch:
					if !strings.HasPrefix(r.text(), want) {
						h.fail(in, who+` lookup: `+r.text(), want)
					}
				case <-time.After(8 * time.Second):
					h.fail(in, who+` lookup does not return`, want)
				}
			}
			if first {
				get(as, `first`, `found`)
				get(bs, `second`, `found`)
				return
			}
			get(as, `first`, `an error`)
			if err := feed(good); err != nil {
				h.fail(in, err.Error(), "the second lookup reads it")
			}
			get(bs, `second`, `found`)
		})
		w.done()
	}
}

// configPaths: the configuration with no path is that of the session, and is remembered
func (h *H) configPaths() {
	w := h.newWorld()
	defer w.done()
	w.write(`hiera.yaml`, "version: 5\nhierarchy:\n  - name: L\n    path: a.yaml\n")
	w.write(`other.yaml`, "version: 5\nhierarchy:\n  - name: M\n    path: b.yaml\n")
	w.session(nil, nil, func(s api.Session) {
		ic := s.Invocation(nil, nil)
		for n, c := range []struct{ path, name string }{{``, `L`}, {filepath.Join(w.dir, `other.yaml`), `M`}, {``, `L`}, {filepath.Join(w.dir, `hiera.yaml`), `L`}, {filepath.Join(w.dir, `other.yaml`), `M`}} {
			in := h.c("%sConfig(%q), call %d", w.text, c.path, n+1)
			h.current(in)
			r := try(func() interface{} { return ic.Config(c.path, ``).Config().Hierarchy()[0].Name() })
			if r.bad || fmt.Sprint(r.v) != c.name {
				h.fail(in, r.text(), `the configuration with the level `+c.name)
			}
			if n == 2 {
				_ = os.Remove(filepath.Join(w.dir, `hiera.yaml`))
				_ = os.Remove(filepath.Join(w.dir, `other.yaml`))
				ic = s.Invocation(nil, nil)
			}
		}
	})
}

// emptyLevels looks at which locations the provider of a level is called with
func (h *H) emptyLevels() {
	for _, c := range []struct {
		loc  string
		want []string
	}{
		{``, []string{`-`}},
		{"    glob: 'no*.yaml'\n", nil},
		{"    globs: ['no*.yaml', 'nor*.yaml']\n", nil},
		{"    globs: ['no*.yaml', 'f*.yaml']\n", []string{`f1.yaml`, `f2.yaml`}},
		{"    glob: '*.yaml'\n", []string{`f1.yaml`, `f2.yaml`}},
		{"    mapped_paths: [nosuch, x, '%{x}.yaml']\n", nil},
		{"    mapped_paths: [empty, x, '%{x}.yaml']\n", nil},
		{"    mapped_paths: [number, x, '%{x}.yaml']\n", nil},
		{"    mapped_paths: [none, x, '%{x}.yaml']\n", nil},
		{"    mapped_paths: [list, x, '%{x}.yaml']\n", []string{`f2.yaml`, `f1.yaml`}},
		{"    mapped_paths: [text, x, '%{x}.yaml']\n", []string{`f1.yaml`}},
		{"    path: f3.yaml\n", nil},
		{"    paths: [f3.yaml, f2.yaml, f4.yaml, f1.yaml]\n", []string{`f2.yaml`, `f1.yaml`}},
		{"    paths: [f3.yaml, f4.yaml]\n", nil},
		{"    uri: 'http://x/f3.yaml'\n", []string{`f3.yaml`}},
		{"    uris: ['http://x/b', 'http://x/a']\n", []string{`b`, `a`}},
	} {
		w := h.newWorld()
		w.write(`data/f1.yaml`, "{}\n")
		w.write(`data/f2.yaml`, "{}\n")
		w.write(`hiera.yaml`, "version: 5\nhierarchy:\n  - name: L\n    lookup_key: seen\n"+c.loc)
		var calls []string
		w.funcs.Put(`seen`, func(pc sdk.ProviderContext, key string) dgo.Value {
			if key == `lookup_options` {
				return nil
			}
			p := `-`
			for _, o := range []string{`path`, `uri`} {
				if s, ok := pc.StringOption(o); ok {
					p = s[strings.LastIndex(s, `/`)+1:]
				}
			}
			calls = append(calls, p)
			return nil
		})
		w.session(nil, nil, func(s api.Session) {
			in := h.c("%slookup of a", w.text)
			h.current(in)
			ic := s.Invocation(vf.Map(`empty`, vf.Values(), `number`, 1, `none`, vf.Nil, `list`, vf.Values(`f2`, `x`, `f1`), `text`, `f1`), nil)
			if r := lookupReal(ic, `a`, nil); r.bad || r.v != nil {
				h.fail(in, r.text(), "not found")
			}
			if fmt.Sprint(calls) != fmt.Sprint(c.want) {
				h.fail(in, fmt.Sprintf("the function is called with the locations %v", calls), fmt.Sprintf("the function is called with the locations %v", c.want))
			}
		})
		w.done()
	}
}

// foldedNames looks up keys of modules whose names differ from the names of the directories in ways other than by
// the letters A to Z
func (h *H) foldedNames() {
	for _, c := range [][2]string{{"mod\u017f", `mods`}, {"\u212am", `km`}, {`MODS`, `mods`}, {"\u00c5", "\u00e5"}, {"mods", "MOD\u017f"}, {"M\u00d6D", "m\u00f6d"}} {
		w := h.newWorld()
		w.write(`p/`+c[0]+`/hiera.yaml`, "version: 5\nhierarchy:\n  - name: L\n    path: x.yaml\n")
		w.write(`p/`+c[0]+`/data/x.yaml`, js(vf.Map(c[1]+`::a`, `v`)))
		w.session(provider.ModuleLookupKey, map[string]interface{}{provider.ModulePath: filepath.Join(w.dir, `p`)}, func(s api.Session) {
			in := h.c("%slookup of %q", w.text, c[1]+`::a`)
			h.current(in)
			if r := lookupReal(s.Invocation(nil, nil), c[1]+`::a`, nil); r.bad || r.v == nil {
				h.fail(in, r.text(), "v, as the case of the name does not matter")
			}
		})
		w.done()
	}
}
