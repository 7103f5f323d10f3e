package zzverif

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/dgoyaml/yaml"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/cli"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// oSplit splits a variable argument
func oSplit(s string) (name, value string, ok bool) {
	sep := func(i int) bool { return s[i] == ':' || s[i] == '=' }
	for i := 1; i+1 < len(s); i++ {
		if sep(i) && !sep(i-1) && !sep(i+1) {
			return strings.TrimSpace(s[:i]), s[i+1:], true
		}
	}
	return ``, ``, false
}

type lit struct {
	text string
	v    dgo.Value // nil when the text is malformed
}

func (h *H) cliValue(dialect string) lit {
	ls := []lit{
		{`x`, vf.String(`x`)}, {`12`, vf.String(`12`)}, {`true`, vf.String(`true`)}, {`a b`, vf.String(`a b`)}, {`a:b=c`, vf.String(`a:b=c`)}, {`a]`, vf.String(`a]`)},
		{`é`, vf.String(`é`)}, {"two\nlines", vf.String("two\nlines")}, {`a"b"`, vf.String(`a"b"`)}, {` pad `, vf.String(`pad`)}, {`-`, vf.String(`-`)}, {`a==b`, vf.String(`a==b`)},
		{`"q"`, vf.String(`q`)}, {`"a:b"`, vf.String(`a:b`)}, {`""`, vf.String(``)}, {`{`, nil}, {`"open`, nil}, {` "q"`, vf.String(`q`)}, {`"q"x`, nil}, {`(a)`, vf.String(`(a)`)},
	}
	if dialect == `pcore` {
		ls = append(ls, lit{`[1, 'b']`, vf.Values(1, `b`)}, lit{`{'k' => 1, 'l' => [2]}`, vf.Map(`k`, 1, `l`, vf.Values(2))}, lit{`'s q'`, vf.String(`s q`)}, lit{`[1`, nil}, lit{`'open`, nil}, lit{`{}`, vf.Map()}, lit{`[]`, vf.Values()})
	} else {
		ls = append(ls, lit{`{1, "b"}`, vf.Values(1, `b`)}, lit{`{"k": 1, "l": {2}}`, vf.Map(`k`, 1, `l`, vf.Values(2))}, lit{`{"k": 1`, nil})
	}
	return ls[h.n_(len(ls))]
}

func (h *H) cliName() string {
	return h.pick(`a`, `b`, `a`, `a::b`, `::c`, `x y`, `facts`, `a:=b`, `k==`, `é`, `=`, `a.b`, `:`, `::`, ``, `q=:`)
}

// fileOf makes up a file with variables; nil stands for an error
func (h *H) fileOf(w *world, name string) (string, dgo.Map) {
	w.n++
	f := fmt.Sprintf("%s%d", name, w.n)
	switch h.n_(14) {
	case 0:
		w.write(f, ``)
		return f, vf.Map()
	case 1:
		if h.one(3) {
			w.write(f, h.pick("- a\n", "text\n", "12\n", "a: b: c\n", "{", "null\n"))
			return f, nil
		}
	case 2:
		if h.one(3) {
			return f, nil // does not exist
		}
	case 3:
		if h.one(3) {
			_ = os.MkdirAll(filepath.Join(w.dir, f), 0o700)
			return f, nil
		}
	}
	m := vf.MutableMap()
	for n := 1 + h.n_(3); n > 0; n-- {
		m.Put(h.pick(`a`, `b`, `facts`, `a::b`, `::c`, `é`, `only`+f), h.worldValue(worldOpts{}, 0, 2))
	}
	s := js(m)
	if h.one(3) {
		bs, err := yaml.Marshal(m)
		if err != nil {
			h.t.Fatal(err)
		}
		s = string(bs)
	}
	w.write(f, s)
	return f, m
}

func TestC22(t *testing.T) {
	h := newH(t, "random variable arguments (separators in all positions, literals of both dialects, malformed ones), variable and fact files (in JSON and YAML, empty, missing, malformed, directories, standard input); distinct by arguments and files")
	stdin := os.Stdin
	defer func() { os.Stdin = stdin }()
	for h.more(20000) {
		w := h.newWorld()
		dialect := h.pick(`dgo`, `pcore`, `pcore`)
		opts := &hiera.CommandOptions{RenderAs: `json`}
		want := vf.MutableMap()
		wrong := ``
		for n := h.n_(4); n > 0; n-- {
			name := h.cliName()
			v := h.cliValue(dialect)
			a := name + h.pick(`=`, `:`, `=`, `:`, `::`, `==`, ``) + v.text
			if h.one(6) {
				a = h.pick(`a`, ``, `a=`, `=b`, `a:`, `a::b`, `a=:b`, `::a=b`, `a==b=c`, `a=b`, `a=b=c`, `a::b:c`, `a:::b`, ` a = b `)
				v = lit{}
			}
			opts.Variables = append(opts.Variables, a)
			nm, vt, ok := oSplit(a)
			if !ok {
				wrong = `variable ` + a
				continue
			}
			vs := strings.TrimSpace(vt)
			switch {
			case vs == `` || !strings.ContainsAny(vs[:1], "{[\"'"):
				want.Put(nm, vs)
			case vt == v.text && v.v != nil:
				want.Put(nm, v.v)
			case vt == v.text:
				wrong = `literal ` + vs
			default:
				wrong = `?`
			}
		}
		add := func(fs *[]string, to dgo.Map, kind string) {
			for n := h.n_(3); n > 0; n-- {
				f, m := h.fileOf(w, kind)
				p := filepath.Join(w.dir, f)
				if m != nil && h.one(5) && os.Stdin == stdin {
					if r, err := os.Open(p); err == nil {
						os.Stdin = r
						p = `-`
						w.text += f + " is the standard input\n"
					}
				}
				*fs = append(*fs, p)
				if m == nil {
					wrong = `file ` + f
				} else {
					to.PutAll(m)
				}
			}
		}
		if wrong == `?` {
			w.done()
			continue
		}
		add(&opts.VarPaths, want, `vars`)
		if h.coin() {
			facts := vf.MutableMap()
			add(&opts.FactPaths, facts, `facts`)
			if len(opts.FactPaths) > 0 {
				want.PutAll(facts)
				want.Put(`facts`, facts)
			}
		}
		for k, v := range map[string]dgo.Value{`a`: vf.String(`session`), `s`: vf.String(`session`)} {
			w.scope[k] = v
			if want.Get(k) == nil {
				want.Put(k, v)
			}
		}
		in := h.c("%s--- variables %q, variable files %q, fact files %q, dialect %s", w.text, opts.Variables, opts.VarPaths, opts.FactPaths, dialect)
		h.current(in)
		var scope dgo.Keyed
		top := func(pc sdk.ProviderContext, key string) dgo.Value {
			scope = pc.(api.ServerContext).Invocation().Scope()
			return vf.Integer(1)
		}
		var out bytes.Buffer
		w.session(top, map[string]interface{}{api.HieraDialect: dialect}, func(s api.Session) {
			got := try(func() interface{} { return hiera.LookupAndRender(s, opts, []string{`key`}, &out) })
			switch {
			case wrong != ``:
				if !got.bad {
					h.fail(in, "no error", "an error: "+wrong)
				}
			case got.bad:
				h.fail(in, got.err, "no error")
			case scope == nil:
				h.fail(in, "no lookup", "a lookup")
			default:
				want.EachEntry(func(e dgo.MapEntry) {
					g := scope.Get(e.Key())
					if !same(g, e.Value()) {
						h.fail(in, fmt.Sprintf("the variable %s is %s", e.Key(), txt(g)), "it is "+txt(e.Value()))
					}
				})
				for _, n := range []string{`a`, `b`, `facts`, `a::b`, `::c`, `x y`, `é`, `k`, `a:=b`, ``, `q`} {
					if scope.Get(n) != nil && want.Get(n) == nil {
						h.fail(in, "there is a variable "+n, "there is none")
					}
				}
			}
		})
		if os.Stdin != stdin {
			_ = os.Stdin.Close()
			os.Stdin = stdin
		}
		w.done()
	}
}

// oneJSON tells that the text is one JSON value followed by a newline
func oneJSON(s string, v dgo.Value) bool {
	if !strings.HasSuffix(s, "\n") {
		return false
	}
	var a, b interface{}
	if json.Unmarshal([]byte(s), &a) != nil || json.Unmarshal([]byte(js(v)), &b) != nil {
		return false
	}
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

func oneYAML(s string, v dgo.Value) bool {
	r := try(func() interface{} {
		y, err := yaml.Unmarshal([]byte(s))
		if err != nil {
			panic(err)
		}
		return y
	})
	if r.bad {
		return false
	}
	y, _ := r.v.(dgo.Value)
	return same(y, v)
}

func TestC23(t *testing.T) {
	h := newH(t, "random values, found or not, several keys, defaults, every format and an unknown one, with and without an explanation, as a library and as the command; distinct by value and options")
	h.failingOutput()
	h.optStrings()
	for h.more(12000) {
		w := h.newWorld()
		var v dgo.Value
		switch h.n_(6) {
		case 0:
			v = nil
		case 1:
			v = vf.Nil
		case 2:
			b := make([]byte, h.n_(12))
			h.rnd.Read(b)
			v = vf.String(base64.StdEncoding.EncodeToString(b))
		case 3:
			v = vf.String(h.pick(``, `text`, "two\nlines\n", `null`, `~`, `12`, `yes`, `"q"`, `a: b`, `- a`, `é`, ` pad `, `%`, `#`))
		default:
			v = h.worldValue(worldOpts{}, 0, 3)
		}
		format := h.pick(``, ``, `yaml`, `json`, `json`, `s`, `binary`, `nosuch`, `YAML`, `text`)
		if format == `binary` && h.coin() && v != nil {
			bs := make([]byte, h.n_(6))
			h.rnd.Read(bs)
			v = vf.String(base64.StdEncoding.EncodeToString(bs))
		}
		opts := &hiera.CommandOptions{RenderAs: format}
		names := []string{`key`}
		if h.one(4) {
			names = []string{`other`, `key`, `key`}
		}
		if h.one(4) {
			d := `dflt`
			opts.Default = &d
		}
		if h.one(5) {
			opts.LookupAll = true
		}
		explaining := h.one(6)
		if explaining {
			opts.ExplainData = h.coin()
			opts.ExplainOptions = !opts.ExplainData || h.coin()
		}
		wrap := vf.MutableMap()
		if v != nil {
			wrap.Put(`key`, v)
		}
		w.write(`data/d.yaml`, js(wrap))
		w.write(`hiera.yaml`, "version: 5\nhierarchy: [{name: d, path: d.yaml}]\n")
		want := v
		if v == nil && opts.Default != nil {
			want = vf.String(*opts.Default)
		}
		if opts.LookupAll {
			want = wrap
		}
		in := h.c("value %s, keys %q, default %v, all %v, format %q, explain %v options %v", txt(v), names, opts.Default != nil, opts.LookupAll, format, opts.ExplainData, opts.ExplainOptions)
		h.current(in)
		var out counting
		var told bool
		var got res
		command := h.one(3)
		if command {
			args := append([]string{`--config`, filepath.Join(w.dir, `hiera.yaml`), `--dialect`, `dgo`}, names...)
			if format != `` {
				args = append(args, `--render-as`, format)
			}
			if opts.Default != nil {
				args = append(args, `--default`, *opts.Default)
			}
			if opts.LookupAll {
				args = append(args, `--all`)
			}
			if opts.ExplainData {
				args = append(args, `--explain`)
			}
			if opts.ExplainOptions {
				args = append(args, `--explain-options`)
			}
			in += fmt.Sprintf(" as the command %q", args)
			bs, err := cli.ExecuteLookup(args...)
			out.Write(bs)
			if err != nil {
				got = res{bad: true, err: err.Error()}
				if i := strings.Index(out.String(), `Error:`); i >= 0 {
					out.Truncate(i)
				}
			}
		} else {
			w.session(nil, nil, func(s api.Session) {
				got = try(func() interface{} {
					told = hiera.LookupAndRender(s, opts, names, &out)
					return told
				})
			})
		}
		bad := func(s string) {
			h.t.Helper()
			h.fail(in, fmt.Sprintf("%s, writes %q", got, out.String()), s)
		}
		known := format == `` || format == `yaml` || format == `json` || format == `s` || format == `binary`
		switch {
		case !known:
			if want == nil && !explaining {
				if out.Len() > 0 || (!command && told) {
					bad("nothing is written and the caller is told")
				}
			} else if !got.bad {
				bad("an error: unknown format")
			}
		case explaining:
			s := out.String()
			switch format {
			case `binary`:
			case ``, `s`:
				if got.bad || !strings.Contains(s, `Searching for`) || strings.HasPrefix(s, `{`) || strings.HasPrefix(s, `__`) {
					bad("the explanation as text")
				}
			case `json`:
				var x map[string]interface{}
				if got.bad || json.Unmarshal([]byte(s), &x) != nil || x[`__type`] == nil {
					bad("the explanation as JSON")
				}
			case `yaml`:
				if got.bad || !strings.Contains(s, "__type:") {
					bad("the explanation as YAML")
				}
			}
			if !command && !got.bad && told != (want != nil) {
				bad(fmt.Sprintf("the caller is told found: %v", want != nil))
			}
		case want == nil:
			if got.bad || told || out.Len() > 0 {
				bad("nothing is written and the caller is told")
			}
		default:
			if !command && !got.bad && !told {
				bad("the caller is told that the value is found")
			}
			s := out.String()
			switch format {
			case `json`:
				if got.bad || !oneJSON(s, want) || (want == vf.Nil && s != "null\n") {
					bad("JSON of " + txt(want))
				}
			case ``, `yaml`:
				if want.Equals(vf.Nil) {
					if got.bad || s != "\n" {
						bad("an empty line")
					}
				} else if got.bad || !oneYAML(s, want) {
					bad("YAML of " + txt(want))
				}
			case `s`:
				if got.bad || s != want.String()+"\n" {
					bad("the text")
				}
			case `binary`:
				if st, ok := want.(dgo.String); ok {
					bs, err := base64.StdEncoding.DecodeString(st.GoString())
					if err != nil {
						if !got.bad {
							if _, err := base64.RawStdEncoding.DecodeString(st.GoString()); err != nil {
								bad("an error")
							}
						}
					} else if got.bad || s != string(bs) {
						bad(fmt.Sprintf("the bytes %q", bs))
					}
				}
			}
		}
		w.done()
	}
}

// counting is a buffer
type counting struct{ bytes.Buffer }
