package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// The model: a Hiera that is written from the text of the properties, for configurations that the harness makes up.

// mSkip ends the model: there is more than one right answer
type mSkip struct{}

type mErr struct{ s string }

func (e mErr) Error() string { return e.s }

func mfail(f string, a ...interface{}) { panic(mErr{fmt.Sprintf(f, a...)}) }

// seg is a segment of a key
type seg struct {
	s  string
	i  int
	ix bool
}

// oParse splits a key; ok is false when the key is to be rejected
func oParse(key string) (segs []seg, ok bool) {
	cur, quoted := ``, false
	end := func() bool {
		if quoted {
			segs = append(segs, seg{s: cur})
		} else {
			if cur == `` {
				return false
			}
			if n, err := strconv.ParseInt(cur, 10, 32); err == nil {
				segs = append(segs, seg{i: int(n), ix: true})
			} else {
				segs = append(segs, seg{s: cur})
			}
		}
		cur, quoted = ``, false
		return true
	}
	rs := key
	for i := 0; i < len(rs); i++ {
		c := rs[i]
		switch c {
		case '.':
			if !end() {
				return nil, false
			}
		case '\'', '"':
			j := strings.IndexByte(rs[i+1:], c)
			if j < 0 {
				return nil, false
			}
			cur += rs[i+1 : i+1+j]
			quoted = true
			i += j + 1
		default:
			cur += rs[i : i+1]
		}
	}
	if !end() {
		return nil, false
	}
	if segs[0].ix {
		return nil, false
	}
	return segs, true
}

func oDig(segs []seg, v dgo.Value) dgo.Value {
	for _, s := range segs {
		switch c := v.(type) {
		case dgo.Array:
			if !s.ix || s.i < 0 || s.i >= c.Len() {
				return nil
			}
			v = c.Get(s.i)
		case dgo.Map:
			if s.ix {
				v = c.Get(int64(s.i))
			} else {
				v = c.Get(s.s)
			}
			if v == nil {
				return nil
			}
		default:
			return nil
		}
	}
	return v
}

// level is a level of a configuration
type level struct {
	name  string
	kind  string // data_hash, lookup_key, data_dig
	fn    string
	opts  map[string]string
	lines []string            // yaml lines that give the locations
	nolo  bool                // has no location setting
	files []string            // what the locations resolve to, in order ("" stands for no location)
	data  map[string]dgo.Map  // what the functions fn finds: location -> data
	calls map[string][]string // calls that were seen
}

type world struct {
	h      *H
	dir    string
	levels []*level
	scope  map[string]dgo.Value
	data   map[string]dgo.Map // file -> content
	funcs  dgo.Map
	text   string
	calls  []string
	n      int
}

func (h *H) newWorld() *world {
	d, err := os.MkdirTemp(``, `w`)
	if err != nil {
		h.t.Fatal(err)
	}
	return &world{h: h, dir: d, scope: map[string]dgo.Value{}, data: map[string]dgo.Map{}, funcs: vf.MutableMap()}
}

func (w *world) done() { _ = os.RemoveAll(w.dir) }

func (w *world) write(file, content string) {
	p := filepath.Join(w.dir, file)
	_ = os.MkdirAll(filepath.Dir(p), 0o700)
	if err := os.WriteFile(p, []byte(content), 0o600); err != nil {
		w.h.t.Fatal(err)
	}
	w.text += "--- " + file + "\n" + content + "\n"
}

// js writes a value as JSON, which is YAML too
func js(v dgo.Value) string {
	switch v := v.(type) {
	case dgo.String:
		return strconv.Quote(v.GoString())
	case dgo.Array:
		var ss []string
		for _, e := range list(v) {
			ss = append(ss, js(e))
		}
		return `[` + strings.Join(ss, `, `) + `]`
	case dgo.Map:
		var ss []string
		v.EachEntry(func(e dgo.MapEntry) { ss = append(ss, js(e.Key())+`: `+js(e.Value())) })
		return `{` + strings.Join(ss, `, `) + `}`
	}
	if v == nil || v.Equals(vf.Nil) {
		return `null`
	}
	return fmt.Sprint(v)
}

// session calls f with a session for this world
func (w *world) session(tp sdk.LookupKey, more map[string]interface{}, f func(s api.Session)) {
	o := vf.MutableMap()
	o.Put(api.HieraConfig, filepath.Join(w.dir, `hiera.yaml`))
	o.Put(api.HieraFunctions, w.funcs)
	sc := vf.MutableMap()
	for k, v := range w.scope {
		sc.Put(k, v)
	}
	o.Put(api.HieraScope, sc)
	for k, v := range more {
		o.Put(k, v)
	}
	withTop(tp, o, f)
}

// mstate is the state of a lookup in the model
type mstate struct {
	stack    []string
	strategy string // the strategy of the lookup whose data is being collected
	vars     map[string]dgo.Value
}

func (st *mstate) with(name string, f func() dgo.Value) dgo.Value {
	for _, n := range st.stack {
		if n == name {
			mfail("recursion of %s in %v", name, st.stack)
		}
	}
	st.stack = append(st.stack, name)
	defer func() { st.stack = st.stack[:len(st.stack)-1] }()
	return f()
}

var exprPat = regexp.MustCompile(`%\{[^}]*\}`)
var callPat = regexp.MustCompile(`^(\w+)\((?:"([^"]+)"|'([^']+)')\)$`)

func (w *world) scopeVar(st *mstate, name string) dgo.Value {
	if v, ok := st.vars[name]; ok {
		return v
	}
	if v, ok := w.scope[name]; ok {
		return v
	}
	return nil
}

func (w *world) inScope(st *mstate, expr string, methods bool) dgo.Value {
	segs, ok := oParse(expr)
	if !ok {
		mfail("bad key %s", expr)
	}
	v := w.scopeVar(st, segs[0].s)
	if v == nil {
		return nil
	}
	return st.with(`%{`+expr+`}`, func() dgo.Value { return oDig(segs[1:], w.ipol(st, v, methods)) })
}

// ipolString interpolates a text; the result is nil when a strict alias finds nothing
func (w *world) ipolString(st *mstate, s string, methods bool) dgo.Value {
	if !strings.Contains(s, `%{`) {
		return vf.String(s)
	}
	out := ``
	last := 0
	var whole dgo.Value
	isWhole, strict := false, false
	for _, m := range exprPat.FindAllStringIndex(s, -1) {
		out += s[last:m[0]]
		last = m[1]
		expr := strings.TrimSpace(s[m[0]+2 : m[1]-1])
		switch expr {
		case ``, `::`, `""`, `''`, `"::"`, `'::'`:
			continue
		}
		method, arg := `scope`, expr
		if g := callPat.FindStringSubmatch(expr); g != nil {
			if !methods {
				mfail("method not allowed")
			}
			method, arg = g[1], g[2]+g[3]
		}
		switch method {
		case `scope`:
			if v := w.inScope(st, arg, methods); v != nil {
				out += v.String()
			}
		case `literal`:
			out += arg
		case `lookup`, `hiera`:
			if v := w.lookup(st, arg, nil); v != nil {
				out += v.String()
			}
		case `alias`, `strict_alias`:
			if m[0] != 0 || m[1] != len(s) {
				mfail("alias in the middle")
			}
			whole = w.lookup(st, arg, nil)
			isWhole, strict = true, method == `strict_alias`
		default:
			mfail("unknown method %s", method)
		}
	}
	out += s[last:]
	if isWhole && whole != nil {
		return whole
	}
	if strict {
		return nil
	}
	return vf.String(out)
}

func (w *world) ipol(st *mstate, v dgo.Value, methods bool) dgo.Value {
	switch c := v.(type) {
	case dgo.String:
		return w.ipolString(st, c.GoString(), methods)
	case dgo.Array:
		r := make([]dgo.Value, c.Len())
		for i := range r {
			r[i] = w.ipol(st, c.Get(i), methods)
		}
		return arr(r)
	case dgo.Map:
		m := vf.MutableMap()
		c.EachEntry(func(e dgo.MapEntry) { k := w.ipol(st, e.Key(), methods); m.Put(k, w.ipol(st, e.Value(), methods)) })
		return m
	}
	return v
}

func oMerge(strategy string, vs []dgo.Value) dgo.Value {
	switch strategy {
	case `first`:
		return oFirst(vs)
	case `unique`:
		return oUnique(vs)
	case `hash`:
		return oHash(vs)
	case `deep`:
		return oDeep(vs)
	}
	mfail("unknown strategy %s", strategy)
	return nil
}

func (w *world) mergeLevels(st *mstate, root, strategy string) dgo.Value {
	oMerge(strategy, nil)
	in := &mstate{stack: st.stack, strategy: strategy, vars: st.vars}
	var vs []dgo.Value
	for _, l := range w.levels {
		var ls []dgo.Value
		for _, f := range l.files {
			var v dgo.Value
			if d, ok := l.data[f]; ok {
				v = d.Get(root)
				if v != nil && l.kind == `data_hash` {
					v = w.ipol(in, v, true)
				}
			}
			ls = append(ls, v)
			if strategy == `first` && v != nil {
				break
			}
		}
		var v dgo.Value
		switch len(l.files) {
		case 0:
		case 1:
			v = ls[0]
		default:
			v = oMerge(strategy, ls)
		}
		vs = append(vs, v)
		if strategy == `first` && v != nil {
			break
		}
	}
	if strategy != `first` {
		// a source more or less makes a difference for unique
		for len(vs) < len(w.levels) {
			vs = append(vs, nil)
		}
	}
	return oMerge(strategy, vs)
}

func (w *world) options(root string) dgo.Map {
	if lo, ok := w.mergeLevels(&mstate{}, `lookup_options`, `deep`).(dgo.Map); ok {
		if m, ok := lo.Get(root).(dgo.Map); ok {
			return m
		}
	}
	return nil
}

func strategyOf(v dgo.Value) string {
	switch v := v.(type) {
	case dgo.String:
		return v.GoString()
	case dgo.Map:
		if s, ok := v.Get(`strategy`).(dgo.String); ok {
			return s.GoString()
		}
		return ``
	}
	return `first`
}

func (w *world) lookup(st *mstate, key string, merge dgo.Value) dgo.Value {
	segs, ok := oParse(key)
	if !ok {
		mfail("bad key %s", key)
	}
	root := segs[0].s
	if root == `lookup_options` {
		return nil
	}
	return st.with(key, func() dgo.Value {
		var v dgo.Value
		if st.strategy != `` {
			v = w.mergeLevels(st, root, st.strategy)
		} else {
			lo := w.options(root)
			m := merge
			if m == nil && lo != nil {
				m = lo.Get(`merge`)
			}
			s := `first`
			if m != nil {
				s = strategyOf(m)
			}
			v = w.mergeLevels(st, root, s)
			if v != nil && lo != nil {
				if c := lo.Get(`convert_to`); c != nil {
					v = convert(c, v)
				}
			}
		}
		if v == nil {
			return nil
		}
		v = w.ipol(&mstate{stack: st.stack, vars: st.vars}, v, true)
		return oDig(segs[1:], v)
	})
}

func convert(c, v dgo.Value) dgo.Value {
	t := c
	var args []dgo.Value
	if a, ok := c.(dgo.Array); ok {
		if a.Len() == 0 {
			return v
		}
		t = a.Get(0)
		args = list(a)[1:]
	}
	if contains(js(v), `{`) {
		panic(mSkip{}) // the order of the entries of a merged map is not specified
	}
	ty := tf.ParseType(t.String())
	if len(args) > 0 {
		v = vf.Arguments(vf.Values(v).WithAll(arr(args).(dgo.Array)))
	}
	return vf.New(ty, v)
}

// oracle runs the model
func (w *world) oracle(f func() dgo.Value) res {
	return try(func() interface{} {
		v := f()
		if v == nil {
			return nil
		}
		return v
	})
}

// sameRes compares outcomes: the text of an error is not compared
func sameRes(a, b res) bool {
	if b.skip {
		return true
	}
	if a.bad || b.bad {
		return a.bad && b.bad
	}
	x, _ := a.v.(dgo.Value)
	y, _ := b.v.(dgo.Value)
	return same(x, y)
}

func (r res) text() string {
	if r.bad {
		return "an error (" + r.err + ")"
	}
	if r.v == nil {
		return "not found"
	}
	return fmt.Sprint(r.v)
}

// lookupReal runs the code
func lookupReal(ic api.Invocation, key string, opts interface{}) res {
	return try(func() interface{} {
		v := hiera.Lookup(ic, key, nil, opts)
		if v == nil {
			return nil
		}
		return v
	})
}
