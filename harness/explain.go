package zzverif

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/config"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/merge"
)

// xNode is the explanation as the property describes it: a tree of steps
type xNode struct {
	kind   string
	up     *xNode
	subs   []*xNode
	texts  []string
	event  string
	key    string
	value  dgo.Value
	fields []interface{} // the own fields of the data form
	name   string        // provider, expression, source, module or segments
	loc    api.Location
	label  string
	opts   dgo.Map
}

func (n *xNode) open(k string) *xNode {
	c := &xNode{kind: k, up: n}
	n.subs = append(n.subs, c)
	return c
}

func (n *xNode) data() dgo.Map {
	m := vf.MutableMap(`__type`, `hiera.`+n.kind)
	if len(n.subs) > 0 {
		a := vf.MutableValues()
		for _, s := range n.subs {
			a.Add(s.data())
		}
		m.Put(`branches`, a)
	}
	if n.event != `` {
		m.Put(`event`, n.event)
	}
	if n.key != `` {
		m.Put(`key`, n.key)
	}
	if n.value != nil {
		m.Put(`value`, xData(n.value))
	}
	if len(n.texts) > 0 {
		m.Put(`texts`, vf.Strings(n.texts...))
	}
	for i := 0; i < len(n.fields); i += 2 {
		m.Put(n.fields[i], n.fields[i+1])
	}
	return m
}

func xData(v dgo.Value) dgo.Value {
	c := streamer.DataCollector()
	o := streamer.DefaultOptions()
	o.DedupLevel = streamer.NoDedup
	streamer.New(nil, o).Stream(v, c)
	return c.Value()
}

// xTidy removes empty lists of texts from the data form
func xTidy(m dgo.Map) dgo.Map {
	if a, ok := m.Get(`texts`).(dgo.Array); ok && a.Len() == 0 {
		m.Remove(`texts`)
	}
	if a, ok := m.Get(`branches`).(dgo.Array); ok {
		a.Each(func(b dgo.Value) { xTidy(b.(dgo.Map)) })
	}
	return m
}

type xLines struct {
	bf strings.Builder
}

func (l *xLines) line(level int, s string) {
	l.bf.WriteString("\n" + strings.Repeat(`  `, level) + strings.ReplaceAll(s, "\n", "\n"+strings.Repeat(`  `, level)))
}

func (l *xLines) text(level int, s string) {
	if s != `` {
		s = strings.Repeat(`  `, level) + s
	}
	l.bf.WriteString("\n" + s)
}

func xShow(v dgo.Value) string {
	if v == nil {
		return `nil`
	}
	w := util.NewERPIndenter(`  `)
	w.AppendValue(v)
	return w.String()
}

func (n *xNode) children(l *xLines, level int) {
	for _, s := range n.subs {
		s.text(l, level)
	}
}

func (n *xNode) outcome(l *xLines, level int) {
	switch n.event {
	case `not_found`:
		l.line(level, `No such key: "`+n.key+`"`)
	case `found`:
		l.line(level, `Found key: "`+n.key+`" value: `+xShow(n.value))
	case `found_in_defaults`:
		l.line(level, `Found key: "`+n.key+`" value: `+xShow(n.value)+` in defaults`)
	case `found_in_overrides`:
		l.line(level, `Found key: "`+n.key+`" value: `+xShow(n.value)+` in overrides`)
	}
	for _, t := range n.texts {
		l.text(level, t)
	}
}

func (n *xNode) text(l *xLines, level int) {
	switch n.kind {
	case `explainer`:
		n.children(l, level)
		for _, t := range n.texts {
			l.text(level, t)
		}
	case `explainLookup`:
		l.line(level, `Searching for "`+n.key+`"`)
		n.children(l, level+1)
	case `explainMerge`:
		switch len(n.subs) {
		case 0:
		case 1:
			n.children(l, level)
		default:
			l.line(level, `Merge strategy "`+n.label+`"`)
			if n.opts != nil && n.opts.Len() > 0 {
				l.line(level+1, `Options: `+xShow(n.opts))
			}
			n.children(l, level+1)
			if n.event == `result` {
				l.line(level+1, `Merged result: `+xShow(n.value))
			}
		}
	case `explainDataProvider`:
		l.line(level, n.name)
		n.children(l, level+1)
		n.outcome(l, level+1)
	case `explainInterpolate`:
		l.line(level, `Interpolation on "`+n.name+`"`)
		n.children(l, level+1)
	case `explainInvalidKey`:
		l.line(level, `Invalid key "`+n.key+`"`)
	case `explainKeySegment`:
		n.outcome(l, level)
	case `explainLocation`:
		k := `URI`
		if n.loc.Kind() == api.LcPath {
			k = `Path`
		}
		l.line(level, k+` "`+n.loc.Resolved()+`"`)
		l.line(level+1, `Original `+string(n.loc.Kind())+`: "`+n.loc.Original()+`"`)
		n.children(l, level+1)
		if n.event == `location_not_found` {
			l.line(level+1, string(n.loc.Kind())+` not found`)
		}
		n.outcome(l, level+1)
	case `explainMergeSource`:
		l.line(level, `Using merge options from `+n.name)
	case `explainModule`:
		if n.event == `module_not_found` {
			l.line(level, `Module "`+n.name+`" not found`)
			return
		}
		n.children(l, level)
		n.outcome(l, level)
	case `explainSubLookup`:
		l.line(level, `Sub key: "`+n.name+`"`)
		n.children(l, level+1)
		n.outcome(l, level+1)
	}
}

func TestC18(t *testing.T) {
	h := newH(t, "random sequences of explanation events, compared with an own tree as text, as data and after transport; explanations of random lookups after transport")
	h.explanations()
	h.xSharedTime()
	h.xEvents(1500)
	for h.more(2500) {
		w := h.genWorld(worldOpts{ipol: true, lo: true})
		w.session(nil, nil, func(s api.Session) {
			for n := 0; n < 6; n++ {
				key, ex := h.worldKey(), explain.NewExplainer(h.coin(), h.one(5))
				in := h.c("%sexplanation of the lookup of %q", w.text, key)
				h.current(in)
				lookupReal(s.Invocation(nil, ex), key, nil)
				h.transport(in, ex)
			}
		})
		w.done()
	}
}

func (h *H) xValue(depth int) dgo.Value {
	switch h.n_(9) {
	case 0:
		return vf.Integer(int64(h.n_(50)) - 3)
	case 1:
		return vf.Boolean(h.coin())
	case 2:
		return vf.Float(1.5)
	case 3:
		return vf.Nil
	case 4, 5:
		if depth < 3 {
			m := vf.MutableMap()
			for i := h.n_(3); i > 0; i-- {
				m.Put(h.pick(`a`, `b`, `a rather long key to be remembered`, `__x`, ``), h.xValue(depth+1))
			}
			return m
		}
	case 6:
		if depth < 3 {
			a := vf.MutableValues()
			for i := h.n_(3); i > 0; i-- {
				a.Add(h.xValue(depth + 1))
			}
			return a
		}
	}
	return vf.String(h.pick(`v`, ``, `a long string that occurs again and again`, "two\nlines", `quote"d`, `%{x}`, `å`))
}

// xSharedTime shows the known finding shared-rich-value
func (h *H) xSharedTime() {
	ex, v := explain.NewExplainer(false, false), vf.Time(time.Unix(100, 0))
	ex.PushLookup(api.NewKey(`a`))
	ex.PushSegment(`x`)
	ex.AcceptFound(`x`, v)
	ex.Pop()
	ex.PushSegment(`y`)
	ex.AcceptFound(`y`, v)
	ex.Pop()
	ex.Pop()
	in := h.c(`events lookup a; segment "x"; found x T; pop; segment "y"; found y T; pop; pop where T is the timestamp 1970-01-01T00:01:40Z, after transport`)
	r := try(func() interface{} { return fmt.Sprint(streamer.UnmarshalJSON(streamer.MarshalJSON(ex, nil), nil)) })
	if r.String() != show(ex.String()) {
		if r.v != "Searching for \"a\"\n  Found key: \"x\" value: 1970-01-01T00:01:40Z\n  Found key: \"y\" value: {\n    \"__type\": \"time\",\n    \"__value\": \"1970-01-01T00:01:40Z\"\n  }" {
			h.fail(in, r.String(), ex.String())
		}
		h.known = append(h.known, `shared-rich-value`)
	}
}

func (h *H) xEvents(n int) {
	texts := []string{`t1`, `some "text"`, ``, `a long text that occurs repeatedly in it`, "x\ty", `1`}
	names := []string{`n1`, `common: data_hash`, `a name "quoted"`, `0`}
	keys := []string{`a`, `a.b`, `a.'x.y'.3`, `lookup_options`, `m::k.0`, `"q r".s`}
	for h.more(n) {
		op, oo := h.one(4), h.one(4)
		ex := explain.NewExplainer(op, oo)
		root := &xNode{kind: `explainer`}
		if op {
			root.fields = append(root.fields, `options`, true)
		}
		if oo {
			root.fields = append(root.fields, `onlyOptions`, true)
		}
		cur := root
		var values []dgo.Value
		var locs []api.Location
		value := func() dgo.Value {
			if len(values) > 0 && h.one(3) {
				return values[h.n_(len(values))]
			}
			v := h.xValue(0)
			values = append(values, v)
			return v
		}
		anyKey := func() (interface{}, string) {
			switch h.n_(5) {
			case 0:
				i := h.n_(20)
				return i, strconv.Itoa(i)
			case 1:
				k := h.pick(keys...)
				return api.NewKey(k), k
			case 2:
				return vf.Integer(7), `7`
			default:
				k := h.pick(keys...)
				return k, k
			}
		}
		var trail []string
		say := func(f string, args ...interface{}) { trail = append(trail, fmt.Sprintf(f, args...)) }
		for i := h.n_(25); i > 0; i-- {
			switch h.n_(24) {
			case 0, 1, 2, 3:
				if cur.up != nil {
					say("pop")
					ex.Pop()
					cur = cur.up
				}
			case 4, 5:
				k, s := anyKey()
				v := value()
				say("found %v %s", k, v)
				ex.AcceptFound(k, v)
				cur.key, cur.value, cur.event = s, v, `found`
			case 6:
				k, v := h.pick(keys...), value()
				say("found in defaults %v %s", k, v)
				ex.AcceptFoundInDefaults(k, v)
				cur.key, cur.value, cur.event = k, v, `found_in_defaults`
			case 7:
				k, v := h.pick(keys...), value()
				say("found in overrides %v %s", k, v)
				ex.AcceptFoundInOverrides(k, v)
				cur.key, cur.value, cur.event = k, v, `found_in_overrides`
			case 8:
				say("location not found")
				ex.AcceptLocationNotFound()
				cur.event = `location_not_found`
			case 9:
				n := h.pick(names...)
				say("merge source %s", n)
				ex.AcceptMergeSource(n)
				c := cur.open(`explainMergeSource`)
				c.name, c.fields = n, []interface{}{`mergeSource`, n}
			case 10:
				say("module not found")
				ex.AcceptModuleNotFound()
				cur.event = `module_not_found`
			case 11, 12:
				k, s := anyKey()
				say("not found %v", k)
				ex.AcceptNotFound(k)
				cur.key, cur.event = s, `not_found`
			case 13:
				v := value()
				say("merge result %s", v)
				ex.AcceptMergeResult(v)
				cur.value, cur.event = v, `result`
			case 14, 15:
				x := h.pick(texts...)
				say("text %q", x)
				ex.AcceptText(x)
				cur.texts = append(cur.texts, x)
			case 16:
				n := h.pick(names...)
				say("provider %s", n)
				ex.PushDataProvider(xProvider(n))
				cur = cur.open(`explainDataProvider`)
				cur.name, cur.fields = n, []interface{}{`providerName`, n}
			case 17:
				n := h.pick(`x`, `lookup('a')`, `alias("k.l")`)
				say("interpolation %s", n)
				ex.PushInterpolation(n)
				cur = cur.open(`explainInterpolate`)
				cur.name, cur.fields = n, []interface{}{`expression`, n}
			case 18:
				k, s := anyKey()
				say("invalid key %v", k)
				ex.PushInvalidKey(k)
				cur = cur.open(`explainInvalidKey`)
				cur.key = s
			case 19:
				var l api.Location
				if len(locs) > 0 && h.coin() {
					l = locs[h.n_(len(locs))]
				} else if h.coin() {
					withInvocation(func(ic api.Invocation) {
						l = config.NewPath(h.pick(`common.yaml`, `hierarchy/x.yaml`)).Resolve(ic, h.pick(`/nonexistent`, `/tmp/../tmp`))[0]
					})
				} else {
					withInvocation(func(ic api.Invocation) { l = config.NewURI(h.pick(`http://x/y`, `u`)).Resolve(ic, ``)[0] })
				}
				locs = append(locs, l)
				say("location %s", l)
				ex.PushLocation(l)
				cur = cur.open(`explainLocation`)
				cur.loc = l
				cur.fields = []interface{}{`location`, xData(l)}
			case 20:
				k := h.pick(keys...)
				say("lookup %s", k)
				ex.PushLookup(api.NewKey(k))
				cur = cur.open(`explainLookup`)
				cur.key = k
			case 21:
				o := vf.Map()
				n := h.pick(`first`, `unique`, `hash`, `deep`)
				if h.coin() {
					o = vf.Map(`knockout_prefix`, `--`, `sort_merged_arrays`, h.coin())
				}
				m := merge.GetStrategy(n, o)
				say("merge %s %s", n, o)
				ex.PushMerge(m)
				cur = cur.open(`explainMerge`)
				cur.label, cur.opts = m.Label(), vf.Map()
				if n == `deep` {
					cur.opts = o
				}
				if n != `first` {
					cur.fields = []interface{}{`strategy`, n}
					if n == `deep` && o.Len() > 0 {
						cur.fields = append(cur.fields, `options`, o)
					}
				}
			case 22:
				if h.coin() {
					n := h.pick(`mod`, `m_2`)
					say("module %s", n)
					ex.PushModule(n)
					cur = cur.open(`explainModule`)
					cur.name, cur.fields = n, []interface{}{`moduleName`, n}
				} else {
					k := h.pick(keys...)
					say("sub lookup %s", k)
					ex.PushSubLookup(api.NewKey(k))
					cur = cur.open(`explainSubLookup`)
					cur.fields = []interface{}{`subKey`, k}
					var ss []string
					for _, p := range api.NewKey(k).Parts()[1:] {
						ss = append(ss, fmt.Sprint(p))
					}
					cur.name = strings.Join(ss, `.`)
				}
			case 23:
				var s interface{} = h.n_(9)
				if h.coin() {
					s = h.pick(`a`, `x "y"`, `3`, ``)
				}
				say("segment %#v", s)
				ex.PushSegment(s)
				cur = cur.open(`explainKeySegment`)
				cur.fields = []interface{}{`segment`, s}
			}
		}
		// a step that is still open is not part of what must survive
		for cur.up != nil {
			ex.Pop()
			cur = cur.up
		}
		in := h.c("events %s", strings.Join(trail, `; `))
		h.current(in)
		if g := try(func() interface{} { return ex.Options() == op && ex.OnlyOptions() == oo }); g.v != true {
			h.fail(in, `Options and OnlyOptions differ from what was asked for`, `the same`)
		}
		l := &xLines{}
		root.text(l, 0)
		want := l.bf.String()
		if len(root.subs) > 0 {
			if f := root.first(); f != nil && f.kind == `explainLookup` {
				want = strings.TrimPrefix(want, "\n")
			}
		}
		h.eq(in+" as text", ex.String(), want)
		h.eq(in+" as data", try(func() interface{} { return xTidy(xData(ex).(dgo.Map)) }), res{v: root.data()})
		h.transport(in, ex)
	}
}

// first is the first step that has a text
func (n *xNode) first() *xNode {
	for _, s := range n.subs {
		l := &xLines{}
		s.text(l, 0)
		if l.bf.Len() == 0 {
			continue
		}
		switch s.kind {
		case `explainMerge`:
			if len(s.subs) == 1 {
				return s.first()
			}
		case `explainModule`:
			if s.event != `module_not_found` {
				if f := s.first(); f != nil {
					return f
				}
			}
		}
		return s
	}
	return nil
}

// transport converts the explanation to data and back. It must be the same explanation.
func (h *H) transport(in string, ex api.Explainer) {
	h.t.Helper()
	var bs []byte
	r := try(func() interface{} {
		bs = streamer.MarshalJSON(ex, nil)
		return streamer.UnmarshalJSON(bs, nil)
	})
	back, ok := r.v.(api.Explainer)
	if r.bad || !ok {
		h.fail(in+" after transport as "+string(bs), r.String(), "an explanation")
	}
	h.eq(in+" options after transport", fmt.Sprint(back.Options(), back.OnlyOptions()), fmt.Sprint(ex.Options(), ex.OnlyOptions()))
	h.eq(in+" as data after transport as "+string(bs), try(func() interface{} { return xData(back) }), try(func() interface{} { return xData(ex) }))
	h.eq(in+" as text after transport as "+string(bs), try(func() interface{} { return back.String() }), try(func() interface{} { return ex.String() }))
}

type xProvider string

func (p xProvider) FullName() string                                          { return string(p) }
func (p xProvider) Hierarchy() api.Entry                                      { return nil }
func (p xProvider) LookupKey(api.Key, api.Invocation, api.Location) dgo.Value { return nil }
