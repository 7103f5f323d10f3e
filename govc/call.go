package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) calleeVal(st *State, c *ssa.CallCommon) Val {
	return ex.operand(st, c.Value)
}

// funcOf is the function that a term denotes, if it is known and captures nothing
func (w *World) funcOf(t *Term) *ssa.Function {
	if len(t.Args) == 0 && strings.HasPrefix(t.Op, "fn:") {
		return w.funcsByNm[t.Op[3:]]
	}
	if len(t.Args) == 0 && strings.HasPrefix(t.Op, "clo:") {
		return w.funcsByNm[t.Op[4:]]
	}
	return nil
}

func (ex *Exec) doCall(st *State, c *ssa.CallCommon, fnv Val, args []Val, call ssa.Value, isDefer bool) ([]*State, *Stop) {
	if c.IsInvoke() {
		return ex.invoke(st, c, fnv, args, call, isDefer)
	}
	switch f := fnv.(type) {
	case *ssa.Builtin:
		return ex.builtin(st, f.Name(), c, args, call, isDefer)
	case *VClosure:
		return ex.callFn(st, f.fn, args, f.binds, call, isDefer)
	case *Term:
		if fn := ex.w.funcOf(f); fn != nil {
			return ex.callFn(st, fn, args, nil, call, isDefer)
		}
		ok, n, s := ex.deref(st, f, "call of nil function")
		if ok == nil {
			return n, s
		}
		name := "dyn:" + shortSig(c.Signature())
		eff, np := "all", false
		if r := ex.w.extern("func:" + typeKey(c.Value.Type())); r != nil {
			eff, np = r.effect, r.nopanic
		}
		a, s2 := ex.opaque(ok, name, c.Signature(), append([]Val{f}, args...), eff, np, call, isDefer)
		if s2 != nil {
			a = []*State{stopState(s2)}
		}
		return append(a, n...), nil
	}
	fail("call of %T", fnv)
	return nil, nil
}

func shortSig(s *types.Signature) string {
	return fmt.Sprintf("%d", s.Results().Len())
}

func (ex *Exec) onStack(st *State, fn *ssa.Function) int {
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	return n
}

func (ex *Exec) callFn(st *State, fn *ssa.Function, args []Val, binds []Val, call ssa.Value, isDefer bool) ([]*State, *Stop) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if name == ghostPkg+"Entry" {
		return ex.ghost(st, fn, args, call, isDefer)
	}
	if c := ex.w.byTarget[name]; c != nil && c.Broken == "" && ex.side != 'I' {
		if (c.Inline || ex.unfolds(st, c)) && fn != ex.top {
			ex.pushFrame(st, c.Spec, args, nil, call, isDefer)
			return one(st), nil
		}
		ex.ensures = c.Ensures
		return ex.opaque(st, name, fn.Signature, args, c.Effects, c.NoPanic, call, isDefer)
	}
	if b := ex.w.binds[name]; b != nil {
		t := b.Params[0].Type()
		switch x := args[0].(type) {
		case *VIface:
			if types.Identical(x.t, t) {
				ex.pushFrame(st, b, append([]Val{x.v}, args[1:]...), nil, call, isDefer)
				return one(st), nil
			}
		case *Term:
			if x.Op == "box:"+typeKey(t) {
				ex.pushFrame(st, b, append([]Val{fromTerm(x.Args[0], t)}, args[1:]...), nil, call, isDefer)
				return one(st), nil
			}
		}
		return ex.opaque(st, name, fn.Signature, args, "none", true, call, isDefer)
	}
	if m := ex.w.models[name]; m != nil {
		ex.pushFrame(st, m, args, nil, call, isDefer)
		return one(st), nil
	}
	if r := ex.w.extern(name); r != nil && ex.w.inRepo(fn) && ex.side != 'I' {
		return ex.opaque(st, name, fn.Signature, args, r.effect, r.nopanic, call, isDefer)
	}
	if len(fn.Blocks) > 0 && (ex.w.inRepo(fn) || fn.Parent() != nil || strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound")) {
		if ex.w.recursive[fn] && ex.onStack(st, fn) > 1 {
			fail("recursive function without a contract: %s", name)
		}
		ex.pushFrame(st, fn, args, binds, call, isDefer)
		return one(st), nil
	}
	if h := staticTheory[name]; h != nil {
		if v, ok := h(ex, st, args); ok {
			return ex.finishCall(st, call, isDefer, v)
		}
	}
	eff, np := "all", false
	if r := ex.w.extern(name); r != nil {
		eff, np = r.effect, r.nopanic
		ex.resNonNil = r.nonnil
	}
	return ex.opaque(st, name, fn.Signature, args, eff, np, call, isDefer)
}

// unfolds tells if the contract of a callee is replaced by the body of its specification: a second attempt does that
// when the first one failed, so that moving code in or out of a function under contract makes no difference
func (ex *Exec) unfolds(st *State, c *Contract) bool {
	if ex.unfold == 0 {
		return false
	}
	n := 0
	for i, f := range st.frames {
		if i > 0 && ex.w.specTop[f.fn] {
			n++
		}
		if f.fn == c.Spec {
			return false
		}
	}
	return n < ex.unfold
}

const ghostPkg = modPath + "/zzghost."

func (ex *Exec) ghost(st *State, fn *ssa.Function, args []Val, call ssa.Value, isDefer bool) ([]*State, *Stop) {
	switch fn.Name() {
	case "Entry":
		return ex.finishCall(st, call, isDefer, App("mentry", SU, ex.contentOf(st, args[0]), ex.term(st, args[1])))
	}
	fail("unknown ghost function %s", fn.Name())
	return nil, nil
}

func (ex *Exec) invoke(st *State, c *ssa.CallCommon, recv Val, args []Val, call ssa.Value, isDefer bool) ([]*State, *Stop) {
	name := c.Method.FullName()
	switch r := recv.(type) {
	case *VIface:
		fn := ex.w.prog.LookupMethod(r.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			fail("no method %s on %s", c.Method.Name(), r.t)
		}
		return ex.callFn(st, fn, append([]Val{r.v}, args...), nil, call, isDefer)
	case *Term:
		// a boxed pointer of a known type
		if strings.HasPrefix(r.Op, "box:") {
			if t := ex.w.typeByKey(r.Op[4:]); t != nil {
				if fn := ex.w.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); fn != nil {
					return ex.callFn(st, fn, append([]Val{fromTerm(r.Args[0], t)}, args...), nil, call, isDefer)
				}
			}
		}
		st2, n, s := st, []*State(nil), (*Stop)(nil)
		if !r.nonNil && !isCtor(r) && !ex.w.nonNil[typeKey(c.Value.Type())] {
			st2, n, s = ex.require(st, mkNot(mkEq(r, tNil)), "nil receiver")
		}
		if st2 == nil {
			return n, s
		}
		a, s2 := ex.invokeTerm(st2, c, name, r, args, call, isDefer)
		if s2 != nil {
			a = []*State{stopState(s2)}
		}
		return append(a, n...), nil
	case *VDyn:
		return ex.invokeTerm(st, c, name, r, args, call, isDefer)
	}
	fail("invoke %s on %T", name, recv)
	return nil, nil
}

func (ex *Exec) invokeTerm(st *State, c *ssa.CallCommon, name string, r Val, args []Val, call ssa.Value, isDefer bool) ([]*State, *Stop) {
	all := append([]Val{r}, args...)
	if f := ex.w.iface[name]; f != nil {
		ex.pushFrame(st, f, all, nil, call, isDefer)
		return one(st), nil
	}
	if m := ex.w.models[name]; m != nil {
		ex.pushFrame(st, m, all, nil, call, isDefer)
		return one(st), nil
	}
	if strings.HasPrefix(name, "("+dgoPkg) {
		if res, stop, ok := ex.dgoMethod(st, c, name, r, args, call, isDefer); ok {
			return res, stop
		}
	}
	eff, np := "all", false
	if ru := ex.w.extern(name); ru != nil {
		eff, np = ru.effect, ru.nopanic
		ex.resNonNil = ru.nonnil
	}
	un := name
	if strings.HasPrefix(name, "("+dgoPkg) {
		un = "·" + c.Method.Name()
	}
	return ex.opaque(st, un, c.Method.Type().(*types.Signature), all, eff, np, call, isDefer)
}

// argTerm reifies an argument of an opaque call
func (ex *Exec) argTerm(st *State, name string, i int, v Val) *Term {
	r := &reifier{st: st, ex: ex, where: name, arg: i}
	if t, ok := v.(*Term); ok {
		if fn := ex.w.funcOf(t); fn != nil {
			return r.closure(&VClosure{fn: fn})
		}
	}
	return r.reify(v)
}

// opaque applies an uninterpreted function: the result, the effect and the outcome (normal or panic) depend on the
// arguments and, unless the function is pure, on the state of the world
func (ex *Exec) opaque(st *State, name string, sig *types.Signature, args []Val, eff string, nopanic bool, call ssa.Value, isDefer bool) ([]*State, *Stop) {
	ensures := ex.ensures
	ex.ensures = nil
	resNonNil := ex.resNonNil
	ex.resNonNil = false
	as := make([]*Term, len(args))
	ex.preconditions(st, name, sig, args)
	// a package function used as value
	for i, a := range args {
		as[i] = ex.argTerm(st, name, i, a)
	}
	if name == "fmt.Errorf" && len(as) == 2 {
		as[1] = ex.fmtArgs(st, as[0], as[1])
	}
	for i, a := range args {
		if t, ok := a.(*Term); ok && t != tNil && sig.Params().Len() > 0 {
			j := i - (len(args) - sig.Params().Len())
			if j >= 0 && isBufPtr(sig.Params().At(j).Type()) {
				fail("the content of the buffer passed to %s is unknown", name)
			}
		}
	}
	ts := as
	var w *Term
	switch eff {
	case "none", "x":
	case "reads", "g", "all":
		w = ex.flushW(st)
		if eff == "reads" && strings.HasPrefix(name, "os.") && len(args) == 0 {
			// what the operating system tells does not depend on fields that were written in memory
			for strings.HasPrefix(w.Op, "wr:") {
				w = w.Args[0]
			}
		}
		ts = append([]*Term{w}, as...)
	case "commute":
		w = ex.flushW(st)
	default:
		fail("unknown effect %s of %s", eff, name)
	}
	var pflag *Term
	if !nopanic {
		pflag = App(name+"#p", SB, ts...)
	}
	switch eff {
	case "g":
		st.W = App(name+"#gW", SW, ts...)
	case "all":
		st.X = App(name+"#X", SW, append([]*Term{st.X}, ts...)...)
		st.W = App(name+"#W", SW, ts...)
		ex.havocArgs(st, name, args, ts)
	case "commute":
		st.W = commute(w, name+"#cW", as)
	case "x":
		st.X = App(name+"#x", SW, append([]*Term{st.X}, ts...)...)
	}
	if eff != "all" {
		for _, a := range args {
			if p, ok := a.(*VPtr); ok && p.kind == 'L' && isBufPtr(types.NewPointer(st.objs[p.obj].t)) {
				ex.havocArgs(st, name, []Val{p}, ts)
			}
		}
	}
	var res Val
	rs := sig.Results()
	mkRes := func(i int) Val {
		t := rs.At(i).Type()
		op := name
		if rs.Len() > 1 {
			op = fmt.Sprintf("%s#%d", name, i)
		}
		x := App(op, sortOf(t), ts...)
		if resNonNil || ex.w.nonNil[typeKey(t)] {
			x.nonNil = true
			x.never = x.never || resNonNil
		}
		return fromTerm(typed(x, t), t)
	}
	switch rs.Len() {
	case 0:
	case 1:
		res = mkRes(0)
	default:
		tv := &VTuple{}
		for i := 0; i < rs.Len(); i++ {
			tv.vs = append(tv.vs, mkRes(i))
		}
		res = tv
	}
	finish := func(st *State) ([]*State, *Stop) {
		if ensures == nil || isDefer {
			return ex.finishCall(st, call, isDefer, res)
		}
		a := append([]Val{}, args...)
		if tv, ok := res.(*VTuple); ok {
			a = append(a, tv.vs...)
		} else if res != nil {
			a = append(a, res)
		}
		ex.pushFrame(st, ensures, a, nil, call, false)
		st.top().ensures, st.top().deliver = true, res
		return one(st), nil
	}
	if nopanic {
		return finish(st)
	}
	bad, ok := ex.branch(st, pflag)
	var out []*State
	if ok != nil {
		n, s := finish(ok)
		if s != nil {
			n = []*State{stopState(s)}
		}
		out = append(out, n...)
	}
	if bad != nil {
		n, s := ex.raise(bad, App(name+"#pv", SU, ts...))
		if s != nil {
			n = []*State{stopState(s)}
		}
		out = append(out, n...)
	}
	return out, nil
}

// preconditions are the obligations of a caller: what a function may rely on not to be nil is not nil
func (ex *Exec) preconditions(st *State, name string, sig *types.Signature, args []Val) {
	n := sig.Params().Len()
	for i, a := range args {
		if j := i - (len(args) - n); j >= 0 {
			ex.notNil(st, "precondition of "+name, sig.Params().At(j).Type(), a)
		}
	}
}

// notNil proves of the code that a value of a type that is never nil is not nil. Such values in fields and maps are
// assumed not to be nil when they are read because they were proven not to be when they were stored.
func (ex *Exec) notNil(st *State, what string, typ types.Type, v Val) {
	t, ok := v.(*Term)
	if ex.side != 'A' || ex.prod == nil || !ok || !ex.w.nonNil[typeKey(typ)] || t.nonNil || isCtor(t) || isStored(t) {
		return
	}
	ok, by := ex.prod.prove(st.pc, mkNot(mkEq(t, tNil)))
	d := ""
	if !ok {
		d = fmt.Sprintf("%s may be nil\n%s", t, ex.prod.pcText(st.pc))
	}
	ex.prod.add(what, ok, by, d, false)
}

// panicNotNil proves of the code that it does not panic with nil, which recover cannot tell from no panic at all
func (ex *Exec) panicNotNil(st *State, v Val) {
	t, ok := v.(*Term)
	if ex.side != 'A' || ex.prod == nil || !ok || t.nonNil || isCtor(t) {
		return
	}
	ok, by := ex.prod.prove(st.pc, mkNot(mkEq(t, tNil)))
	d := ""
	if !ok {
		d = fmt.Sprintf("panic(%s) with what may be nil\n%s", t, ex.prod.pcText(st.pc))
	}
	ex.prod.add("the value of a panic", ok, by, d, false)
}

func isStored(t *Term) bool {
	return strings.HasPrefix(t.Op, "rd:") || strings.HasPrefix(t.Op, "rf:") || strings.HasPrefix(t.Op, "fld:") || t.Op == "gget"
}

// commute adds an effect that can be exchanged with other effects of its kind; they are kept in an order of their own
func commute(w *Term, op string, as []*Term) *Term {
	t := App(op, SW, append([]*Term{tNil}, as...)...)
	if strings.HasSuffix(w.Op, "#cW") {
		if o := App(w.Op, SW, append([]*Term{tNil}, w.Args[1:]...)...); o.ID > t.ID {
			return App(w.Op, SW, append([]*Term{commute(w.Args[0], op, as)}, w.Args[1:]...)...)
		}
	}
	return App(op, SW, append([]*Term{w}, as...)...)
}

func isBufPtr(t types.Type) bool {
	k := typeKey(t)
	return k == "*bytes.Buffer" || k == "*strings.Builder"
}

// havocArgs forgets the content of local objects an effectful callee can reach through pointers
func (ex *Exec) havocArgs(st *State, name string, args []Val, ts []*Term) {
	seen := map[int]bool{}
	var visit func(v Val)
	visit = func(v Val) {
		switch x := v.(type) {
		case *VIface:
			visit(x.v)
		case *VPtr:
			if x.kind != 'L' || seen[x.obj] {
				return
			}
			seen[x.obj] = true
			o := st.objs[x.obj]
			if s, ok := isStruct(o.t); ok {
				sv, ok := o.val.(*VStruct)
				if !ok {
					return
				}
				c := &VStruct{t: sv.t, fs: append([]Val(nil), sv.fs...)}
				for i := range c.fs {
					ft := s.Field(i).Type()
					if opaqueStructs[typeKey(ft)] {
						continue
					}
					if key := typeKey(o.t) + "." + s.Field(i).Name(); !ex.w.immutable(key) {
						c.fs[i] = fromTerm(typed(App(fmt.Sprintf("%s#mod%d.%d", name, x.obj-x.obj, i), sortOf(ft), ts...), ft), ft)
					}
				}
				st.setObj(x.obj, c)
				return
			}
			if opaqueStructs[typeKey(o.t)] {
				if strings.HasPrefix(typeKey(o.t), "sync.") {
					return
				}
				st.setObj(x.obj, App(name+"#modbuf", SS, ts...))
				return
			}
			st.setObj(x.obj, fromTerm(typed(App(name+"#modcell", sortOf(o.t), ts...), o.t), o.t))
		case *VClosure:
			for i, b := range x.binds {
				p, ok := b.(*VPtr)
				if ok && p.kind == 'L' && closureWrites(x.fn, i) {
					fail("an opaque call (%s) receives a closure that assigns a captured variable", name)
				}
			}
		}
	}
	for _, a := range args {
		visit(a)
	}
}

func closureWrites(fn *ssa.Function, i int) bool {
	fv := fn.FreeVars[i]
	for _, r := range *fv.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == fv {
				return true
			}
		case *ssa.MakeClosure:
			for j, b := range r.Bindings {
				if b == fv && closureWrites(r.Fn.(*ssa.Function), j) {
					return true
				}
			}
		}
	}
	return false
}

// ---- builtins

func (ex *Exec) builtin(st *State, name string, c *ssa.CallCommon, args []Val, call ssa.Value, isDefer bool) ([]*State, *Stop) {
	fin := func(v Val) ([]*State, *Stop) { return ex.finishCall(st, call, isDefer, v) }
	switch name {
	case "len", "cap":
		t := c.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Map:
			return fin(App("glen", SI, ex.mapContent(st, args[0])))
		case *types.Pointer:
			return fin(mkInt(u.Elem().Underlying().(*types.Array).Len()))
		}
		if sortOf(t) == SS {
			return fin(App("str.len", SI, ex.term(st, args[0])))
		}
		if name == "cap" {
			return fin(App("cap", SI, ex.term(st, args[0])))
		}
		return fin(ex.sliceLen(st, args[0]))
	case "append":
		return fin(ex.appendVal(st, args[0], args[1], c.Args[0].Type(), c.Args[1].Type()))
	case "copy":
		d, ok := args[0].(*VSlice)
		if ok {
			o := st.objs[d.obj]
			dn, sn := ex.sliceLen(st, d), ex.sliceLen(st, args[1])
			if mkEq(dn, sn) == tTrue || st.known(mkEq(dn, sn)) == 1 {
				if d.lo.isInt() && d.lo.I == 0 && mkEq(ex.objLen(st, o), d.hi) == tTrue {
					st.setObj(d.obj, ex.term(st, args[1]))
					return fin(sn)
				}
			}
		}
		fail("copy")
	case "delete":
		m := ex.mapContent(st, args[0])
		ex.setMapContent(st, args[0], App("gdel", SU, m, ex.term(st, args[1])))
		return fin(nil)
	case "recover":
		n := len(st.frames)
		if n >= 2 && st.top().isDefer {
			p := st.frames[n-2]
			if p.panicking && !p.recovered {
				v := p.panicVal
				p.recovered = true
				return fin(v)
			}
		}
		return fin(tNil)
	case "close":
		ex.effect(st, "chan.close", ex.term(st, args[0]))
		return fin(nil)
	case "ssa:wrapnilchk":
		return fin(args[0])
	case "print", "println":
		return fin(nil)
	}
	fail("builtin %s", name)
	return nil, nil
}

func (ex *Exec) objLen(st *State, o *Obj) *Term {
	if a, ok := o.val.(*VArray); ok {
		return mkInt(int64(len(a.es)))
	}
	return App("slen", SI, ex.term(st, o.val))
}

// concrete elements of a slice value if they are all known
func (ex *Exec) elems(st *State, v Val) ([]Val, bool) {
	switch s := v.(type) {
	case *VSlice:
		if a, ok := st.objs[s.obj].val.(*VArray); ok && s.lo.isInt() && s.hi.isInt() {
			return a.es[s.lo.I:s.hi.I], true
		}
		if t, ok := st.objs[s.obj].val.(*Term); ok && t.Op == "seq" && s.lo.isInt() && s.hi.isInt() && int(s.hi.I) <= len(t.Args) {
			var r []Val
			for _, e := range t.Args[s.lo.I:s.hi.I] {
				r = append(r, e)
			}
			return r, true
		}
	case *Term:
		if s == tNil {
			return nil, true
		}
		if s.Op == "seq" {
			var r []Val
			for _, e := range s.Args {
				r = append(r, e)
			}
			return r, true
		}
	}
	return nil, false
}

func (ex *Exec) appendVal(st *State, a, b Val, t, bt types.Type) Val {
	el := t.Underlying().(*types.Slice).Elem()
	ae, aok := ex.elems(st, a)
	if sortOf(bt) == SS {
		b = App("str2[]byte", SU, ex.term(st, b))
	}
	be, bok := ex.elems(st, b)
	if bok && len(be) == 0 {
		return a
	}
	if aok && bok {
		arr := &VArray{t: types.NewArray(el, int64(len(ae)+len(be)))}
		arr.es = append(append([]Val(nil), ae...), be...)
		id := st.newObj(arr, t, "slice")
		return &VSlice{obj: id, lo: mkInt(0), hi: mkInt(int64(len(arr.es))), elem: el}
	}
	c := App("scat", SU, ex.term(st, a), ex.term(st, b))
	id := st.newObj(c, t, "slice")
	return &VSlice{obj: id, lo: mkInt(0), hi: App("slen", SI, c), elem: el}
}

// ---- dgo theory

func (ex *Exec) newDyn(st *State, content *Term, iface string) Val {
	t := ex.w.types[dgoPkg+iface]
	id := st.newObj(content, t, "dgo "+iface)
	return &VDyn{obj: id, t: t}
}

func (ex *Exec) dyn(st *State, v Val) *Term {
	t := ex.term(st, v)
	if n := normBox(t); n != nil {
		return n
	}
	return App("vfValue", SU, t)
}

func valTyped(ex *Exec, x *Term) *Term { return typed(x, ex.w.types[dgoPkg+"Value"]) }

var staticTheory map[string]func(ex *Exec, st *State, args []Val) (Val, bool)

func init() {
	vf := "github.com/lyraproj/dgo/vf."
	buf := func(ex *Exec, st *State, p Val) (*Term, func(*Term)) {
		switch x := p.(type) {
		case *VPtr:
			if x.kind == 'L' {
				v := getPath(st.objs[x.obj].val, x.path)
				t, ok := v.(*Term)
				if !ok {
					fail("buffer")
				}
				if strings.HasPrefix(t.Op, "zero:") {
					t = mkStr("")
				}
				return t, func(n *Term) { st.setObj(x.obj, setPath(st.objs[x.obj].val, x.path, n)) }
			}
		case *Term:
			return ex.loadPseudo(st, x, "$buf", SS), func(n *Term) { ex.storePseudo(st, x, "$buf", n) }
		}
		fail("buffer is %T", p)
		return nil, nil
	}
	bufWrite := func(conv func(ex *Exec, st *State, v Val) *Term, res func(s *Term) Val) func(ex *Exec, st *State, args []Val) (Val, bool) {
		return func(ex *Exec, st *State, args []Val) (Val, bool) {
			c, set := buf(ex, st, args[0])
			s := conv(ex, st, args[1])
			set(App("str.++", SS, c, s))
			return res(s), true
		}
	}
	strT := func(ex *Exec, st *State, v Val) *Term { return ex.term(st, v) }
	lenErr := func(s *Term) Val { return &VTuple{vs: []Val{App("str.len", SI, s), tNil}} }
	errOnly := func(s *Term) Val { return tNil }
	runeS := func(ex *Exec, st *State, v Val) *Term {
		t := ex.term(st, v)
		if t.isInt() {
			return mkStr(string(rune(t.I)))
		}
		return App("rune2str", SS, t)
	}
	bytesS := func(ex *Exec, st *State, v Val) *Term {
		t := ex.term(st, v)
		if strings.HasPrefix(t.Op, "str2") {
			return t.Args[0]
		}
		return App("[]byte2str", SS, t)
	}
	str2 := func(op string, s Sort, swap bool) func(ex *Exec, st *State, args []Val) (Val, bool) {
		return func(ex *Exec, st *State, args []Val) (Val, bool) {
			a, b := ex.term(st, args[0]), ex.term(st, args[1])
			if swap {
				a, b = b, a
			}
			return App(op, s, a, b), true
		}
	}
	toStr := func(ex *Exec, st *State, args []Val) (Val, bool) {
		c, _ := buf(ex, st, args[0])
		return c, true
	}
	mapOf := func(ex *Exec, st *State, args []Val) (*Term, bool) {
		es, ok := ex.elems(st, args[0])
		if !ok {
			return App("vfMapOf", SU, ex.term(st, args[0])), true
		}
		if len(es)%2 != 0 {
			return App("vfMapOf", SU, ex.term(st, args[0])), true
		}
		m := App("mempty", SU)
		for i := 0; i < len(es); i += 2 {
			m = App("mput", SU, m, ex.dyn(st, es[i]), ex.dyn(st, es[i+1]))
		}
		return m, true
	}
	staticTheory = map[string]func(ex *Exec, st *State, args []Val) (Val, bool){
		vf + "String":  func(ex *Exec, st *State, a []Val) (Val, bool) { return App("vfString", SU, ex.term(st, a[0])), true },
		vf + "Integer": func(ex *Exec, st *State, a []Val) (Val, bool) { return App("vfInt", SU, ex.term(st, a[0])), true },
		vf + "Boolean": func(ex *Exec, st *State, a []Val) (Val, bool) { return App("vfBool", SU, ex.term(st, a[0])), true },
		vf + "Value":   func(ex *Exec, st *State, a []Val) (Val, bool) { return ex.dynVal(st, a[0]), true },
		vf + "Map":     func(ex *Exec, st *State, a []Val) (Val, bool) { return mapOf(ex, st, a) },
		vf + "MutableMap": func(ex *Exec, st *State, a []Val) (Val, bool) {
			m, _ := mapOf(ex, st, a)
			return ex.newDyn(st, m, "Map"), true
		},
		vf + "MapWithCapacity": func(ex *Exec, st *State, a []Val) (Val, bool) { return ex.newDyn(st, App("mempty", SU), "Map"), true },
		vf + "Values": func(ex *Exec, st *State, a []Val) (Val, bool) {
			return App("arr", SU, App("vfvals", SU, ex.term(st, a[0]))), true
		},
		vf + "MutableValues": func(ex *Exec, st *State, a []Val) (Val, bool) {
			return ex.newDyn(st, App("arr", SU, App("vfvals", SU, ex.term(st, a[0]))), "Array"), true
		},
		vf + "Strings": func(ex *Exec, st *State, a []Val) (Val, bool) {
			return App("arr", SU, App("vfstrs", SU, ex.term(st, a[0]))), true
		},
		vf + "Array": func(ex *Exec, st *State, a []Val) (Val, bool) {
			// the argument is an interface that holds a slice
			if i, ok := a[0].(*VIface); ok {
				return App("arr", SU, App("vfvals", SU, ex.term(st, i.v))), true
			}
			t := ex.term(st, a[0])
			if strings.HasPrefix(t.Op, "box:[]") {
				return App("arr", SU, App("vfvals", SU, t.Args[0])), true
			}
			return App("vfArrayOf", SU, t), true
		},
		"bytes.NewBufferString": func(ex *Exec, st *State, a []Val) (Val, bool) {
			id := st.newObj(ex.term(st, a[0]), ex.w.types["bytes.Buffer"], "buffer")
			return &VPtr{kind: 'L', obj: id, t: ex.w.types["bytes.Buffer"]}, true
		},
		"(*bytes.Buffer).WriteString":    bufWrite(strT, lenErr),
		"(*bytes.Buffer).WriteRune":      bufWrite(runeS, lenErr),
		"(*bytes.Buffer).WriteByte":      bufWrite(runeS, errOnly),
		"(*bytes.Buffer).Write":          bufWrite(bytesS, lenErr),
		"(*bytes.Buffer).String":         toStr,
		"(*strings.Builder).WriteString": bufWrite(strT, lenErr),
		"(*strings.Builder).WriteRune":   bufWrite(runeS, lenErr),
		"(*strings.Builder).WriteByte":   bufWrite(runeS, errOnly),
		"(*strings.Builder).String":      toStr,
		"(*bytes.Buffer).Bytes": func(ex *Exec, st *State, a []Val) (Val, bool) {
			c, _ := buf(ex, st, a[0])
			return App("str2[]byte", SU, c), true
		},
		"(*bytes.Buffer).Len": func(ex *Exec, st *State, a []Val) (Val, bool) {
			c, _ := buf(ex, st, a[0])
			return App("str.len", SI, c), true
		},
		"(*bytes.Buffer).Reset": func(ex *Exec, st *State, a []Val) (Val, bool) {
			_, set := buf(ex, st, a[0])
			set(mkStr(""))
			return nil, true
		},
		"fmt.Fprintf": func(ex *Exec, st *State, a []Val) (Val, bool) {
			i, ok := a[0].(*VIface)
			if !ok || (typeKey(i.t) != "*bytes.Buffer" && typeKey(i.t) != "*strings.Builder") {
				return nil, false
			}
			c, set := buf(ex, st, i.v)
			s := ex.sprintf(st, a[1], a[2])
			set(App("str.++", SS, c, s))
			return lenErr(s), true
		},
		"fmt.Sprintf": func(ex *Exec, st *State, a []Val) (Val, bool) {
			return ex.sprintf(st, a[0], a[1]), true
		},
		"fmt.Sprint": func(ex *Exec, st *State, a []Val) (Val, bool) {
			l := ex.term(st, a[0])
			if l.Op != "seq" || len(l.Args) != 1 {
				return nil, false
			}
			return ex.sprintf(st, mkStr("%v"), l), true
		},
		"strings.Join": func(ex *Exec, st *State, a []Val) (Val, bool) {
			l, sep := ex.term(st, a[0]), ex.term(st, a[1])
			if l.Op != "seq" {
				return nil, false
			}
			ps := []*Term{mkStr("")}
			for i, p := range l.Args {
				if p.S != SS {
					return nil, false
				}
				if i > 0 {
					ps = append(ps, sep)
				}
				ps = append(ps, p)
			}
			return App("str.++", SS, ps...), true
		},
		"strings.HasPrefix": str2("str.prefixof", SB, true),
		"strings.HasSuffix": str2("str.suffixof", SB, true),
		"strings.Contains":  str2("str.contains", SB, false),
		"strings.Index":     str2("str.indexof", SI, false),
		"strings.IndexByte": func(ex *Exec, st *State, a []Val) (Val, bool) {
			return App("str.indexof", SI, ex.term(st, a[0]), runeS(ex, st, a[1])), true
		},
		"strings.IndexRune": func(ex *Exec, st *State, a []Val) (Val, bool) {
			return App("str.indexof", SI, ex.term(st, a[0]), runeS(ex, st, a[1])), true
		},
	}
}

// dynVal is vf.Value: a dgo value stays what it is
func (ex *Exec) dynVal(st *State, v Val) Val {
	if d, ok := v.(*VDyn); ok {
		return d
	}
	t := ex.dyn(st, v)
	if t.Op == "vfValue" {
		valTyped(ex, t)
	}
	return t
}

// dgoMethod interprets the methods of the dgo value interfaces that the theory knows
func (ex *Exec) dgoMethod(st *State, c *ssa.CallCommon, name string, r Val, args []Val, call ssa.Value, isDefer bool) ([]*State, *Stop, bool) {
	m := c.Method.Name()
	rt := ""
	if k := typeKey(c.Value.Type()); strings.HasPrefix(k, dgoPkg) {
		rt = k[len(dgoPkg):]
	}
	fin := func(v Val) ([]*State, *Stop, bool) {
		a, b := ex.finishCall(st, call, isDefer, v)
		return a, b, true
	}
	content := func() *Term { return ex.contentOf(st, r) }
	setC := func(n *Term) bool {
		switch x := r.(type) {
		case *VDyn:
			st.setObj(x.obj, n)
			return true
		case *Term:
			if ex.isMutMap(x) {
				ex.storePseudo(st, x, "$dmap", n)
				return true
			}
		}
		return false
	}
	if d, ok := r.(*VDyn); ok {
		if implies("impl:"+typeKey(d.t), "impl:"+dgoPkg+"Map") {
			rt = "Map"
		} else {
			rt = "Array"
		}
	}
	switch rt {
	case "Map":
		switch m {
		case "Get":
			return fin(valTyped(ex, App("mget", SU, content(), ex.dyn(st, args[0]))))
		case "ContainsKey":
			return fin(App("mhas", SB, content(), ex.dyn(st, args[0])))
		case "Len":
			return fin(App("mlen", SI, content()))
		case "Put":
			cc := content()
			k := ex.dyn(st, args[0])
			old := valTyped(ex, App("mget", SU, cc, k))
			if setC(App("mput", SU, cc, k, ex.dyn(st, args[1]))) {
				return fin(old)
			}
			a, b := ex.opaque(st, "·Put", c.Method.Type().(*types.Signature), append([]Val{r}, args...), "all", false, call, isDefer)
			return a, b, true
		case "PutAll":
			cc := content()
			o := ex.contentOf(st, args[0])
			n := App("mputall", SU, cc, o)
			if cc.Op == "mempty" {
				n = o
			}
			if setC(n) {
				return fin(nil)
			}
			a, b := ex.opaque(st, "·PutAll", c.Method.Type().(*types.Signature), append([]Val{r}, args...), "all", false, call, isDefer)
			return a, b, true
		case "Freeze":
			if _, ok := r.(*VDyn); ok {
				return fin(nil)
			}
		case "FrozenCopy":
			if d, ok := r.(*VDyn); ok {
				return fin(st.objs[d.obj].val)
			}
		case "Copy":
			return fin(ex.newDyn(st, content(), "Map"))
		case "Merge":
			a, b := content(), ex.contentOf(st, args[0])
			return fin(App("mmerge", SU, a, b))
		}
	case "Array":
		switch m {
		case "Len":
			return fin(App("alen", SI, content()))
		case "Get":
			i := ex.term(st, args[0])
			cc := content()
			ok, n, s := ex.require(st, mkAnd(mkLe(mkInt(0), i), mkLt(i, App("alen", SI, cc))), "index out of range")
			if ok == nil {
				return n, s, true
			}
			a, s2 := ex.finishCall(ok, call, isDefer, valTyped(ex, App("aget", SU, cc, i)))
			if s2 != nil {
				a = []*State{stopState(s2)}
			}
			return append(a, n...), nil, true
		case "AppendToSlice":
			c := App("scat", SU, ex.term(st, args[0]), App("aelems", SU, content()))
			el := ex.w.types[dgoPkg+"Value"]
			id := st.newObj(c, types.NewSlice(el), "slice")
			return fin(&VSlice{obj: id, lo: mkInt(0), hi: App("slen", SI, c), elem: el})
		case "Add":
			if setC(App("arr", SU, App("scat", SU, App("aelems", SU, content()), App("seq", SU, ex.dyn(st, args[0]))))) {
				return fin(nil)
			}
		case "AddAll":
			if setC(App("·WithAll", SU, content(), ex.contentOf(st, args[0]))) {
				return fin(nil)
			}
		case "Freeze":
			if _, ok := r.(*VDyn); ok {
				return fin(nil)
			}
		}
	}
	if _, ok := r.(*VDyn); ok && (m == "Freeze") {
		return fin(nil)
	}
	if rt == "Indenter" {
		out := func(s *Term) ([]*State, *Stop, bool) {
			ex.indOut(st, ex.term(st, r), s)
			return fin(nil)
		}
		switch m {
		case "Append":
			return out(ex.term(st, args[0]))
		case "AppendRune":
			if t := ex.term(st, args[0]); t.isInt() {
				return out(mkStr(string(rune(t.I))))
			} else {
				return out(App("rune2str", SS, t))
			}
		case "AppendInt":
			return out(App("strconv.Itoa", SS, ex.term(st, args[0])))
		case "Printf":
			return out(ex.sprintf(st, args[0], args[1]))
		}
	}
	switch m {
	case "String":
		return fin(App("·String", SS, ex.term(st, r)))
	case "GoString":
		return fin(App("·String", SS, ex.term(st, r)))
	case "Equals":
		return fin(App("deq", SB, content(), ex.contentOf(st, args[0])))
	case "Key", "Value":
		if t, ok := r.(*Term); ok && t.Op == "mentry" {
			return fin(valTyped(ex, App("·"+m, SU, t)))
		}
	case "Get":
		if rt == "Keyed" {
			return fin(valTyped(ex, App("·kget", SU, ex.term(st, r), ex.dyn(st, args[0]))))
		}
	}
	return nil, nil, false
}

// indOut adds a text to what is written with an indenter. What is written in several steps is the same as what is
// written at once.
func (ex *Exec) indOut(st *State, r, s *Term) {
	for r.Op == "·Indent" {
		r = r.Args[0] // writes to the same buffer
	}
	if s.isStr() && s.strLit() == "" {
		return
	}
	w := ex.flushW(st)
	if w.Op == "indenter.out#gW" && w.Args[1] == r {
		w, s = w.Args[0], App("str.++", SS, w.Args[2], s)
	}
	st.W = App("indenter.out#gW", SW, w, r, s)
}

func (ex *Exec) isMutMap(x *Term) bool {
	if strings.HasPrefix(x.Op, "rf:") {
		return ex.w.mutMaps[x.Op[3:strings.LastIndexByte(x.Op, '#')]]
	}
	return false
}

func (ex *Exec) contentOf(st *State, r Val) *Term {
	switch x := r.(type) {
	case *VDyn:
		return st.objs[x.obj].val.(*Term)
	case *Term:
		if ex.isMutMap(x) {
			return ex.loadPseudo(st, x, "$dmap", SU)
		}
		return x
	}
	return ex.term(st, r)
}

// plainStrings has the named types of strings that have no methods. They are formatted like strings.
var plainStrings = map[string]bool{}

func boxOp(t types.Type) string {
	k := typeKey(t)
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String && types.NewMethodSet(t).Len() == 0 {
		plainStrings[k] = true
	}
	return "box:" + k
}

func (ex *Exec) sprintf(st *State, format, args Val) *Term {
	f := ex.term(st, format)
	return sprintf(f, ex.fmtArgs(st, f, ex.term(st, args)))
}

// fmtArgs replaces the arguments of a format that stand for a string by that string: errors are formatted using their
// Error method
func (ex *Exec) fmtArgs(st *State, format, args *Term) *Term {
	if format.Op != "str" || args.Op != "seq" {
		return args
	}
	as := append([]*Term(nil), args.Args...)
	f := format.strLit()
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		if i++; i == len(f) {
			return args
		}
		if f[i] == '%' {
			continue
		}
		if n == len(as) || !strings.ContainsRune("svdqwtxTc", rune(f[i])) {
			return args
		}
		if a := as[n]; f[i] == 's' || f[i] == 'v' {
			switch {
			case strings.HasPrefix(a.Op, "box:") && plainStrings[a.Op[4:]]:
				as[n] = App("box:string", SU, a.Args[0])
			case a.T != nil && typeKey(a.T) == "error" && (isCtor(a) || mkEq(a, tNil) == tFalse || st.known(mkEq(a, tNil)) < 0):
				as[n] = App("box:string", SU, App("(error).Error", SS, a))
			}
		}
		n++
	}
	return mk("seq", SU, 0, "", as...)
}

// sprintf is the text that a format gives. The verbs for strings and integers are replaced by what they stand for.
func sprintf(format, args *Term) *Term {
	whole := App("fmt.Sprintf", SS, format, args)
	if format.Op != "str" || args.Op != "seq" {
		return whole
	}
	var parts []*Term
	lit, n := "", 0
	f := format.strLit()
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		if i++; i == len(f) {
			return whole
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if n == len(args.Args) {
			return whole
		}
		a := args.Args[n]
		n++
		switch {
		case a.Op == "box:string" && (f[i] == 's' || f[i] == 'v'):
			parts = append(parts, mkStr(lit), a.Args[0])
		case a.Op == "box:int" && (f[i] == 'd' || f[i] == 'v'):
			parts = append(parts, mkStr(lit), App("strconv.Itoa", SS, a.Args[0]))
		default:
			return whole
		}
		lit = ""
	}
	if n != len(args.Args) {
		return whole
	}
	return App("str.++", SS, append(parts, mkStr(lit))...)
}
