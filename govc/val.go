package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *VStruct, *VArray, *VPtr, *VSlice, *VIface, *VClosure, *VTuple, *VDyn, *VMap or *VIter
type Val interface{}

type VTuple struct{ vs []Val }
type VStruct struct {
	t  types.Type
	fs []Val
}
type VArray struct {
	t  *types.Array
	es []Val
}

// VPtr is a pointer to (part of) a local object (L), a global (G), a field of an unknown object (H) or a slice element (E)
type VPtr struct {
	kind byte
	obj  int
	g    *ssa.Global
	ref  *Term
	t    types.Type // type of the struct ref points to (H), of the object (L, G), element (E)
	path []int
	sl   Val
	idx  *Term
}
type VSlice struct {
	obj    int
	lo, hi *Term
	elem   types.Type
}
type VIface struct {
	t types.Type
	v Val
}
type VClosure struct {
	fn    *ssa.Function
	binds []Val
}
type VDyn struct { // locally created mutable dgo value (map or array); the object holds its current content
	obj int
	t   types.Type
}
type VMap struct{ obj int } // locally created Go map
type VIter struct{ obj int }

type iterState struct {
	isStr bool
	s     *Term
	idx   *Term
}

type Obj struct {
	val    Val
	t      types.Type
	stored bool
	what   string
}

type unsupported struct{ msg string }

func fail(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SB
		case u.Info()&types.IsInteger != 0:
			return SI
		case u.Info()&types.IsString != 0:
			return SS
		}
	}
	return SU
}

var opaqueStructs = map[string]bool{
	"bytes.Buffer": true, "sync.Map": true, "sync.Mutex": true, "sync.RWMutex": true, "sync.WaitGroup": true,
	"strings.Builder": true, "time.Time": true, "reflect.Value": true, "net/http.Client": false,
}

func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if ok && opaqueStructs[typeKey(t)] {
		return nil, false
	}
	return s, ok
}

func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if opaqueStructs[typeKey(t)] {
			return App("zero:"+typeKey(t), SU)
		}
		s := &VStruct{t: t, fs: make([]Val, u.NumFields())}
		for i := range s.fs {
			s.fs[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 256 {
			return App("zero:"+typeKey(t), SU)
		}
		a := &VArray{t: u, es: make([]Val, u.Len())}
		for i := range a.es {
			a.es[i] = zero(u.Elem())
		}
		return a
	case *types.Basic:
		switch sortOf(t) {
		case SB:
			return tFalse
		case SI:
			return mkInt(0)
		case SS:
			return mkStr("")
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return tNil
		}
		return App("zero:"+typeKey(t), SU)
	case *types.Tuple:
		vt := &VTuple{}
		for i := 0; i < u.Len(); i++ {
			vt.vs = append(vt.vs, zero(u.At(i).Type()))
		}
		return vt
	}
	return tNil
}

// fromTerm gives the value of the given type that a term stands for
func fromTerm(x *Term, t types.Type) Val {
	if s, ok := isStruct(t); ok {
		v := &VStruct{t: t, fs: make([]Val, s.NumFields())}
		for i := range v.fs {
			ft := s.Field(i).Type()
			v.fs[i] = fromTerm(typed(App(fmt.Sprintf("fld:%s#%d", typeKey(t), i), sortOf(ft), x), ft), ft)
		}
		return v
	}
	return typed(x, t)
}

func typed(x *Term, t types.Type) *Term {
	if x.T == nil && t != nil && !x.isLit() {
		if _, ok := t.Underlying().(*types.Interface); ok {
			x.T = t
		}
	}
	return x
}

// ---- state

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Val
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	idx       int
	binds     []Val
	defers    []*deferred
	call      ssa.Value // instruction in the caller that receives the result, nil when the result is dropped
	isDefer   bool
	panicking bool
	panicVal  Val
	recovered bool
	spec      bool
	depthRec  int
	unrolled  map[*ssa.BasicBlock]int
	canon     string // canonical name for a spec function frame
	ensures   bool   // the frame of a postcondition: what it returns is assumed and deliver is the result of the call
	deliver   Val
}

type deferred struct {
	fn   Val
	call *ssa.CallCommon
	args []Val
}

type heapWrite struct {
	ref *Term
	val Val
}

type closureUse struct {
	name string
	arg  int
	clo  *VClosure
	st   *State
	term *Term
}

type State struct {
	frames  []*Frame
	objs    map[int]*Obj
	nobj    *int
	heap    map[string][]heapWrite
	htypes  map[string]types.Type
	W, X, M *Term
	pc      []*Term
	pcset   map[*Term]bool
	cuts    []*Cut
	clos    []*closureUse
	notes   []string
	pend    *Stop
	pass    int
	genv    map[*ssa.Global]Val
}

func newState() *State {
	n := 0
	return &State{objs: map[int]*Obj{}, nobj: &n, heap: map[string][]heapWrite{}, htypes: map[string]types.Type{}, pcset: map[*Term]bool{},
		W: mkVar("W0", SW), X: mkVar("X0", SW), M: mkVar("M0", SW)}
}

func (st *State) clone() *State {
	c := *st
	c.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		nf := *f
		nf.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			nf.env[k] = v
		}
		nf.defers = append([]*deferred(nil), f.defers...)
		if f.unrolled != nil {
			nf.unrolled = map[*ssa.BasicBlock]int{}
			for k, v := range f.unrolled {
				nf.unrolled[k] = v
			}
		}
		c.frames[i] = &nf
	}
	c.objs = make(map[int]*Obj, len(st.objs))
	for k, v := range st.objs {
		c.objs[k] = v
	}
	c.heap = make(map[string][]heapWrite, len(st.heap))
	for k, v := range st.heap {
		c.heap[k] = append([]heapWrite(nil), v...)
	}
	c.htypes = make(map[string]types.Type, len(st.htypes))
	for k, v := range st.htypes {
		c.htypes[k] = v
	}
	c.pc = append([]*Term(nil), st.pc...)
	c.pcset = make(map[*Term]bool, len(st.pcset))
	for k := range st.pcset {
		c.pcset[k] = true
	}
	c.cuts = append([]*Cut(nil), st.cuts...)
	c.clos = append([]*closureUse(nil), st.clos...)
	c.notes = append([]string(nil), st.notes...)
	return &c
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) newObj(v Val, t types.Type, what string) int {
	*st.nobj++
	st.objs[*st.nobj] = &Obj{val: v, t: t, what: what}
	return *st.nobj
}

func (st *State) setObj(id int, v Val) {
	o := *st.objs[id]
	if o.stored {
		fail("object %s is modified after it was stored", o.what)
	}
	o.val = v
	st.objs[id] = &o
}

func (st *State) assume(t *Term) {
	if t == tTrue || st.pcset[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	st.pc = append(st.pc, t)
	st.pcset[t] = true
}

// ---- reification

type reifier struct {
	st    *State
	stack []int
	mark  bool // the value is stored in an unknown place: later modification is not supported
	ex    *Exec
	where string
	arg   int
	raw   bool
}

func (st *State) reify(ex *Exec, v Val) *Term { return (&reifier{st: st, ex: ex}).reify(v) }

func (r *reifier) reify(v Val) *Term {
	switch v := v.(type) {
	case nil:
		return tNil
	case *Term:
		return v
	case *VStruct:
		as := make([]*Term, len(v.fs))
		for i, f := range v.fs {
			as[i] = r.reify(f)
		}
		// a struct whose fields are all projections of one term is that term
		if len(as) > 0 {
			var base *Term
			same := true
			for i, a := range as {
				if a.Op != fmt.Sprintf("fld:%s#%d", typeKey(v.t), i) || (base != nil && a.Args[0] != base) {
					same = false
					break
				}
				base = a.Args[0]
			}
			if same {
				return base
			}
		}
		return App("struct:"+typeKey(v.t), SU, as...)
	case *VArray:
		as := make([]*Term, len(v.es))
		for i, f := range v.es {
			as[i] = r.reify(f)
		}
		return App("seq", SU, as...)
	case *VTuple:
		as := make([]*Term, len(v.vs))
		for i, f := range v.vs {
			as[i] = r.reify(f)
		}
		return App("tuple", SU, as...)
	case *VPtr:
		switch v.kind {
		case 'L':
			for i, s := range r.stack {
				if s == v.obj {
					return App(fmt.Sprintf("cyc%d", len(r.stack)-i), SU)
				}
			}
			r.stack = append(r.stack, v.obj)
			o := r.st.objs[v.obj]
			c := r.reify(o.val)
			r.stack = r.stack[:len(r.stack)-1]
			if r.mark {
				r.st.markStored(v.obj)
			}
			if len(v.path) > 0 {
				return App("addr:"+pathKey(o.t, v.path), SU, App("new:"+typeKey(o.t), SU, c))
			}
			return App("new:"+typeKey(o.t), SU, c)
		case 'G':
			return App("addr:"+v.g.String()+pathKey(v.t, v.path), SU)
		case 'H':
			if len(v.path) == 0 {
				return v.ref
			}
			return App("addr:"+typeKey(v.t)+pathKey(v.t, v.path), SU, v.ref)
		case 'E':
			if b, ok := v.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && len(v.path) == 0 && r.ex != nil {
				// a pointer to a string of a slice stands for the string, like a pointer to a string of its own
				return App("new:"+typeKey(v.t), SU, r.reify(r.ex.index(r.st, v.sl, v.idx, v.t)))
			}
			return App("addr:elem", SU, r.reify(v.sl), v.idx)
		}
	case *VSlice:
		return r.sliceContent(v)
	case *VIface:
		x := r.reify(v.v)
		return App(boxOp(v.t), SU, x)
	case *VDyn:
		if r.mark {
			r.st.markStored(v.obj)
		}
		return r.reify(r.st.objs[v.obj].val)
	case *VMap:
		if r.mark {
			r.st.markStored(v.obj)
		}
		return r.reify(r.st.objs[v.obj].val)
	case *VClosure:
		return r.closure(v)
	case *VIter:
		return tNil
	}
	panic(fmt.Sprintf("reify %T", v))
}

func (st *State) markStored(obj int) {
	o := *st.objs[obj]
	o.stored = true
	st.objs[obj] = &o
}

func (r *reifier) closure(v *VClosure) *Term {
	var t *Term
	if v.fn.Parent() == nil && len(v.binds) == 0 {
		t = App("fn:"+v.fn.String(), SU)
	} else {
		as := make([]*Term, len(v.binds))
		for i, b := range v.binds {
			as[i] = (&reifier{st: r.st, ex: r.ex, raw: true, stack: r.stack}).reify(b)
		}
		t = App("clo:"+v.fn.String(), SU, as...)
	}
	if len(v.fn.Blocks) == 0 || v.fn.Parent() == nil && len(v.binds) > 0 || r.raw || r.ex == nil || r.ex.prod == nil {
		return t
	}
	switch r.ex.side {
	case 'A':
		r.st.clos = append(r.st.clos, &closureUse{name: r.where, arg: r.arg, clo: v, st: r.st.clone(), term: t})
	case 'B':
		for _, u := range r.ex.peer {
			if u.name == r.where && u.arg == r.arg && u.term == t {
				return t
			}
		}
		for _, u := range r.ex.peer {
			if u.name == r.where && u.arg == r.arg {
				if r.ex.prod.equalClosures(u, r.st, v) {
					return u.term
				}
			}
		}
	}
	return t
}

func (r *reifier) sliceContent(v *VSlice) *Term {
	c := r.reify(r.st.objs[v.obj].val)
	return App("ssub", SU, c, v.lo, v.hi)
}

func (st *State) markDeep(ex *Exec, v Val) {
	// values that are stored keep their identity: objects reachable from them must not be modified any more
}

func pathKey(t types.Type, path []int) string {
	var b strings.Builder
	for _, p := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			b.WriteString("." + u.Field(p).Name())
			t = u.Field(p).Type()
		case *types.Array:
			fmt.Fprintf(&b, "[%d]", p)
			t = u.Elem()
		}
	}
	return b.String()
}

func pathType(t types.Type, path []int) types.Type {
	for _, p := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(p).Type()
		case *types.Array:
			t = u.Elem()
		}
	}
	return t
}

func getPath(v Val, path []int) Val {
	for _, p := range path {
		switch x := v.(type) {
		case *VStruct:
			v = x.fs[p]
		case *VArray:
			v = x.es[p]
		default:
			fail("path into %T", v)
		}
	}
	return v
}

func setPath(v Val, path []int, n Val) Val {
	if len(path) == 0 {
		return n
	}
	switch x := v.(type) {
	case *VStruct:
		c := &VStruct{t: x.t, fs: append([]Val(nil), x.fs...)}
		c.fs[path[0]] = setPath(x.fs[path[0]], path[1:], n)
		return c
	case *VArray:
		c := &VArray{t: x.t, es: append([]Val(nil), x.es...)}
		c.es[path[0]] = setPath(x.es[path[0]], path[1:], n)
		return c
	}
	fail("set path into %T", v)
	return nil
}

// ---- memory

func (ex *Exec) load(st *State, p *VPtr) Val {
	switch p.kind {
	case 'L':
		return getPath(st.objs[p.obj].val, p.path)
	case 'G':
		return ex.loadGlobal(st, p)
	case 'H':
		return ex.loadHeap(st, p.ref, p.t, p.path)
	case 'E':
		return ex.index(st, p.sl, p.idx, p.t)
	}
	panic("load")
}

func (ex *Exec) loadHeap(st *State, ref *Term, t types.Type, path []int) Val {
	ft := pathType(t, path)
	if s, ok := isStruct(ft); ok {
		v := &VStruct{t: ft, fs: make([]Val, s.NumFields())}
		for i := range v.fs {
			v.fs[i] = ex.loadHeap(st, ref, t, append(append([]int(nil), path...), i))
		}
		return v
	}
	key := typeKey(t) + pathKey(t, path)
	if ws, ok := st.heap[key]; ok {
		for i := len(ws) - 1; i >= 0; i-- {
			e := mkEq(ws[i].ref, ref)
			if e == tTrue || st.pcset[e] {
				return ws[i].val
			}
			if e == tFalse || st.pcset[mkNot(e)] {
				continue
			}
			// undecided aliasing
			if ok, _ := ex.pr.unsat(append(append([]*Term(nil), st.pc...), e), true); ok {
				continue
			}
			if ok, _ := ex.pr.unsat(append(append([]*Term(nil), st.pc...), mkNot(e)), true); ok {
				return ws[i].val
			}
			rest := st.clone()
			rest.heap[key] = ws[:i]
			rv := st.reify(ex, ex.loadHeap(rest, ref, t, path))
			return fromTerm(mkIte(e, st.reify(ex, ws[i].val), rv), ft)
		}
	}
	if ex.immutable(key) {
		if len(path) == 1 {
			return typed(App(fmt.Sprintf("rf:%s%s#%d", typeKey(t), pathKey(t, path), path[0]), sortOf(ft), ref), ft)
		}
		return typed(App("rff:"+key, sortOf(ft), ref), ft)
	}
	if strings.HasPrefix(ref.Op, "new:") && len(ref.Args) == 1 && strings.HasPrefix(ref.Args[0].Op, "struct:") && len(path) == 1 {
		return typed(ref.Args[0].Args[path[0]], ft)
	}
	return typed(App("rd:"+key, sortOf(ft), st.W, ref), ft)
}

func (ex *Exec) store(st *State, p *VPtr, v Val) {
	switch p.kind {
	case 'L':
		o := st.objs[p.obj]
		st.setObj(p.obj, setPath(o.val, p.path, v))
	case 'G':
		ex.storeGlobal(st, p, v)
	case 'H':
		ft := pathType(p.t, p.path)
		if s, ok := isStruct(ft); ok {
			for i := 0; i < s.NumFields(); i++ {
				ex.store(st, &VPtr{kind: 'H', ref: p.ref, t: p.t, path: append(append([]int(nil), p.path...), i)}, getPath(v, []int{i}))
			}
			return
		}
		key := typeKey(p.t) + pathKey(p.t, p.path)
		ex.putHeap(st, key, ft, p.ref, v)
	case 'E':
		ex.storeElem(st, p, v)
	}
}

func (ex *Exec) putHeap(st *State, key string, ft types.Type, ref *Term, v Val) {
	ws := st.heap[key]
	var out []heapWrite
	for _, w := range ws {
		if w.ref != ref {
			out = append(out, w)
		}
	}
	st.heap[key] = append(out, heapWrite{ref, v})
	st.htypes[key] = ft
}

func (ex *Exec) storeElem(st *State, p *VPtr, v Val) {
	s, ok := p.sl.(*VSlice)
	if !ok {
		// a slice that came from elsewhere: an effect on the outside world
		x := st.reify(ex, p.sl)
		st.W = App("selem#gW", SW, ex.flushW(st), x, p.idx, st.reify(ex, v))
		return
	}
	o := st.objs[s.obj]
	i := mkAdd(s.lo, p.idx)
	if a, ok := o.val.(*VArray); ok && i.isInt() && int(i.I) < len(a.es) {
		st.setObj(s.obj, setPath(a, []int{int(i.I)}, v))
		return
	}
	c := st.reify(ex, o.val)
	st.setObj(s.obj, App("sset", SU, c, i, st.reify(ex, v)))
}

func (ex *Exec) index(st *State, sl Val, i *Term, et types.Type) Val {
	switch s := sl.(type) {
	case *VSlice:
		j := mkAdd(s.lo, i)
		o := st.objs[s.obj]
		if a, ok := o.val.(*VArray); ok && j.isInt() && j.I >= 0 && int(j.I) < len(a.es) {
			return a.es[j.I]
		}
		c := st.reify(ex, o.val)
		return fromTerm(typed(App("sat", sortOf(et), c, j), et), et)
	case *Term:
		return fromTerm(typed(App("sat", sortOf(et), s, i), et), et)
	case *VArray:
		if i.isInt() && i.I >= 0 && int(i.I) < len(s.es) {
			return s.es[i.I]
		}
		return fromTerm(typed(App("sat", sortOf(et), st.reify(ex, s), i), et), et)
	}
	fail("index of %T", sl)
	return nil
}

func (ex *Exec) sliceLen(st *State, sl Val) *Term {
	switch s := sl.(type) {
	case *VSlice:
		return mkSub(s.hi, s.lo)
	case *Term:
		return App("slen", SI, s)
	case *VArray:
		return mkInt(int64(len(s.es)))
	}
	fail("len of %T", sl)
	return nil
}

// flushW folds the pending writes into the world token
func (ex *Exec) flushW(st *State) *Term {
	if len(st.heap) == 0 {
		return st.W
	}
	keys := make([]string, 0, len(st.heap))
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	w := st.W
	for _, k := range keys {
		ws := append([]heapWrite(nil), st.heap[k]...)
		sort.SliceStable(ws, func(i, j int) bool { return ws[i].ref.ID < ws[j].ref.ID })
		for _, x := range ws {
			r := (&reifier{st: st, ex: ex}).reify(x.val)
			cur := App("rd:"+k, r.S, w, x.ref)
			if cur == r {
				continue
			}
			w = App("wr:"+k, SW, w, x.ref, r)
		}
	}
	st.heap = map[string][]heapWrite{}
	st.W = w
	return w
}
