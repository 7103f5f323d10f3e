package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Cut marks a loop whose iterations are being related
type Cut struct {
	id    int
	depth int
	block *ssa.BasicBlock
}

type Stop struct {
	st   *State
	kind string // ret, panic, header, back
	ret  Val
	pv   Val
	cut  int
	why  string
}

type Exec struct {
	resNonNil bool          // the results of the extern that is called next are never nil
	ensures   *ssa.Function // the postcondition of the contract whose call is next
	w         *World
	pr        *Prover
	prod      *Product
	side      byte          // 'A' code, 'B' specification
	peer      []*closureUse // closures the other side handed out
	top       *ssa.Function // function whose contract is being verified: its calls on itself use the contract
	hdr       map[*ssa.BasicBlock]bool
	n         int
	unfold    int // see Exec.unfolds
}

func newExec(w *World, pr *Prover) *Exec {
	return &Exec{w: w, pr: pr, hdr: map[*ssa.BasicBlock]bool{}}
}

func (ex *Exec) immutable(key string) bool { return ex.w.immutable(key) }

func (ex *Exec) isHeader(b *ssa.BasicBlock) bool {
	if r, ok := ex.hdr[b]; ok {
		return r
	}
	r := false
	for _, p := range b.Preds {
		if b.Dominates(p) {
			r = true
		}
	}
	ex.hdr[b] = r
	return r
}

func (ex *Exec) feasible(st *State, c *Term) bool {
	if c == tFalse {
		return false
	}
	if ex.prod != nil && time.Now().After(ex.prod.deadline) {
		fail("time limit in %s", st.top().fn)
	}
	ok, _ := ex.pr.unsat(append(append([]*Term(nil), st.pc...), c), true)
	return !ok
}

// known tells what the path condition says about c syntactically: 1 true, -1 false, 0 unknown
func (st *State) known(c *Term) int {
	if c == tTrue || st.pcset[c] {
		return 1
	}
	if c == tFalse || st.pcset[mkNot(c)] {
		return -1
	}
	return 0
}

// branch splits a state on a condition; an infeasible side is nil
func (ex *Exec) branch(st *State, c *Term) (*State, *State) {
	switch st.known(c) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	ft, ff := ex.feasible(st, c), ex.feasible(st, mkNot(c))
	switch {
	case ft && ff:
		f := st.clone()
		st.assume(c)
		f.assume(mkNot(c))
		return st, f
	case ft:
		st.assume(c)
		return st, nil
	case ff:
		st.assume(mkNot(c))
		return nil, st
	}
	return nil, nil
}

// run explores a state until every path has reached a stop
func (ex *Exec) run(st *State) []*Stop {
	work := []*State{st}
	var stops []*Stop
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s != nil {
			ex.n++
			if ex.n > 4000000 {
				fail("step limit")
			}
			next, stop := ex.step(s)
			if stop != nil {
				stops = append(stops, stop)
				break
			}
			if len(next) == 0 {
				break
			}
			s = next[0]
			work = append(work, next[1:]...)
		}
		if len(stops)+len(work) > 3000 {
			fail("too many paths")
		}
	}
	return stops
}

func one(s *State) []*State { return []*State{s} }

func (ex *Exec) pushFrame(st *State, fn *ssa.Function, args []Val, binds []Val, call ssa.Value, isDefer bool) {
	if len(fn.Blocks) == 0 {
		fail("no body for %s", fn)
	}
	if len(st.frames) > 60 {
		fail("call depth exceeded in %s", fn)
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], binds: binds, call: call, isDefer: isDefer, spec: ex.w.specFns[fn]}
	if len(args) != len(fn.Params) {
		fail("argument count of %s: %d, want %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = binds[i]
	}
	st.frames = append(st.frames, f)
}

func (st *State) popFrame() {
	st.frames = st.frames[:len(st.frames)-1]
	n := len(st.frames)
	for i, c := range st.cuts {
		if c.depth >= n {
			st.cuts = append([]*Cut(nil), st.cuts[:i]...)
			break
		}
	}
}

// finishCall delivers the result of a completed call to the top frame
func (ex *Exec) finishCall(st *State, call ssa.Value, isDefer bool, res Val) ([]*State, *Stop) {
	f := st.top()
	if isDefer {
		if f.panicking {
			return ex.unwind(st)
		}
		return one(st), nil // RunDefers is executed again
	}
	if call != nil {
		f.env[call] = res
	}
	f.idx++
	return one(st), nil
}

func (ex *Exec) ret(st *State, res Val) ([]*State, *Stop) {
	f := st.top()
	if len(st.frames) == 1 {
		return nil, &Stop{st: st, kind: "ret", ret: res}
	}
	st.popFrame()
	if f.ensures {
		c := ex.term(st, res)
		if c == tFalse || (st.known(c) == 0 && !ex.feasible(st, c)) {
			return nil, nil
		}
		st.assume(c)
		res = f.deliver
	}
	return ex.finishCall(st, f.call, f.isDefer, res)
}

func (ex *Exec) raise(st *State, v Val) ([]*State, *Stop) {
	f := st.top()
	f.panicking = true
	f.recovered = false
	f.panicVal = v
	return ex.unwind(st)
}

func (ex *Exec) unwind(st *State) ([]*State, *Stop) {
	for {
		f := st.top()
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return ex.runDeferred(st, d)
		}
		if f.recovered {
			f.panicking, f.recovered = false, false
			if f.fn.Recover != nil {
				f.prev, f.block, f.idx = nil, f.fn.Recover, 0
				return one(st), nil
			}
			var r Val
			res := f.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				r = zero(res.At(0).Type())
			default:
				r = zero(res)
			}
			return ex.ret(st, r)
		}
		v := f.panicVal
		if len(st.frames) == 1 {
			return nil, &Stop{st: st, kind: "panic", pv: v}
		}
		st.popFrame()
		p := st.top()
		p.panicking, p.recovered, p.panicVal = true, false, v
	}
}

func (ex *Exec) runDeferred(st *State, d *deferred) ([]*State, *Stop) {
	return ex.doCall(st, d.call, d.fn, d.args, nil, true)
}

func (ex *Exec) rtPanic(st *State, what string) ([]*State, *Stop) {
	return ex.raise(st, App("rterr", SU, mkStr(what)))
}

// mayPanic splits off the path on which cond fails
func (ex *Exec) require(st *State, cond *Term, what string) (*State, []*State, *Stop) {
	ok, bad := ex.branch(st, cond)
	if bad == nil {
		return ok, nil, nil
	}
	if ok == nil {
		n, s := ex.rtPanic(bad, what)
		return nil, n, s
	}
	n, s := ex.rtPanic(bad, what)
	if s != nil {
		// a stop cannot be returned together with a live state: keep it as a pending stop state
		bad2 := bad
		_ = bad2
		n = []*State{stopState(s)}
		s = nil
	}
	return ok, n, s
}

// stopState wraps a stop so that it can travel through the work list
func stopState(s *Stop) *State {
	return &State{pend: s}
}

// deref yields the pointer to access, or the states to go on with when it is nil
func (ex *Exec) deref(st *State, v Val, what string) (*State, []*State, *Stop) {
	if t, ok := v.(*Term); ok {
		if t.nonNil || isCtor(t) {
			return st, nil, nil
		}
		return ex.require(st, mkNot(mkEq(t, tNil)), "nil dereference")
	}
	return st, nil, nil
}

func (ex *Exec) ptr(v Val, t types.Type) *VPtr {
	switch x := v.(type) {
	case *VPtr:
		return x
	case *Term:
		el := t.Underlying().(*types.Pointer).Elem()
		return &VPtr{kind: 'H', ref: x, t: el}
	}
	fail("pointer is %T", v)
	return nil
}

func (ex *Exec) operand(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return &VClosure{fn: x}
	case *ssa.Global:
		return &VPtr{kind: 'G', g: x, t: x.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return x
	}
	f := st.top()
	r, ok := f.env[v]
	if !ok {
		fail("no value for %s in %s", v.Name(), f.fn)
	}
	return r
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch sortOf(t) {
	case SB:
		return mkBool(constant.BoolVal(c.Value))
	case SI:
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return mkInt(i)
		}
		return App("bigint:"+c.Value.ExactString(), SI)
	case SS:
		return mkStr(constant.StringVal(c.Value))
	}
	return App("const:"+c.Value.ExactString(), SU)
}

func (ex *Exec) term(st *State, v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		return st.reify(ex, v)
	}
	return t
}

// enter moves the top frame to another block
func (ex *Exec) enter(st *State, to *ssa.BasicBlock) ([]*State, *Stop) {
	f := st.top()
	f.prev, f.block, f.idx = f.block, to, 0
	// phis
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == f.prev {
				vals = append(vals, ex.operand(st, phi.Edges[i]))
				break
			}
		}
		phis = append(phis, phi)
	}
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	f.idx = len(phis)
	if !ex.isHeader(to) {
		return one(st), nil
	}
	if y, xs, done := appendLoop(to); y != nil && f.prev != to.Preds[backEdge(to)] {
		// a loop that appends the elements of a slice, one by one, to another slice
		f.env[y] = ex.appendVal(st, f.env[y], ex.operand(st, xs), y.Type(), xs.Type())
		return ex.enter(st, done)
	}
	depth := len(st.frames) - 1
	for i := len(st.cuts) - 1; i >= 0; i-- {
		c := st.cuts[i]
		if c.depth == depth && c.block == to {
			return nil, &Stop{st: st, kind: "back", cut: c.id}
		}
	}
	if st.pass > 0 {
		st.pass--
		return one(st), nil
	}
	if f.unrolled == nil {
		f.unrolled = map[*ssa.BasicBlock]int{}
	}
	if f.unrolled[to] < 40 && ex.literalCond(st) {
		f.unrolled[to]++
		return one(st), nil
	}
	return nil, &Stop{st: st, kind: "header"}
}

func backEdge(b *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if b.Dominates(p) {
			return i
		}
	}
	return -1
}

// appendLoop recognizes a loop that does nothing but to append all elements of the slice xs, in their order, to the
// slice in y. It is the same as y = append(y, xs...).
func appendLoop(h *ssa.BasicBlock) (y *ssa.Phi, xs ssa.Value, done *ssa.BasicBlock) {
	code := func(b *ssa.BasicBlock) (r []ssa.Instruction) {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); !ok {
				r = append(r, in)
			}
		}
		return
	}
	if len(h.Preds) != 2 || len(h.Succs) != 2 {
		return nil, nil, nil
	}
	be := backEdge(h)
	if be < 0 || h.Succs[0] != h.Preds[be] || h.Succs[1] == h.Succs[0] {
		return nil, nil, nil
	}
	isInt := func(v ssa.Value, n int64) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == n
	}
	lenOf := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return c.Call.Args[0]
			}
		}
		return nil
	}
	var ix *ssa.Phi
	var inc *ssa.BinOp
	var cond ssa.Value
	var n ssa.Value
	idx := func(v ssa.Value) bool { return ix != nil && v == ssa.Value(ix) || inc != nil && v == ssa.Value(inc) }
	hs := code(h)
	for i, in := range hs {
		switch in := in.(type) {
		case *ssa.Phi:
			if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int && ix == nil {
				ix = in
			} else if _, ok := in.Type().Underlying().(*types.Slice); ok && y == nil {
				y = in
			} else {
				return nil, nil, nil
			}
		case *ssa.BinOp:
			if in.Op == token.ADD && in.X == ssa.Value(ix) && isInt(in.Y, 1) && inc == nil {
				inc = in
			} else if in.Op == token.LSS && idx(in.X) && cond == nil {
				cond, n = in, in.Y
				// the element at the position that was compared is the one that is used
				if in.X == ssa.Value(ix) && (inc != nil || !isInt(ix.Edges[1-be], 0)) || inc != nil && (in.X != ssa.Value(inc) || !isInt(ix.Edges[1-be], -1)) {
					return nil, nil, nil
				}
			} else {
				return nil, nil, nil
			}
		case *ssa.Call:
			if lenOf(in) == nil {
				return nil, nil, nil
			}
		case *ssa.If:
			if i != len(hs)-1 || cond == nil || in.Cond != cond {
				return nil, nil, nil
			}
		default:
			return nil, nil, nil
		}
	}
	if y == nil || ix == nil || cond == nil || lenOf(n) == nil {
		return nil, nil, nil
	}
	xs = lenOf(n)
	if _, ok := xs.Type().Underlying().(*types.Slice); !ok || xs == ssa.Value(y) {
		return nil, nil, nil
	}
	if in, ok := xs.(ssa.Instruction); ok && (in.Block() == h || in.Block() == h.Succs[0]) {
		return nil, nil, nil
	}
	cmp := cond.(*ssa.BinOp).X
	bs := code(h.Succs[0])
	if len(h.Succs[0].Preds) != 1 {
		return nil, nil, nil
	}
	var elem, slot, list ssa.Value
	var addr, sa *ssa.IndexAddr
	var app *ssa.Call
	stored := false
	for _, in := range bs {
		switch in := in.(type) {
		case *ssa.IndexAddr:
			if in.X == xs && in.Index == cmp && addr == nil {
				addr = in
			} else if slot != nil && in.X == slot && isInt(in.Index, 0) && sa == nil {
				sa = in
			} else {
				return nil, nil, nil
			}
		case *ssa.UnOp:
			if in.Op != token.MUL || addr == nil || in.X != ssa.Value(addr) || elem != nil {
				return nil, nil, nil
			}
			elem = in
		case *ssa.Alloc:
			p, ok := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok || p.Len() != 1 || slot != nil {
				return nil, nil, nil
			}
			slot = in
		case *ssa.Store:
			if sa == nil || in.Addr != ssa.Value(sa) || elem == nil || in.Val != elem || stored {
				return nil, nil, nil
			}
			stored = true
		case *ssa.Slice:
			if slot == nil || in.X != slot || in.Low != nil || in.High != nil || in.Max != nil || !stored || list != nil {
				return nil, nil, nil
			}
			list = in
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || app != nil || len(in.Call.Args) != 2 || in.Call.Args[0] != ssa.Value(y) || list == nil || in.Call.Args[1] != list {
				return nil, nil, nil
			}
			app = in
		case *ssa.BinOp:
			if in.Op != token.ADD || in.X != ssa.Value(ix) || !isInt(in.Y, 1) || inc != nil {
				return nil, nil, nil
			}
			inc = in
		case *ssa.Jump:
		default:
			return nil, nil, nil
		}
	}
	if app == nil || inc == nil || y.Edges[be] != ssa.Value(app) || ix.Edges[be] != ssa.Value(inc) {
		return nil, nil, nil
	}
	return y, xs, h.Succs[1]
}

// literalCond tells whether the condition at the loop header is decided without looking at the path condition
func (ex *Exec) literalCond(st *State) bool {
	s := st.clone()
	b := s.top().block
	d := len(s.frames)
	for i := 0; i < 200; i++ {
		f := s.top()
		if len(s.frames) == d {
			if f.block != b {
				return false
			}
			if in, ok := f.block.Instrs[f.idx].(*ssa.If); ok {
				c, ok := ex.operand(s, in.Cond).(*Term)
				return ok && c.isLit()
			}
			switch in := f.block.Instrs[f.idx].(type) {
			case *ssa.BinOp, *ssa.UnOp, *ssa.Next, *ssa.Extract, *ssa.FieldAddr, *ssa.Field, *ssa.DebugRef, *ssa.Phi:
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok && len(in.Call.Args) > 2 {
					return false
				}
			default:
				return false
			}
		}
		next, stop := ex.step(s)
		if stop != nil || len(next) != 1 {
			return false
		}
		s = next[0]
	}
	return false
}

func (ex *Exec) step(st *State) ([]*State, *Stop) {
	if st.pend != nil {
		return nil, st.pend
	}
	f := st.top()
	if f.idx >= len(f.block.Instrs) {
		fail("fell off block in %s", f.fn)
	}
	in := f.block.Instrs[f.idx]
	set := func(v Val) ([]*State, *Stop) {
		f.env[in.(ssa.Value)] = v
		f.idx++
		return one(st), nil
	}
	more := func(ok *State, n []*State, s *Stop, k func(*State) ([]*State, *Stop)) ([]*State, *Stop) {
		if ok == nil {
			return n, s
		}
		a, s2 := k(ok)
		if s2 != nil {
			a = []*State{stopState(s2)}
		}
		return append(a, n...), nil
	}
	setIn := func(s *State, v Val) ([]*State, *Stop) {
		g := s.top()
		g.env[in.(ssa.Value)] = v
		g.idx++
		return one(s), nil
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.idx++
		return one(st), nil
	case *ssa.Alloc:
		el := in.Type().Underlying().(*types.Pointer).Elem()
		id := st.newObj(zero(el), el, in.Name())
		return set(&VPtr{kind: 'L', obj: id, t: el})
	case *ssa.Store:
		a := ex.operand(st, in.Addr)
		v := ex.operand(st, in.Val)
		ok, n, s := ex.deref(st, a, "store")
		if _, local := in.Addr.(*ssa.Alloc); !local {
			ex.notNil(st, "stored value is not nil", in.Val.Type(), v)
		}
		return more(ok, n, s, func(s *State) ([]*State, *Stop) {
			ex.store(s, ex.ptr(a, in.Addr.Type()), v)
			s.top().idx++
			return one(s), nil
		})
	case *ssa.UnOp:
		x := ex.operand(st, in.X)
		switch in.Op {
		case token.MUL:
			ok, n, s := ex.deref(st, x, "load")
			return more(ok, n, s, func(s *State) ([]*State, *Stop) {
				return setIn(s, ex.load(s, ex.ptr(x, in.X.Type())))
			})
		case token.NOT:
			return set(mkNot(ex.term(st, x)))
		case token.SUB:
			return set(mkSub(mkInt(0), ex.term(st, x)))
		case token.ARROW:
			t := in.Type()
			r := ex.effect(st, "chan.recv", ex.term(st, x))
			if in.CommaOk {
				el := t.(*types.Tuple).At(0).Type()
				return set(&VTuple{vs: []Val{fromTerm(App("chan.recv#0", sortOf(el), r, ex.term(st, x)), el), App("chan.recv#1", SB, r, ex.term(st, x))}})
			}
			return set(fromTerm(App("chan.recv#0", sortOf(t), r, ex.term(st, x)), t))
		}
		return set(App("unop:"+in.Op.String(), sortOf(in.Type()), ex.term(st, x)))
	case *ssa.BinOp:
		return ex.binop(st, in)
	case *ssa.Phi:
		fail("phi")
	case *ssa.FieldAddr:
		x := ex.operand(st, in.X)
		ok, n, s := ex.deref(st, x, "field")
		return more(ok, n, s, func(s *State) ([]*State, *Stop) {
			p := *ex.ptr(x, in.X.Type())
			if p.kind == 'E' {
				fail("address of a field of a slice element")
			}
			p.path = append(append([]int(nil), p.path...), in.Field)
			return setIn(s, &p)
		})
	case *ssa.Field:
		return set(ex.field(st, ex.operand(st, in.X), in.X.Type(), in.Field))
	case *ssa.IndexAddr:
		x := ex.operand(st, in.X)
		i := ex.term(st, ex.operand(st, in.Index))
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			// pointer to array
			at := pt.Elem().Underlying().(*types.Array)
			p := *ex.ptr(x, in.X.Type())
			if i.isInt() && i.I >= 0 && i.I < at.Len() {
				p.path = append(append([]int(nil), p.path...), int(i.I))
				return set(&p)
			}
			fail("symbolic index into array")
		}
		el := in.Type().Underlying().(*types.Pointer).Elem()
		c := mkAnd(mkLe(mkInt(0), i), mkLt(i, ex.sliceLen(st, x)))
		ok, n, s := ex.require(st, c, "index out of range")
		return more(ok, n, s, func(s *State) ([]*State, *Stop) {
			return setIn(s, &VPtr{kind: 'E', sl: x, idx: i, t: el})
		})
	case *ssa.Index:
		x := ex.operand(st, in.X)
		i := ex.term(st, ex.operand(st, in.Index))
		if sortOf(in.X.Type()) == SS {
			xs := ex.term(st, x)
			ok, n, s := ex.require(st, mkAnd(mkLe(mkInt(0), i), mkLt(i, App("str.len", SI, xs))), "index out of range")
			return more(ok, n, s, func(s *State) ([]*State, *Stop) { return setIn(s, App("byteAt", SI, xs, i)) })
		}
		ok, n, s := ex.require(st, mkAnd(mkLe(mkInt(0), i), mkLt(i, ex.sliceLen(st, x))), "index out of range")
		return more(ok, n, s, func(s *State) ([]*State, *Stop) { return setIn(s, ex.index(s, x, i, in.Type())) })
	case *ssa.Slice:
		return ex.slice(st, in, more)
	case *ssa.MakeSlice:
		n := ex.term(st, ex.operand(st, in.Len))
		el := in.Type().Underlying().(*types.Slice).Elem()
		var content Val
		if n.isInt() && n.I <= 64 {
			a := &VArray{t: types.NewArray(el, n.I)}
			for i := int64(0); i < n.I; i++ {
				a.es = append(a.es, zero(el))
			}
			content = a
		} else {
			content = App("smake", SU, n, ex.term(st, zero(el)))
		}
		id := st.newObj(content, in.Type(), "slice")
		return set(&VSlice{obj: id, lo: mkInt(0), hi: n, elem: el})
	case *ssa.MakeMap:
		id := st.newObj(App("gempty", SU), in.Type(), "map")
		return set(&VMap{obj: id})
	case *ssa.MakeChan:
		return set(App("newchan", SU, ex.effect(st, "newchan", ex.term(st, ex.operand(st, in.Size)))))
	case *ssa.Select:
		var as []*Term
		parts := make([][]*Term, len(in.States))
		for i, c := range in.States {
			parts[i] = []*Term{ex.term(st, ex.operand(st, c.Chan))}
			if c.Dir == types.SendOnly {
				parts[i] = append(parts[i], ex.argTerm(st, "select", i, ex.operand(st, c.Send)))
			}
		}
		// the order of the two cases of a select does not matter
		swapped := false
		if len(parts) == 2 && in.States[0].Dir == types.RecvOnly && in.States[1].Dir == types.RecvOnly && parts[1][0].String() < parts[0][0].String() {
			swapped = true
			parts[0], parts[1] = parts[1], parts[0]
		}
		for _, p := range parts {
			as = append(as, p...)
		}
		name := fmt.Sprintf("select%d", len(in.States))
		for _, c := range in.States {
			name += map[types.ChanDir]string{types.SendOnly: "s", types.RecvOnly: "r"}[c.Dir]
		}
		lo := int64(0)
		if !in.Blocking {
			name, lo = name+"d", -1
		}
		as = append([]*Term{ex.effect(st, name, as...)}, as...)
		ix := App(name+"#i", SI, as...)
		st.assume(mkLe(mkInt(lo), ix))
		st.assume(mkLe(ix, mkInt(int64(len(in.States)-1))))
		tt := in.Type().(*types.Tuple)
		rix := ix
		if swapped {
			rix = mkSub(mkInt(1), ix)
		}
		vs := []Val{rix, App(name+"#ok", SB, as...)}
		for i := 2; i < tt.Len(); i++ {
			el := tt.At(i).Type()
			k := i
			if swapped {
				k = 5 - i
			}
			vs = append(vs, fromTerm(typed(App(fmt.Sprintf("%s#%d", name, k), sortOf(el), as...), el), el))
		}
		return set(&VTuple{vs: vs})
	case *ssa.MapUpdate:
		m := ex.operand(st, in.Map)
		k := ex.term(st, ex.operand(st, in.Key))
		v := ex.term(st, ex.operand(st, in.Value))
		ex.notNil(st, "stored value is not nil", in.Value.Type(), v)
		ex.setMapContent(st, m, App("gput", SU, ex.mapContent(st, m), k, v))
		f.idx++
		return one(st), nil
	case *ssa.Lookup:
		x := ex.operand(st, in.X)
		k := ex.term(st, ex.operand(st, in.Index))
		if sortOf(in.X.Type()) == SS {
			xs := ex.term(st, x)
			ok, n, s := ex.require(st, mkAnd(mkLe(mkInt(0), k), mkLt(k, App("str.len", SI, xs))), "index out of range")
			return more(ok, n, s, func(s *State) ([]*State, *Stop) { return setIn(s, App("byteAt", SI, xs, k)) })
		}
		m := ex.mapContent(st, x)
		has := App("ghas", SB, m, k)
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		z := zero(vt)
		yes, no := ex.branch(st, has)
		var res []*State
		for i, s := range []*State{yes, no} {
			if s == nil {
				continue
			}
			v := z
			if i == 0 {
				v = fromTerm(typed(App("gget", sortOf(vt), m, k), vt), vt)
			}
			if in.CommaOk {
				v = &VTuple{vs: []Val{v, mkBool(i == 0)}}
			}
			n, _ := setIn(s, v)
			res = append(res, n...)
		}
		return res, nil
	case *ssa.Range:
		x := ex.operand(st, in.X)
		it := &iterState{idx: mkInt(0)}
		if sortOf(in.X.Type()) == SS {
			it.isStr, it.s = true, ex.term(st, x)
		} else {
			it.s = ex.mapContent(st, x)
		}
		id := st.newObj(it, nil, "iter")
		return set(&VIter{obj: id})
	case *ssa.Next:
		o := ex.operand(st, in.Iter).(*VIter)
		it := st.objs[o.obj].val.(*iterState)
		tt := in.Type().(*types.Tuple)
		var n *Term
		if it.isStr {
			n = App("str.len", SI, it.s)
		} else {
			n = App("glen", SI, it.s)
		}
		yes, no := ex.branch(st, mkLt(it.idx, n))
		var res []*State
		if yes != nil {
			var k, v Val
			var w *Term
			if it.isStr {
				k, v, w = it.idx, ex.runeAt(it.s, it.idx), ex.runeW(it.s, it.idx)
			} else {
				kt, vt := tt.At(1).Type(), tt.At(2).Type()
				mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
				kt, vt = mt.Key(), mt.Elem()
				kk := typed(App("gkeyAt", sortOf(kt), it.s, it.idx), kt)
				k = fromTerm(kk, kt)
				v = fromTerm(typed(App("gget", sortOf(vt), it.s, kk), vt), vt)
				w = mkInt(1)
			}
			yes.setObj(o.obj, &iterState{isStr: it.isStr, s: it.s, idx: mkAdd(it.idx, w)})
			r, _ := setIn(yes, &VTuple{vs: []Val{tTrue, k, v}})
			res = append(res, r...)
		}
		if no != nil {
			vs := []Val{tFalse}
			for i := 1; i < 3; i++ {
				if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
					vs = append(vs, tNil)
				} else {
					vs = append(vs, zero(tt.At(i).Type()))
				}
			}
			r, _ := setIn(no, &VTuple{vs: vs})
			res = append(res, r...)
		}
		return res, nil
	case *ssa.Extract:
		tv, ok := ex.operand(st, in.Tuple).(*VTuple)
		if !ok {
			fail("extract from %T", ex.operand(st, in.Tuple))
		}
		return set(tv.vs[in.Index])
	case *ssa.MakeClosure:
		c := &VClosure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, ex.operand(st, b))
		}
		return set(c)
	case *ssa.MakeInterface:
		return set(ex.makeIface(st, ex.operand(st, in.X), in.X.Type()))
	case *ssa.ChangeInterface:
		return set(ex.operand(st, in.X))
	case *ssa.ChangeType:
		x := ex.operand(st, in.X)
		if s, ok := x.(*VStruct); ok {
			x = &VStruct{t: in.Type(), fs: s.fs}
		}
		return set(x)
	case *ssa.Convert:
		return set(ex.convert(st, ex.operand(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		fail("multiconvert")
	case *ssa.TypeAssert:
		return ex.typeAssert(st, in)
	case *ssa.If:
		c := ex.term(st, ex.operand(st, in.Cond))
		a, b := ex.branch(st, c)
		var res []*State
		for i, s := range []*State{a, b} {
			if s == nil {
				continue
			}
			n, stop := ex.enter(s, s.top().block.Succs[i])
			if stop != nil {
				n = []*State{stopState(stop)}
			}
			res = append(res, n...)
		}
		return res, nil
	case *ssa.Jump:
		return ex.enter(st, f.block.Succs[0])
	case *ssa.Return:
		var r Val
		switch len(in.Results) {
		case 0:
		case 1:
			r = ex.operand(st, in.Results[0])
		default:
			t := &VTuple{}
			for _, x := range in.Results {
				t.vs = append(t.vs, ex.operand(st, x))
			}
			r = t
		}
		return ex.ret(st, r)
	case *ssa.Panic:
		v := ex.operand(st, in.X)
		ex.panicNotNil(st, v)
		return ex.raise(st, v)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return ex.runDeferred(st, d)
		}
		f.idx++
		return one(st), nil
	case *ssa.Defer:
		d := &deferred{call: &in.Call}
		d.fn = ex.calleeVal(st, &in.Call)
		for _, a := range in.Call.Args {
			d.args = append(d.args, ex.operand(st, a))
		}
		f.defers = append(f.defers, d)
		f.idx++
		return one(st), nil
	case *ssa.Go:
		fnv := ex.calleeVal(st, &in.Call)
		as := []*Term{ex.argTerm(st, "go", 0, fnv)}
		for i, a := range in.Call.Args {
			as = append(as, ex.argTerm(st, "go", i+1, ex.operand(st, a)))
		}
		ex.effect(st, "go", as...)
		f.idx++
		return one(st), nil
	case *ssa.Send:
		ex.effect(st, "chan.send", ex.term(st, ex.operand(st, in.Chan)), ex.term(st, ex.operand(st, in.X)))
		f.idx++
		return one(st), nil
	case *ssa.Call:
		fnv := ex.calleeVal(st, &in.Call)
		var args []Val
		for _, a := range in.Call.Args {
			args = append(args, ex.operand(st, a))
		}
		return ex.doCall(st, &in.Call, fnv, args, in, false)
	}
	fail("unsupported instruction %T %s in %s", in, in, f.fn)
	return nil, nil
}

// effect records an opaque effect on the world and returns the world before it
func (ex *Exec) effect(st *State, name string, args ...*Term) *Term {
	w := ex.flushW(st)
	st.W = App(name+"#W", SW, append([]*Term{w}, args...)...)
	return w
}

func (ex *Exec) runeAt(s, i *Term) *Term {
	if s.isStr() && i.isInt() && i.I >= 0 && int(i.I) < len(s.strLit()) {
		for _, r := range s.strLit()[i.I:] {
			return mkInt(int64(r))
		}
	}
	return App("runeAt", SI, s, i)
}

func (ex *Exec) runeW(s, i *Term) *Term {
	if s.isStr() && i.isInt() && i.I >= 0 && int(i.I) < len(s.strLit()) {
		str := s.strLit()[i.I:]
		for k := range str {
			if k > 0 {
				return mkInt(int64(k))
			}
		}
		return mkInt(int64(len(str)))
	}
	return App("runeW", SI, s, i)
}

func (ex *Exec) makeIface(st *State, x Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return x
	}
	if tm, ok := x.(*Term); ok {
		return App(boxOp(t), SU, tm)
	}
	return &VIface{t: t, v: x}
}

func (ex *Exec) field(st *State, x Val, t types.Type, i int) Val {
	switch s := x.(type) {
	case *VStruct:
		return s.fs[i]
	case *Term:
		ft := t.Underlying().(*types.Struct).Field(i).Type()
		return fromTerm(typed(App(fmt.Sprintf("fld:%s#%d", typeKey(t), i), sortOf(ft), s), ft), ft)
	}
	fail("field of %T", x)
	return nil
}

func (ex *Exec) mapContent(st *State, m Val) *Term {
	switch x := m.(type) {
	case *VMap:
		return ex.term(st, st.objs[x.obj].val)
	case *Term:
		switch x.Op {
		case "nil", "gput", "gempty":
			return x
		}
		return ex.term(st, ex.loadPseudo(st, x, "$gmap", SU))
	}
	fail("map is %T", m)
	return nil
}

func (ex *Exec) setMapContent(st *State, m Val, c *Term) {
	switch x := m.(type) {
	case *VMap:
		st.setObj(x.obj, c)
	case *Term:
		ex.storePseudo(st, x, "$gmap", c)
	default:
		fail("map is %T", m)
	}
}

// pseudo fields hold the content of opaque mutable objects
func (ex *Exec) loadPseudo(st *State, ref *Term, key string, s Sort) *Term {
	if ws, ok := st.heap[key]; ok {
		for i := len(ws) - 1; i >= 0; i-- {
			e := mkEq(ws[i].ref, ref)
			switch st.known(e) {
			case 1:
				return ws[i].val.(*Term)
			case -1:
				continue
			}
			if !ex.feasible(st, e) {
				continue
			}
			if !ex.feasible(st, mkNot(e)) {
				return ws[i].val.(*Term)
			}
			fail("undecided aliasing of %s", key)
		}
	}
	return App("rd:"+key, s, st.W, ref)
}

func (ex *Exec) storePseudo(st *State, ref *Term, key string, c *Term) {
	ex.putHeap(st, key, nil, ref, c)
}

func (ex *Exec) slice(st *State, in *ssa.Slice, more func(*State, []*State, *Stop, func(*State) ([]*State, *Stop)) ([]*State, *Stop)) ([]*State, *Stop) {
	x := ex.operand(st, in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.term(st, ex.operand(st, v))
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = mkInt(0)
	}
	setIn := func(s *State, v Val) ([]*State, *Stop) {
		g := s.top()
		g.env[in] = v
		g.idx++
		return one(s), nil
	}
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		p, ok := x.(*VPtr)
		if !ok || p.kind != 'L' || len(p.path) != 0 {
			if ok && p.kind == 'G' {
				c := ex.term(st, ex.load(st, p))
				if hi == nil {
					hi = mkInt(at.Len())
				}
				return setIn(st, App("ssub", SU, c, lo, hi))
			}
			fail("slice of array")
		}
		if hi == nil {
			hi = mkInt(at.Len())
		}
		return setIn(st, &VSlice{obj: p.obj, lo: lo, hi: hi, elem: at.Elem()})
	}
	if sortOf(in.X.Type()) == SS {
		xs := ex.term(st, x)
		n := App("str.len", SI, xs)
		if hi == nil {
			hi = n
		}
		ok, nx, s := ex.require(st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)), "slice bounds")
		return more(ok, nx, s, func(s *State) ([]*State, *Stop) { return setIn(s, App("substr", SS, xs, lo, hi)) })
	}
	n := ex.sliceLen(st, x)
	if hi == nil {
		hi = n
	}
	// capacity is not modelled: reslicing beyond the length is reported as a bounds error
	conds := []*Term{mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)}
	_ = mx
	ok, nx, s := ex.require(st, mkAnd(conds...), "slice bounds")
	return more(ok, nx, s, func(s *State) ([]*State, *Stop) {
		switch v := x.(type) {
		case *VSlice:
			return setIn(s, &VSlice{obj: v.obj, lo: mkAdd(v.lo, lo), hi: mkAdd(v.lo, hi), elem: v.elem})
		}
		return setIn(s, App("ssub", SU, ex.term(s, x), lo, hi))
	})
}

func (ex *Exec) binop(st *State, in *ssa.BinOp) ([]*State, *Stop) {
	f := st.top()
	xv, yv := ex.operand(st, in.X), ex.operand(st, in.Y)
	set := func(v Val) ([]*State, *Stop) {
		f.env[in] = v
		f.idx++
		return one(st), nil
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		e := ex.equal(st, xv, yv)
		if in.Op == token.NEQ {
			e = mkNot(e)
		}
		return set(e)
	}
	x, y := ex.term(st, xv), ex.term(st, yv)
	if x.S == SI && y.S == SI {
		switch in.Op {
		case token.ADD:
			return set(mkAdd(x, y))
		case token.SUB:
			return set(mkSub(x, y))
		case token.MUL:
			return set(mkMul(x, y))
		case token.LSS:
			return set(mkLt(x, y))
		case token.LEQ:
			return set(mkLe(x, y))
		case token.GTR:
			return set(mkLt(y, x))
		case token.GEQ:
			return set(mkLe(y, x))
		}
	}
	if x.S == SS && in.Op == token.ADD {
		return set(App("str.++", SS, x, y))
	}
	return set(App("binop:"+in.Op.String(), sortOf(in.Type()), x, y))
}

func (ex *Exec) equal(st *State, a, b Val) *Term {
	if s, ok := a.(*VSlice); ok {
		if b == Val(tNil) {
			_ = s
			return tFalse
		}
	}
	if _, ok := b.(*VSlice); ok && a == Val(tNil) {
		return tFalse
	}
	pa, oka := a.(*VPtr)
	pb, okb := b.(*VPtr)
	if oka && okb && pa.kind == 'L' && pb.kind == 'L' {
		return mkBool(pa.obj == pb.obj && fmt.Sprint(pa.path) == fmt.Sprint(pb.path))
	}
	for _, v := range []Val{a, b} {
		switch v.(type) {
		case *VPtr, *VIface, *VClosure, *VDyn, *VMap, *VSlice:
			if a == Val(tNil) || b == Val(tNil) {
				if p, ok := v.(*VPtr); ok && p.kind == 'H' && len(p.path) == 0 {
					continue
				}
				return tFalse
			}
		}
	}
	ta, tb := ex.term(st, a), ex.term(st, b)
	if ta.S != tb.S {
		fail("comparison of different sorts")
	}
	return mkEq(ta, tb)
}

func (ex *Exec) convert(st *State, x Val, from, to types.Type) Val {
	sf, sto := sortOf(from), sortOf(to)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case sf == SI && sto == SI:
		if tb != nil && fb != nil {
			if width(tb) >= width(fb) || fb.Info()&types.IsUntyped != 0 {
				return x
			}
			t := ex.term(st, x)
			if t.isInt() {
				return x
			}
			if width(tb) >= 32 {
				return x
			}
			return App("trunc:"+typeKey(to.Underlying()), SI, t)
		}
	case sf == SS && sto == SS:
		return x
	case sf == SS && sto == SU:
		return App("str2"+typeKey(to.Underlying()), SU, ex.term(st, x))
	case sf == SU && sto == SS:
		t := ex.term(st, x)
		if strings.HasPrefix(t.Op, "str2") {
			return t.Args[0]
		}
		return App(typeKey(from.Underlying())+"2str", SS, t)
	case sf == SI && sto == SS:
		t := ex.term(st, x)
		if t.isInt() {
			return mkStr(string(rune(t.I)))
		}
		return App("rune2str", SS, t)
	case sf == SU && sto == SU:
		if typeKey(from.Underlying()) == typeKey(to.Underlying()) {
			return x
		}
	}
	return App("conv:"+typeKey(from)+">"+typeKey(to), sto, ex.term(st, x))
}

func width(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (ex *Exec) typeAssert(st *State, in *ssa.TypeAssert) ([]*State, *Stop) {
	x := ex.operand(st, in.X)
	at := in.AssertedType
	ai, isI := at.Underlying().(*types.Interface)
	setIn := func(s *State, ok bool, v Val) []*State {
		g := s.top()
		if in.CommaOk {
			g.env[in] = &VTuple{vs: []Val{v, mkBool(ok)}}
		} else {
			g.env[in] = v
		}
		g.idx++
		return one(s)
	}
	no := func(s *State) ([]*State, *Stop) {
		if in.CommaOk {
			return setIn(s, false, zero(at)), nil
		}
		return ex.rtPanic(s, "type assertion")
	}
	switch v := x.(type) {
	case *VIface:
		ok := false
		if isI {
			ok = types.Implements(v.t, ai)
		} else {
			ok = types.Identical(v.t, at)
		}
		if !ok {
			return no(st)
		}
		if isI {
			return setIn(st, true, v), nil
		}
		return setIn(st, true, v.v), nil
	case *VDyn:
		if !isI {
			return no(st)
		}
		c := ex.term(st, st.objs[v.obj].val)
		op := "impl:" + typeKey(at)
		base := "impl:" + typeKey(v.t)
		_ = c
		if implies(base, op) {
			return setIn(st, true, v), nil
		}
		if disjoint(base, op) || strings.HasPrefix(op, "impl:"+modPath) {
			return no(st)
		}
		fail("type assertion of a local dgo value to %s", op)
	case *Term:
		op := "ty:"
		if isI {
			op = "impl:"
		}
		var c *Term
		if isI && ai.NumMethods() == 0 {
			c = mkNot(mkEq(v, tNil))
		} else {
			if so := staticIfaceOp(v); so != "" && isI && implies(so, op+typeKey(at)) {
				c = mkNot(mkEq(v, tNil))
			} else {
				c = App(op+typeKey(at), SB, v)
			}
		}
		y, n := ex.branch(st, c)
		var res []*State
		if y != nil {
			var r Val
			if isI {
				r = typedStrong(v, at)
			} else {
				u := App("unbox:"+typeKey(at), sortOf(at), v)
				r = fromTerm(u, at)
				if t, ok := r.(*Term); ok && t.S == SU {
					// the dynamic value of a pointer type may be a nil pointer: assumed not to happen
					if _, ok := at.Underlying().(*types.Pointer); ok {
						t.nonNil = true
					}
				}
			}
			res = append(res, setIn(y, true, r)...)
		}
		if n != nil {
			ns, s := no(n)
			if s != nil {
				ns = []*State{stopState(s)}
			}
			res = append(res, ns...)
		}
		return res, nil
	}
	fail("type assertion on %T", x)
	return nil, nil
}

// typedStrong keeps the term; what an assertion established is in the path condition
func typedStrong(t *Term, at types.Type) *Term { return t }

// ---- globals

func (ex *Exec) loadGlobal(st *State, p *VPtr) Val {
	g := p.g
	key := "$g:" + g.String()
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && !ex.w.gmut[g] {
		if is := ex.initState(g.Pkg); is != nil {
			if v, ok := is.genv[g]; ok {
				return getPath(fromVal(v, t), p.path)
			}
		}
	}
	if ws, ok := st.heap[key]; ok {
		return getPath(ws[0].val, p.path)
	}
	if ex.w.gmut[g] {
		return getPath(fromTerm(typed(App("rd:"+key, sortOf(t), st.W, mkVar(g.String(), SU)), t), t), p.path)
	}
	// variables of other packages are assumed not to change
	switch g.String() {
	case "github.com/lyraproj/dgo/vf.Nil":
		return App("vfNil", SU)
	case "github.com/lyraproj/dgo/vf.True":
		return App("vfBool", SU, tTrue)
	case "github.com/lyraproj/dgo/vf.False":
		return App("vfBool", SU, tFalse)
	}
	v := App("glob:"+g.String(), sortOf(t))
	if v.S == SU {
		v.nonNil = true
	}
	return getPath(fromTerm(typed(v, t), t), p.path)
}

func fromVal(v Val, t types.Type) Val {
	if x, ok := v.(*Term); ok {
		return fromTerm(x, t)
	}
	return v
}

func (ex *Exec) storeGlobal(st *State, p *VPtr, v Val) {
	if st.genv != nil {
		if len(p.path) > 0 {
			cur, ok := st.genv[p.g]
			if !ok {
				cur = zero(p.g.Type().Underlying().(*types.Pointer).Elem())
			}
			v = setPath(cur, p.path, v)
		}
		st.genv[p.g] = v
		return
	}
	key := "$g:" + p.g.String()
	if len(p.path) > 0 {
		v = setPath(ex.loadGlobal(st, &VPtr{kind: 'G', g: p.g}), p.path, v)
	}
	st.heap[key] = []heapWrite{{mkVar(p.g.String(), SU), v}}
}

// initState evaluates the initialisation of a package: globals that are never stored to later have the value it gives them
func (ex *Exec) initState(p *ssa.Package) *State {
	if s, ok := ex.w.inits[p]; ok {
		return s
	}
	ex.w.inits[p] = nil
	res := newState()
	res.genv = map[*ssa.Global]Val{}
	fn := p.Func("init")
	if fn == nil {
		return nil
	}
	ie := newExec(ex.w, ex.pr)
	ie.side = 'I'
	st := newState()
	st.genv = map[*ssa.Global]Val{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); !ok {
					panic(r)
				}
			}
		}()
		ie.evalInit(st, fn)
	}()
	for g, v := range st.genv {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
				}
			}()
			res.genv[g] = st.reify(ie, v)
		}()
	}
	ex.w.inits[p] = res
	return res
}

// evalInit runs the straight-line part of a package initialiser; calls into other packages' initialisers are skipped
func (ex *Exec) evalInit(st *State, fn *ssa.Function) {
	ex.pushFrame(st, fn, nil, nil, nil, false)
	f := st.top()
	// skip the guard
	for _, b := range fn.Blocks {
		if b.Comment == "init.start" {
			f.block, f.idx = b, 0
		}
	}
	cur := st
	for i := 0; i < 100000; i++ {
		f := cur.top()
		if len(cur.frames) == 1 {
			if f.idx >= len(f.block.Instrs) {
				return
			}
			switch in := f.block.Instrs[f.idx].(type) {
			case *ssa.Jump, *ssa.Return, *ssa.If:
				return
			case *ssa.Call:
				if c := in.Call.StaticCallee(); c != nil && (c.Name() == "init" || strings.HasPrefix(c.Name(), "init#")) {
					f.idx++
					continue
				}
			}
		}
		// one instruction that cannot be evaluated must not lose the others
		bad := func() (bad bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
					bad = true
				}
			}()
			n, stop := ex.step(cur)
			if stop != nil || len(n) == 0 {
				bad = true
				return
			}
			// a call may fail: the initialiser is assumed to succeed
			cur2 := n[0]
			for _, s := range n {
				if s.pend == nil {
					cur2 = s
					break
				}
			}
			if cur2.pend != nil {
				bad = true
				return
			}
			cur = cur2
			return false
		}()
		if bad {
			if len(cur.frames) > 1 {
				return
			}
			if v, ok := f.block.Instrs[f.idx].(ssa.Value); ok {
				f.env[v] = opaqueOf(v)
			}
			f.idx++
		}
	}
}

func opaqueOf(v ssa.Value) Val {
	t := v.Type()
	if tt, ok := t.(*types.Tuple); ok {
		r := &VTuple{}
		for i := 0; i < tt.Len(); i++ {
			r.vs = append(r.vs, fromTerm(freshVar("init", sortOf(tt.At(i).Type())), tt.At(i).Type()))
		}
		return r
	}
	return fromTerm(freshVar("init", sortOf(t)), t)
}
