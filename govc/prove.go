package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof obligation and what became of it
type Obligation struct {
	Name   string `json:"name"`
	OK     bool   `json:"ok"`
	By     string `json:"by"`
	Detail string `json:"detail,omitempty"`
	X      bool   `json:"x,omitempty"` // concerns only the explanation
}

type Product struct {
	w          *World
	pr         *Prover
	ea, eb     *Exec
	c          *Contract
	obls       []*Obligation
	ncut       int
	rels       map[int]*relation
	cloMemo    map[string]bool
	cloAssumed bool
	cloBusy    map[string]bool
	reached    bool
	bad        int
	w0, x0     *Term
	deadline   time.Time
	label      string
	sub        int
	depth      int
	closure    bool
	args       []Val
}

type relation struct {
	id         int
	modA, modB map[string]bool
	choice     map[string]int
	cands      map[string][]cand
	dropU      map[string]bool
	a0, b0     map[string]*Term // leaves at entry
	va, vb     map[string]*Term // havocked variables
	unary      []unaryInv
	pairs      []pairInv
	compA      map[string]Val
	compB      map[string]Val
	stA, stB   *State
	label      string
	solo       byte
}

type cand struct {
	a    string
	kind string // eq, nonnil, isnil
	off  int64
}

type unaryInv struct {
	name string
	side byte
	f    func(v *Term) *Term
	leaf string
}

// pairInv is a possible invariant over two changing components
type pairInv struct {
	name string
	x, y pairLeaf
	f    func(x, y *Term) *Term
}

type pairLeaf struct {
	side byte
	leaf string
}

func (rel *relation) at(l pairLeaf, va, vb map[string]*Term) *Term {
	if l.side == 'A' {
		return va[l.leaf]
	}
	return vb[l.leaf]
}

// addPairs adds the invariants that relate a sequence that grows from nothing with the counters, and with a sequence
// of fixed length that is filled
func (p *Product) addPairs(rel *relation, pc []*Term) {
	rel.pairs = nil
	var grow, fill, count []pairLeaf
	sort := func(side byte, es, vs map[string]*Term) {
		for _, ln := range sortedNames(es) {
			e := es[ln]
			if vs[ln] == nil {
				continue
			}
			l := pairLeaf{side, ln}
			switch {
			case e.S == SU && e.Op == "seq" && len(e.Args) == 0:
				grow = append(grow, l)
			case e.S == SU && e.Op == "smake":
				fill = append(fill, l)
			case e.S == SI && side == 'A':
				count = append(count, l)
			}
		}
	}
	sort('A', rel.a0, rel.va)
	sort('B', rel.b0, rel.vb)
	add := func(kind string, x, y pairLeaf, f func(x, y *Term) *Term) {
		n := fmt.Sprintf("pair %s %c%s %c%s", kind, x.side, x.leaf, y.side, y.leaf)
		if rel.dropU[n] {
			return
		}
		if ok, _ := p.prove(pc, f(rel.at(x, rel.a0, rel.b0), rel.at(y, rel.a0, rel.b0))); !ok {
			rel.dropU[n] = true
			return
		}
		rel.pairs = append(rel.pairs, pairInv{n, x, y, f})
	}
	for _, l := range fill {
		for _, c := range count {
			e := rel.at(c, rel.a0, rel.b0)
			add("bound", c, l, func(c, l *Term) *Term { return mkLe(mkSub(c, e), App("slen", SI, l)) })
		}
	}
	for _, g := range grow {
		for _, c := range count {
			e := rel.at(c, rel.a0, rel.b0)
			add("count", g, c, func(g, c *Term) *Term { return mkEq(App("slen", SI, g), mkSub(c, e)) })
		}
		for _, l := range fill {
			if g.side != l.side {
				add("prefix", g, l, func(g, l *Term) *Term {
					return mkEq(App("ssub", SU, l, mkInt(0), App("slen", SI, g)), g)
				})
			}
		}
	}
}

func sortedNames(m map[string]*Term) []string {
	ns := make([]string, 0, len(m))
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

type relFail struct {
	id int
}

// maxBad is the number of failed obligations after which a contract is given up
var maxBad = 40

func (p *Product) add(name string, ok bool, by, detail string, x bool) {
	if !ok {
		if p.bad++; p.bad > maxBad {
			fail("too many obligations fail")
		}
	}
	p.obls = append(p.obls, &Obligation{Name: p.c.Name + "/" + p.label + name, OK: ok, By: by, Detail: detail, X: x})
}

func (p *Product) check() {
	if time.Now().After(p.deadline) {
		fail("time limit")
	}
}

// prove establishes that pc implies goal
func (p *Product) prove(pc []*Term, goal *Term) (bool, string) {
	if goal == tTrue {
		return true, "syntactic"
	}
	for _, f := range pc {
		if f == goal {
			return true, "syntactic"
		}
	}
	p.check()
	return p.pr.unsat(append(append([]*Term(nil), pc...), mkNot(goal)), false)
}

func (p *Product) quick(pc []*Term, goal *Term) bool {
	if goal == tTrue {
		return true
	}
	ok, _ := p.pr.unsat(append(append([]*Term(nil), pc...), mkNot(goal)), true)
	return ok
}

func (p *Product) explore(a, b *State) {
	p.check()
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > 30 {
		fail("too many nested loops")
	}
	type pair struct{ a, b *Stop }
	var pairs []pair
	for _, sa := range p.ea.run(a) {
		b2 := b.clone()
		for _, f := range sa.st.pc {
			b2.assume(f)
		}
		p.eb.peer = sa.st.clos
		for _, sb := range p.eb.run(b2) {
			pairs = append(pairs, pair{sa, sb})
		}
	}
	rank := func(q pair) int {
		switch {
		case q.a.kind == "back":
			return 0
		case q.a.kind == "header":
			return 1
		}
		return 2
	}
	sort.SliceStable(pairs, func(i, j int) bool { return rank(pairs[i]) < rank(pairs[j]) })
	for _, q := range pairs {
		p.match(q.a, q.b, 0)
	}
}

func (p *Product) match(sa, sb *Stop, unrolled int) {
	p.check()
	pc := sb.st.pc
	ended := func(s *Stop) bool { return s.kind == "ret" || s.kind == "panic" }
	switch {
	case ended(sa) && ended(sb):
		if sa.kind != sb.kind {
			ok, by := p.prove(pc, tFalse)
			d := ""
			if !ok {
				d = fmt.Sprintf("the code %s, the specification %s\n%s", p.outcome(p.ea, sa), p.outcome(p.eb, sb), p.pcText(pc))
			}
			p.add("outcome", ok, by, d, false)
			return
		}
		p.compareEnd(sa, sb)
	case sa.kind == "back" && sb.kind == "back" && sa.cut == sb.cut:
		p.checkRel(p.rels[sa.cut], sa.st, sb.st)
	case sb.kind == "back" && p.rels[sb.cut].solo == 'B':
		p.checkSolo(p.rels[sb.cut], p.eb, sb.st, pc)
	case sa.kind == "back" && p.rels[sa.cut].solo == 'A':
		p.checkSolo(p.rels[sa.cut], p.ea, sa.st, pc)
	case sa.kind == "back" || sb.kind == "back":
		// one side starts another iteration while the other is somewhere else: let it go on
		if ok, _ := p.pr.unsat(pc, true); ok {
			return
		}
		if unrolled > 5 {
			p.add("loop structure", false, "", fmt.Sprintf("the code is at %s, the specification at %s\n%s", p.where(sa), p.where(sb), p.pcText(pc)), false)
			return
		}
		if sb.kind == "back" {
			b := sb.st.clone()
			b.dropCut(sb.cut)
			p.eb.peer = sa.st.clos
			for _, nb := range p.eb.run(b) {
				p.match(sa, nb, unrolled+1)
			}
			return
		}
		a := sa.st.clone()
		for _, f := range pc {
			a.assume(f)
		}
		a.dropCut(sa.cut)
		for _, na := range p.ea.run(a) {
			nb := *sb
			nb.st = sb.st.clone()
			for _, f := range na.st.pc {
				nb.st.assume(f)
			}
			p.match(na, &nb, unrolled+1)
		}
	case sa.kind == "header" && sb.kind == "header":
		if ok, _ := p.pr.unsat(pc, true); ok {
			return
		}
		p.cut(sa, sb)
	case sa.kind == "header" || sb.kind == "header":
		if ok, _ := p.pr.unsat(pc, true); ok {
			return
		}
		if ended(sa) && p.cutSolo('B', sb, sa, pc) || ended(sb) && p.cutSolo('A', sa, sb, pc) {
			return
		}
		if unrolled > 5 {
			p.add("loop structure", false, "", fmt.Sprintf("the code is at %s, the specification at %s\n%s", p.where(sa), p.where(sb), p.pcText(pc)), false)
			return
		}
		// let the side that is at a loop go on for one iteration
		if sa.kind == "header" {
			a := sa.st.clone()
			for _, f := range pc {
				a.assume(f)
			}
			a.pass = 1
			for _, na := range p.ea.run(a) {
				nb := *sb
				nb.st = sb.st.clone()
				for _, f := range na.st.pc {
					nb.st.assume(f)
				}
				p.match(na, &nb, unrolled+1)
			}
			return
		}
		b := sb.st.clone()
		b.pass = 1
		p.eb.peer = sa.st.clos
		for _, nb := range p.eb.run(b) {
			p.match(sa, nb, unrolled+1)
		}
	default:
		ok, by := p.prove(pc, tFalse)
		d := ""
		if !ok {
			d = fmt.Sprintf("the code is at %s, the specification at %s\n%s", p.where(sa), p.where(sb), p.pcText(pc))
		}
		p.add("loop structure", ok, by, d, false)
	}
}

func (p *Product) where(s *Stop) string {
	switch s.kind {
	case "ret":
		return "its return"
	case "panic":
		return "a panic"
	}
	f := s.st.top()
	return fmt.Sprintf("%s of the loop in %s (block %d)", s.kind, f.fn, f.block.Index)
}

func (p *Product) outcome(ex *Exec, s *Stop) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = "?"
		}
	}()
	if s.kind == "panic" {
		return "panics with " + ex.term(s.st, s.pv).String()
	}
	return "returns " + ex.term(s.st, s.ret).String()
}

func (p *Product) pcText(pc []*Term) string {
	var b strings.Builder
	b.WriteString("path condition:\n")
	for _, f := range pc {
		b.WriteString("  " + f.String() + "\n")
		if b.Len() > 8000 {
			b.WriteString("  …\n")
			break
		}
	}
	return b.String()
}

func errorType(t types.Type) bool { return typeKey(t) == "error" }

func (p *Product) compareVals(name string, sa, sb *Stop, va, vb Val, t types.Type) {
	pc := sb.st.pc
	if ia, ok := va.(*VIface); ok {
		if ib, ok := vb.(*VIface); ok && types.Identical(ia.t, ib.t) {
			_, oka := ia.v.(*VClosure)
			_, okb := ib.v.(*VClosure)
			if oka && okb {
				p.compareVals(name, sa, sb, ia.v, ib.v, ia.t)
				return
			}
		}
	}
	ca, oka := va.(*VClosure)
	cb, okb := vb.(*VClosure)
	if oka && okb {
		u := &closureUse{clo: ca, st: sa.st, term: p.ea.term(sa.st, ca)}
		ok := p.equalClosures(u, sb.st, cb)
		d := ""
		if !ok {
			d = "the returned functions differ"
		}
		p.add(name, ok, "closure", d, false)
		return
	}
	ta := p.ea.argTerm(sa.st, "return", 0, va)
	tb := p.eb.argTerm(sb.st, "return", 0, vb)
	if t != nil && errorType(t) && !p.c.ExactE {
		g := mkEq(mkEq(ta, tNil), mkEq(tb, tNil))
		ok, by := p.prove(pc, g)
		d := ""
		if !ok {
			d = fmt.Sprintf("error results differ: code %s, specification %s\n%s", ta, tb, p.pcText(pc))
		}
		p.add(name, ok, by, d, false)
		return
	}
	if ta.S != tb.S {
		p.add(name, false, "", fmt.Sprintf("code %s, specification %s", ta, tb), false)
		return
	}
	ok, by := p.prove(pc, mkEq(ta, tb))
	d := ""
	if !ok {
		d = fmt.Sprintf("code:          %s\nspecification: %s\nsolver: %s\n%s", ta, tb, by, p.pcText(pc))
	}
	p.add(name, ok, by, d, false)
}

func (p *Product) compareEnd(sa, sb *Stop) {
	pc := sb.st.pc
	if !p.reached {
		if ok, _ := p.pr.unsat(pc, false); !ok {
			p.reached = true
		}
	}
	p.eb.peer = sa.st.clos
	if sa.kind == "ret" {
		res := p.resultTypes(sa)
		if !p.closure {
			p.postconditions(sa, sb, res)
		}
		switch {
		case res == nil || res.Len() == 0:
		case res.Len() == 1:
			p.compareVals("result", sa, sb, sa.ret, sb.ret, res.At(0).Type())
		default:
			va, vb := sa.ret.(*VTuple), sb.ret.(*VTuple)
			// with an error, the other results are of no interest when the contract says so
			last := len(va.vs) - 1
			if ea, ok := va.vs[last].(*Term); ok && p.c.ErrFree && !p.closure && errorType(res.At(last).Type()) {
				if ok, _ := p.prove(pc, mkNot(mkEq(ea, tNil))); ok {
					p.compareVals(fmt.Sprintf("result %d", last), sa, sb, va.vs[last], vb.vs[last], res.At(last).Type())
					break
				}
			}
			for i := range va.vs {
				p.compareVals(fmt.Sprintf("result %d", i), sa, sb, va.vs[i], vb.vs[i], res.At(i).Type())
			}
		}
	} else {
		if a, b := p.ea.term(sa.st, sa.pv), p.eb.term(sb.st, sb.pv); a.Op != b.Op && (a.Op == "rterr" || a.Op == "nil" || strings.HasPrefix(a.Op, "box:") && a.Op != "box:string" && implHook("impl:error", a) == tFalse) {
			// a failure that is reported as an error must not turn into a programming error or a value that nobody recovers
			ok, by := p.prove(pc, tFalse)
			p.add("reported as an error", ok, by, fmt.Sprintf("the code panics with %s, the specification with %s\n%s", a, b, p.pcText(pc)), false)
		}
		if p.c.NoPanic && !p.closure {
			ok, by := p.prove(pc, tFalse)
			p.add("no panic", ok, by, "", false)
		}
		if p.c.PanicV && !p.closure {
			p.compareVals("panic value", sa, sb, sa.pv, sb.pv, nil)
		}
	}
	if sa.kind != "ret" && p.c.FailFree && !p.closure {
		return
	}
	wa, wb := p.ea.flushW(sa.st), p.eb.flushW(sb.st)
	ok, by := p.prove(pc, mkEq(wa, wb))
	d := ""
	if !ok {
		d = fmt.Sprintf("effects differ\ncode:          %s\nspecification: %s\n%s", wa, wb, p.pcText(pc))
	}
	p.add("effects", ok, by, d, false)
	ok, by = p.prove(pc, mkEq(sa.st.X, sb.st.X))
	d = ""
	if !ok {
		d = fmt.Sprintf("explanation events differ\ncode:          %s\nspecification: %s\n%s", sa.st.X, sb.st.X, p.pcText(pc))
	}
	p.add("explanation", ok, by, d, true)
	if p.closure {
		return
	}
	// the frame the contract promises to callers
	eff := p.c.Effects
	if eff == "none" || eff == "reads" || eff == "x" {
		ok, by := p.prove(pc, mkEq(wa, p.w0))
		p.add("frame", ok, by, "the world is modified", false)
	}
	if eff == "none" || eff == "reads" || eff == "g" {
		ok, by := p.prove(pc, mkEq(sa.st.X, p.x0))
		p.add("frame of the explanation", ok, by, "the explanation is modified", true)
	}
	if eff == "g" {
		w := wa
		for w != p.w0 && strings.HasSuffix(w.Op, "#gW") {
			w = w.Args[0]
		}
		p.add("frame", w == p.w0, "syntactic", "the world is modified", false)
	}
	if eff == "none" && sa.kind == "ret" {
		t := p.ea.term(sa.st, sa.ret)
		dep := false
		subterms([]*Term{t}, func(x *Term) {
			if x == p.w0 {
				dep = true
			}
		})
		p.add("depends on arguments only", !dep, "syntactic", "the result depends on the state of the world: "+t.String(), false)
	}
}

// postconditions proves what callers assume about the results beyond their value
func (p *Product) postconditions(sa, sb *Stop, res *types.Tuple) {
	var vs []Val
	if tv, ok := sb.ret.(*VTuple); ok {
		vs = tv.vs
	} else if sb.ret != nil {
		vs = []Val{sb.ret}
	}
	for i, v := range vs {
		if t, ok := v.(*Term); ok && res != nil && i < res.Len() && p.w.nonNil[typeKey(res.At(i).Type())] && !t.nonNil && !isCtor(t) && !isStored(t) {
			ok, by := p.prove(sb.st.pc, mkNot(mkEq(t, tNil)))
			d := ""
			if !ok {
				d = fmt.Sprintf("%s may be nil\n%s", t, p.pcText(sb.st.pc))
			}
			p.add(fmt.Sprintf("result %d is not nil", i), ok, by, d, false)
		}
	}
	if p.c.Ensures == nil {
		return
	}
	st := sb.st.clone()
	st.frames, st.cuts = nil, nil
	p.eb.pushFrame(st, p.c.Ensures, append(append([]Val{}, p.args...), vs...), nil, nil, false)
	for _, e := range p.eb.run(st) {
		ok, by, d := false, "", "the postcondition does not return"
		if e.kind == "ret" {
			g := p.eb.term(e.st, e.ret)
			if ok, by = p.prove(e.st.pc, g); !ok {
				d = fmt.Sprintf("%s\n%s", g, p.pcText(e.st.pc))
			}
		}
		p.add("ensures", ok, by, d, false)
	}
}

func (p *Product) resultTypes(s *Stop) *types.Tuple {
	return s.st.frames[0].fn.Signature.Results()
}

// ---- loops

type leafFn func(name string, t *Term) *Term

// mapLeaves rebuilds a value with its leaf terms replaced
func (ex *Exec) mapLeaves(st *State, name string, v Val, f leafFn) Val {
	switch x := v.(type) {
	case nil:
		return nil
	case *Term:
		return f(name, x)
	case *VStruct:
		c := &VStruct{t: x.t, fs: make([]Val, len(x.fs))}
		for i := range x.fs {
			c.fs[i] = ex.mapLeaves(st, fmt.Sprintf("%s.%d", name, i), x.fs[i], f)
		}
		return c
	case *VArray:
		c := &VArray{t: x.t, es: make([]Val, len(x.es))}
		for i := range x.es {
			c.es[i] = ex.mapLeaves(st, fmt.Sprintf("%s.%d", name, i), x.es[i], f)
		}
		return c
	case *iterState:
		c := *x
		c.idx = f(name+".idx", x.idx)
		return &c
	case *VTuple:
		c := &VTuple{}
		for i := range x.vs {
			c.vs = append(c.vs, ex.mapLeaves(st, fmt.Sprintf("%s.%d", name, i), x.vs[i], f))
		}
		return c
	}
	return f(name, st.reify(ex, v))
}

// components lists what can change in a loop: the phis of its header, the local objects, the tokens
func (ex *Exec) components(st *State) ([]string, map[string]Val) {
	m := map[string]Val{}
	var names []string
	add := func(n string, v Val) {
		names = append(names, n)
		m[n] = v
	}
	f := st.top()
	for i, in := range f.block.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		add(fmt.Sprintf("phi%d", i), f.env[phi])
	}
	ids := make([]int, 0, len(st.objs))
	for id := range st.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		add(fmt.Sprintf("obj%d", id), st.objs[id].val)
	}
	add("W", st.W)
	add("X", st.X)
	return names, m
}

func (ex *Exec) setComponent(st *State, name string, v Val) {
	switch {
	case name == "W":
		st.W = v.(*Term)
	case name == "X":
		st.X = v.(*Term)
	case strings.HasPrefix(name, "phi"):
		var i int
		fmt.Sscanf(name, "phi%d", &i)
		f := st.top()
		f.env[f.block.Instrs[i].(*ssa.Phi)] = v
	default:
		var i int
		fmt.Sscanf(name, "obj%d", &i)
		o := *st.objs[i]
		o.val = v
		st.objs[i] = &o
	}
}

func (ex *Exec) same(st1 *State, v1 Val, st2 *State, v2 Val) bool {
	if v1 == nil || v2 == nil {
		return v1 == nil && v2 == nil
	}
	switch a := v1.(type) {
	case *VPtr:
		b, ok := v2.(*VPtr)
		if !ok {
			return false
		}
		if a.kind == 'L' || b.kind == 'L' {
			return a.kind == b.kind && a.obj == b.obj && fmt.Sprint(a.path) == fmt.Sprint(b.path)
		}
	case *VDyn:
		b, ok := v2.(*VDyn)
		return ok && a.obj == b.obj
	case *VMap:
		b, ok := v2.(*VMap)
		return ok && a.obj == b.obj
	case *VIter:
		b, ok := v2.(*VIter)
		return ok && a.obj == b.obj
	case *VSlice:
		b, ok := v2.(*VSlice)
		return ok && a.obj == b.obj && a.lo == b.lo && a.hi == b.hi
	case *VIface:
		b, ok := v2.(*VIface)
		return ok && types.Identical(a.t, b.t) && ex.same(st1, a.v, st2, b.v)
	case *VClosure:
		b, ok := v2.(*VClosure)
		if !ok || a.fn != b.fn {
			return false
		}
		for i := range a.binds {
			if !ex.same(st1, a.binds[i], st2, b.binds[i]) {
				return false
			}
		}
		return true
	case *VStruct:
		b, ok := v2.(*VStruct)
		if !ok || len(a.fs) != len(b.fs) {
			return false
		}
		for i := range a.fs {
			if !ex.same(st1, a.fs[i], st2, b.fs[i]) {
				return false
			}
		}
		return true
	case *VArray:
		b, ok := v2.(*VArray)
		if !ok || len(a.es) != len(b.es) {
			return false
		}
		for i := range a.es {
			if !ex.same(st1, a.es[i], st2, b.es[i]) {
				return false
			}
		}
		return true
	case *iterState:
		b, ok := v2.(*iterState)
		return ok && a.s == b.s && a.idx == b.idx
	case *Term:
		b, ok := v2.(*Term)
		return ok && a == b
	}
	return false
}

func (p *Product) cut(sa, sb *Stop) {
	p.ncut++
	rel := &relation{id: p.ncut, modA: map[string]bool{}, modB: map[string]bool{}, choice: map[string]int{}, cands: map[string][]cand{}, dropU: map[string]bool{}}
	p.rels[rel.id] = rel
	fa := sa.st.top()
	rel.label = fmt.Sprintf("loop in %s: ", fa.fn.Name())
	p.ea.flushW(sa.st)
	p.eb.flushW(sb.st)
	for attempt := 0; ; attempt++ {
		if attempt > 150 {
			fail("no loop relation found")
		}
		mark := len(p.obls)
		if p.tryCut(sa, sb, rel) {
			return
		}
		p.obls = p.obls[:mark]
	}
}

func (p *Product) tryCut(sa, sb *Stop, rel *relation) (done bool) {
	d0, e0 := p.depth, p.label
	defer func() {
		if r := recover(); r != nil {
			if rf, ok := r.(relFail); ok && rf.id == rel.id {
				p.depth, p.label = d0, e0
				done = false
				return
			}
			panic(r)
		}
	}()
	a, b := sa.st.clone(), sb.st.clone()
	for _, f := range b.pc {
		a.assume(f)
	}
	namesA, compA := p.ea.components(a)
	namesB, compB := p.eb.components(b)
	rel.compA, rel.compB, rel.stA, rel.stB = compA, compB, sa.st, sb.st
	rel.a0, rel.b0, rel.va, rel.vb = map[string]*Term{}, map[string]*Term{}, map[string]*Term{}, map[string]*Term{}
	rel.unary = nil
	var leavesA []string
	addUnary := rel.addUnary
	for _, n := range namesA {
		if !rel.modA[n] {
			continue
		}
		nv := p.ea.mapLeaves(a, n, compA[n], func(ln string, t *Term) *Term {
			v := freshVar("k", t.S)
			if t.T != nil {
				v.T = t.T
			}
			rel.a0[ln], rel.va[ln] = t, v
			leavesA = append(leavesA, ln)
			addUnary(ln, 'A', v, t)
			if ln == "W" {
				rel.addReads(p.ea, a, v, t)
			}
			return v
		})
		p.ea.setComponent(a, n, nv)
	}
	for _, n := range namesB {
		if !rel.modB[n] {
			continue
		}
		nv := p.eb.mapLeaves(b, n, compB[n], func(ln string, t *Term) *Term {
			rel.b0[ln] = t
			cs, ok := rel.cands[ln]
			if !ok || true {
				cs = p.candidates(rel, leavesA, ln, t, b.pc)
				rel.cands[ln] = cs
			}
			k := rel.choice[ln]
			if k < len(cs) {
				v := cs[k].expr(rel.va)
				rel.vb[ln] = v
				return v
			}
			v := freshVar("h", t.S)
			if t.T != nil {
				v.T = t.T
			}
			rel.vb[ln] = v
			addUnary(ln, 'B', v, t)
			return v
		})
		p.eb.setComponent(b, n, nv)
	}
	for _, u := range rel.unary {
		v := rel.va[u.leaf]
		if u.side == 'B' {
			v = rel.vb[u.leaf]
		}
		f := u.f(v)
		a.assume(f)
		b.assume(f)
	}
	p.addPairs(rel, sb.st.pc)
	for _, u := range rel.pairs {
		f := u.f(rel.at(u.x, rel.va, rel.vb), rel.at(u.y, rel.va, rel.vb))
		a.assume(f)
		b.assume(f)
	}
	ca := &Cut{id: rel.id, depth: len(a.frames) - 1, block: a.top().block}
	cb := &Cut{id: rel.id, depth: len(b.frames) - 1, block: b.top().block}
	a.cuts = append(a.cuts, ca)
	b.cuts = append(b.cuts, cb)
	p.explore(a, b)
	return true
}

func (st *State) dropCut(id int) {
	var cs []*Cut
	for _, c := range st.cuts {
		if c.id != id {
			cs = append(cs, c)
		}
	}
	st.cuts = cs
}

// cutSolo handles a loop of one side while the other side has ended
func (p *Product) cutSolo(side byte, loop, other *Stop, pc []*Term) bool {
	p.ncut++
	rel := &relation{id: p.ncut, modA: map[string]bool{}, dropU: map[string]bool{}, solo: side}
	p.rels[rel.id] = rel
	ex := p.ea
	if side == 'B' {
		ex = p.eb
	}
	rel.label = fmt.Sprintf("loop in %s: ", loop.st.top().fn.Name())
	ex.flushW(loop.st)
	mark := len(p.obls)
	for attempt := 0; attempt < 40; attempt++ {
		if p.trySolo(rel, ex, loop, other, pc) {
			for _, o := range p.obls[mark:] {
				if !o.OK {
					p.obls = p.obls[:mark]
					return false
				}
			}
			return true
		}
		p.obls = p.obls[:mark]
	}
	return false
}

func (p *Product) trySolo(rel *relation, ex *Exec, loop, other *Stop, pc []*Term) (done bool) {
	d0, e0 := p.depth, p.label
	defer func() {
		if r := recover(); r != nil {
			if rf, ok := r.(relFail); ok && rf.id == rel.id {
				p.depth, p.label = d0, e0
				done = false
				return
			}
			panic(r)
		}
	}()
	s := loop.st.clone()
	for _, f := range pc {
		s.assume(f)
	}
	names, comp := ex.components(s)
	rel.compA, rel.stA = comp, loop.st
	rel.va = map[string]*Term{}
	rel.unary = nil
	for _, n := range names {
		if !rel.modA[n] {
			continue
		}
		nv := ex.mapLeaves(s, n, comp[n], func(ln string, t *Term) *Term {
			v := freshVar("s", t.S)
			if t.T != nil {
				v.T = t.T
			}
			rel.va[ln] = v
			rel.addUnary(ln, rel.solo, v, t)
			if ln == "W" {
				rel.addReads(ex, s, v, t)
			}
			return v
		})
		ex.setComponent(s, n, nv)
	}
	for _, u := range rel.unary {
		s.assume(u.f(rel.va[u.leaf]))
	}
	s.cuts = append(s.cuts, &Cut{id: rel.id, depth: len(s.frames) - 1, block: s.top().block})
	s.pass = 1
	if rel.solo == 'B' {
		p.eb.peer = other.st.clos
	}
	s.pass = 0
	for _, ns := range ex.run(s) {
		o := *other
		o.st = other.st.clone()
		if rel.solo == 'B' {
			p.match(&o, ns, 0)
			continue
		}
		for _, f := range ns.st.pc {
			o.st.assume(f)
		}
		p.match(ns, &o, 0)
	}
	return true
}

func (p *Product) checkSolo(rel *relation, ex *Exec, s *State, pc []*Term) {
	ex.flushW(s)
	again := false
	names, nv := ex.components(s)
	for _, n := range names {
		old, ok := rel.compA[n]
		if ok && !rel.modA[n] && !ex.same(rel.stA, old, s, nv[n]) {
			rel.modA[n] = true
			again = true
		}
	}
	if again {
		panic(relFail{rel.id})
	}
	va := map[string]*Term{}
	for _, n := range names {
		if rel.modA[n] {
			ex.mapLeaves(s, n, nv[n], func(ln string, t *Term) *Term { va[ln] = t; return t })
		}
	}
	for ln := range rel.va {
		if va[ln] == nil {
			fail("the shape of a loop variable changes (%s)", ln)
		}
	}
	for _, u := range rel.unary {
		if ok, by := p.prove(pc, u.f(va[u.leaf])); ok {
			p.add(rel.label+"invariant kept", true, by, "", false)
			continue
		}
		rel.dropU[u.name] = true
		again = true
	}
	if again {
		panic(relFail{rel.id})
	}
}

// addUnary adds the invariants a changing component may have
func (rel *relation) addUnary(leaf string, side byte, v, e *Term) {
	mkU := func(k string, f func(v *Term) *Term) {
		n := fmt.Sprintf("%c %s %s", side, leaf, k)
		if !rel.dropU[n] {
			rel.unary = append(rel.unary, unaryInv{n, side, f, leaf})
		}
	}
	mkU("=", func(v *Term) *Term { return mkEq(v, e) })
	switch v.S {
	case SI:
		mkU(">=", func(v *Term) *Term { return mkLe(e, v) })
		mkU("<=", func(v *Term) *Term { return mkLe(v, e) })
	case SU:
		if e.Op == "seq" || e.Op == "smake" || e.Op == "scat" || e.Op == "sset" || e.Op == "nil" {
			mkU("len=", func(v *Term) *Term { return mkEq(App("slen", SI, v), App("slen", SI, e)) })
			if e.Op != "nil" {
				mkU("nonnil", func(v *Term) *Term { return mkNot(mkEq(v, tNil)) })
			}
		}
		if e.Op == "mput" || e.Op == "mempty" {
			mkU("nonnil", func(v *Term) *Term { return mkNot(mkEq(v, tNil)) })
		}
	}
}

// addReads adds the invariants that what was read from memory before the loop has not changed
func (rel *relation) addReads(ex *Exec, s *State, v, e *Term) {
	seen := map[*Term]bool{}
	var vals []*Term
	for _, x := range s.top().env {
		if t, ok := x.(*Term); ok && strings.HasPrefix(t.Op, "rd:") && len(t.Args) == 2 && !seen[t] && App(t.Op, t.S, e, t.Args[1]) == t {
			seen[t] = true
			vals = append(vals, t)
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].ID < vals[j].ID })
	for _, t := range vals {
		t := t
		n := fmt.Sprintf("%c W keeps %d", rel.solo, t.ID)
		if rel.solo == 0 {
			n = fmt.Sprintf("A W keeps %d", t.ID)
		}
		side := rel.solo
		if side == 0 {
			side = 'A'
		}
		if !rel.dropU[n] {
			rel.unary = append(rel.unary, unaryInv{n, side, func(v *Term) *Term { return mkEq(App(t.Op, t.S, v, t.Args[1]), t) }, "W"})
		}
	}
}

func (c cand) expr(va map[string]*Term) *Term {
	v := va[c.a]
	switch c.kind {
	case "nonnil":
		return mkNot(mkEq(v, tNil))
	case "isnil":
		return mkEq(v, tNil)
	case "not":
		return mkNot(v)
	case "arr":
		return App("arr", SU, v)
	case "aelems":
		return App("aelems", SU, v)
	case "slen":
		return mkAdd(App("slen", SI, v), mkInt(c.off))
	}
	if v.S == SI {
		return mkAdd(v, mkInt(c.off))
	}
	return v
}

// candidates lists the ways a changing component of the specification may be expressed by one of the code
func (p *Product) candidates(rel *relation, leavesA []string, ln string, t *Term, pc []*Term) []cand {
	var cs []cand
	for _, la := range leavesA {
		e := rel.a0[la]
		if e.S == t.S {
			switch t.S {
			case SI:
				d := linSub(toLin(t), toLin(e))
				if len(d.c) == 0 {
					cs = append(cs, cand{la, "eq", d.k})
				}
			default:
				if e == t {
					cs = append(cs, cand{la, "eq", 0})
				} else if t.S != SW && e.S == t.S && p.quick(pc, mkEq(e, t)) {
					cs = append(cs, cand{la, "eq", 0})
				}
			}
		}
		if t.S == SB && e.S == SU {
			if mkNot(mkEq(e, tNil)) == t {
				cs = append(cs, cand{la, "nonnil", 0})
			}
			if mkEq(e, tNil) == t {
				cs = append(cs, cand{la, "isnil", 0})
			}
		}
		if t.S == SB && e.S == SB && mkNot(e) == t {
			cs = append(cs, cand{la, "not", 0})
		}
		if t.S == SU && e.S == SU && App("arr", SU, e) == t {
			cs = append(cs, cand{la, "arr", 0})
		}
		if t.S == SU && e.S == SU && e.Op == "arr" && App("aelems", SU, e) == t {
			cs = append(cs, cand{la, "aelems", 0})
		}
		if t.S == SI && e.S == SU && (e.Op == "seq" || e.Op == "nil" || e.Op == "scat") {
			d := linSub(toLin(t), toLin(App("slen", SI, e)))
			if len(d.c) == 0 {
				cs = append(cs, cand{la, "slen", d.k})
			}
		}
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].kind != "slen" && cs[j].kind == "slen" })
	return cs
}

func (p *Product) checkRel(rel *relation, a, b *State) {
	p.ea.flushW(a)
	p.eb.flushW(b)
	pc := b.pc
	again := false
	namesA, na := p.ea.components(a)
	for _, n := range namesA {
		old, ok := rel.compA[n]
		if !ok {
			continue // an object created in the iteration
		}
		if !rel.modA[n] && !p.ea.same(rel.stA, old, a, na[n]) {
			rel.modA[n] = true
			again = true
		}
	}
	namesB, nb := p.eb.components(b)
	for _, n := range namesB {
		old, ok := rel.compB[n]
		if !ok {
			continue
		}
		if !rel.modB[n] && !p.eb.same(rel.stB, old, b, nb[n]) {
			rel.modB[n] = true
			again = true
		}
	}
	for i, f := range a.frames {
		if i < len(rel.stA.frames) && len(f.defers) != len(rel.stA.frames[i].defers) {
			fail("defer in a loop")
		}
	}
	if again {
		panic(relFail{rel.id})
	}
	// new values of the leaves
	va := map[string]*Term{}
	for _, n := range namesA {
		if rel.modA[n] {
			p.ea.mapLeaves(a, n, na[n], func(ln string, t *Term) *Term { va[ln] = t; return t })
		}
	}
	vb := map[string]*Term{}
	p.eb.peer = a.clos
	for _, n := range namesB {
		if rel.modB[n] {
			p.eb.mapLeaves(b, n, nb[n], func(ln string, t *Term) *Term { vb[ln] = t; return t })
		}
	}
	for ln := range rel.va {
		if va[ln] == nil {
			fail("the shape of a loop variable changes (%s)", ln)
		}
	}
	lns := make([]string, 0, len(rel.vb))
	for ln := range rel.vb {
		lns = append(lns, ln)
	}
	sort.Strings(lns)
	for _, ln := range lns {
		if vb[ln] == nil {
			fail("the shape of a loop variable of the specification changes (%s)", ln)
		}
		k := rel.choice[ln]
		cs := rel.cands[ln]
		if k >= len(cs) {
			continue
		}
		want := cs[k].expr(va)
		if want.S == vb[ln].S {
			if ok, by := p.prove(pc, mkEq(want, vb[ln])); ok {
				p.add(rel.label+"relation kept", true, by, "", ln == "X")
				continue
			}
		}
		if debugRel {
			fmt.Printf("  rel %d: %s choice %d fails: code %s spec %s\n", rel.id, ln, k, want, vb[ln])
		}
		rel.choice[ln]++
		again = true
	}
	for _, u := range rel.unary {
		v := va[u.leaf]
		if u.side == 'B' {
			v = vb[u.leaf]
		}
		if ok, by := p.prove(pc, u.f(v)); ok {
			p.add(rel.label+"invariant kept", true, by, "", false)
			continue
		}
		rel.dropU[u.name] = true
		again = true
	}
	for _, u := range rel.pairs {
		if ok, by := p.prove(pc, u.f(rel.at(u.x, va, vb), rel.at(u.y, va, vb))); ok {
			p.add(rel.label+"invariant kept", true, by, "", false)
			continue
		}
		rel.dropU[u.name] = true
		again = true
	}
	if again {
		panic(relFail{rel.id})
	}
}

var debugRel = false

// ---- closures

// equalClosures proves that two closures have the same effect and result for every argument in every world
func (p *Product) equalClosures(u *closureUse, stB *State, cb *VClosure) bool {
	ca := u.clo
	sa, sb := ca.fn.Signature, cb.fn.Signature
	if !types.Identical(sa.Params(), sb.Params()) || !types.Identical(sa.Results(), sb.Results()) {
		return false
	}
	tb := App("clo:"+cb.fn.String(), SU, p.bindTerms(p.eb, stB, cb)...)
	key := fmt.Sprintf("%d|%d", u.term.ID, tb.ID)
	if r, ok := p.cloMemo[key]; ok {
		return r
	}
	if p.cloBusy[key] {
		// A closure that passes itself on: equal closures are a greatest fixed point, so the pair may be assumed while it
		// is being compared. When the comparison fails then what was concluded from the assumption is forgotten.
		p.cloAssumed = true
		return true
	}
	before := map[string]bool{}
	for k := range p.cloMemo {
		before[k] = true
	}
	p.cloBusy[key] = true
	defer delete(p.cloBusy, key)
	mark := len(p.obls)
	old := *p
	savedPeer := p.eb.peer
	a, b := u.st.clone(), stB.clone()
	for _, f := range b.pc {
		a.assume(f)
	}
	for _, f := range a.pc {
		b.assume(f)
	}
	w, x := freshVar("Wc", SW), freshVar("Xc", SW)
	for _, s := range []*State{a, b} {
		s.frames, s.cuts, s.pend, s.pass = nil, nil, nil, 0
		s.heap = map[string][]heapWrite{}
		s.W, s.X = w, x
		s.clos = nil
	}
	var args []Val
	for i := 0; i < sa.Params().Len(); i++ {
		t := sa.Params().At(i).Type()
		v := typed(freshVar("arg", sortOf(t)), t)
		if p.w.nonNil[typeKey(t)] && v.S == SU {
			v.nonNil = true
			a.assume(mkNot(mkEq(v, tNil)))
			b.assume(mkNot(mkEq(v, tNil)))
		}
		args = append(args, fromTerm(v, t))
	}
	for i := 0; i < len(ca.binds); i++ {
		if pt, ok := ca.binds[i].(*VPtr); ok && pt.kind == 'L' && closureWrites(ca.fn, i) {
			return false
		}
	}
	for i := 0; i < len(cb.binds); i++ {
		if pt, ok := cb.binds[i].(*VPtr); ok && pt.kind == 'L' && closureWrites(cb.fn, i) {
			return false
		}
	}
	p.ea.pushFrame(a, ca.fn, args, ca.binds, nil, false)
	p.eb.pushFrame(b, cb.fn, args, cb.binds, nil, false)
	p.closure = true
	p.label = old.label + "closure " + ca.fn.Name() + ": "
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if us, is := r.(unsupported); is {
					if debugRel {
						fmt.Println("closure:", us.msg)
					}
					p.depth = old.depth
					ok = false
					return
				}
				panic(r)
			}
		}()
		p.explore(a, b)
		return true
	}()
	p.closure, p.label = old.closure, old.label
	p.eb.peer = savedPeer
	for _, o := range p.obls[mark:] {
		if !o.OK {
			ok = false
			if debugRel {
				fmt.Println("closure obligation fails:", o.Name, o.Detail)
			}
		}
	}
	if !ok {
		p.obls = p.obls[:mark]
	}
	if !ok && p.cloAssumed {
		for k := range p.cloMemo {
			if !before[k] {
				delete(p.cloMemo, k)
			}
		}
	}
	p.cloMemo[key] = ok
	return ok
}

func (p *Product) bindTerms(ex *Exec, st *State, c *VClosure) []*Term {
	as := make([]*Term, len(c.binds))
	for i, b := range c.binds {
		as[i] = (&reifier{st: st, ex: ex, raw: true}).reify(b)
	}
	return as
}

// ---- one contract

type Result struct {
	C      *Contract
	Obls   []*Obligation
	Err    string
	Millis int64
	Unfold int // how deep the contracts of callees were replaced by their specifications
}

// retryUntil limits the time that is spent on unfolding the callees of functions whose contract fails
var retryUntil time.Time

func verify(w *World, pr *Prover, c *Contract, limit time.Duration) *Result {
	r := verifyUnfolded(w, pr, c, limit, 0)
	if r.ok() || c.Broken != "" {
		return r
	}
	for n := 1; n <= 3 && time.Now().Before(retryUntil); n++ {
		if x := verifyUnfolded(w, pr, c, limit/3, n); x.ok() {
			x.Millis += r.Millis
			x.Unfold = n
			return x
		}
	}
	return r
}

func (r *Result) ok() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if !o.OK {
			return false
		}
	}
	return true
}

func verifyUnfolded(w *World, pr *Prover, c *Contract, limit time.Duration, unfold int) (res *Result) {
	t0 := time.Now()
	res = &Result{C: c}
	if c.Broken != "" {
		res.Err = "the specification does not apply any more: " + c.Broken
		return
	}
	p := &Product{w: w, pr: pr, c: c, rels: map[int]*relation{}, cloMemo: map[string]bool{}, cloBusy: map[string]bool{}, deadline: t0.Add(limit)}
	p.ea, p.eb = newExec(w, pr), newExec(w, pr)
	p.ea.side, p.eb.side = 'A', 'B'
	p.ea.unfold, p.eb.unfold = unfold, unfold
	p.ea.prod, p.eb.prod = p, p
	p.ea.top, p.eb.top = c.Fn, c.Fn
	defer func() {
		res.Obls = p.obls
		res.Millis = time.Since(t0).Milliseconds()
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.Err = e.msg
			case relFail:
				res.Err = "loop relation"
			default:
				panic(r)
			}
		} else if res.Err == "" && !p.reached {
			res.Err = "vacuous: no path of the code and the specification can be executed"
		}
	}()
	if len(c.Fn.Params) != len(c.Spec.Params) {
		res.Err = "the parameters of the function under contract changed"
		return
	}
	a, b := newState(), newState()
	p.w0, p.x0 = a.W, a.X
	var args []Val
	for i, prm := range c.Fn.Params {
		t := prm.Type()
		if !types.Identical(t, c.Spec.Params[i].Type()) {
			res.Err = "the parameter types of the function under contract changed"
			return
		}
		if isBufPtr(t) {
			// the buffer is not shared with anything else the function can reach
			el := t.Underlying().(*types.Pointer).Elem()
			cv := mkVar(fmt.Sprintf("p%d:%s", i, c.Spec.Params[i].Name()), SS)
			ida, idb := a.newObj(cv, el, "buffer"), b.newObj(cv, el, "buffer")
			args = append(args, &VPtr{kind: 'L', obj: ida, t: el})
			if ida != idb {
				fail("buffers")
			}
			continue
		}
		v := typed(mkVar(fmt.Sprintf("p%d:%s", i, c.Spec.Params[i].Name()), sortOf(t)), t)
		if i == 0 && c.Fn.Signature.Recv() != nil || w.nonNil[typeKey(t)] {
			v.nonNil = true
			if v.S == SU {
				nn := mkNot(mkEq(v, tNil))
				a.assume(nn)
				b.assume(nn)
			}
		}
		args = append(args, fromTerm(v, t))
	}
	if !types.Identical(c.Fn.Signature.Results(), c.Spec.Signature.Results()) && !sameResults(c.Fn.Signature.Results(), c.Spec.Signature.Results()) {
		res.Err = "the results of the function under contract changed"
		return
	}
	p.args = args
	p.ea.pushFrame(a, c.Fn, args, nil, nil, false)
	p.eb.pushFrame(b, c.Spec, args, nil, nil, false)
	p.explore(a, b)
	return
}

func sameResults(a, b *types.Tuple) bool {
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if !types.Identical(a.At(i).Type(), b.At(i).Type()) {
			return false
		}
	}
	return true
}
