package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Sorts: B bool, I mathematical integer, S string, U universal (references, interfaces, sequences, maps, functions), W world tokens
type Sort byte

const (
	SB Sort = 'B'
	SI Sort = 'I'
	SS Sort = 'S'
	SU Sort = 'U'
	SW Sort = 'W'
)

// Term is a hash-consed term of the logic
type Term struct {
	Op     string
	Args   []*Term
	S      Sort
	ID     int
	I      int64
	Str    string
	T      types.Type // static Go type when known (interfaces); informative, same for equal terms
	never  bool       // never nil
	nonNil bool       // known not to be nil by an assumption about its type
}

type termTable struct {
	m map[string]*Term
	n int
}

var tt = &termTable{m: map[string]*Term{}}

func mk(op string, s Sort, i int64, str string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteByte(byte(s))
	if op == "int" {
		b.WriteString(strconv.FormatInt(i, 10))
	} else if str != "" {
		b.WriteString(str)
	}
	for _, a := range args {
		b.WriteByte(1)
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.n++
	t := &Term{Op: op, Args: args, S: s, ID: tt.n, I: i, Str: str}
	tt.m[k] = t
	return t
}

var tTrue, tFalse, tNil *Term

func initTerms() {
	tTrue = mk("true", SB, 0, "")
	tFalse = mk("false", SB, 0, "")
	tNil = mk("nil", SU, 0, "")
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(i int64) *Term  { return mk("int", SI, i, "") }
func mkStr(s string) *Term { return mk("str", SS, 0, "\""+s) }
func (t *Term) strLit() string {
	return t.Str[1:]
}
func (t *Term) isStr() bool { return t.Op == "str" }
func (t *Term) isInt() bool { return t.Op == "int" }
func (t *Term) isLit() bool {
	switch t.Op {
	case "int", "str", "true", "false", "nil":
		return true
	}
	return false
}

var varCount = map[string]int{}

func mkVar(name string, s Sort) *Term { return mk("var", s, 0, name) }

func freshVar(prefix string, s Sort) *Term {
	varCount[prefix]++
	return mkVar(fmt.Sprintf("%s!%d", prefix, varCount[prefix]), s)
}

// ctor ops build non-nil values
func isCtor(t *Term) bool {
	op := t.Op
	return strings.HasPrefix(op, "box:") || strings.HasPrefix(op, "new:") || strings.HasPrefix(op, "clo:") || strings.HasPrefix(op, "fn:") || strings.HasPrefix(op, "addr:") ||
		op == "vfString" || op == "vfInt" || op == "vfBool" || op == "vfFloat" || op == "arr" || op == "mput" || op == "mempty" || op == "mputall" || op == "vfNil" || op == "mmerge" || op == "mwithout" ||
		op == "rterr" || op == "fmt.Errorf" || op == "errors.New" || strings.HasSuffix(op, "#pv") || strings.HasPrefix(op, "glob:") || op == "mentry" || op == "garr"
}

func mkNot(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return mk("not", SB, 0, "", a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == tFalse {
			return tFalse
		}
		if a == tTrue || seen[a] {
			continue
		}
		if a.Op == "and" {
			for _, b := range a.Args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[mkNot(a)] {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk("and", SB, 0, "", out...)
}

func mkOr(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = mkNot(a)
	}
	r := mkAnd(ns...)
	return mkNot(r)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.Op == "not" {
		return mkIte(c.Args[0], b, a)
	}
	if a.S == SB {
		return mkAnd(mkOr(mkNot(c), a), mkOr(c, b))
	}
	return mk("ite", a.S, 0, "", c, a, b)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.S != b.S {
		panic(fmt.Sprintf("mkEq sort mismatch %s:%c %s:%c", a, a.S, b, b.S))
	}
	if a.isLit() && b.isLit() {
		return tFalse
	}
	if a.S == SB {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	}
	if a.S == SI {
		d := linSub(toLin(a), toLin(b))
		if len(d.c) == 0 {
			return mkBool(d.k == 0)
		}
	}
	if a.S == SU {
		if a == tNil && b.never || b == tNil && a.never {
			return tFalse
		}
		ca, cb := isCtor(a), isCtor(b)
		if (a == tNil && cb) || (b == tNil && ca) {
			return tFalse
		}
		if ca && cb {
			if strings.HasPrefix(a.Op, "box:") && strings.HasPrefix(b.Op, "box:") {
				if a.Op == b.Op {
					return mkEq(a.Args[0], b.Args[0])
				}
				return tFalse
			}
			if a.Op == "vfString" && b.Op == "vfString" {
				return mkEq(a.Args[0], b.Args[0])
			}
		}
		if (strings.HasPrefix(a.Op, "ite")) && b == tNil && isCtor(a.Args[1]) && a.Args[2] == tNil {
			return mkNot(a.Args[0])
		}
		if a.Op == "seq" && b.Op == "seq" {
			if len(a.Args) != len(b.Args) {
				return tFalse
			}
			var es []*Term
			for i := range a.Args {
				if a.Args[i].S != b.Args[i].S {
					return tFalse
				}
				es = append(es, mkEq(a.Args[i], b.Args[i]))
			}
			return mkAnd(es...)
		}
		if strings.HasPrefix(a.Op, "struct:") && a.Op == b.Op {
			var es []*Term
			for i := range a.Args {
				es = append(es, mkEq(a.Args[i], b.Args[i]))
			}
			return mkAnd(es...)
		}
	}
	if a.S == SU {
		// a value in an interface equals x when x holds a value of that type which is equal
		x, y := a, b
		if strings.HasPrefix(x.Op, "box:") {
			x, y = y, x
		}
		if strings.HasPrefix(y.Op, "box:") && len(y.Args) == 1 && !isCtor(x) && !strings.HasPrefix(x.Op, "ite") {
			t := strings.TrimPrefix(y.Op, "box:")
			return mkAnd(App("ty:"+t, SB, x), mkEq(App("unbox:"+t, y.Args[0].S, x), y.Args[0]))
		}
	}
	if a.Op == "ite" {
		if x, y := mkEqLit(a.Args[1], b), mkEqLit(a.Args[2], b); x != nil && y != nil {
			return mkIte(a.Args[0], x, y)
		}
	}
	if b.Op == "ite" {
		if x, y := mkEqLit(b.Args[1], a), mkEqLit(b.Args[2], a); x != nil && y != nil {
			return mkIte(b.Args[0], x, y)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", SB, 0, "", a, b)
}

// mkEqLit returns the truth value of a = b if it is known syntactically, otherwise nil
func mkEqLit(a, b *Term) *Term {
	e := mkEq(a, b)
	if e == tTrue || e == tFalse {
		return e
	}
	return nil
}

// linear integer normal form
type lin struct {
	c map[*Term]int64
	k int64
}

func toLin(t *Term) lin {
	switch t.Op {
	case "int":
		return lin{k: t.I}
	case "lin":
		l := lin{c: map[*Term]int64{}, k: t.I}
		cs := strings.Split(t.Str, ",")
		l.k, _ = strconv.ParseInt(cs[0], 10, 64)
		for i, a := range t.Args {
			v, _ := strconv.ParseInt(cs[i+1], 10, 64)
			l.c[a] = v
		}
		return l
	}
	return lin{c: map[*Term]int64{t: 1}}
}

func linComb(a lin, f int64, b lin) lin {
	r := lin{c: map[*Term]int64{}, k: a.k + f*b.k}
	for t, v := range a.c {
		r.c[t] += v
	}
	for t, v := range b.c {
		r.c[t] += f * v
	}
	for t, v := range r.c {
		if v == 0 {
			delete(r.c, t)
		}
	}
	return r
}
func linSub(a, b lin) lin { return linComb(a, -1, b) }

func fromLin(l lin) *Term {
	if len(l.c) == 0 {
		return mkInt(l.k)
	}
	ts := make([]*Term, 0, len(l.c))
	for t := range l.c {
		ts = append(ts, t)
	}
	if len(ts) == 1 && l.k == 0 && l.c[ts[0]] == 1 {
		return ts[0]
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	s := strconv.FormatInt(l.k, 10)
	for _, t := range ts {
		s += "," + strconv.FormatInt(l.c[t], 10)
	}
	return mk("lin", SI, 0, s, ts...)
}

func mkAdd(a, b *Term) *Term { return fromLin(linComb(toLin(a), 1, toLin(b))) }
func mkSub(a, b *Term) *Term { return fromLin(linComb(toLin(a), -1, toLin(b))) }
func mkMul(a, b *Term) *Term {
	if a.isInt() {
		return fromLin(linComb(lin{}, a.I, toLin(b)))
	}
	if b.isInt() {
		return fromLin(linComb(lin{}, b.I, toLin(a)))
	}
	return App("mul", SI, a, b)
}

func nonNeg(t *Term) bool {
	switch t.Op {
	case "int":
		return t.I >= 0
	case "slen", "alen", "mlen", "str.len", "runeW":
		return true
	}
	return false
}

// mkLe builds a <= b
func mkLe(a, b *Term) *Term {
	d := linSub(toLin(b), toLin(a)) // >= 0 ?
	if len(d.c) == 0 {
		return mkBool(d.k >= 0)
	}
	allPos, allNeg := true, true
	for t, v := range d.c {
		if !(v > 0 && nonNeg(t)) {
			allPos = false
		}
		if !(v < 0 && nonNeg(t)) {
			allNeg = false
		}
	}
	if allPos && d.k >= 0 {
		return tTrue
	}
	if allNeg && d.k < 0 {
		return tFalse
	}
	// canonical orientation: 0 <= d  or not (0 <= -d-1)
	return canonLe(d)
}

func canonLe(d lin) *Term {
	// choose the sign by the smallest term id
	var m *Term
	for t := range d.c {
		if m == nil || t.ID < m.ID {
			m = t
		}
	}
	if d.c[m] < 0 {
		// 0 <= d  <=> not (d <= -1) <=> not (0 <= -d-1)
		n := linComb(lin{k: -1}, -1, d)
		return mkNot(mk("le0", SB, 0, "", fromLin(n)))
	}
	return mk("le0", SB, 0, "", fromLin(d))
}
func mkLt(a, b *Term) *Term { return mkLe(mkAdd(a, mkInt(1)), b) }

// App builds an application of an uninterpreted or theory symbol, simplifying where a rule applies
func App(op string, s Sort, args ...*Term) *Term {
	if r := rewrite(op, s, args); r != nil {
		return r
	}
	return mk(op, s, 0, "", args...)
}

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, 0)
	return b.String()
}

func (t *Term) write(b *strings.Builder, d int) {
	switch t.Op {
	case "int":
		fmt.Fprintf(b, "%d", t.I)
		return
	case "str":
		fmt.Fprintf(b, "%q", t.strLit())
		return
	case "var":
		b.WriteString(t.Str)
		return
	case "lin":
		l := toLin(t)
		b.WriteString("(")
		for i, a := range t.Args {
			if i > 0 {
				b.WriteString(" + ")
			}
			if l.c[a] != 1 {
				fmt.Fprintf(b, "%d*", l.c[a])
			}
			a.write(b, d+1)
		}
		if l.k != 0 {
			fmt.Fprintf(b, " + %d", l.k)
		}
		b.WriteString(")")
		return
	}
	if b.Len() > 6000 {
		b.WriteString("…")
		return
	}
	b.WriteString(shortOp(t.Op))
	if len(t.Args) == 0 {
		return
	}
	b.WriteString("(")
	for i, a := range t.Args {
		if i > 0 {
			b.WriteString(", ")
		}
		a.write(b, d+1)
	}
	b.WriteString(")")
}

func shortOp(op string) string {
	op = strings.ReplaceAll(op, "github.com/lyraproj/hiera/", "")
	op = strings.ReplaceAll(op, "github.com/lyraproj/", "")
	return op
}

// subterms visits every distinct subterm
func subterms(roots []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		f(t)
	}
	for _, r := range roots {
		rec(r)
	}
}

// subst replaces variables by terms, rebuilding with simplification
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		as[i] = subst(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "not":
		return mkNot(as[0])
	case "and":
		return mkAnd(as...)
	case "=":
		return mkEq(as[0], as[1])
	case "ite":
		return mkIte(as[0], as[1], as[2])
	case "lin":
		l := toLin(t)
		r := lin{k: l.k}
		for i, a := range t.Args {
			r = linComb(r, l.c[a], toLin(as[i]))
		}
		return fromLin(r)
	case "le0":
		return mkLe(mkInt(0), as[0])
	}
	r := App(t.Op, t.S, as...)
	if r.T == nil {
		r.T = t.T
	}
	return r
}
