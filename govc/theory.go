package main

import (
	"path/filepath"
	"strconv"
	"strings"
)

// hooks installed by the loader
var implHook = func(op string, x *Term) *Term { return nil }
var stableField = func(key string) bool { return false }

// rewrite implements the theory of sequences, dgo values, boxes, structs and heap tokens as simplification rules. It
// returns nil when no rule applies.
func rewrite(op string, s Sort, a []*Term) *Term {
	switch op {
	case "slen":
		x := a[0]
		switch x.Op {
		case "nil":
			return mkInt(0)
		case "seq":
			return mkInt(int64(len(x.Args)))
		case "scat":
			return mkAdd(App("slen", SI, x.Args[0]), App("slen", SI, x.Args[1]))
		case "sset":
			return App("slen", SI, x.Args[0])
		case "ssub":
			return mkSub(x.Args[2], x.Args[1])
		case "smake":
			return x.Args[0]
		case "aelems":
			return App("alen", SI, x.Args[0])
		case "vfvals":
			return App("slen", SI, x.Args[0])
		case "ite":
			return mkIte(x.Args[0], App(op, s, x.Args[1]), App(op, s, x.Args[2]))
		}
	case "sat":
		x, i := a[0], a[1]
		switch x.Op {
		case "seq":
			if i.isInt() && i.I >= 0 && int(i.I) < len(x.Args) && x.Args[i.I].S == s {
				return x.Args[i.I]
			}
		case "sset":
			e := mkEq(x.Args[1], i)
			if e == tTrue {
				return x.Args[2]
			}
			rest := App("sat", s, x.Args[0], i)
			if e == tFalse {
				return rest
			}
			if x.Args[2].S == s {
				return mkIte(e, x.Args[2], rest)
			}
		case "scat":
			n := App("slen", SI, x.Args[0])
			c := mkLt(i, n)
			if c == tTrue {
				return App("sat", s, x.Args[0], i)
			}
			r := App("sat", s, x.Args[1], mkSub(i, n))
			if c == tFalse {
				return r
			}
			return mkIte(c, App("sat", s, x.Args[0], i), r)
		case "ssub":
			return App("sat", s, x.Args[0], mkAdd(x.Args[1], i))
		case "aelems":
			return App("aget", s, x.Args[0], i)
		case "smake":
			if x.Args[1].S == s {
				return x.Args[1]
			}
		}
	case "sset":
		x, i, v := a[0], a[1], a[2]
		if x.Op == "seq" && i.isInt() && i.I >= 0 && int(i.I) < len(x.Args) {
			as := append([]*Term(nil), x.Args...)
			as[i.I] = v
			return mk("seq", SU, 0, "", as...)
		}
		if x.Op == "sset" && x.Args[1] == i {
			return App("sset", SU, x.Args[0], i, v)
		}
	case "scat":
		x, y := a[0], a[1]
		if y.Op == "nil" || (y.Op == "seq" && len(y.Args) == 0) {
			return x
		}
		if x.Op == "nil" && y.Op == "seq" {
			return y
		}
		if x.Op == "seq" && y.Op == "seq" {
			return mk("seq", SU, 0, "", append(append([]*Term(nil), x.Args...), y.Args...)...)
		}
		if x.Op == "scat" && x.Args[1].Op == "seq" && y.Op == "seq" {
			return App("scat", SU, x.Args[0], App("scat", SU, x.Args[1], y))
		}
		if y.Op == "scat" {
			return App("scat", SU, App("scat", SU, x, y.Args[0]), y.Args[1])
		}
	case "ssub":
		x, lo, hi := a[0], a[1], a[2]
		if lo.isInt() && lo.I == 0 && mkEq(hi, App("slen", SI, x)) == tTrue {
			return x
		}
		if x.Op == "seq" && lo.isInt() && hi.isInt() && 0 <= lo.I && lo.I <= hi.I && int(hi.I) <= len(x.Args) {
			return mk("seq", SU, 0, "", x.Args[lo.I:hi.I]...)
		}
		if lo == hi && (x.Op == "smake" || x.Op == "sset" || x.Op == "seq") {
			return mk("seq", SU, 0, "")
		}
		if x.Op == "ssub" {
			return App("ssub", SU, x.Args[0], mkAdd(x.Args[1], lo), mkAdd(x.Args[1], hi))
		}
		if x.Op == "scat" {
			n := App("slen", SI, x.Args[0])
			if lo.isInt() && lo.I == 0 {
				if d := linSub(toLin(hi), toLin(n)); len(d.c) == 0 {
					if d.k <= 0 {
						return App("ssub", SU, x.Args[0], lo, hi)
					}
					if x.Args[1].Op == "seq" && int(d.k) <= len(x.Args[1].Args) {
						return App("scat", SU, x.Args[0], mk("seq", SU, 0, "", x.Args[1].Args[:d.k]...))
					}
				}
			}
		}
	case "alen":
		x := a[0]
		switch x.Op {
		case "arr":
			return App("slen", SI, x.Args[0])
		case "ite":
			return mkIte(x.Args[0], App(op, s, x.Args[1]), App(op, s, x.Args[2]))
		}
	case "aget":
		if a[0].Op == "arr" {
			return App("sat", s, a[0].Args[0], a[1])
		}
	case "aelems":
		if a[0].Op == "arr" {
			return a[0].Args[0]
		}
	case "arr":
		if a[0].Op == "aelems" {
			// an array with the elements of another array: equal content, kept distinct
			return nil
		}
		if a[0] == tNil {
			return mk("arr", SU, 0, "", mk("seq", SU, 0, ""))
		}
	case "mget":
		m, k := a[0], a[1]
		switch m.Op {
		case "mempty":
			return tNil
		case "mput":
			e := mkEq(m.Args[1], k)
			if e == tTrue {
				return m.Args[2]
			}
			rest := App("mget", SU, m.Args[0], k)
			if e == tFalse {
				return rest
			}
			return mkIte(e, m.Args[2], rest)
		}
	case "mhas":
		m, k := a[0], a[1]
		switch m.Op {
		case "mempty":
			return tFalse
		case "mput":
			return mkOr(mkEq(m.Args[1], k), App("mhas", SB, m.Args[0], k))
		}
	case "mlen":
		switch a[0].Op {
		case "mempty":
			return mkInt(0)
		case "mput":
			if a[0].Args[0].Op == "mempty" {
				return mkInt(1)
			}
		}
	case "mput":
		if a[0].Op == "mput" && a[0].Args[1] == a[1] {
			return App("mput", SU, a[0].Args[0], a[1], a[2])
		}
	case "gput": // Go map write: entries with known keys are in the order of their keys
		if m := a[0]; m.Op == "gput" {
			if m.Args[1] == a[1] {
				return App("gput", SU, m.Args[0], a[1], a[2])
			}
			if m.Args[1].isLit() && a[1].isLit() && a[1].S == m.Args[1].S && a[1].String() < m.Args[1].String() {
				return App("gput", SU, App("gput", SU, m.Args[0], a[1], a[2]), m.Args[1], m.Args[2])
			}
		}
	case "gget": // Go map read
		m, k := a[0], a[1]
		switch m.Op {
		case "gput":
			e := mkEq(m.Args[1], k)
			if e == tTrue {
				return m.Args[2]
			}
			rest := App("gget", s, m.Args[0], k)
			if e == tFalse {
				return rest
			}
			return mkIte(e, m.Args[2], rest)
		}
	case "ghas":
		m, k := a[0], a[1]
		switch m.Op {
		case "gempty", "nil":
			return tFalse
		case "gput":
			return mkOr(mkEq(m.Args[1], k), App("ghas", SB, m.Args[0], k))
		}
	case "glen":
		switch a[0].Op {
		case "gempty", "nil":
			return mkInt(0)
		}
	case "·String", "·GoString":
		if a[0].Op == "vfString" {
			return a[0].Args[0]
		}
		if op == "·GoString" {
			return App("·String", SS, a...)
		}
	case "·GoInt", "·GoBool":
		if a[0].Op == "vfInt" || a[0].Op == "vfBool" {
			if a[0].Args[0].S == s {
				return a[0].Args[0]
			}
		}
	case "·Key":
		if a[0].Op == "mentry" {
			return App("mkey", SU, a[0].Args[0], a[0].Args[1])
		}
	case "·Value":
		if a[0].Op == "mentry" {
			return App("mval", SU, a[0].Args[0], a[0].Args[1])
		}
	case "deq":
		if a[0] == a[1] {
			return tTrue
		}
		if a[0].Op == "vfString" && a[1].Op == "vfString" {
			return mkEq(a[0].Args[0], a[1].Args[0])
		}
		if a[0].ID > a[1].ID {
			return App(op, s, a[1], a[0]) // the equality of values is symmetric
		}
	case "(error).Error":
		switch {
		case a[0].Op == "errors.New" && len(a[0].Args) == 1:
			return a[0].Args[0]
		case a[0].Op == "fmt.Errorf" && len(a[0].Args) == 2 && a[0].Args[0].Op == "str" && !strings.Contains(a[0].Args[0].strLit(), "%w"):
			return sprintf(a[0].Args[0], a[0].Args[1])
		}
	case "vfValue":
		if n := normBox(a[0]); n != nil {
			return n
		}
	case "vfvals":
		if a[0].Op == "seq" {
			as := make([]*Term, len(a[0].Args))
			for i, e := range a[0].Args {
				as[i] = App("vfValue", SU, e)
			}
			return mk("seq", SU, 0, "", as...)
		}
		if a[0].Op == "scat" {
			return App("scat", SU, App("vfvals", SU, a[0].Args[0]), App("vfvals", SU, a[0].Args[1]))
		}
		if a[0].Op == "vfvals" || a[0].Op == "aelems" {
			return a[0]
		}
	case "str.len":
		x := a[0]
		if x.isStr() {
			return mkInt(int64(len(x.strLit())))
		}
		if x.Op == "str.++" {
			r := mkInt(0)
			for _, e := range x.Args {
				r = mkAdd(r, App("str.len", SI, e))
			}
			return r
		}
	case "str.++":
		var out []*Term
		for _, x := range a {
			xs := []*Term{x}
			if x.Op == "str.++" {
				xs = x.Args
			}
			for _, y := range xs {
				if y.isStr() && y.strLit() == "" {
					continue
				}
				if n := len(out); n > 0 && y.isStr() && out[n-1].isStr() {
					out[n-1] = mkStr(out[n-1].strLit() + y.strLit())
					continue
				}
				out = append(out, y)
			}
		}
		switch len(out) {
		case 0:
			return mkStr("")
		case 1:
			return out[0]
		}
		return mk("str.++", SS, 0, "", out...)
	case "substr":
		x, lo, hi := a[0], a[1], a[2]
		if lo.isInt() && lo.I == 0 && mkEq(hi, App("str.len", SI, x)) == tTrue {
			return x
		}
		if x.isStr() && lo.isInt() && hi.isInt() && 0 <= lo.I && lo.I <= hi.I && int(hi.I) <= len(x.strLit()) {
			return mkStr(x.strLit()[lo.I:hi.I])
		}
		if x.Op == "substr" {
			return App("substr", SS, x.Args[0], mkAdd(x.Args[1], lo), mkAdd(x.Args[1], hi))
		}
		if mkEq(lo, hi) == tTrue {
			return mkStr("")
		}
	case "byteAt":
		if a[0].isStr() && a[1].isInt() && 0 <= a[1].I && int(a[1].I) < len(a[0].strLit()) {
			return mkInt(int64(a[0].strLit()[a[1].I]))
		}
	case "str.prefixof":
		if a[0].isStr() && a[1].isStr() {
			return mkBool(strings.HasPrefix(a[1].strLit(), a[0].strLit()))
		}
	case "str.suffixof":
		if a[0].isStr() && a[1].isStr() {
			return mkBool(strings.HasSuffix(a[1].strLit(), a[0].strLit()))
		}
	case "str.contains":
		if a[0].isStr() && a[1].isStr() {
			return mkBool(strings.Contains(a[0].strLit(), a[1].strLit()))
		}
	case "str.indexof":
		if a[0].isStr() && a[1].isStr() {
			return mkInt(int64(strings.Index(a[0].strLit(), a[1].strLit())))
		}
	case "str.join":
		// path/filepath join of literal parts
		if a[0].Op == "seq" {
			ok := true
			var ps []string
			for _, e := range a[0].Args {
				if !e.isStr() {
					ok = false
					break
				}
				ps = append(ps, e.strLit())
			}
			if ok {
				return mkStr(filepath.Join(ps...))
			}
		}
	}
	if strings.HasPrefix(op, "unbox:") {
		if a[0].Op == op[2:] {
			return a[0].Args[0]
		}
		if a[0].Op == "ite" {
			x, y := rewrite(op, s, []*Term{a[0].Args[1]}), rewrite(op, s, []*Term{a[0].Args[2]})
			if x != nil && y != nil {
				return mkIte(a[0].Args[0], x, y)
			}
		}
		return nil
	}
	if strings.HasPrefix(op, "impl:") || strings.HasPrefix(op, "ty:") {
		if a[0] == tNil {
			return tFalse
		}
		if a[0].Op == "ite" {
			return mkIte(a[0].Args[0], App(op, SB, a[0].Args[1]), App(op, SB, a[0].Args[2]))
		}
		return implHook(op, a[0])
	}
	if strings.HasPrefix(op, "fld:") {
		// fld:T#i
		h := strings.LastIndexByte(op, '#')
		if a[0].Op == "struct:"+op[4:h] {
			i, _ := strconv.Atoi(op[h+1:])
			return a[0].Args[i]
		}
		return nil
	}
	if strings.HasPrefix(op, "rf:") {
		// rf:T.f#i(ref): immutable field
		h := strings.LastIndexByte(op, '#')
		d := strings.LastIndexByte(op[:h], '.')
		if strings.HasPrefix(a[0].Op, "new:") && a[0].Op[4:] == op[3:d] && len(a[0].Args) == 1 && strings.HasPrefix(a[0].Args[0].Op, "struct:") {
			i, _ := strconv.Atoi(op[h+1:])
			if i < len(a[0].Args[0].Args) && a[0].Args[0].Args[i].S == s {
				return a[0].Args[0].Args[i]
			}
		}
		return nil
	}
	if strings.HasPrefix(op, "wr:") {
		if w := a[0]; strings.HasPrefix(w.Op, "wr:") {
			if w.Op == op && w.Args[1] == a[1] {
				return App(op, s, w.Args[0], a[1], a[2])
			}
			if op < w.Op { // writes of different fields are in the order of the names of the fields
				return App(w.Op, s, App(op, s, w.Args[0], a[1], a[2]), w.Args[1], w.Args[2])
			}
		}
		return nil
	}
	if strings.HasPrefix(op, "rd:") {
		// rd:T.f(W, ref)
		w, ref := a[0], a[1]
		key := op[3:]
		switch {
		case strings.HasPrefix(w.Op, "wr:"):
			if w.Op[3:] == key {
				e := mkEq(w.Args[1], ref)
				if e == tTrue {
					return w.Args[2]
				}
				rest := App(op, s, w.Args[0], ref)
				if e == tFalse {
					return rest
				}
				if w.Args[2].S == s {
					return mkIte(e, w.Args[2], rest)
				}
				return nil
			}
			return App(op, s, w.Args[0], ref)
		case strings.HasSuffix(w.Op, "#W") && stableField(key):
			return App(op, s, w.Args[0], ref)
		case strings.HasSuffix(w.Op, "#gW"):
			return App(op, s, w.Args[0], ref)
		}
		return nil
	}
	return nil
}

// normBox returns the dgo value that vf.Value yields for a boxed Go value, or nil if it is not known syntactically
func normBox(x *Term) *Term {
	switch x.Op {
	case "nil":
		return mk("vfNil", SU, 0, "")
	case "box:string":
		return App("vfString", SU, x.Args[0])
	case "box:int", "box:int64":
		return App("vfInt", SU, x.Args[0])
	case "box:bool":
		return App("vfBool", SU, x.Args[0])
	case "vfString", "vfInt", "vfBool", "vfNil", "arr", "mput", "mempty", "mputall", "mmerge", "mwithout", "vfValue", "mval", "mkey", "aget", "mget":
		if x.Op == "mget" || x.Op == "aget" || x.Op == "mval" || x.Op == "mkey" {
			return nil
		}
		return x
	}
	return nil
}
