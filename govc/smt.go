package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Solver struct {
	name    string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	Queries int
	Time    time.Duration
	cache   map[string]string
}

func newSolver(name string) *Solver {
	return &Solver{name: name, cache: map[string]string{}}
}

func (s *Solver) start() error {
	var c *exec.Cmd
	switch s.name {
	case "cvc5":
		c = exec.Command("cvc5", "--lang=smt2", "--incremental", "--strings-exp", "--tlimit-per=5000")
	default:
		c = exec.Command(s.name, "-in", "-smt2")
	}
	in, err := c.StdinPipe()
	if err != nil {
		return err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return err
	}
	c.Stderr = nil
	if err := c.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = c, in, bufio.NewReader(out)
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		_ = s.in.Close()
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
		s.cmd = nil
	}
}

// ask sends a complete script and returns sat, unsat or unknown
func (s *Solver) ask(script string, timeoutMs int) string {
	if r, ok := s.cache[script]; ok {
		return r
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	for attempt := 0; attempt < 2; attempt++ {
		if s.cmd == nil {
			if err := s.start(); err != nil {
				return "error " + err.Error()
			}
		}
		pre := ""
		if s.name != "cvc5" {
			pre = fmt.Sprintf("(set-option :timeout %d)\n", timeoutMs)
		} else {
			pre = "(set-logic ALL)\n"
		}
		done := make(chan string, 1)
		go func() {
			_, err := io.WriteString(s.in, "(reset)\n"+pre+script+"\n(check-sat)\n(echo \"<<done>>\")\n")
			if err != nil {
				done <- "error write"
				return
			}
			res := "unknown"
			for {
				l, err := s.out.ReadString('\n')
				if err != nil {
					done <- "error read"
					return
				}
				l = strings.TrimSpace(l)
				if strings.Contains(l, "<<done>>") {
					break
				}
				if l == "sat" || l == "unsat" || l == "unknown" {
					res = l
				} else if strings.Contains(l, "error") {
					res = "error " + l
				}
			}
			done <- res
		}()
		select {
		case r := <-done:
			if r == "error write" || r == "error read" {
				s.stop()
				continue
			}
			s.cache[script] = r
			return r
		case <-time.After(time.Duration(timeoutMs+3000) * time.Millisecond):
			s.stop()
			return "unknown"
		}
	}
	return "unknown"
}

func sortName(s Sort) string {
	switch s {
	case SB:
		return "Bool"
	case SI:
		return "Int"
	case SS:
		return "Str"
	case SW:
		return "Wld"
	}
	return "U"
}

// encode builds the script for the conjunction of the given formulas together with the facts about the terms in them
func encode(fs []*Term, nativeStr bool) string {
	facts := collectFacts(fs)
	all := append(append([]*Term(nil), fs...), facts...)
	var b strings.Builder
	b.WriteString("(declare-sort U 0)\n(declare-sort Wld 0)\n")
	if nativeStr {
		b.WriteString("(define-sort Str () String)\n")
	} else {
		b.WriteString("(declare-sort Str 0)\n")
	}
	decl := map[string]bool{}
	name := map[*Term]string{}
	var lits []string
	var litTerms []*Term
	declare := func(sym, args, res string) {
		k := sym
		if !decl[k] {
			decl[k] = true
			if args == "" {
				fmt.Fprintf(&b, "(declare-const %s %s)\n", sym, res)
			} else {
				fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", sym, args, res)
			}
		}
	}
	var asserts strings.Builder
	subterms(all, func(t *Term) {
		n := ""
		switch t.Op {
		case "true", "false":
			n = t.Op
		case "int":
			if t.I < 0 {
				n = fmt.Sprintf("(- %d)", -t.I)
			} else {
				n = fmt.Sprint(t.I)
			}
		case "str":
			if nativeStr {
				n = smtString(t.strLit())
			} else {
				n = fmt.Sprintf("lit%d", t.ID)
				declare(n, "", "Str")
				lits = append(lits, n)
				litTerms = append(litTerms, t)
			}
		case "var":
			n = fmt.Sprintf("v%d", t.ID)
			declare(n, "", sortName(t.S))
		case "nil":
			n = "nil"
			declare("nil", "", "U")
		default:
			var as []string
			for _, a := range t.Args {
				as = append(as, name[a])
			}
			e := ""
			switch t.Op {
			case "not", "and", "=", "ite":
				e = "(" + t.Op + " " + strings.Join(as, " ") + ")"
			case "le0":
				e = "(<= 0 " + as[0] + ")"
			case "lin":
				l := toLin(t)
				var ps []string
				for i, a := range t.Args {
					ps = append(ps, fmt.Sprintf("(* %s %s)", smtInt(l.c[a]), as[i]))
				}
				ps = append(ps, smtInt(l.k))
				e = "(+ " + strings.Join(ps, " ") + ")"
			default:
				if nativeStr {
					e = nativeString(t.Op, as)
				}
				if e == "" {
					sig := ""
					var ss []string
					for _, a := range t.Args {
						sig += string(a.S)
						ss = append(ss, sortName(a.S))
					}
					sym := "|" + strings.ReplaceAll(t.Op, "|", "!") + "/" + sig + ">" + string(t.S) + "|"
					declare(sym, strings.Join(ss, " "), sortName(t.S))
					if len(as) == 0 {
						e = sym
					} else {
						e = "(" + sym + " " + strings.Join(as, " ") + ")"
					}
				}
			}
			n = fmt.Sprintf("t%d", t.ID)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, sortName(t.S), e)
		}
		name[t] = n
	})
	b.WriteString(asserts.String())
	if len(lits) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	for _, f := range all {
		fmt.Fprintf(&b, "(assert %s)\n", name[f])
	}
	return b.String()
}

func nativeString(op string, as []string) string {
	switch op {
	case "str.len":
		return "(str.len " + as[0] + ")"
	case "str.++":
		return "(str.++ " + strings.Join(as, " ") + ")"
	case "substr":
		return fmt.Sprintf("(str.substr %s %s (- %s %s))", as[0], as[1], as[2], as[1])
	case "str.prefixof":
		return fmt.Sprintf("(str.prefixof %s %s)", as[0], as[1])
	case "str.suffixof":
		return fmt.Sprintf("(str.suffixof %s %s)", as[0], as[1])
	case "str.contains":
		return fmt.Sprintf("(str.contains %s %s)", as[0], as[1])
	case "str.indexof":
		return fmt.Sprintf("(str.indexof %s %s 0)", as[0], as[1])
	case "byteAt":
		return fmt.Sprintf("(str.to_code (str.at %s %s))", as[0], as[1])
	}
	return ""
}

func smtInt(i int64) string {
	if i < 0 {
		return fmt.Sprintf("(- %d)", -i)
	}
	return fmt.Sprint(i)
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 0x20 && c < 0x7f && c != '"' && c != '\\' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\u{%x}", c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// collectFacts returns the valid facts about the terms that occur in the given formulas
func collectFacts(fs []*Term) []*Term {
	var facts []*Term
	seenFact := map[*Term]bool{}
	add := func(t *Term) {
		if t == tTrue || seenFact[t] {
			return
		}
		seenFact[t] = true
		facts = append(facts, t)
	}
	done := map[*Term]bool{}
	work := fs
	for round := 0; round < 3; round++ {
		byTerm := map[*Term]map[string]*Term{} // type atoms per term
		var tts []*Term
		subterms(work, func(t *Term) { tts = append(tts, t) })
		for _, t := range tts {
			if strings.HasPrefix(t.Op, "impl:") || strings.HasPrefix(t.Op, "ty:") {
				x := t.Args[0]
				if byTerm[x] == nil {
					byTerm[x] = map[string]*Term{}
				}
				byTerm[x][t.Op] = t
			}
			if done[t] {
				continue
			}
			done[t] = true
			switch t.Op {
			case "slen", "alen", "mlen", "glen", "str.len":
				add(mk("le0", SB, 0, "", t)) // mkLe knows that it is true
				if t.Args[0].S == SU {
					add(mkOr(mkNot(mkEq(t.Args[0], tNil)), mkEq(t, mkInt(0))))
				}
				if m := t.Args[0]; t.Op == "glen" && m.Op == "rd:$gmap" {
					add(mkOr(mkNot(mkEq(m.Args[1], tNil)), mkEq(t, mkInt(0))))
				}
			case "strconv.ParseInt#1", "strconv.Atoi#1": // nothing is not a number
				for _, a := range t.Args {
					if a.S == SS {
						add(mkOr(mkNot(mkEq(a, mkStr(""))), mkNot(mkEq(t, tNil))))
					}
				}
			case "ghas":
				if m := t.Args[0]; m.Op == "rd:$gmap" { // nothing is in a nil map
					add(mkOr(mkNot(mkEq(m.Args[1], tNil)), mkNot(t)))
				}
			case "ssub":
				x, lo, hi := t.Args[0], t.Args[1], t.Args[2]
				add(mkOr(mkNot(mkEq(lo, mkInt(0))), mkNot(mkEq(hi, App("slen", SI, x))), mkEq(t, x)))
				if x.Op == "sset" {
					s, i, v := x.Args[0], x.Args[1], x.Args[2]
					out := mkOr(mkLe(hi, i), mkLt(i, lo))
					add(mkOr(mkNot(out), mkEq(t, App("ssub", SU, s, lo, hi))))
					last := mkAnd(mkLe(mkInt(0), lo), mkLe(lo, i), mkLt(i, App("slen", SI, s)), mkEq(hi, mkAdd(i, mkInt(1))))
					add(mkOr(mkNot(last), mkEq(t, App("scat", SU, App("ssub", SU, s, lo, i), App("seq", SU, v)))))
				}
			case "str.indexof":
				add(mkLe(mkInt(-1), t))
				add(mkLe(t, App("str.len", SI, t.Args[0])))
			case "runeW":
				add(mkLe(mkInt(1), t))
				add(mkLe(t, mkInt(4)))
				add(mkOr(mkLe(mkAdd(t.Args[1], t), App("str.len", SI, t.Args[0])), mkLe(App("str.len", SI, t.Args[0]), t.Args[1])))
			case "vfValue":
				if valueTyped(t.Args[0]) {
					add(mkOr(mkEq(t.Args[0], tNil), mkEq(t, t.Args[0])))
				}
				add(mkNot(mkEq(t, tNil)))
			case "mget":
				add(mkEq(App("mhas", SB, t.Args[0], t.Args[1]), mkNot(mkEq(t, tNil))))
				add(mkOr(mkEq(t, tNil), mkLe(mkInt(1), App("mlen", SI, t.Args[0]))))
			case "·Equals":
			}
			if t.S == SI && (strings.HasSuffix(t.Op, ").Len") || t.Op == "·Len") {
				add(mkLe(mkInt(0), t))
			}
			if isCtor(t) {
				add(mkNotNil(t))
			}
		}
		for x, m := range byTerm {
			ops := make([]string, 0, len(m))
			for o := range m {
				ops = append(ops, o)
			}
			sort.Strings(ops)
			add(mkOr(mkNot(mkEq(x, tNil)), mkNot(m[ops[0]])))
			for _, o := range ops {
				add(mkOr(mkNot(m[o]), mkNot(mkEq(x, tNil))))
				if st := staticIfaceOp(x); st != "" && implies(st, o) {
					add(mkOr(mkEq(x, tNil), m[o]))
				}
				for _, p := range ops {
					if o == p {
						continue
					}
					if implies(o, p) {
						add(mkOr(mkNot(m[o]), m[p]))
					} else if o < p && disjoint(o, p) {
						add(mkNot(mkAnd(m[o], m[p])))
					}
				}
			}
		}
		work = append(append([]*Term(nil), fs...), facts...)
	}
	return facts
}

func mkNotNil(t *Term) *Term {
	// built by hand because mkEq simplifies constructor = nil to false
	a, b := tNil, t
	return mk("not", SB, 0, "", mk("=", SB, 0, "", a, b))
}

var valueTyped = func(t *Term) bool { return false }
var staticIfaceOp = func(t *Term) string { return "" }
var implies = func(a, b string) bool { return false }
var disjoint = func(a, b string) bool { return false }

// Prover wraps solvers with the two string encodings
type Prover struct {
	Thorough bool
	z        *Solver
	z4, c5   *Solver
	Queries  int
	Slow     int
}

func newProver() *Prover {
	return &Prover{z: newSolver("z3-new"), z4: newSolver("z3"), c5: newSolver("cvc5")}
}

func (p *Prover) close() { p.z.stop(); p.z4.stop(); p.c5.stop() }

// hasStringTheory tells whether the native string encoding can say more than the abstract one
func hasStringTheory(fs []*Term) bool {
	r := false
	subterms(fs, func(t *Term) {
		switch t.Op {
		case "str.++", "substr", "str.prefixof", "str.suffixof", "str.contains", "str.indexof", "str.len", "byteAt":
			r = true
		}
	})
	return r
}

// unsat tells whether the conjunction is proved unsatisfiable. With quick set only the abstract string encoding is used.
func (p *Prover) unsat(fs []*Term, quick bool) (ok bool, by string) {
	if debugRel {
		t := time.Now()
		defer func() {
			if d := time.Since(t); d > 20*time.Millisecond {
				fmt.Println("slow query", d, ok, by, quick, fs[len(fs)-1])
			}
		}()
	}
	for _, f := range fs {
		if f == tFalse {
			return true, "syntactic"
		}
	}
	p.Queries++
	s := encode(fs, false)
	r := p.z.ask(s, 4000)
	if r == "unsat" {
		if p.Thorough && !quick {
			// a second opinion of another solver
			switch p.c5.ask(s, 20000) {
			case "unsat":
				return true, p.z.name + "+cvc5"
			case "sat":
				return false, "the solvers disagree: z3 says unsat, cvc5 says sat"
			}
		}
		return true, p.z.name
	}
	if strings.HasPrefix(r, "error") {
		dumpScript(s, r)
	}
	if hasStringTheory(fs) {
		t := 4000
		if quick {
			t = 200
		}
		s2 := encode(fs, true)
		r2 := p.z.ask(s2, t)
		if r2 == "unsat" {
			return true, p.z.name + "-strings"
		}
		if strings.HasPrefix(r2, "error") {
			dumpScript(s2, r2)
		}
		if !quick {
			if p.c5.ask(s2, 6000) == "unsat" {
				return true, "cvc5-strings"
			}
		}
		if r2 == "sat" {
			return false, "sat"
		}
	}
	if r == "unknown" && !quick {
		if p.z4.ask(s, 8000) == "unsat" {
			return true, p.z4.name
		}
		if p.c5.ask(s, 8000) == "unsat" {
			return true, "cvc5"
		}
		p.Slow++
	}
	return false, r
}
