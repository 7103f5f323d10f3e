// Package zzverif holds the replay harness: for every property it runs the real code on generated inputs and compares
// what it does with an oracle that is written from the text of the property.
package zzverif

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

type H struct {
	t        *testing.T
	rnd      *rand.Rand
	end      time.Time
	n        int
	seen     map[string]struct{}
	distinct int
	samples  []string
	rule     string
	known    []string
	cur      string
}

func newH(t *testing.T, rule string) *H {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	budget, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64)
	if err != nil {
		budget = 5
	}
	h := &H{t: t, rnd: rand.New(rand.NewSource(seed)), end: time.Now().Add(time.Duration(budget * float64(time.Second))), seen: map[string]struct{}{}, rule: rule, cur: os.Getenv("VERIF_CURRENT")}
	t.Cleanup(func() {
		if f := os.Getenv("VERIF_STATS"); f != "" {
			b, _ := json.Marshal(map[string]interface{}{"evaluations": h.n, "distinct": h.distinct, "rule": h.rule, "samples": h.samples, "known": h.known})
			_ = os.WriteFile(f, b, 0o600)
		}
	})
	return h
}

// more tells if there is time for more cases; max bounds their number so that a run does not take longer than it needs
func (h *H) more(max int) bool { return h.n < max && time.Now().Before(h.end) }

// c counts a case. Two cases with the same text are the same case.
func (h *H) c(format string, args ...interface{}) string {
	s := fmt.Sprintf(format, args...)
	h.n++
	if _, ok := h.seen[s]; !ok && len(h.seen) < 200000 {
		h.seen[s] = struct{}{}
		h.distinct++
		if len(h.samples) < 5 {
			h.samples = append(h.samples, cut(s, 300))
		}
	}
	return s
}

// current records the case that is about to run, for the case that the process does not survive it
func (h *H) current(s string) {
	if h.cur != "" {
		_ = os.WriteFile(h.cur, []byte(s), 0o600)
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (h *H) fail(input, got, want string) {
	h.t.Helper()
	h.t.Fatalf("FAILING-INPUT: %s\n  the code:     %s\n  the property: %s\n", cut(input, 6000), cut(got, 4000), cut(want, 4000))
}

func (h *H) eq(input string, got, want interface{}) {
	h.t.Helper()
	g, w := show(got), show(want)
	if g != w {
		h.fail(input, g, w)
	}
}

// res is the outcome of a call
type res struct {
	v    interface{}
	err  string // panic or error text
	bad  bool
	skip bool
}

func (r res) String() string {
	if r.bad {
		return "error: " + r.err
	}
	return show(r.v)
}

func show(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case res:
		return v.String()
	case string:
		return strconv.Quote(v)
	case fmt.Stringer:
		return fmt.Sprintf("%s", v)
	}
	return fmt.Sprintf("%#v", v)
}

// try calls f and turns a panic into a result
func try(f func() interface{}) (r res) {
	defer func() {
		if e := recover(); e != nil {
			_, skip := e.(mSkip)
			r = res{bad: true, err: fmt.Sprint(e), skip: skip}
		}
	}()
	return res{v: f()}
}

// within fails when f does not come back in time
func (h *H) within(input string, d time.Duration, f func()) {
	h.t.Helper()
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case e := <-done:
		if e != nil {
			panic(e)
		}
	case <-time.After(d):
		h.fail(input, "does not return within "+d.String(), "it returns")
	}
}

func (h *H) pick(ss ...string) string { return ss[h.rnd.Intn(len(ss))] }
func (h *H) coin() bool               { return h.rnd.Intn(2) == 0 }
func (h *H) one(n int) bool           { return h.rnd.Intn(n) == 0 }
func (h *H) n_(n int) int             { return h.rnd.Intn(n) }

func contains(s, t string) bool { return strings.Contains(s, t) }
