// Package zzcanary holds functions with wrong specifications. The verifier must reject every one of them; it is run on
// all of them together with the real contracts.
package zzcanary

import (
	"errors"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
)

type box struct {
	v   int
	arr []string
	m   map[string]int
}

func sum(a []int) int {
	n := 0
	for _, x := range a {
		n += x
	}
	return n
}

// skips the first element
//
//@ contract sum
//@ canary
func specSum(a []int) int {
	n := 0
	for i := 1; i < len(a); i++ {
		n += a[i]
	}
	return n
}

func last(a []dgo.Value, f func(dgo.Value) bool) dgo.Value {
	var r dgo.Value
	for _, x := range a {
		if f(x) {
			r = x
		}
	}
	return r
}

// the first instead of the last
//
//@ contract last
//@ canary
func specFirst(a []dgo.Value, f func(dgo.Value) bool) dgo.Value {
	for _, x := range a {
		if f(x) {
			return x
		}
	}
	return nil
}

func callTwice(f, g func()) { f(); g() }

// the other order
//
//@ contract callTwice
//@ canary
func specCallTwice(f, g func()) { g(); f() }

func restore(b *box, f func()) {
	o := b.v
	b.v = 1
	f()
	b.v = o
}

// restores also when f fails
//
//@ contract restore
//@ canary
func specRestore(b *box, f func()) {
	o := b.v
	b.v = 1
	defer func() { b.v = o }()
	f()
}

func set(b *box, v int) { b.v = v; b.arr = nil }

// the frame is violated
//
//@ contract set
//@ canary
func specSet(b *box, v int) { b.v = v }

func fail(n int) int {
	if n == 77 {
		panic(errors.New(`seventy seven`))
	}
	return n
}

// never fails
//
//@ contract fail
//@ canary
func specFail(n int) int { return n }

func ignore(ic api.Invocation, key api.Key) dgo.Value {
	return ic.Lookup(key, nil)
}

// makes an explanation
//
//@ contract ignore
//@ canary
func specIgnore(ic api.Invocation, key api.Key) dgo.Value {
	v := ic.Lookup(key, nil)
	ic.ReportFound(key, v)
	return v
}

func pick(m map[string]int, k string) int { return m[k] }

// a missing entry is one
//
//@ contract pick
//@ canary
func specPick(m map[string]int, k string) int {
	if v, ok := m[k]; ok {
		return v
	}
	return 1
}

func produce(ic api.Invocation, key api.Key, v dgo.Value) dgo.Value {
	return ic.WithLookup(key, func() dgo.Value { return v })
}

// another closure
//
//@ contract produce
//@ canary
func specProduce(ic api.Invocation, key api.Key, v dgo.Value) dgo.Value {
	return ic.WithLookup(key, func() dgo.Value { return nil })
}

func entries(m dgo.Map, to dgo.Map) {
	m.EachEntry(func(e dgo.MapEntry) { to.Put(e.Key(), e.Value()) })
}

// all but those without a value
//
//@ contract entries
//@ canary
func specEntries(m dgo.Map, to dgo.Map) {
	m.EachEntry(func(e dgo.MapEntry) {
		if e.Value() != nil {
			to.Put(e.Key(), e.Value())
		}
	})
}

func prefix(s string) string {
	if len(s) > 3 && s[:3] == `abc` {
		return s[3:]
	}
	return s
}

// off by one
//
//@ contract prefix
//@ canary
func specPrefix(s string) string {
	if len(s) >= 3 && s[:3] == `abc` {
		return s[3:]
	}
	return s
}

func find(m map[string]string, k string) (string, bool) {
	v, ok := m[k]
	if !ok {
		v = `missing`
	}
	return v, ok
}

// the postcondition does not follow
//
//@ contract find
//@ canary
//@ ensures ensuresFind
func specFind(m map[string]string, k string) (string, bool) {
	if v, ok := m[k]; ok {
		return v, true
	}
	return `missing`, false
}

func ensuresFind(_ map[string]string, _ string, v string, found bool) bool {
	return found || v == ``
}

func pass(f func(api.Key) bool, k api.Key, drop bool) bool {
	if drop {
		k = nil
	}
	return f(k)
}

// the function may be called without a key
//
//@ contract pass
//@ canary
func specPass(f func(api.Key) bool, k api.Key, drop bool) bool {
	if drop {
		k = nil
	}
	return f(k)
}

func either(a, b chan int) int {
	select {
	case x := <-a:
		return x
	case x := <-b:
		return -x
	}
}

// the cases of a select are taken for each other
//
//@ contract either
//@ canary
func specEither(a, b chan int) int {
	select {
	case x := <-b:
		return x
	case x := <-a:
		return -x
	}
}
