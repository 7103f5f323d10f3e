package api

import (
	"github.com/lyraproj/dgo/dgo"
)

// The contracts of api.Invocation that concern the explanation. Callers are verified against them; the one
// implementation, ivContext, is verified to satisfy them (see spec/session).

// ExplainerOf is the explainer of an invocation, nil when nothing is explained.
func ExplainerOf(ic Invocation) Explainer { return nil }

//@ iface (Invocation).ExplainMode
func IfaceExplainMode(ic Invocation) bool { return ExplainerOf(ic) != nil }

// A text is produced only when it is going to be recorded.
//
//@ iface (Invocation).ReportText
func IfaceReportText(ic Invocation, producer func() string) {
	if e := ExplainerOf(ic); e != nil {
		e.AcceptText(producer())
	}
}

// The node is open exactly while the producer runs, however it ends.
//
//@ iface (Invocation).WithDataProvider
func IfaceWithDataProvider(ic Invocation, pvd DataProvider, producer dgo.Producer) dgo.Value {
	if e := ExplainerOf(ic); e != nil {
		e.PushDataProvider(pvd)
		defer e.Pop()
	}
	return producer()
}

// The node is open exactly while the producer runs, however it ends.
//
//@ iface (Invocation).WithInterpolation
func IfaceWithInterpolation(ic Invocation, expr string, producer dgo.Producer) dgo.Value {
	if e := ExplainerOf(ic); e != nil {
		e.PushInterpolation(expr)
		defer e.Pop()
	}
	return producer()
}

// The node is open exactly while the producer runs, however it ends.
//
//@ iface (Invocation).WithInvalidKey
func IfaceWithInvalidKey(ic Invocation, key interface{}, producer dgo.Producer) dgo.Value {
	if e := ExplainerOf(ic); e != nil {
		e.PushInvalidKey(key)
		defer e.Pop()
	}
	return producer()
}

// The node is open exactly while the producer runs, however it ends.
//
//@ iface (Invocation).WithLocation
func IfaceWithLocation(ic Invocation, loc Location, producer dgo.Producer) dgo.Value {
	if e := ExplainerOf(ic); e != nil {
		e.PushLocation(loc)
		defer e.Pop()
	}
	return producer()
}

// The node is open exactly while the producer runs, however it ends.
//
//@ iface (Invocation).WithLookup
func IfaceWithLookup(ic Invocation, key Key, producer dgo.Producer) dgo.Value {
	if e := ExplainerOf(ic); e != nil {
		e.PushLookup(key)
		defer e.Pop()
	}
	return producer()
}

// The node is open exactly while the producer runs, however it ends.
//
//@ iface (Invocation).WithMerge
func IfaceWithMerge(ic Invocation, ms MergeStrategy, producer dgo.Producer) dgo.Value {
	if e := ExplainerOf(ic); e != nil {
		e.PushMerge(ms)
		defer e.Pop()
	}
	return producer()
}

// The node is open exactly while the producer runs, however it ends.
//
//@ iface (Invocation).WithModule
func IfaceWithModule(ic Invocation, moduleName string, producer dgo.Producer) dgo.Value {
	if e := ExplainerOf(ic); e != nil {
		e.PushModule(moduleName)
		defer e.Pop()
	}
	return producer()
}

// The node is open exactly while the producer runs, however it ends.
//
//@ iface (Invocation).WithSegment
func IfaceWithSegment(ic Invocation, seg interface{}, producer dgo.Producer) dgo.Value {
	if e := ExplainerOf(ic); e != nil {
		e.PushSegment(seg)
		defer e.Pop()
	}
	return producer()
}

// The node is open exactly while the producer runs, however it ends.
//
//@ iface (Invocation).WithSubLookup
func IfaceWithSubLookup(ic Invocation, key Key, producer dgo.Producer) dgo.Value {
	if e := ExplainerOf(ic); e != nil {
		e.PushSubLookup(key)
		defer e.Pop()
	}
	return producer()
}

//@ iface (Invocation).ReportLocationNotFound
func IfaceReportLocationNotFound(ic Invocation) {
	if e := ExplainerOf(ic); e != nil {
		e.AcceptLocationNotFound()
	}
}

//@ iface (Invocation).ReportFound
func IfaceReportFound(ic Invocation, key interface{}, value dgo.Value) {
	if e := ExplainerOf(ic); e != nil {
		e.AcceptFound(key, value)
	}
}

//@ iface (Invocation).ReportMergeResult
func IfaceReportMergeResult(ic Invocation, value dgo.Value) {
	if e := ExplainerOf(ic); e != nil {
		e.AcceptMergeResult(value)
	}
}

//@ iface (Invocation).ReportMergeSource
func IfaceReportMergeSource(ic Invocation, source string) {
	if e := ExplainerOf(ic); e != nil {
		e.AcceptMergeSource(source)
	}
}

//@ iface (Invocation).ReportModuleNotFound
func IfaceReportModuleNotFound(ic Invocation) {
	if e := ExplainerOf(ic); e != nil {
		e.AcceptModuleNotFound()
	}
}

//@ iface (Invocation).ReportNotFound
func IfaceReportNotFound(ic Invocation, key interface{}) {
	if e := ExplainerOf(ic); e != nil {
		e.AcceptNotFound(key)
	}
}
