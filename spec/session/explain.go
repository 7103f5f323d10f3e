package session

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
)

//@ bind github.com/lyraproj/hiera/api.ExplainerOf
func bindExplainerOf(ic *ivContext) api.Explainer { return ic.explainer }

//@ contract (*ivContext).ExplainMode
//@ inline
//@ property C17
//@ effects none
func specExplainMode(ic *ivContext) bool { return api.IfaceExplainMode(ic) }

//@ contract (*ivContext).ReportText
//@ property C17 C18
func specReportText(ic *ivContext, producer func() string) { api.IfaceReportText(ic, producer) }

//@ contract (*ivContext).WithDataProvider
//@ property C17 C18
//@ panicvalue
func specWithDataProvider(ic *ivContext, pvd api.DataProvider, producer dgo.Producer) dgo.Value {
	return api.IfaceWithDataProvider(ic, pvd, producer)
}

//@ contract (*ivContext).WithInterpolation
//@ property C17 C18
//@ panicvalue
func specWithInterpolation(ic *ivContext, expr string, producer dgo.Producer) dgo.Value {
	return api.IfaceWithInterpolation(ic, expr, producer)
}

//@ contract (*ivContext).WithInvalidKey
//@ property C17 C18
//@ panicvalue
func specWithInvalidKey(ic *ivContext, key interface{}, producer dgo.Producer) dgo.Value {
	return api.IfaceWithInvalidKey(ic, key, producer)
}

//@ contract (*ivContext).WithLocation
//@ property C17 C18
//@ panicvalue
func specWithLocation(ic *ivContext, loc api.Location, producer dgo.Producer) dgo.Value {
	return api.IfaceWithLocation(ic, loc, producer)
}

//@ contract (*ivContext).WithLookup
//@ property C17 C18
//@ panicvalue
func specWithLookup(ic *ivContext, key api.Key, producer dgo.Producer) dgo.Value {
	return api.IfaceWithLookup(ic, key, producer)
}

//@ contract (*ivContext).WithMerge
//@ property C17 C18
//@ panicvalue
func specWithMerge(ic *ivContext, ms api.MergeStrategy, producer dgo.Producer) dgo.Value {
	return api.IfaceWithMerge(ic, ms, producer)
}

//@ contract (*ivContext).WithModule
//@ property C17 C18
//@ panicvalue
func specWithModule(ic *ivContext, moduleName string, producer dgo.Producer) dgo.Value {
	return api.IfaceWithModule(ic, moduleName, producer)
}

//@ contract (*ivContext).WithSegment
//@ property C17 C18
//@ panicvalue
func specWithSegment(ic *ivContext, seg interface{}, producer dgo.Producer) dgo.Value {
	return api.IfaceWithSegment(ic, seg, producer)
}

//@ contract (*ivContext).WithSubLookup
//@ property C17 C18
//@ panicvalue
func specWithSubLookup(ic *ivContext, key api.Key, producer dgo.Producer) dgo.Value {
	return api.IfaceWithSubLookup(ic, key, producer)
}

//@ contract (*ivContext).ReportLocationNotFound
//@ property C17 C18
//@ effects x
//@ nopanic
func specReportLocationNotFound(ic *ivContext) {
	api.IfaceReportLocationNotFound(ic)
}

//@ contract (*ivContext).ReportFound
//@ property C17 C18
//@ effects x
//@ nopanic
func specReportFound(ic *ivContext, key interface{}, value dgo.Value) {
	api.IfaceReportFound(ic, key, value)
}

//@ contract (*ivContext).ReportMergeResult
//@ property C17 C18
//@ effects x
//@ nopanic
func specReportMergeResult(ic *ivContext, value dgo.Value) {
	api.IfaceReportMergeResult(ic, value)
}

//@ contract (*ivContext).ReportMergeSource
//@ property C17 C18
//@ effects x
//@ nopanic
func specReportMergeSource(ic *ivContext, source string) {
	api.IfaceReportMergeSource(ic, source)
}

//@ contract (*ivContext).ReportModuleNotFound
//@ property C17 C18
//@ effects x
//@ nopanic
func specReportModuleNotFound(ic *ivContext) {
	api.IfaceReportModuleNotFound(ic)
}

//@ contract (*ivContext).ReportNotFound
//@ property C17 C18
//@ effects x
//@ nopanic
func specReportNotFound(ic *ivContext, key interface{}) {
	api.IfaceReportNotFound(ic, key)
}
