package explain

import (
	"fmt"
	"reflect"
	"strconv"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/merge"
)

// A node is itself only.
//
//@ contract (*explainTreeNode).Equals
//@ property C18
//@ effects none
func specTreeEquals(en *explainTreeNode, other interface{}) bool { return other == en }

//@ contract (*explainTreeNode).HashCode
//@ property C18
func specTreeHashCode(en *explainTreeNode) int { return int(reflect.ValueOf(en).Pointer()) }

// The parts of a node that every kind has are taken from its data form. The branches get the node as their parent.
//
//@ contract initialize
//@ property C18
func specInitialize(en explainNode, ih dgo.Map) {
	if bs, ok := ih.Get(`branches`).(dgo.Array); ok {
		branches := make([]explainNode, bs.Len())
		for i := 0; i < bs.Len(); i++ {
			b := bs.Get(i).(explainNode)
			b.setParent(en)
			branches[i] = b
		}
		en.setBranches(branches)
	}
	if ts, ok := ih.Get(`texts`).(dgo.Array); ok {
		texts := make([]string, ts.Len())
		for i := 0; i < ts.Len(); i++ {
			texts[i] = ts.Get(i).String()
		}
		en.setTexts(texts)
	}
	if e, ok := ih.Get(`event`).(dgo.String); ok {
		en.setEvent(event(e.GoString()))
	}
	en.setValue(ih.Get(`value`))
	if k, ok := ih.Get(`key`).(dgo.String); ok {
		en.setKey(k.GoString())
	}
}

// The data form of what every kind has: what is empty is left out.
//
//@ contract initMap
//@ property C18
func specInitMap(en explainNode) dgo.Map {
	m := vf.MapWithCapacity(7)
	branches := en.branches()
	if len(branches) > 0 {
		m.Put(`branches`, vf.Array(branches))
	}
	if e := string(en.event()); e != `` {
		m.Put(`event`, e)
	}
	if k := en.key(); k != `` {
		m.Put(`key`, k)
	}
	if v := en.value(); v != nil {
		m.Put(`value`, v)
	}
	texts := en.texts()
	if len(texts) > 0 {
		m.Put(`texts`, vf.Array(texts))
	}
	return m
}

//@ contract keyToString
//@ property C18
//@ effects none
func specKeyToString(k interface{}) string {
	if s, ok := k.(string); ok {
		return s
	}
	if i, ok := k.(int); ok {
		return strconv.Itoa(i)
	}
	if key, ok := k.(api.Key); ok {
		return key.Source()
	}
	if s, ok := k.(fmt.Stringer); ok {
		return s.String()
	}
	return fmt.Sprintf(`%v`, k)
}

//@ contract (*explainTreeNode).AppendTo
//@ property C18
func specTreeAppendTo(en *explainTreeNode, w dgo.Indenter) { en.dumpTexts(w) }

// What is recorded comes after what was recorded before.
//
//@ contract (*explainTreeNode).appendBranch
//@ property C18
func specAppendBranch(en *explainTreeNode, branch explainNode) { en.bs = append(en.bs, branch) }

//@ contract (*explainTreeNode).appendText
//@ property C18
func specAppendText(en *explainTreeNode, text string) { en.ts = append(en.ts, text) }

//@ contract (*explainTreeNode).dumpOutcome
//@ property C18
func specDumpOutcome(en *explainTreeNode, w dgo.Indenter) {
	if en.e == notFound {
		w.NewLine()
		w.Append(`No such key: "`)
		w.Append(en.k)
		w.AppendRune('"')
	} else if en.e == found || en.e == foundInDefaults || en.e == foundInOverrides {
		w.NewLine()
		w.Append(`Found key: "`)
		w.Append(en.k)
		w.Append(`" value: `)
		w.AppendValue(en.v)
		if en.e == foundInDefaults {
			w.Append(` in defaults`)
		}
		if en.e == foundInOverrides {
			w.Append(` in overrides`)
		}
	}
	en.dumpTexts(w)
}

//@ contract (*explainTreeNode).dumpTexts
//@ property C18
func specDumpTexts(en *explainTreeNode, w dgo.Indenter) {
	ts := en.ts
	for i := 0; i < len(ts); i++ {
		w.NewLine()
		w.Append(ts[i])
	}
}

//@ contract (*explainTreeNode).dumpBranches
//@ property C18
func specDumpBranches(en *explainTreeNode, w dgo.Indenter) {
	bs := en.bs
	for i := 0; i < len(bs); i++ {
		bs[i].AppendTo(w)
	}
}

//@ contract (*explainTreeNode).found
//@ property C18
//@ failstate any
func specTreeFound(en *explainTreeNode, key interface{}, v dgo.Value) {
	en.k, en.v, en.e = keyToString(key), v, found
}

//@ contract (*explainTreeNode).foundInDefaults
//@ property C18
//@ failstate any
func specTreeFoundInDefaults(en *explainTreeNode, key interface{}, v dgo.Value) {
	en.k, en.v, en.e = keyToString(key), v, foundInDefaults
}

//@ contract (*explainTreeNode).foundInOverrides
//@ property C18
//@ failstate any
func specTreeFoundInOverrides(en *explainTreeNode, key interface{}, v dgo.Value) {
	en.k, en.v, en.e = keyToString(key), v, foundInOverrides
}

//@ contract (*explainTreeNode).notFound
//@ property C18
//@ failstate any
func specTreeNotFound(en *explainTreeNode, k interface{}) { en.k, en.e = keyToString(k), notFound }

//@ contract (*explainTreeNode).result
//@ property C18
func specTreeResult(en *explainTreeNode, v dgo.Value) { en.v, en.e = v, result }

//@ contract (*explainTreeNode).locationNotFound
//@ property C18
func specTreeLocationNotFound(en *explainTreeNode) { en.e = locationNotFound }

//@ contract (*explainTreeNode).moduleNotFound
//@ property C18
func specTreeModuleNotFound(en *explainTreeNode) { en.e = moduleNotFound }

//@ contract (*explainTreeNode).branches
//@ property C18
//@ effects reads
func specTreeBranches(en *explainTreeNode) []explainNode { return en.bs }

//@ contract (*explainTreeNode).setBranches
//@ property C18
func specTreeSetBranches(en *explainTreeNode, x []explainNode) { en.bs = x }

//@ contract (*explainTreeNode).event
//@ property C18
//@ effects reads
func specTreeEvent(en *explainTreeNode) event { return en.e }

//@ contract (*explainTreeNode).setEvent
//@ property C18
func specTreeSetEvent(en *explainTreeNode, x event) { en.e = x }

//@ contract (*explainTreeNode).key
//@ property C18
//@ effects reads
func specTreeKey(en *explainTreeNode) string { return en.k }

//@ contract (*explainTreeNode).setKey
//@ property C18
func specTreeSetKey(en *explainTreeNode, x string) { en.k = x }

//@ contract (*explainTreeNode).parent
//@ property C18
//@ effects reads
func specTreeParent(en *explainTreeNode) explainNode { return en.p }

//@ contract (*explainTreeNode).setParent
//@ property C18
func specTreeSetParent(en *explainTreeNode, x explainNode) { en.p = x }

//@ contract (*explainTreeNode).texts
//@ property C18
//@ effects reads
func specTreeTexts(en *explainTreeNode) []string { return en.ts }

//@ contract (*explainTreeNode).setTexts
//@ property C18
func specTreeSetTexts(en *explainTreeNode, x []string) { en.ts = x }

//@ contract (*explainTreeNode).value
//@ property C18
//@ effects reads
func specTreeValue(en *explainTreeNode) dgo.Value { return en.v }

//@ contract (*explainTreeNode).setValue
//@ property C18
func specTreeSetValue(en *explainTreeNode, x dgo.Value) { en.v = x }

//@ contract (*explainDataProvider).Type
//@ property C18
func specDataProviderType(en *explainDataProvider) dgo.Type { return tf.ExactNamed(explainDataProviderType, en) }

//@ contract (*explainDataProvider).Equals
//@ property C18
//@ effects none
func specDataProviderEquals(en *explainDataProvider, value interface{}) bool { return value == en }

//@ contract (*explainDataProvider).String
//@ property C18
func specDataProviderString(en *explainDataProvider) string { return util.ToIndentedString(en) }

//@ contract (*explainInterpolate).Type
//@ property C18
func specInterpolateType(en *explainInterpolate) dgo.Type { return tf.ExactNamed(explainInterpolateType, en) }

//@ contract (*explainInterpolate).Equals
//@ property C18
//@ effects none
func specInterpolateEquals(en *explainInterpolate, value interface{}) bool { return value == en }

//@ contract (*explainInterpolate).String
//@ property C18
func specInterpolateString(en *explainInterpolate) string { return util.ToIndentedString(en) }

//@ contract (*explainInvalidKey).Type
//@ property C18
func specInvalidKeyType(en *explainInvalidKey) dgo.Type { return tf.ExactNamed(explainInvalidKeyType, en) }

//@ contract (*explainInvalidKey).Equals
//@ property C18
//@ effects none
func specInvalidKeyEquals(en *explainInvalidKey, value interface{}) bool { return value == en }

//@ contract (*explainInvalidKey).String
//@ property C18
func specInvalidKeyString(en *explainInvalidKey) string { return util.ToIndentedString(en) }

//@ contract (*explainKeySegment).Type
//@ property C18
func specKeySegmentType(en *explainKeySegment) dgo.Type { return tf.ExactNamed(explainKeySegmentType, en) }

//@ contract (*explainKeySegment).Equals
//@ property C18
//@ effects none
func specKeySegmentEquals(en *explainKeySegment, value interface{}) bool { return value == en }

//@ contract (*explainKeySegment).String
//@ property C18
func specKeySegmentString(en *explainKeySegment) string { return util.ToIndentedString(en) }

//@ contract (*explainLocation).Type
//@ property C18
func specLocationType(en *explainLocation) dgo.Type { return tf.ExactNamed(explainLocationType, en) }

//@ contract (*explainLocation).Equals
//@ property C18
//@ effects none
func specLocationEquals(en *explainLocation, value interface{}) bool { return value == en }

//@ contract (*explainLocation).String
//@ property C18
func specLocationString(en *explainLocation) string { return util.ToIndentedString(en) }

//@ contract (*explainLookup).Type
//@ property C18
func specLookupType(en *explainLookup) dgo.Type { return tf.ExactNamed(explainLookupType, en) }

//@ contract (*explainLookup).Equals
//@ property C18
//@ effects none
func specLookupEquals(en *explainLookup, value interface{}) bool { return value == en }

//@ contract (*explainLookup).String
//@ property C18
func specLookupString(en *explainLookup) string { return util.ToIndentedString(en) }

//@ contract (*explainMerge).Type
//@ property C18
func specMergeType(en *explainMerge) dgo.Type { return tf.ExactNamed(explainMergeType, en) }

//@ contract (*explainMerge).Equals
//@ property C18
//@ effects none
func specMergeEquals(en *explainMerge, value interface{}) bool { return value == en }

//@ contract (*explainMerge).String
//@ property C18
func specMergeString(en *explainMerge) string { return util.ToIndentedString(en) }

//@ contract (*explainMergeSource).Type
//@ property C18
func specMergeSourceType(en *explainMergeSource) dgo.Type { return tf.ExactNamed(explainMergeSourceType, en) }

//@ contract (*explainMergeSource).Equals
//@ property C18
//@ effects none
func specMergeSourceEquals(en *explainMergeSource, value interface{}) bool { return value == en }

//@ contract (*explainMergeSource).String
//@ property C18
func specMergeSourceString(en *explainMergeSource) string { return util.ToIndentedString(en) }

//@ contract (*explainModule).Type
//@ property C18
func specModuleType(en *explainModule) dgo.Type { return tf.ExactNamed(explainModuleType, en) }

//@ contract (*explainModule).Equals
//@ property C18
//@ effects none
func specModuleEquals(en *explainModule, value interface{}) bool { return value == en }

//@ contract (*explainModule).String
//@ property C18
func specModuleString(en *explainModule) string { return util.ToIndentedString(en) }

//@ contract (*explainSubLookup).Type
//@ property C18
func specSubLookupType(en *explainSubLookup) dgo.Type { return tf.ExactNamed(explainSubLookupType, en) }

//@ contract (*explainSubLookup).Equals
//@ property C18
//@ effects none
func specSubLookupEquals(en *explainSubLookup, value interface{}) bool { return value == en }

//@ contract (*explainSubLookup).String
//@ property C18
func specSubLookupString(en *explainSubLookup) string { return util.ToIndentedString(en) }

//@ contract (*explainDataProvider).initialize
//@ property C18
func specDataProviderInitialize(en *explainDataProvider, ih dgo.Map) {
	initialize(en, ih)
	if s, ok := ih.Get(`providerName`).(dgo.String); ok {
		en.providerName = s.GoString()
	}
}

//@ contract (*explainDataProvider).initMap
//@ property C18
func specDataProviderInitMap(en *explainDataProvider) dgo.Map {
	m := initMap(en)
	m.Put(`providerName`, en.providerName)
	return m
}

//@ contract (*explainInterpolate).initialize
//@ property C18
func specInterpolateInitialize(en *explainInterpolate, ih dgo.Map) {
	initialize(en, ih)
	if s, ok := ih.Get(`expression`).(dgo.String); ok {
		en.expression = s.GoString()
	}
}

//@ contract (*explainInterpolate).initMap
//@ property C18
func specInterpolateInitMap(en *explainInterpolate) dgo.Map {
	m := initMap(en)
	m.Put(`expression`, en.expression)
	return m
}

//@ contract (*explainMergeSource).initialize
//@ property C18
func specMergeSourceInitialize(en *explainMergeSource, ih dgo.Map) {
	initialize(en, ih)
	if s, ok := ih.Get(`mergeSource`).(dgo.String); ok {
		en.mergeSource = s.GoString()
	}
}

//@ contract (*explainMergeSource).initMap
//@ property C18
func specMergeSourceInitMap(en *explainMergeSource) dgo.Map {
	m := initMap(en)
	m.Put(`mergeSource`, en.mergeSource)
	return m
}

//@ contract (*explainModule).initialize
//@ property C18
func specModuleInitialize(en *explainModule, ih dgo.Map) {
	initialize(en, ih)
	if s, ok := ih.Get(`moduleName`).(dgo.String); ok {
		en.moduleName = s.GoString()
	}
}

//@ contract (*explainModule).initMap
//@ property C18
func specModuleInitMap(en *explainModule) dgo.Map {
	m := initMap(en)
	m.Put(`moduleName`, en.moduleName)
	return m
}

//@ contract (*explainInvalidKey).initialize
//@ property C18
func specInvalidKeyInitialize(en *explainInvalidKey, ih dgo.Map) { initialize(en, ih) }

//@ contract (*explainInvalidKey).initMap
//@ property C18
func specInvalidKeyInitMap(en *explainInvalidKey) dgo.Map { return initMap(en) }

//@ contract (*explainLookup).initialize
//@ property C18
func specLookupInitialize(en *explainLookup, ih dgo.Map) { initialize(en, ih) }

//@ contract (*explainLookup).initMap
//@ property C18
func specLookupInitMap(en *explainLookup) dgo.Map { return initMap(en) }

//@ contract (*explainKeySegment).initialize
//@ property C18
func specKeySegmentInitialize(en *explainKeySegment, ih dgo.Map) {
	initialize(en, ih)
	switch s := ih.Get(`segment`).(type) {
	case dgo.Integer:
		en.segment = s.GoInt()
	default:
		en.segment = s.String()
	}
}

//@ contract (*explainKeySegment).initMap
//@ property C18
func specKeySegmentInitMap(en *explainKeySegment) dgo.Map {
	m := initMap(en)
	m.Put(`segment`, en.segment)
	return m
}

//@ contract (*explainLocation).initialize
//@ property C18
func specLocationInitialize(en *explainLocation, ih dgo.Map) {
	initialize(en, ih)
	if l, ok := ih.Get(`location`).(api.Location); ok {
		en.location = l
	}
}

//@ contract (*explainLocation).initMap
//@ property C18
func specLocationInitMap(en *explainLocation) dgo.Map {
	m := initMap(en)
	m.Put(`location`, copyLocation(en.location))
	return m
}

//@ contract copyLocation
//@ property C18
func specCopyLocation(loc api.Location) dgo.Value {
	if loc == nil {
		return nil
	}
	if nt, ok := loc.Type().(dgo.NamedType); ok {
		return nt.New(nt.ExtractInitArg(loc))
	}
	return loc
}

//@ contract (*explainMerge).initialize
//@ property C18
func specMergeInitialize(en *explainMerge, ih dgo.Map) {
	initialize(en, ih)
	name := `first`
	if s, ok := ih.Get(`strategy`).(dgo.String); ok {
		name = s.GoString()
	}
	var opts dgo.Map
	if m, ok := ih.Get(`options`).(dgo.Map); ok {
		opts = m
	}
	en.merge = merge.GetStrategy(name, opts)
}

// The strategy is first when it is not named.
//
//@ contract (*explainMerge).initMap
//@ property C18
func specMergeInitMap(en *explainMerge) dgo.Map {
	m := initMap(en)
	if en.merge.Name() == `first` {
		return m
	}
	m.Put(`strategy`, en.merge.Name())
	opts := en.merge.Options()
	if opts != nil && opts.Len() > 0 {
		m.Put(`options`, opts)
	}
	return m
}

//@ contract (*explainSubLookup).initialize
//@ property C18
func specSubLookupInitialize(en *explainSubLookup, ih dgo.Map) {
	initialize(en, ih)
	if k, ok := ih.Get(`subKey`).(dgo.String); ok {
		en.subKey = api.NewKey(k.GoString())
	}
}

//@ contract (*explainSubLookup).initMap
//@ property C18
func specSubLookupInitMap(en *explainSubLookup) dgo.Map {
	m := initMap(en)
	m.Put(`subKey`, en.subKey.Source())
	return m
}

//@ contract (*explainDataProvider).AppendTo
//@ property C18
func specDataProviderAppendTo(en *explainDataProvider, w dgo.Indenter) {
	w.NewLine()
	w.Append(en.providerName)
	in := w.Indent()
	en.dumpBranches(in)
	en.dumpOutcome(in)
}

//@ contract (*explainInterpolate).AppendTo
//@ property C18
func specInterpolateAppendTo(en *explainInterpolate, w dgo.Indenter) {
	w.NewLine()
	w.Append(`Interpolation on "`)
	w.Append(en.expression)
	w.AppendRune('"')
	en.dumpBranches(w.Indent())
}

//@ contract (*explainInvalidKey).AppendTo
//@ property C18
func specInvalidKeyAppendTo(en *explainInvalidKey, w dgo.Indenter) {
	w.NewLine()
	w.Append(`Invalid key "`)
	w.Append(en.key())
	w.AppendRune('"')
}

//@ contract (*explainKeySegment).AppendTo
//@ property C18
func specKeySegmentAppendTo(en *explainKeySegment, w dgo.Indenter) { en.dumpOutcome(w) }

//@ contract (*explainLocation).AppendTo
//@ failstate any
//@ property C18
func specLocationAppendTo(en *explainLocation, w dgo.Indenter) {
	kind := `URI "`
	w.NewLine()
	if en.location.Kind() == api.LcPath {
		kind = `Path "`
	}
	w.Append(kind)
	w.Append(en.location.Resolved())
	w.AppendRune('"')
	in := w.Indent()
	in.NewLine()
	in.Append(`Original `)
	in.Append(string(en.location.Kind()))
	in.Append(`: "`)
	in.Append(en.location.Original())
	in.AppendRune('"')
	en.dumpBranches(in)
	if en.e == locationNotFound {
		in.NewLine()
		in.Append(string(en.location.Kind()))
		in.Append(` not found`)
	}
	en.dumpOutcome(in)
}

//@ contract (*explainLookup).AppendTo
//@ property C18
func specLookupAppendTo(en *explainLookup, w dgo.Indenter) {
	if !(w.Len() <= 0 && w.Level() <= 0) {
		w.NewLine()
	}
	w.Append(`Searching for "`)
	w.Append(en.key())
	w.AppendRune('"')
	en.dumpBranches(w.Indent())
}

// A merge of one source is not worth mentioning.
//
//@ contract (*explainMerge).AppendTo
//@ failstate any
//@ property C18
func specMergeAppendTo(en *explainMerge, w dgo.Indenter) {
	if len(en.bs) == 0 {
		return
	}
	if len(en.bs) == 1 {
		en.bs[0].AppendTo(w)
		return
	}
	w.NewLine()
	w.Append(`Merge strategy "`)
	w.Append(en.merge.Label())
	w.AppendRune('"')
	in := w.Indent()
	opts := en.merge.Options()
	if opts.Len() > 0 {
		in.NewLine()
		in.Append(`Options: `)
		in.AppendValue(opts)
	}
	en.dumpBranches(in)
	if en.e == result {
		in.NewLine()
		in.Append(`Merged result: `)
		in.AppendValue(en.v)
	}
}

//@ contract (*explainMergeSource).AppendTo
//@ property C18
func specMergeSourceAppendTo(en *explainMergeSource, w dgo.Indenter) {
	w.NewLine()
	w.Append(`Using merge options from `)
	w.Append(en.mergeSource)
}

//@ contract (*explainModule).AppendTo
//@ property C18
func specModuleAppendTo(en *explainModule, w dgo.Indenter) {
	if en.e != moduleNotFound {
		en.dumpBranches(w)
		en.dumpOutcome(w)
		return
	}
	w.NewLine()
	w.Append(`Module "`)
	w.Append(en.moduleName)
	w.Append(`" not found`)
}

// The root of the key was found already.
//
//@ contract (*explainSubLookup).AppendTo
//@ failstate any
//@ property C18
func specSubLookupAppendTo(en *explainSubLookup, w dgo.Indenter) {
	w.NewLine()
	w.Append(`Sub key: "`)
	parts := en.subKey.Parts()[1:]
	for i := 0; i < len(parts); i++ {
		if i > 0 {
			w.AppendRune('.')
		}
		w.Append(keyToString(parts[i]))
	}
	w.AppendRune('"')
	in := w.Indent()
	en.dumpBranches(in)
	en.dumpOutcome(in)
}

//@ contract (*explainer).Type
//@ property C18
func specType(ex *explainer) dgo.Type { return tf.ExactNamed(explainerType, ex) }

// At first everything is recorded on the explainer itself.
//
//@ contract NewExplainer
//@ property C18 C17
func specNewExplainer(options, onlyOptions bool) api.Explainer {
	ex := &explainer{}
	ex.onlyOptions = onlyOptions
	ex.options = options
	ex.current = ex
	return ex
}

//@ contract (*explainer).initialize
//@ property C18
func specExplainerInitialize(ex *explainer, ih dgo.Map) {
	initialize(ex, ih)
	current, ok := ih.Get(`current`).(explainNode)
	if !ok {
		ex.current = ex
	} else if ex.current != ex {
		ex.current = current
	}
	if b, ok := ih.Get(`options`).(dgo.Boolean); ok {
		ex.options = b.GoBool()
	}
	if b, ok := ih.Get(`onlyOptions`).(dgo.Boolean); ok {
		ex.onlyOptions = b.GoBool()
	}
}

//@ contract (*explainer).initMap
//@ property C18
func specExplainerInitMap(ex *explainer) dgo.Map {
	m := initMap(ex)
	if ex.current != ex {
		m.Put(`current`, ex.current)
	}
	if ex.options {
		m.Put(`options`, true)
	}
	if ex.onlyOptions {
		m.Put(`onlyOptions`, true)
	}
	return m
}

//@ contract (*explainer).Equals
//@ property C18
//@ effects none
func specExplainerEquals(ex *explainer, value interface{}) bool { return value == ex }

//@ contract (*explainer).String
//@ property C18
func specExplainerString(ex *explainer) string { return util.ToIndentedString(ex) }

//@ contract (*explainer).AppendTo
//@ property C18
func specExplainerAppendTo(ex *explainer, w dgo.Indenter) {
	ex.dumpBranches(w)
	ex.dumpTexts(w)
}

//@ contract (*explainer).OnlyOptions
//@ property C18 C17
//@ effects reads
func specOnlyOptions(ex *explainer) bool { return ex.onlyOptions }

//@ contract (*explainer).Options
//@ property C18 C17
//@ effects reads
func specOptions(ex *explainer) bool { return ex.options }

// Events are recorded on the current node.

//@ contract (*explainer).AcceptFound
//@ property C18
func specAcceptFound(ex *explainer, key interface{}, value dgo.Value) { ex.current.found(key, value) }

//@ contract (*explainer).AcceptFoundInDefaults
//@ property C18
func specAcceptFoundInDefaults(ex *explainer, key string, value dgo.Value) { ex.current.foundInDefaults(key, value) }

//@ contract (*explainer).AcceptFoundInOverrides
//@ property C18
func specAcceptFoundInOverrides(ex *explainer, key string, value dgo.Value) { ex.current.foundInOverrides(key, value) }

//@ contract (*explainer).AcceptLocationNotFound
//@ property C18
func specAcceptLocationNotFound(ex *explainer) { ex.current.locationNotFound() }

//@ contract (*explainer).AcceptModuleNotFound
//@ property C18
func specAcceptModuleNotFound(ex *explainer) { ex.current.moduleNotFound() }

//@ contract (*explainer).AcceptNotFound
//@ property C18
func specAcceptNotFound(ex *explainer, key interface{}) { ex.current.notFound(key) }

//@ contract (*explainer).AcceptMergeResult
//@ property C18
func specAcceptMergeResult(ex *explainer, value dgo.Value) { ex.current.result(value) }

//@ contract (*explainer).AcceptText
//@ property C18
func specAcceptText(ex *explainer, text string) { ex.current.appendText(text) }

//@ contract (*explainer).AcceptMergeSource
//@ property C18
func specAcceptMergeSource(ex *explainer, mergeSource string) {
	n := &explainMergeSource{}
	n.mergeSource = mergeSource
	n.p = ex.current
	ex.current.appendBranch(n)
}

// A new step is the last one of the current step and becomes the current one itself.
//
//@ contract (*explainer).push
//@ property C18
func specPush(ex *explainer, en explainNode) {
	outer := ex.current
	en.setParent(outer)
	ex.current.appendBranch(en)
	ex.current = en
}

// The enclosing step becomes the current one.
//
//@ contract (*explainer).Pop
//@ property C18
func specPop(ex *explainer) {
	if ex.current == nil {
		return
	}
	ex.current = ex.current.parent()
}

//@ contract (*explainer).PushDataProvider
//@ property C18
func specPushDataProvider(ex *explainer, pvd api.DataProvider) {
	n := &explainDataProvider{}
	n.providerName = pvd.FullName()
	ex.push(n)
}

//@ contract (*explainer).PushInterpolation
//@ property C18
func specPushInterpolation(ex *explainer, expr string) {
	n := &explainInterpolate{}
	n.expression = expr
	ex.push(n)
}

//@ contract (*explainer).PushInvalidKey
//@ property C18
func specPushInvalidKey(ex *explainer, key interface{}) {
	n := &explainInvalidKey{}
	n.k = keyToString(key)
	ex.push(n)
}

//@ contract (*explainer).PushLocation
//@ property C18
func specPushLocation(ex *explainer, loc api.Location) {
	n := &explainLocation{}
	n.location = loc
	ex.push(n)
}

//@ contract (*explainer).PushLookup
//@ property C18
func specPushLookup(ex *explainer, key api.Key) {
	n := &explainLookup{}
	n.k = keyToString(key)
	ex.push(n)
}

//@ contract (*explainer).PushMerge
//@ property C18
func specPushMerge(ex *explainer, mrg api.MergeStrategy) {
	n := &explainMerge{}
	n.merge = mrg
	ex.push(n)
}

//@ contract (*explainer).PushModule
//@ property C18
func specPushModule(ex *explainer, mn string) {
	n := &explainModule{}
	n.moduleName = mn
	ex.push(n)
}

//@ contract (*explainer).PushSegment
//@ property C18
func specPushSegment(ex *explainer, seg interface{}) {
	n := &explainKeySegment{}
	n.segment = seg
	ex.push(n)
}

//@ contract (*explainer).PushSubLookup
//@ property C18
func specPushSubLookup(ex *explainer, key api.Key) {
	n := &explainSubLookup{}
	n.subKey = key
	ex.push(n)
}
