package session

import (
	"fmt"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/config"
	"github.com/lyraproj/hiera/merge"
	"github.com/lyraproj/hierasdk/hiera"
)

// A new invocation looks at nothing yet, has its own set of configurations and explains to the given explainer.
//
//@ contract newInvocation
//@ property C11 C17 C26
//@ effects none
//@ nopanic
func specNewInvocation(s api.Session, scope dgo.Keyed, explainer api.Explainer) api.Invocation {
	ic := &ivContext{}
	ic.Session = s
	ic.nameStack = []string{}
	ic.scope = scope
	ic.configs = map[string]api.ResolvedConfig{}
	ic.explainer = explainer
	ic.mode = topLevelMode
	return ic
}

// A variable of the invocation shadows the one of the session.
//
//@ contract (*nestedScope).Get
//@ property C11
func specNestedScopeGet(ns *nestedScope, key interface{}) dgo.Value {
	v := ns.scope.Get(key)
	if v == nil {
		v = ns.parentScope.Get(key)
	}
	return v
}

//@ contract (*ivContext).Scope
//@ inline
//@ property C11
//@ effects reads
//@ nopanic
func specIvScope(ic *ivContext) dgo.Keyed { return ic.scope }

// The scope is replaced while the doer runs and only then, also when the doer fails.
//
//@ contract (*ivContext).DoWithScope
//@ property C11
//@ panicvalue
func specDoWithScope(ic *ivContext, scope dgo.Keyed, doer dgo.Doer) {
	outer := ic.scope
	ic.scope = scope
	defer func() { ic.scope = outer }()
	doer()
}

//@ contract (*ivContext).DoRedacted
//@ property C17
//@ panicvalue
func specDoRedacted(ic *ivContext, doer dgo.Doer) {
	if !ic.redacted {
		ic.redacted = true
		defer func() { ic.redacted = false }()
	}
	doer()
}

// While the actor runs the name is on the stack, afterwards the stack is what it was. A name that is on the stack is an
// endless recursion.
//
//@ contract (*ivContext).withName
//@ property C26
//@ panicvalue
func specWithName(ic *ivContext, name string, actor dgo.Producer) dgo.Value {
	outer := ic.nameStack
	if util.ContainsString(outer, name) {
		panic(fmt.Errorf(`recursive lookup detected in [%s]`, strings.Join(outer, `, `)))
	}
	ic.nameStack = append(outer, name)
	defer func() { ic.nameStack = outer }()
	return actor()
}

//@ contract (*ivContext).WithKey
//@ property C26
func specWithKey(ic *ivContext, key api.Key, actor dgo.Producer) dgo.Value {
	return ic.withName(key.Source(), actor)
}

//@ contract (*ivContext).LookupOptionsMode
//@ inline
//@ property C17 C27
//@ effects none
//@ nopanic
func specLookupOptionsMode(ic *ivContext) bool { return ic.mode == lookupOptionsMode }

//@ contract (*ivContext).DataMode
//@ inline
//@ property C17
//@ effects none
//@ nopanic
func specDataMode(ic *ivContext) bool { return ic.mode == dataMode }

//@ contract (*ivContext).LookupOptions
//@ inline
//@ property C07
//@ effects reads
//@ nopanic
func specIvLookupOptions(ic *ivContext) dgo.Map { return ic.luOpts }

//@ contract (*ivContext).MergeStrategy
//@ inline
//@ property C07
//@ effects reads
//@ nopanic
func specIvMergeStrategy(ic *ivContext) api.MergeStrategy { return ic.strategy }

// The same invocation without an explainer.
//
//@ contract (*ivContext).ForConfig
//@ property C17
//@ effects reads
//@ nopanic
func specForConfig(ic *ivContext) api.Invocation {
	if ic.explainer == nil {
		return ic
	}
	return &ivContext{ic.Session, ic.nameStack, ic.scope, ic.luOpts, ic.strategy, ic.configs, nil, ic.mode, ic.redacted}
}

// The same invocation in data mode; an explainer that is interested in lookup options only is dropped.
//
//@ contract (*ivContext).ForData
//@ property C17
//@ effects reads
//@ nopanic
func specForData(ic *ivContext) api.Invocation {
	if ic.mode == dataMode {
		return ic
	}
	ex := ic.explainer
	if ex != nil && ex.OnlyOptions() {
		ex = nil
	}
	return &ivContext{ic.Session, ic.nameStack, ic.scope, ic.luOpts, ic.strategy, ic.configs, ex, dataMode, ic.redacted}
}

// The same invocation in lookup options mode; an explainer that is not interested in lookup options is dropped.
//
//@ contract (*ivContext).ForLookupOptions
//@ property C17
//@ effects reads
//@ nopanic
func specForLookupOptions(ic *ivContext) api.Invocation {
	if ic.mode == lookupOptionsMode {
		return ic
	}
	ex := ic.explainer
	if ex != nil && !ex.Options() && !ex.OnlyOptions() {
		ex = nil
	}
	return &ivContext{ic.Session, ic.nameStack, ic.scope, ic.luOpts, ic.strategy, ic.configs, ex, lookupOptionsMode, ic.redacted}
}

// The context given to a provider function has the given options.
//
//@ contract (*ivContext).ServerContext
//@ property C15 C24
//@ effects none
func specIvServerContext(ic *ivContext, options dgo.Map) api.ServerContext {
	return &serverCtx{invocation: ic, ProviderContext: hiera.ProviderContextFromMap(options)}
}

// convert_to is a type or an array of a type and arguments for its constructor.
//
//@ contract (*ivContext).extractConversion
//@ property C27
func specExtractConversion(ic *ivContext) (dgo.Type, dgo.Array) {
	if ic.luOpts == nil {
		return nil, nil
	}
	ct := ic.luOpts.Get(`convert_to`)
	if ct == nil {
		return nil, nil
	}
	name := ct
	var args dgo.Array
	if a, ok := ct.(dgo.Array); ok {
		n := a.Len()
		if n == 0 {
			return nil, nil
		}
		name = a.Get(0)
		if n > 1 {
			args = a.Slice(1, n)
		}
	}
	if name == nil {
		return nil, args
	}
	var t dgo.Type
	ic.AliasMap().Collect(func(aa dgo.AliasAdder) {
		t = ic.Dialect().ParseType(aa, name.(dgo.String))
	})
	return t, args
}

// What is found is converted when the lookup options ask for it; data that becomes sensitive is looked up redacted.
//
//@ contract (*ivContext).LookupAndConvertData
//@ property C27 C17/x
func specLookupAndConvertData(ic *ivContext, fn func() dgo.Value) dgo.Value {
	t, args := ic.extractConversion()
	var v dgo.Value
	if typ.Sensitive.Equals(t) {
		ic.DoRedacted(func() { v = fn() })
	} else {
		v = fn()
	}
	if v == nil || t == nil {
		return v
	}
	if args == nil {
		return vf.New(t, v)
	}
	return vf.New(t, vf.ArgumentsFromArray(vf.Values(v).WithAll(args)))
}

// The strategy given by the caller of the lookup beats the one of the lookup options, and first is used without any.
//
//@ contract (*ivContext).SetMergeStrategy
//@ property C07 C17/x
//@ failstate any
func specSetMergeStrategy(ic *ivContext, cliMergeOption dgo.Value, lookupOptions dgo.Map) {
	chosen := cliMergeOption
	if chosen != nil {
		ic.ReportMergeSource(`CLI option`)
	} else if lookupOptions != nil {
		chosen = lookupOptions.Get(`merge`)
		if chosen != nil {
			ic.ReportMergeSource(`"lookup_options" hash`)
		}
	}
	name := `first`
	var options dgo.Map
	if s, ok := chosen.(dgo.String); ok {
		name = s.String()
	} else if m, ok := chosen.(dgo.Map); ok {
		name = ``
		if s, ok := m.Get(`strategy`).(dgo.String); ok {
			name = s.String()
			options = m.Without(`strategy`)
		}
	}
	ic.luOpts = lookupOptions
	ic.strategy = merge.GetStrategy(name, options)
}

// The providers of the hierarchy are the sources, in order, of a merge with the given strategy.
//
//@ contract (*ivContext).MergeHierarchy
//@ property C06 C17/x
func specMergeHierarchy(ic *ivContext, key api.Key, pvs []api.DataProvider, merge api.MergeStrategy) dgo.Value {
	return merge.MergeLookup(pvs, ic, func(pv interface{}) dgo.Value {
		return ic.MergeLocations(key, pv.(api.DataProvider), merge)
	})
}

// The locations of an entry are the sources, in order, of a merge with the given strategy. An entry without location
// declaration is asked once without location; a declaration that gives no locations finds nothing.
//
//@ contract (*ivContext).MergeLocations
//@ property C06 C17/x
func specMergeLocations(ic *ivContext, key api.Key, dh api.DataProvider, merge api.MergeStrategy) dgo.Value {
	return ic.WithDataProvider(dh, func() dgo.Value {
		locs := dh.Hierarchy().Locations()
		if locs == nil {
			return dh.LookupKey(key, ic, nil)
		}
		if len(locs) == 0 {
			return nil
		}
		if len(locs) == 1 {
			return ic.invokeWithLocation(dh, locs[0], key)
		}
		return merge.MergeLookup(locs, ic, func(l interface{}) dgo.Value {
			return ic.invokeWithLocation(dh, l.(api.Location), key)
		})
	})
}

// A location that does not exist has no value and its provider is not asked.
//
//@ contract (*ivContext).invokeWithLocation
//@ property C06 C17/x
func specInvokeWithLocation(ic *ivContext, dh api.DataProvider, location api.Location, key api.Key) dgo.Value {
	if location == nil {
		return dh.LookupKey(key, ic, nil)
	}
	return ic.WithLocation(location, func() dgo.Value {
		if !location.Exists() {
			ic.ReportLocationNotFound()
			return nil
		}
		return dh.LookupKey(key, ic, location)
	})
}

// lookup_options is not a key that can be looked up. Every other lookup is guarded against recursion.
//
//@ contract (*ivContext).Lookup
//@ property C27 C26 C17/x
func specIvLookup(ic *ivContext, key api.Key, options dgo.Map) dgo.Value {
	root := key.Root()
	if root != `lookup_options` {
		return ic.WithKey(key, func() dgo.Value { return ic.lookupData(key, root, options) })
	}
	return ic.WithInvalidKey(key, func() dgo.Value {
		ic.ReportNotFound(key)
		return nil
	})
}

// The top provider is asked for the root of the key; what it finds is interpolated and then dug into. A lookup for which
// no strategy has been chosen yet is one at the top level.
//
//@ contract (*ivContext).lookupData
//@ property C02 C07 C09 C17/x
func specLookupData(ic *ivContext, key api.Key, rootKey string, options dgo.Map) dgo.Value {
	if ic.mode == dataMode && ic.strategy == nil {
		ic = &ivContext{ic.Session, ic.nameStack, ic.scope, ic.luOpts, ic.strategy, ic.configs, ic.explainer, topLevelMode, ic.redacted}
	}
	top := ic.TopProvider()
	v := top(ic.ServerContext(options), rootKey)
	if v == nil {
		return nil
	}
	dc := ic.ForData()
	return key.Dig(dc, dc.Interpolate(v, true))
}

// specLoadConfig returns the configuration of a path: it is created by the first that asks for it and everybody else
// waits until that one is done. When the creation fails the next one that asks tries again.
func specLoadConfig(ic *ivContext, sc *sync.Map, configPath string) (cfg api.Config, retry bool) {
	cp := hieraConfigsPrefix + configPath
	lc := hieraLockPrefix + configPath
	mine := sync.RWMutex{}
	mine.Lock()
	lv, taken := sc.LoadOrStore(lc, &mine)
	if taken {
		mine.Unlock()
		lock, isLock := lv.(*sync.RWMutex)
		if !isLock {
			return lv.(api.Config), false
		}
		lock.RLock()
		val, ok := sc.Load(cp)
		lock.RUnlock()
		if !ok {
			return nil, true
		}
		return val.(api.Config), false
	}
	func() {
		defer func() {
			if cfg == nil {
				sc.Delete(lc)
			}
			mine.Unlock()
		}()
		cfg = config.New(configPath)
		sc.Store(cp, cfg)
	}()
	return cfg, false
}

//@ contract (*ivContext).Config
//@ property C16
func specIvConfig(ic *ivContext, configPath string, moduleName string) api.ResolvedConfig {
	sc := ic.SharedCache()
	if configPath == `` {
		configPath = ic.SessionOptions().Get(api.HieraConfig).String()
	}
	if rc, ok := ic.configs[configPath]; ok {
		return rc
	}
	var cfg api.Config
	if val, ok := sc.Load(hieraConfigsPrefix + configPath); ok {
		cfg = val.(api.Config)
	} else {
		var retry bool
		if cfg, retry = specLoadConfig(ic, sc, configPath); retry {
			return ic.Config(configPath, moduleName)
		}
	}
	rc := Resolve(ic, cfg, moduleName)
	ic.configs[configPath] = rc
	return rc
}
