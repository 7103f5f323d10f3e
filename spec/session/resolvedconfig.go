package session

import (
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/internal"
	"github.com/lyraproj/hiera/merge"
)

// The kind of function of an entry decides what kind of provider it gets. An entry without a kind of its own is a
// lookup_key.
//
//@ contract CreateProvider
//@ property C13 C15
func specCreateProvider(e api.Entry) api.DataProvider {
	kind := e.Function().Kind()
	if kind == api.KindDataHash {
		return internal.NewDataHashProvider(e)
	}
	if kind == api.KindDataDig {
		return internal.NewDataDigProvider(e)
	}
	return internal.NewLookupKeyProvider(e)
}

//@ contract Resolve
//@ property C06 C20 C17/x
func specResolve(ic api.Invocation, hc api.Config, moduleName string) api.ResolvedConfig {
	r := &resolvedConfig{}
	r.cfg = hc
	r.moduleName = moduleName
	r.Resolve(ic)
	return r
}

//@ contract (*resolvedConfig).Config
//@ property C06
//@ inline
//@ effects reads
//@ nopanic
func specRcConfig(r *resolvedConfig) api.Config { return r.cfg }

//@ contract (*resolvedConfig).Hierarchy
//@ property C06
//@ inline
//@ effects reads
//@ nopanic
func specRcHierarchy(r *resolvedConfig) []api.DataProvider { return r.providers }

//@ contract (*resolvedConfig).DefaultHierarchy
//@ property C06
//@ inline
//@ effects reads
//@ nopanic
func specRcDefaultHierarchy(r *resolvedConfig) []api.DataProvider { return r.defaultProviders }

// The options of a key are those of its root. A module has a say about the keys in its own namespace only.
//
//@ contract (*resolvedConfig).LookupOptions
//@ property C07 C20
//@ effects reads
func specRcLookupOptions(r *resolvedConfig, key api.Key) dgo.Map {
	root := key.Root()
	if r.lookupOptions == nil {
		return nil
	}
	if r.moduleName != `` && !strings.HasPrefix(root, r.moduleName+`::`) {
		return nil
	}
	if m, ok := r.lookupOptions.Get(root).(dgo.Map); ok {
		return m
	}
	return nil
}

// The providers are those of the entries, in the order of the hierarchy, and the lookup_options are the deep merge of
// what all of them have to say.
//
//@ contract (*resolvedConfig).Resolve
//@ property C06 C07 C17/x
func specRcResolve(r *resolvedConfig, ic api.Invocation) {
	cc := ic.ForConfig()
	r.providers = r.CreateProviders(cc, r.cfg.Hierarchy())
	r.defaultProviders = r.CreateProviders(cc, r.cfg.DefaultHierarchy())

	deep := merge.GetStrategy(`deep`, nil)
	key := api.NewKey(`lookup_options`)
	lic := ic.ForLookupOptions()
	v := lic.WithLookup(key, func() dgo.Value {
		return deep.MergeLookup(r.providers, lic, func(p interface{}) dgo.Value {
			return lic.MergeLocations(key, p.(api.DataProvider), deep)
		})
	})
	if m, ok := v.(dgo.Map); ok {
		r.lookupOptions = m
	}
}

// One provider for each entry, at the same position. The entry is resolved with the defaults of the configuration.
//
//@ contract (*resolvedConfig).CreateProviders
//@ property C06 C13
func specCreateProviders(r *resolvedConfig, ic api.Invocation, hierarchy []api.Entry) []api.DataProvider {
	ps := make([]api.DataProvider, len(hierarchy))
	defaults := r.cfg.Defaults().Resolve(ic, nil)
	for i := 0; i < len(hierarchy); i++ {
		e := hierarchy[i]
		ps[i] = CreateProvider(e.Resolve(ic, defaults))
	}
	return ps
}
