package internal

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hierasdk/hiera"
)

// specOptions are the options of a level. The path of the location, if there is one, is added to them.
func specOptions(he api.Entry, location api.Location) dgo.Map {
	opts := he.Options()
	if location == nil {
		return opts
	}
	return opts.Merge(vf.Map(`path`, location.Resolved()))
}

//@ contract optionsWithLocation
//@ property C15
//@ effects none
func specOptionsWithLocation(options dgo.Map, loc string) dgo.Map {
	return options.Merge(vf.Map(`path`, loc))
}

// ---- lookup_key

// The function is called with the root of the key and the options of the level.
//
//@ contract (*lookupKeyProvider).LookupKey
//@ property C15 C17/x
func specLookupKey(dh *lookupKeyProvider, key api.Key, ic api.Invocation, location api.Location) dgo.Value {
	root := key.Root()
	opts := specOptionsOf(dh.hierarchyEntry, location)
	v := dh.providerFunction(ic)(ic.ServerContext(opts), root)
	if v == nil {
		ic.ReportNotFound(root)
		return nil
	}
	ic.ReportFound(root, v)
	return v
}

func specOptionsOf(he api.Entry, location api.Location) dgo.Map {
	if location == nil {
		return he.Options()
	}
	return optionsWithLocation(he.Options(), location.Resolved())
}

// The function is determined once.
//
//@ contract (*lookupKeyProvider).providerFunction
//@ property C15
func specLookupKeyFunction(dh *lookupKeyProvider, ic api.Invocation) hiera.LookupKey {
	f := dh.providerFunc
	if f == nil {
		f = dh.loadFunction(ic)
		dh.providerFunc = f
	}
	return f
}

// A function is built in or loaded; one that cannot be loaded finds nothing.
//
//@ contract (*lookupKeyProvider).loadFunction
//@ property C15 C28 C17/x
func specLoadLookupKey(dh *lookupKeyProvider, ic api.Invocation) hiera.LookupKey {
	name := dh.hierarchyEntry.Function().Name()
	if name == `environment` {
		return provider.Environment
	}
	if name == `scope` {
		return provider.ScopeLookupKey
	}
	f, ok := ic.LoadFunction(dh.hierarchyEntry)
	if !ok {
		ic.ReportText(func() string { return fmt.Sprintf(`unresolved function '%s'`, name) })
		return func(hiera.ProviderContext, string) dgo.Value { return nil }
	}
	return func(pc hiera.ProviderContext, key string) dgo.Value {
		return f.Call(vf.MutableValues(pc, key))[0]
	}
}

//@ contract (*lookupKeyProvider).Hierarchy
//@ property C06
//@ inline
//@ effects none
//@ nopanic
func specLookupKeyHierarchy(dh *lookupKeyProvider) api.Entry { return dh.hierarchyEntry }

//@ contract (*lookupKeyProvider).FullName
//@ property C18
//@ effects none
func specLookupKeyFullName(dh *lookupKeyProvider) string {
	return fmt.Sprintf(`lookup_key function '%s'`, dh.hierarchyEntry.Function().Name())
}

//@ contract NewLookupKeyProvider
//@ property C15
//@ effects none
//@ nopanic
func specNewLookupKeyProvider(he api.Entry) api.DataProvider {
	p := &lookupKeyProvider{}
	p.hierarchyEntry = he
	return p
}

// ---- data_dig

// The function is called with all segments of the key, so what it finds is buried under them again.
//
//@ contract (*dataDigProvider).LookupKey
//@ property C15 C02 C17/x
func specDataDig(dh *dataDigProvider, key api.Key, ic api.Invocation, location api.Location) dgo.Value {
	opts := specOptionsOf(dh.hierarchyEntry, location)
	v := dh.providerFunction(ic)(ic.ServerContext(opts), vf.Values(key.Parts()...))
	if v == nil {
		ic.ReportNotFound(key)
		return nil
	}
	ic.ReportFound(key.Source(), v)
	return key.Bury(v)
}

//@ contract (*dataDigProvider).providerFunction
//@ property C15
func specDataDigFunction(dh *dataDigProvider, ic api.Invocation) hiera.DataDig {
	f := dh.providerFunc
	if f == nil {
		f = dh.loadFunction(ic)
		dh.providerFunc = f
	}
	return f
}

//@ contract (*dataDigProvider).loadFunction
//@ property C15 C17/x
func specLoadDataDig(dh *dataDigProvider, ic api.Invocation) hiera.DataDig {
	he := dh.hierarchyEntry
	f, ok := ic.LoadFunction(he)
	if !ok {
		ic.ReportText(func() string { return fmt.Sprintf(`unresolved function '%s'`, he.Function().Name()) })
		return func(hiera.ProviderContext, dgo.Array) dgo.Value { return nil }
	}
	return func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
		return f.Call(vf.MutableValues(pc, key))[0]
	}
}

//@ contract (*dataDigProvider).Hierarchy
//@ property C06
//@ inline
//@ effects none
//@ nopanic
func specDataDigHierarchy(dh *dataDigProvider) api.Entry { return dh.hierarchyEntry }

//@ contract (*dataDigProvider).FullName
//@ property C18
//@ effects none
func specDataDigFullName(dh *dataDigProvider) string {
	return fmt.Sprintf(`data_dig function '%s'`, dh.hierarchyEntry.Function().Name())
}

//@ contract NewDataDigProvider
//@ property C15
//@ effects none
//@ nopanic
func specNewDataDigProvider(he api.Entry) api.DataProvider {
	p := &dataDigProvider{}
	p.hierarchyEntry = he
	return p
}

// ---- data_hash

// The value of a key is what the map of the location has for its root.
//
//@ contract (*dataHashProvider).LookupKey
//@ property C15 C17/x
func specDataHashLookupKey(dh *dataHashProvider, key api.Key, ic api.Invocation, location api.Location) dgo.Value {
	root := key.Root()
	v := dh.dataValue(ic, location, root)
	if v == nil {
		ic.ReportNotFound(root)
		return nil
	}
	ic.ReportFound(root, v)
	return v
}

//@ contract (*dataHashProvider).dataValue
//@ property C15
func specDataValue(dh *dataHashProvider, ic api.Invocation, location api.Location, root string) dgo.Value {
	v := dh.dataHash(ic, location).Get(root)
	if v != nil {
		v = ic.Interpolate(v, true)
	}
	return v
}

// The map of a location is read the first time it is needed.
//
//@ contract (*dataHashProvider).dataHash
//@ property C15
func specDataHash(dh *dataHashProvider, ic api.Invocation, location api.Location) dgo.Map {
	key := ``
	if location != nil {
		key = location.Resolved()
	}
	opts := specOptionsOf(dh.hierarchyEntry, location)

	dh.hashesLock.RLock()
	hash, ok := dh.hashes.Get(key).(dgo.Map)
	dh.hashesLock.RUnlock()
	if ok {
		return hash
	}

	dh.hashesLock.Lock()
	defer dh.hashesLock.Unlock()
	hash, ok = dh.hashes.Get(key).(dgo.Map)
	if !ok {
		hash = dh.providerFunction(ic)(ic.ServerContext(opts))
		dh.hashes.Put(key, hash)
	}
	return hash
}

//@ contract (*dataHashProvider).providerFunction
//@ property C15
func specDataHashFunction(dh *dataHashProvider, ic api.Invocation) hiera.DataHash {
	f := dh.providerFunc
	if f == nil {
		f = dh.loadFunction(ic)
		dh.providerFunc = f
	}
	return f
}

// What a loaded function returns counts when it is a map.
//
//@ contract (*dataHashProvider).loadFunction
//@ property C15 C28 C17/x
func specLoadDataHash(dh *dataHashProvider, ic api.Invocation) hiera.DataHash {
	name := dh.hierarchyEntry.Function().Name()
	if name == `yaml_data` {
		return provider.YamlData
	}
	if name == `json_data` {
		return provider.JSONData
	}
	f, ok := ic.LoadFunction(dh.hierarchyEntry)
	if !ok {
		ic.ReportText(func() string { return fmt.Sprintf(`unresolved function '%s'`, name) })
		return func(hiera.ProviderContext) dgo.Map { return vf.Map() }
	}
	return func(pc hiera.ProviderContext) dgo.Map {
		if m, ok := f.Call(vf.MutableValues(pc))[0].(dgo.Map); ok {
			return m
		}
		return vf.Map()
	}
}

//@ contract (*dataHashProvider).Hierarchy
//@ property C06
//@ inline
//@ effects none
//@ nopanic
func specDataHashHierarchy(dh *dataHashProvider) api.Entry { return dh.hierarchyEntry }

//@ contract (*dataHashProvider).FullName
//@ property C18
//@ effects none
func specDataHashFullName(dh *dataHashProvider) string {
	return fmt.Sprintf(`data_hash function '%s'`, dh.hierarchyEntry.Function().Name())
}

//@ contract NewDataHashProvider
//@ property C15
//@ effects none
func specNewDataHashProvider(he api.Entry) api.DataProvider {
	p := &dataHashProvider{}
	p.hierarchyEntry = he
	p.hashes = vf.MapWithCapacity(len(he.Locations()))
	return p
}
