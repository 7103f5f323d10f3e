package zzghost

import "github.com/lyraproj/dgo/dgo"

// Entry is the entry of a map at a position of its iteration order
func Entry(m dgo.Map, i int) dgo.MapEntry { return nil }

//@ model (github.com/lyraproj/dgo/dgo.Map).EachEntry
func modelEachEntry(m dgo.Map, actor dgo.EntryActor) {
	for i := 0; i < m.Len(); i++ {
		actor(Entry(m, i))
	}
}

//@ model (github.com/lyraproj/dgo/dgo.Iterable).Each
func modelEach(a dgo.Array, actor dgo.Consumer) {
	for i := 0; i < a.Len(); i++ {
		actor(a.Get(i))
	}
}

//@ model (github.com/lyraproj/dgo/dgo.Array).EachWithIndex
func modelEachWithIndex(a dgo.Array, actor dgo.DoWithIndex) {
	for i := 0; i < a.Len(); i++ {
		actor(a.Get(i), i)
	}
}

// AliasAdderOf is the adder that collects the aliases for an alias map
func AliasAdderOf(m dgo.AliasMap) dgo.AliasAdder { return nil }

// CollectedAliases is the alias map that a collection results in
func CollectedAliases(m dgo.AliasMap) dgo.AliasMap { return nil }

//@ model (github.com/lyraproj/dgo/dgo.AliasMap).Collect
func modelCollect(m dgo.AliasMap, adder func(dgo.AliasAdder)) dgo.AliasMap {
	adder(AliasAdderOf(m))
	return CollectedAliases(m)
}

//@ model (github.com/lyraproj/dgo/dgo.Map).EachKey
func modelEachKey(m dgo.Map, actor dgo.Consumer) {
	for i := 0; i < m.Len(); i++ {
		actor(Entry(m, i).Key())
	}
}

//@ model (github.com/lyraproj/dgo/dgo.Array).All
func modelArrayAll(a dgo.Array, predicate dgo.Predicate) bool {
	for i := 0; i < a.Len(); i++ {
		if !predicate(a.Get(i)) {
			return false
		}
	}
	return true
}

//@ model (github.com/lyraproj/dgo/dgo.Array).Any
func modelArrayAny(a dgo.Array, predicate dgo.Predicate) bool {
	for i := 0; i < a.Len(); i++ {
		if predicate(a.Get(i)) {
			return true
		}
	}
	return false
}

//@ model (github.com/lyraproj/dgo/dgo.Map).EachValue
func modelEachValue(m dgo.Map, actor dgo.Consumer) {
	for i := 0; i < m.Len(); i++ {
		actor(Entry(m, i).Value())
	}
}

//@ model (github.com/lyraproj/dgo/dgo.Map).All
func modelMapAll(m dgo.Map, predicate dgo.EntryPredicate) bool {
	for i := 0; i < m.Len(); i++ {
		if !predicate(Entry(m, i)) {
			return false
		}
	}
	return true
}

//@ model (github.com/lyraproj/dgo/dgo.Map).Any
func modelMapAny(m dgo.Map, predicate dgo.EntryPredicate) bool {
	for i := 0; i < m.Len(); i++ {
		if predicate(Entry(m, i)) {
			return true
		}
	}
	return false
}

//@ model (github.com/lyraproj/dgo/dgo.Map).Find
func modelMapFind(m dgo.Map, predicate dgo.EntryPredicate) dgo.MapEntry {
	for i := 0; i < m.Len(); i++ {
		if e := Entry(m, i); predicate(e) {
			return e
		}
	}
	return nil
}

//@ model (github.com/lyraproj/dgo/dgo.Map).AllKeys
func modelMapAllKeys(m dgo.Map, predicate dgo.Predicate) bool {
	for i := 0; i < m.Len(); i++ {
		if !predicate(Entry(m, i).Key()) {
			return false
		}
	}
	return true
}
