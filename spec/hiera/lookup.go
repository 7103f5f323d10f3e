package hiera

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
)

// The first of the names that the map has a value for decides.
//
//@ contract lookupInMap
//@ property C08
//@ effects none
func specLookupInMap(names []string, m dgo.Map) dgo.Value {
	if m == nil {
		return nil
	}
	for i := 0; i < len(names); i++ {
		if v := m.Get(names[i]); v != nil {
			return v
		}
	}
	return nil
}

// A value that is not an instance of the wanted type is converted.
//
//@ contract ensureType
//@ property C08
//@ effects none
func specEnsureType(t dgo.Type, v dgo.Value) dgo.Value {
	if t != nil && !t.Instance(v) {
		return vf.New(t, v)
	}
	return v
}

//@ contract ensureTypeFromMap
//@ property C08
//@ effects none
func specEnsureTypeFromMap(t dgo.StructMapType, k string, v dgo.Value) dgo.Value {
	if t == nil {
		return v
	}
	e := t.Get(k)
	if e == nil {
		panic(fmt.Errorf("key '%s' was not found in the type map", k))
	}
	return ensureType(e.Value().(dgo.Type), v)
}

// Override beats lookup, lookup beats the hash of defaults, that beats the default value and that the default function;
// what is found has the wanted type.
//
//@ contract Lookup2
//@ property C08 C17/x
func specLookup2(ic api.Invocation, names []string, valueType dgo.Type, defaultValue dgo.Value, override dgo.Map,
	defaultValuesHash dgo.Map, options dgo.Map, defaultFunc dgo.Producer) dgo.Value {
	v := lookupInMap(names, override)
	for i := 0; v == nil && i < len(names); i++ {
		v = ic.Lookup(api.NewKey(names[i]), options)
	}
	if v == nil {
		v = lookupInMap(names, defaultValuesHash)
	}
	if v == nil && defaultValue != nil {
		v = defaultValue
	}
	if v == nil {
		if defaultFunc == nil {
			return nil
		}
		v = defaultFunc()
	}
	return ensureType(valueType, v)
}

// Each name is looked up on its own, in order; names without a value have no entry.
//
//@ contract LookupAll
//@ property C08 C17/x
func specLookupAll(ic api.Invocation, names []string, valueType dgo.StructMapType, override dgo.Map, defaultValuesHash dgo.Map,
	options dgo.Map) dgo.Value {
	response := vf.MutableMap()
	for i := 0; i < len(names); i++ {
		name := names[i]
		v := lookupInMap([]string{name}, override)
		if v == nil {
			v = ic.Lookup(api.NewKey(name), options)
		}
		if v == nil {
			v = lookupInMap([]string{name}, defaultValuesHash)
		}
		if v != nil {
			response.Put(name, ensureTypeFromMap(valueType, name, v))
		}
	}
	return response
}
