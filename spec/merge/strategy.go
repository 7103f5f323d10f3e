package merge

import (
	"fmt"
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
)

// count is the number of sources, -1 when vs is not a list of sources at all
func count(vs interface{}) int {
	v := reflect.ValueOf(vs)
	if v.Kind() != reflect.Slice {
		return -1
	}
	return v.Len()
}

// ask consults the source with the given index
func ask(vs interface{}, i int, f func(location interface{}) dgo.Value) dgo.Value {
	e := reflect.ValueOf(vs).Index(i)
	if !e.CanInterface() {
		return nil
	}
	return f(e.Interface())
}

// The sources are asked in order until one has a value; that value is the result and no other source is asked.
//
//@ contract (*firstFound).MergeLookup
//@ property C03 C17/x
func specFirstFound(d *firstFound, vs interface{}, ic api.Invocation, f func(location interface{}) dgo.Value) dgo.Value {
	n := count(vs)
	if n == 1 {
		return ask(vs, 0, f)
	}
	for i := 0; i < n; i++ {
		if v := ask(vs, i, f); v != nil {
			ic.ReportMergeResult(v)
			return v
		}
	}
	return nil
}

// combined asks all sources, each once and in order: the first value found is the start of the result, each further
// one is merged into it.
func combined(d merger, vs interface{}, ic api.Invocation, f func(location interface{}) dgo.Value,
	single, start func(v dgo.Value) dgo.Value, add func(a, b dgo.Value) dgo.Value) dgo.Value {
	n := count(vs)
	if n <= 0 {
		return nil
	}
	if n == 1 {
		return single(ask(vs, 0, f))
	}
	return ic.WithMerge(d, func() dgo.Value {
		var result dgo.Value
		for i := 0; i < n; i++ {
			v := ask(vs, i, f)
			if v == nil {
				continue
			}
			if result != nil {
				result = add(result, v)
			} else {
				result = start(v)
			}
		}
		if result != nil {
			ic.ReportMergeResult(result)
		}
		return result
	})
}

func same(v dgo.Value) dgo.Value { return v }

// distinct is the flat array of the distinct elements of a value, a value that is not an array counts as its only element
func distinct(v dgo.Value) dgo.Value {
	if av, ok := v.(dgo.Array); ok {
		return av.Flatten().Unique()
	}
	return vf.Values(v)
}

// The result is the flat array of the distinct elements of all values found. A single source with a value that is not
// an array yields that value.
//
//@ contract (*unique).MergeLookup
//@ property C04 C17/x
func specUnique(d *unique, vs interface{}, ic api.Invocation, f func(location interface{}) dgo.Value) dgo.Value {
	return combined(d, vs, ic, f, func(v dgo.Value) dgo.Value {
		if _, ok := v.(dgo.Array); ok {
			return distinct(v)
		}
		return v
	}, distinct, func(a, b dgo.Value) dgo.Value {
		return distinct(a).(dgo.Array).WithAll(distinct(b).(dgo.Array)).Unique()
	})
}

// The maps found are merged so that for each key the value of the first source that has it is kept. Once a value that
// is not a map has been found it stays, and other values than maps are not merged into a map.
//
//@ contract (*hashMerge).MergeLookup
//@ property C04 C17/x
func specHash(d *hashMerge, vs interface{}, ic api.Invocation, f func(location interface{}) dgo.Value) dgo.Value {
	return combined(d, vs, ic, f, same, same, func(a, b dgo.Value) dgo.Value {
		am, aIsMap := a.(dgo.Map)
		bm, bIsMap := b.(dgo.Map)
		if aIsMap && bIsMap {
			return bm.Merge(am) // entries of the argument win
		}
		return a
	})
}

// The values found are merged deeply, earlier sources first.
//
//@ contract (*deepMerge).MergeLookup
//@ property C05 C17/x
func specDeepMerge(d *deepMerge, vs interface{}, ic api.Invocation, f func(location interface{}) dgo.Value) dgo.Value {
	return combined(d, vs, ic, f, same, same, func(a, b dgo.Value) dgo.Value {
		v, _ := Deep(a, b, d.opts)
		return v
	})
}

//@ contract Deep
//@ property C05
//@ effects none
func specDeepExported(a, b dgo.Value, opi interface{}) (dgo.Value, bool) {
	var options dgo.Map
	if opi == nil {
		return deep(a, b, options)
	}
	return deep(a, b, api.ToMap(`deep merge options`, options))
}

// Two maps: each key of either is in the result. A key of both has the deep merge of the two values if they can be
// merged and the value of a otherwise. Two arrays: the distinct elements of a followed by b. The flag tells whether
// the result is a new value; without a merge a is the result.
//
//@ contract deep
//@ property C05
//@ effects none
//@ ensures ensuresDeep
func specDeep(a, b dgo.Value, options dgo.Map) (dgo.Value, bool) {
	if am, ok := a.(dgo.Map); ok {
		bm, ok := b.(dgo.Map)
		if !ok {
			return a, false
		}
		merged := vf.MutableMap()
		am.EachEntry(func(e dgo.MapEntry) {
			v := e.Value()
			if bv := bm.Get(e.Key()); bv != nil {
				if mv, isMerged := deep(v, bv, options); isMerged {
					v = mv
				}
			}
			merged.Put(e.Key(), v)
		})
		bm.EachEntry(func(e dgo.MapEntry) {
			if !am.ContainsKey(e.Key()) {
				merged.Put(e.Key(), e.Value())
			}
		})
		if am.Equals(merged) {
			return a, false
		}
		return merged, true
	}
	if aa, ok := a.(dgo.Array); ok {
		if ba, ok := b.(dgo.Array); ok {
			union := aa.WithAll(ba).Unique()
			if union.Equals(aa) {
				return a, false
			}
			return union, true
		}
	}
	return a, false
}

// a value that is not merged is the first argument itself
func ensuresDeep(a, b dgo.Value, options dgo.Map, v dgo.Value, merged bool) bool {
	return merged || v == a
}

//@ contract GetStrategy
//@ property C07
//@ effects none
func specGetStrategy(n string, opts dgo.Map) api.MergeStrategy {
	if n == `unique` {
		return &unique{}
	}
	if n == `hash` {
		return &hashMerge{}
	}
	if n == `deep` {
		if opts != nil {
			return &deepMerge{opts}
		}
		return &deepMerge{vf.Map()}
	}
	if n != `first` {
		panic(fmt.Errorf(`unknown merge strategy '%s'`, n))
	}
	return &firstFound{}
}

//@ contract (*firstFound).Name
//@ property C07
//@ effects none
//@ nopanic
func specNameFirst(d *firstFound) string { return `first` }

//@ contract (*unique).Name
//@ property C07
//@ effects none
//@ nopanic
func specNameUnique(d *unique) string { return `unique` }

//@ contract (*hashMerge).Name
//@ property C07
//@ effects none
//@ nopanic
func specNameHash(d *hashMerge) string { return `hash` }

//@ contract (*deepMerge).Name
//@ property C07
//@ effects none
//@ nopanic
func specNameDeep(d *deepMerge) string { return `deep` }

//@ contract (*deepMerge).Options
//@ property C07
//@ effects none
//@ nopanic
func specOptionsDeep(d *deepMerge) dgo.Map { return d.opts }

//@ contract (*firstFound).Options
//@ property C07
//@ effects none
func specOptionsFirst(d *firstFound) dgo.Map { return vf.Map() }

//@ contract (*unique).Options
//@ property C07
//@ effects none
func specOptionsUnique(d *unique) dgo.Map { return vf.Map() }

//@ contract (*hashMerge).Options
//@ property C07
//@ effects none
func specOptionsHash(d *hashMerge) dgo.Map { return vf.Map() }
