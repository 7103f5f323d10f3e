package config

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
)

// At most one function, and no option with a reserved name.
//
//@ contract (*entry).initialize
//@ property C12
func specInitialize(e *entry, name string, h dgo.Map) {
	h.EachEntry(func(me dgo.MapEntry) {
		k := me.Key().String()
		v := me.Value()
		if k == `options` {
			o := v.(dgo.Map)
			e.options = o
			o.EachKey(func(ok dgo.Value) {
				if on := ok.String(); on == `path` || on == `uri` {
					panic(fmt.Errorf(`option key '%s' used in hierarchy '%s' is reserved by Hiera`, on, name))
				}
			})
			return
		}
		if k == `data_dig` || k == `data_hash` || k == `lookup_key` {
			if e.function != nil {
				panic(fmt.Errorf(`only one of %s can be defined in hierarchy '%s'`, strings.Join(FunctionKeys, `, `), name))
			}
			e.function = &function{kind: api.FunctionKind(k), name: v.String()}
		}
	})
}

//@ contract (*entry).Options
//@ property C13
//@ inline
//@ effects reads
//@ nopanic
func specEntryOptions(e *entry) dgo.Map { return e.options }

//@ contract (*entry).DataDir
//@ property C13
//@ inline
//@ effects reads
//@ nopanic
func specEntryDataDir(e *entry) string { return e.dataDir }

//@ contract (*entry).PluginDir
//@ property C13 C25
//@ inline
//@ effects reads
//@ nopanic
func specEntryPluginDir(e *entry) string { return e.pluginDir }

//@ contract (*entry).PluginFile
//@ property C12 C25
//@ inline
//@ effects reads
//@ nopanic
func specEntryPluginFile(e *entry) string { return e.pluginFile }

//@ contract (*entry).Function
//@ property C13
//@ inline
//@ effects reads
//@ nopanic
func specEntryFunction(e *entry) api.Function { return e.function }

//@ contract (*entry).Name
//@ property C12
//@ inline
//@ effects reads
//@ nopanic
func specEntryName(e *entry) string { return e.name }

//@ contract (*entry).Locations
//@ property C14 C06
//@ inline
//@ effects reads
//@ nopanic
func specEntryLocations(e *entry) []api.Location { return e.locations }

// A copy with another configuration; the original is as it was.
//
//@ contract (*entry).Copy
//@ property C13
func specEntryCopy(e *entry, cfg api.Config) api.Entry {
	c := &entry{}
	c.cfg = cfg.(*hieraCfg)
	c.dataDir = e.dataDir
	c.pluginDir = e.pluginDir
	c.pluginFile = e.pluginFile
	c.options = e.options
	c.function = e.function
	c.name = e.name
	c.locations = e.locations
	return c
}

// The entry's own function interpolated, or the one of the defaults, or yaml_data.
//
//@ contract (*entry).resolveFunction
//@ property C13
func specResolveFunction(e *entry, ic api.Invocation, defaults api.Entry) {
	if e.function != nil {
		if f, changed := e.function.Resolve(ic); changed {
			e.function = f
		}
	} else if defaults != nil {
		e.function = defaults.Function()
	} else {
		e.function = &function{kind: api.KindDataHash, name: `yaml_data`}
	}
	if e.function == nil {
		panic(fmt.Errorf(`one of %s must be defined in hierarchy '%s'`, strings.Join(FunctionKeys, `, `), e.name))
	}
}

// The entry's own data directory interpolated, or the one of the defaults, or the built-in one.
//
//@ contract (*entry).resolveDataDir
//@ property C13
func specResolveDataDir(e *entry, ic api.Invocation, defaults api.Entry) {
	if e.dataDir != `` {
		if d, changed := ic.InterpolateString(e.dataDir, false); changed {
			e.dataDir = d.String()
		}
	} else if defaults != nil {
		e.dataDir = defaults.DataDir()
	} else {
		e.dataDir = defaultDataDir()
	}
}

// The entry's own plugin directory interpolated, or the one of the defaults, or the built-in one. It is absolute, or
// relative to the directory of the configuration.
//
//@ contract (*entry).resolvePluginDir
//@ property C13 C25
func specResolvePluginDir(e *entry, ic api.Invocation, defaults api.Entry) {
	if e.pluginDir != `` {
		if d, changed := ic.InterpolateString(e.pluginDir, false); changed {
			e.pluginDir = d.String()
		}
	} else if defaults != nil {
		e.pluginDir = defaults.PluginDir()
	} else {
		e.pluginDir = defaultPluginDir()
	}
	if !filepath.IsAbs(e.pluginDir) {
		e.pluginDir = filepath.Join(e.cfg.root, e.pluginDir)
	}
}

// The entry's own options interpolated, or those of the defaults, or none.
//
//@ contract (*entry).resolveOptions
//@ property C13
func specResolveOptions(e *entry, ic api.Invocation, defaults api.Entry) {
	if e.options != nil {
		if e.options.Len() > 0 {
			e.options = ic.Interpolate(e.options, false).(dgo.Map)
		}
	} else if defaults != nil {
		e.options = defaults.Options()
	}
	if e.options == nil {
		e.options = vf.Map()
	}
}

// All that the locations resolve to, in their order. A relative data directory is relative to the configuration.
//
//@ contract (*entry).resolveLocations
//@ property C14 C06
func specResolveLocations(e *entry, ic api.Invocation) {
	dir := e.dataDir
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(e.cfg.root, dir)
	}
	if e.locations == nil {
		return
	}
	all := []api.Location{}
	for i := 0; i < len(e.locations); i++ {
		all = append(all, e.locations[i].Resolve(ic, dir)...)
	}
	e.locations = all
}

// The resolved entry is a new one; the entry it stems from, which is shared, is as it was.
//
//@ contract (*entry).Resolve
//@ property C13 C14
func specEntryResolve(e *entry, ic api.Invocation, defaults api.Entry) api.Entry {
	r := &entry{}
	r.cfg = e.cfg
	r.dataDir = e.dataDir
	r.pluginDir = e.pluginDir
	r.pluginFile = e.pluginFile
	r.options = e.options
	r.function = e.function
	r.name = e.name
	r.locations = e.locations
	r.resolveFunction(ic, defaults)
	r.resolveDataDir(ic, defaults)
	r.resolvePluginDir(ic, defaults)
	r.resolveOptions(ic, defaults)
	r.resolveLocations(ic)
	return r
}

//@ contract (*function).Kind
//@ property C13 C15
//@ inline
//@ effects reads
//@ nopanic
func specFunctionKind(f *function) api.FunctionKind { return f.kind }

//@ contract (*function).Name
//@ property C13 C15
//@ inline
//@ effects reads
//@ nopanic
func specFunctionName(f *function) string { return f.name }

// A function with the interpolated name; the function itself, which is shared, is as it was.
//
//@ contract (*function).Resolve
//@ property C13
func specFunctionResolve(f *function, ic api.Invocation) (api.Function, bool) {
	n, changed := ic.InterpolateString(f.name, false)
	if !changed {
		return f, false
	}
	return &function{kind: f.kind, name: n.String()}, true
}
