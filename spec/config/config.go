package config

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgoyaml/yaml"
	"github.com/lyraproj/hiera/api"
)

// The documented shape of a configuration.
const specDefinitions = `{
	options=map[/\A[A-Za-z](:?[0-9A-Za-z_-]*[0-9A-Za-z])?\z/]data,
	rstring=string[1],
	defaults={
	  options?:options,
	  data_dig?:rstring,
	  data_hash?:rstring,
	  lookup_key?:rstring,
	  datadir?:rstring,
	  plugindir?:rstring
	},
	entry={
	  name:rstring,
	  options?:options,
	  data_dig?:rstring,
	  data_hash?:rstring,
	  lookup_key?:rstring,
	  datadir?:rstring,
	  plugindir?:rstring,
	  pluginfile?:rstring,
	  path?:rstring,
	  paths?:[1]rstring,
	  glob?:rstring,
	  globs?:[1]rstring,
	  uri?:rstring,
	  uris?:[1]rstring,
	  mapped_paths?:[3,3]rstring
	}
}`

const specHieraType = `{
	version:5,
	defaults?:defaults,
	hierarchy?:[]entry,
	default_hierarchy?:[]entry
}`

//@ contract init#1
//@ property C12
func specInit() {
	tf.ParseType(specDefinitions)
	cfgType = tf.ParseType(specHieraType)
}

// A missing file gives the default configuration. A file that cannot be read, that is not YAML, that is not a map or
// that does not have the documented shape is an error.
//
//@ contract New
//@ property C12
func specNew(configPath string) api.Config {
	content, err := ioutil.ReadFile(configPath)
	if err != nil {
		if !os.IsNotExist(err) {
			panic(err)
		}
		c := &hieraCfg{}
		c.root = filepath.Dir(configPath)
		c.defaultHierarchy = []api.Entry{}
		c.defaults = c.makeDefaultConfig()
		c.hierarchy = c.makeDefaultHierarchy()
		return c
	}
	v, err := yaml.Unmarshal(content)
	if err != nil {
		panic(err)
	}
	m := v.(dgo.Map)
	if !cfgType.Instance(m) {
		panic(tf.IllegalAssignment(cfgType, m))
	}
	return createConfig(configPath, m)
}

// What the file does not say gets its default.
//
//@ contract createConfig
//@ property C12
func specCreateConfig(path string, hash dgo.Map) api.Config {
	c := &hieraCfg{}
	c.root = filepath.Dir(path)
	c.path = path
	defaults := hash.Get(`defaults`)
	if defaults == nil {
		c.defaults = c.makeDefaultConfig()
	} else {
		c.defaults = c.createEntry(`defaults`, defaults.(dgo.Map)).(*entry)
	}
	levels := hash.Get(`hierarchy`)
	if levels == nil {
		c.hierarchy = c.makeDefaultHierarchy()
	} else {
		c.hierarchy = c.createHierarchy(levels.(dgo.Array))
	}
	last := hash.Get(`default_hierarchy`)
	if last != nil {
		c.defaultHierarchy = c.createHierarchy(last.(dgo.Array))
	}
	return c
}

//@ contract defaultDataDir
//@ property C12 C13
//@ effects reads
//@ nopanic
func specDefaultDataDir() string {
	if d, ok := os.LookupEnv(`HIERA_DATADIR`); ok {
		return d
	}
	return `data`
}

//@ contract defaultPluginDir
//@ property C12 C13
//@ effects reads
//@ nopanic
func specDefaultPluginDir() string {
	if d, ok := os.LookupEnv(`HIERA_PLUGINDIR`); ok {
		return d
	}
	return `plugin`
}

//@ contract (*hieraCfg).makeDefaultConfig
//@ property C12 C13
//@ effects reads
//@ nopanic
func specMakeDefaultConfig(hc *hieraCfg) *entry {
	e := &entry{}
	e.cfg = hc
	e.function = &function{kind: api.KindDataHash, name: `yaml_data`}
	e.dataDir = defaultDataDir()
	e.pluginDir = defaultPluginDir()
	return e
}

//@ contract (*hieraCfg).makeDefaultHierarchy
//@ property C12
//@ effects none
//@ nopanic
func specMakeDefaultHierarchy(hc *hieraCfg) []api.Entry {
	root := &entry{}
	root.cfg = hc
	root.name = `Root`
	root.dataDir = `.`
	root.locations = []api.Location{&path{original: `data.yaml`}}
	common := &entry{}
	common.cfg = hc
	common.name = `Common`
	common.locations = []api.Location{&path{original: `common.yaml`}}
	return []api.Entry{root, common}
}

//@ contract (*hieraCfg).Hierarchy
//@ property C12 C06
//@ inline
//@ effects reads
//@ nopanic
func specCfgHierarchy(hc *hieraCfg) []api.Entry { return hc.hierarchy }

//@ contract (*hieraCfg).DefaultHierarchy
//@ property C12 C06
//@ inline
//@ effects reads
//@ nopanic
func specCfgDefaultHierarchy(hc *hieraCfg) []api.Entry { return hc.defaultHierarchy }

//@ contract (*hieraCfg).Root
//@ property C12
//@ inline
//@ effects reads
//@ nopanic
func specCfgRoot(hc *hieraCfg) string { return hc.root }

//@ contract (*hieraCfg).Path
//@ property C12
//@ inline
//@ effects reads
//@ nopanic
func specCfgPath(hc *hieraCfg) string { return hc.path }

//@ contract (*hieraCfg).Defaults
//@ property C12 C13
//@ inline
//@ effects reads
//@ nopanic
func specCfgDefaults(hc *hieraCfg) api.Entry { return hc.defaults }

// One entry for each element, in their order. No two have the same name.
//
//@ contract (*hieraCfg).createHierarchy
//@ property C12 C06
func specCreateHierarchy(hc *hieraCfg, hierarchy dgo.Array) []api.Entry {
	entries := []api.Entry{}
	seen := map[string]bool{}
	for i := 0; i < hierarchy.Len(); i++ {
		h := hierarchy.Get(i).(dgo.Map)
		name := ``
		if nv := h.Get(`name`); nv != nil {
			name = nv.String()
		}
		if seen[name] {
			panic(fmt.Errorf(`hierarchy name '%s' defined more than once`, name))
		}
		seen[name] = true
		entries = append(entries, hc.createEntry(name, h))
	}
	return entries
}

// An entry has the settings that its map has, and at most one kind of location.
//
//@ contract (*hieraCfg).createEntry
//@ property C12
func specCreateEntry(hc *hieraCfg, name string, h dgo.Map) api.Entry {
	e := &entry{}
	e.cfg = hc
	e.name = name
	e.initialize(name, h)
	h.EachEntry(func(me dgo.MapEntry) {
		k := me.Key().String()
		v := me.Value()
		if k == `datadir` {
			e.dataDir = v.String()
			return
		}
		if k == `plugindir` {
			e.pluginDir = v.String()
			return
		}
		if k == `pluginfile` {
			e.pluginFile = v.String()
			return
		}
		if !(k == `path` || k == `paths` || k == `glob` || k == `globs` || k == `uri` || k == `uris` || k == `mapped_paths`) {
			return
		}
		if e.locations != nil {
			panic(fmt.Errorf(`only one of %s can be defined in hierarchy '%s'`, strings.Join(LocationKeys, `, `), name))
		}
		if k == `path` {
			e.locations = []api.Location{&path{original: v.String()}}
		} else if k == `glob` {
			e.locations = []api.Location{glob(v.String())}
		} else if k == `uri` {
			e.locations = []api.Location{&uri{original: v.String()}}
		} else if k == `mapped_paths` {
			a := v.(dgo.Array)
			e.locations = []api.Location{&mappedPaths{a.Get(0).String(), a.Get(1).String(), a.Get(2).String()}}
		} else {
			a := v.(dgo.Array)
			e.locations = []api.Location{}
			for i := 0; i < a.Len(); i++ {
				s := a.Get(i).String()
				if k == `paths` {
					e.locations = append(e.locations, &path{original: s})
				} else if k == `globs` {
					e.locations = append(e.locations, glob(s))
				} else {
					e.locations = append(e.locations, &uri{original: s})
				}
			}
		}
	})
	return e
}
