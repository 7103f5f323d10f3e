package provider

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/dgoyaml/yaml"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/config"
	"github.com/lyraproj/hiera/merge"
	"github.com/lyraproj/hierasdk/hiera"
)

//@ contract ConfigLookupKey
//@ property C08 C19
func specConfigLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
	sc, ok := pc.(api.ServerContext)
	if !ok {
		return nil
	}
	path := sc.Invocation().SessionOptions().Get(api.HieraConfig).String()
	return ConfigLookupKeyAt(sc, path, key, ``)
}

// The lookup_options of the root of the key decide how the levels are merged, unless the lookup says that itself. The
// options are looked up in the invocation of the caller and the data in one for data.
//
//@ contract ConfigLookupKeyAt
//@ property C07 C06 C20 C27 C17/x
func specConfigLookupKeyAt(sc api.ServerContext, configPath, key, moduleName string) dgo.Value {
	ic := sc.Invocation()
	cfg := ic.Config(configPath, moduleName)
	root := api.NewRootKey(key)
	if ic.LookupOptionsMode() {
		return cfg.LookupOptions(root)
	}
	if ic.DataMode() {
		return ic.MergeHierarchy(root, cfg.Hierarchy(), ic.MergeStrategy())
	}
	dc := sc.Invocation().ForData()
	return dc.WithLookup(root, func() dgo.Value {
		dc.SetMergeStrategy(sc.Option(`merge`), cfg.LookupOptions(root))
		return dc.LookupAndConvertData(func() dgo.Value {
			return dc.MergeHierarchy(root, cfg.Hierarchy(), dc.MergeStrategy())
		})
	})
}

//@ contract Environment
//@ property C28
func specEnvironment(_ hiera.ProviderContext, key string) dgo.Value {
	if key == `env` {
		all := os.Environ()
		m := vf.MapWithCapacity(len(all))
		for i := 0; i < len(all); i++ {
			// a name is not empty
			if eq := strings.IndexRune(all[i], '='); eq > 0 {
				m.Put(all[i][:eq], all[i][eq+1:])
			}
		}
		return m
	}
	if !strings.HasPrefix(key, `env::`) {
		return nil
	}
	v, ok := os.LookupEnv(key[len(`env::`):])
	if !ok {
		return nil
	}
	return vf.String(v)
}

//@ contract ScopeLookupKey
//@ property C28
func specScopeLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
	if sc, ok := pc.(api.ServerContext); ok {
		return sc.Invocation().Scope().Get(key)
	}
	return nil
}

// specPathOption is the file a data function reads.
func specPathOption(ctx hiera.ProviderContext) string {
	p := ctx.Option(`path`)
	if p == nil {
		panic(api.MissingRequiredOption(`path`))
	}
	return p.String()
}

// A file that does not exist has no data; whatever else keeps it from being a map is an error.
//
//@ contract YamlData
//@ property C28
func specYamlData(ctx hiera.ProviderContext) dgo.Map {
	path := specPathOption(ctx)
	content, err := ioutil.ReadFile(path)
	if err != nil {
		if !os.IsNotExist(err) {
			panic(fmt.Errorf("could not read %s: %s", path, err.Error()))
		}
		return vf.Map()
	}
	v, err := yaml.Unmarshal(content)
	if err != nil {
		panic(fmt.Errorf("could not unmarshal %s: %s", path, err.Error()))
	}
	m, ok := v.(dgo.Map)
	if !ok {
		panic(api.YamlNotHash(path))
	}
	return m
}

//@ contract JSONData
//@ property C28
func specJSONData(ctx hiera.ProviderContext) dgo.Map {
	path := specPathOption(ctx)
	content, err := ioutil.ReadFile(path)
	if err != nil {
		if !os.IsNotExist(err) {
			panic(err)
		}
		return vf.Map()
	}
	// all of the file is JSON
	raw := new(json.RawMessage)
	err = json.Unmarshal(content, raw)
	if err != nil {
		panic(fmt.Errorf("could not unmarshal %s: %s", path, err.Error()))
	}
	m, ok := streamer.UnmarshalJSON(content, nil).(dgo.Map)
	if !ok {
		panic(api.JSONNOtHash(path))
	}
	return m
}

// The file is read once; after that the cached map answers.
//
//@ contract YamlLookupKey
//@ property C28
func specYamlLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
	sc, ok := pc.(api.ServerContext)
	if !ok {
		return nil
	}
	v, cached := sc.CachedValue(YamlDataKey)
	if !cached {
		ic := sc.Invocation()
		v = YamlData(ic.ServerContext(vf.Map(`path`, ic.SessionOptions().Get(`path`))))
		sc.Cache(YamlDataKey, v)
	}
	m, _ := v.(dgo.Map)
	return m.Get(key)
}

// The module is the lower case text before the first ::, which must not be empty.
//
//@ contract ModuleLookupKey
//@ property C20 C17/x
func specModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
	sc := pc.(api.ServerContext)
	end := strings.Index(key, `::`)
	if end <= 0 {
		return nil
	}
	name := strings.ToLower(key[:end])
	known := moduleProviders(sc)
	var module dgo.Function
	if f := known.Get(name); f == nil {
		module = loadModuleProvider(sc.Invocation(), known, name)
	} else {
		module = f.(dgo.Function)
	}
	ic := sc.Invocation()
	return ic.WithModule(name, func() dgo.Value {
		if module == notFoundLookupKeyFunc {
			ic.ReportModuleNotFound()
			return nil
		}
		return module.Call(vf.MutableValues(pc, key))[0]
	})
}

// The modules found so far are remembered for the session.
//
//@ contract moduleProviders
//@ property C20
func specModuleProviders(sc api.ServerContext) dgo.Map {
	if c, ok := sc.CachedValue(`hiera::moduleproviders`); ok {
		return c.(dgo.Map)
	}
	m := vf.MutableMap()
	sc.Cache(`hiera::moduleproviders`, m)
	return m
}

// The first directory of the module path that has the module decides.
//
//@ contract loadModuleProvider
//@ property C20
func specLoadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.Function {
	module := notFoundLookupKeyFunc
	if mp, ok := ic.SessionOptions().Get(ModulePath).(dgo.String); ok {
		dirs := filepath.SplitList(mp.GoString())
		for i := 0; i < len(dirs); i++ {
			if m := loadModule(dirs[i], moduleName); m != nil {
				module = m
				break
			}
		}
	}
	mpm.Put(moduleName, module)
	return module
}

// A directory that does not exist has no modules. The module is a directory whose name equals that of the module,
// ignoring case, and that contains the configuration as a file.
//
//@ contract loadModule
//@ property C20
func specLoadModule(path, moduleName string) dgo.Function {
	dir, err := os.Open(path)
	if err != nil {
		if !os.IsNotExist(err) {
			panic(err)
		}
		return nil
	}
	entries, err := dir.Readdir(-1)
	_ = dir.Close()
	if err != nil {
		panic(err)
	}
	for i := 0; i < len(entries); i++ {
		e := entries[i]
		if !strings.EqualFold(e.Name(), moduleName) || !e.IsDir() {
			continue
		}
		configPath := filepath.Join(path, e.Name(), config.FileName)
		cf, err := os.Lstat(configPath)
		if err != nil {
			if os.IsNotExist(err) {
				continue
			}
			panic(err)
		}
		if !cf.IsDir() {
			return loadHieraConfig(configPath, moduleName)
		}
	}
	return nil
}

//@ contract loadHieraConfig
//@ property C20
func specLoadHieraConfig(configPath, moduleName string) dgo.Function {
	return vf.Value(func(pc hiera.ProviderContext, key string) dgo.Value {
		sc, ok := pc.(api.ServerContext)
		if !ok {
			return nil
		}
		return ConfigLookupKeyAt(sc, configPath, key, moduleName)
	}).(dgo.Function)
}

// All functions are asked, merged by the strategy. The lookup_options are the deep merge of what all of them return for
// the key when lookup options are asked for.
//
//@ contract MuxLookupKey
//@ property C07 C27 C17/x
func specMuxLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
	sc, ok := pc.(api.ServerContext)
	if !ok {
		return nil
	}
	fns, ok := sc.Invocation().SessionOptions().Get(LookupKeyFunctions).(dgo.Array)
	if !ok {
		return nil
	}
	sources := fns.AppendToSlice(make([]dgo.Value, 0, fns.Len()))

	lc := sc.ForLookupOptions()
	args := vf.MutableValues(lc, key)
	call := func(f interface{}) dgo.Value {
		if f, ok := f.(dgo.Function); ok {
			return f.Call(args)[0]
		}
		return nil
	}
	opts, _ := merge.GetStrategy(`deep`, nil).MergeLookup(sources, lc.Invocation(), call).(dgo.Map)

	dc := sc.ForData()
	args.Set(0, dc)
	ic := dc.Invocation()
	return ic.WithLookup(api.NewRootKey(key), func() dgo.Value {
		ic.SetMergeStrategy(dc.Option(`merge`), opts)
		return ic.LookupAndConvertData(func() dgo.Value {
			return ic.MergeStrategy().MergeLookup(sources, ic, call)
		})
	})
}
