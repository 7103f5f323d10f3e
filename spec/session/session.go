package session

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/config"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hierasdk/hiera"
)

// specDialect is the dialect of the options: dgo unless they name another, which must be one that exists.
func specDialect(options dgo.Map) streamer.Dialect {
	name, ok := options.Get(api.HieraDialect).(dgo.String)
	if !ok {
		return streamer.DgoDialect()
	}
	switch name.String() {
	case "dgo":
		if d := streamer.DgoDialect(); d != nil {
			return d
		}
	case "pcore":
		if d := pcore.Dialect(); d != nil {
			return d
		}
	default:
		panic(fmt.Errorf(`unknown dialect '%s'`, name))
	}
	return streamer.DgoDialect()
}

// specScope is the scope of the options, frozen when that is possible, and otherwise empty.
func specScope(options dgo.Map) dgo.Keyed {
	sv, ok := options.Get(api.HieraScope).(dgo.Keyed)
	if !ok {
		return vf.Map()
	}
	if f, ok := sv.(dgo.Freezable); ok {
		return f.FrozenCopy().(dgo.Keyed)
	}
	return sv
}

//@ contract New
//@ property C19 C11
func specNew(parent context.Context, topProvider hiera.LookupKey, oif interface{}, ldr dgo.Loader) api.Session {
	top := topProvider
	if top == nil {
		top = provider.ConfigLookupKey
	}
	options := vf.MutableMap()
	if oif != nil {
		options.PutAll(api.ToMap(`session options`, oif))
	}
	if options.Get(api.HieraConfig) == nil {
		addHieraConfig(options)
	}
	dialect := specDialect(options)
	scope := specScope(options)
	options = options.FrozenCopy().(dgo.Map)

	s := &session{}
	s.Context = parent
	s.aliasMap = tf.DefaultAliases()
	s.vars = map[string]interface{}{
		hieraCacheKey:            &sync.Map{},
		hieraTopProviderKey:      top,
		hieraTopProviderCacheKey: &sync.Map{},
		hieraSessionOptionsKey:   options,
		hieraPluginRegistry:      &pluginRegistry{}}
	s.dialect = dialect
	s.scope = scope
	s.loader = s.newHieraLoader(ldr)
	return s
}

// The configuration is in the root directory of the options, or else in the working directory. Its name is that of the
// options, or else that of the environment, or else the default one.
//
//@ contract addHieraConfig
//@ property C19
func specAddHieraConfig(options dgo.Map) {
	var root string
	if r := options.Get(api.HieraRoot); r == nil {
		wd, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		root = wd
	} else {
		root = r.String()
	}
	name := config.FileName
	if r := options.Get(api.HieraConfigFileName); r == nil {
		if n, ok := os.LookupEnv("HIERA_CONFIGFILE"); ok {
			name = n
		}
	} else {
		name = r.String()
	}
	options.Put(api.HieraConfig, filepath.Join(root, name))
}

//@ contract (*session).AliasMap
//@ property C19
//@ inline
//@ effects none
//@ nopanic
func specAliasMap(s *session) dgo.AliasMap { return s.aliasMap }

//@ contract (*session).Dialect
//@ property C19
//@ inline
//@ effects none
//@ nopanic
func specSessionDialect(s *session) streamer.Dialect { return s.dialect }

//@ contract (*session).Loader
//@ property C19 C25
//@ inline
//@ effects none
//@ nopanic
func specLoader(s *session) dgo.Loader { return s.loader }

//@ contract (*session).Scope
//@ property C11
//@ inline
//@ effects none
//@ nopanic
func specSessionScope(s *session) dgo.Keyed { return s.scope }

//@ contract (*session).Get
//@ property C19
//@ inline
//@ effects reads
//@ nopanic
func specSessionGet(s *session, key string) interface{} { return s.vars[key] }

// The scope of an invocation shadows that of the session.
//
//@ contract (*session).Invocation
//@ property C11
func specInvocation(s *session, si interface{}, explainer api.Explainer) api.Invocation {
	if si == nil {
		return newInvocation(s, s.scope, explainer)
	}
	return newInvocation(s, &nestedScope{parentScope: s.scope, scope: api.ToMap(`invocation scope`, si)}, explainer)
}

//@ contract (*session).TopProvider
//@ property C19 C08
//@ effects reads
func specTopProvider(s *session) hiera.LookupKey {
	v, ok := s.vars[hieraTopProviderKey].(hiera.LookupKey)
	if !ok {
		panic(errors.New(`session is not initialized`))
	}
	return v
}

//@ contract (*session).TopProviderCache
//@ property C24
//@ effects reads
func specTopProviderCache(s *session) *sync.Map {
	v, ok := s.vars[hieraTopProviderCacheKey].(*sync.Map)
	if !ok {
		panic(errors.New(`session is not initialized`))
	}
	return v
}

//@ contract (*session).SessionOptions
//@ property C19
//@ effects reads
func specSessionOptions(s *session) dgo.Map {
	v, ok := s.vars[hieraSessionOptionsKey].(dgo.Map)
	if !ok {
		panic(errors.New(`session is not initialized`))
	}
	return v
}

//@ contract (*session).SharedCache
//@ property C15 C16
//@ effects reads
func specSharedCache(s *session) *sync.Map {
	v, ok := s.vars[hieraCacheKey].(*sync.Map)
	if !ok {
		panic(errors.New(`session is not initialized`))
	}
	return v
}

// specPluginPath is where the plugin of an entry is.
func specPluginPath(he api.Entry) string {
	file := he.PluginFile()
	if file == `` {
		file = he.Function().Name()
		if runtime.GOOS == `windows` {
			file += `.exe`
		}
	}
	if filepath.IsAbs(file) {
		return filepath.Clean(file)
	}
	path, err := filepath.Abs(filepath.Clean(filepath.Join(he.PluginDir(), file)))
	if err != nil {
		panic(err)
	}
	return path
}

// A function with the name of the entry that was given to the session wins over a plugin. The plugin is found in a
// namespace for each segment of its path.
//
//@ contract (*session).LoadFunction
//@ property C25 C13
func specLoadFunction(s *session, he api.Entry) (dgo.Function, bool) {
	name := he.Function().Name()
	l := s.loader
	if fn, ok := l.Namespace(`function`).Get(name).(dgo.Function); ok {
		return fn, true
	}
	path := specPluginPath(he)
	l = l.Namespace(`plugin`)
	for _, segment := range strings.Split(path, string(os.PathSeparator)) {
		l = l.Namespace(segment)
		if l == nil {
			return nil, false
		}
	}
	fn, ok := l.Get(name).(dgo.Function)
	return fn, ok
}

// The functions of the session options are the functions of the session.
//
//@ contract (*session).createFunctionLoader
//@ property C19
func specCreateFunctionLoader(s *session, l dgo.Loader) dgo.Loader {
	var fns dgo.Map
	if m, ok := s.SessionOptions().Get(api.HieraFunctions).(dgo.Map); ok {
		fns = m
	} else {
		fns = vf.Map()
	}
	return loader.New(l, `function`, fns, nil, nil)
}

// The functions and the plugins of a session are found in namespaces of its loader, which is a child of the given one.
//
//@ contract (*session).newHieraLoader
//@ property C19 C25
func specNewHieraLoader(s *session, p dgo.Loader) dgo.Loader {
	namespace := func(l dgo.Loader, name string) dgo.Loader {
		if name == `function` {
			return s.createFunctionLoader(l)
		}
		if name == `plugin` {
			return s.createPluginLoader(l)
		}
		return nil
	}
	if p != nil {
		return p.NewChild(nil, namespace)
	}
	return loader.New(nil, ``, nil, nil, namespace)
}

//@ contract notInitialized
//@ effects none
//@ nopanic
//@ property C19
func specNotInitialized() error { return errors.New(`session is not initialized`) }

// Ending a session stops its plugins.
//
//@ contract (*session).KillPlugins
//@ property C25 C30
func specKillPlugins(s *session) {
	if r := s.vars[hieraPluginRegistry]; r != nil {
		r.(*pluginRegistry).stopAll()
	}
}

// A plugin is started from the path that the segments of its namespace make up.
//
//@ contract (*session).createPluginLoader
//@ property C25
func specCreatePluginLoader(s *session, p dgo.Loader) dgo.Loader {
	find := func(l dgo.Loader, _ string) interface{} {
		name := l.AbsoluteName()
		at := strings.Index(name, `/plugin/`)
		if at < 0 {
			return nil
		}
		path := name[at+len(`/plugin`):]
		registry := s.vars[hieraPluginRegistry]
		if registry == nil {
			return nil
		}
		return registry.(*pluginRegistry).startPlugin(s.SessionOptions(), path)
	}
	var namespace func(l dgo.Loader, name string) dgo.Loader
	namespace = func(l dgo.Loader, name string) dgo.Loader {
		return loader.New(l, name, nil, find, namespace)
	}
	return loader.New(p, `plugin`, nil, find, namespace)
}
