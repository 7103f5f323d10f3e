package session

import (
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
)

//@ contract (*serverCtx).Interpolate
//@ property C09
func specScInterpolate(c *serverCtx, value dgo.Value) dgo.Value {
	return c.invocation.Interpolate(value, true)
}

//@ contract (*serverCtx).Explain
//@ property C17
func specScExplain(c *serverCtx, producer func() string) { c.invocation.ReportText(producer) }

// What was stored under the key before is returned and replaced.
//
//@ contract (*serverCtx).Cache
//@ property C24
//@ effects g
func specScCache(c *serverCtx, key string, value dgo.Value) dgo.Value {
	cache := c.invocation.TopProviderCache()
	old, present := cache.LoadOrStore(key, value)
	if !present {
		return nil
	}
	cache.Store(key, value)
	return old.(dgo.Value)
}

// Every entry of the map is stored under its key.
//
//@ contract (*serverCtx).CacheAll
//@ property C24
func specScCacheAll(c *serverCtx, hash dgo.Map) {
	cache := c.invocation.TopProviderCache()
	hash.EachEntry(func(e dgo.MapEntry) { cache.Store(e.Key().String(), e.Value()) })
}

//@ contract (*serverCtx).CachedValue
//@ property C24
//@ effects reads
func specScCachedValue(c *serverCtx, key string) (dgo.Value, bool) {
	var cache *sync.Map = c.invocation.TopProviderCache()
	v, ok := cache.Load(key)
	if !ok {
		return nil, false
	}
	return v.(dgo.Value), true
}

// Every entry is shown to the consumer.
//
//@ contract (*serverCtx).CachedEntries
//@ property C24
func specScCachedEntries(c *serverCtx, consumer func(key string, value dgo.Value)) {
	c.invocation.TopProviderCache().Range(func(k, v interface{}) bool {
		consumer(k.(string), v.(dgo.Value))
		return true
	})
}

//@ contract (*serverCtx).Invocation
//@ property C11 C17
//@ inline
//@ effects none
//@ nopanic
func specScInvocation(c *serverCtx) api.Invocation { return c.invocation }

// The options and everything else of the context remain the same.
//
//@ contract (*serverCtx).ForData
//@ property C17
//@ effects reads
//@ nopanic
func specScForData(c *serverCtx) api.ServerContext {
	n := &serverCtx{}
	n.ProviderContext = c.ProviderContext
	n.invocation = c.invocation.ForData()
	return n
}

//@ contract (*serverCtx).ForLookupOptions
//@ property C17 C27
//@ effects reads
//@ nopanic
func specScForLookupOptions(c *serverCtx) api.ServerContext {
	n := &serverCtx{}
	n.ProviderContext = c.ProviderContext
	n.invocation = c.invocation.ForLookupOptions()
	return n
}
