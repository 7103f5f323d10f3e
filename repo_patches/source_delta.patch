From 98cacf657b7f796172bddf812698ce14facae45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:42 +0000
Subject: [PATCH 01/26] fix: guard lookup and scope interpolation against
 endless recursion

The guard documented for the Invocation was never entered, so a value (or a
scope variable) that refers to itself exhausted the stack and killed the
process.
---
 session/interpolate.go |  7 +++++--
 session/invocation.go  | 17 +++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/session/interpolate.go b/session/interpolate.go
index 565b8c7..3fe297a 100644
--- a/session/interpolate.go
+++ b/session/interpolate.go
@@ -161,8 +161,11 @@ func (ic *ivContext) InterpolateString(str string, allowMethods bool) (dgo.Value
 func (ic *ivContext) InterpolateInScope(expr string, allowMethods bool) dgo.Value {
 	key := api.NewKey(expr)
 	if val := ic.Scope().Get(key.Root()); val != nil {
-		val, _ = ic.doInterpolate(val, allowMethods)
-		return key.Dig(ic, val)
+		// A variable may share its name with a key so the stacked name must tell them apart
+		return ic.withName(`%{`+expr+`}`, func() dgo.Value {
+			val, _ := ic.doInterpolate(val, allowMethods)
+			return key.Dig(ic, val)
+		})
 	}
 	return nil
 }
diff --git a/session/invocation.go b/session/invocation.go
index e1233b8..2d0a66c 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -249,6 +249,13 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 		})
 	}
 
+	return ic.WithKey(key, func() dgo.Value {
+		return ic.lookupData(key, rootKey, options)
+	})
+}
+
+// lookupData looks up the root of the key, interpolates what is found, and then digs into it
+func (ic *ivContext) lookupData(key api.Key, rootKey string, options dgo.Map) dgo.Value {
 	v := ic.TopProvider()(ic.ServerContext(options), rootKey)
 	if v != nil {
 		dc := ic.ForData()
@@ -259,10 +266,16 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 }
 
 func (ic *ivContext) WithKey(key api.Key, actor dgo.Producer) dgo.Value {
-	if util.ContainsString(ic.nameStack, key.Source()) {
+	return ic.withName(key.Source(), actor)
+}
+
+// withName pushes the given name to the stack of names that guards against endless recursion and calls the
+// actor, then pops the name again before returning.
+func (ic *ivContext) withName(name string, actor dgo.Producer) dgo.Value {
+	if util.ContainsString(ic.nameStack, name) {
 		panic(fmt.Errorf(`recursive lookup detected in [%s]`, strings.Join(ic.nameStack, `, `)))
 	}
-	ic.nameStack = append(ic.nameStack, key.Source())
+	ic.nameStack = append(ic.nameStack, name)
 	defer func() {
 		ic.nameStack = ic.nameStack[:len(ic.nameStack)-1]
 	}()
-- 
2.43.0


From 951f5caf42009726cd9afbac78a594e280749f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 02/26] fix: a quoted key segment is a literal string wherever
 it is found

A quoted segment followed by another segment was parsed as if it was
unquoted, so that a.'1'.b used an array index and a.''.b and '1'.a were
rejected although a.'1', a.'' and '1' were not.
---
 api/key.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/api/key.go b/api/key.go
index 5104384..38282bc 100644
--- a/api/key.go
+++ b/api/key.go
@@ -45,7 +45,7 @@ type (
 // NewKey parses the given string into a Key
 func NewKey(str string) Key {
 	b := bytes.NewBufferString(``)
-	return &key{str, parseUnquoted(b, str, str, []interface{}{})}
+	return &key{str, parseUnquoted(b, str, str, []interface{}{}, false)}
 }
 
 var keyType = tf.NewNamed(`hiera.key`,
@@ -145,8 +145,12 @@ func (k *key) String() string {
 	return k.Type().(dgo.NamedType).ValueString(k)
 }
 
-func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []interface{} {
+func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}, quoted bool) []interface{} {
 	mungedPart := func(ix int, part string) interface{} {
+		if quoted {
+			// A quoted segment is always a literal string
+			return part
+		}
 		if i, err := strconv.ParseInt(part, 10, 32); err == nil {
 			if ix == 0 {
 				panic(fmt.Errorf(`key '%s' first segment cannot be an index`, key))
@@ -166,6 +170,7 @@ func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []int
 		case '.':
 			parts = append(parts, mungedPart(len(parts), b.String()))
 			b.Reset()
+			quoted = false
 		default:
 			_, _ = b.WriteRune(c)
 		}
@@ -179,7 +184,7 @@ func parseQuoted(b *bytes.Buffer, q rune, key, part string, parts []interface{})
 			if i == len(part)-1 {
 				return append(parts, b.String())
 			}
-			return parseUnquoted(b, key, part[i+1:], parts)
+			return parseUnquoted(b, key, part[i+1:], parts, true)
 		}
 		_, _ = b.WriteRune(c)
 	}
-- 
2.43.0


From dd372da905b825f08fe6cb16a7d84ef1020c1a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 03/26] fix: providers use the root of a key verbatim instead
 of parsing it again

---
 api/key.go                  | 5 +++++
 provider/configlookupkey.go | 2 +-
 provider/muxlookupkey.go    | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/api/key.go b/api/key.go
index 38282bc..dab9c42 100644
--- a/api/key.go
+++ b/api/key.go
@@ -48,6 +48,11 @@ func NewKey(str string) Key {
 	return &key{str, parseUnquoted(b, str, str, []interface{}{}, false)}
 }
 
+// NewRootKey creates a Key with one single part which is the given string. The string is not parsed.
+func NewRootKey(root string) Key {
+	return &key{root, []interface{}{root}}
+}
+
 var keyType = tf.NewNamed(`hiera.key`,
 	func(v dgo.Value) dgo.Value {
 		return NewKey(v.String())
diff --git a/provider/configlookupkey.go b/provider/configlookupkey.go
index 21139f2..d2abd51 100644
--- a/provider/configlookupkey.go
+++ b/provider/configlookupkey.go
@@ -20,7 +20,7 @@ func ConfigLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 func ConfigLookupKeyAt(sc api.ServerContext, configPath, key, moduleName string) dgo.Value {
 	ic := sc.Invocation()
 	cfg := ic.Config(configPath, moduleName)
-	k := api.NewKey(key)
+	k := api.NewRootKey(key)
 	if ic.LookupOptionsMode() {
 		return cfg.LookupOptions(k)
 	}
diff --git a/provider/muxlookupkey.go b/provider/muxlookupkey.go
index 02995bf..61bf7c3 100644
--- a/provider/muxlookupkey.go
+++ b/provider/muxlookupkey.go
@@ -43,7 +43,7 @@ func MuxLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc = sc.ForData()
 	args.Set(0, sc)
 	ic = sc.Invocation()
-	return ic.WithLookup(api.NewKey(key), func() dgo.Value {
+	return ic.WithLookup(api.NewRootKey(key), func() dgo.Value {
 		ic.SetMergeStrategy(sc.Option(`merge`), luOpts)
 		return ic.LookupAndConvertData(func() dgo.Value {
 			return ic.MergeStrategy().MergeLookup(spv, ic, luFunc)
-- 
2.43.0


From 550b40fe2d0107dfb0e254c0f512a3c76be4e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 04/26] fix: REST requests never share the array that holds
 their variables

---
 hieraserver/rest/rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index da49da3..5816ad4 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -133,7 +133,7 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}
 		opts.Merge = params.Get(`merge`)
 		opts.Type = params.Get(`type`)
-		opts.Variables = append(opts.Variables, params[`var`]...)
+		opts.Variables = append(opts.Variables[:len(opts.Variables):len(opts.Variables)], params[`var`]...)
 		opts.RenderAs = `json`
 		out := bytes.Buffer{}
 		if hiera.LookupAndRender(ctx, &opts, []string{key}, &out) {
-- 
2.43.0


From 53c5489225c4e3377ad29704f55c2953934f1a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 05/26] fix: restore the invocation scope when a doer panics

---
 session/invocation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index 2d0a66c..3a7907b 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -296,9 +296,11 @@ func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
 	sc := ic.scope
+	defer func() {
+		ic.scope = sc
+	}()
 	ic.scope = scope
 	doer()
-	ic.scope = sc
 }
 
 func (ic *ivContext) Scope() dgo.Keyed {
-- 
2.43.0


From 5f47ecf05b07326a91ea4ae6706e187935d89c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 06/26] fix: data_dig functions receive the provider context

---
 internal/datadigprovider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datadigprovider.go b/internal/datadigprovider.go
index 9f621d3..72384d4 100644
--- a/internal/datadigprovider.go
+++ b/internal/datadigprovider.go
@@ -44,7 +44,7 @@ func (dh *dataDigProvider) loadFunction(ic api.Invocation) (pf hiera.DataDig) {
 	he := dh.hierarchyEntry
 	if f, ok := ic.LoadFunction(he); ok {
 		return func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
-			return f.(dgo.Function).Call(vf.Values(ic, key))[0]
+			return f.(dgo.Function).Call(vf.MutableValues(pc, key))[0]
 		}
 	}
 	ic.ReportText(func() string { return fmt.Sprintf(`unresolved function '%s'`, he.Function().Name()) })
-- 
2.43.0


From 928fb7b060079c7e983edc38698e0837a943fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 07/26] fix: unique merge removes duplicates when only one
 source has a value

---
 merge/strategy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge/strategy.go b/merge/strategy.go
index 677184b..0ed25b1 100644
--- a/merge/strategy.go
+++ b/merge/strategy.go
@@ -164,7 +164,7 @@ func (d *unique) mergeSingle(rv reflect.Value, vf func(l interface{}) dgo.Value)
 
 func (d *unique) convertValue(v dgo.Value) dgo.Value {
 	if av, ok := v.(dgo.Array); ok {
-		return av.Flatten()
+		return av.Flatten().Unique()
 	}
 	return vf.Values(v)
 }
-- 
2.43.0


From 8ec662d7f6250be5988a66a9fcb12bdbfbfb80d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 08/26] fix: an invalid config never leaves a lock behind that
 blocks later lookups

---
 session/invocation.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index 3a7907b..a8c2a3e 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -94,16 +94,27 @@ func (ic *ivContext) Config(configPath string, moduleName string) api.ResolvedCo
 			// The loaded value is a lock. Wait for new config to be stored in place of
 			// this lock
 			lock.RLock()
-			val, _ := sc.Load(cp)
-			conf = val.(api.Config)
+			val, ok := sc.Load(cp)
 			lock.RUnlock()
+			if !ok {
+				// The holder of the lock failed to create the config
+				return ic.Config(configPath, moduleName)
+			}
+			conf = val.(api.Config)
 		} else {
 			conf = lv.(api.Config)
 		}
 	} else {
-		conf = config.New(configPath)
-		sc.Store(cp, conf)
-		myLock.Unlock()
+		func() {
+			defer func() {
+				if conf == nil {
+					sc.Delete(lc)
+				}
+				myLock.Unlock()
+			}()
+			conf = config.New(configPath)
+			sc.Store(cp, conf)
+		}()
 	}
 	rc := Resolve(ic, conf, moduleName)
 	ic.configs[configPath] = rc
-- 
2.43.0


From 7161cbe5885af4e472b5c9bfabc36b9c69e8e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 09/26] fix: deep merge removes duplicates also when one of the
 arrays is empty

---
 merge/deepmerge.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/merge/deepmerge.go b/merge/deepmerge.go
index ec1142c..4857e6b 100644
--- a/merge/deepmerge.go
+++ b/merge/deepmerge.go
@@ -47,10 +47,7 @@ func deep(a, b dgo.Value, options dgo.Map) (dgo.Value, bool) {
 		}
 
 	case dgo.Array:
-		if ab, ok := b.(dgo.Array); ok && ab.Len() > 0 {
-			if a.Len() == 0 {
-				return ab, true
-			}
+		if ab, ok := b.(dgo.Array); ok {
 			an := a.WithAll(ab).Unique()
 			if !an.Equals(a) {
 				return an, true
-- 
2.43.0


From 19d4805e12fff1afa7f71d5f13b6342ad229eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:11 +0000
Subject: [PATCH 10/26] fix: killing a plugin that is already dead releases its
 lock

---
 session/pluginloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 72b724e..af5a926 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -206,6 +206,7 @@ func initCmd(opts dgo.Map, path string) *exec.Cmd {
 
 func (p *plugin) kill() {
 	p.lock.Lock()
+	defer p.lock.Unlock()
 	process := p.process
 	if process == nil {
 		return
@@ -214,7 +215,6 @@ func (p *plugin) kill() {
 	defer func() {
 		p.wGroup.Wait()
 		p.process = nil
-		p.lock.Unlock()
 	}()
 
 	graceful := true
-- 
2.43.0


From 5583dea8b046d16f582df86fb5e335131780cd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 11/26] fix: MuxLookupKey returns nil when called with a
 foreign provider context

---
 provider/muxlookupkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/muxlookupkey.go b/provider/muxlookupkey.go
index 61bf7c3..8c287c3 100644
--- a/provider/muxlookupkey.go
+++ b/provider/muxlookupkey.go
@@ -20,10 +20,10 @@ const LookupKeyFunctions = `hiera::lookup::providers`
 // requires no configuration files.
 func MuxLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc, ok := pc.(api.ServerContext)
-	ic := sc.Invocation()
 	if !ok {
 		return nil
 	}
+	ic := sc.Invocation()
 	var rpv dgo.Array
 	if rpv, ok = ic.SessionOptions().Get(LookupKeyFunctions).(dgo.Array); !ok {
 		return nil
-- 
2.43.0


From 1147b8a18f29a917bd38bb7aeb0f99c775e81ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:26 +0000
Subject: [PATCH 12/26] fix: a directory or file with a name like that of the
 module no longer hides the module

Module names are matched ignoring case, so a directory can hold several entries that match. The search
stopped at the first of them, in the arbitrary order of the directory, also when it was not a module.
---
 provider/modulelookupkey.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 1b9f94a..447a9a3 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -93,18 +93,18 @@ func loadModule(path, moduleName string) dgo.Function {
 			continue
 		}
 		if !fi.IsDir() {
-			break
+			continue
 		}
 		configPath := filepath.Join(path, fi.Name(), config.FileName)
 		cf, err := os.Lstat(configPath)
 		if err != nil {
 			if os.IsNotExist(err) {
-				break
+				continue
 			}
 			panic(err)
 		}
 		if cf.IsDir() {
-			break
+			continue
 		}
 		return loadHieraConfig(configPath, moduleName)
 	}
-- 
2.43.0


From 874acee66287b552b8e378255db3e0fb6950e98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 13/26] fix: the function of a hierarchy entry was interpolated
 twice

---
 config/entry.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/config/entry.go b/config/entry.go
index 3396181..6714c02 100644
--- a/config/entry.go
+++ b/config/entry.go
@@ -110,7 +110,6 @@ func (e *entry) resolveFunction(ic api.Invocation, defaults api.Entry) {
 }
 
 func (e *entry) resolveDataDir(ic api.Invocation, defaults api.Entry) {
-	e.resolveFunction(ic, defaults)
 	if e.dataDir == `` {
 		if defaults == nil {
 			e.dataDir = defaultDataDir()
-- 
2.43.0


From e8d0d7690a15063b9b6fc689becdfa3c597aa019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:59 +0000
Subject: [PATCH 14/26] fix: an interpolated lookup in a value of a lookup_key
 function failed with a nil dereference

---
 session/invocation.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/session/invocation.go b/session/invocation.go
index a8c2a3e..6c7ec8a 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -267,6 +267,12 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 
 // lookupData looks up the root of the key, interpolates what is found, and then digs into it
 func (ic *ivContext) lookupData(key api.Key, rootKey string, options dgo.Map) dgo.Value {
+	if ic.DataMode() && ic.strategy == nil {
+		// No lookup has determined a strategy yet so this one must
+		lic := *ic
+		lic.mode = topLevelMode
+		ic = &lic
+	}
 	v := ic.TopProvider()(ic.ServerContext(options), rootKey)
 	if v != nil {
 		dc := ic.ForData()
-- 
2.43.0


From e4ae5edb6587fe0fb1e66ac73969eff1d103c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:06 +0000
Subject: [PATCH 15/26] fix: a new session froze the scope and other values
 that belong to the caller

---
 session/session.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/session/session.go b/session/session.go
index 2ee9d34..7b36c55 100644
--- a/session/session.go
+++ b/session/session.go
@@ -87,7 +87,8 @@ func New(parent context.Context, topProvider hiera.LookupKey, oif interface{}, l
 	} else {
 		scope = vf.Map()
 	}
-	options.Freeze()
+	// The values belong to the caller so copy them rather than freezing them in place
+	options = options.FrozenCopy().(dgo.Map)
 
 	vars := map[string]interface{}{
 		hieraCacheKey:            &sync.Map{},
-- 
2.43.0


From 3560db0ae805d87a09d78e720af30040686300c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 16/26] fix: a variable argument whose value spans several
 lines could not be split

---
 hiera/hiera.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiera/hiera.go b/hiera/hiera.go
index d67129d..4f95d2e 100644
--- a/hiera/hiera.go
+++ b/hiera/hiera.go
@@ -205,7 +205,7 @@ func DoWithParent(parent context.Context, tp hiera.LookupKey, options interface{
 }
 
 // varSplit splits on either ':' or '=' but not on '::', ':=', '=:' or '=='
-var varSplit = regexp.MustCompile(`\A(.*?[^:=])[:=]([^:=].*)\z`)
+var varSplit = regexp.MustCompile(`(?s)\A(.*?[^:=])[:=]([^:=].*)\z`)
 var needParsePrefix = []string{`{`, `[`, `"`, `'`}
 
 // LookupAndRender performs a lookup using the given command options and arguments and renders the result on the given
-- 
2.43.0


From 446f2a6894777dc13265e487bbd2f0d5bef2bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 17/26] fix: the REST service replied 404 for keys that contain
 a newline

---
 hieraserver/rest/rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index 5816ad4..e29b175 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -70,7 +70,7 @@ func newCommand() *cobra.Command {
 	return cmd
 }
 
-var keyPattern = regexp.MustCompile(`^/lookup/(.*)$`)
+var keyPattern = regexp.MustCompile(`(?s)^/lookup/(.*)$`)
 
 func startServer(_ *cobra.Command, _ []string) {
 	configOptions := map[string]interface{}{
-- 
2.43.0


From 9f9c3e370df70d6ea0f87baa62e09869088822aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 18/26] fix: a plugin with a protocol version between 1 and 2
 passed the handshake

---
 session/pluginloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index af5a926..721055e 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -242,7 +242,7 @@ func (p *plugin) kill() {
 // initialize the plugin with the given meta-data
 func (p *plugin) initialize(meta map[string]interface{}) {
 	v, ok := meta[`version`].(float64)
-	if !(ok && int(v) == hiera.ProtoVersion) {
+	if !(ok && v == hiera.ProtoVersion) {
 		panic(fmt.Errorf(`plugin %s uses unsupported protocol %v`, p.path, v))
 	}
 	p.addr, ok = meta[`address`].(string)
-- 
2.43.0


From 6bdfc66e615e57e30fcfcf3385417eed4651dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:51 +0000
Subject: [PATCH 19/26] fix: restore explanations where several steps share a
 location

The streamer emits the second occurrence of a location as a reference to the
first. That reference cannot be restored to a location so the step was restored
without one, and rendering it failed with a nil pointer dereference.
---
 explain/explainer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/explain/explainer.go b/explain/explainer.go
index e1e8603..cedb322 100644
--- a/explain/explainer.go
+++ b/explain/explainer.go
@@ -481,10 +481,21 @@ func (en *explainLocation) initialize(ih dgo.Map) {
 
 func (en *explainLocation) initMap() dgo.Map {
 	m := initMap(en)
-	m.Put(`location`, en.location)
+	m.Put(`location`, copyLocation(en.location))
 	return m
 }
 
+// copyLocation returns a copy of the given location. Different nodes may share a location but all except the first
+// occurrence of a shared value are streamed as references and those cannot be restored to a location.
+func copyLocation(loc api.Location) dgo.Value {
+	if loc != nil {
+		if nt, ok := loc.Type().(dgo.NamedType); ok {
+			return nt.New(nt.ExtractInitArg(loc))
+		}
+	}
+	return loc
+}
+
 func (en *explainLocation) Equals(value interface{}) bool {
 	return en == value
 }
-- 
2.43.0


From f959b5a2beb807a0288ea1d397cff77c8f5ea7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:51 +0000
Subject: [PATCH 20/26] fix: restore explanation steps that have no properties

Data that consists of nothing but the name of a type is decoded to that type, so
an explanation with an empty step could not be restored.
---
 explain/explainer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/explain/explainer.go b/explain/explainer.go
index cedb322..712f5d9 100644
--- a/explain/explainer.go
+++ b/explain/explainer.go
@@ -69,7 +69,14 @@ type explainTreeNode struct {
 
 var explainNodeRType = reflect.TypeOf((*explainNode)(nil)).Elem()
 
-var extractFunc = func(v dgo.Value) dgo.Value { return v.(explainNode).initMap() }
+var extractFunc = func(v dgo.Value) dgo.Value {
+	m := v.(explainNode).initMap()
+	if m.Len() == 0 {
+		// Data that consists of nothing but the name of the type represents the type and not an instance of it
+		m.Put(`texts`, vf.Values())
+	}
+	return m
+}
 var createFunc = func(value dgo.Value, en explainNode) dgo.Value {
 	en.initialize(value.(dgo.Map))
 	return en
-- 
2.43.0


From 9a474cd1e98eb9f082795907044db5d3d20e965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:22 +0000
Subject: [PATCH 21/26] fix: answer REST lookups of keys that contain //, . or
 .. instead of redirecting them

---
 hieraserver/rest/rest.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index e29b175..61656d7 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -144,9 +144,8 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}
 	}
 
-	router := http.NewServeMux()
-	router.HandleFunc("/lookup/", doLookup)
-	return router
+	// A ServeMux is not used here because it redirects paths, and hence keys, that contain "//", "." or ".."
+	return http.HandlerFunc(doLookup)
 }
 
 func loadCertPool(pemFile string) (*x509.CertPool, error) {
-- 
2.43.0


From 8b75d910ee7e0f7f5abbd234639fce9f3f89a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 22/26] fix: report JSON data files with text after the first
 value instead of ignoring it

---
 provider/jsondata.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/provider/jsondata.go b/provider/jsondata.go
index 74e1cee..a540cfd 100644
--- a/provider/jsondata.go
+++ b/provider/jsondata.go
@@ -1,6 +1,8 @@
 package provider
 
 import (
+	"encoding/json"
+	"fmt"
 	"io/ioutil"
 	"os"
 
@@ -25,6 +27,11 @@ func JSONData(ctx hiera.ProviderContext) dgo.Map {
 		}
 		panic(err)
 	}
+	// The streamer stops reading at the end of the first value so it doesn't detect what's wrong after that
+	var raw json.RawMessage
+	if err = json.Unmarshal(bs, &raw); err != nil {
+		panic(fmt.Errorf("could not unmarshal %s: %s", path, err.Error()))
+	}
 	v := streamer.UnmarshalJSON(bs, nil)
 	if data, ok := v.(dgo.Map); ok {
 		return data
-- 
2.43.0


From 678b2091f390d295e6219689e57b8e83d2c70c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:11 +0000
Subject: [PATCH 23/26] fix: do not leak the connection of every call to a
 plugin

---
 session/pluginloader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 721055e..3db08b9 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -339,6 +339,8 @@ func (p *plugin) callPlugin(luType, name string, params url.Values) dgo.Value {
 			Dial: func(_, _ string) (net.Conn, error) {
 				return net.Dial(p.network, p.addr)
 			},
+			// The transport serves this call only, so a connection that is kept alive would never be used again
+			DisableKeepAlives: true,
 		},
 	}
 	resp, err := client.Get(us)
-- 
2.43.0


From b7f0810748e6ac7ebeaf97ebf6cae1b4ec73c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:33 +0000
Subject: [PATCH 24/26] fix: pass the arguments of a conversion to the
 conversion

A convert_to with arguments, such as [int, 16], passed one argument that was
an array of the value and the arguments, so such a conversion never worked.
---
 session/invocation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index 6c7ec8a..3003c56 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -205,7 +205,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 
 	if v != nil && convertToType != nil {
 		if convertToArgs != nil {
-			v = vf.Arguments(vf.Values(v).WithAll(convertToArgs))
+			v = vf.ArgumentsFromArray(vf.Values(v).WithAll(convertToArgs))
 		}
 		v = vf.New(convertToType, v)
 	}
-- 
2.43.0


From e48f360908155ab52f1a6d6f22aa8d03a15ffa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:12 +0000
Subject: [PATCH 25/26] fix: let a merge option that says first override the
 lookup_options

An explicit merge=first was dropped, so that the lookup_options of the key decided.
---
 cli/hiera.go   | 2 +-
 hiera/hiera.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/hiera.go b/cli/hiera.go
index 6c463bb..145be79 100644
--- a/cli/hiera.go
+++ b/cli/hiera.go
@@ -89,7 +89,7 @@ func NewCommand() *cobra.Command {
 	flags := cmd.Flags()
 	flags.StringVar(&logLevel, `loglevel`, `error`,
 		`error/warn/info/debug`)
-	flags.StringVar(&cmdOpts.Merge, `merge`, `first`,
+	flags.StringVar(&cmdOpts.Merge, `merge`, ``,
 		`first/unique/hash/deep`)
 	flags.StringVar(&configPath, `config`, ``,
 		`path to the hiera config file. Overrides <current directory>/`+config.FileName)
diff --git a/hiera/hiera.go b/hiera/hiera.go
index 4f95d2e..0c1d249 100644
--- a/hiera/hiera.go
+++ b/hiera/hiera.go
@@ -214,7 +214,7 @@ func LookupAndRender(c api.Session, opts *CommandOptions, args []string, out io.
 	tp := parseType(opts.Type, c.Dialect())
 
 	var options dgo.Map
-	if !(opts.Merge == `` || opts.Merge == `first`) {
+	if opts.Merge != `` {
 		options = vf.Map(`merge`, opts.Merge)
 	}
 
-- 
2.43.0


From af14886aeb66d831a58f98c234d74cafef4a2ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:12 +0000
Subject: [PATCH 26/26] fix: do not take a directory for one of the files that
 a glob finds

---
 config/glob.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/config/glob.go b/config/glob.go
index 7a5ffe3..10b52e7 100644
--- a/config/glob.go
+++ b/config/glob.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"fmt"
+	"os"
 	"path/filepath"
 	"reflect"
 
@@ -64,9 +65,12 @@ func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	r, _ := ic.InterpolateString(g.Original(), false)
 	rp := filepath.Join(dataDir, r.String())
 	matches, _ := doublestar.Glob(rp)
-	ls := make([]api.Location, len(matches))
-	for i, m := range matches {
-		ls[i] = &path{g.Original(), m, true}
+	ls := make([]api.Location, 0, len(matches))
+	for _, m := range matches {
+		// The pattern may match directories too
+		if fi, err := os.Stat(m); err == nil && !fi.IsDir() {
+			ls = append(ls, &path{g.Original(), m, true})
+		}
 	}
 	return ls
 }
-- 
2.43.0

