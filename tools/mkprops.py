import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(d)
p("C01","A lookup key parses into exactly the segments its text spells out",
"A key string is split at every unquoted dot; an unquoted segment that is a decimal integer becomes an index, every other segment a string, and text between matching single or double quotes is literal (dots included, quotes removed, never an index). A key with an empty unquoted segment, an unterminated quote, or an unquoted integer as its first segment is rejected with an error. The root of the key is its first segment, and the key reports the text it was made from unchanged.",
["inputs"],"for every string used as a key","the tests parse about ten keys; quoting, dots and integers combine without limit and the parser carries state from one segment to the next",
["api/key.go"],[("NewKey, parseUnquoted, parseQuoted","api/key.go")],["api.NewKey(...).Parts()","api.NewKey(...).Root()","panic value"])
p("C02","Dotted keys dig into a value exactly along their segments",
"Digging with a key whose first segment was already looked up follows the remaining segments in order: an index selects that element of an array or the entry of a map with that integer key, a string selects the map entry with that string key. If any step does not exist (index out of range, missing entry, wrong kind of value) the result is not found, never a partial value and never an error. Burying a value under the same key produces nested single-entry maps, one for each segment after the first, innermost last.",
["inputs"],"for every key, every nested value","tests dig three or four literal paths; depth, shapes, negative and out-of-range indexes and explicit nulls are unbounded",
["api/key.go","session/invocation.go"],[("key.Dig, key.Bury","api/key.go"),("ivContext.lookupData","session/invocation.go")],["hiera.Lookup result","api.Key.Dig","api.Key.Bury"])
p("C03","First-found lookup takes the first source with a value and stops there",
"With the first strategy (the default) the result is the value of the first source, in the order given, that has a value for the key; a source that has none is skipped, and when no source has one the result is not found. Sources after the one that answered are never consulted, and those before it are consulted exactly once each, in order.",
["inputs","configurations"],"for any number of sources and any pattern of present and absent values","tests use two or three sources and never observe which later sources were consulted",
["merge/strategy.go","session/invocation.go"],[("firstFound.MergeLookup, variantLookup, GetStrategy","merge/strategy.go")],["MergeStrategy.MergeLookup result","calls made to the lookup function"])
p("C04","Unique and hash merges combine all found values in priority order",
"A unique merge consults every source in order and yields one array holding the values found (arrays are flattened, other values are wrapped), each distinct element once, in order of first appearance; a single source yields its own value, flattened and de-duplicated if it is an array. A hash merge yields, over all maps found, the union of their entries where the value from the earliest source wins for a repeated key; when the values to combine are not both maps the earlier one is kept. Sources without a value contribute nothing, and not found results only when none has one.",
["inputs","configurations"],"for every list of sources and every value they hold","tests merge two or three fixed sources; nesting, duplicates, mixed kinds and absent sources combine without bound",
["merge/strategy.go"],[("doLookup, unique, hashMerge","merge/strategy.go")],["MergeStrategy.MergeLookup result"])
p("C05","Deep merge unions maps recursively and arrays by unique elements",
"Deep merging two maps gives a map with the keys of both, where a key present in both has the deep merge of its two values and every other key keeps its own value; merging two arrays gives the elements of the first followed by those of the second with duplicates removed, without merging inside elements; for any other pair the first (higher priority) value is the result. A merge of several sources folds in priority order, neither argument is ever modified, and the reported merged flag is true exactly when the result differs from the first argument.",
["inputs"],"for every pair (and list) of nested values","tests merge three literal pairs; depth, mixed kinds, duplicates and empty containers are unbounded",
["merge/deepmerge.go","merge/strategy.go"],[("Deep, deep","merge/deepmerge.go"),("deepMerge.merge, doLookup","merge/strategy.go")],["merge.Deep result and flag","MergeLookup result of strategy deep"])
p("C06","Hierarchy levels and their locations are consulted in configured order",
"A lookup in a configuration consults its hierarchy levels in the order listed, and within one level its locations in the order listed, combining the results with the lookup's merge strategy. A location that does not exist contributes nothing and its provider is not called for it; a level without any location setting is consulted exactly once without a location; a level whose patterns or mapped paths expanded to nothing contributes nothing.",
["inputs","configurations"],"for every hierarchy, every set of existing and missing locations, every strategy","tests use a few fixed hierarchies; which providers are called for which location is not observed",
["session/invocation.go","session/resolvedconfig.go","provider/configlookupkey.go"],[("MergeHierarchy, MergeLocations, invokeWithLocation","session/invocation.go"),("CreateProviders, CreateProvider","session/resolvedconfig.go"),("ConfigLookupKeyAt","provider/configlookupkey.go")],["calls to DataProvider.LookupKey","lookup result"])
p("C07","The merge strategy is chosen: explicit option, then lookup_options, then first",
"A merge option given with the lookup always decides the strategy; otherwise the merge entry of the key's lookup_options decides; otherwise the first strategy is used. Both may be a strategy name or a map with a strategy name plus options for it; an unknown strategy name is an error. The lookup_options of a configuration are the deep merge of the lookup_options found in all its levels, consulted by the full root of the key.",
["inputs","configurations"],"for every combination of option, lookup_options and configuration","tests try single cases; the precedence must hold for all combinations and value kinds",
["session/invocation.go","session/resolvedconfig.go","provider/configlookupkey.go","provider/muxlookupkey.go","merge/strategy.go"],[("SetMergeStrategy","session/invocation.go"),("resolvedConfig.Resolve, LookupOptions","session/resolvedconfig.go"),("ConfigLookupKeyAt","provider/configlookupkey.go"),("MuxLookupKey","provider/muxlookupkey.go"),("GetStrategy","merge/strategy.go")],["Invocation.MergeStrategy()","lookup result"])
p("C08","Overrides, names, defaults and types apply in the documented order",
"A lookup of several names returns, in this order, the first override present for one of the names, the first name for which the lookup finds a value, the first entry of the default hash for one of the names, the default value, the result of the default function, or not found. The value returned is an instance of the requested type: it is passed through unchanged when it already is one and otherwise converted, and a failing conversion is an error. Looking up all names returns a map with an entry for exactly those names that were found by override, lookup or default hash, each converted to the type declared for that name.",
["inputs"],"for every list of names and every combination of override, default and type arguments","tests exercise a handful of combinations of eight arguments",
["hiera/hiera.go"],[("Lookup, Lookup2, LookupAll, lookupInMap, ensureType, ensureTypeFromMap","hiera/hiera.go")],["results of hiera.Lookup, Lookup2, LookupAll"])
p("C09","String interpolation replaces each expression by what its method denotes",
"Every %{...} expression in a string is replaced, left to right, by: the scope value of its key (dotted keys dig), the text itself for literal, or the looked-up value for lookup and hiera; a missing value and the documented empty expressions give the empty string and text outside expressions is unchanged. alias and strict_alias are accepted only when the expression is the entire string and yield the looked-up value itself, alias yielding the empty string and strict_alias nothing when it is missing. An unknown method, or any method where methods are not allowed, is an error.",
["inputs"],"for every string, scope and data","tests cover each method once or twice; expressions combine, nest and repeat without bound",
["session/interpolate.go"],[("InterpolateString, getMethodAndData, InterpolateInScope","session/interpolate.go")],["Invocation.InterpolateString","lookup result"])
p("C10","Interpolating a collection keeps its shape and leaves the original alone",
"Interpolating an array gives an array of the same length whose elements are the interpolated elements in the same order; interpolating a map interpolates every key and every value; other values are returned as they are. A value in which nothing needs interpolation is returned itself, and the value passed in is never modified.",
["inputs"],"for every nested value","tests interpolate small fixed maps; depth and mixture are unbounded and aliasing of the original is not observed",
["session/interpolate.go"],[("Interpolate, doInterpolate","session/interpolate.go")],["Invocation.Interpolate result","value passed in"])
p("C11","Scopes shadow correctly and are restored after every nested use",
"A variable of an invocation's own scope hides the session's variable of the same name, every other session variable stays visible, and a variable in neither is absent. Work done under a temporary scope sees that scope and the previous scope is back afterwards, also when the work fails. A variable mapped for mapped_paths hides only the variable with that name.",
["inputs","fault_sequences"],"for every pair of scopes, every name, and normal or failing completion","tests read a few variables and never fail inside a temporary scope",
["session/invocation.go","session/session.go","config/mappedpaths.go"],[("nestedScope.Get, DoWithScope","session/invocation.go"),("session.Invocation","session/session.go"),("scopeWithVar.Get","config/mappedpaths.go")],["Invocation.Scope().Get"])
p("C12","Only well-formed configurations are accepted",
"A configuration file is accepted only if it is a version 5 map of the documented shape in which hierarchy names are unique within a hierarchy, each entry names at most one function and at most one kind of location, and no option uses a reserved name; anything else is rejected with an error. An accepted configuration has exactly the listed levels in the listed order with the given settings, and a missing file, hierarchy or defaults section gives the documented defaults.",
["inputs","configurations"],"for every configuration file content","tests load about ten configurations; the accepted language is infinite",
["config/config.go","config/entry.go"],[("New, createConfig, createHierarchy, createEntry","config/config.go"),("entry.initialize","config/entry.go")],["config.New result or error"])
p("C13","Entries inherit unset settings from defaults; resolving never alters the config",
"Resolving a hierarchy entry yields an entry in which the function, options, data directory and plugin directory are the entry's own, interpolated in the current scope, when set, and otherwise those of the defaults section, and otherwise the built-in defaults; a relative plugin directory is taken relative to the configuration's directory. The shared configuration the entry came from is never modified, so resolving it again in another scope starts from the original text.",
["inputs","configurations","histories"],"for every entry, defaults and scope, and any number of resolutions","tests resolve each configuration once and never compare the shared configuration before and after",
["config/entry.go","config/function.go","session/resolvedconfig.go"],[("entry.Resolve and its resolve steps","config/entry.go"),("function.Resolve","config/function.go"),("CreateProviders","session/resolvedconfig.go")],["api.Entry.Resolve result","original api.Entry"])
p("C14","Locations resolve to the files and URIs their templates denote",
"A path or uri template resolves to exactly one location with the template interpolated and, for a path, joined to the data directory and marked existing exactly when the file exists. A glob resolves to the files matching the interpolated pattern in the data directory, all existing; mapped paths resolve to one path per element of the named variable, in order, with the element visible under the given name while the template is interpolated (a string counts as one element, anything else gives none). An entry's locations are those of its templates concatenated in order.",
["inputs","configurations"],"for every template, scope, data directory and file system state","tests resolve a few templates against one directory tree",
["config/path.go","config/uri.go","config/glob.go","config/mappedpaths.go","config/entry.go"],[("path.Resolve","config/path.go"),("uri.Resolve","config/uri.go"),("glob.Resolve","config/glob.go"),("mappedPaths.Resolve","config/mappedpaths.go"),("entry.resolveLocations","config/entry.go")],["api.Location.Resolve result"])
p("C15","Data providers get the right function, key and options, and cache per location",
"A level calls the function it names (a built-in or a loaded one) with the root of the key and the level's options, to which the resolved location is added as path when there is one; a function that cannot be found yields nothing. A data_hash function is called at most once per location of a resolved level and its map is reused for later keys; the value for a key is the entry of that map, interpolated. What a function returns for a key is what the level contributes.",
["inputs","histories"],"for every entry, location and sequence of lookups","tests never count calls or inspect the options a provider function receives",
["internal/datahashprovider.go","internal/lookupkeyprovider.go","internal/datadigprovider.go","session/session.go"],[("dataHashProvider.LookupKey, dataHash, loadFunction","internal/datahashprovider.go"),("lookupKeyProvider.LookupKey, loadFunction","internal/lookupkeyprovider.go"),("dataDigProvider.LookupKey, loadFunction","internal/datadigprovider.go"),("session.LoadFunction","session/session.go")],["arguments received by the provider function","DataProvider.LookupKey result"])
p("C16","A configuration is loaded once per session and a failure never blocks others",
"Within a session the configuration at a path is read and validated at most once successfully and shared by all invocations, while each invocation resolves it once in its own scope and then reuses that. If loading fails the error reaches the caller, nothing is cached, no lock is left held, and the next lookup tries again.",
["inputs","histories","fault_sequences"],"for every order of invocations and every failure of loading","tests load valid configurations from one invocation at a time; what is left behind after a failure is never looked at",
["session/invocation.go"],[("ivContext.Config","session/invocation.go")],["Invocation.Config result or error, repeated calls"],[("HieraConfig:/HieraLock: entries","loaded configurations and the locks that guard their loading","session.SharedCache")])
p("C17","Explaining a lookup never changes its outcome",
"A lookup with an explainer finds the same value, or fails with the same error, as the same lookup without one. Explanations are opened and closed in strictly nested pairs, also when a lookup fails, and nothing is reported when no explainer is attached.",
["inputs","configurations","fault_sequences"],"for every lookup, with and without explanation, succeeding or failing","tests compare explain output of successful lookups only, never the outcome against the unexplained lookup",
["session/invocation.go","session/interpolate.go","merge/strategy.go","api/key.go"],[("With... and Report... methods","session/invocation.go")],["lookup result with and without explainer","push and pop calls on the explainer"])
p("C18","The explanation records every event at the right place and survives transport",
"Each explanation event is recorded once, on the innermost step then open and in the order it happened, with its key, value and source; opening a step nests it in the current one and closing returns to the enclosing step. The explanation converted to its data form and back is the same explanation: same steps, order, events, keys, values, texts and options.",
["inputs","histories"],"for every sequence of explanation events","tests compare the text of a few complete explanations",
["explain/explainer.go"],[("explainer push, Pop, Accept... and Push... methods; initMap, initialize","explain/explainer.go")],["explainer rendered as text and as data"],[("current","innermost open step","explain/explainer.go")])
p("C19","Session options determine configuration path, dialect and scope",
"The configuration path of a session is the one given explicitly; otherwise it is the root directory option (or the working directory) joined with the file name option, or HIERA_CONFIGFILE, or hiera.yaml, in that order of preference. The dialect is the one named, dgo when none is named, and any other name is an error; the scope is the one given or empty; the caller's options and scope are never modified and later changes to them do not affect the session.",
["inputs","configurations"],"for every set of options and environment","tests create sessions with a few option sets",
["session/session.go"],[("New, addHieraConfig","session/session.go")],["Session.SessionOptions, Dialect, Scope"])
p("C20","Module data is looked up in the module named by the key prefix",
"A key with a module prefix (the non-empty text before the first ::) is looked up in the configuration of the first directory on the module path that contains a module directory of that name, ignoring case, with a hiera.yaml file; the module's lookup_options apply only to keys of that module. A key without such a prefix, or whose module is not found, is not found, and the module found for a name is remembered within the session.",
["inputs","configurations","histories"],"for every key, module path and directory content","tests use two modules in one directory",
["provider/modulelookupkey.go","session/resolvedconfig.go"],[("ModuleLookupKey, loadModuleProvider, loadModule","provider/modulelookupkey.go"),("resolvedConfig.LookupOptions","session/resolvedconfig.go")],["provider.ModuleLookupKey result"])
p("C21","REST replies 200, 404 or 500 faithfully and requests do not affect each other",
"A GET under /lookup/ answers 200 with the JSON rendering of the value when the key is found (or a default is given), 404 when it is not, and 500 with the error text when the lookup fails. The default, merge, type and var query parameters apply to that request only, in addition to the variables the server was started with.",
["inputs","histories"],"for every request and every sequence of requests","tests issue a dozen independent requests",
["hieraserver/rest/rest.go","hiera/hiera.go"],[("CreateRouter","hieraserver/rest/rest.go"),("LookupAndRender","hiera/hiera.go")],["HTTP status, content type and body"])
p("C22","Command line variables and facts form the scope in a fixed precedence",
"A variable argument is split at its first : or = that is not part of ::, :=, =: or ==, its value is parsed as a literal when it starts like one and is a plain string otherwise, and an argument that cannot be split is an error. The scope consists of these variables overridden by the contents of the variable files in order, overridden by the contents of the fact files in order, which also appear together under facts. A file that cannot be read or holds something other than a map is an error, and an empty file contributes nothing.",
["inputs"],"for every list of variables and files","tests pass one or two variables and files",
["hiera/hiera.go"],[("createScope, addVarPaths, parseCommandLineValue","hiera/hiera.go")],["scope seen by the lookup"])
p("C23","Lookup output is rendered in the requested form and signals not-found",
"A found value is written once, in the format requested (yaml when none is): null is written as null in JSON and as an empty line in YAML, binary writes the raw bytes, s writes the plain text, and an unknown format is an error. When nothing is found nothing is written and the caller is told; when an explanation is requested the explanation is written instead of the value, as text unless another format is requested.",
["inputs","configurations"],"for every value, format and option combination","tests render a few values in each format",
["hiera/render.go","hiera/hiera.go"],[("Render","hiera/render.go"),("LookupAndRender","hiera/hiera.go")],["bytes written","boolean result"])
p("C24","The provider cache returns the last value stored and reports what it replaced",
"Within a session a value a provider function cached under a key is returned by every later read of that key by any provider call until it is replaced; storing returns the value that was replaced, or nothing when there was none; storing a map stores each of its entries under the string form of its key. A key never stored reads as absent, and enumerating visits every cached association.",
["inputs","histories"],"for every sequence of cache operations","tests do a few stores and reads",
["session/serverctx.go"],[("serverCtx.Cache, CacheAll, CachedValue, CachedEntries","session/serverctx.go")],["ServerContext cache methods"])
p("C25","Plugins are accepted only after a valid handshake and answers map faithfully",
"A plugin is used only if its handshake names the supported protocol version, an address and its functions (tcp is assumed when no network is named); otherwise starting it is an error. Each function it names is callable by that name with the kind it was listed under. A call passes the options and key to the plugin, a 200 reply is the value it carries, a 404 reply means not found, and every other reply or transport failure is an error.",
["inputs","fault_sequences"],"for every handshake and every reply","tests run one well-behaved plugin",
["session/pluginloader.go"],[("plugin.initialize, functionMap, dispatchers, callPlugin","session/pluginloader.go")],["plugin function result or error"])
p("C26","A lookup that depends on itself fails with an error instead of recursing",
"When resolving a key or a scope variable requires the same key or variable again, directly or through any chain of lookups, aliases and interpolations, the lookup fails with an error that lists the chain. A key used several times without such a cycle is never rejected, and after a lookup ends, successfully or not, it leaves no trace that could reject a later lookup.",
["inputs","configurations","fault_sequences"],"for every data set and every chain of references","tests contain no cyclic data",
["session/invocation.go","session/interpolate.go"],[("WithKey and the stack of active names","session/invocation.go"),("InterpolateInScope","session/interpolate.go")],["lookup result or error"],[("name stack","keys and variables being resolved","session/invocation.go")])
p("C27","lookup_options is never a data key, and found values get their conversion",
"Looking up lookup_options, or anything below it, always gives not found. A value found for a key whose lookup_options request a conversion is converted to that type, with the given extra arguments if any; a value that is not found is not converted, and without such a request the value is returned as found.",
["inputs","configurations"],"for every key, value and conversion request","tests convert two values",
["session/invocation.go"],[("ivContext.Lookup, extractConversion, LookupAndConvertData","session/invocation.go")],["lookup result"])
p("C28","Built-in data functions return exactly what their source holds",
"yaml_data and json_data return the map stored in the file named by their path option, an empty map when that file does not exist, and an error when the option is missing or the file cannot be read, parsed, or does not hold a map. environment returns the value of the variable after env::, or all variables as a map for env, and nothing for any other key; scope returns the value of the variable named by the key. The yaml lookup-key function returns the entry of the file named by the session's path option, reading it once per session.",
["inputs"],"for every key, option and file or environment content","tests read a few files and variables",
["provider/yamldata.go","provider/jsondata.go","provider/environment.go","provider/scopelookupkey.go","provider/yamllookupkey.go"],[("YamlData","provider/yamldata.go"),("JSONData","provider/jsondata.go"),("Environment","provider/environment.go"),("ScopeLookupKey","provider/scopelookupkey.go"),("YamlLookupKey","provider/yamllookupkey.go")],["function result or error"])
p("C29","Concurrent lookups on one session behave like some sequential order",
"Lookups running concurrently on one session never corrupt shared state and each returns what it would return in some sequential order of the same lookups.",
["schedules"],"for every interleaving","tests run no concurrent lookups",
["session/invocation.go","internal/datahashprovider.go","session/serverctx.go","session/pluginloader.go"],[("locks and synchronised maps","session/invocation.go")],["results of concurrent lookups"])
p("C30","Closing a session terminates every plugin it started",
"After a session ends, normally or with an error, every plugin process it started has terminated, gracefully if it reacts in time and by force otherwise.",
["schedules","fault_sequences"],"for every plugin behaviour and timing","tests run one plugin that terminates at once",
["session/pluginloader.go","hiera/hiera.go"],[("stopAll, kill","session/pluginloader.go"),("TryWithParent, DoWithParent","hiera/hiera.go")],["plugin processes"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
