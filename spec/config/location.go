package config

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/bmatcuk/doublestar"
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
)

// ---- path

//@ contract NewPath
//@ property C12
//@ inline
//@ effects none
//@ nopanic
func specNewPath(original string) api.Location {
	p := &path{}
	p.original = original
	return p
}

// The interpolated template in the data directory, and whether such a file exists.
//
//@ contract (*path).Resolve
//@ property C14
func specPathResolve(p *path, ic api.Invocation, dataDir string) []api.Location {
	r, _ := ic.InterpolateString(p.original, false)
	return []api.Location{specResolvedPath(p.original, dataDir, r)}
}

func specResolvedPath(template, dataDir string, r dgo.Value) api.Location {
	p := &path{}
	p.original = template
	p.resolved = filepath.Join(dataDir, r.String())
	_, err := os.Stat(p.resolved)
	p.exists = err == nil
	return p
}

//@ contract (*path).Exists
//@ property C14 C06
//@ inline
//@ effects reads
//@ nopanic
func specPathExists(p *path) bool { return p.exists }

//@ contract (*path).Kind
//@ property C14
//@ inline
//@ effects none
//@ nopanic
func specPathKind(p *path) api.LocationKind { return api.LcPath }

//@ contract (*path).Original
//@ property C14
//@ inline
//@ effects reads
//@ nopanic
func specPathOriginal(p *path) string { return p.original }

//@ contract (*path).Resolved
//@ property C14 C15
//@ inline
//@ effects reads
//@ nopanic
func specPathResolved(p *path) string { return p.resolved }

//@ contract (*path).Equals
//@ property C14
//@ effects reads
//@ nopanic
func specPathEquals(p *path, value interface{}) bool {
	o, ok := value.(*path)
	if !ok {
		return false
	}
	return p.original == o.original && p.resolved == o.resolved && p.exists == o.exists
}

//@ contract (*path).String
//@ property C18
//@ effects reads
func specPathString(p *path) string {
	return fmt.Sprintf(`path{ original:%s, resolved:%s, exist:%v}`, p.original, p.resolved, p.exists)
}

// ---- uri

//@ contract NewURI
//@ property C12
//@ inline
//@ effects none
//@ nopanic
func specNewURI(original string) api.Location {
	u := &uri{}
	u.original = original
	return u
}

// The interpolated template.
//
//@ contract (*uri).Resolve
//@ property C14
func specURIResolve(u *uri, ic api.Invocation, dataDir string) []api.Location {
	n := &uri{}
	n.original = u.original
	r, _ := ic.InterpolateString(u.original, false)
	n.resolved = r.String()
	return []api.Location{n}
}

//@ contract (*uri).Exists
//@ property C14 C06
//@ inline
//@ effects none
//@ nopanic
func specURIExists(u *uri) bool { return true }

//@ contract (*uri).Kind
//@ property C14
//@ inline
//@ effects none
//@ nopanic
func specURIKind(u *uri) api.LocationKind { return api.LcURI }

//@ contract (*uri).Original
//@ property C14
//@ inline
//@ effects reads
//@ nopanic
func specURIOriginal(u *uri) string { return u.original }

//@ contract (*uri).Resolved
//@ property C14 C15
//@ inline
//@ effects reads
//@ nopanic
func specURIResolved(u *uri) string { return u.resolved }

//@ contract (*uri).Equals
//@ property C14
//@ effects reads
//@ nopanic
func specURIEquals(u *uri, value interface{}) bool {
	o, ok := value.(*uri)
	if !ok {
		return false
	}
	return u.original == o.original && u.resolved == o.resolved
}

// ---- glob

//@ contract NewGlob
//@ property C12
//@ inline
//@ effects none
//@ nopanic
func specNewGlob(pattern string) api.Location { return glob(pattern) }

// One path for each file (not directory) that matches the interpolated pattern in the data directory. All of them exist.
//
//@ contract (glob).Resolve
//@ property C14
func specGlobResolve(g glob, ic api.Invocation, dataDir string) []api.Location {
	r, _ := ic.InterpolateString(string(g), false)
	files, _ := doublestar.Glob(filepath.Join(dataDir, r.String()))
	ls := make([]api.Location, 0, len(files))
	for i := 0; i < len(files); i++ {
		info, err := os.Stat(files[i])
		if err != nil || info.IsDir() {
			continue
		}
		p := &path{}
		p.original = string(g)
		p.resolved = files[i]
		p.exists = true
		ls = append(ls, p)
	}
	return ls
}

//@ contract (glob).Equals
//@ property C12
func specGlobEquals(g glob, other interface{}) bool {
	o, ok := other.(glob)
	return ok && string(o) == string(g)
}

// A glob is resolved to paths so it is never asked for what it resolves to.
//
//@ contract (glob).Resolved
//@ property C14
func specGlobResolved(g glob) string { panic(fmt.Errorf(`resolved requested on a glob`)) }

//@ contract (glob).Exists
//@ property C14 C06
//@ inline
//@ effects none
//@ nopanic
func specGlobExists(g glob) bool { return false }

//@ contract (glob).Kind
//@ property C14
//@ inline
//@ effects none
//@ nopanic
func specGlobKind(g glob) api.LocationKind { return api.LcGlob }

//@ contract (glob).Original
//@ property C14
//@ inline
//@ effects none
//@ nopanic
func specGlobOriginal(g glob) string { return string(g) }

// ---- mapped paths

//@ contract NewMappedPaths
//@ property C12
//@ inline
//@ effects none
//@ nopanic
func specNewMappedPaths(sourceVar, key, template string) api.Location {
	m := &mappedPaths{}
	m.sourceVar = sourceVar
	m.key = key
	m.template = template
	return m
}

// One path for each element of the variable, in their order. The template of each is interpolated in a scope where the
// key is that element. A string is its own one element, and a variable that is neither a string nor an array has none.
//
//@ contract (*mappedPaths).Resolve
//@ property C14
func specMappedPathsResolve(m *mappedPaths, ic api.Invocation, dataDir string) []api.Location {
	v := ic.InterpolateInScope(m.sourceVar, false)
	var vars dgo.Array
	if s, ok := v.(dgo.String); ok {
		vars = vf.Values(s)
	} else if a, ok := v.(dgo.Array); ok {
		vars = a
	} else {
		return []api.Location{}
	}
	paths := make([]api.Location, vars.Len())
	for i := 0; i < vars.Len(); i++ {
		i := i
		sc := &scopeWithVar{}
		sc.s = ic.Scope()
		sc.k = vf.String(m.key)
		sc.v = vars.Get(i)
		ic.DoWithScope(sc, func() {
			r, _ := ic.InterpolateString(m.template, false)
			paths[i] = specResolvedPath(m.template, dataDir, r)
		})
	}
	return paths
}

// Mapped paths are resolved to paths so they are never asked for what they resolve to.
//
//@ contract (*mappedPaths).Resolved
//@ property C14
func specMappedPathsResolved(m *mappedPaths) string {
	panic(fmt.Errorf(`resolved requested on mapped paths`))
}

// The explanation names mapped paths by this.
//
//@ contract (*mappedPaths).Original
//@ property C14 C18
func specMappedPathsOriginal(m *mappedPaths) string {
	return fmt.Sprintf("mapped_paths{sourceVar:%s, key:%s, template:%s}", m.sourceVar, m.key, m.template)
}

//@ contract (*mappedPaths).Exists
//@ property C14 C06
//@ inline
//@ effects none
//@ nopanic
func specMappedPathsExists(m *mappedPaths) bool { return false }

//@ contract (*mappedPaths).Kind
//@ property C14
//@ inline
//@ effects none
//@ nopanic
func specMappedPathsKind(m *mappedPaths) api.LocationKind { return api.LcMappedPaths }

//@ contract (*mappedPaths).Equals
//@ property C14
//@ effects reads
//@ nopanic
func specMappedPathsEquals(m *mappedPaths, other interface{}) bool {
	o, ok := other.(*mappedPaths)
	if !ok {
		return false
	}
	return m.sourceVar == o.sourceVar && m.key == o.key && m.template == o.template
}

// Only the variable with the name of the key is hidden.
//
//@ contract (*scopeWithVar).Get
//@ property C11 C14
func specScopeWithVarGet(s *scopeWithVar, key interface{}) dgo.Value {
	if s.k.Equals(key) {
		return s.v
	}
	return s.s.Get(key)
}
