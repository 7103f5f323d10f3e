package config

import (
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
)

// The data form of a location has all that there is to know about it, and a location is created from that.

//@ contract var pathType
//@ property C18
func specPathType() dgo.NamedType {
	return tf.NewNamed(`hiera.path`, func(v dgo.Value) dgo.Value {
		m := v.(dgo.Map)
		p := &path{}
		p.original = m.Get(`original`).(dgo.String).GoString()
		p.resolved = m.Get(`resolved`).(dgo.String).GoString()
		p.exists = m.Get(`exists`).(dgo.Boolean).GoBool()
		return p
	}, func(v dgo.Value) dgo.Value {
		p := v.(*path)
		return vf.Map(`original`, p.original, `resolved`, p.resolved, `exists`, p.exists)
	}, reflect.TypeOf(&path{}), reflect.TypeOf((*api.Location)(nil)).Elem(), nil)
}

//@ contract var uriType
//@ property C18
func specURIType() dgo.NamedType {
	return tf.NewNamed(`hiera.uri`, func(v dgo.Value) dgo.Value {
		m := v.(dgo.Map)
		p := &uri{}
		p.original = m.Get(`original`).(dgo.String).GoString()
		p.resolved = m.Get(`resolved`).(dgo.String).GoString()
		return p
	}, func(v dgo.Value) dgo.Value {
		p := v.(*uri)
		return vf.Map(`original`, p.original, `resolved`, p.resolved)
	}, reflect.TypeOf(&uri{}), reflect.TypeOf((*api.Location)(nil)).Elem(), nil)
}

//@ contract (*path).Type
//@ property C18
func specPathTypeOf(p *path) dgo.Type { return pathType }

//@ contract (*uri).Type
//@ property C18
func specURITypeOf(u *uri) dgo.Type { return uriType }

//@ contract (*uri).String
//@ property C18
//@ effects reads
func specURIString(u *uri) string { return `uri{original:` + u.original + `, resolved:` + u.resolved }

//@ contract (glob).String
//@ property C18
//@ effects none
func specGlobString(g glob) string { return `glob{pattern:` + string(g) + `}` }

//@ contract (*mappedPaths).String
//@ property C18
//@ effects reads
func specMappedPathsString(m *mappedPaths) string {
	return `mapped_paths{sourceVar:` + m.sourceVar + `, key:` + m.key + `, template:` + m.template + `}`
}

//@ contract (glob).Type
//@ property C18
func specGlobTypeOf(g glob) dgo.Type { return globType }

//@ contract (*mappedPaths).Type
//@ property C18
func specMappedPathsTypeOf(m *mappedPaths) dgo.Type { return mappedPathsType }

//@ contract var globType
//@ property C18
func specGlobType() dgo.NamedType {
	return tf.NewNamed(`hiera.glob`, func(v dgo.Value) dgo.Value {
		return glob(v.(dgo.String).GoString())
	}, func(v dgo.Value) dgo.Value {
		return vf.String(string(v.(glob)))
	}, reflect.TypeOf(glob(``)), reflect.TypeOf((*api.Location)(nil)).Elem(), nil)
}

//@ contract var mappedPathsType
//@ property C18
func specMappedPathsType() dgo.NamedType {
	return tf.NewNamed(`hiera.mappedPaths`, func(v dgo.Value) dgo.Value {
		m := v.(dgo.Map)
		p := &mappedPaths{}
		p.sourceVar = m.Get(`sourceVar`).(dgo.String).GoString()
		p.key = m.Get(`key`).(dgo.String).GoString()
		p.template = m.Get(`template`).(dgo.String).GoString()
		return p
	}, func(v dgo.Value) dgo.Value {
		p := v.(*mappedPaths)
		return vf.Map(`sourceVar`, p.sourceVar, `key`, p.key, `template`, p.template)
	}, reflect.TypeOf(&mappedPaths{}), reflect.TypeOf((*api.Location)(nil)).Elem(), nil)
}
