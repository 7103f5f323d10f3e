package session

import (
	"errors"
	"fmt"
	"regexp"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
)

// an expression is everything from %{ to the next }
var specExpression = regexp.MustCompile(`%{[^}]*}`)

// a method call has a name and one argument in single or double quotes
var specMethod = regexp.MustCompile(`^(\w+)\((?:["]([^"]+)["]|[']([^']+)['])\)$`)

// A value without anything to interpolate is returned itself.
//
//@ contract (*ivContext).Interpolate
//@ inline
//@ property C09 C10
func specInterpolate(ic *ivContext, value dgo.Value, allowMethods bool) dgo.Value {
	v, changed := ic.doInterpolate(value, allowMethods)
	if !changed {
		return value
	}
	return v
}

// The elements of an array, and the keys and values of a map, are interpolated in their order. The value given is never
// modified: what changes is a copy.
//
//@ contract (*ivContext).doInterpolate
//@ property C10 C09
func specDoInterpolate(ic *ivContext, value dgo.Value, allowMethods bool) (dgo.Value, bool) {
	switch value := value.(type) {
	case dgo.String:
		return ic.InterpolateString(value.String(), allowMethods)
	case dgo.Array:
		es := value.AppendToSlice(make([]dgo.Value, 0, value.Len()))
		any := false
		for i := range es {
			if e, changed := ic.doInterpolate(es[i], allowMethods); changed {
				es[i] = e
				any = true
			}
		}
		if !any {
			return value, false
		}
		return vf.Array(es), true
	case dgo.Map:
		m := vf.MapWithCapacity(value.Len())
		any := false
		value.EachEntry(func(e dgo.MapEntry) {
			k, c1 := ic.doInterpolate(e.Key(), allowMethods)
			v, c2 := ic.doInterpolate(e.Value(), allowMethods)
			if c1 || c2 {
				any = true
			}
			m.Put(k, v)
		})
		if !any {
			return value, false
		}
		m.Freeze()
		return m, true
	}
	return value, false
}

// specEmpty are the expressions that denote the empty string.
func specEmpty(expr string) bool {
	switch expr {
	case ``, `::`, `""`, "''", `"::"`, "'::'":
		return true
	}
	return false
}

//@ contract getMethodAndData
//@ property C09
//@ effects none
func specGetMethodAndData(expr string, allowMethods bool) (iplMethod, string) {
	g := specMethod.FindStringSubmatch(expr)
	if g == nil {
		return scopeMethod, expr
	}
	if !allowMethods {
		panic(errors.New(`interpolation using method syntax is not allowed in this context`))
	}
	arg := g[2]
	if arg == `` {
		arg = g[3]
	}
	name := g[1]
	if name == `alias` {
		return aliasMethod, arg
	}
	if name == `strict_alias` {
		return strictAliasMethod, arg
	}
	if name == `hiera` || name == `lookup` {
		return lookupMethod, arg
	}
	if name == `literal` {
		return literalMethod, arg
	}
	if name == `scope` {
		return scopeMethod, arg
	}
	panic(fmt.Errorf(`unknown interpolation method '%s'`, name))
}

// specString is the text of a value; a missing value is the empty text
func specString(v dgo.Value) string {
	if v == nil {
		return ``
	}
	return v.String()
}

//@ contract (*ivContext).InterpolateString
//@ property C09 C17/x
func specInterpolateString(ic *ivContext, str string, allowMethods bool) (dgo.Value, bool) {
	if !strings.Contains(str, `%{`) {
		return vf.String(str), false
	}
	return ic.WithInterpolation(str, func() dgo.Value {
		var aliased dgo.Value
		var method iplMethod
		text := specExpression.ReplaceAllStringFunc(str, func(match string) string {
			expr := strings.TrimSpace(match[2 : len(match)-1])
			if specEmpty(expr) {
				return ``
			}
			method, expr = getMethodAndData(expr, allowMethods)
			alias := method == aliasMethod || method == strictAliasMethod
			if alias && match != str {
				panic(errors.New(`'alias'/'strict_alias' interpolation is only permitted if the expression is equal to the entire string`))
			}
			if method == literalMethod {
				return expr
			}
			if method == scopeMethod {
				return specString(ic.InterpolateInScope(expr, allowMethods))
			}
			v := ic.Lookup(api.NewKey(expr), nil)
			if alias {
				aliased = v
				return ``
			}
			return specString(v)
		})
		if aliased != nil || method == strictAliasMethod {
			return aliased
		}
		return vf.String(text)
	}), true
}

// A scope variable is interpolated and then dug into; while that happens it cannot refer to itself.
//
//@ contract (*ivContext).InterpolateInScope
//@ property C09 C26 C11
func specInterpolateInScope(ic *ivContext, expr string, allowMethods bool) dgo.Value {
	key := api.NewKey(expr)
	val := ic.scope.Get(key.Root())
	if val == nil {
		return nil
	}
	return ic.withName(`%{`+expr+`}`, func() dgo.Value {
		v, _ := ic.doInterpolate(val, allowMethods)
		return key.Dig(ic, v)
	})
}
