package hiera

import (
	"context"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"regexp"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/dgoyaml/yaml"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/session"
	"github.com/lyraproj/hierasdk/hiera"
)

// specRich streams the data form of a value, without references, to a consumer
func specRich(s api.Session, value dgo.Value, to streamer.Consumer) {
	o := streamer.DefaultOptions()
	o.DedupLevel = streamer.NoDedup
	streamer.New(s.AliasMap(), o).Stream(value, to)
}

// The value is written once, in the form asked for.
//
//@ contract Render
//@ property C23
func specRender(s api.Session, renderAs RenderName, value dgo.Value, out io.Writer) {
	null := func() bool { return value.Equals(vf.Nil) }
	switch renderAs {
	case `json`:
		if null() {
			util.WriteString(out, "null\n")
			return
		}
		specRich(s, value, streamer.JSON(out))
		util.WriteByte(out, '\n')
	case `yaml`:
		if null() {
			util.WriteString(out, "\n")
			return
		}
		data := streamer.DataCollector()
		specRich(s, value, data)
		text, err := yaml.Marshal(data.Value())
		if err != nil {
			panic(err)
		}
		util.WriteString(out, string(text))
	case `binary`:
		if _, err := out.Write(vf.New(typ.Binary, value).(dgo.Binary).GoBytes()); err != nil {
			panic(err)
		}
	case `s`:
		util.Fprintln(out, value)
	default:
		panic(fmt.Errorf(`unknown rendering '%s'`, renderAs))
	}
}

// No type is any type.
//
//@ contract parseType
//@ property C08 C21
//@ effects none
func specParseType(t string, dl streamer.Dialect) dgo.Type {
	if t == `` {
		return typ.Any
	}
	return dl.ParseType(nil, vf.String(t))
}

// A text that starts like a literal is one; any other text is a string without the spaces around it.
//
//@ contract parseCommandLineValue
//@ property C22 C21
//@ effects none
func specParseCommandLineValue(c api.Session, vs string) dgo.Value {
	vs = strings.TrimSpace(vs)
	if !(strings.HasPrefix(vs, `{`) || strings.HasPrefix(vs, `[`) || strings.HasPrefix(vs, `"`) || strings.HasPrefix(vs, `'`)) {
		return vf.String(vs)
	}
	var v dgo.Value
	c.AliasMap().Collect(func(aliases dgo.AliasAdder) {
		v = typ.ExactValue(c.Dialect().ParseType(aliases, vf.String(vs)))
	})
	return v
}

// a variable is a name, a separator that stands alone, and a value
var specVariable = regexp.MustCompile(`(?s)\A(.*?[^:=])[:=]([^:=].*)\z`)

// Facts beat variable files, which beat variables; what comes later beats what comes earlier. The facts are also found
// under facts.
//
//@ contract createScope
//@ property C22 C21
func specCreateScope(c api.Session, opts *CommandOptions) dgo.Map {
	scope := vf.MutableMap()
	vars := opts.Variables
	for i := 0; i < len(vars); i++ {
		parts := specVariable.FindStringSubmatch(vars[i])
		if parts == nil {
			panic(fmt.Errorf("unable to parse variable '%s'", vars[i]))
		}
		scope.Put(strings.TrimSpace(parts[1]), parseCommandLineValue(c, parts[2]))
	}
	addVarPaths(opts.VarPaths, scope)
	if len(opts.FactPaths) > 0 {
		facts := vf.MutableMap()
		addVarPaths(opts.FactPaths, facts)
		scope.PutAll(facts)
		scope.Put(`facts`, facts)
	}
	return scope
}

// An empty file contributes nothing. The file - is standard input.
//
//@ contract addVarPaths
//@ property C22
func specAddVarPaths(varPaths []string, m dgo.Map) {
	for i := 0; i < len(varPaths); i++ {
		var content []byte
		var err error
		if varPaths[i] == `-` {
			content, err = ioutil.ReadAll(os.Stdin)
		} else {
			content, err = ioutil.ReadFile(varPaths[i])
		}
		if err != nil {
			panic(err)
		}
		if len(content) == 0 {
			continue
		}
		v, err := yaml.Unmarshal(content)
		if err != nil {
			panic(err)
		}
		data, ok := v.(dgo.Map)
		if !ok {
			panic(fmt.Errorf(`file '%s' does not contain a YAML hash`, varPaths[i]))
		}
		m.PutAll(data)
	}
}

// specRenderAs is the form asked for, or else the default one
func specRenderAs(opts *CommandOptions, dflt RenderName) RenderName {
	if opts.RenderAs == `` {
		return dflt
	}
	return RenderName(opts.RenderAs)
}

// The explanation, when there is one, is written in place of the value. Nothing is written for a value that is not found.
//
//@ contract LookupAndRender
//@ property C23 C22 C21 C08 C32 C17/x
func specLookupAndRender(c api.Session, opts *CommandOptions, args []string, out io.Writer) bool {
	tp := parseType(opts.Type, c.Dialect())
	var options dgo.Map
	if opts.Merge != `` {
		options = vf.Map(`merge`, opts.Merge)
	}
	var dflt dgo.Value
	if opts.Default != nil {
		if text := *opts.Default; text == `` {
			dflt = vf.String(``)
		} else {
			dflt = parseCommandLineValue(c, text)
		}
	}
	var explainer api.Explainer
	if opts.ExplainData || opts.ExplainOptions {
		explainer = explain.NewExplainer(opts.ExplainOptions, !opts.ExplainData)
	}
	ic := c.Invocation(createScope(c, opts), explainer)
	var found dgo.Value
	if opts.LookupAll {
		st, isMap := tp.(dgo.StructMapType)
		if opts.Type != `` && !isMap {
			panic(fmt.Errorf("type must be a map"))
		}
		found = LookupAll(ic, args, st, nil, nil, options)
	} else {
		found = Lookup2(ic, args, tp, dflt, nil, nil, options, nil)
	}
	switch {
	case explainer != nil:
		Render(c, specRenderAs(opts, `s`), explainer, out)
	case found != nil:
		Render(c, specRenderAs(opts, `yaml`), found, out)
	}
	return found != nil
}

// A lookup without further arguments is one for a single name and any type.
//
//@ contract Lookup
//@ property C08
func specLookup(ic api.Invocation, name string, defaultValue dgo.Value, options interface{}) dgo.Value {
	return Lookup2(ic, []string{name}, typ.Any, defaultValue, nil, nil, api.ToMap(`lookup options`, options), nil)
}

// The plugins of a session end with it, also when its consumer fails.
//
//@ contract DoWithParent
//@ property C19 C30
func specDoWithParent(parent context.Context, tp hiera.LookupKey, options interface{}, consumer func(api.Session)) {
	s := session.New(parent, tp, options, nil)
	defer s.KillPlugins()
	consumer(s)
}

// Whatever goes wrong is the error that is returned.
//
//@ contract TryWithParent
//@ property C19 C30
func specTryWithParent(parent context.Context, tp hiera.LookupKey, options interface{}, consumer func(api.Session) error) error {
	return util.Catch(func() {
		s := session.New(parent, tp, options, nil)
		defer s.KillPlugins()
		if err := consumer(s); err != nil {
			panic(err)
		}
	})
}
