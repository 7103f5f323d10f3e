package cli

import (
	"bytes"
	"context"
	"fmt"

	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"github.com/spf13/cobra"
)

// An option that is given has its text as its value, also when that is empty.
//
//@ contract (*OptString).Set
//@ property C23 C08 C32
func specOptSet(s *OptString, v string) error {
	p := new(string)
	*p = v
	s.value = p
	return nil
}

//@ contract (*OptString).StringPointer
//@ property C23 C08 C32
//@ effects reads
func specOptPointer(s *OptString) *string { return s.value }

// The flags set the options of the lookup that they are named after.
//
//@ contract NewCommand
//@ property C22 C23 C32
func specNewCommand() *cobra.Command {
	cmd := &cobra.Command{}
	cmd.Use = "lookup <key> [<key> ...]"
	cmd.Short = `MergeLookup - Perform lookups in Hiera data storage`
	cmd.Long = `MergeLookup - Perform lookups in Hiera data storage.
    Find more information at: https://github.com/lyraproj/hiera`
	cmd.Version = fmt.Sprintf("%v", getVersion())
	cmd.RunE = cmdLookup
	cmd.Args = cobra.MinimumNArgs(1)
	f := cmd.Flags()
	f.StringVar(&logLevel, `loglevel`, `error`,
		`error/warn/info/debug`)
	f.StringVar(&cmdOpts.Merge, `merge`, ``,
		`first/unique/hash/deep`)
	f.StringVar(&configPath, `config`, ``,
		`path to the hiera config file. Overrides <current directory>/hiera.yaml`)
	f.Var(&dflt, `default`,
		`a value to return if Hiera can't find a value in data`)
	f.StringVar(&cmdOpts.Type, `type`, ``,
		`assert that the value has the specified type (if using --all this must be a map)`)
	f.StringVar(&dialect, `dialect`, `pcore`,
		`dialect to use for rich data serialization and parsing of types pcore|dgo'`)
	f.StringVar(&cmdOpts.RenderAs, `render-as`, ``,
		`s/json/yaml/binary: Specify the output format of the results; s means plain text`)
	f.BoolVar(&cmdOpts.ExplainData, `explain`, false,
		`Explain the details of how the lookup was performed and where the final value came from`)
	f.BoolVar(&cmdOpts.ExplainOptions, `explain-options`, false,
		`Explain whether a lookup_options hash affects this lookup, and how that hash was assembled`)
	f.StringArrayVar(&cmdOpts.VarPaths, `vars`, nil,
		`path to a JSON or YAML file that contains key-value mappings to become variables for this lookup`)
	f.StringArrayVar(&cmdOpts.Variables, `var`, nil,
		`a key:value or key=value where value is literal expressed using Puppet DSL`)
	f.StringArrayVar(&cmdOpts.FactPaths, `facts`, nil,
		`like --vars but will also make variables available under the "facts" (for compatibility with Puppet's ruby version of Hiera)`)
	f.BoolVar(&cmdOpts.LookupAll, `all`, false,
		`lookup all of the keys and output the results as a map`)
	cmd.SetHelpTemplate(helpTemplate)
	return cmd
}

// Data comes from the configuration and then from the environment.
//
//@ contract cmdLookup
//@ property C22 C23 C08 C32
func specCmdLookup(cmd *cobra.Command, args []string) error {
	cmd.SilenceUsage = true
	cmdOpts.Default = dflt.StringPointer()
	options := vf.MutableMap()
	options.Put(api.HieraDialect, dialect)
	options.Put(provider.LookupKeyFunctions, []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment})
	if configPath != `` {
		options.Put(api.HieraConfig, configPath)
	}
	return hiera.TryWithParent(context.Background(), provider.MuxLookupKey, options, func(s api.Session) error {
		hiera.LookupAndRender(s, &cmdOpts, args, cmd.OutOrStdout())
		return nil
	})
}

// Nothing of a previous execution remains.
//
//@ contract ExecuteLookup
//@ property C22 C23 C32
func specExecuteLookup(args ...string) ([]byte, error) {
	configPath = ``
	logLevel = ``
	dflt = OptString{}
	cmdOpts = hiera.CommandOptions{}
	out := &bytes.Buffer{}
	cmd := NewCommand()
	cmd.SetOut(out)
	cmd.SetArgs(args)
	err := cmd.Execute()
	return out.Bytes(), err
}

//@ contract (*OptString).String
//@ property C23 C32
func specOptText(s *OptString) string {
	if s != nil && s.value != nil {
		return *s.value
	}
	return ``
}

//@ contract (*OptString).Type
//@ property C23 C32
func specOptType(s *OptString) string { return "stringpointer" }

//@ contract getVersion
//@ property C23 C32
func specGetVersion() *version {
	v := &version{}
	v.buildSHA = BuildSHA
	v.buildTime = BuildTime
	v.buildTag = "dirty"
	if BuildTag != "" {
		v.buildTag = BuildTag
	}
	return v
}

//@ contract (*version).String
//@ property C23 C32
func specVersionText(v *version) string { return fmt.Sprintf("%s-%s", v.buildSHA, v.buildTag) }
