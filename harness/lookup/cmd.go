package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

func init() { runMain = main }

// command runs the program in the directory of the world
func command(dir string, args []string, env ...string) (status int, stdout, stderr string) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := exec.Command(exe, args...)
	c.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, `HIERA_`) {
			c.Env = append(c.Env, e)
		}
	}
	c.Env = append(append(c.Env, `VERIF_MAIN=1`), env...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err = c.Run()
	status = c.ProcessState.ExitCode()
	return status, o.String(), e.String()
}

// TestC32 runs the program and compares it with what the library does with the same options
func TestC32(t *testing.T) {
	h := newH(t, "random options and keys of the lookup command, run as a process; distinct by the arguments")
	dir, err := os.MkdirTemp(``, `c`)
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	text := ``
	write := func(f, s string) {
		p := filepath.Join(dir, f)
		_ = os.MkdirAll(filepath.Dir(p), 0o700)
		if err := os.WriteFile(p, []byte(s), 0o600); err != nil {
			t.Fatal(err)
		}
		text += `--- ` + f + "\n" + s + "\n"
	}
	write(`hiera.yaml`, "version: 5\nhierarchy:\n  - name: L\n    paths: ['%{v}.yaml', '%{facts.f}.yaml', one.yaml, two.yaml]\n")
	write(`other.yaml`, "version: 5\nhierarchy:\n  - name: L\n    path: two.yaml\n")
	write(`bad.yaml`, "version: 4\n")
	write(`data/one.yaml`, "m: {x: [1, 2], y: {p: 1}}\nl: [1, 2, 2]\nt: text\nn: 5\ns: 'v is %{v}, f is %{f}'\nlookup_options: {m: {merge: deep}}\nnull: ~\n")
	write(`data/two.yaml`, "m: {x: [2, 3], y: {q: 2}, z: 3}\nl: [2, 3]\nt: other\nonly: two\nty: 'pcore'\nb: aGVsbG8=\n")
	write(`data/vv.yaml`, "t: by v\n")
	write(`data/ff.yaml`, "t: by f\n")
	write(`v1.yaml`, "v: vv\nw: 1\n")
	write(`f1.json`, `{"f": "ff"}`)
	write(`empty.yaml`, ``)
	write(`list.yaml`, "- v\n")
	for h.more(2500) {
		var args []string
		o := &hiera.CommandOptions{}
		cfg := filepath.Join(dir, `hiera.yaml`)
		dialect := `pcore`
		var env []string
		flag := func(name, v string) {
			if h.coin() {
				args = append(args, `--`+name, v)
			} else {
				args = append(args, `--`+name+`=`+v)
			}
		}
		if h.one(3) {
			o.Merge = h.pick(`first`, `unique`, `hash`, `deep`, `deep`, `nosuch`, ``)
			flag(`merge`, o.Merge)
		}
		if h.one(4) {
			d := h.pick(`x`, ``, `{a => 1}`, `["p"]`, `5`)
			o.Default = &d
			flag(`default`, d)
		}
		if h.one(6) {
			dialect = h.pick(`dgo`, `pcore`, `dgo`, `nosuch`)
			flag(`dialect`, dialect)
		}
		if h.one(5) {
			o.Type = h.pick(`String`, `string`, `Hash`, `Integer`, `int`, `]`)
			flag(`type`, o.Type)
		}
		if h.one(3) {
			o.RenderAs = h.pick(`yaml`, `json`, `s`, `binary`, `nosuch`, `json`)
			flag(`render-as`, o.RenderAs)
		}
		if h.one(6) {
			o.ExplainData = true
			args = append(args, `--explain`)
		}
		if h.one(8) {
			o.ExplainOptions = true
			args = append(args, `--explain-options`)
		}
		if h.one(6) {
			o.LookupAll = true
			args = append(args, `--all`)
		}
		for i := h.n_(3); i > 0 && h.coin(); i-- {
			f := h.pick(`v1.yaml`, `f1.json`, `empty.yaml`, `list.yaml`, `nosuch.yaml`, `v1.yaml`)
			if h.coin() {
				o.VarPaths = append(o.VarPaths, filepath.Join(dir, f))
				flag(`vars`, filepath.Join(dir, f))
			} else {
				o.FactPaths = append(o.FactPaths, filepath.Join(dir, f))
				flag(`facts`, filepath.Join(dir, f))
			}
		}
		for i := h.n_(3); i > 0 && h.coin(); i-- {
			v := h.pick(`v=vv`, `v:vv`, `f=a,b`, `v='vv'`, `novalue`, `v=x=y`, `f={a => 1}`)
			o.Variables = append(o.Variables, v)
			flag(`var`, v)
		}
		switch h.n_(8) {
		case 0:
			cfg = filepath.Join(dir, h.pick(`other.yaml`, `other.yaml`, `bad.yaml`))
			flag(`config`, cfg)
		case 1:
			cfg = filepath.Join(dir, `other.yaml`)
			env = append(env, `HIERA_CONFIGFILE=other.yaml`)
		}
		if h.one(6) {
			flag(`loglevel`, h.pick(`error`, `debug`))
		}
		var keys []string
		for i := h.n_(3); i >= 0; i-- {
			keys = append(keys, h.pick(`m`, `l`, `t`, `n`, `s`, `only`, `missing`, `m.x.1`, `m.y`, `ty`, `b`, `null`, `a..b`, `env::VERIF_X`))
		}
		if h.one(12) {
			keys = nil
		}
		env = append(env, `VERIF_X=the environment`)
		_ = os.Setenv(`VERIF_X`, `the environment`)
		if h.coin() {
			args = append(keys[:len(keys):len(keys)], args...)
		} else {
			args = append(args, keys...)
		}
		in := h.c("lookup %q with the environment %v in the directory of these files:\n%s", args, env, text)
		h.current(in)
		var want bytes.Buffer
		r := try(func() interface{} {
			if len(keys) == 0 {
				panic(`requires at least 1 arg(s), only received 0`)
			}
			so := vf.Map(api.HieraConfig, cfg, api.HieraDialect, dialect, provider.LookupKeyFunctions, []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment})
			withTop(provider.MuxLookupKey, so, func(s api.Session) { hiera.LookupAndRender(s, o, keys, &want) })
			return nil
		})
		status, out, errs := command(dir, args, env...)
		if r.bad {
			if status != 1 {
				h.fail(in, fmt.Sprintf("status %d, writes %q", status, out), "status 1, as "+r.err)
			}
			if first := strings.SplitN(r.err, "\n", 2)[0]; !strings.Contains(errs+out, first) {
				h.fail(in, fmt.Sprintf("writes %q and %q", out, errs), "the error: "+r.err)
			}
			continue
		}
		if status != 0 || out != want.String() {
			h.fail(in, fmt.Sprintf("status %d, writes %q and %q", status, out, errs), fmt.Sprintf("status 0, writes %q", want.String()))
		}
	}
}
