package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

// The specification files name the functions under contract. Two things are done mechanically, on every run, so that they
// fit the current source:
//
// A private function that the current source does not have, or has with other parameters, is a matter of how the code is
// written. Its contract is retired: the specification function takes its place wherever another specification names it, so
// that its callers are verified against what it specified.
//
// The contract of a package variable is that of its initialiser: a function that returns the initialising expression, which
// is copied from the source, is added to the file that declares the variable.

type srcPkg struct {
	funcs   map[string]*ast.FuncDecl // F, (*T).M, (T).M
	methods map[string]int           // number of declarations and interface members with this name
	vars    map[string]*srcVar
}

type srcVar struct {
	file string
	expr string
	typ  string
}

// genText is text that is added to the end of a source file
type genText struct {
	file  string
	name  string // key of the contract
	text  string
	first int // line where it starts
}

func parseDir(dir string) *srcPkg {
	p := &srcPkg{funcs: map[string]*ast.FuncDecl{}, methods: map[string]int{}, vars: map[string]*srcVar{}}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		file := filepath.Join(dir, n)
		src, err := os.ReadFile(file)
		if err != nil {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			continue
		}
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				p.funcs[funcName(d)] = d
				if d.Recv != nil {
					p.methods[d.Name.Name]++
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok && d.Tok == token.VAR {
						for i, id := range vs.Names {
							v := &srcVar{file: file}
							if vs.Type != nil {
								v.typ = text(vs.Type)
							}
							if len(vs.Values) == len(vs.Names) {
								v.expr = text(vs.Values[i])
							}
							p.vars[id.Name] = v
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if it, ok := n.(*ast.InterfaceType); ok {
				for _, m := range it.Methods.List {
					for _, id := range m.Names {
						p.methods[id.Name] += 100
					}
				}
			}
			return true
		})
	}
	return p
}

func funcName(d *ast.FuncDecl) string {
	if d.Recv == nil || len(d.Recv.List) == 0 {
		return d.Name.Name
	}
	switch t := d.Recv.List[0].Type.(type) {
	case *ast.StarExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			return "(*" + id.Name + ")." + d.Name.Name
		}
	case *ast.Ident:
		return "(" + t.Name + ")." + d.Name.Name
	}
	return d.Name.Name
}

var anyType = regexp.MustCompile(`\bany\b`)

func nodeText(n ast.Node) string {
	if n == nil {
		return ""
	}
	var b bytes.Buffer
	_ = printer.Fprint(&b, token.NewFileSet(), n)
	return anyType.ReplaceAllString(b.String(), "interface{}")
}

// typesOf lists the types of parameters or results, one for each
func typesOf(fl *ast.FieldList) []string {
	var r []string
	if fl == nil {
		return r
	}
	for _, f := range fl.List {
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for ; n > 0; n-- {
			r = append(r, nodeText(f.Type))
		}
	}
	return r
}

func fit(repo string, sfs []*specFile, docs map[string]*Contract, w *World) (gens []*genText) {
	pkgs := map[string]*srcPkg{}
	renames := map[string]map[string]string{} // package directory -> functions to rename in its specifications
	rename := func(dir, old, nw string) bool {
		if renames[dir] == nil {
			renames[dir] = map[string]string{}
		}
		if x, ok := renames[dir][old]; ok && x != nw {
			return false
		}
		renames[dir][old] = nw
		return true
	}
	taken := map[string]bool{} // functions that a contract names
	for key, c := range docs {
		for _, l := range c.doc {
			if m := directive.FindStringSubmatch(l); m != nil && m[1] == "contract" {
				taken[key[:strings.IndexByte(key, '#')]+"#"+strings.TrimSpace(m[2])] = true
			}
		}
	}
	for _, sf := range sfs {
		dir := filepath.Dir(sf.virt)
		if fi, err := os.Stat(dir); err != nil || !fi.IsDir() {
			continue
		}
		p := pkgs[dir]
		if p == nil {
			p = parseDir(dir)
			pkgs[dir] = p
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, sf.real, sf.src, parser.ParseComments)
		if err != nil {
			continue
		}
		var add bytes.Buffer
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			key := dir + "#" + fd.Name.Name
			c := docs[key]
			if c == nil {
				continue
			}
			for i, l := range c.doc {
				m := directive.FindStringSubmatch(l)
				if m == nil || m[1] != "contract" {
					continue
				}
				target := strings.TrimSpace(m[2])
				if strings.HasPrefix(target, "var ") {
					name := strings.TrimSpace(target[4:])
					gn := "zzinit_" + name
					c.doc[i] = "//@ contract " + gn
					c.Var = name
					v := p.vars[name]
					if v == nil || v.expr == "" {
						if ast.IsExported(name) {
							c.Broken = "the variable " + name + " does not exist or has no initial value"
						} else {
							c.Retired = "the variable " + name + " does not exist"
							fmt.Fprintf(&add, "\nvar %s = %s()\n", name, fd.Name.Name)
						}
						continue
					}
					gens = append(gens, &genText{file: v.file, name: key, text: fmt.Sprintf("func %s() %s { return %s }\n", gn, strings.Join(typesOf(fd.Type.Results), ", "), v.expr)})
					continue
				}
				if strings.ContainsAny(target, "/#$") {
					continue
				}
				name := target[strings.LastIndexByte(target, '.')+1:]
				if !unicode.IsLower([]rune(name)[0]) || name == "main" || name == "init" {
					continue
				}
				sp := typesOf(fd.Type.Params)
				isMethod := strings.HasPrefix(target, "(")
				if isMethod {
					if len(sp) == 0 {
						continue
					}
					sp = sp[1:]
				}
				fn := p.funcs[target]
				if fn != nil {
					if strings.Join(typesOf(fn.Type.Params), "\x00") == strings.Join(sp, "\x00") && strings.Join(typesOf(fn.Type.Results), "\x00") == strings.Join(typesOf(fd.Type.Results), "\x00") {
						continue
					}
					if isMethod && p.methods[name] != 1 {
						continue
					}
					c.Retired = "the private function " + target + " has other parameters or results"
				} else {
					if isMethod && p.methods[name] != 0 && p.methods[name]%100 == 0 {
						continue // an interface member that the type gets by embedding
					}
					// a function with another name may be the one
					if w.aliases && (!isMethod || p.methods[name] == 0) {
						var cand []string
						for n, d := range p.funcs {
							cn := d.Name.Name
							if !taken[dir+"#"+n] && unicode.IsLower([]rune(cn)[0]) && cn != "main" && cn != "init" && n[:len(n)-len(cn)] == target[:len(target)-len(name)] &&
								strings.Join(typesOf(d.Type.Params), "\x00") == strings.Join(sp, "\x00") && strings.Join(typesOf(d.Type.Results), "\x00") == strings.Join(typesOf(fd.Type.Results), "\x00") {
								cand = append(cand, cn)
							}
						}
						if len(cand) == 1 && rename(dir, name, cand[0]) {
							c.doc[i] = "//@ contract " + target[:len(target)-len(name)] + cand[0]
							w.notes = append(w.notes, "the contract of "+target+" is verified for "+cand[0])
							w.aliased++
							continue
						}
					}
					if isMethod && p.methods[name] > 0 {
						continue
					}
					c.Retired = "the private function " + target + " does not exist"
				}
				stub := name
				if fn != nil {
					stub = "zzold_" + name
					rename(dir, name, stub)
				}
				var ps, as []string
				recv := ""
				k := 0
				for _, fl := range fd.Type.Params.List {
					n := len(fl.Names)
					if n == 0 {
						n = 1
					}
					for ; n > 0; n-- {
						a := fmt.Sprintf("zz%d", k)
						t := nodeText(fl.Type)
						if isMethod && k == 0 {
							recv = "(" + a + " " + t + ") "
						} else {
							ps = append(ps, a+" "+t)
						}
						if strings.HasPrefix(t, "...") {
							a += "..."
						}
						as = append(as, a)
						k++
					}
				}
				rs := typesOf(fd.Type.Results)
				ret := ""
				if len(rs) > 0 {
					ret = "return "
				}
				fmt.Fprintf(&add, "\nfunc %s%s(%s) (%s) { %s%s(%s) }\n", recv, stub, strings.Join(ps, ", "), strings.Join(rs, ", "), ret, fd.Name.Name, strings.Join(as, ", "))
			}
		}
		if add.Len() > 0 {
			sf.src = append(append(append([]byte(nil), sf.src...), '\n'), add.Bytes()...)
		}
	}
	for dir, names := range renames {
		for _, sf := range sfs {
			if filepath.Dir(sf.virt) == dir {
				renameCalls(sf, names)
			}
		}
	}
	sort.SliceStable(gens, func(i, j int) bool { return gens[i].file < gens[j].file })
	return gens
}

// renameCalls lets the specifications call the stub of a function that has changed
func renameCalls(sf *specFile, names map[string]string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, sf.real, sf.src, parser.ParseComments)
	if err != nil {
		return
	}
	type place struct {
		at   int
		name string
	}
	var at []place
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			switch fun := n.Fun.(type) {
			case *ast.Ident:
				if names[fun.Name] != "" {
					at = append(at, place{fset.Position(fun.Pos()).Offset, fun.Name})
				}
			case *ast.SelectorExpr:
				if names[fun.Sel.Name] != "" {
					at = append(at, place{fset.Position(fun.Sel.Pos()).Offset, fun.Sel.Name})
				}
			}
		}
		return true
	})
	sort.Slice(at, func(i, j int) bool { return at[i].at > at[j].at })
	b := string(sf.src)
	for _, o := range at {
		b = b[:o.at] + names[o.name] + b[o.at+len(o.name):]
	}
	sf.src = []byte(b)
}
