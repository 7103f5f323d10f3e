package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/lyraproj/hiera"

// Contract ties a function of the repository to the specification function that states what it does
type Contract struct {
	Name     string // spec function, pkg-relative
	Target   string // full name of the function under contract
	Props    []string
	Effects  string // none, reads, x, all
	NoPanic  bool
	Inline   bool
	Canary   bool // a wrong specification: verification must fail
	PanicV   bool
	ExactE   bool
	FailFree bool // the state after a failure is not specified
	ErrFree  bool // the results beside an error are not compared
	OnlyX    bool // the W and result obligations belong to other contracts; unused
	Spec     *ssa.Function
	Ensures  *ssa.Function // a property of arguments and results that follows from the specification
	Fn       *ssa.Function
	File     string
	Pkg      string
	Broken   string // reason the spec could not be type checked any more
	Retired  string // reason there is nothing to verify: the private function is not part of the current source
	Var      string // the variable whose initialiser is under contract
	doc      []string
}

type externRule struct {
	re      *regexp.Regexp
	effect  string
	nopanic bool
	nonnil  bool
}

type World struct {
	repo         string
	specDir      string
	prog         *ssa.Program
	pkgs         []*packages.Package
	ssaPkgs      map[string]*ssa.Package
	contracts    []*Contract
	byTarget     map[string]*Contract
	iface        map[string]*ssa.Function // interface method -> inlined spec
	models       map[string]*ssa.Function
	binds        map[string]*ssa.Function // ghost function -> its meaning for a concrete type
	specFns      map[*ssa.Function]bool
	specTop      map[*ssa.Function]bool // the specification functions of contracts
	externs      []externRule
	extCache     map[string]*externRule
	mutable      map[string]bool // field keys that are stored outside constructors
	mutMaps      map[string]bool
	stable       map[string]bool
	nonNil       map[string]bool
	types        map[string]types.Type // by type key
	inits        map[*ssa.Package]*State
	recursive    map[*ssa.Function]bool
	fields       map[string]bool
	gmut         map[*ssa.Global]bool
	dropped      []string
	notes        []string
	varContracts []*Contract
	aliases      bool // a contract may be that of a function with another name
	aliased      int
	funcsByNm    map[string]*ssa.Function
}

type specFile struct {
	real, virt string
	src        []byte
}

func readSpecs(repo, specDir string) ([]*specFile, error) {
	var out []*specFile
	err := filepath.Walk(specDir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(specDir, p)
		d, f := filepath.Split(rel)
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out = append(out, &specFile{real: p, virt: filepath.Join(repo, d, "zz_verif_"+f), src: src})
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].virt < out[j].virt })
	return out, err
}

// dropDecl blanks the top-level function declaration that encloses the given line and returns its name
func dropDecl(sf *specFile, line int) (string, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, sf.real, sf.src, parser.ParseComments)
	if err != nil {
		return "", false
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		s, e := fset.Position(fd.Pos()), fset.Position(fd.End())
		if s.Line <= line && line <= e.Line {
			// keep the line structure
			b := append([]byte(nil), sf.src...)
			for i := s.Offset; i < e.Offset; i++ {
				if b[i] != '\n' {
					b[i] = ' '
				}
			}
			sf.src = b
			return fd.Name.Name, true
		}
	}
	return "", false
}

var directive = regexp.MustCompile(`^//@ (\w+)\s*(.*)$`)

func load(repo, specDir string, externsFile string, aliases bool) (*World, error) {
	sfs, err := readSpecs(repo, specDir)
	if err != nil {
		return nil, err
	}
	w := &World{aliases: aliases, repo: repo, specDir: specDir, ssaPkgs: map[string]*ssa.Package{}, byTarget: map[string]*Contract{}, iface: map[string]*ssa.Function{},
		models: map[string]*ssa.Function{}, binds: map[string]*ssa.Function{}, specFns: map[*ssa.Function]bool{}, specTop: map[*ssa.Function]bool{}, extCache: map[string]*externRule{}, mutable: map[string]bool{},
		mutMaps: map[string]bool{}, stable: map[string]bool{}, nonNil: map[string]bool{}, types: map[string]types.Type{}, inits: map[*ssa.Package]*State{},
		fields: map[string]bool{}, gmut: map[*ssa.Global]bool{}, funcsByNm: map[string]*ssa.Function{}, recursive: map[*ssa.Function]bool{}}
	type droppedDecl struct{ pkgDir, name, why string }
	var dropped []droppedDecl
	// contracts are collected from the source text first, so that a dropped one is known
	docs := map[string]*Contract{}
	for _, sf := range sfs {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, sf.real, sf.src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		dir := filepath.Dir(sf.virt)
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			c := &Contract{Name: fd.Name.Name, Effects: "all", File: sf.real, Pkg: dir}
			for _, l := range fd.Doc.List {
				if strings.HasPrefix(l.Text, "//@ ") {
					c.doc = append(c.doc, l.Text)
				}
			}
			if len(c.doc) > 0 {
				docs[dir+"#"+fd.Name.Name] = c
			}
		}
	}
	gens := fit(repo, sfs, docs, w)
	var pkgs []*packages.Package
	for attempt := 0; ; attempt++ {
		overlay := map[string][]byte{}
		for _, g := range gens {
			b, ok := overlay[g.file]
			if !ok {
				if b, err = os.ReadFile(g.file); err != nil {
					return nil, err
				}
				b = append(b, '\n')
			}
			g.first = 1 + strings.Count(string(b), "\n")
			overlay[g.file] = append(b, g.text...)
		}
		pats := map[string]bool{"./...": true}
		for _, sf := range sfs {
			overlay[sf.virt] = sf.src
			d, _ := filepath.Rel(repo, filepath.Dir(sf.virt))
			pats["./"+d] = true
		}
		var pl []string
		for p := range pats {
			pl = append(pl, p)
		}
		sort.Strings(pl)
		cfg := &packages.Config{Dir: repo, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedImports | packages.NeedDeps | packages.NeedExportFile | packages.NeedTypesSizes | packages.NeedModule, Overlay: overlay,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")}
		pkgs, err = packages.Load(cfg, pl...)
		if err != nil {
			return nil, err
		}
		nerr := 0
		changed := false
		var first string
		for _, p := range pkgs {
			for _, e := range p.Errors {
				nerr++
				if first == "" {
					first = e.Error()
				}
				ps := strings.Split(e.Pos, ":")
				line := 0
				if len(ps) > 1 {
					fmt.Sscan(ps[1], &line)
				}
				for i, g := range gens {
					if g.file == ps[0] && line >= g.first && line < g.first+strings.Count(g.text, "\n") {
						docs[g.name].Broken = "the contract does not fit the initial value of the variable: " + e.Msg
						gens = append(append([]*genText(nil), gens[:i]...), gens[i+1:]...)
						changed = true
						break
					}
				}
				for _, sf := range sfs {
					if sf.virt == ps[0] {
						if n, ok := dropDecl(sf, line); ok {
							changed = true
							dropped = append(dropped, droppedDecl{filepath.Dir(sf.virt), n, e.Msg})
						} else {
							// an import that became unused because of dropped functions
							if dropImport(sf, line) {
								changed = true
							}
						}
					}
				}
			}
		}
		if nerr == 0 {
			break
		}
		if !changed || attempt > 20 {
			return nil, fmt.Errorf("cannot load %s: %s", repo, first)
		}
	}
	w.pkgs = pkgs
	prog, sps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for _, sp := range sps {
		if sp != nil {
			w.ssaPkgs[sp.Pkg.Path()] = sp
		}
	}
	w.indexTypes()
	// functions by name
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			w.funcsByNm[fn.String()] = fn
		}
	}
	dropNames := map[string]string{}
	for _, d := range dropped {
		dropNames[d.pkgDir+"#"+d.name] = d.why
	}
	keys := make([]string, 0, len(docs))
	for k := range docs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		c := docs[k]
		rel, _ := filepath.Rel(repo, c.Pkg)
		path := modPath
		if rel != "." {
			path += "/" + rel
		}
		sp := w.ssaPkgs[path]
		var specFn *ssa.Function
		if why, ok := dropNames[k]; ok {
			c.Broken = why
		} else if sp != nil {
			specFn = sp.Func(c.Name)
		}
		if specFn == nil && c.Broken == "" {
			return nil, fmt.Errorf("no function for spec %s", k)
		}
		c.Spec = specFn
		isContract := false
		for _, l := range c.doc {
			m := directive.FindStringSubmatch(l)
			if m == nil {
				return nil, fmt.Errorf("bad directive %s in %s", l, c.File)
			}
			arg := strings.TrimSpace(m[2])
			switch m[1] {
			case "contract":
				c.Target = expandName(path, arg)
				isContract = true
			case "property":
				c.Props = strings.Fields(arg)
			case "effects":
				c.Effects = arg
			case "nopanic":
				c.NoPanic = true
			case "inline":
				c.Inline = true
			case "failstate":
				c.FailFree = arg == "any"
			case "errvalue":
				c.ErrFree = arg == "any"
			case "ensures":
				if sp != nil && sp.Func(arg) != nil {
					c.Ensures = sp.Func(arg)
				} else {
					c.Broken = "the postcondition does not apply any more: " + arg
				}
			case "panicvalue":
				c.PanicV = true
			case "canary":
				c.Canary = true
			case "exacterrors":
				c.ExactE = true
			case "iface":
				for _, a := range strings.Fields(arg) {
					if specFn != nil {
						w.iface[expandName(path, a)] = specFn
					}
				}
			case "bind":
				if specFn != nil {
					w.binds[arg] = specFn
				}
			case "model":
				if specFn != nil {
					w.models[arg] = specFn
				}
			case "note":
			default:
				return nil, fmt.Errorf("unknown directive %s", l)
			}
		}
		if isContract && c.Retired != "" {
			w.notes = append(w.notes, "contract "+c.Name+" retired: "+c.Retired)
			continue
		}
		if isContract {
			w.contracts = append(w.contracts, c)
			c.Fn = w.funcsByNm[c.Target]
			if c.Fn == nil && c.Broken == "" {
				c.Broken = "the function under contract does not exist: " + c.Target
			}
			if c.Var != "" && sp != nil && sp.Var(c.Var) != nil {
				w.varContracts = append(w.varContracts, c)
			}
			if c.Fn != nil {
				w.byTarget[c.Fn.String()] = c
				w.specTop[c.Spec] = true
			}
		} else if c.Broken != "" {
			w.notes = append(w.notes, "support function "+c.Name+" dropped: "+c.Broken)
		}
	}
	for _, fn := range w.funcsByNm {
		if w.isSpec(fn) {
			w.specFns[fn] = true
		}
	}
	w.analyseFields()
	for _, c := range w.varContracts {
		if w.gmut[w.ssaPkgs[c.Fn.Pkg.Pkg.Path()].Var(c.Var)] {
			c.Broken = "the variable " + c.Var + " is changed after its initialisation"
		}
	}
	w.analyseRecursion()
	if err := w.readExterns(externsFile); err != nil {
		return nil, err
	}
	return w, nil
}

func dropImport(sf *specFile, line int) bool {
	ls := strings.Split(string(sf.src), "\n")
	if line < 1 || line > len(ls) {
		return false
	}
	l := strings.TrimSpace(ls[line-1])
	if strings.HasPrefix(l, "\"") || strings.HasPrefix(l, "import \"") {
		ls[line-1] = ""
		sf.src = []byte(strings.Join(ls, "\n"))
		return true
	}
	return false
}

// expandName turns (*T).M, T.M or F written relative to a package into the full SSA name
func expandName(path, n string) string {
	if strings.Contains(n, "/") {
		return n
	}
	if strings.HasPrefix(n, "(*") {
		return "(*" + path + "." + n[2:]
	}
	if strings.HasPrefix(n, "(") {
		return "(" + path + "." + n[1:]
	}
	return path + "." + n
}

func (w *World) isSpec(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if !fn.Pos().IsValid() {
		return false
	}
	f := w.prog.Fset.Position(fn.Pos()).Filename
	return strings.Contains(filepath.Base(f), "zz_verif_") || strings.HasPrefix(f, w.specDir)
}

func (w *World) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := fn.Pkg
	if p == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

// ---- types

func (w *World) indexTypes() {
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		sc := p.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				t := tn.Type()
				w.types[typeKey(t)] = t
				w.types["*"+typeKey(t)] = types.NewPointer(t)
			}
		}
		for _, i := range p.Imports() {
			visit(i)
		}
	}
	for _, p := range w.pkgs {
		if p.Types != nil {
			visit(p.Types)
		}
	}
	for _, b := range []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String} {
		w.types[types.Typ[b].Name()] = types.Typ[b]
	}
	w.types["error"] = types.Universe.Lookup("error").Type()
	w.installHooks()
}

// dynamic types that the constructor symbols of the theory have; the implementing dgo types are unexported structs
var ctorIface = map[string]string{
	"vfString": "github.com/lyraproj/dgo/dgo.String", "vfInt": "github.com/lyraproj/dgo/dgo.Integer", "vfBool": "github.com/lyraproj/dgo/dgo.Boolean",
	"vfNil": "github.com/lyraproj/dgo/dgo.Nil", "arr": "github.com/lyraproj/dgo/dgo.Array", "mput": "github.com/lyraproj/dgo/dgo.Map", "mempty": "github.com/lyraproj/dgo/dgo.Map",
	"mmerge": "github.com/lyraproj/dgo/dgo.Map", "mwithout": "github.com/lyraproj/dgo/dgo.Map", "mputall": "github.com/lyraproj/dgo/dgo.Map",
	"mentry": "github.com/lyraproj/dgo/dgo.MapEntry", "·Unique": "github.com/lyraproj/dgo/dgo.Array", "·Flatten": "github.com/lyraproj/dgo/dgo.Array", "·WithAll": "github.com/lyraproj/dgo/dgo.Array",
	"fmt.Errorf": "error", "errors.New": "error", "rterr": "runtime.Error",
}

// the kinds of dgo values exclude each other
var dgoKinds = []string{"String", "Integer", "Float", "Boolean", "Nil", "Array", "Map", "Binary", "Regexp", "Time", "Sensitive", "Function", "Native", "MapEntry", "Type"}

const dgoPkg = "github.com/lyraproj/dgo/dgo."

func (w *World) ifaceOf(op string) (*types.Interface, types.Type) {
	t := w.typeByKey(op[strings.IndexByte(op, ':')+1:])
	if t == nil {
		return nil, nil
	}
	i, _ := t.Underlying().(*types.Interface)
	return i, t
}

func (w *World) typeByKey(k string) types.Type {
	if t, ok := w.types[k]; ok {
		return t
	}
	return nil
}

func (w *World) installHooks() {
	implHook = func(op string, x *Term) *Term {
		// concrete dynamic type known
		if strings.HasPrefix(x.Op, "box:") {
			k := x.Op[4:]
			if strings.HasPrefix(op, "ty:") {
				return mkBool(op[3:] == k)
			}
			t := w.typeByKey(k)
			i, _ := w.ifaceOf(op)
			if t == nil || i == nil {
				return nil
			}
			return mkBool(types.Implements(t, i))
		}
		if strings.HasPrefix(x.Op, "new:") || strings.HasPrefix(x.Op, "clo:") || strings.HasPrefix(x.Op, "fn:") {
			return nil
		}
		if ci, ok := ctorIface[x.Op]; ok {
			if strings.HasPrefix(op, "ty:") {
				if t := w.typeByKey(op[3:]); t != nil && !strings.HasPrefix(op[3:], "*github.com/lyraproj/dgo/internal") {
					return tFalse
				}
				return nil
			}
			if r := implies("impl:"+ci, op); r {
				return tTrue
			}
			if disjoint("impl:"+ci, op) {
				return tFalse
			}
			// an interface of this repository is implemented only by its own types
			if strings.HasPrefix(op, "impl:"+modPath) {
				return tFalse
			}
		}
		return nil
	}
	impMemo := map[string]bool{}
	implies = func(a, b string) bool {
		k := a + "|" + b
		if r, ok := impMemo[k]; ok {
			return r
		}
		r := false
		ta := w.typeByKey(a[strings.IndexByte(a, ':')+1:])
		ib, _ := w.ifaceOf(b)
		if ta != nil && ib != nil && strings.HasPrefix(b, "impl:") {
			r = types.Implements(ta, ib)
		}
		impMemo[k] = r
		return r
	}
	kind := func(op string) string {
		for _, k := range dgoKinds {
			if op == "impl:"+dgoPkg+k {
				return k
			}
		}
		return ""
	}
	disMemo := map[string]bool{}
	disjoint = func(a, b string) bool {
		k := a + "|" + b
		if r, ok := disMemo[k]; ok {
			return r
		}
		r := false
		switch {
		case strings.HasPrefix(a, "ty:") && strings.HasPrefix(b, "ty:"):
			r = a != b
		case strings.HasPrefix(a, "ty:") || strings.HasPrefix(b, "ty:"):
			if strings.HasPrefix(b, "ty:") {
				a, b = b, a
			}
			ta := w.typeByKey(a[3:])
			ib, _ := w.ifaceOf(b)
			if ta != nil && ib != nil {
				r = !types.Implements(ta, ib)
			}
		default:
			ka, kb := kind(a), kind(b)
			r = ka != "" && kb != "" && ka != kb
			if !r {
				// two interfaces with conflicting method signatures cannot both be implemented
				ia, _ := w.ifaceOf(a)
				ib, _ := w.ifaceOf(b)
				if ia != nil && ib != nil {
					for i := 0; i < ia.NumMethods() && !r; i++ {
						for j := 0; j < ib.NumMethods(); j++ {
							if ia.Method(i).Id() == ib.Method(j).Id() && !types.Identical(ia.Method(i).Type(), ib.Method(j).Type()) {
								r = true
								break
							}
						}
					}
				}
			}
		}
		disMemo[k] = r
		return r
	}
	staticIfaceOp = func(x *Term) string {
		if x.T != nil {
			if _, ok := x.T.Underlying().(*types.Interface); ok {
				k := typeKey(x.T)
				if _, ok := w.types[k]; ok {
					return "impl:" + k
				}
			}
		}
		if c, ok := ctorIface[x.Op]; ok {
			return "impl:" + c
		}
		return ""
	}
	valueTyped = func(x *Term) bool {
		s := staticIfaceOp(x)
		return s != "" && implies(s, "impl:"+dgoPkg+"Value")
	}
}

// ---- field immutability

// fieldOwner returns the key of the field a FieldAddr denotes
func fieldKeyOf(fa *ssa.FieldAddr) string {
	pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
	st := pt.Underlying().(*types.Struct)
	return typeKey(pt) + "." + st.Field(fa.Field).Name()
}

func baseAlloc(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return baseAlloc(v.X)
	case *ssa.Phi:
		return false
	}
	return false
}

func (w *World) analyseFields() {
	fns := make([]*ssa.Function, 0, len(w.funcsByNm))
	for _, fn := range w.funcsByNm {
		if !w.specFns[fn] {
			fns = append(fns, fn)
		}
	}
	var markStruct func(t types.Type)
	markStruct = func(t types.Type) {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				w.mutable[typeKey(t)+"."+s.Field(i).Name()] = true
				markStruct(s.Field(i).Type())
			}
		}
	}
	for _, fn := range fns {
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && !isInit {
						w.gmut[g] = true
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if !baseAlloc(fa.X) {
							w.mutable[fieldKeyOf(fa)] = true
							// nested struct fields are written as a whole
							markStruct(st.Val.Type())
						}
					} else if _, ok := st.Addr.(*ssa.Alloc); !ok {
						markStruct(st.Val.Type())
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					for _, r := range *fa.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Val == fa {
								w.mutable[fieldKeyOf(fa)] = true
							}
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
						case ssa.CallInstruction:
							// a method call on a synchronisation primitive does not replace it
							if !opaqueStructs[typeKey(fa.Type().Underlying().(*types.Pointer).Elem())] {
								w.mutable[fieldKeyOf(fa)] = true
							}
						default:
							w.mutable[fieldKeyOf(fa)] = true
						}
					}
				}
				// the address of a global that escapes
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch x := in.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							if x.Val == g {
								w.gmut[g] = true
							}
						case *ssa.FieldAddr, *ssa.IndexAddr:
							if !isInit {
								w.gmut[g] = true
							}
						default:
							w.gmut[g] = true
						}
					}
				}
			}
		}
	}
}

func (w *World) immutable(key string) bool {
	if w.mutable[key] {
		return false
	}
	// only the types of this repository are analysed
	return strings.HasPrefix(key, modPath)
}

func (w *World) analyseRecursion() {
	// functions that can call themselves through static calls and closures
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range w.funcsByNm {
		var all []*ssa.Function
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						all = append(all, f)
					}
				}
			}
		}
		succ[fn] = all
	}
	for _, fn := range w.funcsByNm {
		seen := map[*ssa.Function]bool{}
		var dfs func(f *ssa.Function) bool
		dfs = func(f *ssa.Function) bool {
			for _, s := range succ[f] {
				if s == fn {
					return true
				}
				if !seen[s] {
					seen[s] = true
					if dfs(s) {
						return true
					}
				}
			}
			return false
		}
		if dfs(fn) {
			w.recursive[fn] = true
		}
	}
}

// ---- externs

func (w *World) readExterns(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		fs := strings.Fields(l)
		switch fs[0] {
		case "mutablemap":
			w.mutMaps[modPath+"/"+fs[1]] = true
			continue
		case "stable":
			w.stable[modPath+"/"+fs[1]] = true
			continue
		case "nonnil":
			for _, t := range fs[1:] {
				w.nonNil[strings.ReplaceAll(t, "~", modPath)] = true
			}
			continue
		}
		pat := regexp.QuoteMeta(strings.ReplaceAll(fs[0], "~", modPath))
		pat = strings.ReplaceAll(pat, `\*\*`, `.*`)
		r := externRule{re: regexp.MustCompile("^" + pat + "$"), effect: fs[1]}
		for _, o := range fs[2:] {
			switch o {
			case "nopanic":
				r.nopanic = true
			case "nonnil":
				r.nonnil = true
			default:
				return fmt.Errorf("bad extern line %s", l)
			}
		}
		w.externs = append(w.externs, r)
	}
	stableField = func(key string) bool { return w.stable[key] }
	return nil
}

func (w *World) extern(name string) *externRule {
	if r, ok := w.extCache[name]; ok {
		return r
	}
	for i := range w.externs {
		if w.externs[i].re.MatchString(name) {
			w.extCache[name] = &w.externs[i]
			return &w.externs[i]
		}
	}
	w.extCache[name] = nil
	return nil
}
