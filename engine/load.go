package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// repoDir is the tree under check; the registered commands never set VERIF_REPO.
var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

var repoMod = "github.com/takakv/msc-poc"

// Harness is one checked scenario: a function verif_<ID>_<name>() in package pkg.
type Harness struct {
	ID, Name string
	Pkg      string // import path
	Fn       *ssa.Function
	File     string
	noMerge  bool
}

func (h *Harness) enumMax() int { return 70 }

type harnessFile struct {
	pkgKey string // "main", "bulletproofs", ...
	src    string // path under /verif
	dst    string // overlay path in /repo
	funcs  []string
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func readMod() {
	b, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "module ") {
				repoMod = strings.TrimSpace(strings.TrimPrefix(l, "module "))
			}
		}
	}
}

func pkgPathOf(key string) string {
	if key == "main" {
		return repoMod
	}
	return repoMod + "/" + key
}
func pkgDirOf(key string) string {
	if key == "main" {
		return repoDir
	}
	return filepath.Join(repoDir, key)
}

// harnessFiles lists the harness sources of a property.
func harnessFiles(id string) []harnessFile {
	var out []harnessFile
	base := filepath.Join(verifDir(), "harness")
	for _, key := range []string{"main", "bulletproofs", "voteproof", "group", "util"} {
		ents, _ := os.ReadDir(filepath.Join(base, key))
		for _, e := range ents {
			n := e.Name()
			low := strings.ToLower(id)
			if !strings.HasSuffix(n, ".go") || !(strings.HasPrefix(n, low+"_") || n == low+".go" || strings.HasPrefix(n, "common_")) {
				continue
			}
			hf := harnessFile{pkgKey: key, src: filepath.Join(base, key, n), dst: filepath.Join(pkgDirOf(key), "zz_verif_"+n)}
			f, err := parser.ParseFile(token.NewFileSet(), hf.src, nil, 0)
			if err != nil {
				fmt.Fprintln(os.Stderr, "harness does not parse:", err)
				continue
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && strings.HasPrefix(fd.Name.Name, "verif_"+id+"_") {
					hf.funcs = append(hf.funcs, fd.Name.Name)
				}
			}
			out = append(out, hf)
		}
	}
	// common files only where the property has harnesses
	var res []harnessFile
	for _, h := range out {
		if len(h.funcs) > 0 {
			res = append(res, h)
			continue
		}
		for _, g := range out {
			if g.pkgKey == h.pkgKey && len(g.funcs) > 0 {
				res = append(res, h)
				break
			}
		}
	}
	return res
}

type loaded struct {
	P         *Program
	harnesses []*Harness
	dropped   []string
	files     []harnessFile
}

func rtFiles() map[string]string {
	out := map[string]string{}
	dir := filepath.Join(verifDir(), "verifrt")
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			out[filepath.Join(repoDir, "verifrt", e.Name())] = filepath.Join(dir, e.Name())
		}
	}
	return out
}

// load type-checks the repository's current tree together with the harnesses.
func load(id string) (*loaded, error) {
	files := harnessFiles(id)
	if len(files) == 0 {
		return nil, fmt.Errorf("no harness for %s", id)
	}
	var dropped []string
	for round := 0; round < 6; round++ {
		overlay := map[string][]byte{}
		for dst, src := range rtFiles() {
			b, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			overlay[dst] = b
		}
		keys := map[string]bool{}
		byDst := map[string]int{}
		for i, f := range files {
			b, err := os.ReadFile(f.src)
			if err != nil {
				return nil, err
			}
			overlay[f.dst] = b
			keys[f.pkgKey] = true
			byDst[f.dst] = i
		}
		var pats []string
		for k := range keys {
			pats = append(pats, pkgPathOf(k))
		}
		sort.Strings(pats)
		pats = append(pats, repoMod+"/verifrt")
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax,
			Dir:     repoDir,
			Env:     append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off"),
			Overlay: overlay,
			Tests:   false,
		}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := map[int]string{}
		var hard []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if !strings.HasPrefix(p.PkgPath, repoMod) {
				return
			}
			for _, e := range p.Errors {
				file := e.Pos
				if i := strings.Index(file, ".go:"); i >= 0 {
					file = file[:i+3]
				}
				if i, ok := byDst[file]; ok {
					bad[i] = e.Msg
				} else {
					hard = append(hard, e.Error())
				}
			}
		})
		if len(bad) > 0 {
			var keep []harnessFile
			for i, f := range files {
				if m, ok := bad[i]; ok {
					dropped = append(dropped, fmt.Sprintf("%s: %s", filepath.Base(f.src), m))
					continue
				}
				keep = append(keep, f)
			}
			files = keep
			n := 0
			for _, f := range files {
				n += len(f.funcs)
			}
			if n == 0 {
				return &loaded{dropped: dropped}, nil
			}
			continue
		}
		if len(hard) > 0 {
			return nil, fmt.Errorf("the repository does not type-check: %s", hard[0])
		}
		prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, repoMod: repoMod, intr: intrTab, built: map[*ssa.Package]bool{}, hostTypes: map[string]types.Type{}}
		for _, p := range prog.AllPackages() {
			P.pkgs[p.Pkg.Path()] = p
		}
		mk := func(n string) types.Type {
			t := types.NewNamed(types.NewTypeName(token.NoPos, nil, "host:"+n, nil), types.NewStruct(nil, nil), nil)
			P.hostTypes[n] = t
			return t
		}
		P.errType = mk("error")
		P.rtErrType = mk("rterror")
		for _, n := range []string{"group", "reader", "hash"} {
			mk(n)
		}
		for _, ci := range []*CurveInfo{curveP256, curveP384, curveK1, curveR255} {
			mk("elem-" + ci.name)
			mk("scalar-" + ci.name)
		}
		out := &loaded{P: P, dropped: dropped, files: files}
		for _, f := range files {
			sp := P.pkgs[pkgPathOf(f.pkgKey)]
			for _, n := range f.funcs {
				fn := sp.Func(n)
				if fn == nil {
					continue
				}
				out.harnesses = append(out.harnesses, &Harness{ID: id, Name: n, Pkg: f.pkgKey, Fn: fn, File: f.src})
			}
		}
		return out, nil
	}
	return nil, fmt.Errorf("could not load harnesses")
}

// ---------------------------------------------------------------- program queries

var stdSource = map[string]bool{
	"strings": true, "bytes": true, "strconv": true, "sort": true, "slices": true, "maps": true, "cmp": true,
	"unicode/utf8": true, "unicode": true, "math": true, "math/bits": true, "errors": true, "iter": true, "encoding/binary": true,
	"internal/bytealg": false,
}

func (P *Program) pkgOf(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if fn.Parent() != nil {
		return P.pkgOf(fn.Parent())
	}
	if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		return P.pkgs[ob.Pkg().Path()]
	}
	return nil
}

func (P *Program) allowedPath(p string) bool {
	return p == P.repoMod || strings.HasPrefix(p, P.repoMod+"/") || strings.HasPrefix(p, "github.com/ing-bank/zkrp/") ||
		p == "github.com/ethereum/go-ethereum/crypto/secp256k1" || stdSource[p]
}

func (P *Program) allowed(fn *ssa.Function) bool {
	p := P.pkgOf(fn)
	if p == nil {
		return true // synthetic wrapper: the wrapped method is checked on its own
	}
	if fn.Synthetic != "" && fn.Name() != "init" && fn.Pkg == nil && fn.Origin() == nil {
		return true
	}
	return P.allowedPath(p.Pkg.Path())
}

func (P *Program) isTarget(p *ssa.Package) bool {
	s := p.Pkg.Path()
	return s == P.repoMod || strings.HasPrefix(s, P.repoMod+"/")
}
func (P *Program) initAllowed(p *ssa.Package) bool {
	return P.allowedPath(p.Pkg.Path()) && p.Pkg.Path() != P.repoMod+"/verifrt"
}

func (P *Program) build(fn *ssa.Function) {
	P.mu.Lock()
	defer P.mu.Unlock()
	if p := P.pkgOf(fn); p != nil && !P.built[p] {
		p.Build()
		P.built[p] = true
	}
}

func (P *Program) pos(in ssa.Instruction) string {
	ps := P.prog.Fset.Position(in.Pos())
	if !ps.IsValid() && in.Parent() != nil {
		ps = P.prog.Fset.Position(in.Parent().Pos())
	}
	return strings.TrimPrefix(ps.Filename, repoDir+"/") + ":" + fmt.Sprint(ps.Line)
}

func (P *Program) isHostType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && strings.HasPrefix(n.Obj().Name(), "host:")
}

var methCache sync.Map

func (P *Program) methodByName(t types.Type, name string) *ssa.Function {
	if P.isHostType(t) {
		return nil
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	k := types.TypeString(t, nil) + "." + name
	if v, ok := methCache.Load(k); ok {
		return v.(*ssa.Function)
	}
	P.mu.Lock()
	ms := P.prog.MethodSets.MethodSet(t)
	var fn *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			fn = P.prog.MethodValue(s)
			break
		}
	}
	P.mu.Unlock()
	methCache.Store(k, fn)
	return fn
}

func (P *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	return P.methodByName(t, m.Name())
}

func overlayJSON(m map[string]string, path string) error {
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": m}, "", " ")
	return os.WriteFile(path, b, 0o644)
}
