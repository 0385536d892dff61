// Package rules holds the repository-specific rules.
package rules

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const Mod = "github.com/kgantsov/doq"

// Ctx is the loaded program.
type Ctx struct {
	Repo   string
	Tier   string
	Pkgs   []*packages.Package
	Prog   *ssa.Program
	ByPath map[string]*ssa.Package
	Src    map[string]*packages.Package
	Fset   *token.FileSet
	reach  map[*ssa.Function]bool
	nils   map[string]bool
	pairs  map[string]string // slice field -> int field that holds its length
	least  map[string]bool   // of those, the ones of at least 1
	own    map[string]bool   // the packages analysed, where they are not the server's
}

const loadMode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
	packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile

// Load parses and type-checks a module of the repository from source and
// builds SSA for its packages. Dependencies come from export data.
func Load(dir string) (*Ctx, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: loadMode, Dir: dir, Fset: fset, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")}
	ps, err := packages.Load(cfg, "./...", "slices", "maps")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			// the embedded admin UI is not built here; that pattern is the only
			// tolerated error
			if strings.Contains(e.Msg, "no matching files found") {
				continue
			}
			return nil, fmt.Errorf("%s: %s", p.PkgPath, e)
		}
		p.IllTyped = false
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	c := &Ctx{Repo: dir, Pkgs: ps, Prog: prog, ByPath: map[string]*ssa.Package{}, Src: map[string]*packages.Package{}, Fset: fset}
	c.Pkgs = nil
	for i, p := range ps {
		if p.Module == nil { // the library packages loaded to look into
			continue
		}
		c.Pkgs = append(c.Pkgs, p)
		c.Src[p.PkgPath] = p
		if sp[i] != nil {
			c.ByPath[p.PkgPath] = sp[i]
		}
	}
	return c, nil
}

// InRepo reports whether a function's source is in the repository.
func (c *Ctx) InRepo(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	p := fn.Package()
	if c.own != nil {
		return p != nil && c.own[p.Pkg.Path()]
	}
	if p == nil {
		if fn.Parent() != nil {
			return c.InRepo(fn.Parent())
		}
		// wrappers and bound methods
		if obj, ok := fn.Object().(*types.Func); ok && obj.Pkg() != nil {
			return strings.HasPrefix(obj.Pkg().Path(), Mod)
		}
		return strings.Contains(fn.String(), Mod)
	}
	return strings.HasPrefix(p.Pkg.Path(), Mod)
}

// library: generic helpers of the standard library that are looked into
// rather than modelled.
func library(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	p := fn.Package()
	if p == nil {
		return false
	}
	switch p.Pkg.Path() + "." + fn.Name() {
	case "slices.Index", "slices.IndexFunc", "slices.Contains", "slices.ContainsFunc", "slices.Equal", "slices.Reverse",
		"slices.Clone", "slices.Delete", "slices.Insert", "maps.Clone", "maps.Copy", "maps.DeleteFunc":
		return true
	}
	return false
}

func (c *Ctx) Pkg(rel string) *ssa.Package { return c.ByPath[Mod+"/"+rel] }

// Func finds a package-level function.
func (c *Ctx) Func(rel, name string) *ssa.Function {
	if p := c.Pkg(rel); p != nil {
		return p.Func(name)
	}
	return nil
}

func (c *Ctx) Named(rel, name string) *types.Named {
	p := c.Pkg(rel)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Method finds a method of *T or T declared in the repository.
func (c *Ctx) Method(rel, typ, name string) *ssa.Function {
	n := c.Named(rel, typ)
	if n == nil {
		return nil
	}
	ms := c.Prog.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn := c.Prog.MethodValue(ms.At(i))
			if fn != nil && fn.Synthetic != "" {
				// a wrapper around a value-receiver method
				if o, ok := ms.At(i).Obj().(*types.Func); ok {
					if g := c.Prog.FuncValue(o); g != nil {
						return g
					}
				}
			}
			return fn
		}
	}
	return nil
}

// Methods of *T.
func (c *Ctx) Methods(rel, typ string) []*ssa.Function {
	n := c.Named(rel, typ)
	if n == nil {
		return nil
	}
	var r []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if f := c.Prog.FuncValue(n.Method(i)); f != nil {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

// Functions lists every source function of the repository (not tests), with
// closures.
func (c *Ctx) Functions() []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range c.Pkgs {
		sp := c.ByPath[p.PkgPath]
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				add(f)
			}
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(c.Prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (c *Ctx) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := c.Fset.Position(p)
	rel, err := filepath.Rel(c.Repo, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

var _ ast.Node

// --- reports ----------------------------------------------------------------

// Violation of a rule at a construct. Key identifies it across edits.
type Violation struct {
	Prop, Rule, Construct, Detail, Where string
	Path                                 []string
}

func (v Violation) Key() string { return v.Rule + "|" + v.Construct }

// Report collects the obligations of one property.
type Report struct {
	Prop        string
	C           *Ctx
	Obligations int
	Discharged  int
	Paths       int
	Steps       int
	Funcs       map[string]bool
	ran         map[string]bool // the functions that were interpreted
	Rules       map[string]int
	Samples     []string
	Assumptions []string
	Viol        []Violation
	Notes       []string
	Verif       string
	seen        map[string]bool
	only        map[string]bool
	hazards     func(e *eng.Exec) func(*eng.State, *eng.Hazard)
}

// Only runs f and records only the obligations of the given rules: what a
// shared analysis decides beyond them belongs to other properties.
func (r *Report) Only(f func(), rules ...string) {
	old := r.only
	m := map[string]bool{"instances": true, "anchor": true, "analysis-complete": true}
	for _, x := range rules {
		if x[0] == '-' { // decided elsewhere
			delete(m, x[1:])
			continue
		}
		m[x] = true
	}
	if old != nil {
		for k := range m {
			m[k] = m[k] && old[k]
		}
	}
	r.only = m
	defer func() { r.only = old }()
	f()
}

func NewReport(c *Ctx, prop string) *Report {
	return &Report{Prop: prop, C: c, Funcs: map[string]bool{}, ran: map[string]bool{}, Rules: map[string]int{}, seen: map[string]bool{}}
}

// Ob records an obligation.
func (r *Report) Ob(ok bool, rule, construct string, o *eng.Outcome, format string, args ...any) bool {
	if r.only != nil && !r.only[rule] {
		return ok
	}
	r.Obligations++
	r.Rules[rule]++
	if ok {
		r.Discharged++
		if len(r.Samples) < 12 && r.Rules[rule] == 1 {
			s := rule + " at " + construct
			if o != nil {
				s += fmt.Sprintf(" (path with %d facts, %d events)", len(o.St.Facts()), len(o.St.Events()))
			}
			r.Samples = append(r.Samples, s)
		}
		return true
	}
	v := Violation{Prop: r.Prop, Rule: rule, Construct: construct, Detail: fmt.Sprintf(format, args...)}
	if r.seen[v.Key()] {
		return false
	}
	r.seen[v.Key()] = true
	if o != nil {
		v.Where = r.C.Pos(o.Pos)
		v.Path = PathLines(r.C, o)
	}
	r.Viol = append(r.Viol, v)
	return false
}

// ObAt is Ob with an explicit position.
func (r *Report) ObAt(ok bool, rule, construct string, pos token.Pos, format string, args ...any) bool {
	n := len(r.Viol)
	r.Ob(ok, rule, construct, nil, format, args...)
	if len(r.Viol) > n {
		r.Viol[n].Where = r.C.Pos(pos)
	}
	return ok
}

// Anchor fails the check when something the rule is about cannot be found.
func (r *Report) Anchor(ok bool, what string) bool {
	return r.Ob(ok, "anchor", what, nil, "cannot find %s: the rule has nothing to decide", what)
}

// PathLines renders a path for a report.
func PathLines(c *Ctx, o *eng.Outcome) []string {
	var r []string
	for _, e := range o.St.Events() {
		switch e.Kind {
		case "rd", "index", "slice", "copy":
			continue
		case "wr":
			if e.Owned {
				continue
			}
		}
		r = append(r, fmt.Sprintf("  %-44s %s", c.Pos(e.Pos), e))
	}
	var rs []string
	for _, t := range o.Ret {
		if t != nil {
			rs = append(rs, o.St.Value(t).String())
		}
	}
	ex := [...]string{"return", "panic", "cut at the loop bound", "process exit", "blocked"}[o.Exit]
	r = append(r, fmt.Sprintf("  %-44s %s %s %s", c.Pos(o.Pos), ex, strings.Join(rs, ", "), o.Why))
	for _, f := range o.St.Facts() {
		r = append(r, "  fact: "+f)
	}
	return r
}

// --- known findings -----------------------------------------------------------

type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func LoadFindings(path string) ([]Finding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var f struct {
		Known []Finding `json:"known"`
	}
	err = json.Unmarshal(b, &f)
	return f.Known, err
}
