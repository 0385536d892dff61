package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// Summaries of functions for the analyses of concurrency: which memory a
// function touches, named by access paths from its parameters, captured
// variables, globals and the objects it makes; the locks held at each of these
// accesses on every way there; the locks taken and released; the tasks started;
// what may block. A summary is put into the callers by replacing the
// parameters with what is passed, so that a lock taken by a caller protects
// what a callee does and the other way round.

// apath names memory: a root and the fields ("T.f") and elements ("[]") on the
// way from it. The cell and the object that the pointer in it refers to have
// the same name.
type apath struct {
	root  string
	comps string
}

func (p apath) String() string { return p.root + p.comps }

func (p apath) with(comp string) apath {
	n := strings.Count(p.comps, "/")
	if n >= 12 {
		return p
	}
	return apath{p.root, p.comps + "/" + comp}
}

func (p apath) fresh() bool { return strings.HasPrefix(p.root, "N") }

// key is the kind of memory: the last field with the element steps after it.
func (p apath) key() string {
	i := strings.LastIndex(p.comps, "/")
	if i < 0 {
		if p.root[0] == 'N' || p.root[0] == 'G' {
			return p.root
		}
		return ""
	}
	rest := ""
	s := p.comps
	for strings.HasSuffix(s, "/[]") {
		rest += "[]"
		s = strings.TrimSuffix(s, "/[]")
	}
	i = strings.LastIndex(s, "/")
	if i < 0 {
		if p.root[0] == 'N' || p.root[0] == 'G' {
			return p.root + rest
		}
		return ""
	}
	if f := s[i+1:]; f != "*" {
		return f + rest
	}
	return ""
}

// under: the memory is part of the object that base names.
func (p apath) under(base apath) bool {
	return p.root == base.root && (p.comps == base.comps || strings.HasPrefix(p.comps, base.comps+"/"))
}

// lockAt is a lock that is held: W or R.
type lockAt struct {
	path apath
	mode string
	pos  token.Pos
}

func (l lockAt) owner() apath {
	i := strings.LastIndex(l.path.comps, "/")
	if i < 0 {
		return l.path
	}
	return apath{l.path.root, l.path.comps[:i]}
}

type lockSet map[apath]lockAt

func (s lockSet) clone() lockSet {
	r := lockSet{}
	for k, v := range s {
		r[k] = v
	}
	return r
}

func (s lockSet) String() string {
	var r []string
	for k, v := range s {
		r = append(r, k.String()+":"+v.mode)
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// use is an access to memory.
type use struct {
	path    apath
	write   bool
	atomic  bool
	locks   lockSet
	shared  bool   // what the root names was made known to others before
	minus   strset // locks of the caller that were released before
	spawned strset
	pos     token.Pos
	fn      *ssa.Function
}

// taking is an acquisition of a lock with those already held.
type taking struct {
	lock  lockAt
	held  lockSet
	minus strset
	pos   token.Pos
	fn    *ssa.Function
}

// block is an operation that may wait without limit.
type block struct {
	what  string
	held  lockSet
	minus strset
	pos   token.Pos
	fn    *ssa.Function
}

type strset map[string]bool

func (s strset) add(t strset) strset {
	if len(t) == 0 {
		return s
	}
	r := strset{}
	for k := range s {
		r[k] = true
	}
	for k := range t {
		r[k] = true
	}
	return r
}

func (s strset) String() string {
	var r []string
	for k := range s {
		r = append(r, k)
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

// fcall is a call of a function that was passed in.
type fcall struct {
	root    string // the parameter or captured variable it is
	held    lockSet
	minus   strset
	spawned strset
	pos     token.Pos
	own     bool // runs as a task of its own
}

type summary struct {
	uses   map[string]use
	takes  map[string]taking
	blocks map[string]block
	calls  map[string]fcall
	spawns strset
	acq    lockSet // held when it returns, not when it was called
	rel    lockSet // released though not taken here
	pubs   strset  // roots made known to other tasks
	inside map[string]strset
	links  map[apath]apath
	rets   [][]apath
	odd    map[string]oddity
	starts map[string]started
}

func newSummary() *summary {
	return &summary{uses: map[string]use{}, takes: map[string]taking{}, blocks: map[string]block{}, calls: map[string]fcall{}, spawns: strset{}, acq: lockSet{}, rel: lockSet{}, pubs: strset{}, inside: map[string]strset{}, links: map[apath]apath{}, odd: map[string]oddity{}, starts: map[string]started{}}
}

// oddity is a way out of a function with a lock neither held nor released.
type oddity struct {
	rule, what string
	pos        token.Pos
	fn         *ssa.Function
}

// thread is a function that runs on its own.
type thread struct {
	name string
	fn   *ssa.Function
	clos *ssa.MakeClosure
	many bool   // runs more than once at a time, for the same object
	from string // what starts it, if not the place that hands it over
	pos  token.Pos
	all  bool // every parameter is shared
}

type conc struct {
	c       *Ctx
	sums    map[*ssa.Function]*summary
	busy    map[*ssa.Function]bool
	threads map[string]*thread
	order   []*thread
	impls   map[string][]*ssa.Function
	taken   map[string][]*ssa.Function
	stored  map[string][]ssa.Value
}

func (c *Ctx) newConc() *conc {
	x := &conc{c: c, sums: map[*ssa.Function]*summary{}, busy: map[*ssa.Function]bool{}, threads: map[string]*thread{}, impls: map[string][]*ssa.Function{}, stored: map[string][]ssa.Value{}}
	x.taken = map[string][]*ssa.Function{}
	for _, f := range c.ReachableFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Function)
					if !ok || !x.own(g) {
						continue
					}
					if isCall && call.Common().Value == g {
						continue
					}
					k := types.TypeString(g.Signature, nil)
					x.taken[k] = append(x.taken[k], g)
				}
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if _, ok := s.Val.Type().Underlying().(*types.Signature); ok {
							k := fieldKey(eng.DerefType(fa.X.Type()), fa.Field)
							x.stored[k] = append(x.stored[k], s.Val)
						}
					}
				}
			}
		}
	}
	return x
}

// own: a function of the repository that is written by hand.
func (x *conc) own(f *ssa.Function) bool {
	if f == nil || !x.c.InRepo(f) || len(f.Blocks) == 0 {
		return false
	}
	return !strings.Contains(f.String(), Mod+"/pkg/proto.")
}

// --- values --------------------------------------------------------------------

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func compOf(t types.Type, i int) string {
	t = eng.DerefType(t)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	return shortType(t) + "." + st.Field(i).Name()
}

func (x *conc) at(kind string, in ssa.Value) apath {
	return apath{root: fmt.Sprintf("%s@%s#%s", kind, x.c.Pos(in.Pos()), in.Name())}
}

// names the memory a value refers to.
func (x *conc) paths(v ssa.Value) []apath { return x.pathsOf(v, map[ssa.Value]bool{}) }

func (x *conc) pathsOf(v ssa.Value, seen map[ssa.Value]bool) []apath {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	defer delete(seen, v)
	add := func(ps []apath, comp string) []apath {
		var r []apath
		for _, p := range ps {
			r = append(r, p.with(comp))
		}
		return r
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		return []apath{{root: fmt.Sprintf("P%d", paramIndex(v))}}
	case *ssa.FreeVar:
		for i, f := range v.Parent().FreeVars {
			if f == v {
				return []apath{{root: fmt.Sprintf("F%d", i)}}
			}
		}
	case *ssa.Global:
		return []apath{{root: "G:" + v.String()}}
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return []apath{x.at("N", v)}
	case *ssa.Convert:
		return x.pathsOf(v.X, seen)
	case *ssa.ChangeType:
		return x.pathsOf(v.X, seen)
	case *ssa.ChangeInterface:
		return x.pathsOf(v.X, seen)
	case *ssa.MakeInterface:
		return x.pathsOf(v.X, seen)
	case *ssa.TypeAssert:
		return x.pathsOf(v.X, seen)
	case *ssa.Slice:
		return x.pathsOf(v.X, seen)
	case *ssa.FieldAddr:
		return add(x.pathsOf(v.X, seen), compOf(v.X.Type(), v.Field))
	case *ssa.Field:
		return add(x.pathsOf(v.X, seen), compOf(v.X.Type(), v.Field))
	case *ssa.IndexAddr:
		return add(x.pathsOf(v.X, seen), "[]")
	case *ssa.Index:
		return add(x.pathsOf(v.X, seen), "[]")
	case *ssa.Lookup:
		return add(x.pathsOf(v.X, seen), "[]")
	case *ssa.Next:
		if r, ok := v.Iter.(*ssa.Range); ok {
			return add(x.pathsOf(r.X, seen), "[]")
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return x.loaded(v, seen)
		}
	case *ssa.Phi:
		var r []apath
		for _, e := range v.Edges {
			r = union(r, x.pathsOf(e, seen))
		}
		return r
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			return x.result(t, v.Index, seen)
		case *ssa.Next:
			if v.Index == 2 {
				return x.pathsOf(t, seen)
			}
			return nil
		case *ssa.Lookup, *ssa.TypeAssert:
			if v.Index == 0 {
				return x.pathsOf(t, seen)
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			var r []apath
			if b.Name() == "append" {
				for _, a := range v.Call.Args {
					r = union(r, x.pathsOf(a, seen))
				}
			}
			return r
		}
		return x.result(v, 0, seen)
	}
	return nil
}

func union(a, b []apath) []apath {
	for _, p := range b {
		dup := false
		for _, q := range a {
			dup = dup || p == q
		}
		if !dup && len(a) < 6 {
			a = append(a, p)
		}
	}
	return a
}

// loaded: what a cell holds. A local variable stands for what is put into it.
func (x *conc) loaded(v *ssa.UnOp, seen map[ssa.Value]bool) []apath {
	switch a := v.X.(type) {
	case *ssa.Alloc:
		if refers(v.Type()) {
			return x.held(a, seen)
		}
	case *ssa.FreeVar:
		if refers(v.Type()) {
			var r []apath
			for _, p := range x.pathsOf(a, seen) {
				r = append(r, p.with("*"))
			}
			return r
		}
	}
	return x.pathsOf(v.X, seen)
}

// held: what is stored into a local variable, also by the closures that
// capture it (those only when they get it from here).
func (x *conc) held(a *ssa.Alloc, seen map[ssa.Value]bool) []apath {
	var r []apath
	for _, ref := range *a.Referrers() {
		switch s := ref.(type) {
		case *ssa.Store:
			if s.Addr == a {
				r = union(r, x.pathsOf(s.Val, seen))
			}
		case *ssa.MakeClosure:
			fn := s.Fn.(*ssa.Function)
			for i, b := range s.Bindings {
				if b != a {
					continue
				}
				for _, fr := range *fn.FreeVars[i].Referrers() {
					if st, ok := fr.(*ssa.Store); ok && st.Addr == fn.FreeVars[i] {
						for _, p := range x.pathsOf(st.Val, seen) {
							switch p.root[0] {
							case 'N', 'G', 'L':
								r = union(r, []apath{p})
							default:
								r = union(r, x.bound(s, p, seen))
							}
						}
					}
				}
			}
		}
	}
	return r
}

// bound: a path in a closure as the function that makes the closure names it.
func (x *conc) bound(mc *ssa.MakeClosure, p apath, seen map[ssa.Value]bool) []apath {
	if p.root[0] != 'F' {
		return nil
	}
	i := 0
	fmt.Sscanf(p.root, "F%d", &i)
	if i >= len(mc.Bindings) {
		return nil
	}
	return x.replace(p, x.pathsOf(mc.Bindings[i], seen), mc.Bindings[i], seen)
}

// replace puts the paths of what a root stands for in its place.
func (x *conc) replace(p apath, by []apath, v ssa.Value, seen map[ssa.Value]bool) []apath {
	var r []apath
	if rest, ok := strings.CutPrefix(p.comps, "/*"); ok {
		// what the captured variable holds
		if a, isA := v.(*ssa.Alloc); isA {
			for _, q := range x.held(a, seen) {
				r = append(r, apath{q.root, q.comps + rest})
			}
			return r
		}
		for _, q := range by {
			if q.root[0] == 'F' && q.comps == "" {
				r = append(r, apath{q.root, p.comps})
			} else {
				r = append(r, apath{q.root, q.comps + rest})
			}
		}
		return r
	}
	for _, q := range by {
		r = append(r, apath{q.root, q.comps + p.comps})
	}
	return r
}

func refers(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// result: what a call gives back.
func (x *conc) result(call *ssa.Call, i int, seen map[ssa.Value]bool) []apath {
	var r []apath
	for _, t := range x.targets(&call.Call) {
		s := x.sum(t.fn)
		if i >= len(s.rets) {
			continue
		}
		for _, p := range s.rets[i] {
			r = union(r, x.subst(p, t, call.Pos(), seen))
		}
	}
	if len(r) == 0 && refers(call.Type()) || len(r) == 0 && call.Call.Signature().Results().Len() > 1 {
		if len(x.targets(&call.Call)) == 0 {
			return []apath{{root: fmt.Sprintf("L@%s#%s.%d", x.c.Pos(call.Pos()), call.Name(), i)}}
		}
	}
	return r
}

// --- calls ---------------------------------------------------------------------

// target is a function that a call can run, with what its parameters and
// captured variables are.
type target struct {
	fn   *ssa.Function
	args []ssa.Value // nil elements: not known
	clos *ssa.MakeClosure
	via  *ssa.Call // the call that handed the closure out
	sync bool      // called by a library
}

// subst puts what is passed in place of a parameter.
func (x *conc) subst(p apath, t target, pos token.Pos, seen map[ssa.Value]bool) []apath {
	var i int
	switch p.root[0] {
	case 'P':
		fmt.Sscanf(p.root, "P%d", &i)
		if i < len(t.args) && t.args[i] != nil {
			return x.replace(p, x.pathsOf(t.args[i], seen), t.args[i], seen)
		}
		return []apath{{"U", p.comps}}
	case 'F':
		fmt.Sscanf(p.root, "F%d", &i)
		if t.clos != nil && i < len(t.clos.Bindings) {
			if t.clos.Parent() == nil {
				return nil
			}
			ps := x.replace(p, x.pathsOf(t.clos.Bindings[i], seen), t.clos.Bindings[i], seen)
			if t.via == nil {
				return ps
			}
			var r []apath
			for _, q := range ps {
				r = union(r, x.subst(q, target{fn: t.clos.Parent(), args: t.via.Call.Args}, t.via.Pos(), seen))
			}
			return r
		}
		return []apath{{"U", p.comps}}
	case 'N':
		if len(p.root) < 200 {
			return []apath{{p.root + "^" + x.c.Pos(pos), p.comps}}
		}
	}
	return []apath{p}
}

func (x *conc) targets(call *ssa.CallCommon) []target {
	if call.IsInvoke() {
		args := append([]ssa.Value{call.Value}, call.Args...)
		var r []target
		for _, f := range x.methods(call.Value.Type(), call.Method.Name()) {
			r = append(r, target{fn: f, args: args})
		}
		return r
	}
	switch v := call.Value.(type) {
	case *ssa.Function:
		if x.own(v) {
			return []target{{fn: v, args: call.Args}}
		}
		return nil
	case *ssa.Builtin:
		return nil
	case *ssa.MakeClosure:
		return []target{{fn: v.Fn.(*ssa.Function), args: call.Args, clos: v}}
	}
	var r []target
	for _, f := range x.funcs(call.Value) {
		t := target{args: call.Args}
		switch f := f.(type) {
		case *ssa.Function:
			t.fn = f
		case *ssa.MakeClosure:
			t.fn, t.clos = f.Fn.(*ssa.Function), f
			if f.Parent() != call.Value.Parent() {
				t.clos = nil
				if by, ok := call.Value.(*ssa.Call); ok && by.Call.StaticCallee() == f.Parent() && f.Parent() != nil {
					t.clos, t.via = f, by
				}
			}
		}
		if x.own(t.fn) {
			r = append(r, t)
		}
	}
	return r
}

// funcs lists the functions a value can be; parameters are not followed.
func (x *conc) funcs(v ssa.Value) []ssa.Value {
	var r []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Function, *ssa.MakeClosure:
			r = append(r, v)
		case *ssa.ChangeType:
			walk(v.X)
		case *ssa.MakeInterface:
			walk(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
		case *ssa.UnOp:
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				for _, s := range x.stored[fieldKey(eng.DerefType(a.X.Type()), a.Field)] {
					for _, g := range x.c.sources(s) {
						walk(g)
					}
				}
			case *ssa.Alloc:
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
						walk(s.Val)
					}
				}
			case *ssa.FreeVar:
				for _, s := range x.c.sources(v.X) {
					if al, ok := s.(*ssa.Alloc); ok {
						for _, ref := range *al.Referrers() {
							if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
								walk(s.Val)
							}
						}
					}
				}
			}
		case *ssa.Call, *ssa.Extract, *ssa.FreeVar:
			for _, s := range x.c.sources(v) {
				if s != v {
					walk(s)
				}
			}
		case *ssa.Parameter:
		}
	}
	walk(v)
	return r
}

// methods that a call through an interface can run.
func (x *conc) methods(t types.Type, name string) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	k := types.TypeString(t, nil) + "." + name
	if r, ok := x.impls[k]; ok {
		return r
	}
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, p := range x.c.ByPath {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if named, ok := tn.Type().(*types.Named); ok && named.TypeParams().Len() > 0 {
				continue
			}
			for _, mt := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if !types.Implements(mt, it) {
					continue
				}
				sel := x.c.Prog.MethodSets.MethodSet(mt).Lookup(p.Pkg, name)
				if sel == nil {
					continue
				}
				f := x.c.Prog.MethodValue(sel)
				if f != nil && x.own(f) && !seen[f] && (f.Synthetic != "" || x.c.Reachable()[f]) {
					seen[f] = true
					r = append(r, f)
				}
				break
			}
		}
	}
	// *T has the methods of T too; the pointer's is the one stored
	x.impls[k] = r
	return r
}
