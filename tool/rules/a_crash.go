package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("A03", "Crash-freedom obligations over every reachable function that serves requests: each index, slice, make, division, type assertion, dereference, close, unlock, panic and process exit met on a path is discharged by the facts of that path (linear bounds prover, nil tests, types stored) or by an invariant of the data that is checked on its own (slice-length pairs, heap index contracts, pool types, opened queues).", 1000, ruleA03)
}

// nilable: a field into which nil is stored somewhere, or that is compared
// with nil somewhere, can hold nil.
func (c *Ctx) nilable(addr *eng.Term) bool {
	if c.nils == nil {
		c.nils = map[string]bool{}
		for _, f := range c.ReachableFuncs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						fa, ok := x.Addr.(*ssa.FieldAddr)
						if !ok || !canBeNil(x.Val.Type()) {
							continue
						}
						for _, s := range c.sources(x.Val) {
							if k, ok := s.(*ssa.Const); ok && k.IsNil() {
								c.nils[fieldKey(eng.DerefType(fa.X.Type()), fa.Field)] = true
							}
						}
					case *ssa.BinOp:
						if x.Op != token.EQL && x.Op != token.NEQ {
							continue
						}
						for _, s := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
							k, ok := s[1].(*ssa.Const)
							if !ok || !k.IsNil() {
								continue
							}
							if u, ok := s[0].(*ssa.UnOp); ok && u.Op == token.MUL {
								if fa, ok := u.X.(*ssa.FieldAddr); ok {
									c.nils[fieldKey(eng.DerefType(fa.X.Type()), fa.Field)] = true
								}
							}
						}
					}
				}
			}
		}
	}
	base := addr.Args[0]
	p := eng.Deref(base)
	if p == nil {
		return false
	}
	return c.nils[types.TypeString(p.Elem(), nil)+"."+addr.Aux] || fromWire(p.Elem(), addr.Aux)
}

// fromWire: a part of a message that its sender may leave out.
func fromWire(t types.Type, field string) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() != field || !f.Exported() || !canBeNil(f.Type()) {
			continue
		}
		tag := reflect.StructTag(st.Tag(i))
		_, js := tag.Lookup("json")
		_, pb := tag.Lookup("protobuf")
		_, one := tag.Lookup("protobuf_oneof")
		return js || pb || one
	}
	return false
}

func canBeNil(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
		return true
	}
	return false
}

// crashRun holds what the crash analysis established about the structures.
type crashRun struct {
	c     *Ctx
	r     *Report
	heap  *heapInfo
	fair  *fairInfo
	holds map[string]bool
	done  map[string]bool
}

func ruleA03(c *Ctx, r *Report) {
	x := &crashRun{c: c, r: r, holds: map[string]bool{}, done: map[string]bool{}}
	x.heap = findHeap(c, r)
	if x.heap == nil {
		return
	}
	if x.fair = findFair(c, r, x.heap); x.fair == nil {
		return
	}
	x.published()
	x.pools()
	r.hazards = func(e *eng.Exec) func(*eng.State, *eng.Hazard) { return x.hazard }
	var ids []string
	for id := range table {
		// R13 runs what R11 runs, for given numbers of records, X03 runs tasks
		// without what was known where they started, and R03 and R05 run the
		// layers of the state machine apart from each other; F02 is about the
		// deployment
		if id != "A03" && id != "A05" && id != "R13" && id != "X03" && id != "R03" && id != "R05" && id != "F02" {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	// every function that the rules of the other properties interpret, in the
	// context they interpret it in
	r.Only(func() {
		for _, id := range ids {
			table[id].Run(c, r)
		}
	}, "no-crash", "-instances", "-anchor")
	// what those did not reach, on its own
	for _, f := range c.ReachableFuncs() {
		if r.ran[eng.CanonName(f)] || f.Synthetic != "" || len(f.Blocks) == 0 || startup(f) {
			continue
		}
		e := c.exec(r)
		x.heap.model(e)
		c.clientModels(e)
		r.run(e, f, nil)
	}
	for _, f := range c.ReachableFuncs() {
		if !r.ran[eng.CanonName(f)] && !startup(f) && len(f.Blocks) > 0 && f.Synthetic == "" {
			r.Ob(false, "covered", funcName(f), nil, "the function was not analysed")
		}
	}
}

// startup: generated code and what runs before the node serves anybody.
func startup(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := f.Package()
	if p == nil {
		return true
	}
	switch p.Pkg.Path() {
	case Mod + "/pkg/proto", Mod + "/pkg/config":
		return true
	}
	return p.Pkg.Name() == "main" || f.Name() == "init"
}

// beforeService: the function is called by main, or by functions that only
// main calls.
func (c *Ctx) beforeService(f *ssa.Function) bool {
	for depth := 0; depth < 4; depth++ {
		if f.Parent() != nil {
			return false
		}
		if startup(f) {
			return true
		}
		var callers []*ssa.Function
		for _, g := range c.ReachableFuncs() {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					var ops [12]*ssa.Value
					for _, op := range in.Operands(ops[:0]) {
						if *op == ssa.Value(f) {
							if _, isCall := in.(*ssa.Call); !isCall {
								return false
							}
							callers = append(callers, g)
						}
					}
				}
			}
		}
		if len(callers) != 1 {
			return false
		}
		f = callers[0]
	}
	return false
}

// relies reports whether the rule that decides an invariant found it to hold.
func (x *crashRun) relies(id string) bool {
	if !x.done[id] {
		x.done[id] = true
		sub := NewReport(x.c, id)
		table[id].Run(x.c, sub)
		x.holds[id] = len(sub.Viol) == 0
	}
	return x.holds[id]
}

// lengths finds slices whose length is kept in another field of their object:
// a constructor makes them with that length and nothing stores them again.
func (c *Ctx) lengths() {
	if c.pairs != nil {
		return
	}
	pairs := map[string]string{}
	c.pairs, c.least = map[string]string{}, map[string]bool{}
	mut := c.mutated()
	for _, f := range c.ReachableFuncs() {
		if f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok {
			continue
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok || f.Package() == nil || c.ByPath[f.Package().Pkg.Path()] != f.Package() || startup(f) {
			continue
		}
		var slices, ints []int
		for i := 0; i < st.NumFields(); i++ {
			if mut[fieldKey(pt.Elem(), i)] {
				continue
			}
			switch u := st.Field(i).Type().Underlying().(type) {
			case *types.Slice:
				slices = append(slices, i)
			case *types.Basic:
				if u.Info()&types.IsInteger != 0 {
					ints = append(ints, i)
				}
			}
		}
		if len(slices) == 0 || len(ints) == 0 {
			continue
		}
		e := c.exec(NewReport(c, "lengths"))
		outs := e.Run(f, nil)
		for _, s := range slices {
			for _, n := range ints {
				all, one := len(outs) > 0, true
				for _, o := range outs {
					if o.Exit != eng.Return {
						all = false
						break
					}
					sv := get(o.St, o.Ret[0], st.Field(s).Name(), st.Field(s).Type())
					nv := get(o.St, o.Ret[0], st.Field(n).Name(), st.Field(n).Type())
					all = all && sv.Op == "makeslice" && strip(sv.Args[0]) == strip(nv)
					one = one && o.St.Provable(eng.Int(1), nv)
				}
				if all {
					k := types.TypeString(pt.Elem(), nil) + "." + st.Field(s).Name()
					pairs[k], c.least[k] = st.Field(n).Name(), one
				}
			}
		}
	}
	c.pairs = pairs
}

// published: every queue that the manager keeps or hands out has been opened,
// so that the fields that opening sets are set.
func (x *crashRun) published() {
	c, r := x.c, x.r
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	st := m.bpq.Underlying().(*types.Struct)
	var fields []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		if canBeNil(st.Field(i).Type()) {
			fields = append(fields, st.Field(i))
		}
	}
	set := map[string]bool{}
	for _, f := range fields {
		set[f.Name()] = true
	}
	n := 0
	for _, name := range []string{"Create", "GetQueue"} {
		q := m.runQM(r, name)
		if q == nil {
			continue
		}
		for _, p := range q.ps {
			if p.cut {
				continue
			}
			for _, e := range q.kept(p) {
				if e.Kind != "mapset" {
					continue
				}
				n++
				for _, f := range fields {
					v := get(p.st, e.Args[1], f.Name(), f.Type())
					if !p.st.KnownNonNil(v) && !(v.Op == "field" && !c.nils[fieldOfTerm(v)]) {
						set[f.Name()] = false
					}
				}
			}
		}
	}
	// and nothing takes them away again
	for _, f := range c.ReachableFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(eng.DerefType(fa.X.Type()), m.bpq) || !canBeNil(s.Val.Type()) {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				for _, v := range c.sources(s.Val) {
					if k, ok := v.(*ssa.Const); ok && k.IsNil() {
						set[st.Field(fa.Field).Name()] = false
					}
				}
			}
		}
	}
	r.Ob(n > 0, "opened-before-use", "QueueManager", nil, "no path keeps a queue that was opened")
	for f, ok := range set {
		x.holds["opened "+f] = ok && n > 0
	}
	// metrics exist whenever they are enabled
	ctor := c.Func("pkg/queue", "NewQueueManager")
	if !r.Anchor(ctor != nil, "queue.NewQueueManager") {
		return
	}
	calls, _ := c.callsOf(ctor)
	ok := len(calls) > 0
	for _, f := range c.ReachableFuncs() {
		does := false
		for _, g := range refs(f) {
			does = does || g == ctor
		}
		if !does {
			continue
		}
		e := c.exec(r)
		seen := 0
		e.Match = append([]func(*eng.Call) eng.Model{func(call *eng.Call) eng.Model {
			if call.Fn != ctor {
				return nil
			}
			return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
				seen++
				var metrics, cfg *eng.Term
				for _, a := range call.Args {
					if p := eng.Deref(a); p != nil {
						if nt, isN := p.Elem().(*types.Named); isN && nt.Obj().Name() == "PrometheusMetrics" {
							metrics = a
						} else if isN && nt.Obj().Name() == "Config" {
							cfg = a
						}
					}
				}
				if metrics == nil || strip(metrics).Op == "nil" {
					metrics = eng.Nil
				}
				if cfg == nil || !st.KnownNonNil(metrics) && !enabledIs(st, cfg, false) {
					ok = false
				}
				return false
			}
		}}, e.Match...)
		e.Run(f, nil)
		if seen == 0 {
			ok = false
		}
	}
	x.holds["metrics"] = ok
}

func ptrOf(t *eng.Term) *eng.Term {
	for t.Op == "deref" {
		t = t.Args[0]
	}
	return t
}

func fieldOfTerm(v *eng.Term) string {
	b := ptrOf(v.Args[0])
	t := b.Typ
	if t == nil {
		return ""
	}
	return types.TypeString(eng.DerefType(t), nil) + "." + v.Aux
}

// enabledIs: the path knows what the configuration says about metrics.
func enabledIs(st *eng.State, cfg *eng.Term, want bool) bool {
	found := false
	st.FactTerms(func(a *eng.Term, v bool) {
		if a.Op == "field" && a.Aux == "Enabled" && a.Args[0].Op == "field" && a.Args[0].Aux == "Prometheus" && v == want {
			if cfg == nil || a.Has(strip(cfg)) {
				found = true
			}
		}
	})
	return found
}

// pools finds pools whose every value has one type.
func (x *crashRun) pools() {
	for _, f := range x.c.ReachableFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g != nil && g.String() == "(*sync.Pool).Put" {
					x.poolType(call.Common().Args[0], call.Common().Args[1])
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || types.TypeString(eng.DerefType(fa.X.Type()), nil) != "sync.Pool" {
					continue
				}
				for _, v := range x.c.sources(s.Val) {
					fn, _ := v.(*ssa.Function)
					if mc, ok := v.(*ssa.MakeClosure); ok {
						fn, _ = mc.Fn.(*ssa.Function)
					}
					if fn == nil {
						x.poolType(fa.X, nil)
						continue
					}
					for _, b := range fn.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							x.poolType(fa.X, ret.Results[0])
						}
					}
				}
			}
		}
	}
}

func (x *crashRun) poolType(pool, v ssa.Value) {
	k := "pool " + poolName(pool)
	t := "?"
	if v != nil {
		for _, s := range ifaceTypes(v) {
			if t != "?" && t != s {
				t = "mixed"
			} else if t != "mixed" {
				t = s
			}
		}
	}
	if x.done[k] && !x.holds[k+" "+t] {
		for h := range x.holds {
			if len(h) > len(k) && h[:len(k)+1] == k+" " {
				x.holds[h] = false
			}
		}
		return
	}
	x.done[k] = true
	x.holds[k+" "+t] = true
}

func ifaceTypes(v ssa.Value) []string {
	switch y := v.(type) {
	case *ssa.MakeInterface:
		return []string{types.TypeString(y.X.Type(), nil)}
	case *ssa.Phi:
		var r []string
		for _, e := range y.Edges {
			r = append(r, ifaceTypes(e)...)
		}
		return r
	}
	return []string{"mixed"}
}

// poolName: pools are told apart by the field that holds them.
func poolName(v ssa.Value) string {
	switch y := v.(type) {
	case *ssa.FieldAddr:
		return fieldKey(eng.DerefType(y.X.Type()), y.Field)
	case *ssa.UnOp:
		return poolName(y.X)
	case *ssa.Global:
		return y.String()
	case *ssa.Alloc:
		for _, ref := range *y.Referrers() {
			switch z := ref.(type) {
			case *ssa.Store:
				if z.Val == y {
					return poolName(z.Addr)
				}
			case *ssa.UnOp: // a value copied into its place
				for _, r2 := range *z.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Val == z {
						return poolName(s.Addr)
					}
				}
			}
		}
	}
	return "?"
}

func (x *crashRun) hazard(st *eng.State, h *eng.Hazard) {
	c, r := x.c, x.r
	ok, why := true, ""
	switch h.Kind {
	case "index":
		st2, l := x.length(st, h)
		ok = st2.InBounds(h.Lo, l) || x.heapIndex(st, h) || x.sortIndex(h)
		why = fmt.Sprintf("index %s of %s is not known to be within its length", h.Lo, h.X)
	case "slice":
		st, _ := x.length(st, h)
		hi := h.Hi
		if hi == nil {
			hi = h.Len
		}
		ok = st.Provable(eng.Int(0), h.Lo) && st.Provable(h.Lo, hi) && st.Provable(hi, h.Len) || x.prefixCut(st, h)
		why = fmt.Sprintf("the slice %s:%s of %s is not known to be within its length", h.Lo, h.Hi, h.X)
	case "make":
		ok = st.Provable(eng.Int(0), h.X)
		why = fmt.Sprintf("the size %s of a slice is not known to be at least 0", h.X)
	case "divide":
		v, known := st.Decide(eng.Eq(h.X, eng.Int(0)))
		ok = known && !v || st.Provable(eng.Int(1), h.X)
		why = fmt.Sprintf("the divisor %s can be 0", h.X)
	case "assert":
		ok = x.asserted(st, h)
		why = fmt.Sprintf("%s is not known to be a %s", h.X, h.Typ)
	case "nil":
		ok = !st.KnownNil(h.X) && x.nonNil(st, h.X)
		why = fmt.Sprintf("%s: %s can be nil", h.What, h.X)
	case "exit":
		ok = x.c.beforeService(h.Fn)
		why = fmt.Sprintf("%s ends the process", h.What)
	default:
		ok = false
		why = fmt.Sprintf("%s: %s", h.What, h.X)
	}
	o := &eng.Outcome{St: st, Exit: eng.Panic, Pos: h.Pos}
	r.Ob(ok, "no-crash", fmt.Sprintf("%s %s", funcName(h.Fn), h.Kind), o, "%s (%s)", why, c.Pos(h.Pos))
}

// length of the indexed value: a length that a constructor makes at least 1
// stays so.
func (x *crashRun) length(st *eng.State, h *eng.Hazard) (*eng.State, *eng.Term) {
	if v := strip(h.X); v.Op == "field" && x.c.least[fieldOfTerm(v)] {
		st = st.Clone()
		st.Assume(eng.Binop(token.LSS, h.Len, eng.Int(1), types.Typ[types.Bool]), false)
	}
	return st, h.Len
}

// heapIndex: the indexes that container/heap passes to the entries' methods,
// and the positions that the index by id holds (Q07).
func (x *crashRun) heapIndex(st *eng.State, h *eng.Hazard) bool {
	v := strip(h.X)
	if !(v.Op == "field" && v.Aux == x.heap.items.Name() || v.Typ != nil && types.Identical(v.Typ, x.heap.items.Type())) {
		return false
	}
	if recv := h.Fn.Signature.Recv(); recv != nil && types.Identical(eng.DerefType(recv.Type()), x.heap.t) {
		switch h.Fn.Name() {
		case "Less", "Swap":
			return strip(h.Lo).Op == "sym"
		}
	}
	if h.Root != nil {
		// what they call with the indexes they are given
		recv := h.Root.Signature.Recv()
		if recv != nil && types.Identical(eng.DerefType(recv.Type()), x.heap.t) && (h.Root.Name() == "Less" || h.Root.Name() == "Swap") {
			for _, p := range h.Root.Params[1:] {
				if strip(h.Lo) == eng.Sym(p.Name(), p.Type()) {
					return true
				}
			}
		}
	}
	if i := strip(h.Lo); i.Op == "mapget" {
		m := strip(i.Args[0])
		if !(m.Op == "field" && m.Aux == x.heap.idx.Name() && v.Op == "field" && m.Args[0] == v.Args[0]) {
			return false
		}
		had, known := st.MapHad(i.Args[0], i.Args[1])
		return known && had && x.relies("Q07")
	}
	return false
}

// sortIndex: the indexes that sort.Slice passes to its comparison, into the
// slice that is sorted.
func (x *crashRun) sortIndex(h *eng.Hazard) bool {
	i := strip(h.Lo)
	if h.Fn.Parent() == nil || i.Op != "sym" || len(h.Fn.Params) != 2 {
		return false
	}
	if i.Aux != h.Fn.Params[0].Name() && i.Aux != h.Fn.Params[1].Name() {
		return false
	}
	for _, b := range h.Fn.Parent().Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok || len(call.Common().Args) != 2 {
				continue
			}
			g := call.Common().StaticCallee()
			mc, isC := call.Common().Args[1].(*ssa.MakeClosure)
			if g == nil || !isC || mc.Fn != h.Fn || g.String() != "sort.Slice" && g.String() != "sort.SliceStable" {
				continue
			}
			mi, ok := call.Common().Args[0].(*ssa.MakeInterface)
			if !ok {
				continue
			}
			if u, ok := mi.X.(*ssa.UnOp); ok {
				for j, bind := range mc.Bindings {
					if bind == u.X && strip(h.X).Has(eng.Sym("free."+h.Fn.FreeVars[j].Name(), h.Fn.FreeVars[j].Type())) {
						return true
					}
				}
			}
		}
	}
	return false
}

// prefixCut: a key found under a prefix is at least as long as the prefix.
func (x *crashRun) prefixCut(st *eng.State, h *eng.Hazard) bool {
	n, ok := h.Lo.IntVal()
	if !ok || h.Hi != nil {
		return false
	}
	v := h.X
	for v.Op == "aliased" || v.Op == "conv" || v.Op == "bytes" {
		v = v.Args[0]
	}
	good := false
	st.FactTerms(func(a *eng.Term, val bool) {
		if val && a.Op == "itervalidprefix" && v.Op == "iterkey" && len(a.Args) == 2 && a.Args[0] == v.Args[0] && a.Aux == v.Aux {
			if l, ok := eng.LenOf(strip(a.Args[1])).IntVal(); ok && l >= n {
				good = true
			}
		}
	})
	return good
}

func (x *crashRun) asserted(st *eng.State, h *eng.Hazard) bool {
	v := strip(h.X)
	for _, e := range st.Events() {
		if e.Kind == "call" && e.Name == "(net.Listener).Addr" && len(e.Res) == 1 && strip(e.Res[0]) == v && e.Recv != nil {
			return tcpListener(st, e.Recv) && types.TypeString(h.Typ, nil) == "*net.TCPAddr"
		}
		if e.Kind == "call" && e.Name == "(*sync.Pool).Get" && len(e.Res) == 1 && strip(e.Res[0]) == v && e.Recv != nil {
			p := strip(e.Recv)
			if p.Op == "fieldaddr" || p.Op == "field" {
				return x.holds["pool "+fieldOfTerm(p)+" "+types.TypeString(h.Typ, nil)]
			}
		}
	}
	if recv := h.Fn.Signature.Recv(); recv != nil && h.Fn.Name() == "Push" && types.Identical(eng.DerefType(recv.Type()), x.heap.t) && v.Op == "sym" {
		// what is pushed, at every call of heap.Push
		ok, n := true, 0
		for _, f := range x.c.ReachableFuncs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, isCall := in.(ssa.CallInstruction)
					if !isCall {
						continue
					}
					g := call.Common().StaticCallee()
					if g == nil || g.String() != "container/heap.Push" {
						continue
					}
					n++
					for _, t := range ifaceTypes(call.Common().Args[1]) {
						ok = ok && t == types.TypeString(h.Typ, nil)
					}
				}
			}
		}
		return ok && n > 0
	}
	return false
}

// tcpListener: what net.Listen made for a TCP network.
func tcpListener(st *eng.State, l *eng.Term) bool {
	for _, e := range st.Events() {
		if e.Kind == "call" && e.Name == "net.Listen" && len(e.Res) > 0 && strip(e.Res[0]) == strip(l) && len(e.Args) > 0 {
			switch s, _ := strip(e.Args[0]).StrVal(); s {
			case "tcp", "tcp4", "tcp6":
				return true
			}
		}
	}
	return false
}

// nonNil: a value that can be nil but is not here, by an invariant that
// another rule decides.
func (x *crashRun) nonNil(st *eng.State, v *eng.Term) bool {
	v = strip(v)
	if v.Op != "field" {
		return false
	}
	owner, base := fieldOfTerm(v), ptrOf(v.Args[0])
	f := x.fair
	tn := types.TypeString
	switch {
	case owner == tn(f.list, nil)+"."+v.Aux && ptrTo(v.Typ, f.node):
		// a rotation that has groups has a first one
		n := get(st, base, f.length.Name(), f.length.Type())
		some := st.Provable(eng.Int(1), n)
		if b := strip(base); b.Op == "field" { // the fair queue that owns the list
			q := ptrOf(b.Args[0])
			some = some || st.Provable(eng.Int(1), get(st, q, f.count.Name(), f.count.Type())) ||
				st.Provable(eng.Int(1), eng.LenOf(get(st, q, f.groups.Name(), f.groups.Type())))
		}
		return some && x.relies("Q08")
	case v.Typ != nil && eng.DerefType(v.Typ).String() == qpkg+".PrometheusMetrics":
		return x.holds["metrics"] && enabledIs(st, nil, true)
	case base.Op == "sym" && x.holds["opened "+v.Aux] && eng.DerefType(base.Typ).String() == qpkg+".BadgerPriorityQueue":
		return true
	}
	return false
}
