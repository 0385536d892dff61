package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("Q07", "Abstract interpretation of every method of the heap and of the delayed queue over all paths, compared with the transition each must make on (entries, index by id); the comparator is decided over the nine orderings of its operands; who-may-write rule for heap fields and entry priorities.", 30, ruleQ07)
	register("Q08", "Abstract interpretation of every method of the fair queue over all paths, compared with the transition each must make on (groups, rotation list, cursor, count); fields are identified by type and by how the code moves along them.", 40, ruleQ08)
}

// heapInfo is the type that implements heap.Interface over queue items.
type heapInfo struct {
	c     *Ctx
	t     *types.Named
	item  *types.Named
	items *types.Var // []*Item
	idx   *types.Var // map[uint64]int
}

func findHeap(c *Ctx, r *Report) *heapInfo {
	h := &heapInfo{c: c, item: c.Named("pkg/queue", "Item")}
	p := c.Pkg("pkg/queue")
	if p == nil || h.item == nil {
		r.Anchor(false, "type queue.Item")
		return nil
	}
	sc := p.Pkg.Scope()
	n := 0
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); !ok {
			continue
		}
		all := true
		for _, m := range []string{"Len", "Less", "Swap", "Push", "Pop"} {
			if c.Method("pkg/queue", nm, m) == nil {
				all = false
			}
		}
		if all {
			h.t = nt
			n++
		}
	}
	if !r.Anchor(n == 1, "the one type of pkg/queue that implements heap.Interface") {
		return nil
	}
	st := h.t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch u := st.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			if pt, ok := u.Elem().(*types.Pointer); ok && types.Identical(pt.Elem(), h.item) {
				h.items = st.Field(i)
			}
		case *types.Map:
			if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
				h.idx = st.Field(i)
			}
		}
	}
	if !r.Anchor(h.items != nil && h.idx != nil, "the entries and the index by id of the heap") {
		return nil
	}
	return h
}

func (h *heapInfo) ptr() types.Type { return types.NewPointer(h.t) }

// find the heap inside a queue object.
func (h *heapInfo) in(st *eng.State, q *eng.Term) *eng.Term {
	q = unboxConv(q)
	p := eng.Deref(q)
	if p == nil {
		return nil
	}
	if types.Identical(p.Elem(), h.t) {
		return q
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if types.Identical(f.Type(), h.ptr()) {
			return st.Load(eng.FieldAddr(q, f.Name(), f.Type()), f.Type())
		}
		if types.Identical(f.Type(), h.t) {
			return eng.FieldAddr(q, f.Name(), f.Type())
		}
	}
	return nil
}

// heapOrder decides the order in which a queue yields its entries by deciding
// its comparator for every ordering of two entries' priorities and ids.
func heapOrder(c *Ctx, r *Report, st *eng.State, q *eng.Term) (order, why string) {
	h := findHeap(c, r)
	if h == nil {
		return "unknown", ""
	}
	hp := h.in(st, q)
	if hp == nil {
		return "unknown", " (no heap in " + q.String() + ")"
	}
	prio, id, why := h.order(r, st, hp)
	switch {
	case prio == "asc" && id == "asc":
		return "asc", ""
	case prio == "asc":
		return "asc by priority but " + id + " by id", why
	}
	return prio, why
}

func (h *heapInfo) order(r *Report, st *eng.State, hp *eng.Term) (prio, id, why string) {
	less := h.c.Method("pkg/queue", h.t.Obj().Name(), "Less")
	e := h.c.exec(r)
	i, j := eng.Sym("$i", types.Typ[types.Int]), eng.Sym("$j", types.Typ[types.Int])
	recv := hp
	if _, isPtr := less.Signature.Recv().Type().(*types.Pointer); !isPtr {
		recv = st.Load(hp, h.t)
	}
	// which entry the comparator sees at i and j does not matter: any content
	s2 := st.Spawn(nil)
	its := eng.Sym("$items", h.items.Type())
	if recv == hp {
		s2.Store(eng.FieldAddr(hp, h.items.Name(), h.items.Type()), its, h.items.Type())
	} else {
		var fs []*eng.Term
		ss := h.t.Underlying().(*types.Struct)
		for k := 0; k < ss.NumFields(); k++ {
			if ss.Field(k).Name() == h.items.Name() {
				fs = append(fs, its)
			} else {
				fs = append(fs, eng.Field(recv, ss.Field(k).Name(), ss.Field(k).Type()))
			}
		}
		recv = eng.Mk("struct", "", h.t, fs...)
	}
	outs := r.run(e, less, s2, recv, i, j)
	res := map[[2]int]bool{}
	for p := -1; p <= 1; p++ {
		for d := -1; d <= 1; d++ {
			got, n := false, 0
			for k := range outs {
				o := &outs[k]
				if o.Exit != eng.Return {
					return "unknown", "unknown", " (the comparator does not return: " + o.Why + ")"
				}
				ev := &orderEval{i: i, j: j, prio: p, id: d}
				feasible := true
				o.St.FactTerms(func(a *eng.Term, v bool) {
					if x, ok := ev.bool(a); ok {
						if x != v {
							feasible = false
						}
					} else if !ev.neutral(a) {
						ev.fail = a.String()
					}
				})
				if ev.fail != "" {
					return "unknown", "unknown", " (the comparator depends on " + ev.fail + ")"
				}
				if !feasible {
					continue
				}
				x, ok := ev.bool(o.Ret[0])
				if !ok {
					return "unknown", "unknown", " (the comparator returns " + o.Ret[0].String() + ")"
				}
				if n > 0 && x != got {
					return "unknown", "unknown", " (the comparator is ambiguous)"
				}
				got = x
				n++
			}
			if n == 0 {
				return "unknown", "unknown", " (the comparator has no result for an ordering)"
			}
			res[[2]int{p, d}] = got
		}
	}
	dir := func(lt, gt bool) string {
		switch {
		case lt && !gt:
			return "asc"
		case gt && !lt:
			return "desc"
		}
		return "none"
	}
	prio = dir(res[[2]int{-1, 0}], res[[2]int{1, 0}])
	for d := -1; d <= 1; d++ {
		if dir(res[[2]int{-1, d}], res[[2]int{1, d}]) != prio {
			prio = "mixed"
		}
	}
	id = dir(res[[2]int{0, -1}], res[[2]int{0, 1}])
	if res[[2]int{0, 0}] {
		prio = "not strict"
	}
	return prio, id, ""
}

// orderEval evaluates comparisons of entry i with entry j for one ordering.
type orderEval struct {
	i, j     *eng.Term
	prio, id int
	fail     string
}

// field tells which entry's which field a term is.
func (ev *orderEval) field(t *eng.Term) (which int, f string, ok bool) {
	t = strip(t)
	if t.Op != "field" || t.Aux != "Priority" && t.Aux != "ID" {
		return
	}
	x := t.Args[0]
	for x.Op == "deref" {
		x = x.Args[0]
	}
	if x.Op != "index" {
		return
	}
	switch strip(x.Args[1]) {
	case ev.i:
		return 0, t.Aux, true
	case ev.j:
		return 1, t.Aux, true
	}
	return
}

func (ev *orderEval) cmp(a, b *eng.Term) (int, bool) {
	if n, ok := ev.num(a); ok {
		if m, ok := ev.num(b); ok {
			switch {
			case n < m:
				return -1, true
			case n > m:
				return 1, true
			}
			return 0, true
		}
	}
	w1, f1, ok1 := ev.field(a)
	w2, f2, ok2 := ev.field(b)
	if !ok1 || !ok2 || f1 != f2 {
		return 0, false
	}
	if w1 == w2 {
		return 0, true
	}
	d := ev.prio
	if f1 == "ID" {
		d = ev.id
	}
	if w1 == 1 {
		d = -d
	}
	return d, true
}

func (ev *orderEval) num(t *eng.Term) (int64, bool) {
	t = strip(t)
	if n, ok := t.IntVal(); ok {
		return n, true
	}
	if t.Op == "call" && t.Aux == "cmp.Compare" {
		if d, ok := ev.cmp(t.Args[0], t.Args[1]); ok {
			return int64(d), true
		}
	}
	return 0, false
}

func (ev *orderEval) bool(t *eng.Term) (bool, bool) {
	if v, ok := t.BoolVal(); ok {
		return v, true
	}
	switch t.Op {
	case "un":
		v, ok := ev.bool(t.Args[0])
		return !v, ok
	case "call":
		if t.Aux == "cmp.Less" {
			d, ok := ev.cmp(t.Args[0], t.Args[1])
			return d < 0, ok
		}
	case "bin":
		// comparisons of truth values
		if x, ok := ev.bool(t.Args[0]); ok {
			if y, ok := ev.bool(t.Args[1]); ok {
				switch t.Aux {
				case "==":
					return x == y, true
				case "!=":
					return x != y, true
				}
			}
			return false, false
		}
		d, ok := ev.cmp(t.Args[0], t.Args[1])
		if !ok {
			return false, false
		}
		switch t.Aux {
		case "==":
			return d == 0, true
		case "!=":
			return d != 0, true
		case "<":
			return d < 0, true
		case "<=":
			return d <= 0, true
		case ">":
			return d > 0, true
		case ">=":
			return d >= 0, true
		}
	}
	return false, false
}

// neutral facts say nothing about the entries' order.
func (ev *orderEval) neutral(a *eng.Term) bool {
	return !a.Contains(func(t *eng.Term) bool { _, _, ok := ev.field(t); return ok }) && (a.Contains(func(t *eng.Term) bool { return t.Op == "nil" || t.Op == "alloc" }))
}

// --- the heap operations as primitives ------------------------------------------

func (h *heapInfo) model(e *eng.Exec) {
	itemP := types.NewPointer(h.item)
	op := func(name string) eng.Model {
		return func(c *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
			hp := unboxConv(c.Args[0])
			ev := &eng.Event{Kind: "heap", Name: name, Recv: hp, Pos: c.Pos, In: c.In()}
			for _, a := range c.Args[1:] {
				ev.Args = append(ev.Args, strip(a))
			}
			var res []*eng.Term
			if name == "Pop" || name == "Remove" {
				it := c.E.Fresh("sym", "popped", itemP)
				st.Assume(eng.IsNil(it), false)
				ev.Res = []*eng.Term{it}
				res = append(res, eng.Mk("iface", "", itemP, it))
			}
			st.Emit(ev)
			if name != "Fix" && name != "Init" || true {
				its := c.E.Fresh("sym", "entries", h.items.Type())
				st.Store(eng.FieldAddr(hp, h.items.Name(), h.items.Type()), its, h.items.Type())
			}
			k(st, res...)
			return true
		}
	}
	for _, n := range []string{"Push", "Pop", "Remove", "Fix", "Init"} {
		e.Models["container/heap."+n] = op(n)
	}
}

func (h *heapInfo) exec(r *Report) *eng.Exec {
	e := h.c.exec(r)
	h.model(e)
	return e
}

// view of a heap on a path
type heapView struct {
	h  *heapInfo
	hp *eng.Term // pointer
}

func (v heapView) items(st *eng.State) *eng.Term {
	return st.Load(eng.FieldAddr(v.hp, v.h.items.Name(), v.h.items.Type()), v.h.items.Type())
}
func (v heapView) idx(st *eng.State) *eng.Term {
	return st.Load(eng.FieldAddr(v.hp, v.h.idx.Name(), v.h.idx.Type()), v.h.idx.Type())
}

// at is the entry at an index before the operation.
func (v heapView) at(i *eng.Term) *eng.Term {
	s := eng.NewState()
	return itemAt(s, v.items(s), i, v.h)
}

func itemAt(st *eng.State, items, i *eng.Term, h *heapInfo) *eng.Term {
	itemP := types.NewPointer(h.item)
	return st.Load(eng.Mk("idxaddr", "", types.NewPointer(itemP), items, i), itemP)
}

// position is where the index says an entry is.
func (v heapView) position(id *eng.Term) *eng.Term {
	return eng.Mk("mapget", "", types.Typ[types.Int], v.idx(eng.NewState()), strip(id))
}

func (v heapView) had(p *path, id *eng.Term) (bool, bool) {
	return p.st.MapHad(v.idx(eng.NewState()), id)
}

func (p *path) heap(hp *eng.Term) []*eng.Event {
	var r []*eng.Event
	for _, e := range p.evs {
		if e.Kind == "heap" && (hp == nil || e.Recv == hp) {
			r = append(r, e)
		}
	}
	return r
}

// changes of the heap or of entries other than by heap operations
func (h *heapInfo) direct(p *path) []*eng.Event {
	var r []*eng.Event
	for _, e := range p.evs {
		switch e.Kind {
		case "wr":
			if e.Owned || e.Recv.Op != "fieldaddr" && e.Recv.Op != "idxaddr" {
				continue
			}
			b := e.Recv.Args[0]
			if pt := eng.Deref(b); pt != nil && (types.Identical(pt.Elem(), h.item) || types.Identical(pt.Elem(), h.t)) {
				r = append(r, e)
			}
			if e.Recv.Op == "idxaddr" && b.Typ != nil && types.Identical(b.Typ.Underlying(), h.items.Type().Underlying()) {
				r = append(r, e)
			}
		case "mapset", "mapdel", "mapclear":
			if !e.Owned && e.Recv.Typ != nil && types.Identical(e.Recv.Typ.Underlying(), h.idx.Type().Underlying()) {
				r = append(r, e)
			}
		}
	}
	return r
}

func heapQuiet(r *Report, h *heapInfo, p *path, n, what string) {
	hs, ds := p.heap(nil), h.direct(p)
	r.Ob(len(hs) == 0 && len(ds) == 0, "changes-nothing", n, p.o, "%s changes the queue: %s %s", what, evStr(hs), evStr(ds))
}

// byID: the lookup of an entry by id.
func (v heapView) checkGet(r *Report, p *path, n string, id *eng.Term) {
	heapQuiet(r, v.h, p, n, "a lookup")
	had, known := v.had(p, id)
	ret := p.o.Ret[0]
	if p.st.KnownNil(ret) {
		r.Ob(known && !had, "lookup-miss", n, p.o, "a lookup finds nothing although the id was not found to be missing")
		return
	}
	r.Ob(known && had, "lookup-hit", n, p.o, "a lookup returns an entry although the id was not found in the index")
	r.Ob(ret == v.at(v.position(id)), "lookup-entry", n, p.o, "a lookup returns %s, not the entry with that id", ret)
}

func (v heapView) checkDelete(r *Report, p *path, n string, id *eng.Term) (deleted bool) {
	had, known := v.had(p, id)
	hs := p.heap(nil)
	ret := p.o.Ret[0]
	if len(hs) == 0 {
		r.Ob(known && !had && p.st.KnownNil(ret), "remove-miss", n, p.o, "a removal removes nothing although the id was not found to be missing")
		r.Ob(len(v.h.direct(p)) == 0, "remove-miss-quiet", n, p.o, "a removal of an unknown id changes the queue: %s", evStr(v.h.direct(p)))
		return false
	}
	ok := len(hs) == 1 && hs[0].Name == "Remove" && hs[0].Recv == v.hp && hs[0].Args[0] == v.position(id)
	r.Ob(known && had && ok, "remove-entry", n, p.o, "a removal by id does not remove exactly the entry with that id: %s", evStr(hs))
	if ok {
		r.Ob(ret == hs[0].Res[0], "remove-returns", n, p.o, "a removal returns %s, not the removed entry", ret)
	}
	for _, e := range v.h.direct(p) {
		r.Ob(e.Kind == "mapdel" && strip(e.Args[0]) == strip(id), "remove-others", n, p.o, "a removal changes something else: %s", e)
	}
	return true
}

func (v heapView) checkUpdate(r *Report, p *path, n string, id, prio *eng.Term) {
	had, known := v.had(p, id)
	hs, ds := p.heap(nil), v.h.direct(p)
	if len(hs) == 0 && len(ds) == 0 {
		r.Ob(known && !had, "change-miss", n, p.o, "a priority change does nothing although the id was not found to be missing")
		return
	}
	if !r.Ob(known && had, "change-hit", n, p.o, "a priority change acts although the id was not found") {
		return
	}
	it := v.at(v.position(id))
	fixed := false
	wrote := -1
	for _, e := range ds {
		if r.Ob(e.Kind == "wr" && e.Recv.Op == "fieldaddr" && e.Recv.Aux == "Priority" && e.Recv.Args[0] == it && strip(e.Args[0]) == strip(prio), "change-entry", n, p.o, "a priority change writes something other than the entry's new priority: %s", e) {
			wrote = e.Seq
		}
	}
	for _, e := range hs {
		if e.Name == "Fix" && e.Recv == v.hp && e.Args[0] == v.position(id) && e.Seq > wrote {
			fixed = true
			continue
		}
		r.Ob(false, "change-reorders", n, p.o, "a priority change moves other entries: %s", e)
	}
	r.Ob(wrote >= 0 && fixed, "change-reorders", n, p.o, "a priority change does not write the new priority and then restore the order at that entry")
}

// pathsOf runs a method of a queue type over the heap model.
func (h *heapInfo) pathsOf(r *Report, typ, name string) (*ssa.Function, []*path) {
	fn := h.c.Method("pkg/queue", typ, name)
	if !r.Anchor(fn != nil, typ+"."+name) {
		return nil, nil
	}
	e := h.exec(r)
	var ps []*path
	for _, p := range paths(fn, r.run(e, fn, nil)) {
		if p.cut {
			if p.o.Exit == eng.Panic {
				r.Ob(false, "does-not-panic", typ+"."+name, p.o, "the operation panics: %s", p.o.Why)
			}
			continue
		}
		ps = append(ps, p)
	}
	return fn, ps
}

func param(fn *ssa.Function, i int) *eng.Term {
	return eng.Sym(fn.Params[i].Name(), fn.Params[i].Type())
}

// lenIs: the path knows whether a heap is empty.
func emptyKnown(p *path, items *eng.Term) (empty, known bool) {
	return p.st.Decide(eng.Mk("bin", "==", types.Typ[types.Bool], eng.Mk("call", "len", types.Typ[types.Int], items), eng.Int(0)))
}

func ruleQ07(c *Ctx, r *Report) {
	h := findHeap(c, r)
	if h == nil {
		return
	}
	tn := h.t.Obj().Name()
	idOf := func(st *eng.State, it *eng.Term) *eng.Term {
		return strip(st.Load(eng.FieldAddr(it, "ID", types.Typ[types.Uint64]), types.Typ[types.Uint64]))
	}
	// view of the receiver of a method of the heap type
	recvView := func(fn *ssa.Function) (items, idx *eng.Term) {
		recv := param(fn, 0)
		st := eng.NewState()
		if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
			v := heapView{h, recv}
			return v.items(st), v.idx(st)
		}
		return eng.Field(recv, h.items.Name(), h.items.Type()), eng.Field(recv, h.idx.Name(), h.idx.Type())
	}
	n0 := eng.NewState()
	// Len
	if fn, ps := h.pathsOf(r, tn, "Len"); fn != nil {
		items, _ := recvView(fn)
		for _, p := range ps {
			r.Ob(strip(p.o.Ret[0]) == eng.LenOf(items), "len", tn+".Len", p.o, "the heap's length is %s", p.o.Ret[0])
		}
	}
	// Swap
	if fn, ps := h.pathsOf(r, tn, "Swap"); fn != nil {
		n := tn + ".Swap"
		items, idx := recvView(fn)
		i, j := param(fn, 1), param(fn, 2)
		a, b := itemAt(n0, items, i, h), itemAt(n0, items, j, h)
		done := 0
		for _, p := range ps {
			if e, known := emptyKnown(p, items); known && e {
				continue
			}
			if p.st.Known(eng.Eq(i, j), true) {
				continue
			}
			done++
			r.Ob(itemAt(p.st, items, i, h) == b && itemAt(p.st, items, j, h) == a, "swap-entries", n, p.o, "after a swap the entries are %s and %s", itemAt(p.st, items, i, h), itemAt(p.st, items, j, h))
			for _, x := range []struct{ it, at *eng.Term }{{b, i}, {a, j}} {
				got, _ := p.st.Mem(eng.MapElem(idx, idOf(n0, x.it)))
				r.Ob(got != nil && strip(got) == x.at, "swap-index", n, p.o, "after a swap the index does not give the entry's new position")
			}
		}
		r.Ob(done > 0, "swap-decided", n, nil, "no path of Swap swaps")
	}
	// Push
	if fn, ps := h.pathsOf(r, tn, "Push"); fn != nil {
		n := tn + ".Push"
		v := heapView{h, param(fn, 0)}
		items, idx := v.items(n0), v.idx(n0)
		for _, p := range ps {
			its := v.items(p.st)
			var it *eng.Term
			if its.Op == "append" && len(its.Args) == 2 && its.Args[0] == items {
				it = its.Args[1]
			}
			if !r.Ob(it != nil && it.Has(param(fn, 1)), "push-entry", n, p.o, "after a push the entries are %s", its) {
				continue
			}
			got, _ := p.st.Mem(eng.MapElem(idx, idOf(p.st, it)))
			r.Ob(got != nil && strip(got) == eng.LenOf(items), "push-index", n, p.o, "after a push the index does not give the entry's position")
		}
	}
	// Pop
	if fn, ps := h.pathsOf(r, tn, "Pop"); fn != nil {
		n := tn + ".Pop"
		v := heapView{h, param(fn, 0)}
		items, idx := v.items(n0), v.idx(n0)
		pops := 0
		for _, p := range ps {
			ret := strip(p.o.Ret[0])
			if ret.Op == "nil" {
				e, known := emptyKnown(p, items)
				r.Ob(known && e, "pop-nil", n, p.o, "a pop returns nothing from a heap with entries")
				continue
			}
			pops++
			lastI := itemAt(n0, items, minus(eng.LenOf(items), 1), h)
			r.Ob(ret == lastI, "pop-entry", n, p.o, "a pop returns %s, not the last entry", ret)
			its := v.items(p.st)
			cut := its.Op == "sliceof" && its.Aux == "range" && its.Args[0] == items && strip(its.Args[1]) == eng.Int(0) && strip(its.Args[2]) == minus(eng.LenOf(items), 1)
			r.Ob(cut, "pop-cuts", n, p.o, "after a pop the entries are %s", its)
			gone := false
			for _, e := range p.kind("mapdel") {
				gone = gone || e.Recv == idx && strip(e.Args[0]) == idOf(n0, lastI)
			}
			r.Ob(gone, "pop-index", n, p.o, "after a pop the index still has the entry's id")
		}
		r.Ob(pops > 0, "pop-decided", n, nil, "no path of Pop pops")
	}
	// the delayed queue
	dn := "DelayedPriorityQueue"
	hpOf := func(fn *ssa.Function) *eng.Term { return h.in(n0, param(fn, 0)) }
	if fn, ps := h.pathsOf(r, dn, "Enqueue"); fn != nil {
		hp := hpOf(fn)
		for _, p := range ps {
			hs := p.heap(nil)
			r.Ob(len(hs) == 1 && hs[0].Name == "Push" && hs[0].Recv == hp && hs[0].Args[0] == param(fn, 2) && len(h.direct(p)) == 0, "enqueue-pushes", dn+".Enqueue", p.o, "an insertion must push exactly the given entry: %s %s", evStr(hs), evStr(h.direct(p)))
		}
	}
	if fn, ps := h.pathsOf(r, dn, "Dequeue"); fn != nil {
		n := dn + ".Dequeue"
		v := heapView{h, hpOf(fn)}
		items := v.items(n0)
		head := itemAt(n0, items, eng.Int(0), h)
		headPrio := strip(n0.Load(eng.FieldAddr(head, "Priority", types.Typ[types.Int64]), types.Typ[types.Int64]))
		pops, waits := 0, 0
		for _, p := range ps {
			due, dueKnown := headDue(p, headPrio)
			if p.st.KnownNil(p.o.Ret[0]) {
				e, known := emptyKnown(p, items)
				r.Ob(known && e || dueKnown && !due, "nil-only-empty-or-future", n, p.o, "a dequeue yields nothing although the queue is not known to be empty or its lowest priority to lie in the future")
				heapQuiet(r, h, p, n, "a dequeue that yields nothing")
				waits++
				continue
			}
			pops++
			hs := p.heap(nil)
			ok := len(hs) == 1 && hs[0].Name == "Pop" && hs[0].Recv == v.hp && len(h.direct(p)) == 0
			r.Ob(ok && p.o.Ret[0] == hs[0].Res[0], "pops-lowest", n, p.o, "a dequeue must pop exactly the lowest entry and return it: %s, returns %s", evStr(hs), p.o.Ret[0])
			r.Ob(dueKnown && due, "not-before-due", n, p.o, "a dequeue delivers an entry although its priority was not found to be at most the current time")
		}
		r.Ob(pops > 0 && waits > 1, "dequeue-decided", n, nil, "a dequeue has %d delivering and %d waiting paths", pops, waits)
	}
	if fn, ps := h.pathsOf(r, dn, "Len"); fn != nil {
		for _, p := range ps {
			r.Ob(strip(p.o.Ret[0]) == eng.LenOf(heapView{h, hpOf(fn)}.items(n0)), "len", dn+".Len", p.o, "the queue's length is %s", p.o.Ret[0])
		}
	}
	if fn, ps := h.pathsOf(r, dn, "GetByID"); fn != nil {
		for _, p := range ps {
			heapView{h, hpOf(fn)}.checkGet(r, p, dn+".GetByID", param(fn, 2))
		}
	}
	if fn, ps := h.pathsOf(r, dn, "DeleteByID"); fn != nil {
		for _, p := range ps {
			heapView{h, hpOf(fn)}.checkDelete(r, p, dn+".DeleteByID", param(fn, 2))
		}
	}
	if fn, ps := h.pathsOf(r, dn, "UpdatePriority"); fn != nil {
		for _, p := range ps {
			heapView{h, hpOf(fn)}.checkUpdate(r, p, dn+".UpdatePriority", param(fn, 2), param(fn, 3))
		}
	}
	// the order the storage-backed queue asks for
	if ctor := c.Func("pkg/queue", "NewDelayedPriorityQueue"); r.Anchor(ctor != nil, "queue.NewDelayedPriorityQueue") {
		e := c.exec(r)
		for _, b := range []bool{true, false} {
			for _, o := range r.run(e, ctor, nil, eng.Bool(b)) {
				prio, id, why := h.order(r, o.St, h.in(o.St, o.Ret[0]))
				want := "asc"
				if !b {
					want = "desc"
				}
				r.Ob(prio == want && id == want, "order", "NewDelayedPriorityQueue("+eng.Bool(b).String()+")", &o, "the queue's order is %s by priority and %s by id%s", prio, id, why)
			}
		}
	}
	ruleHeapWriters(c, r, h)
}

func minus(t *eng.Term, n int64) *eng.Term {
	return eng.Mk("bin", "-", types.Typ[types.Int], t, eng.Const(constant.MakeInt64(n), types.Typ[types.Int]))
}

// headDue: the head's priority is at most the current time in seconds.
func headDue(p *path, prio *eng.Term) (due, known bool) {
	p.st.FactTerms(func(a *eng.Term, v bool) {
		if a.Op != "bin" || a.Aux != "<" {
			return
		}
		x, y := strip(a.Args[0]), strip(a.Args[1])
		switch {
		case isUnixNow(x) && y == prio: // now < prio
			due, known = !v, true
		}
	})
	return
}

func isUnixNow(t *eng.Term) bool {
	return t.Op == "unix" && t.Args[0].Op == "now"
}

// ruleHeapWriters: only the heap's own methods change its fields, and an
// entry's priority changes only there or before it is inserted.
func ruleHeapWriters(c *Ctx, r *Report, h *heapInfo) {
	n := 0
	owner := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		rc := f.Signature.Recv()
		if rc == nil {
			return false
		}
		t := rc.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return types.Identical(t, h.t)
	}
	for _, f := range c.ReachableFuncs() {
		if owner(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				et := fa.X.Type().Underlying().(*types.Pointer).Elem()
				fld := et.Underlying().(*types.Struct).Field(fa.Field)
				_, fresh := fa.X.(*ssa.Alloc)
				switch {
				case types.Identical(et, h.t):
					n++
					w := writesTo(fa)
					r.ObAt(!w || fresh, "heap-writers", funcName(f), fa.Pos(), "%s changes %s of the heap outside its own methods", f.Name(), fld.Name())
				case types.Identical(et, h.item) && (fld.Name() == "Priority" || fld.Name() == "ID"):
					n++
					w := false
					for _, u := range *fa.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == fa {
							w = true
						}
					}
					r.ObAt(!w || fresh || c.ownersOnly(fa.X, owner, nil), "entry-writers", funcName(f), fa.Pos(), "%s changes the %s of an entry that may be in a queue, without restoring the order", f.Name(), fld.Name())
				}
			}
		}
	}
	r.Ob(n > 0, "writers-seen", "pkg/queue", nil, "no access to an entry was seen")
}

// ownersOnly: the value is a parameter, and what is passed for it is fresh or
// passed by the heap's own methods, which restore the order.
func (c *Ctx) ownersOnly(v ssa.Value, owner func(*ssa.Function) bool, seen []*ssa.Function) bool {
	if _, ok := v.(*ssa.Alloc); ok {
		return true
	}
	p, ok := v.(*ssa.Parameter)
	if !ok || len(seen) > 8 {
		return false
	}
	f := p.Parent()
	for _, s := range seen {
		if s == f {
			return true
		}
	}
	if f.Referrers() != nil && len(*f.Referrers()) > 0 { // only anonymous functions have them
		return false
	}
	n := -1
	for i, q := range f.Params {
		if q == p {
			n = i
		}
	}
	calls := 0
	for _, g := range c.ReachableFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				if isCall && call.Common().StaticCallee() == f {
					calls++
					if _, spawned := in.(*ssa.Go); spawned {
						return false
					}
					if !owner(g) && !c.ownersOnly(call.Common().Args[n], owner, append(seen, f)) {
						return false
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(f) && !(isCall && call.Common().Value == ssa.Value(f)) {
						return false // used as a value
					}
				}
			}
		}
	}
	return calls > 0
}

// writesTo: the field, or the slice or map it holds, is stored to.
func writesTo(fa *ssa.FieldAddr) bool {
	for _, u := range *fa.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == fa {
				return true
			}
		case *ssa.UnOp:
			for _, v := range *u.Referrers() {
				switch v := v.(type) {
				case *ssa.MapUpdate:
					if v.Map == u {
						return true
					}
				case *ssa.IndexAddr:
					for _, s := range *v.Referrers() {
						if s, ok := s.(*ssa.Store); ok && s.Addr == v {
							return true
						}
					}
				case *ssa.Call:
					if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						return true
					}
				}
			}
		}
	}
	return false
}

// funcName is Type.Method or package.Func.
func funcName(f *ssa.Function) string {
	n := eng.CanonName(f)
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	if f.Signature.Recv() != nil || f.Parent() != nil {
		if i := strings.Index(n, "."); i >= 0 && f.Parent() == nil {
			n = n[i+1:]
		}
	}
	return strings.ReplaceAll(strings.ReplaceAll(n, "(*", ""), ")", "")
}
