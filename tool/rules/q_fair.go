package rules

import (
	"go/types"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// fairInfo: the parts of the fair queue, told apart by type and use.
type fairInfo struct {
	h      *heapInfo
	t      *types.Named
	node   *types.Named
	list   *types.Named
	groups *types.Var // map group -> node
	rot    *types.Var // the rotation list
	cursor *types.Var
	count  *types.Var // messages
	nGroup *types.Var
	nQueue *types.Var
	next   string
	prev   string
	head   string
	tail   string
	links  []*types.Var // of a node
	ends   []*types.Var // of the list
	length *types.Var   // groups
}

func ptrTo(t types.Type, n *types.Named) bool {
	p, ok := t.(*types.Pointer)
	return ok && n != nil && types.Identical(p.Elem(), n)
}

func isUint(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func findFair(c *Ctx, r *Report, h *heapInfo) *fairInfo {
	f := &fairInfo{h: h, t: c.Named("pkg/queue", "FairPriorityQueue")}
	if !r.Anchor(f.t != nil, "type queue.FairPriorityQueue") {
		return nil
	}
	st := f.t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			if p, ok := m.Elem().(*types.Pointer); ok {
				f.groups = st.Field(i)
				f.node, _ = p.Elem().(*types.Named)
			}
		}
	}
	if !r.Anchor(f.node != nil, "the groups of a fair queue (a map to nodes)") {
		return nil
	}
	ns := f.node.Underlying().(*types.Struct)
	for i := 0; i < ns.NumFields(); i++ {
		fl := ns.Field(i)
		switch {
		case ptrTo(fl.Type(), f.node):
			f.links = append(f.links, fl)
		case ptrTo(fl.Type(), h.t):
			f.nQueue = fl
		default:
			if b, ok := fl.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				f.nGroup = fl
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		switch {
		case ptrTo(fl.Type(), f.node):
			f.cursor = fl
		case isUint(fl.Type()):
			f.count = fl
		default:
			t := fl.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && n != f.node {
				if ls, ok := n.Underlying().(*types.Struct); ok {
					var ends []*types.Var
					for j := 0; j < ls.NumFields(); j++ {
						if ptrTo(ls.Field(j).Type(), f.node) {
							ends = append(ends, ls.Field(j))
						}
					}
					if len(ends) == 2 {
						f.rot, f.list, f.ends = fl, n, ends
						for j := 0; j < ls.NumFields(); j++ {
							if isUint(ls.Field(j).Type()) {
								f.length = ls.Field(j)
							}
						}
					}
				}
			}
		}
	}
	ok := r.Anchor(f.cursor != nil && f.count != nil && f.nQueue != nil && f.nGroup != nil && len(f.links) == 2, "cursor, count and node of a fair queue") &&
		r.Anchor(f.rot != nil && f.length != nil, "the rotation list of a fair queue")
	if !ok {
		return nil
	}
	return f
}

func (f *fairInfo) list0(q *eng.Term, st *eng.State) *eng.Term {
	if _, ok := f.rot.Type().(*types.Pointer); ok {
		return st.Load(eng.FieldAddr(q, f.rot.Name(), f.rot.Type()), f.rot.Type())
	}
	return eng.FieldAddr(q, f.rot.Name(), f.rot.Type())
}

// get reads a field of an object in a state.
func get(st *eng.State, obj *eng.Term, f string, t types.Type) *eng.Term {
	return st.Load(eng.FieldAddr(obj, f, t), t)
}

func (f *fairInfo) nodeT() types.Type { return types.NewPointer(f.node) }

func plus(t *eng.Term, n int64, typ types.Type) *eng.Term {
	return eng.Sum(t, n, typ)
}

func ruleQ08(c *Ctx, r *Report) {
	h := findHeap(c, r)
	if h == nil {
		return
	}
	f := findFair(c, r, h)
	if f == nil {
		return
	}
	tn := f.t.Obj().Name()
	s0 := eng.NewState()
	nt := f.nodeT()
	deq, dps := h.pathsOf(r, tn, "Dequeue")
	if deq == nil {
		return
	}
	// direction of travel: the link the cursor moves along, and the end it
	// starts from
	q := param(deq, 0)
	for _, p := range dps {
		cur := get(p.st, q, f.cursor.Name(), nt)
		old := get(s0, q, f.cursor.Name(), nt)
		for _, l := range f.links {
			for _, e := range f.ends {
				if cur == get(s0, get(s0, f.list0(q, s0), e.Name(), nt), l.Name(), nt) && p.st.KnownNil(old) {
					f.next, f.head = l.Name(), e.Name()
				}
			}
		}
	}
	if !r.Anchor(f.next != "", "the direction of the rotation: from one end of the list along one link") {
		return
	}
	for _, l := range f.links {
		if l.Name() != f.next {
			f.prev = l.Name()
		}
	}
	for _, e := range f.ends {
		if e.Name() != f.head {
			f.tail = e.Name()
		}
	}
	f.dequeue(r, deq, dps)
	if fn, ps := h.pathsOf(r, tn, "Enqueue"); fn != nil {
		f.enqueue(r, fn, ps)
	}
	node := func(q, g *eng.Term) (*eng.Term, *eng.Term) {
		m := get(s0, q, f.groups.Name(), f.groups.Type())
		return m, eng.Mk("mapget", "", nt, m, strip(g))
	}
	for _, name := range []string{"GetByID", "DeleteByID", "UpdatePriority"} {
		fn, ps := h.pathsOf(r, tn, name)
		if fn == nil {
			continue
		}
		n := tn + "." + name
		q, g, id := param(fn, 0), param(fn, 1), param(fn, 2)
		m, nd := node(q, g)
		hv := heapView{h, get(s0, nd, f.nQueue.Name(), f.nQueue.Type())}
		hits := 0
		for _, p := range ps {
			had, known := p.st.MapHad(m, g)
			// a group is added with its own queue (into-its-group)
			if known && had && p.st.KnownNil(get(s0, nd, f.nQueue.Name(), f.nQueue.Type())) {
				continue
			}
			if !r.Ob(known, "group-looked-up", n, p.o, "the message's group is not looked up") {
				continue
			}
			if !had {
				heapQuiet(r, h, p, n, "an operation on an unknown group")
				f.unchanged(r, p, n, q)
				if len(p.o.Ret) > 0 {
					r.Ob(p.st.KnownNil(p.o.Ret[0]), "unknown-group", n, p.o, "an operation on an unknown group returns an entry")
				}
				continue
			}
			hits++
			switch name {
			case "GetByID":
				hv.checkGet(r, p, n, id)
				f.unchanged(r, p, n, q)
			case "UpdatePriority":
				hv.checkUpdate(r, p, n, id, param(fn, 3))
				f.unchanged(r, p, n, q)
			case "DeleteByID":
				if !hv.checkDelete(r, p, n, id) {
					f.unchanged(r, p, n, q)
					continue
				}
				f.took(r, p, n, q, nd, g, func(want func(*eng.Term, *eng.Term) *eng.Term) {
					old := get(s0, q, f.cursor.Name(), nt)
					now := get(p.st, q, f.cursor.Name(), nt)
					at, known := p.st.Decide(eng.Eq(old, nd))
					if gone := want(nil, nil); gone != nil {
						if r.Ob(known, "cursor-checked", n, p.o, "a group is removed without looking whether the cursor is at it") {
							if at {
								r.Ob(now == gone, "cursor-off-removed", n, p.o, "the cursor was at the removed group and is now at %s, not at the next group", now)
							} else {
								r.Ob(now == old, "cursor-kept", n, p.o, "the cursor moves although it was not at the removed group")
							}
						}
						return
					}
					r.Ob(now == old, "cursor-kept", n, p.o, "the cursor moves when a message is removed by id from a group that stays")
				})
			}
		}
		r.Ob(hits > 0, "decided", n, nil, "no path acts on a known group")
	}
	if fn, ps := h.pathsOf(r, tn, "Len"); fn != nil {
		for _, p := range ps {
			r.Ob(strip(p.o.Ret[0]) == strip(get(s0, param(fn, 0), f.count.Name(), f.count.Type())), "len", tn+".Len", p.o, "the queue's length is %s, not the number of messages held", p.o.Ret[0])
		}
	}
	if ctor := c.Func("pkg/queue", "NewFairPriorityQueue"); r.Anchor(ctor != nil, "queue.NewFairPriorityQueue") {
		e := c.exec(r)
		for _, o := range r.run(e, ctor, nil) {
			q := o.Ret[0]
			r.Ob(get(o.St, q, f.groups.Name(), f.groups.Type()).Op == "makemap", "new-groups", "NewFairPriorityQueue", &o, "a new fair queue has no map of groups")
			l := f.list0(q, o.St)
			r.Ob(l.Op == "alloc" || l.Op == "fieldaddr", "new-rotation", "NewFairPriorityQueue", &o, "a new fair queue has no rotation list")
			r.Ob(o.St.KnownNil(get(o.St, q, f.cursor.Name(), nt)) && o.St.KnownNil(get(o.St, l, f.head, nt)) && o.St.KnownNil(get(o.St, l, f.tail, nt)), "new-empty", "NewFairPriorityQueue", &o, "a new fair queue is not empty")
			n, ok := get(o.St, q, f.count.Name(), f.count.Type()).IntVal()
			m, ok2 := get(o.St, l, f.length.Name(), f.length.Type()).IntVal()
			r.Ob(ok && ok2 && n == 0 && m == 0, "new-counts", "NewFairPriorityQueue", &o, "a new fair queue's counts are not zero")
		}
	}
	f.writers(r)
	ruleHeapWriters(c, r, h)
}

// fields of the structure and what they hold before and after
func (f *fairInfo) unchanged(r *Report, p *path, n string, q *eng.Term) {
	s0 := eng.NewState()
	for _, v := range []*types.Var{f.cursor, f.count, f.groups, f.rot} {
		r.Ob(get(p.st, q, v.Name(), v.Type()) == get(s0, q, v.Name(), v.Type()), "structure-kept", n, p.o, "%s changes although nothing was added or removed", v.Name())
	}
	l := f.list0(q, s0)
	for _, v := range append([]*types.Var{f.length}, f.ends...) {
		r.Ob(get(p.st, l, v.Name(), v.Type()) == get(s0, l, v.Name(), v.Type()), "structure-kept", n, p.o, "%s of the rotation changes although nothing was added or removed", v.Name())
	}
	r.Ob(len(f.groupEvents(p)) == 0, "groups-kept", n, p.o, "the groups change: %s", evStr(f.groupEvents(p)))
	r.Ob(len(f.linkWrites(p)) == 0, "links-kept", n, p.o, "the rotation changes: %s", evStr(f.linkWrites(p)))
}

func (f *fairInfo) groupEvents(p *path) []*eng.Event {
	var r []*eng.Event
	for _, e := range p.evs {
		switch e.Kind {
		case "mapset", "mapdel", "mapclear":
			if e.Recv.Typ != nil && types.Identical(e.Recv.Typ.Underlying(), f.groups.Type().Underlying()) {
				r = append(r, e)
			}
		}
	}
	return r
}

func (f *fairInfo) linkWrites(p *path) []*eng.Event {
	var r []*eng.Event
	for _, e := range p.evs {
		if e.Kind != "wr" || e.Recv.Op != "fieldaddr" || e.Owned {
			continue
		}
		if b := e.Recv.Args[0]; eng.Deref(b) != nil && types.Identical(eng.Deref(b).Elem(), f.node) {
			r = append(r, e)
		}
	}
	return r
}

// took: after taking one message from a node, the count goes down, and the node
// leaves exactly if it is empty now. cursor checks the cursor: its argument
// gives the removed node's successor, or nil if the node stays.
func (f *fairInfo) took(r *Report, p *path, n string, q, nd, group *eng.Term, cursor func(func(*eng.Term, *eng.Term) *eng.Term)) {
	s0 := eng.NewState()
	nt := f.nodeT()
	r.Ob(get(p.st, q, f.count.Name(), f.count.Type()) == plus(get(s0, q, f.count.Name(), f.count.Type()), -1, f.count.Type()), "count", n, p.o, "the count of messages is %s after one was taken", get(p.st, q, f.count.Name(), f.count.Type()))
	hp := get(s0, nd, f.nQueue.Name(), f.nQueue.Type())
	empty, known := emptyKnown(p, heapView{f.h, hp}.items(p.st))
	if !r.Ob(known, "group-empty-checked", n, p.o, "whether the group is empty after taking a message is not decided") {
		return
	}
	ge := f.groupEvents(p)
	next, prev := get(s0, nd, f.next, nt), get(s0, nd, f.prev, nt)
	l := f.list0(q, s0)
	if !empty {
		r.Ob(len(ge) == 0, "group-stays", n, p.o, "a group with messages left leaves: %s", evStr(ge))
		r.Ob(len(f.linkWrites(p)) == 0, "links-kept", n, p.o, "the rotation changes although the group has messages left: %s", evStr(f.linkWrites(p)))
		for _, v := range append([]*types.Var{f.length}, f.ends...) {
			r.Ob(get(p.st, l, v.Name(), v.Type()) == get(s0, l, v.Name(), v.Type()), "links-kept", n, p.o, "%s of the rotation changes although the group has messages left", v.Name())
		}
		cursor(func(a, b *eng.Term) *eng.Term { return nil })
		return
	}
	m := get(s0, q, f.groups.Name(), f.groups.Type())
	r.Ob(len(ge) == 1 && ge[0].Kind == "mapdel" && ge[0].Recv == m && (strip(ge[0].Args[0]) == strip(group) || strip(ge[0].Args[0]) == strip(get(s0, nd, f.nGroup.Name(), f.nGroup.Type()))), "group-leaves", n, p.o, "an empty group must be removed from the groups, and nothing else: %s", evStr(ge))
	r.Ob(get(p.st, l, f.length.Name(), f.length.Type()) == plus(get(s0, l, f.length.Name(), f.length.Type()), -1, f.length.Type()), "rotation-length", n, p.o, "the rotation's length is %s after a group left", get(p.st, l, f.length.Name(), f.length.Type()))
	// unlink
	side := func(near, far *eng.Term, link, end, what string) {
		isNil, known := p.st.Decide(eng.IsNil(near))
		if !r.Ob(known, "unlink", n, p.o, "whether the group that leaves has a %s neighbour is not decided", what) {
			return
		}
		endNow, end0 := get(p.st, l, end, nt), get(s0, l, end, nt)
		if isNil {
			r.Ob(endNow == far, "unlink", n, p.o, "after the group at the %s end left, that end is %s", what, endNow)
			return
		}
		r.Ob(get(p.st, near, link, nt) == far, "unlink", n, p.o, "the %s neighbour of the group that left is linked to %s", what, get(p.st, near, link, nt))
		r.Ob(endNow == end0, "unlink", n, p.o, "the %s end of the rotation changes although the group was not there", what)
	}
	side(prev, next, f.next, f.head, "front")
	side(next, prev, f.prev, f.tail, "back")
	for _, e := range f.linkWrites(p) {
		ok := e.Recv.Args[0] == prev && e.Recv.Aux == f.next || e.Recv.Args[0] == next && e.Recv.Aux == f.prev || e.Recv.Args[0] == nd
		r.Ob(ok, "unlink-others", n, p.o, "removing a group changes other links: %s", e)
	}
	cursor(func(a, b *eng.Term) *eng.Term { return next })
}

func (f *fairInfo) dequeue(r *Report, fn *ssa.Function, ps []*path) {
	n := f.t.Obj().Name() + ".Dequeue"
	s0 := eng.NewState()
	nt := f.nodeT()
	q := param(fn, 0)
	l := f.list0(q, s0)
	old, head := get(s0, q, f.cursor.Name(), nt), get(s0, l, f.head, nt)
	took := 0
	for _, p := range ps {
		hs := p.heap(nil)
		isNil, known := p.st.Decide(eng.IsNil(old))
		cur := old
		if known && isNil {
			cur = head
		}
		if p.st.KnownNil(p.o.Ret[0]) {
			heapQuiet(r, f.h, p, n, "a dequeue that yields nothing")
			zero := func(t *eng.Term) bool { return p.st.Known(eng.Eq(t, eng.Int(0)), true) }
			empty := zero(get(s0, l, f.length.Name(), f.length.Type())) || zero(get(s0, q, f.count.Name(), f.count.Type())) || zero(eng.LenOf(get(s0, q, f.groups.Name(), f.groups.Type()))) || p.st.KnownNil(head)
			// a group in the rotation always has a message
			if e, known := emptyKnown(p, heapView{f.h, get(s0, cur, f.nQueue.Name(), f.nQueue.Type())}.items(s0)); known && e {
				empty = true
			}
			r.Ob(empty, "nil-only-empty", n, p.o, "a dequeue yields nothing although the queue is not known to be empty")
			r.Ob(len(f.linkWrites(p)) == 0 && len(f.groupEvents(p)) == 0, "nil-changes-nothing", n, p.o, "a dequeue that yields nothing changes the rotation")
			continue
		}
		took++
		if !r.Ob(known, "cursor-start", n, p.o, "a dequeue takes a message without looking whether the cursor is set") {
			continue
		}
		hp := get(s0, cur, f.nQueue.Name(), f.nQueue.Type())
		ok := len(hs) == 1 && hs[0].Name == "Pop" && hs[0].Recv == hp && len(f.h.direct(p)) == 0
		if !r.Ob(ok && p.o.Ret[0] == hs[0].Res[0], "takes-from-cursor", n, p.o, "a dequeue must pop exactly one message from the group at the cursor and return it: %s", evStr(hs)) {
			continue
		}
		next := get(s0, cur, f.next, nt)
		f.took(r, p, n, q, cur, get(s0, cur, f.nGroup.Name(), f.nGroup.Type()), func(func(a, b *eng.Term) *eng.Term) {
			now := get(p.st, q, f.cursor.Name(), nt)
			fine := now == next
			// wrapping around at once is the same rotation
			if !fine && p.st.KnownNil(next) {
				fine = now == get(p.st, l, f.head, nt) || p.st.KnownNil(now)
			}
			r.Ob(fine, "cursor-moves", n, p.o, "after a dequeue the cursor is at %s, not at the next group %s", now, next)
		})
	}
	r.Ob(took >= 4, "decided", n, nil, "only %d delivering paths were found", took)
}

func (f *fairInfo) enqueue(r *Report, fn *ssa.Function, ps []*path) {
	n := f.t.Obj().Name() + ".Enqueue"
	s0 := eng.NewState()
	nt := f.nodeT()
	q, g, item := param(fn, 0), param(fn, 1), param(fn, 2)
	m := get(s0, q, f.groups.Name(), f.groups.Type())
	l := f.list0(q, s0)
	olds, news := 0, 0
	for _, p := range ps {
		hs := p.heap(nil)
		had, known := p.st.MapHad(m, g)
		if !r.Ob(known, "group-looked-up", n, p.o, "the message's group is not looked up") {
			continue
		}
		r.Ob(get(p.st, q, f.count.Name(), f.count.Type()) == plus(get(s0, q, f.count.Name(), f.count.Type()), 1, f.count.Type()), "count", n, p.o, "the count of messages is %s after one was added", get(p.st, q, f.count.Name(), f.count.Type()))
		r.Ob(get(p.st, q, f.cursor.Name(), nt) == get(s0, q, f.cursor.Name(), nt), "cursor-kept", n, p.o, "an insertion moves the cursor")
		if !r.Ob(len(hs) == 1 && hs[0].Name == "Push" && hs[0].Args[0] == item, "pushes", n, p.o, "an insertion must push exactly the given entry: %s", evStr(hs)) {
			continue
		}
		ge := f.groupEvents(p)
		if had {
			olds++
			nd := eng.Mk("mapget", "", nt, m, strip(g))
			r.Ob(hs[0].Recv == get(s0, nd, f.nQueue.Name(), f.nQueue.Type()), "into-its-group", n, p.o, "the entry is pushed into %s, not into its group's queue", hs[0].Recv)
			r.Ob(len(ge) == 0 && len(f.linkWrites(p)) == 0, "links-kept", n, p.o, "inserting into a group that exists changes the rotation: %s %s", evStr(ge), evStr(f.linkWrites(p)))
			for _, v := range append([]*types.Var{f.length}, f.ends...) {
				r.Ob(get(p.st, l, v.Name(), v.Type()) == get(s0, l, v.Name(), v.Type()), "links-kept", n, p.o, "%s of the rotation changes although the group exists", v.Name())
			}
			continue
		}
		news++
		if !r.Ob(len(ge) == 1 && ge[0].Kind == "mapset" && ge[0].Recv == m && strip(ge[0].Args[0]) == strip(g) && ge[0].Args[1].Op == "alloc", "group-joins", n, p.o, "a new group must be added under its name: %s", evStr(ge)) {
			continue
		}
		nd := ge[0].Args[1]
		r.Ob(strip(get(p.st, nd, f.nGroup.Name(), f.nGroup.Type())) == strip(g), "group-name", n, p.o, "the new group's name is %s", get(p.st, nd, f.nGroup.Name(), f.nGroup.Type()))
		hp := get(p.st, nd, f.nQueue.Name(), f.nQueue.Type())
		r.Ob(hs[0].Recv == hp && hp.Op == "alloc", "into-its-group", n, p.o, "the entry is pushed into %s, not into its new group's own queue", hs[0].Recv)
		if hp.Op == "alloc" {
			prio, id, why := f.h.order(r, p.st, hp)
			r.Ob(prio == "asc" && id == "asc", "group-order", n, p.o, "inside a new group the order is %s by priority and %s by id%s", prio, id, why)
		}
		r.Ob(get(p.st, l, f.length.Name(), f.length.Type()) == plus(get(s0, l, f.length.Name(), f.length.Type()), 1, f.length.Type()), "rotation-length", n, p.o, "the rotation's length is %s after a group joined", get(p.st, l, f.length.Name(), f.length.Type()))
		head, tail := get(s0, l, f.head, nt), get(s0, l, f.tail, nt)
		none := p.st.KnownNil(head) || p.st.KnownNil(tail) || p.st.Known(eng.Eq(get(s0, l, f.length.Name(), f.length.Type()), eng.Int(0)), true)
		nowHead, nowTail := get(p.st, l, f.head, nt), get(p.st, l, f.tail, nt)
		r.Ob(nowTail == nd, "joins-at-end", n, p.o, "a new group joins but the rotation's end is %s", nowTail)
		r.Ob(p.st.KnownNil(get(p.st, nd, f.next, nt)), "joins-at-end", n, p.o, "a new group at the end has a successor")
		if none {
			r.Ob(nowHead == nd, "joins-empty", n, p.o, "the first group joins but the rotation starts at %s", nowHead)
			r.Ob(p.st.KnownNil(get(p.st, nd, f.prev, nt)), "joins-empty", n, p.o, "the first group has a predecessor")
			r.Ob(len(f.linkWrites(p)) == 0 || onlyNode(f.linkWrites(p), nd), "links-kept", n, p.o, "other links change: %s", evStr(f.linkWrites(p)))
			continue
		}
		r.Ob(p.st.KnownNonNil(head) || p.st.KnownNonNil(tail), "joins-at-end", n, p.o, "a new group joins without looking whether the rotation is empty")
		r.Ob(nowHead == head, "joins-at-end", n, p.o, "a joining group changes the start of the rotation")
		r.Ob(get(p.st, tail, f.next, nt) == nd, "joins-at-end", n, p.o, "the last group is not linked to the one that joined")
		r.Ob(get(p.st, nd, f.prev, nt) == tail, "joins-at-end", n, p.o, "the group that joined is not linked back to the last one")
		for _, e := range f.linkWrites(p) {
			r.Ob(e.Recv.Args[0] == nd || e.Recv.Args[0] == tail && e.Recv.Aux == f.next, "links-kept", n, p.o, "a joining group changes other links: %s", e)
		}
	}
	r.Ob(olds > 0 && news > 1, "decided", n, nil, "insertion has %d paths for known and %d for new groups", olds, news)
}

func onlyNode(es []*eng.Event, nd *eng.Term) bool {
	for _, e := range es {
		if e.Recv.Args[0] != nd {
			return false
		}
	}
	return true
}

// writers: the structure is changed by its own methods only.
func (f *fairInfo) writers(r *Report) {
	for _, fn := range f.h.c.ReachableFuncs() {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Signature.Recv() != nil {
			t := root.Signature.Recv().Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if types.Identical(t, f.t) || types.Identical(t, f.list) || types.Identical(t, f.node) {
				continue
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				et := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if types.Identical(et, f.t) || types.Identical(et, f.list) || types.Identical(et, f.node) {
					_, fresh := fa.X.(*ssa.Alloc)
					r.ObAt(fresh || !writesTo(fa), "structure-writers", funcName(fn), fa.Pos(), "%s changes a fair queue's structure from outside", fn.Name())
				}
			}
		}
	}
}
