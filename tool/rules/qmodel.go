package rules

import (
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// The in-memory queues as primitives. Seen from the storage-backed queue, a
// Queue is a set of entries (group, id, priority); each operation is an event
// and membership is tracked per path: unknown until a lookup, an insertion or a
// removal settles it. L1 rules decide that the implementations are such sets.

const qpkg = Mod + "/pkg/queue"

var qops = map[string]bool{"Enqueue": true, "Dequeue": true, "GetByID": true, "DeleteByID": true, "UpdatePriority": true, "Len": true}

type queueModel struct {
	c     *Ctx
	r     *Report
	bpq   *types.Named
	queue *types.Named
	item  *types.Named
	msg   *types.Named
	ready string // field of the storage-backed queue
	fly   string
	impls []types.Type
}

// queueFields lists the fields of the storage-backed queue that are Queues.
func (m *queueModel) queueFields() []string {
	var r []string
	st := m.bpq.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if m.isQueue(st.Field(i).Type()) {
			r = append(r, st.Field(i).Name())
		}
	}
	return r
}

func (m *queueModel) isQueue(t types.Type) bool {
	if types.Identical(t, m.queue) {
		return true
	}
	for _, i := range m.impls {
		if types.Identical(t, i) {
			return true
		}
	}
	return false
}

func newQueueModel(c *Ctx, r *Report) *queueModel {
	m := &queueModel{c: c, r: r, bpq: c.Named("pkg/queue", "BadgerPriorityQueue"), queue: c.Named("pkg/queue", "Queue"),
		item: c.Named("pkg/queue", "Item"), msg: c.Named("pkg/queue", "Message")}
	ok := r.Anchor(m.bpq != nil, "type queue.BadgerPriorityQueue") && r.Anchor(m.queue != nil, "type queue.Queue") &&
		r.Anchor(m.item != nil, "type queue.Item") && r.Anchor(m.msg != nil, "type queue.Message")
	if !ok {
		return nil
	}
	iface := m.queue.Underlying().(*types.Interface)
	sc := c.Pkg("pkg/queue").Pkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if p := types.NewPointer(tn.Type()); types.Implements(p, iface) {
				m.impls = append(m.impls, p)
			}
		}
	}
	// which field is the ready queue: the one whose length the queue reports
	fs := m.queueFields()
	if !r.Anchor(len(fs) == 2, "the ready and the in-flight queue of a queue") {
		return nil
	}
	ln := c.Method("pkg/queue", "BadgerPriorityQueue", "Len")
	if r.Anchor(ln != nil, "BadgerPriorityQueue.Len") {
		e := c.exec(r)
		used := map[string]bool{}
		e.Match = append([]func(*eng.Call) eng.Model{func(call *eng.Call) eng.Model {
			if !m.isOp(call) {
				return nil
			}
			return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
				used[m.fieldOf(call.Recv)] = true
				e.Primitive(call, st, k)
				return true
			}
		}}, e.Match...)
		e.Run(ln, nil)
		if len(used) == 1 {
			for f := range used {
				m.ready = f
			}
		}
	}
	for _, f := range fs {
		if f != m.ready {
			m.fly = f
		}
	}
	if !r.Anchor(m.ready == fs[0] || m.ready == fs[1], "the ready queue (the one BadgerPriorityQueue.Len reports)") {
		return nil
	}
	return m
}

func (m *queueModel) fieldOf(t *eng.Term) string {
	t = unboxConv(t)
	if t.Op == "field" {
		return t.Aux
	}
	return ""
}

func unboxConv(t *eng.Term) *eng.Term {
	for t.Op == "iface" || t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// isOp: a call of a method of the Queue interface or of an implementation.
func (m *queueModel) isOp(c *eng.Call) bool {
	i := strings.LastIndex(c.Name, ".")
	if i < 0 || !qops[c.Name[i+1:]] || c.Recv == nil {
		return false
	}
	recv := c.Name[:i]
	if recv == "("+qpkg+".Queue)" {
		return true
	}
	for _, t := range m.impls {
		if recv == "("+types.TypeString(t, nil)+")" {
			return true
		}
	}
	return false
}

// role of a receiver on this path.
func (m *queueModel) role(st *eng.State, recv *eng.Term) string {
	u := unboxConv(recv)
	var find func(t *eng.Term) string
	if u.Op == "field" {
		switch u.Aux {
		case m.ready:
			return "ready"
		case m.fly:
			return "inflight"
		}
	}
	_ = find
	// a queue made on this path: whichever field holds it now
	role := "?"
	st.Memory(func(a, v *eng.Term) {
		if a.Op == "fieldaddr" && unboxConv(v) == u {
			switch a.Aux {
			case m.ready:
				role = "ready"
			case m.fly:
				role = "inflight"
			}
		}
		if v.Op == "struct" && types.Identical(v.Typ, m.bpq) {
			bs := m.bpq.Underlying().(*types.Struct)
			for i := 0; i < bs.NumFields(); i++ {
				if unboxConv(v.Args[i]) == u {
					switch bs.Field(i).Name() {
					case m.ready:
						role = "ready"
					case m.fly:
						role = "inflight"
					}
				}
			}
		}
	})
	return role
}

func presenceKey(role string, group, id *eng.Term) *eng.Term {
	if role == "inflight" {
		group = eng.Nil // the in-flight queue has no groups
	}
	return eng.Mk("present", role, types.Typ[types.Bool], eng.Unwrap(group), eng.Unwrap(id))
}

func qver(role string) *eng.Term { return eng.Sym("$q."+role, nil) }

// install puts the model in front of the interpreter.
func (m *queueModel) install(e *eng.Exec) {
	e.Match = append([]func(*eng.Call) eng.Model{func(c *eng.Call) eng.Model {
		if m == nil || !m.isOp(c) {
			return nil
		}
		return m.op
	}}, e.Match...)
}

func (m *queueModel) idOf(st *eng.State, item *eng.Term) *eng.Term {
	return eng.Unwrap(st.Load(eng.FieldAddr(item, "ID", types.Typ[types.Uint64]), types.Typ[types.Uint64]))
}

func (m *queueModel) op(c *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
	name := c.Name[strings.LastIndex(c.Name, ".")+1:]
	role := m.role(st, c.Recv)
	emit := func(st *eng.State, args []*eng.Term, res ...*eng.Term) *eng.Event {
		return st.Emit(&eng.Event{Kind: "q", Name: name, Role: role, Recv: c.Recv, Args: args, Res: res, Pos: c.Pos, In: c.In()})
	}
	itemT := types.NewPointer(m.item)
	mkItem := func(st *eng.State, group, id *eng.Term) *eng.Term {
		it := eng.Mk("qitem", role, itemT, group, id)
		st.Assume(eng.IsNil(it), false)
		st.Store(eng.FieldAddr(it, "ID", types.Typ[types.Uint64]), id, types.Typ[types.Uint64])
		return it
	}
	known := func(st *eng.State, g, id *eng.Term) *eng.Term {
		v, ok := st.Fact(presenceKey(role, g, id))
		if !ok {
			return eng.Str("unknown")
		}
		if v {
			return eng.Str("present")
		}
		return eng.Str("absent")
	}
	switch name {
	case "Len":
		st.Emit(&eng.Event{Kind: "qlen", Name: name, Role: role, Recv: c.Recv, Pos: c.Pos, In: c.In()})
		k(st, eng.Mk("count", role+"."+itoa(st.Ver(qver(role))), types.Typ[types.Uint64], eng.Sym("$len."+role, nil)))
	case "Enqueue":
		it := c.Args[1]
		if st.KnownNil(it) {
			emit(st, []*eng.Term{c.Args[0], eng.Nil, eng.Nil}, eng.Str("unknown"))
			k(st)
			return true
		}
		id := m.idOf(st, it)
		prio := eng.Unwrap(st.Load(eng.FieldAddr(it, "Priority", types.Typ[types.Int64]), types.Typ[types.Int64]))
		emit(st, []*eng.Term{c.Args[0], id, prio}, known(st, c.Args[0], id))
		st.SetFact(presenceKey(role, c.Args[0], id), true)
		st.Bump(qver(role))
		k(st)
	case "Dequeue":
		st2 := st.Clone()
		it := c.E.Fresh("sym", role+"Item", itemT)
		st.Assume(eng.IsNil(it), false)
		emit(st, nil, it)
		st.Bump(qver(role))
		k(st, it)
		emit(st2, nil, eng.Nil)
		k(st2, eng.Nil)
	case "GetByID", "DeleteByID":
		g, id := eng.Unwrap(c.Args[0]), eng.Unwrap(c.Args[1])
		key := presenceKey(role, g, id)
		v, ok := st.Fact(key)
		st2 := st.Clone()
		if !ok || v {
			was := known(st, g, id)
			it := mkItem(st, g, id)
			emit(st, []*eng.Term{g, id}, it, was)
			st.SetFact(key, name == "GetByID")
			if name == "DeleteByID" {
				st.Bump(qver(role))
			}
			k(st, it)
		}
		if !ok || !v {
			was := known(st2, g, id)
			st2.SetFact(key, false)
			emit(st2, []*eng.Term{g, id}, eng.Nil, was)
			k(st2, eng.Nil)
		}
	case "UpdatePriority":
		emit(st, []*eng.Term{c.Args[0], eng.Unwrap(c.Args[1]), eng.Unwrap(c.Args[2])}, known(st, c.Args[0], c.Args[1]))
		k(st)
	}
	return true
}

// items taken or changed directly, past the queue
func (m *queueModel) itemWrites(evs []*eng.Event) []*eng.Event {
	var r []*eng.Event
	for _, e := range evs {
		if e.Kind == "wr" && !e.Owned && e.Recv.Op == "fieldaddr" {
			if p, ok := e.Recv.Args[0].Typ.(*types.Pointer); ok && types.Identical(p.Elem(), m.item) {
				r = append(r, e)
			}
		}
	}
	return r
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

var _ *ssa.Function
