package rules

import (
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("Q01", "Path-sensitive effect analysis of the storage-backed queue's enqueue over SSA: on every path, committed writes (decoded back through the JSON field table), ready-queue insertions with their membership at that point, and the result are matched.", 20, ruleQ01)
	register("Q02", "Path-sensitive effect analysis of dequeue: every entry taken from the ready queue is accounted for on every path (returned, put back, or its record absent), and the record deleted or an in-flight entry made as the acknowledgement mode says.", 20, ruleQ02)
	register("Q03", "Path-sensitive effect analysis of ack: success needs a positive in-flight lookup, one committed delete of that record and removal from the in-flight queue; failure leaves all three alone.", 10, ruleQ03)
	register("Q04", "Path-sensitive effect analysis of nack: success needs a positive in-flight lookup, one ready insertion with the stored group and priority and removal from the in-flight queue; failure changes nothing.", 10, ruleQ04)
	register("Q06", "Path-sensitive effect analysis of the priority change: the record written decodes to the stored one with only the priority replaced, the reorder follows the commit, in-flight entries are untouched, and failures change nothing.", 10, ruleQ06)
}

// bpqRun executes a method of the storage-backed queue with the queues as
// primitives.
type bpqRun struct {
	m   *queueModel
	fn  *ssa.Function
	ps  []*path
	par map[string]*eng.Term // by position: p0 receiver, p1...
}

func (m *queueModel) runMethod(r *Report, name string) *bpqRun {
	fn := m.c.Method("pkg/queue", "BadgerPriorityQueue", name)
	if !r.Anchor(fn != nil, "BadgerPriorityQueue."+name) {
		return nil
	}
	return m.runFn(r, fn)
}

func (m *queueModel) runFn(r *Report, fn *ssa.Function) *bpqRun {
	e := m.c.exec(r)
	m.install(e)
	outs := r.run(e, fn, nil)
	x := &bpqRun{m: m, fn: fn, ps: paths(fn, outs)}
	return x
}

func (x *bpqRun) arg(i int) *eng.Term {
	p := x.fn.Params[i]
	return eng.Sym(p.Name(), p.Type())
}

// msgKey gives the storage key of a message as the queue's enqueue writes it.
func (m *queueModel) msgKey(r *Report) func(id *eng.Term) *eng.Term {
	x := m.runMethod(r, "Enqueue")
	if x == nil {
		return nil
	}
	id := x.arg(1)
	var key *eng.Term
	same := true
	for _, p := range x.ps {
		for _, e := range p.kind("set") {
			if e.Args[0].Has(id) {
				if key != nil && key != e.Args[0] {
					same = false
				}
				key = e.Args[0]
			}
		}
	}
	if !r.Anchor(key != nil && same, "the storage key of a message (a single key made from the id, written by Enqueue)") {
		return nil
	}
	recv := x.arg(0)
	return func(t *eng.Term) *eng.Term {
		return eng.Subst(key, func(s *eng.Term) *eng.Term {
			if s == id {
				return eng.Unwrap(t)
			}
			if s == recv {
				return eng.Sym("bpq", recv.Typ)
			}
			return nil
		})
	}
}

// norm renames the receiver so that keys of different methods compare equal.
func (x *bpqRun) norm(t *eng.Term) *eng.Term {
	recv := x.arg(0)
	b := eng.Sym("bpq", recv.Typ)
	if recv == b {
		return t
	}
	return eng.Subst(t, func(s *eng.Term) *eng.Term {
		if s == recv {
			return b
		}
		return nil
	})
}

// record is the message stored under a key before the operation.
func (m *queueModel) record(e *eng.Exec, key *eng.Term) *eng.Term {
	return eng.Mk("stored", "0", nil, key)
}

func strip(t *eng.Term) *eng.Term { return eng.Unwrap(t) }

// msgField projects a field of a message term.
func msgField(t *eng.Term, f string) *eng.Term {
	var typ types.Type = types.Typ[types.Int64]
	switch f {
	case "ID":
		typ = types.Typ[types.Uint64]
	case "Group", "Content":
		typ = types.Typ[types.String]
	}
	return strip(eng.Field(t, f, typ))
}

// isStoredField: t is field f of the message decoded from the record at key.
func (x *bpqRun) isStoredField(t *eng.Term, f string, key *eng.Term) bool {
	t = strip(t)
	if t.Op != "field" || t.Aux != f {
		return false
	}
	d := t.Args[0]
	return d.Op == "decoded" && types.Identical(d.Typ, x.m.msg) && x.isRecord(d.Args[0], key)
}

// isRecord: the bytes stored under key before this operation wrote anything.
func (x *bpqRun) isRecord(t, key *eng.Term) bool {
	t = strip(t)
	return t.Op == "stored" && t.Aux == "0" && x.norm(t.Args[0]) == key
}

var msgFields = []string{"Group", "ID", "Priority", "Content"}

func (x *bpqRun) itemID(st *eng.State, it *eng.Term) *eng.Term { return x.m.idOf(st, it) }

func (x *bpqRun) itemPrio(st *eng.State, it *eng.Term) *eng.Term {
	return strip(st.Load(eng.FieldAddr(it, "Priority", types.Typ[types.Int64]), types.Typ[types.Int64]))
}

// decodeRecord reads back what a write stored, as a message.
func (x *bpqRun) decodeRecord(v *eng.Term) *eng.Term {
	v = strip(v)
	if v.Op != "jsonbytes" {
		return nil
	}
	e := eng.New(x.m.c.Prog)
	e.InRepo = x.m.c.InRepo
	d, ok := e.JSONDecode(v.Args[0], x.m.msg)
	if !ok {
		return nil
	}
	return d
}

func (x *bpqRun) common(r *Report, p *path) {
	n := x.fn.Name()
	for _, w := range x.m.itemWrites(p.evs) {
		r.Ob(false, "entry-untouched", n, p.o, "an entry of a queue is changed in place (%s), past the queue's ordering", w)
	}
	for _, e := range p.evs {
		if e.Kind == "q" {
			r.Ob(e.Role != "?", "queue-role", n, p.o, "a queue that is neither the ready nor the in-flight queue is used: %s", e)
		}
	}
}

func evStr(es []*eng.Event) string {
	if len(es) == 0 {
		return "nothing"
	}
	var s []string
	for _, e := range es {
		s = append(s, e.String())
	}
	return strings.Join(s, "; ")
}

// explained: the failure of an operation has a cause on the path.
func (p *path) explained(extra bool) bool {
	if extra {
		return true
	}
	for _, e := range p.failed() {
		// a transaction given up fails because of what its function returned
		if e.Kind != "abort" || e.Name != "given-up" {
			return true
		}
	}
	return false
}

// ownObject: what the pointer points to was made by this call and is not part
// of something that outlives it.
func ownObject(t *eng.Term) bool {
	t = strip(t)
	for t.Op == "faddr" || t.Op == "idxaddr" || t.Op == "fieldaddr" {
		t = strip(t.Args[0])
	}
	return t.Op == "alloc"
}

func ruleQ01(c *Ctx, r *Report) {
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	key := m.msgKey(r)
	x := m.runMethod(r, "Enqueue")
	if key == nil || x == nil {
		return
	}
	id, group, prio, content := x.arg(1), x.arg(2), x.arg(3), x.arg(4)
	for _, p := range x.ps {
		if p.cut {
			continue
		}
		x.common(r, p)
		n := "Enqueue"
		adds := p.q("ready", "Enqueue")
		if !p.ok {
			r.Ob(len(adds) == 0, "failed-enqueue-adds-nothing", n, p.o, "a failed enqueue added a ready entry: %s", evStr(adds))
			r.Ob(len(p.eff) == 0, "failed-enqueue-stores-nothing", n, p.o, "a failed enqueue committed %s", evStr(p.eff))
			r.Ob(len(p.qchanges("inflight")) == 0, "in-flight-untouched", n, p.o, "an enqueue changed the in-flight queue")
			continue
		}
		// the record
		if !r.Ob(len(p.eff) == 1 && p.eff[0].Kind == "set" && x.norm(p.eff[0].Args[0]) == key(id), "one-record", n, p.o, "a successful enqueue must commit exactly one write, of the message's own record; it committed: %s", evStr(p.eff)) {
			continue
		}
		d := x.decodeRecord(p.eff[0].Args[1])
		if !r.Ob(d != nil, "record-decodes", n, p.o, "what is stored does not decode to a message: %s", p.eff[0].Args[1]) {
			continue
		}
		want := map[string]*eng.Term{"ID": id, "Priority": prio, "Content": content}
		for _, f := range []string{"ID", "Priority", "Content"} {
			r.Ob(msgField(d, f) == want[f], "record-"+f, n, p.o, "the stored %s is %s, not the given one", f, msgField(d, f))
		}
		g := x.expectedGroup(p, group)
		if r.Ob(g != nil, "group-decided", n, p.o, "whether the queue has groups is not decided by its type") {
			r.Ob(msgField(d, "Group") == g, "record-Group", n, p.o, "the stored group is %s, expected %s", msgField(d, "Group"), g)
		}
		// the ready entry
		var ins, upd []*eng.Event
		for _, e := range p.qchanges("ready") {
			switch e.Name {
			case "Enqueue":
				ins = append(ins, e)
			case "UpdatePriority":
				upd = append(upd, e)
			default:
				r.Ob(false, "ready-entry", n, p.o, "an enqueue removes a ready entry: %s", e)
			}
		}
		for _, e := range append(append([]*eng.Event(nil), ins...), upd...) {
			r.Ob(strip(e.Args[0]) == g && strip(e.Args[1]) == id && strip(e.Args[2]) == prio, "ready-entry-values", n, p.o, "the ready entry is made with %s, not with the message's group, id and priority", e)
		}
		switch {
		case len(ins) == 1:
			was, _ := ins[0].Res[0].StrVal()
			r.Ob(was == "absent", "ready-entry-once", n, p.o, "a ready entry is added although one may exist already (its presence is %s at that point): a replayed enqueue would queue the message twice", was)
		case len(ins) == 0:
			v, known := p.st.Fact(presenceKey("ready", g, id))
			r.Ob(known && v && len(upd) > 0, "ready-entry-once", n, p.o, "a successful enqueue leaves no ready entry with the given priority")
		default:
			r.Ob(false, "ready-entry-once", n, p.o, "a successful enqueue adds %d ready entries", len(ins))
		}
		r.Ob(len(p.qchanges("inflight")) == 0, "in-flight-untouched", n, p.o, "an enqueue changed the in-flight queue: %s", evStr(p.qchanges("inflight")))
	}
	r.Assumptions = append(r.Assumptions, "badger commits what Update reports as committed; encoding/json is modelled by its field rules")
}

// expectedGroup: the given group in a fair queue, the default group elsewhere.
func (x *bpqRun) expectedGroup(p *path, group *eng.Term) *eng.Term {
	fair := eng.Str("fair")
	res := (*eng.Term)(nil)
	p.st.FactTerms(func(a *eng.Term, v bool) {
		if a.Op == "bin" && a.Aux == "==" {
			t, k := a.Args[0], a.Args[1]
			if k.Op != "const" {
				t, k = k, t
			}
			if k == fair && t.Op == "field" && t.Aux == "Type" {
				if v {
					res = group
				} else {
					res = eng.Str("default")
				}
			}
		}
	})
	return res
}

func ruleQ02(c *Ctx, r *Report) {
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	key := m.msgKey(r)
	x := m.runMethod(r, "Dequeue")
	if key == nil || x == nil {
		return
	}
	n := "Dequeue"
	ack := x.arg(1)
	for _, p := range x.ps {
		if p.cut {
			continue
		}
		x.common(r, p)
		var taken []*eng.Term
		asked := false
		for _, e := range p.q("ready", "Dequeue") {
			asked = true
			if e.Res[0].Op != "nil" {
				taken = append(taken, e.Res[0])
			}
		}
		for _, e := range p.q("ready", "DeleteByID") {
			r.Ob(e.Res[0].Op == "nil", "order", n, p.o, "a message is taken by id, past the queue's order: %s", e)
		}
		back := map[*eng.Term]*eng.Event{}
		for _, e := range p.q("ready", "Enqueue") {
			if back[e.Args[1]] != nil {
				r.Ob(false, "put-back-once", n, p.o, "an entry is put back twice")
			}
			back[e.Args[1]] = e
		}
		missing := func(t *eng.Term) bool {
			for _, e := range p.kind("get") {
				if e.Name == "notfound" && x.norm(e.Args[0]) == key(x.itemID(p.st, t)) {
					return true
				}
			}
			return false
		}
		var returned *eng.Term
		if p.ok {
			msg := p.st.Value(p.o.Ret[0])
			if !r.Ob(!p.st.KnownNil(p.o.Ret[0]), "message-returned", n, p.o, "a dequeue succeeds without a message") {
				continue
			}
			r.Ob(ownObject(p.o.Ret[0]), "message-its-own", n, p.o, "the message returned is kept by the queue (%s), so a later operation can change it", p.o.Ret[0])
			for _, t := range taken {
				if x.isStoredField(msgField(msg, "ID"), "ID", key(x.itemID(p.st, t))) || msgField(msg, "ID") == x.itemID(p.st, t) {
					returned = t
				}
			}
			if !r.Ob(returned != nil, "returns-taken", n, p.o, "the message returned is not the stored message of an entry taken from the ready queue: %s", msg) {
				continue
			}
			id := x.itemID(p.st, returned)
			for _, f := range msgFields {
				v := msgField(msg, f)
				r.Ob(x.isStoredField(v, f, key(id)) || f == "ID" && v == id, "returns-"+f, n, p.o, "the %s returned is %s, not the stored one", f, v)
			}
			in := p.q("inflight", "Enqueue")
			a, known := p.st.Decide(ack)
			if r.Ob(known, "mode-decides", n, p.o, "the acknowledgement mode does not decide what happens to the message") {
				if a {
					r.Ob(len(p.eff) == 1 && p.eff[0].Kind == "del" && x.norm(p.eff[0].Args[0]) == key(id), "auto-ack-deletes", n, p.o, "with automatic acknowledgement exactly the message's record must be deleted; committed: %s", evStr(p.eff))
					r.Ob(len(in) == 0, "auto-ack-not-in-flight", n, p.o, "an automatically acknowledged message is put in flight")
				} else {
					r.Ob(len(p.eff) == 0, "manual-ack-keeps", n, p.o, "without automatic acknowledgement the record must stay; committed: %s", evStr(p.eff))
					r.Ob(len(in) == 1 && in[0].Args[1] == id, "manual-ack-in-flight", n, p.o, "exactly one in-flight entry with the message's id must be made: %s", evStr(in))
				}
			}
			for _, e := range p.qchanges("inflight") {
				r.Ob(e.Name == "Enqueue", "in-flight-others", n, p.o, "a dequeue changes other in-flight entries: %s", e)
			}
		} else {
			r.Ob(p.st.KnownNil(p.o.Ret[0]), "no-message", n, p.o, "a failed dequeue returns a message")
			r.Ob(len(p.eff) == 0, "failed-dequeue-deletes-nothing", n, p.o, "a failed dequeue committed %s", evStr(p.eff))
			r.Ob(len(p.qchanges("inflight")) == 0, "failed-dequeue-not-in-flight", n, p.o, "a failed dequeue changed the in-flight queue: %s", evStr(p.qchanges("inflight")))
			if len(taken) == 0 {
				empty := asked
				p.st.FactTerms(func(a *eng.Term, v bool) {
					if v && a.Op == "bin" && a.Aux == "==" && (a.Args[0].Op == "count" && strings.HasPrefix(a.Args[0].Aux, "ready") || a.Args[1].Op == "count" && strings.HasPrefix(a.Args[1].Aux, "ready")) {
						empty = true
					}
				})
				r.Ob(empty, "refusal-explained", n, p.o, "a dequeue fails although the ready queue was neither found empty nor asked")
			}
		}
		for _, t := range taken {
			id := x.itemID(p.st, t)
			b := back[id]
			if t == returned {
				r.Ob(b == nil, "delivered-once", n, p.o, "the entry of the delivered message is put back as well")
				continue
			}
			if missing(t) {
				continue
			}
			if r.Ob(b != nil, "put-back", n, p.o, "an entry was taken from the ready queue and is lost: it is neither delivered nor put back, and its record still exists") {
				r.Ob(strip(b.Args[2]) == x.itemPrio(p.st, t), "put-back-priority", n, p.o, "the entry is put back with priority %s instead of its own", b.Args[2])
				dec := false
				for _, e := range p.kind("jsondecode") {
					if !e.Failed {
						dec = true
					}
				}
				if dec {
					r.Ob(x.isStoredField(b.Args[0], "Group", key(id)), "put-back-group", n, p.o, "the entry is put back under group %s instead of its own", b.Args[0])
				}
			}
		}
		for id, b := range back {
			found := false
			for _, t := range taken {
				found = found || x.itemID(p.st, t) == id
			}
			r.Ob(found, "put-back-taken", n, p.o, "a dequeue adds a ready entry that it did not take: %s", b)
		}
		for _, e := range p.q("ready", "UpdatePriority") {
			r.Ob(false, "order", n, p.o, "a dequeue changes a priority: %s", e)
		}
	}
}

// inFlight: the path found the message with this id in flight.
func inFlight(p *path, id *eng.Term) (found, asked bool) {
	for _, e := range p.q("inflight", "") {
		if (e.Name == "GetByID" || e.Name == "DeleteByID") && strip(e.Args[1]) == id {
			asked = true
			if e.Res[0].Op != "nil" {
				found = true
			}
		}
	}
	return
}

// removed tells whether the in-flight entry id is gone at the end, and if it
// was put back, whether with its own deadline.
func (x *bpqRun) removed(p *path, id *eng.Term) (gone bool, others []*eng.Event, badBack *eng.Event) {
	for _, e := range p.qchanges("inflight") {
		switch e.Name {
		case "DeleteByID":
			if strip(e.Args[1]) == id {
				gone = true
				continue
			}
		case "Enqueue":
			if strip(e.Args[1]) == id && gone {
				gone = false
				v := strip(e.Args[2])
				if !(v.Op == "field" && v.Aux == "Priority" && v.Args[0].Op == "deref" && v.Args[0].Args[0].Op == "qitem" && v.Args[0].Args[0].Aux == "inflight") {
					badBack = e
				}
				continue
			}
		}
		others = append(others, e)
	}
	return
}

func ruleQ03(c *Ctx, r *Report) {
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	key := m.msgKey(r)
	x := m.runMethod(r, "Ack")
	if key == nil || x == nil {
		return
	}
	n := "Ack"
	id := x.arg(1)
	for _, p := range x.ps {
		if p.cut {
			continue
		}
		x.common(r, p)
		found, asked := inFlight(p, id)
		gone, others, bad := x.removed(p, id)
		r.Ob(len(others) == 0, "other-entries", n, p.o, "an ack changes in-flight entries other than the message's: %s", evStr(others))
		r.Ob(len(p.qchanges("ready")) == 0, "ready-untouched", n, p.o, "an ack changes the ready queue: %s", evStr(p.qchanges("ready")))
		if p.ok {
			r.Ob(found, "only-in-flight", n, p.o, "an ack succeeds although the message was not found in flight")
			r.Ob(len(p.eff) == 1 && p.eff[0].Kind == "del" && x.norm(p.eff[0].Args[0]) == key(id), "record-deleted", n, p.o, "a successful ack must delete exactly the message's record; committed: %s", evStr(p.eff))
			r.Ob(gone, "no-longer-in-flight", n, p.o, "after a successful ack the message is still in flight and would be delivered again")
			continue
		}
		r.Ob(len(p.eff) == 0, "failed-ack-deletes-nothing", n, p.o, "a failed ack committed %s", evStr(p.eff))
		r.Ob(!gone && bad == nil, "failed-ack-stays-in-flight", n, p.o, "after a failed ack the message is no longer in flight as before: it is never redelivered")
		r.Ob(p.explained(asked && !found), "refusal-explained", n, p.o, "an ack of a message in flight fails although nothing failed")
	}
}

func ruleQ04(c *Ctx, r *Report) {
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	key := m.msgKey(r)
	x := m.runMethod(r, "Nack")
	if key == nil || x == nil {
		return
	}
	n := "Nack"
	id := x.arg(1)
	for _, p := range x.ps {
		if p.cut {
			continue
		}
		x.common(r, p)
		found, asked := inFlight(p, id)
		gone, others, bad := x.removed(p, id)
		r.Ob(len(others) == 0, "other-entries", n, p.o, "a nack changes in-flight entries other than the message's: %s", evStr(others))
		r.Ob(len(p.eff) == 0, "record-untouched", n, p.o, "a nack changes stored records: %s", evStr(p.eff))
		ch := p.qchanges("ready")
		if p.ok {
			r.Ob(found, "only-in-flight", n, p.o, "a nack succeeds although the message was not found in flight")
			r.Ob(gone, "no-longer-in-flight", n, p.o, "after a successful nack the message is still in flight as well as ready")
			if r.Ob(len(ch) == 1 && ch[0].Name == "Enqueue", "ready-once", n, p.o, "a successful nack must add exactly one ready entry: %s", evStr(ch)) {
				x.storedEntry(r, p, n, ch[0], id, key(id))
			}
			continue
		}
		r.Ob(len(ch) == 0, "failed-nack-adds-nothing", n, p.o, "a failed nack changes the ready queue: %s", evStr(ch))
		r.Ob(!gone && bad == nil, "failed-nack-stays-in-flight", n, p.o, "after a failed nack the message is no longer in flight as before")
		r.Ob(p.explained(asked && !found), "refusal-explained", n, p.o, "a nack of a message in flight fails although nothing failed")
	}
}

// storedEntry: a ready entry carries the stored group, id and priority.
func (x *bpqRun) storedEntry(r *Report, p *path, n string, e *eng.Event, id, key *eng.Term) {
	r.Ob(x.isStoredField(e.Args[0], "Group", key), "stored-group", n, p.o, "the ready entry is made under group %s, not the stored one", e.Args[0])
	r.Ob(strip(e.Args[1]) == id || x.isStoredField(e.Args[1], "ID", key), "stored-id", n, p.o, "the ready entry is made with id %s", e.Args[1])
	r.Ob(x.isStoredField(e.Args[2], "Priority", key), "stored-priority", n, p.o, "the ready entry is made with priority %s, not the stored one", e.Args[2])
}

func ruleQ06(c *Ctx, r *Report) {
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	key := m.msgKey(r)
	x := m.runMethod(r, "UpdatePriority")
	if key == nil || x == nil {
		return
	}
	n := "UpdatePriority"
	id, prio := x.arg(1), x.arg(2)
	for _, p := range x.ps {
		if p.cut {
			continue
		}
		x.common(r, p)
		ch := p.qchanges("ready")
		fl := p.qchanges("inflight")
		r.Ob(len(fl) == 0, "deadline-kept", n, p.o, "a priority change alters the in-flight queue (its priorities are redelivery deadlines): %s", evStr(fl))
		inReady, inFly, askedR, askedF := false, false, false, false
		commitSeq := -1
		for _, e := range p.evs {
			if e.Kind == "commit" {
				commitSeq = e.Seq
			}
			if e.Kind == "q" && e.Name == "GetByID" && strip(e.Args[1]) == id {
				hit := e.Res[0].Op != "nil"
				if e.Role == "ready" {
					askedR = true
					inReady = inReady || hit
					r.Ob(x.isStoredField(e.Args[0], "Group", key(id)), "lookup-group", n, p.o, "the message is looked up under group %s, not its stored one", e.Args[0])
				} else {
					askedF = true
					inFly = inFly || hit
				}
			}
		}
		if p.ok {
			r.Ob(inReady || inFly, "only-known", n, p.o, "a priority change succeeds although the message was found neither ready nor in flight")
			if r.Ob(len(p.eff) == 1 && p.eff[0].Kind == "set" && x.norm(p.eff[0].Args[0]) == key(id), "one-record", n, p.o, "a priority change must store exactly the message's record; committed: %s", evStr(p.eff)) {
				d := x.decodeRecord(p.eff[0].Args[1])
				if r.Ob(d != nil, "record-decodes", n, p.o, "what is stored does not decode to a message: %s", p.eff[0].Args[1]) {
					r.Ob(msgField(d, "Priority") == prio, "record-Priority", n, p.o, "the stored priority is %s, not the new one", msgField(d, "Priority"))
					for _, f := range []string{"Group", "ID", "Content"} {
						r.Ob(x.isStoredField(msgField(d, f), f, key(id)) || f == "ID" && msgField(d, f) == id, "record-"+f, n, p.o, "the stored %s changes to %s", f, msgField(d, f))
					}
				}
			}
			done := false
			for _, e := range ch {
				if !r.Ob(e.Name == "UpdatePriority", "only-reorders", n, p.o, "a priority change adds or removes ready entries: %s", e) {
					continue
				}
				r.Ob(e.Seq > commitSeq, "reorder-after-commit", n, p.o, "the ready entry is reordered before the change is committed")
				if r.Ob(strip(e.Args[1]) == id && strip(e.Args[2]) == prio && x.isStoredField(e.Args[0], "Group", key(id)), "reorder-values", n, p.o, "the ready entry is reordered with %s", e) {
					done = true
				}
			}
			if inReady || !askedR || !inFly {
				r.Ob(done, "reordered", n, p.o, "the priority of a ready message is stored but its ready entry is not reordered")
			}
			continue
		}
		r.Ob(len(p.eff) == 0, "failed-change-stores-nothing", n, p.o, "a failed priority change committed %s", evStr(p.eff))
		r.Ob(len(ch) == 0, "failed-change-reorders-nothing", n, p.o, "a failed priority change alters the ready queue: %s", evStr(ch))
		r.Ob(p.explained(askedR && askedF && !inReady && !inFly), "refusal-explained", n, p.o, "the priority change of a known message fails although nothing failed")
	}
}
