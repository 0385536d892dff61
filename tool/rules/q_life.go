package rules

import (
	"go/token"
	"go/types"
	"sort"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("Q05", "Path-sensitive analysis of the delivery deadline, of the goroutines started by creating and loading a queue, and of every tick of the redelivery task: each expired entry is matched with one ready insertion or put back, and the in-flight queue's comparator is decided over all orderings of its operands.", 25, ruleQ05)
	register("Q09", "Path-sensitive analysis of loading a queue from storage and of the lookup that keeps it: scan start, guard and end, one ready insertion per own record with the decoded values, queue kind by stored type, errors reported and nothing kept.", 25, ruleQ09)
	register("Q10", "Enumeration of every storage key the program forms, as concatenations of literals, names and fixed-width numbers: incomparable leading literals per kind, one variable-length part per key, own name only, and a length guard in every scan under a name prefix.", 20, ruleQ10)
	register("Q11", "Path-sensitive effect analysis of creating and deleting queues with the storage-backed queue inlined into the manager: record before goroutines, one transaction for the record and every own message, stop of background tasks, map updates exactly on success.", 20, ruleQ11)
	register("Q12", "Lock-set analysis along every path of every operation and every tick of the redelivery task: all effects lie in one critical section of one exclusive lock of the queue.", 20, ruleQ12)
}

// own reports whether a term depends on memory made on the path.
func hasAlloc(t *eng.Term) bool {
	return t.Contains(func(x *eng.Term) bool { return x.Op == "alloc" || x.Op == "makechan" })
}

// task is a goroutine started on a path.
type task struct {
	ev   *eng.Event
	fn   *ssa.Function
	outs []eng.Outcome
	p    *path
}

// runTask analyses the body of a goroutine from an unknown state of the queue.
func (m *queueModel) runTask(r *Report, p *path, ev *eng.Event, recv *eng.Term) *task {
	return m.runTaskRounds(r, p, ev, recv, 1)
}

func (m *queueModel) runTaskRounds(r *Report, p *path, ev *eng.Event, recv *eng.Term, rounds int) *task {
	if ev.Callee == nil && ev.Recv == nil {
		return nil
	}
	e := m.c.exec(r)
	e.Visits = rounds
	m.install(e)
	st := p.st.Spawn(recv)
	fnT := ev.Args[0]
	args := ev.Args[1:]
	fn := ev.Callee
	if fn == nil || !m.c.InRepo(fn) {
		return nil
	}
	t := &task{ev: ev, fn: fn, p: p}
	e.RunFunc(fnT, st, args, func(st *eng.State, ret []*eng.Term, x eng.Exit, why string, pos token.Pos) {
		t.outs = append(t.outs, eng.Outcome{Ret: ret, St: st, Exit: x, Why: why, Pos: pos})
	})
	r.finish(e, fn.Name(), t.outs)
	return t
}

// isMonitor: the goroutine takes entries from the in-flight queue.
func (t *task) isMonitor() bool {
	for i := range t.outs {
		for _, e := range t.outs[i].St.Events() {
			if e.Kind == "q" && e.Name == "Dequeue" && e.Role == "inflight" {
				return true
			}
		}
	}
	return false
}

func fieldPathHas(t *eng.Term, name string) bool {
	t = eng.Unwrap(t)
	return t.Op == "field" && t.Aux == name
}

// isDeadline: t = unix(now) + the configured timeout.
func isDeadline(t *eng.Term, field string) bool {
	t = eng.Unwrap(t)
	if t.Op != "bin" || t.Aux != "+" {
		return false
	}
	a, b := eng.Unwrap(t.Args[0]), eng.Unwrap(t.Args[1])
	if a.Op != "unix" {
		a, b = b, a
	}
	return a.Op == "unix" && a.Args[0].Op == "now" && fieldPathHas(b, field)
}

func ruleQ05(c *Ctx, r *Report) {
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	key := m.msgKey(r)
	if key == nil {
		return
	}
	// the deadline
	if x := m.runMethod(r, "Dequeue"); x != nil {
		n := 0
		for _, p := range x.ps {
			if p.cut || !p.ok {
				continue
			}
			for _, e := range p.q("inflight", "Enqueue") {
				n++
				r.Ob(isDeadline(e.Args[2], c.settingField("queue.acknowledgement_timeout")), "deadline", "Dequeue", p.o, "the in-flight entry's deadline is %s, not the time of delivery plus the acknowledgement timeout in seconds", e.Args[2])
			}
		}
		r.Ob(n > 0, "deadline-exists", "Dequeue", nil, "no delivery makes an in-flight entry")
	}
	// the redelivery task of every created and every loaded queue
	for _, name := range []string{"Create", "Load"} {
		x := m.runMethod(r, name)
		if x == nil {
			continue
		}
		done := map[string]bool{}
		for _, p := range x.ps {
			if p.cut || !p.ok {
				continue
			}
			mons := 0
			for _, ev := range p.kind("go") {
				t := m.runTask(r, p, ev, x.arg(0))
				if t == nil || !t.isMonitor() {
					continue
				}
				mons++
				sig := t.fn.String()
				for _, a := range ev.Args {
					sig += "," + a.String()
				}
				if done[sig] {
					continue
				}
				done[sig] = true
				m.checkMonitor(r, x, t, key)
			}
			r.Ob(mons == 1, "redelivery-task", name, p.o, "a queue that was made by %s has %d redelivery tasks, not one", name, mons)
		}
	}
	// order of the in-flight queue
	ctor := c.Func("pkg/queue", "NewBadgerPriorityQueue")
	if r.Anchor(ctor != nil, "queue.NewBadgerPriorityQueue") {
		e := c.exec(r)
		for _, o := range r.run(e, ctor, nil) {
			if o.Exit != eng.Return {
				continue
			}
			q := o.St.Load(eng.FieldAddr(o.Ret[0], m.fly, m.queue), m.queue)
			order, why := heapOrder(c, r, o.St, unboxConv(q))
			r.Ob(order == "asc", "earliest-first", "in-flight queue", &o, "the in-flight queue does not yield the earliest deadline first: its order is %s%s", order, why)
			_, typed := implType(q)
			r.Ob(typed == "DelayedPriorityQueue", "held-until-due", "in-flight queue", &o, "the in-flight queue is a %s: only a delayed queue holds an entry until its deadline", typed)
		}
	}
}

// implType names the concrete queue type of a term.
func implType(q *eng.Term) (types.Type, string) {
	for q.Op == "conv" {
		q = q.Args[0]
	}
	t := q.Typ
	if q.Op == "iface" {
		t = q.Typ
	}
	if t == nil {
		return nil, "?"
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n, n.Obj().Name()
	}
	return t, t.String()
}

func (m *queueModel) checkMonitor(r *Report, x *bpqRun, t *task, key func(*eng.Term) *eng.Term) {
	n := t.fn.Name()
	settled := 0
	bpqNorm := &bpqRun{m: m, fn: x.fn}
	for i := range t.outs {
		o := &t.outs[i]
		p := &path{o: o, st: o.St, evs: o.St.Events(), cut: o.Exit != eng.Return}
		p.effects()
		r.Ob(o.Exit == eng.Return || o.Exit == eng.Cut, "task-survives", n, o, "the redelivery task ends abnormally: %s", o.Why)
		r.Ob(deadTick(p) == nil, "periodic", n, o, "the redelivery task waits for a timer that has fired, or was stopped, and was not set again: %s", deadTick(p))
		r.Ob(len(p.eff) == 0, "records-untouched", n, o, "redelivery changes stored records: %s", evStr(p.eff))
		tick, drained, putback, armed := false, false, false, false
		type pend struct {
			item, id        *eng.Term
			missing, failed bool
		}
		var ps []*pend
		settle := func(end *eng.Event) {
			for _, q := range ps {
				r.Ob(q.missing, "not-dropped", n, o, "an expired in-flight entry is dropped although its record was not found to be gone")
			}
			ps = nil
			if tick {
				settled++
				r.Ob(drained || putback, "drained", n, o, "a tick of the redelivery task ends before all expired messages were taken")
			}
			tick, drained, putback = false, false, false
		}
		for _, e := range p.evs {
			switch {
			case e.Kind == "select" && e.Name != "nonblocking":
				// the tick is over when the task waits again
				settle(e)
			case e.Kind == "recv":
				if !timerChan(p.st, e.Recv) {
					tick = false // told to end
				}
				settle(e)
				if per, ok := eng.Period(p.st, e.Recv); ok {
					tick = true
					s, isSec := eng.Seconds(per)
					armed = isSec && fieldPathHas(s, r.C.settingField("queue.acknowledgement_check_interval"))
					r.Ob(armed, "check-interval", n, o, "the redelivery task runs every %s, not at the acknowledgement check interval in seconds", per)
				}
			case e.Kind == "call" && e.Name == "time.Sleep":
				settle(e)
				tick = true
				s, isSec := eng.Seconds(e.Args[0])
				r.Ob(isSec && fieldPathHas(s, r.C.settingField("queue.acknowledgement_check_interval")), "check-interval", n, o, "the redelivery task runs every %s, not at the acknowledgement check interval in seconds", e.Args[0])
			case e.Kind == "get" && e.Failed || e.Kind == "readvalue" && e.Failed || e.Kind == "jsondecode" && e.Failed:
				for _, q := range ps {
					if e.Kind == "get" && e.Name == "notfound" {
						if bpqNorm.norm(e.Args[0]) == key(q.id) {
							q.missing = true
						}
					} else {
						q.failed = true
					}
				}
			case e.Kind == "q" && e.Role == "inflight" && e.Name == "Dequeue":
				r.Ob(!putback, "no-spin", n, o, "after an unreadable entry was put back the same tick takes it again: the task would not end")
				if e.Res[0].Op == "nil" {
					drained = true
				} else {
					drained = false
					ps = append(ps, &pend{item: e.Res[0], id: m.idOf(p.st, e.Res[0])})
				}
			case e.Kind == "q" && qmutates(e):
				hit := -1
				for j, q := range ps {
					if strip(e.Args[1]) == q.id || bpqNorm.isFreshStored(e.Args[1], "ID", key(q.id)) {
						hit = j
					}
				}
				if !r.Ob(hit >= 0 && e.Name == "Enqueue", "only-expired", n, o, "redelivery changes a queue with something it did not take as expired: %s", e) {
					continue
				}
				q := ps[hit]
				ps = append(append([]*pend(nil), ps[:hit]...), ps[hit+1:]...)
				if e.Role == "ready" {
					k := key(q.id)
					r.Ob(bpqNorm.isFreshStored(e.Args[0], "Group", k), "stored-group", n, o, "the message becomes ready under group %s, not its stored one", e.Args[0])
					r.Ob(bpqNorm.isFreshStored(e.Args[2], "Priority", k), "stored-priority", n, o, "the message becomes ready with priority %s, not its stored one", e.Args[2])
				} else {
					r.Ob(q.failed, "put-back-reason", n, o, "an expired entry is put back in flight although its record could be read")
					v := strip(e.Args[2])
					r.Ob(v == strip(p.st.Load(eng.FieldAddr(q.item, "Priority", types.Typ[types.Int64]), types.Typ[types.Int64])), "put-back-deadline", n, o, "the entry is put back with deadline %s, not its own", v)
					putback = true
				}
			}
		}
		if o.Exit == eng.Return {
			settle(nil)
		}
	}
	ticks := 0
	for i := range t.outs {
		for _, e := range t.outs[i].St.Events() {
			if e.Kind == "recv" {
				if _, ok := eng.Period(t.outs[i].St, e.Recv); ok {
					ticks++
				}
			}
			if e.Kind == "call" && e.Name == "time.Sleep" {
				ticks++
			}
		}
	}
	r.Ob(ticks > 0, "periodic", n, nil, "the redelivery task has no periodic tick")
	r.Ob(settled > 0, "ticks-decided", n, nil, "no tick of the redelivery task was followed to its end")
}

// timers follows which channels of timers cannot tick: that of a timer that
// has fired, or of one that was stopped, and was not set again.
type timers struct{ dead, once map[*eng.Term]bool }

func (t *timers) step(st *eng.State, e *eng.Event) {
	if t.dead == nil {
		t.dead, t.once = map[*eng.Term]bool{}, map[*eng.Term]bool{}
	}
	chanOf := func(v *eng.Term) *eng.Term {
		if v == nil {
			return nil
		}
		return eng.TimerChan(st, v)
	}
	switch {
	case e.Kind == "call" && e.Name == "time.NewTimer":
		if ch := chanOf(e.Res[0]); ch != nil {
			t.once[ch] = true
		}
	case e.Kind == "call" && e.Name == "time.After":
		t.once[eng.Unbox(e.Res[0])] = true
	case e.Kind == "call" && (e.Name == "(*time.Timer).Reset" || e.Name == "(*time.Ticker).Reset"):
		if ch := chanOf(e.Recv); ch != nil {
			delete(t.dead, ch)
		}
	case e.Kind == "call" && (e.Name == "(*time.Timer).Stop" || e.Name == "(*time.Ticker).Stop"):
		if ch := chanOf(e.Recv); ch != nil {
			t.dead[ch] = true
		}
	case e.Kind == "recv":
		if ch := eng.Unbox(e.Recv); t.once[ch] {
			t.dead[ch] = true
		}
	}
}

// deadTick finds a wait for a tick that cannot come.
func deadTick(p *path) *eng.Event {
	var t timers
	for _, e := range p.evs {
		switch {
		case e.Kind == "select" && e.Name != "nonblocking":
			for _, ch := range e.Args {
				if t.dead[eng.Unbox(ch)] {
					return e
				}
			}
		case e.Kind == "recv" && t.dead[eng.Unbox(e.Recv)]:
			return e
		}
		t.step(p.st, e)
	}
	return nil
}

// isFreshStored: field of the message decoded from the record under key, at
// whatever version (a task reads the record as it is by then).
func (x *bpqRun) isFreshStored(t *eng.Term, f string, key *eng.Term) bool {
	t = strip(t)
	if t.Op != "field" || t.Aux != f {
		return false
	}
	d := t.Args[0]
	if d.Op != "decoded" || !types.Identical(d.Typ, x.m.msg) {
		return false
	}
	s := strip(d.Args[0])
	return s.Op == "stored" && x.norm(s.Args[0]) == key
}

// --- scans ------------------------------------------------------------------

type scan struct {
	it      *eng.Term
	prefix  *eng.Term // where it starts; nil if it does not start at a prefix
	opts    *eng.Term
	iters   []*eng.Term // keys visited: the loop guard held
	ended   bool        // the guard was false at the end
	bounded bool        // the guard keeps to the prefix
	guards  []*eng.Term // prefixes it keeps to
	txn     *eng.Term
}

func (p *path) scans() []*scan {
	var r []*scan
	by := map[*eng.Term]*scan{}
	for _, e := range p.evs {
		switch e.Kind {
		case "iter":
			s := &scan{it: e.Res[0], txn: e.Recv, bounded: true}
			if len(e.Args) > 0 {
				s.opts = e.Args[0]
			}
			by[s.it] = s
			r = append(r, s)
		case "seek":
			if s := by[e.Recv]; s != nil {
				s.prefix = e.Args[0]
			}
		case "rewind":
			if s := by[e.Recv]; s != nil {
				s.prefix = nil
				if s.opts != nil {
					pf := eng.Field(s.opts, "Prefix", nil)
					if pf.Op != "nil" && pf.Op != "field" {
						s.prefix = strip(pf)
					}
				}
			}
		}
	}
	type v struct {
		n   int
		val bool
		pf  *eng.Term
	}
	vs := map[*eng.Term][]v{}
	p.st.FactTerms(func(a *eng.Term, val bool) {
		if a.Op == "itervalidprefix" || a.Op == "itervalid" {
			n := 0
			for _, ch := range a.Aux {
				n = n*10 + int(ch-'0')
			}
			x := v{n: n, val: val}
			if a.Op == "itervalidprefix" {
				x.pf = a.Args[1]
			}
			vs[a.Args[0]] = append(vs[a.Args[0]], x)
		}
	})
	for it, l := range vs {
		s := by[it]
		if s == nil {
			continue
		}
		sort.SliceStable(l, func(i, j int) bool { return l[i].n < l[j].n })
		// that there is a record says less than that it has the prefix, and that
		// there is none says more
		byPrefix, end := map[int]bool{}, false
		for _, x := range l {
			byPrefix[x.n] = byPrefix[x.n] || x.pf != nil
			end = end || !x.val && x.n == l[len(l)-1].n
		}
		for _, x := range l {
			if x.pf == nil && (byPrefix[x.n] || !x.val) {
				continue
			}
			if x.val {
				s.iters = append(s.iters, eng.Mk("iterkey", itoa(x.n), nil, it))
			}
			if x.pf == nil {
				// Valid() keeps to the prefix only if the options do
				pf := eng.Nil
				if s.opts != nil {
					pf = eng.Field(s.opts, "Prefix", nil)
				}
				if strip(pf) != s.prefix {
					s.bounded = false
				}
			} else {
				s.guards = append(s.guards, x.pf)
				if x.pf != s.prefix {
					s.bounded = false
				}
			}
		}
		s.ended = end
	}
	return r
}

// prefixOf is a message key without its number.
func prefixOf(key *eng.Term) *eng.Term {
	if key.Op != "concat" {
		return nil
	}
	n := len(key.Args)
	return eng.Concat(key.Args[:n-1]...)
}

// ownLen: the path knows the scanned key to be (not) as long as a message key.
func (x *bpqRun) ownLen(p *path, key, own *eng.Term) (is, known bool) {
	want := eng.LenOf(own)
	p.st.FactTerms(func(a *eng.Term, v bool) {
		if a.Op != "bin" || a.Aux != "==" {
			return
		}
		for i := 0; i < 2; i++ {
			l := a.Args[i]
			if l.Op == "call" && l.Aux == "len" && strip(l.Args[0]) == key && x.norm(strip(a.Args[1-i])) == x.norm(strip(want)) {
				is, known = v, true
			}
		}
		if eng.SameEquation(x.norm(a.Args[0]), x.norm(a.Args[1]), x.norm(eng.LenOf(key)), x.norm(want)) {
			is, known = v, true
		}
	})
	return
}

func optTrue(opts *eng.Term, f string) bool {
	if opts == nil {
		return false
	}
	v, ok := eng.Field(opts, f, types.Typ[types.Bool]).BoolVal()
	return ok && v
}

func ruleQ09(c *Ctx, r *Report) {
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	key := m.msgKey(r)
	x := m.runMethod(r, "Load")
	if key == nil || x == nil {
		return
	}
	n := "Load"
	qname, all := x.arg(1), x.arg(2)
	qc := c.Named("pkg/queue", "QueueConfig")
	if !r.Anchor(qc != nil, "type queue.QueueConfig") {
		return
	}
	scans := 0
	for _, p := range x.ps {
		if p.cut {
			continue
		}
		x.common(r, p)
		r.Ob(len(p.eff) == 0, "load-writes-nothing", n, p.o, "loading a queue changes stored records: %s", evStr(p.eff))
		if !p.ok {
			r.Ob(p.explained(false), "refusal-explained", n, p.o, "loading fails although nothing failed")
			continue
		}
		for _, e := range p.failed() {
			r.Ob(false, "errors-reported", n, p.o, "loading succeeds although %s", e)
		}
		// the configuration it takes over
		cfgT := types.NewPointer(qc)
		cfg := p.st.Load(eng.FieldAddr(x.arg(0), "config", cfgT), cfgT)
		cv := p.st.Value(cfg)
		stored := func(f string) bool {
			v := strip(eng.Field(cv, f, types.Typ[types.String]))
			if v.Op == "field" && v.Aux == f && v.Args[0].Op == "decoded" && types.Identical(v.Args[0].Typ, qc) {
				s := strip(v.Args[0].Args[0])
				return s.Op == "stored" && s.Args[0].Has(qname) && !s.Args[0].Contains(func(t *eng.Term) bool { return t.Op == "be64" })
			}
			return f == "Name" && v == qname
		}
		r.Ob(stored("Name"), "stored-name", n, p.o, "the loaded queue's name is %s", eng.Field(cv, "Name", nil))
		r.Ob(stored("Type"), "stored-type", n, p.o, "the loaded queue's type is %s, not the stored one", eng.Field(cv, "Type", nil))
		// the kind of queue by type
		m.kindByType(r, x, p, n, eng.Field(cv, "Type", types.Typ[types.String]))
		mons := 0
		for _, ev := range p.kind("go") {
			if t := m.runTask(r, p, ev, x.arg(0)); t != nil && t.isMonitor() {
				mons++
			}
		}
		r.Ob(mons == 1, "tasks-running", n, p.o, "a loaded queue has %d redelivery tasks", mons)
		// the messages
		ss := p.scans()
		if len(ss) == 0 {
			r.Ob(p.st.Known(all, false), "messages-loaded", n, p.o, "a queue is loaded without reading its messages although they were asked for")
			r.Ob(len(p.q("ready", "Enqueue")) == 0, "only-stored", n, p.o, "ready entries are made without reading messages")
			continue
		}
		scans++
		r.Ob(len(ss) == 1, "one-scan", n, p.o, "the messages are scanned %d times", len(ss))
		s := ss[0]
		own := x.loadKey(p, key, cv)
		r.Ob(s.prefix != nil && s.prefix == prefixOf(own(eng.Int(0))), "scan-start", n, p.o, "the scan starts at %s, not at the prefix of the queue's messages", s.prefix)
		r.Ob(s.bounded && s.ended, "scan-complete", n, p.o, "the scan does not run to the end of the queue's messages")
		r.Ob(!optTrue(s.opts, "Reverse") && !optTrue(s.opts, "AllVersions"), "scan-options", n, p.o, "the scan goes backwards or over old versions")
		adds := p.q("ready", "Enqueue")
		used := map[*eng.Event]bool{}
		for _, k := range s.iters {
			is, known := x.ownLen(p, k, own(eng.Int(0)))
			if known && !is {
				continue
			}
			cnt := 0
			for _, a := range adds {
				ok := true
				for i, f := range []string{"Group", "ID", "Priority"} {
					v := strip(a.Args[i])
					if !(v.Op == "field" && v.Aux == f && v.Args[0].Op == "decoded" && types.Identical(v.Args[0].Typ, m.msg) && strip(v.Args[0].Args[0]) == eng.Mk("stored", "", nil, k)) {
						ok = false
					}
				}
				if ok {
					cnt++
					used[a] = true
				}
			}
			r.Ob(cnt == 1, "one-entry-per-message", n, p.o, "a stored message gets %d ready entries with its stored group, id and priority", cnt)
		}
		for _, a := range adds {
			r.Ob(used[a], "only-stored", n, p.o, "loading makes a ready entry that is not a stored message of the queue with its own values: %s", a)
		}
		r.Ob(len(p.qchanges("inflight")) == 0, "in-flight-empty", n, p.o, "loading changes the in-flight queue")
	}
	r.Ob(scans > 0, "messages-scanned", n, nil, "no path of loading scans the messages")
	m.ruleGetQueue(r)
}

// loadKey is the key of a message of the queue being loaded, with the name the
// loaded configuration has.
func (x *bpqRun) loadKey(p *path, key func(*eng.Term) *eng.Term, cv *eng.Term) func(*eng.Term) *eng.Term {
	name := strip(eng.Field(cv, "Name", types.Typ[types.String]))
	return func(id *eng.Term) *eng.Term {
		k := key(eng.Sym("$id", types.Typ[types.Uint64]))
		return eng.Subst(k, func(t *eng.Term) *eng.Term {
			if t.Op == "field" && t.Aux == "Name" {
				return name
			}
			return nil
		})
	}
}

// kindByType: a fair queue for type "fair", a delayed one otherwise.
func (m *queueModel) kindByType(r *Report, x *bpqRun, p *path, n string, typ *eng.Term) {
	q := p.st.Load(eng.FieldAddr(x.arg(0), m.ready, m.queue), m.queue)
	_, name := implType(q)
	v, known := p.st.Decide(eng.Mk("bin", "==", types.Typ[types.Bool], strip(typ), eng.Str("fair")))
	if !known {
		r.Ob(false, "kind-by-type", n, p.o, "the kind of queue made (%s) does not depend on the queue's type", name)
		return
	}
	want := "DelayedPriorityQueue"
	if v {
		want = "FairPriorityQueue"
	}
	r.Ob(name == want, "kind-by-type", n, p.o, "the queue made is a %s, the type asks for a %s", name, want)
	if name == "DelayedPriorityQueue" && want == name {
		order, why := heapOrder(m.c, r, p.st, unboxConv(q))
		r.Ob(order == "asc", "lowest-first", n, p.o, "the ready queue is not ordered lowest priority first: %s%s", order, why)
	}
}

// --- the manager --------------------------------------------------------------

// qmRun executes a method of the queue manager with the storage-backed queue
// inlined.
type qmRun struct {
	m    *queueModel
	fn   *ssa.Function
	ps   []*path
	maps []string // map fields of the manager
}

func (m *queueModel) runQM(r *Report, name string) *qmRun {
	fn := m.c.Method("pkg/queue", "QueueManager", name)
	if !r.Anchor(fn != nil, "QueueManager."+name) {
		return nil
	}
	e := m.c.exec(r)
	e.Visits = 1
	m.install(e)
	outs := r.run(e, fn, nil)
	return &qmRun{m: m, fn: fn, ps: paths(fn, outs)}
}

func (x *qmRun) arg(i int) *eng.Term {
	p := x.fn.Params[i]
	return eng.Sym(p.Name(), p.Type())
}

// isMap: the term is the manager's map of queues.
func (x *qmRun) isMap(t *eng.Term) bool {
	t = strip(t)
	if t.Op != "field" || t.Typ == nil {
		return false
	}
	mt, ok := t.Typ.Underlying().(*types.Map)
	if !ok {
		return false
	}
	p, ok := mt.Elem().(*types.Pointer)
	return ok && types.Identical(p.Elem(), x.m.bpq)
}

// lookup: what the path knows about the name being in the map at the start.
func (x *qmRun) lookup(p *path, name *eng.Term) (have, known bool) {
	for _, e := range p.kind("mapget") {
		if x.isMap(e.Recv) && strip(e.Args[0]) == strip(name) && !known {
			have, known = p.st.MapHad(e.Recv, e.Args[0])
		}
	}
	return
}

func (x *qmRun) kept(p *path) []*eng.Event {
	var r []*eng.Event
	for _, e := range p.evs {
		if (e.Kind == "mapset" || e.Kind == "mapdel" || e.Kind == "mapclear") && x.isMap(e.Recv) {
			r = append(r, e)
		}
	}
	return r
}

func (m *queueModel) ruleGetQueue(r *Report) {
	x := m.runQM(r, "GetQueue")
	if x == nil {
		return
	}
	n := "GetQueue"
	name := x.arg(1)
	loads := 0
	for _, p := range x.ps {
		if p.cut {
			continue
		}
		have, known := x.lookup(p, name)
		ch := x.kept(p)
		if !r.Ob(known, "looked-up", n, p.o, "the queue is not looked up by its name") {
			continue
		}
		ret := p.o.Ret[0]
		if have {
			r.Ob(p.ok && len(ch) == 0, "opened-queue-kept", n, p.o, "an opened queue is not simply returned: %s", evStr(ch))
			r.Ob(ret.Op == "mapget" && x.isMap(ret.Args[0]) && ret.Args[1] == strip(name), "opened-queue-returned", n, p.o, "%s is returned instead of the opened queue", ret)
			continue
		}
		if !p.ok {
			r.Ob(len(ch) == 0, "failed-open-not-kept", n, p.o, "a queue that could not be loaded is kept: %s", evStr(ch))
			r.Ob(p.explained(false), "refusal-explained", n, p.o, "opening fails although nothing failed")
			continue
		}
		loads++
		for _, e := range p.failed() {
			r.Ob(false, "errors-reported", n, p.o, "a queue is returned although %s", e)
		}
		r.Ob(len(ch) == 1 && ch[0].Kind == "mapset" && strip(ch[0].Args[0]) == strip(name) && ch[0].Args[1] == ret, "opened-queue-kept", n, p.o, "the queue that was loaded and returned is not kept under its name: %s", evStr(ch))
		r.Ob(len(p.scans()) == 1, "messages-loaded", n, p.o, "a queue is opened without its messages")
		r.Ob(len(p.eff) == 0, "open-writes-nothing", n, p.o, "opening a queue changes stored records: %s", evStr(p.eff))
	}
	r.Ob(loads > 0, "opens-stored", n, nil, "no path opens a stored queue")
}
