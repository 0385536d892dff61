package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("X03", "Typestate of resources and life of tasks over SSA paths: every transaction, iterator, ticker and response body opened on a path is released on it before the function that owns it returns (iterators before their transaction ends); every task of a queue waits only together with a channel that ends it, which deleting the queue closes once, and is not left behind by a queue that is not kept; stream handlers leave on the end of their stream and take their registration with them; tasks that requests start end.", 60, ruleX03)
}

func ruleX03(c *Ctx, r *Report) {
	c.resources(r)
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	seen := m.queueTasks(r)
	if key := m.msgKey(r); key != nil {
		r.Only(func() {
			if qk := m.createRule(r, c.Named("pkg/queue", "QueueConfig"), key); qk != nil {
				m.deleteRule(r, qk, key)
			}
			m.managerRules(r)
		}, "tasks-stopped", "failed-delete-stays-usable", "forgotten", "no-panic", "failed-create-no-tasks")
	}
	c.streamsEnd(r)
	c.requestTasks(r, seen)
}

// streamsEnd: the handler of a stream leaves when the stream is over and gives
// back what it has.
func (c *Ctx) streamsEnd(r *Report) {
	g := c.grpcAPI(r)
	if g == nil {
		return
	}
	n := 0
	r.Only(func() {
		for _, x := range g.streamRuns() {
			if g.streamRule(r, x, map[string]bool{}) {
				n++
			}
		}
	}, "stream-ends", "stream-ends-on-failure", "stream-unregisters", "stream-releases", "instances")
	r.Anchor(n == 2, "the EnqueueStream and DequeueStream handlers")
}

// --- resources -------------------------------------------------------------------

// opens: what a library call opens that has to be released.
func opens(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	switch n := f.String(); n {
	case eng.BadgerT + "DB).NewTransaction", eng.BadgerT + "DB).NewTransactionAt":
		return "transaction"
	case eng.BadgerT + "DB).NewWriteBatch", eng.BadgerT + "DB).NewManagedWriteBatch":
		return "write batch"
	case eng.BadgerT + "Txn).NewIterator", eng.BadgerT + "Txn).NewKeyIterator":
		return "iterator"
	case "time.NewTicker", "time.Tick":
		return "ticker"
	case "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "(*net/http.Client).Head", "net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head":
		return "response body"
	}
	return ""
}

// opened is a resource on a path.
type opened struct {
	kind string
	ev   *eng.Event
	val  *eng.Term
	open bool
	rw   bool
}

// balance follows the resources along a path and returns those still open.
func (c *Ctx) balance(r *Report, cons string, p *path) (left []*opened, pos map[token.Pos]bool) {
	pos = map[token.Pos]bool{}
	var all []*opened
	by := map[*eng.Term]*opened{}
	txnRW := map[*eng.Term]bool{}
	add := func(kind string, e *eng.Event, v *eng.Term) *opened {
		o := &opened{kind: kind, ev: e, val: v, open: true}
		all = append(all, o)
		by[v] = o
		pos[e.Pos] = true
		return o
	}
	ofTxn := func(t *eng.Term) []*opened {
		var r []*opened
		for _, o := range all {
			if o.open && o.kind == "iterator" && strip(o.ev.Recv) == t {
				r = append(r, o)
			}
		}
		return r
	}
	for _, e := range p.evs {
		switch {
		case e.Kind == "txn":
			switch e.Name {
			case "new":
				add("transaction", e, e.Txn)
				if len(e.Args) > 0 {
					v, ok := strip(e.Args[0]).BoolVal()
					txnRW[e.Txn] = !ok || v
				}
			case "batch":
				add("write batch", e, e.Txn)
			case "update":
				txnRW[e.Txn] = true
			}
		case e.Kind == "iter":
			t := strip(e.Recv)
			if txnRW[t] {
				r.Ob(len(ofTxn(t)) == 0, "one-iterator", cons, p.o, "a second iterator is opened in a transaction that writes while another is open: badger panics")
			}
			add("iterator", e, e.Res[0])
		case e.Kind == "iterclose":
			if o := by[strip(e.Recv)]; o != nil {
				o.open = false
			}
		case e.Kind == "commit" || e.Kind == "abort" || e.Kind == "discard" || e.Kind == "txn-end":
			t := e.Txn
			if t == nil {
				t = e.Recv
			}
			t = strip(t)
			its := ofTxn(t)
			r.Ob(len(its) == 0, "iterator-closed-first", cons, p.o, "a transaction ends with %d iterators open: badger panics", len(its))
			if o := by[t]; o != nil {
				o.open = false
			}
		case e.Kind == "call" && (e.Name == "time.NewTicker" || e.Name == "time.Tick") && len(e.Res) > 0:
			add("ticker", e, e.Res[0])
		case e.Kind == "call" && e.Name == "(*time.Ticker).Stop":
			if o := by[strip(e.Recv)]; o != nil {
				o.open = false
			}
		case e.Kind == "http":
			if !e.Failed && len(e.Res) > 0 {
				add("response body", e, e.Res[0])
			} else {
				pos[e.Pos] = true
			}
		case e.Kind == "closed" && e.Recv != nil:
			for _, o := range all {
				if o.kind == "response body" && e.Recv.Has(o.val) {
					o.open = false
				}
			}
		}
	}
	for _, o := range all {
		if o.open {
			left = append(left, o)
		}
	}
	return left, pos
}

// handedOn: the value is part of what the path returns.
func handedOn(p *path, v *eng.Term) bool {
	for _, t := range p.o.Ret {
		if t == nil {
			continue
		}
		if t.Has(v) {
			return true
		}
		u := strip(t)
		if u.Has(v) || p.st.Value(u).Has(v) {
			return true
		}
		if pt := eng.Deref(u); pt != nil {
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i)
					if strip(p.st.Load(eng.FieldAddr(u, f.Name(), f.Type()), f.Type())).Has(v) {
						return true
					}
				}
			}
		}
	}
	return false
}

// keptIn: the field of another object that the path leaves the value in.
func keptIn(p *path, v *eng.Term) string {
	res := ""
	for _, e := range p.evs {
		if e.Kind == "wr" && !e.Owned && len(e.Args) > 0 && strip(e.Args[0]) == v && e.Recv.Op == "fieldaddr" {
			res = e.Recv.Aux
		}
	}
	return res
}

func (c *Ctx) resources(r *Report) {
	sites := 0
	need := map[token.Pos]string{}
	at := map[token.Pos]*ssa.Function{}
	var roots []*ssa.Function
	isRoot := map[*ssa.Function]bool{}
	addRoot := func(f *ssa.Function) {
		if f != nil && !isRoot[f] {
			isRoot[f] = true
			roots = append(roots, f)
		}
	}
	for _, f := range c.ReachableFuncs() {
		if f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				k := opens(call.Common().StaticCallee())
				if k == "" {
					continue
				}
				sites++
				need[in.Pos()], at[in.Pos()] = k, f
				top := f
				for top.Parent() != nil && !startup(top) {
					top = top.Parent()
				}
				addRoot(top)
			}
		}
	}
	r.Anchor(sites >= 10, "the places that open transactions, iterators, tickers and responses")
	met := map[token.Pos]bool{}
	var run func(f *ssa.Function)
	run = func(f *ssa.Function) {
		e := c.exec(r)
		e.Visits = 1
		c.clientModels(e)
		c.grpcModels(e)
		cons := funcName(f)
		for _, p := range paths(f, r.run(e, f, nil)) {
			left, pos := c.balance(r, cons, p)
			for q := range pos {
				met[q] = true
			}
			if p.o.Exit != eng.Return {
				continue
			}
			r.Ob(true, "released", cons, p.o, "")
			for _, o := range left {
				if handedOn(p, o.val) {
					n := 0
					for _, call := range c.callersOf(f) {
						n++
						addRoot(call)
					}
					r.Ob(n > 0, "released", cons, p.o, "the %s opened here is handed on, but not to a known caller", o.kind)
					continue
				}
				if fld := keptIn(p, o.val); fld != "" {
					r.Ob(c.releasedElsewhere(o.kind, fld), "released", cons, p.o, "the %s kept in the field %s is never released", o.kind, fld)
					continue
				}
				r.Ob(false, "released", fmt.Sprintf("%s %s", cons, o.kind), p.o, "the %s opened at %s is not released on this way", o.kind, c.Pos(o.ev.Pos))
			}
		}
	}
	for i := 0; i < len(roots) && i < 200; i++ {
		run(roots[i])
	}
	// what was not met there runs as a task or is called by a library
	for q, f := range at {
		if !met[q] && !isRoot[f] {
			isRoot[f] = true
			run(f)
		}
	}
	for q, k := range need {
		r.Ob(met[q], "analysed", funcName(at[q])+" "+k, nil, "the opening of a %s at %s is on no path", k, c.Pos(q))
	}
}

func (c *Ctx) callersOf(f *ssa.Function) []*ssa.Function {
	var res []*ssa.Function
	for _, g := range c.ReachableFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
					for g.Parent() != nil && !startup(g) {
						g = g.Parent()
					}
					res = append(res, g)
				}
			}
		}
	}
	return res
}

// usedAsValue: the function is not only called.
func (c *Ctx) usedAsValue(f *ssa.Function) bool {
	for _, g := range c.ReachableFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					v, ok := (*op).(*ssa.Function)
					if !ok || v != f && (v.Object() == nil || v.Object() != f.Object()) {
						continue
					}
					if isCall && op == &call.Common().Value && v == f {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}

// releasedElsewhere: some function releases what the field holds.
func (c *Ctx) releasedElsewhere(kind, field string) bool {
	for _, f := range c.ReachableFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || len(call.Common().Args) == 0 {
					continue
				}
				n := g.String()
				n = n[strings.LastIndex(n, ".")+1:]
				if n != "Stop" && n != "Close" && n != "Discard" && n != "Cancel" {
					continue
				}
				if u, ok := call.Common().Args[0].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						s, ok := eng.DerefType(fa.X.Type()).Underlying().(*types.Struct)
						if ok && s.Field(fa.Field).Name() == field {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// --- tasks -----------------------------------------------------------------------

// quits: the channels on which the task ends.
func quits(outs []eng.Outcome) map[*eng.Term]bool {
	q := map[*eng.Term]bool{}
	for i := range outs {
		if outs[i].Exit != eng.Return {
			continue
		}
		var last *eng.Event
		for _, e := range outs[i].St.Events() {
			if e.Kind == "recv" {
				last = e
			}
		}
		if last != nil {
			if !timerChan(outs[i].St, last.Recv) {
				q[strip(last.Recv)] = true
			}
		}
	}
	return q
}

// taskRule: wherever the task waits, it also waits for its end, and ends on it.
// Waits that a timer bounds may lie in between.
func (c *Ctx) taskRule(r *Report, cons string, outs []eng.Outcome, q map[*eng.Term]bool, rounds bool) {
	limit := 2
	if !rounds {
		limit = 1 << 30
	}
	for i := range outs {
		o := &outs[i]
		told := false
		bounded := 0
		evs := o.St.Events()
		for j, e := range evs {
			switch {
			case e.Kind == "recv" && q[strip(e.Recv)]:
				told = true
				bounded = 0
				continue
			case e.Kind == "select" && e.Name != "again":
				r.Ob(!told, "task-ends-when-told", cons, o, "the task goes on after it was told to end")
				has, timed := false, e.Name == "nonblocking"
				for _, ch := range e.Args {
					has = has || q[strip(ch)]
					if timerChan(o.St, ch) {
						timed = true
					}
				}
				if has {
					bounded = 0
					continue
				}
				bounded++
				r.Ob(timed && bounded < limit, "task-notices", cons, o, "the task waits without noticing that it is to end")
			case e.Kind == "recv" && e.Name == "select", e.Kind == "send" && e.Name == "select":
			case e.Kind == "recv":
				r.Ob(!told, "task-ends-when-told", cons, o, "the task goes on after it was told to end")
				timed := timerChan(o.St, e.Recv)
				bounded++
				r.Ob(timed && bounded < limit, "task-notices", cons, o, "the task waits without noticing that it is to end")
			case e.Kind == "send":
				r.Ob(buffered(e.Recv), "task-notices", cons, o, "the task offers something on a channel without noticing that it is to end")
			case e.Kind == "call" && e.Name == "time.Sleep":
				bounded++
				r.Ob(!told && bounded < limit, "task-notices", cons, o, "the task sleeps without noticing that it is to end")
			}
			_ = j
		}
		if o.Exit == eng.Cut && told {
			r.Ob(false, "task-ends-when-told", cons, o, "the task goes on after it was told to end")
		}
	}
}

// timerChan: something arrives on the channel after some time.
func timerChan(st *eng.State, ch *eng.Term) bool {
	if _, ok := eng.Period(st, ch); ok {
		return true
	}
	t := strip(ch).Typ
	if t == nil {
		return false
	}
	ct, ok := t.Underlying().(*types.Chan)
	return ok && types.TypeString(ct.Elem(), nil) == "time.Time"
}

func buffered(ch *eng.Term) bool {
	ch = strip(ch)
	if ch.Op != "makechan" || len(ch.Args) == 0 {
		return false
	}
	n, ok := strip(ch.Args[0]).IntVal()
	return ok && n > 0
}

// queueTasks: the tasks of a queue can be ended, and are ended unless the
// manager keeps the queue.
func (m *queueModel) queueTasks(r *Report) map[token.Pos]bool {
	seen := map[token.Pos]bool{}
	kept := 0
	tasks := map[*ssa.Function]bool{}
	for _, n := range []string{"Create", "GetQueue", "Delete"} {
		x := m.runQM(r, n)
		if x == nil {
			continue
		}
		cons := "QueueManager." + n
		for _, p := range x.ps {
			if p.o.Exit != eng.Return {
				continue
			}
			gos := p.kind("go")
			if len(gos) == 0 {
				continue
			}
			stays := false
			for _, e := range x.kept(p) {
				stays = stays || e.Kind == "mapset"
			}
			if stays {
				kept++
			}
			for _, g := range gos {
				seen[g.Pos] = true
				if g.Callee == nil || !m.c.InRepo(g.Callee) {
					r.Ob(false, "known-task", cons, p.o, "a background task of the queue cannot be identified: %s", g)
					continue
				}
				if stays && tasks[g.Callee] {
					continue
				}
				t := m.runTask(r, p, g, nil)
				q := quits(t.outs)
				if !tasks[g.Callee] {
					tasks[g.Callee] = true
					tn := funcName(g.Callee)
					r.Ob(len(q) > 0, "task-ends", tn, nil, "the background task of a queue never ends")
					m.c.taskRule(r, tn, t.outs, q, true)
				}
				if stays {
					continue
				}
				closed := false
				for _, e := range p.evs {
					if e.Kind == "close" && e.Seq > g.Seq && q[strip(e.Recv)] {
						closed = true
					}
				}
				r.Ob(closed, "no-task-left", cons+" "+funcName(g.Callee), p.o, "the queue is not kept and its background task %s runs on", funcName(g.Callee))
			}
		}
	}
	r.Ob(kept > 0, "queue-kept", "QueueManager", nil, "no path keeps a queue with its tasks")
	r.Ob(len(tasks) >= 2, "tasks-known", "QueueManager", nil, "only %d background tasks of queues were found", len(tasks))
	return seen
}

// requestTasks: a task that a request starts ends.
func (c *Ctx) requestTasks(r *Report, known map[token.Pos]bool) {
	x := c.newConc()
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && x.own(f) && !seen[f] {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	hs := 0
	for _, t := range x.all(r) {
		if t.many {
			hs++
			push(t.fn)
		}
	}
	r.Anchor(hs >= 10, "the handlers of requests")
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g, isGo := in.(*ssa.Go)
				if !isGo {
					for _, t := range x.targets(call.Common()) {
						push(t.fn)
					}
					continue
				}
				if known[g.Pos()] {
					continue
				}
				for _, t := range x.targets(call.Common()) {
					cons := funcName(t.fn)
					e := c.exec(r)
					e.Visits = 1
					c.clientModels(e)
					c.grpcModels(e)
					outs := r.run(e, t.fn, nil)
					q := quits(outs)
					ends := false
					for i := range outs {
						ends = ends || outs[i].Exit == eng.Return
					}
					r.Ob(ends, "request-task-ends", cons, nil, "the task that a request starts never ends")
					c.taskRule(r, cons, outs, q, false)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			push(a)
		}
	}
}
