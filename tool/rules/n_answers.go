package rules

import (
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// nodeAnswers (A01): what a node operation returns is what the queue operation
// it stands for returned, or what it was given.
func (c *Ctx) nodeAnswers(r *Report) {
	m, rs := c.nodeRuns(r)
	if m == nil {
		return
	}
	// the parameter of the node operation for each field
	given := map[string]int{"Group": 1, "Priority": 2, "Content": 3}
	n := 0
	for _, x := range rs {
		if x.fn.Signature.Results().Len() != 2 {
			continue
		}
		cons := "Node." + x.op.name
		for _, p := range x.ps {
			if p.cut || !p.ok {
				continue
			}
			var res *eng.Term
			var id *eng.Term
			for _, e := range p.ops {
				if p.inFSM[e] && len(e.Res) == 2 {
					res = e.Res[0]
					if x.op.op == "Enqueue" {
						id = strip(e.Args[0])
					}
				}
			}
			if !r.Ob(res != nil, "node-answer", cons, p.o, "the answer is made without the queue's") {
				continue
			}
			for _, f := range []string{"ID", "Group", "Priority", "Content"} {
				n++
				v := retField(p.st, p.o.Ret[0], f)
				ok := v != nil && isFieldOf(v, res, f)
				if !ok && v != nil && x.op.op == "Enqueue" {
					if f == "ID" {
						ok = v == id
					} else {
						ok = v == x.param(given[f])
					}
				}
				if !ok && v != nil && strip(eng.Unbox(p.o.Ret[0])) == strip(res) {
					ok = true
				}
				r.Ob(ok, "node-answer", cons+" "+f, p.o, "the answer's %s is %v, not the message's", f, v)
			}
		}
	}
	r.Ob(n >= 8, "node-answer", "instances", nil, "only %d fields of answers were found", n)
	// information about one queue
	fn := c.Method("pkg/raft", "Node", "GetQueueInfo")
	if r.Anchor(fn != nil, "raft.Node.GetQueueInfo") {
		oks := 0
		for _, p := range paths(fn, r.run(m.e, fn, nil)) {
			if p.cut || !p.ok {
				continue
			}
			oks++
			q := eng.Sym(fn.Params[1].Name(), fn.Params[1].Type())
			ok := false
			for _, e := range p.evs {
				o, name, is := opOf(e)
				if !is || o != "BadgerPriorityQueue" || name != "GetStats" || len(e.Res) == 0 || strip(e.Res[0]) != strip(eng.Unbox(p.o.Ret[0])) {
					continue
				}
				for _, l := range p.evs {
					if o, name, is := opOf(l); is && o == "QueueManager" && name == "GetQueue" && !l.Failed && l.Res[0] == e.Recv && strip(l.Args[0]) == q {
						ok = true
					}
				}
			}
			r.Ob(ok, "node-answer", "Node.GetQueueInfo", p.o, "the answer is %s, not the statistics of the queue asked for", p.o.Ret[0])
		}
		r.Ob(oks > 0, "can-succeed", "Node.GetQueueInfo", nil, "no path succeeds")
	}
	fn = c.Method("pkg/raft", "Node", "GetQueues")
	if r.Anchor(fn != nil, "raft.Node.GetQueues") {
		for _, p := range paths(fn, r.run(m.e, fn, nil)) {
			ok := false
			for _, e := range p.evs {
				if o, name, is := opOf(e); is && o == "QueueManager" && name == "GetQueues" && strip(e.Res[0]) == strip(p.o.Ret[0]) {
					ok = true
				}
			}
			r.Ob(ok && !p.cut, "node-answer", "Node.GetQueues", p.o, "the answer is not the list of queues")
		}
	}
}

// listOfQueues (A01): the manager lists every queue it keeps, once.
func (m *queueModel) listOfQueues(r *Report) {
	fn := m.c.Method("pkg/queue", "QueueManager", "GetQueues")
	if !r.Anchor(fn != nil, "QueueManager.GetQueues") {
		return
	}
	e := m.c.exec(r)
	e.Visits = 4
	m.install(e)
	for _, s := range []string{"sort.Slice", "sort.SliceStable", "sort.Sort", "slices.SortFunc", "slices.SortStableFunc"} {
		e.Models[s] = func(c *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
			k(st)
			return true
		}
	}
	old := e.Opaque
	stats := m.c.Method("pkg/queue", "BadgerPriorityQueue", "GetStats")
	e.Opaque = func(name string, f *ssa.Function) bool { return f != nil && f == stats || old != nil && old(name, f) }
	x := &qmRun{m: m, fn: fn, ps: paths(fn, r.run(e, fn, nil))}
	most := 0
	for _, p := range x.ps {
		if p.cut {
			continue
		}
		var vals []*eng.Term // queues the path ranged over
		over := false
		for _, ev := range p.evs {
			if ev.Kind == "range" && x.isMap(ev.Recv) {
				over = true
			}
		}
		r.Ob(over, "lists-queues", "GetQueues", p.o, "the list is not made from the manager's queues")
		p.st.FactTerms(func(a *eng.Term, v bool) {
			if a.Op == "more" || strings.HasPrefix(a.Op, "sym") && strings.HasPrefix(a.Aux, "more") {
				if v {
					vals = append(vals, a)
				}
			}
		})
		els := p.list(strip(p.o.Ret[0]))
		n := len(vals)
		if n > most {
			most = n
		}
		r.Ob(els != nil && len(els) == n, "lists-queues", "GetQueues length", p.o, "%d queues are listed of %d", len(els), n)
		seen := map[*eng.Term]bool{}
		for _, el := range els {
			ok := false
			for _, ev := range p.evs {
				if ev.Kind == "call" && ev.Callee == stats && len(ev.Res) > 0 && strip(ev.Res[0]) == strip(el) {
					q := strip(ev.Recv)
					ok = (q.Op == "rangeval" || q.Op == "mapget") && !seen[q]
					seen[q] = true
				}
			}
			r.Ob(ok, "lists-queues", "GetQueues element", p.o, "an element of the list is %s, not the statistics of another queue", el)
		}
	}
	r.Ob(most >= 2, "lists-queues", "GetQueues instances", nil, "no path lists two queues")
}

// nodeErrors (R04): a failure of the log, the state machine or the queue fails
// the node operation; nothing else does.
func (c *Ctx) nodeErrors(r *Report) {
	m, rs := c.nodeRuns(r)
	if m == nil {
		return
	}
	check := func(cons string, p *path) {
		if p.cut {
			r.Ob(p.o.Exit != eng.Panic && p.o.Exit != eng.ProcExit, "no-crash", cons, p.o, "the operation ends in %s", p.o.Why)
			return
		}
		fs := p.failed()
		if p.ok {
			r.Ob(len(fs) == 0, "failure-is-reported", cons, p.o, "the operation reports success although %s", evStr(fs))
		} else {
			why := len(fs) > 0
			for _, e := range p.evs {
				if e.Kind == "futwait" && !p.st.KnownNil(eng.Mk("futerr", "", nil, e.Recv)) {
					why = true
				}
			}
			r.Ob(why, "error-has-cause", cons, p.o, "the operation fails although nothing it needed failed")
		}
	}
	for _, x := range rs {
		for _, p := range x.ps {
			check("Node."+x.op.name, p.path)
			for _, e := range p.proposals {
				waited := false
				for _, f := range p.evs {
					if f.Kind == "futwait" && f.Recv == e.Res[0] {
						waited = true
					}
				}
				r.Ob(waited || p.cut, "waits-for-result", "Node."+x.op.name, p.o, "the operation answers without waiting for the log to commit the entry")
				if p.ok && !p.cut {
					r.Ob(p.st.KnownNil(eng.Mk("futerr", "", nil, e.Res[0])), "failure-is-reported", "Node."+x.op.name+" commit", p.o, "the operation reports success without a check that the entry was committed")
				}
			}
		}
	}
	fn := c.Method("pkg/raft", "Node", "GetQueueInfo")
	if r.Anchor(fn != nil, "raft.Node.GetQueueInfo") {
		for _, p := range paths(fn, r.run(m.e, fn, nil)) {
			check("Node.GetQueueInfo", p)
		}
	}
}

// queueErrors (R04): a failure of storage or of a step fails the queue
// operation.
func (m *queueModel) queueErrors(r *Report) {
	n := 0
	check := func(name string, ps []*path) {
		for _, p := range ps {
			if p.cut {
				continue
			}
			n++
			if p.ok {
				var fs []*eng.Event
				for _, e := range p.failed() {
					fs = append(fs, e)
				}
				r.Ob(len(fs) == 0, "failure-is-reported", name, p.o, "the operation reports success although %s", evStr(fs))
			}
		}
	}
	for _, t := range []string{"BadgerPriorityQueue", "QueueManager"} {
		for _, fn := range m.c.Methods("pkg/queue", t) {
			if !isErrRet(fn) {
				continue
			}
			if t == "QueueManager" {
				check(t+"."+fn.Name(), m.runQM(r, fn.Name()).ps)
			} else {
				check(t+"."+fn.Name(), m.runFn(r, fn).ps)
			}
		}
	}
	r.Ob(n > 30, "instances", "queue operations", nil, "only %d paths of queue operations were found", n)
}
