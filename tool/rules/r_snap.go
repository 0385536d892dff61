package rules

import (
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R05", "Effect analysis of the state machine's snapshot, persist and restore over SSA paths (what is read from storage and written to the sink, what is read from the snapshot and written to storage, what is lost), of what raft is given to keep its log, settings and snapshots in, and of the replay of a command whose effect is stored: enqueue, creation and loading, on every path.", 60, ruleR05)
}

// raftStores: what raft keeps its data in, and the one set of queues.
func (c *Ctx) raftStores(r *Report) {
	fn := c.Method("pkg/raft", "Node", "Initialize")
	if !r.Anchor(fn != nil, "Node.Initialize") {
		return
	}
	fsmT, _ := c.fsm(r)
	if fsmT == nil {
		return
	}
	e := c.exec(r)
	e.Visits = 1
	e.Opaque = func(name string, f *ssa.Function) bool {
		return f != nil && c.InRepo(f) && f.Pkg != nil && f.Pkg.Pkg.Name() == "logger"
	}
	store := c.Named("pkg/badger-store", "BadgerStore")
	qm := c.Named("pkg/queue", "QueueManager")
	if !r.Anchor(store != nil && qm != nil, "types BadgerStore and QueueManager") {
		return
	}
	n := 0
	recv := eng.Sym(fn.Params[0].Name(), fn.Params[0].Type())
	for _, p := range paths(fn, r.run(e, fn, nil)) {
		for _, ev := range p.evs {
			if ev.Kind != "call" || ev.Callee == nil || eng.CanonName(ev.Callee) != raftPkg+".NewRaft" || ev.Failed || len(ev.Args) < 6 {
				continue
			}
			n++
			for i, what := range map[int]string{2: "log", 3: "settings"} {
				t := unboxConv(ev.Args[i])
				pt, _ := t.Typ.(*types.Pointer)
				is := pt != nil && types.Identical(pt.Elem(), store)
				r.Ob(is, "raft-keeps-it", "the "+what, p.o, "raft is given %s to keep its %s in, not the store in the node's database", t, what)
				if is {
					own, db := false, eng.Nil
					s := store.Underlying().(*types.Struct)
					for j := 0; j < s.NumFields(); j++ {
						f := s.Field(j)
						v := strip(p.st.Load(eng.FieldAddr(t, f.Name(), f.Type()), f.Type()))
						if strings.HasSuffix(types.TypeString(f.Type(), nil), "badger/v4.DB") {
							db = v
							own = v.Op == "field" && v.Has(recv)
						}
					}
					r.Ob(own, "raft-keeps-it", "the "+what+"'s database", p.o, "the store given to raft is on %s, not on the node's database", db)
				}
			}
			// the snapshots
			ok := false
			for _, x := range p.evs {
				if x.Kind == "call" && !x.Failed && len(x.Res) > 0 && x.Res[0] == unboxConv(ev.Args[4]) && strings.HasPrefix(eng.CanonName(x.Callee), raftPkg+".NewFileSnapshotStore") {
					ok = len(x.Args) >= 2 && x.Args[0].Has(recv)
					k, isC := eng.Unwrap(x.Args[1]).IntVal()
					r.Ob(isC && k >= 1, "raft-keeps-it", "a snapshot", p.o, "the number of snapshots kept is %s", x.Args[1])
				}
			}
			r.Ob(ok, "raft-keeps-it", "the snapshots", p.o, "raft is given %s for its snapshots, which is not a directory of the node", ev.Args[4])
			// the state machine works on the queues the node serves
			f := unboxConv(ev.Args[1])
			var fq *eng.Term
			s := fsmT.Underlying().(*types.Struct)
			for j := 0; j < s.NumFields(); j++ {
				if x := s.Field(j); types.Identical(x.Type(), types.NewPointer(qm)) {
					r.Ob(!c.mutated()[fieldKey(fsmT, j)], "one-set-of-queues", "the state machine's queues", p.o, "the state machine's %s is replaced while the node goes on serving the ones it started with", x.Name())
					fq = strip(p.st.Load(eng.FieldAddr(f, x.Name(), x.Type()), x.Type()))
				}
			}
			if p.cut {
				continue
			}
			ns := c.Named("pkg/raft", "Node").Underlying().(*types.Struct)
			for j := 0; j < ns.NumFields(); j++ {
				if x := ns.Field(j); types.Identical(x.Type(), types.NewPointer(qm)) {
					v := strip(p.st.Load(eng.FieldAddr(recv, x.Name(), x.Type()), x.Type()))
					r.Ob(fq != nil && v == fq, "one-set-of-queues", "the node's queues", p.o, "the node serves %s, but the log is applied to %s", v, fq)
				}
			}
		}
	}
	r.Ob(n > 0, "raft-keeps-it", "raft", nil, "no path of Node.Initialize starts raft")
}

// changesState: what an event does to the stored or opened queues.
func changesState(e *eng.Event) bool {
	switch e.Kind {
	case "set", "del", "dropprefix", "mapset", "mapdel", "mapclear":
		return !e.Owned
	case "q":
		return qmutates(e)
	case "call":
		if e.Callee == nil {
			return false
		}
		n := eng.CanonName(e.Callee)
		if !strings.HasPrefix(n, "(*"+eng.Badger+".") {
			return false
		}
		switch e.Callee.Name() {
		case "DropAll", "DropPrefix", "Load", "Close", "SetEntry":
			return true
		}
	}
	return false
}

func ruleR05(c *Ctx, r *Report) {
	c.raftStores(r)
	fsmT, apply := c.fsm(r)
	if apply == nil {
		return
	}
	c.snapshot(r, fsmT)
	c.appliedOnce(r, apply)

	// replaying a command whose effect is stored
	r.Only(func() { table["Q01"].Run(c, r) }, "ready-entry-once", "ready-entry-values", "-instances")
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	r.Only(func() { m.managerRules(r) }, "existing-untouched", "existing-returned", "-instances")
	r.Only(func() { table["Q09"].Run(c, r) }, "-instances")
}

// snapshot decides the three steps of a snapshot.
func (c *Ctx) snapshot(r *Report, fsmT *types.Named) {
	tn := fsmT.Obj().Name()
	sn := c.Method("pkg/raft", tn, "Snapshot")
	re := c.Method("pkg/raft", tn, "Restore")
	if !r.Anchor(sn != nil && re != nil, "Snapshot and Restore of the state machine") {
		return
	}
	run := func(fn *ssa.Function) []*path {
		e := c.exec(r)
		st := eng.NewState()
		var as []*eng.Term
		for _, p := range fn.Params {
			t := eng.Sym(p.Name(), p.Type())
			st.Assume(eng.IsNil(t), false)
			as = append(as, t)
		}
		return paths(fn, r.run(e, fn, st, as...))
	}
	// taking one: an object, and nothing changes
	var snapT *types.Named
	for _, p := range run(sn) {
		if p.cut {
			r.Ob(false, "snapshot-harmless", "Snapshot", p.o, "taking a snapshot ends in %s", p.o.Why)
			continue
		}
		for _, e := range p.evs {
			r.Ob(!changesState(e), "snapshot-harmless", "Snapshot", p.o, "taking a snapshot changes the queues: %s", e)
		}
		if !p.ok {
			r.Ob(p.explained(false), "snapshot-can-be-taken", "Snapshot", p.o, "a snapshot is refused although nothing failed")
			continue
		}
		ret := unboxConv(p.o.Ret[0])
		r.Ob(!p.st.KnownNil(ret) && ret.Op != "nil", "snapshot-can-be-taken", "Snapshot", p.o, "the snapshot is no object")
		if t := ret.Typ; t != nil {
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				snapT = n
			}
		}
	}
	if !r.Anchor(snapT != nil, "the snapshot's type") {
		return
	}
	pe := c.Method("pkg/raft", snapT.Obj().Name(), "Persist")
	if !r.Anchor(pe != nil, "Persist of the snapshot") {
		return
	}
	sink := eng.Sym(pe.Params[1].Name(), pe.Params[1].Type())
	onSink := func(e *eng.Event, m string) bool {
		return e.Kind == "call" && (e.Recv == sink && strings.HasSuffix(e.Name, "."+m) || m == "Write" && e.Recv != sink && argHas(e, sink))
	}
	holds := false
	for _, p := range run(pe) {
		if p.cut {
			r.Ob(p.o.Exit == eng.Cut, "snapshot-harmless", "Persist", p.o, "writing a snapshot ends in %s", p.o.Why)
			continue
		}
		wrote, read, closed, cancelled := 0, false, false, false
		for _, e := range p.evs {
			r.Ob(!changesState(e), "snapshot-harmless", "Persist", p.o, "writing a snapshot changes the queues: %s", e)
			switch {
			case onSink(e, "Write"):
				wrote++
				if e.Failed {
					r.Ob(!p.ok, "snapshot-complete", "Persist", p.o, "a snapshot whose write failed is reported as written")
				}
			case onSink(e, "Close"):
				closed = true
			case onSink(e, "Cancel"):
				cancelled = true
			case e.Kind == "iter" || e.Kind == "get" || e.Kind == "call" && strings.Contains(e.Name, "badger/v4.DB).Backup"):
				read = true
			}
		}
		if !p.ok {
			continue
		}
		if wrote > 0 && read {
			holds = true
			r.Ob(closed && !cancelled, "snapshot-complete", "Persist", p.o, "a snapshot that was written is not closed")
			for _, e := range p.failed() {
				r.Ob(e.Kind == "get" && e.Name == "notfound", "snapshot-complete", "Persist", p.o, "the snapshot is reported as written although %s", e)
			}
		}
	}
	r.Ob(holds, "snapshot-holds-state", "Persist", nil, "no path of writing a snapshot reads the queues and writes to the snapshot: every snapshot is empty")
	restores := false
	rc := eng.Sym(re.Params[1].Name(), re.Params[1].Type())
	for _, p := range run(re) {
		if p.cut {
			r.Ob(p.o.Exit == eng.Cut, "restore-harmless", "Restore", p.o, "restoring ends in %s", p.o.Why)
			continue
		}
		reads, sets, lost := false, false, []*eng.Event(nil)
		for _, e := range p.evs {
			switch {
			case e.Kind == "call" && (e.Recv == rc && !strings.HasSuffix(e.Name, ".Close") || argHas(e, rc)), e.Kind == "jsondecode" && (argHas(e, rc) || e.Recv != nil && e.Recv.Has(rc)):
				reads = true
			}
			if !changesState(e) {
				continue
			}
			if e.Kind == "set" || e.Kind == "call" && e.Callee.Name() == "Load" {
				sets = true
			} else {
				lost = append(lost, e)
			}
		}
		if p.ok && reads && sets {
			restores = true
			continue
		}
		r.Ob(len(lost) == 0, "restore-harmless", "Restore", p.o, "restoring removes the node's queues and puts nothing in their place: %s", evStr(lost))
	}
	r.Ob(restores, "restore-replaces-state", "Restore", nil, "no path of restoring reads the snapshot and writes the queues: a node that is sent a snapshot keeps the queues it has")
}

func argHas(e *eng.Event, t *eng.Term) bool {
	for _, a := range e.Args {
		if a.Has(t) {
			return true
		}
	}
	return false
}

// appliedOnce: the state machine knows which entries it has applied: the index
// of an entry takes part in what is done.
func (c *Ctx) appliedOnce(r *Report, apply *ssa.Function) {
	nm := newNodeModel(c, r)
	if nm == nil {
		return
	}
	st := eng.NewState()
	log := eng.Sym("$log", apply.Params[1].Type())
	fsm := eng.Sym("$fsm", types.NewPointer(nm.fsmT))
	st.Assume(eng.IsNil(fsm), false)
	st.Assume(eng.IsNil(log), false)
	uses := false
	for _, p := range paths(apply, r.run(nm.e, apply, st, fsm, log)) {
		p.st.FactTerms(func(a *eng.Term, v bool) {
			a.Contains(func(t *eng.Term) bool {
				if t.Op == "field" && t.Aux == "Index" && t.Args[0] == log {
					uses = true
				}
				return false
			})
		})
	}
	r.Ob(uses, "applied-once", "state machine", nil, "the state machine keeps no record of the entries it has applied: after a restart every entry since the last snapshot is applied to the stored queues again")
}
