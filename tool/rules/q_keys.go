package rules

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// --- Q10: keys ----------------------------------------------------------------

// keyShape renders a key with its variable parts abstracted: literal text,
// fixed-width numbers <8>, one-byte parts <1>, and * for anything else.
func keyShape(k *eng.Term) (lit string, shape string, vars []*eng.Term) {
	parts := []*eng.Term{k}
	if k.Op == "concat" {
		parts = k.Args
	}
	for i, p := range parts {
		if s, ok := p.StrVal(); ok {
			if i == 0 {
				lit = s
			}
			shape += s
			continue
		}
		switch p.Op {
		case "be64", "le64":
			shape += "<8>"
		case "byte":
			shape += "<1>"
		default:
			shape += "*"
			vars = append(vars, p)
		}
	}
	return
}

// badgerCalls: does the function itself call the database's key operations?
func badgerCalls(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := ci.Common().StaticCallee()
			if f == nil {
				continue
			}
			n := f.String()
			if !strings.HasPrefix(n, eng.BadgerT) {
				continue
			}
			switch n[strings.LastIndex(n, ".")+1:] {
			case "Set", "SetEntry", "SetEntryAt", "Delete", "DeleteAt", "Get", "Seek", "DropPrefix", "DropPrefixBlocking", "DropPrefixNonBlocking", "DropAll", "NewKeyIterator", "Load", "Subscribe", "Backup", "NewStream":
				return true
			}
		}
	}
	return false
}

func ruleQ10(c *Ctx, r *Report) {
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	key := m.msgKey(r)
	if key == nil {
		return
	}
	qc := c.Named("pkg/queue", "QueueConfig")
	if !r.Anchor(qc != nil, "type queue.QueueConfig") {
		return
	}
	reach := c.Reachable()
	var need []*ssa.Function
	for _, f := range c.ReachableFuncs() {
		if badgerCalls(f) {
			need = append(need, f)
		}
	}
	r.Anchor(len(need) >= 8, "the functions that touch storage keys")
	covered := map[*ssa.Function]bool{}
	shapes := map[string]map[string]string{} // leading literal -> shape -> where
	addShape := func(p *path, fn string, k *eng.Term) {
		lit, shape, vars := keyShape(k)
		if !r.Ob(lit != "", "kind-literal", fn, p.o, "a storage key does not begin with a literal that names its kind: %s", k) {
			return
		}
		r.Ob(len(vars) <= 1, "one-variable-part", fn, p.o, "a storage key has more than one part of variable length, so two different ones can be equal: %s", k)
		if shapes[lit] == nil {
			shapes[lit] = map[string]string{}
		}
		shapes[lit][shape] = fn
	}
	entries := map[*ssa.Function]bool{}
	for _, t := range [][2]string{{"pkg/queue", "BadgerPriorityQueue"}, {"pkg/badger-store", "BadgerStore"}} {
		for _, f := range c.Methods(t[0], t[1]) {
			if reach[f] {
				entries[f] = true
			}
		}
	}
	// everything else that touches keys and is not a closure
	for _, f := range need {
		if f.Parent() == nil && f.Signature.Recv() == nil {
			entries[f] = true
		}
	}
	var fns []*ssa.Function
	for f := range entries {
		fns = append(fns, f)
	}
	// a helper that is only ever called from what has been analysed is judged
	// with what its callers give it
	helper := func(f *ssa.Function) bool {
		cs := c.callersOf(f)
		return !token.IsExported(f.Name()) && f.Parent() == nil && len(cs) > 0 && !c.usedAsValue(f)
	}
	sort.Slice(fns, func(i, j int) bool {
		if a, b := helper(fns[i]), helper(fns[j]); a != b {
			return b
		}
		return fns[i].String() < fns[j].String()
	})
	judged := func(f *ssa.Function) bool {
		if !helper(f) || !covered[f] {
			return false
		}
		for _, g := range c.callersOf(f) {
			if !covered[g] {
				return false
			}
		}
		return true
	}
	for _, f := range fns {
		if judged(f) {
			continue
		}
		e := c.exec(r)
		m.install(e)
		isQ := f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), types.NewPointer(m.bpq))
		if !isQ {
			e.Widen = true
		}
		outs := r.run(e, f, nil)
		n := funcName(f)
		for g := range e.Inlined {
			covered[g] = true
		}
		covered[f] = true
		x := &bpqRun{m: m, fn: f}
		for _, p := range paths(f, outs) {
			own := key
			if isQ {
				cfgT := types.NewPointer(qc)
				cfg := p.st.Load(eng.FieldAddr(x.arg(0), "config", cfgT), cfgT)
				if cfg.Op == "alloc" || cfg.Op == "decoded" {
					own = x.loadKey(p, key, p.st.Value(cfg))
				}
			}
			ownName := func(v *eng.Term) bool {
				v = strip(v)
				if v.Op == "field" && v.Aux == "Name" {
					b := v.Args[0]
					if b.Op == "decoded" {
						return types.Identical(b.Typ, qc)
					}
					return x.norm(v) == configName(key)
				}
				// the name a queue is created or loaded under
				if v.Op == "sym" && (f.Name() == "Create" || f.Name() == "Load") {
					for i := 1; i < len(f.Params); i++ {
						if v == x.arg(i) {
							return true
						}
					}
				}
				return false
			}
			for _, ev := range p.evs {
				switch ev.Kind {
				case "dropprefix":
					r.Ob(false, "no-prefix-delete", n, p.o, "everything under a prefix is deleted: records of other queues can be under it")
				case "set", "get", "del":
					k := ev.Args[0]
					if k.Op == "iterkey" {
						if ev.Kind == "set" {
							continue
						}
						if isQ && ev.Kind == "del" {
							is, known := x.ownLen(p, k, own(eng.Int(0)))
							r.Ob(known && is, "own-keys-only", n, p.o, "a record found under the queue's prefix is deleted without knowing that it is one of this queue's: another queue's name can begin with this one's and a colon")
						}
						continue
					}
					addShape(p, n, k)
					_, _, vars := keyShape(k)
					if isQ {
						for _, v := range vars {
							r.Ob(ownName(v), "own-name", n, p.o, "a queue's record is kept under %s, not the queue's own name", v)
						}
					}
				}
			}
			for _, s := range p.scans() {
				if s.prefix == nil {
					r.Ob(len(s.iters) == 0, "bounded-scan", n, p.o, "records are scanned from no prefix")
					continue
				}
				lit, _, vars := keyShape(s.prefix)
				// a scan that goes on after a key it found before
				resumed := s.prefix.Op == "iterkey" || s.prefix.Op == "concat" && s.prefix.Args[0].Op == "iterkey"
				within := lit != "" || resumed
				for _, g := range s.guards {
					gl, _, _ := keyShape(g)
					// a scan backwards starts behind what it looks for
					back := s.opts != nil && optTrue(s.opts, "Reverse")
					within = (within || resumed) && gl != "" && (resumed || back || strings.HasPrefix(lit, gl))
				}
				r.Ob(within && (s.bounded || len(s.guards) > 0), "bounded-scan", n, p.o, "a scan starts at %s and does not stop at the end of that prefix", s.prefix)
				if isQ {
					for _, v := range vars {
						r.Ob(ownName(v), "own-name", n, p.o, "a queue scans under %s, not its own name", v)
					}
				}
			}
			if isQ {
				for _, a := range p.q("", "Enqueue") {
					id := strip(a.Args[1])
					if id.Op == "field" && id.Args[0].Op == "decoded" {
						src := strip(id.Args[0].Args[0])
						if src.Op == "stored" && src.Args[0].Op == "iterkey" {
							is, known := x.ownLen(p, src.Args[0], own(eng.Int(0)))
							r.Ob(known && is, "own-keys-only", n, p.o, "a message found under the queue's prefix is taken without knowing that it is one of this queue's: another queue's name can begin with this one's and a colon")
						}
					}
				}
			}
		}
	}
	for _, f := range need {
		g := f
		for g.Parent() != nil && !covered[g] {
			g = g.Parent()
		}
		r.ObAt(covered[g], "covered", funcName(f), f.Pos(), "a function that touches storage keys is not analysed")
	}
	// kinds are told apart by their leading literals
	var lits []string
	for l := range shapes {
		lits = append(lits, l)
	}
	sort.Strings(lits)
	r.Anchor(len(lits) >= 4, "the four kinds of keys")
	for i, a := range lits {
		for j, b := range lits {
			if i != j {
				r.Ob(!strings.HasPrefix(b, a), "kinds-apart", a, nil, "keys of kind %q can be taken for keys of kind %q", b, a)
			}
		}
		var ss []string
		for s := range shapes[a] {
			ss = append(ss, s+" ("+shapes[a][s]+")")
		}
		sort.Strings(ss)
		r.Ob(len(ss) == 1, "one-shape-per-kind", a, nil, "keys of kind %q are formed in different ways: %s", a, strings.Join(ss, ", "))
	}
}

// configName is the queue's own name as message keys contain it.
func configName(key func(*eng.Term) *eng.Term) *eng.Term {
	_, _, vars := keyShape(key(eng.Int(0)))
	if len(vars) == 1 {
		return vars[0]
	}
	return nil
}

// --- Q11: create and delete -----------------------------------------------------

func ruleQ11(c *Ctx, r *Report) {
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	key := m.msgKey(r)
	if key == nil {
		return
	}
	qc := c.Named("pkg/queue", "QueueConfig")
	if !r.Anchor(qc != nil, "type queue.QueueConfig") {
		return
	}
	qkey := m.createRule(r, qc, key)
	if qkey != nil {
		m.deleteRule(r, qkey, key)
	}
	m.managerRules(r)
}

// createRule decides BadgerPriorityQueue.Create and returns the queue record's
// key as a function of the name.
func (m *queueModel) createRule(r *Report, qc *types.Named, key func(*eng.Term) *eng.Term) func(*eng.Term) *eng.Term {
	x := m.runMethod(r, "Create")
	if x == nil {
		return nil
	}
	n := "Create"
	typ, name := x.arg(1), x.arg(2)
	var qk *eng.Term
	oks := 0
	for _, p := range x.ps {
		if p.cut {
			r.Ob(p.o.Exit == eng.Cut, "no-panic", n, p.o, "creating a queue ends abnormally: %s", p.o.Why)
			continue
		}
		gos := p.kind("go")
		if !p.ok {
			r.Ob(len(gos) == 0, "failed-create-no-tasks", n, p.o, "a create that fails leaves background tasks running")
			r.Ob(len(p.eff) == 0, "failed-create-no-record", n, p.o, "a create that fails leaves a record: %s", evStr(p.eff))
			r.Ob(p.explained(false), "refusal-explained", n, p.o, "creating a queue fails although nothing failed")
			continue
		}
		oks++
		for _, e := range p.failed() {
			r.Ob(false, "errors-reported", n, p.o, "creating a queue succeeds although %s", e)
		}
		if !r.Ob(len(p.eff) == 1 && p.eff[0].Kind == "set", "record-stored", n, p.o, "a successful create commits %d records: %s", len(p.eff), evStr(p.eff)) {
			continue
		}
		w := p.eff[0]
		_, _, vars := keyShape(w.Args[0])
		r.Ob(len(vars) == 1 && strip(vars[0]) == name, "record-key", n, p.o, "the queue's record is stored under %s, not under its name", w.Args[0])
		qk = w.Args[0]
		v := w.Args[1]
		d, dok := m.decodedBack(r, v, qc)
		if !r.Ob(dok, "record-content", n, p.o, "what is stored cannot be read back as a queue's configuration: %s", v) {
			continue
		}
		for _, f := range []struct {
			n string
			t *eng.Term
		}{{"Name", name}, {"Type", typ}} {
			got := strip(eng.Field(d, f.n, types.Typ[types.String]))
			r.Ob(got == f.t, "record-content", n, p.o, "the stored record reads back with %s = %s", f.n, got)
		}
		commit := -1
		for _, e := range p.evs {
			if e.Kind == "commit" && !e.Failed {
				commit = e.Seq
			}
		}
		for _, g := range gos {
			r.Ob(commit >= 0 && commit < g.Seq, "record-before-tasks", n, p.o, "a background task starts before the queue's record is committed")
		}
		r.Ob(len(gos) >= 1, "tasks-started", n, p.o, "a created queue has no background task")
		m.kindByType(r, x, p, n, typ)
		// the name it works under from now on
		cfgT := types.NewPointer(qc)
		cfg := p.st.Load(eng.FieldAddr(x.arg(0), "config", cfgT), cfgT)
		cv := p.st.Value(cfg)
		got := strip(eng.Field(cv, "Name", types.Typ[types.String]))
		r.Ob(got == name, "works-under-its-name", n, p.o, "the created queue works under the name %s", got)
		gt := strip(eng.Field(cv, "Type", types.Typ[types.String]))
		r.Ob(gt == typ, "works-as-its-type", n, p.o, "the created queue works as type %s", gt)
	}
	r.Ob(oks > 0, "can-succeed", n, nil, "no path creates a queue")
	if qk == nil {
		return nil
	}
	return func(nm *eng.Term) *eng.Term {
		return eng.Subst(qk, func(t *eng.Term) *eng.Term {
			if t == name {
				return nm
			}
			return nil
		})
	}
}

// decodedBack is what reading a written value back gives.
func (m *queueModel) decodedBack(r *Report, v *eng.Term, typ *types.Named) (*eng.Term, bool) {
	v = strip(v)
	if v.Op != "jsonbytes" {
		return nil, false
	}
	return m.c.exec(r).JSONDecode(v.Args[0], typ)
}

func (m *queueModel) deleteRule(r *Report, qkey, key func(*eng.Term) *eng.Term) {
	x := m.runMethod(r, "Delete")
	if x == nil {
		return
	}
	n := "Delete"
	own := configName(key)
	recv := x.arg(0)
	stops := x.quitChannels(r)
	oks, deeper := 0, 0
	for _, p := range x.ps {
		if p.cut {
			r.Ob(p.o.Exit == eng.Cut, "no-panic", n, p.o, "deleting a queue ends abnormally: %s", p.o.Why)
			continue
		}
		closes := p.kind("close")
		if !p.ok {
			r.Ob(len(p.eff) == 0, "failed-delete-keeps-records", n, p.o, "a delete that fails removes records: %s", evStr(p.eff))
			r.Ob(len(closes) == 0, "failed-delete-stays-usable", n, p.o, "a delete that fails stops a background task of the queue")
			r.Ob(len(p.qchanges("")) == 0, "failed-delete-keeps-entries", n, p.o, "a delete that fails changes the queue")
			r.Ob(p.explained(false) || nilConfig(p), "refusal-explained", n, p.o, "deleting a queue fails although nothing failed")
			continue
		}
		oks++
		for _, e := range p.failed() {
			r.Ob(false, "errors-reported", n, p.o, "deleting a queue succeeds although %s", e)
		}
		txns := map[*eng.Term]bool{}
		recs := 0
		got := map[*eng.Term]bool{}
		for _, e := range p.eff {
			txns[e.Recv] = true
			k := e.Args[0]
			switch {
			case e.Kind != "del":
				r.Ob(false, "only-deletes", n, p.o, "deleting a queue writes: %s", e)
			case x.norm(k) == qkey(own):
				recs++
			case k.Op == "iterkey":
				r.Ob(!got[k], "each-once", n, p.o, "a message is deleted twice")
				got[k] = true
				if a := e.Args[1]; a.Op == "aliased" {
					r.Ob(false, "key-outlives-iteration", n, p.o, "the key given to the transaction is only valid until the next step of the scan: the transaction deletes other keys instead")
				}
			default:
				r.Ob(false, "only-own-records", n, p.o, "deleting a queue deletes %s", k)
			}
		}
		r.Ob(recs == 1, "record-deleted", n, p.o, "the queue's record is deleted %d times", recs)
		r.Ob(len(txns) == 1, "one-transaction", n, p.o, "the record and the messages are deleted in %d transactions: a crash in between leaves a part", len(txns))
		ss := p.scans()
		if r.Ob(len(ss) == 1, "messages-scanned", n, p.o, "the queue's messages are scanned %d times", len(ss)) {
			s := ss[0]
			r.Ob(s.prefix != nil && x.norm(s.prefix) == prefixOf(key(eng.Int(0))), "scan-start", n, p.o, "the scan starts at %s, not at the prefix of the queue's messages", s.prefix)
			r.Ob(s.bounded && s.ended, "scan-complete", n, p.o, "the scan does not run to the end of the queue's messages")
			r.Ob(!optTrue(s.opts, "Reverse"), "scan-options", n, p.o, "the scan goes backwards")
			r.Ob(txns[s.txn], "scan-in-transaction", n, p.o, "the messages are looked for outside of the transaction that deletes them")
			for _, k := range s.iters {
				is, known := x.ownLen(p, k, key(eng.Int(0)))
				if known && !is {
					r.Ob(!got[k], "own-keys-only", n, p.o, "another queue's message is deleted")
					continue
				}
				deeper++
				r.Ob(got[k], "message-deleted", n, p.o, "a message of the queue is not deleted")
			}
		}
		for _, s := range stops {
			cnt := 0
			for _, e := range closes {
				if x.norm(strip(e.Recv)) == s {
					cnt++
				}
			}
			// a send also ends a task that listens
			r.Ob(cnt == 1, "tasks-stopped", n, p.o, "deleting a queue closes the quit channel %s of its background task %d times", s, cnt)
		}
		commit := -1
		for _, e := range p.evs {
			if e.Kind == "commit" && !e.Failed {
				commit = e.Seq
			}
		}
		for _, e := range closes {
			r.Ob(commit >= 0 && commit < e.Seq, "stopped-after-commit", n, p.o, "a background task is stopped before the delete is committed")
		}
	}
	_ = recv
	r.Ob(oks > 0, "can-succeed", n, nil, "no path deletes a queue")
	r.Ob(deeper > 0, "messages-found", n, nil, "no path finds a message to delete")
}

// nilConfig: the path knows that the queue was never created or loaded.
func nilConfig(p *path) bool {
	hit := false
	p.st.FactTerms(func(a *eng.Term, v bool) {
		if v && a.Op == "bin" && a.Aux == "==" && (a.Args[0].Op == "nil" && a.Args[1].Op == "field" || a.Args[1].Op == "nil" && a.Args[0].Op == "field") {
			hit = true
		}
	})
	return hit
}

// quitChannels lists the channels the background tasks of a created queue end on.
func (x *bpqRun) quitChannels(r *Report) []*eng.Term {
	m := x.m
	y := m.runMethod(r, "Create")
	if y == nil {
		return nil
	}
	seen := map[*eng.Term]bool{}
	var res []*eng.Term
	tasks := 0
	done := map[*ssa.Function]bool{}
	for _, p := range y.ps {
		if p.cut || !p.ok {
			continue
		}
		for _, g := range p.kind("go") {
			if done[g.Callee] {
				continue
			}
			recv := y.arg(0)
			fn := g.Callee
			if fn == nil || !m.c.InRepo(fn) {
				r.Ob(false, "known-task", "Create", p.o, "a background task of the queue cannot be identified: %s", g)
				continue
			}
			done[fn] = true
			tasks++
			// the receiver as a queue made earlier: unknown state
			e := m.c.exec(r)
			e.Visits = 1
			m.install(e)
			var args []*eng.Term
			for _, a := range g.Args[1:] {
				args = append(args, fieldForm(p, recv, a))
			}
			ends := map[*eng.Term]bool{}
			e.RunFunc(g.Args[0], p.st.Spawn(recv), args, func(st *eng.State, ret []*eng.Term, xx eng.Exit, why string, pos token.Pos) {
				if xx != eng.Return {
					return
				}
				var last *eng.Event
				for _, ev := range st.Events() {
					if ev.Kind == "recv" {
						last = ev
					}
				}
				if last != nil && !timerChan(st, last.Recv) {
					ends[last.Recv] = true
				}
			})
			r.Ob(len(ends) > 0, "task-ends", funcName(fn), nil, "the background task never ends")
			for ch := range ends {
				ch = y.norm(ch)
				if !seen[ch] {
					seen[ch] = true
					res = append(res, ch)
				}
			}
		}
	}
	r.Ob(tasks >= 2, "tasks-known", "Create", nil, "only %d background tasks were found", tasks)
	return res
}

// fieldForm expresses a value of the path as a field of the receiver, if the
// receiver holds it by the end.
func fieldForm(p *path, recv, v *eng.Term) *eng.Term {
	if v == recv {
		return v
	}
	pt, ok := recv.Typ.(*types.Pointer)
	if !ok {
		return v
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return v
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if p.st.Load(eng.FieldAddr(recv, f.Name(), f.Type()), f.Type()) == v {
			return eng.Field(eng.Mk("deref", "", pt.Elem(), recv), f.Name(), f.Type())
		}
	}
	return v
}

func (m *queueModel) managerRules(r *Report) {
	if x := m.runQM(r, "Create"); x != nil {
		n := "QueueManager.Create"
		typ, name := x.arg(1), x.arg(2)
		oks := 0
		for _, p := range x.ps {
			if p.cut {
				continue
			}
			have, known := x.lookup(p, name)
			if !r.Ob(known, "looked-up", n, p.o, "the queue is not looked up by its name") {
				continue
			}
			ch := x.kept(p)
			ret := p.o.Ret[0]
			if have {
				r.Ob(p.ok && len(ch) == 0 && len(p.eff) == 0 && len(p.kind("go")) == 0, "existing-untouched", n, p.o, "creating a queue that exists changes something or fails: %s %s", evStr(ch), evStr(p.eff))
				r.Ob(ret.Op == "mapget" && x.isMap(ret.Args[0]) && ret.Args[1] == strip(name), "existing-returned", n, p.o, "%s is returned instead of the existing queue", ret)
				continue
			}
			if !p.ok {
				r.Ob(len(ch) == 0, "failed-create-not-kept", n, p.o, "a queue whose creation failed is kept: %s", evStr(ch))
				r.Ob(p.explained(false), "refusal-explained", n, p.o, "creating a queue fails although nothing failed")
				continue
			}
			oks++
			for _, e := range p.failed() {
				if e.Kind == "get" && e.Name == "notfound" {
					continue
				}
				r.Ob(false, "errors-reported", n, p.o, "a queue is created although %s", e)
			}
			r.Ob(len(ch) == 1 && ch[0].Kind == "mapset" && strip(ch[0].Args[0]) == strip(name) && ch[0].Args[1] == ret, "created-kept", n, p.o, "the created queue is not kept under its name and returned: %s", evStr(ch))
			sets := 0
			for _, e := range p.eff {
				if e.Kind == "set" {
					_, _, vars := keyShape(e.Args[0])
					if len(vars) == 1 && strip(vars[0]) == strip(name) {
						sets++
						d, dok := m.decodedBack(r, e.Args[1], m.c.Named("pkg/queue", "QueueConfig"))
						r.Ob(dok && strip(eng.Field(d, "Type", types.Typ[types.String])) == strip(typ), "type-stored", n, p.o, "the stored record is %s", e.Args[1])
					}
				}
			}
			if sets == 0 {
				// an already stored queue was opened instead
				loaded := false
				for _, e := range p.kind("get") {
					if !e.Failed {
						loaded = true
					}
				}
				r.Ob(loaded, "record-stored", n, p.o, "a created queue has no record")
				continue
			}
			// the record it overwrites
			checked := false
			for _, e := range p.kind("get") {
				if e.Failed && e.Name == "notfound" {
					checked = true
				}
			}
			r.Ob(checked, "create-checks-storage", n, p.o, "a queue that is stored but not opened since the start is created anew: its record is overwritten and its messages are not loaded")
		}
		r.Ob(oks > 0, "can-succeed", n, nil, "no path creates a queue")
	}
	if x := m.runQM(r, "Delete"); x != nil {
		n := "QueueManager.Delete"
		name := x.arg(1)
		oks := 0
		for _, p := range x.ps {
			if p.cut {
				r.Ob(p.o.Exit == eng.Cut, "no-panic", n, p.o, "deleting a queue ends abnormally: %s", p.o.Why)
				continue
			}
			ch := x.kept(p)
			have, known := x.lookup(p, name)
			if !r.Ob(known, "looked-up", n, p.o, "the queue is not looked up by its name") {
				continue
			}
			if !have {
				miss := false
				for _, e := range p.kind("get") {
					if e.Failed {
						miss = true
					}
				}
				if miss {
					r.Ob(!p.ok, "unknown-is-error", n, p.o, "deleting an unknown queue succeeds")
				}
			}
			if !p.ok {
				r.Ob(len(ch) == 0, "failed-delete-kept", n, p.o, "a queue whose delete failed is forgotten: %s", evStr(ch))
				r.Ob(len(p.eff) == 0, "failed-delete-keeps-records", n, p.o, "a delete that fails removes records: %s", evStr(p.eff))
				continue
			}
			oks++
			ok := len(ch) == 1 && ch[0].Kind == "mapdel" && strip(ch[0].Args[0]) == strip(name)
			r.Ob(ok || !have && len(ch) == 0, "forgotten", n, p.o, "a deleted queue is not forgotten: %s", evStr(ch))
			recs := 0
			for _, e := range p.eff {
				if e.Kind == "del" && e.Args[0].Op != "iterkey" {
					recs++
				}
			}
			r.Ob(recs == 1, "record-deleted", n, p.o, "a successful delete removes %d queue records", recs)
		}
		r.Ob(oks > 0, "can-succeed", n, nil, "no path deletes a queue")
	}
}

// --- Q12: one critical section ---------------------------------------------------

func ruleQ12(c *Ctx, r *Report) {
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	// operations: every method of the queue that changes or reads both sides
	ops := 0
	for _, f := range c.Methods("pkg/queue", "BadgerPriorityQueue") {
		if !ast.IsExported(f.Name()) || !c.calledFromOutside(f) {
			continue
		}
		x := m.runFn(r, f)
		acts := 0
		for _, p := range x.ps {
			acts += m.oneSection(r, funcName(f), p.o, p.evs, x.arg(0), false)
		}
		if acts > 0 {
			ops++
		}
	}
	r.Ob(ops >= 7, "operations-known", "BadgerPriorityQueue", nil, "only %d operations that move messages were found", ops)
	// background redelivery
	y := m.runMethod(r, "Create")
	if y == nil {
		return
	}
	mons := 0
	done := map[*ssa.Function]bool{}
	for _, p := range y.ps {
		if p.cut || !p.ok {
			continue
		}
		for _, ev := range p.kind("go") {
			if ev.Callee == nil || done[ev.Callee] {
				continue
			}
			done[ev.Callee] = true
			t := m.runTask(r, p, ev, y.arg(0))
			if t == nil || !t.isMonitor() {
				continue
			}
			mons++
			for i := range t.outs {
				o := &t.outs[i]
				m.oneSection(r, t.fn.Name(), o, o.St.Events(), y.arg(0), true)
			}
		}
	}
	r.Ob(mons == 1, "redelivery-known", "Create", nil, "%d redelivery tasks were found", mons)
}

// oneSection: all effects between two ticks (or of the whole operation) lie in
// one critical section of the queue's lock. Returns the number of effects.
func (m *queueModel) oneSection(r *Report, n string, o *eng.Outcome, evs []*eng.Event, recv *eng.Term, ticks bool) int {
	acts := 0
	var section *eng.Event // the lock event of the section the effects are in
	var cur *eng.Event
	depth := map[*eng.Term]*eng.Event{}
	moved := false
	for _, e := range evs {
		switch {
		case ticks && e.Kind == "recv":
			section, moved = nil, false
		case e.Kind == "lock" && ownLock(e.Recv, recv):
			depth[e.Recv] = e
			cur = e
		case e.Kind == "unlock" && ownLock(e.Recv, recv):
			delete(depth, e.Recv)
			cur = nil
		case e.Kind == "q" && e.Role != "?" && (qmutates(e) || e.Name == "GetByID" || e.Name == "Dequeue"), e.Kind == "commit", e.Kind == "get", e.Kind == "set", e.Kind == "del":
			acts++
			if cur == nil || cur.Name != "W" && qmutates2(e) {
				// reading a record alone is a single step
				if e.Kind == "get" && !hasMoves(evs) {
					continue
				}
				r.Ob(false, "under-lock", n, o, "%s happens without the queue's exclusive lock", e)
				continue
			}
			r.Ob(true, "under-lock", n, o, "")
			if section == nil {
				section = cur
			}
			r.Ob(section == cur, "one-section", n, o, "the lock is released between %s and what the operation did before", e)
			_ = moved
		}
	}
	return acts
}

func qmutates2(e *eng.Event) bool {
	return e.Kind != "q" || qmutates(e)
}

func hasMoves(evs []*eng.Event) bool {
	for _, e := range evs {
		if e.Kind == "q" && qmutates(e) || e.Kind == "set" || e.Kind == "del" {
			return true
		}
	}
	return false
}

func ownLock(l, recv *eng.Term) bool {
	return l != nil && l.Op == "fieldaddr" && l.Args[0] == recv
}
