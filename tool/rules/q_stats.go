package rules

import (
	"go/types"
	"sort"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("Q13", "Path-sensitive effect analysis and value tracking of statistics: the four operations' counter increments per outcome, the flow from counter to history to reported rate over all loop exits, the sizes read in one critical section, and the exported counters and gauges by registered metric name.", 40, ruleQ13)
}

// statOps are the operations that are counted.
var statOps = []string{"Enqueue", "Dequeue", "Ack", "Nack"}

func ruleQ13(c *Ctx, r *Report) {
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	counter := m.opCounters(r)
	hist := m.windowRule(r)
	m.statsRule(r, counter, hist)
	m.metricRule(r)
	m.windowCtor(r, hist)
}

// atomicField is the field an atomic operation works on.
func atomicField(e *eng.Event) string {
	a := e.Recv
	if a != nil && a.Op == "fieldaddr" {
		return a.Aux
	}
	return ""
}

// opCounters: which counter each operation increments.
func (m *queueModel) opCounters(r *Report) map[string]string {
	res := map[string]string{}
	counted := map[string]bool{}
	for _, n := range statOps {
		counted[n] = true
	}
	for _, f := range m.c.Methods("pkg/queue", "BadgerPriorityQueue") {
		if !m.c.Reachable()[f] || !counted[f.Name()] && !m.c.calledFromOutside(f) {
			continue
		}
		x := m.runFn(r, f)
		n := f.Name()
		for _, p := range x.ps {
			if p.cut {
				continue
			}
			var adds []*eng.Event
			for _, e := range p.kind("atomic") {
				if e.Name == "add" || e.Name == "store" || e.Name == "swap" || e.Name == "cas" {
					adds = append(adds, e)
				}
			}
			if !counted[n] {
				r.Ob(len(adds) == 0, "not-counted", n, p.o, "an operation that is none of enqueue, dequeue, ack and nack changes a counter: %s", evStr(adds))
				continue
			}
			if !p.ok {
				r.Ob(len(adds) == 0, "failure-not-counted", n, p.o, "an operation that fails is counted: %s", evStr(adds))
				continue
			}
			if !r.Ob(len(adds) == 1 && adds[0].Name == "add", "counted-once", n, p.o, "a successful operation changes %d counters: %s", len(adds), evStr(adds)) {
				continue
			}
			one, isInt := strip(adds[0].Args[len(adds[0].Args)-1]).IntVal()
			r.Ob(isInt && one == 1, "counted-once", n, p.o, "a successful operation counts %s", adds[0].Args[len(adds[0].Args)-1])
			f := atomicField(adds[0])
			r.Ob(f != "" && (res[n] == "" || res[n] == f), "one-counter", n, p.o, "the operation uses the counters %s and %s", res[n], f)
			res[n] = f
		}
	}
	for i, a := range statOps {
		r.Ob(res[a] != "", "counter-known", a, nil, "no counter of %s was found", a)
		for _, b := range statOps[i+1:] {
			r.Ob(res[a] == "" || res[a] != res[b], "own-counter", a+"/"+b, nil, "%s and %s share the counter %s", a, b, res[a])
		}
	}
	return res
}

// windowRule decides the step of the statistics' window and returns the
// history each counter goes to.
func (m *queueModel) windowRule(r *Report) map[string]string {
	y := m.runMethod(r, "Create")
	if y == nil {
		return nil
	}
	hist := map[string]string{}
	tasks := 0
	done := map[*ssa.Function]bool{}
	for _, p := range y.ps {
		if p.cut || !p.ok {
			continue
		}
		for _, ev := range p.kind("go") {
			if ev.Callee == nil || done[ev.Callee] || !m.c.InRepo(ev.Callee) {
				continue
			}
			done[ev.Callee] = true
			t := m.runTask(r, p, ev, y.arg(0))
			if t == nil || t.isMonitor() {
				continue
			}
			tasks++
			n := t.fn.Name()
			ticks, moves := 0, 0
			// the histories are moved in a loop: follow it for some rounds
			if u := m.runTaskRounds(r, p, ev, y.arg(0), 3); u != nil {
				t = u
			}
			for i := range t.outs {
				o := &t.outs[i]
				evs := o.St.Events()
				dead := deadTick(&path{o: o, st: o.St, evs: evs})
				r.Ob(dead == nil, "ticks", n, o, "the statistics task waits for a timer that has fired, or was stopped, and was not set again: %s", dead)
				var seg []*eng.Event
				ticking := false
				first := true // the first step starts from any contents
				flush := func() {
					if ticking && first {
						ticks++
						first = false
						moves += m.windowStep(r, n, o, seg, hist)
					}
					seg, ticking = nil, false
				}
				for _, e := range evs {
					if e.Kind == "select" {
						flush()
						continue
					}
					if e.Kind == "recv" {
						flush()
						if per, ok := eng.Period(o.St, e.Recv); ok {
							ticking = true
							s, isSec := eng.Seconds(per)
							one := false
							if isSec {
								v, isInt := s.IntVal()
								one = isInt && v == 1
							}
							r.Ob(one, "every-second", n, o, "the window moves every %s, not every second", per)
						}
						continue
					}
					seg = append(seg, e)
				}
			}
			r.Ob(ticks > 0, "ticks", n, nil, "the statistics task has no periodic step")
			r.Ob(moves > 0, "moves-decided", n, nil, "no step was seen to move a history of more than one slot")
		}
	}
	r.Ob(tasks == 1, "statistics-task", "Create", nil, "a queue has %d statistics tasks", tasks)
	return hist
}

// windowStep: every history moves down by one and takes its counter's value,
// which starts again from zero.
func (m *queueModel) windowStep(r *Report, n string, o *eng.Outcome, seg []*eng.Event, hist map[string]string) (moves int) {
	type slot struct{ idx, val *eng.Term }
	writes := map[string][]slot{}
	copied := map[string]bool{}
	var swaps []*eng.Event
	for _, e := range seg {
		switch {
		case e.Kind == "atomic" && (e.Name == "swap" || e.Name == "add" || e.Name == "store" || e.Name == "cas"):
			swaps = append(swaps, e)
		case e.Kind == "wr" && e.Recv.Op == "idxaddr" && strip(e.Recv.Args[0]).Op == "field":
			f := strip(e.Recv.Args[0]).Aux
			writes[f] = append(writes[f], slot{strip(e.Recv.Args[1]), strip(e.Args[0])})
		case e.Kind == "copy" && strip(e.Args[0]).Op == "field":
			s := strip(e.Args[1])
			if s.Op == "sliceof" && s.Aux == "from" && s.Args[0] == strip(e.Args[0]) {
				if v, ok := strip(s.Args[1]).IntVal(); ok && v == 1 {
					copied[strip(e.Args[0]).Aux] = true
				}
			}
		}
	}
	used := map[string]bool{}
	for _, s := range swaps {
		cn := atomicField(s)
		v, isInt := strip(s.Args[len(s.Args)-1]).IntVal()
		r.Ob(s.Name == "swap" && isInt && v == 0 && !used[cn], "counter-reset", n, o, "a step of the window does %s with %s: an operation counted meanwhile would be lost or counted again", s.Name, cn)
		used[cn] = true
		var h string
		for f, ws := range writes {
			if last := ws[len(ws)-1]; len(s.Res) > 0 && last.val == strip(s.Res[0]) {
				h = f
				ok := false
				if last.idx.Op == "bin" {
					// the last slot: size - 1
					k := eng.Sum(last.idx, 1, types.Typ[types.Int])
					ok = strip(k).Op == "field" || k.Op == "call" && k.Aux == "len"
				}
				r.Ob(ok, "newest-slot", n, o, "the newest count goes to slot %s, not the last one", last.idx)
			}
		}
		if !r.Ob(h != "", "into-history", n, o, "the count in %s goes to no history", cn) {
			continue
		}
		r.Ob(hist[cn] == "" || hist[cn] == h, "one-history", n, o, "the count in %s goes to %s and to %s", cn, hist[cn], h)
		hist[cn] = h
		// shifted before
		if copied[h] {
			moves++
			continue
		}
		ws := writes[h][:len(writes[h])-1]
		moved := map[int64]bool{}
		for _, w := range ws {
			i, ok := w.idx.IntVal()
			good := ok && w.val.Op == "index" && strip(w.val.Args[0]).Op == "field" && strip(w.val.Args[0]).Aux == h
			if good {
				j, ok := strip(w.val.Args[1]).IntVal()
				good = ok && j == i+1
			}
			r.Ob(good, "shift", n, o, "the history %s is not moved down by one: slot %s takes %s", h, w.idx, w.val)
			moved[i] = true
			moves++
		}
		for i := int64(0); i < int64(len(ws)); i++ {
			r.Ob(moved[i], "shift", n, o, "slot %d of %s is not moved", i, h)
		}
		// all slots: the loop ended because the size was reached
		r.Ob(sizeIs(o.St, int64(len(ws)+1), true), "shift-complete", n, o, "the history %s is not moved as a whole", h)
	}
	r.Ob(len(used) == len(statOps), "all-counters", n, o, "a step of the window takes over %d counters", len(used))
	return moves
}

// sizeIs: the path knows that n is not below the window size (the loop over it
// ended), and, if n > 0, that n-1 is.
func sizeIs(st *eng.State, n int64, orLess bool) bool {
	end := false
	st.FactTerms(func(a *eng.Term, v bool) {
		if a.Op != "bin" || a.Aux != "<" && a.Aux != "==" {
			return
		}
		x, y := a.Args[0], a.Args[1]
		if k, ok := x.IntVal(); ok && k == n && !v && a.Aux == "<" && isSize(y) {
			end = true
		}
		if k, ok := y.IntVal(); ok && k == n && a.Aux == "==" && v && isSize(x) {
			end = true
		}
		if k, ok := x.IntVal(); ok && k == n && a.Aux == "==" && v && isSize(y) {
			end = true
		}
		// the size against n+1
		if k, ok := y.IntVal(); ok && k == n+1 && v && a.Aux == "<" && isSize(x) {
			end = true
		}
		// slot n is the last one: !(n < size-1) and the like
		if a.Aux == "<" && !v {
			if k, ok := x.IntVal(); ok && y.Op == "bin" && isSize(eng.Sum(y, n-k, types.Typ[types.Int])) {
				end = true
			}
		}
	})
	return end
}

// windowOf is the window size as the path compares with it.
func windowOf(st *eng.State) *eng.Term {
	w := eng.Nil
	st.FactTerms(func(a *eng.Term, v bool) {
		if a.Op == "bin" && a.Aux == "<" && isSize(a.Args[1]) {
			w = a.Args[1]
		}
	})
	return w
}

func isSize(t *eng.Term) bool {
	t = strip(t)
	if t.Op == "call" && t.Aux == "len" {
		t = strip(t.Args[0])
	}
	return t.Op == "field"
}

// flatSum lists the summands of an integer sum; ok is false if it is none.
func flatSum(t *eng.Term) []*eng.Term {
	t = strip(t)
	if t.Op == "bin" && t.Aux == "+" {
		return append(flatSum(t.Args[0]), flatSum(t.Args[1])...)
	}
	if v, ok := t.IntVal(); ok && v == 0 {
		return nil
	}
	return []*eng.Term{t}
}

func (m *queueModel) statsRule(r *Report, counter, hist map[string]string) {
	x := m.runMethod(r, "GetStats")
	if x == nil {
		return
	}
	n := "GetStats"
	oks := 0
	for _, p := range x.ps {
		if p.cut {
			r.Ob(p.o.Exit == eng.Cut, "no-panic", n, p.o, "reading the statistics ends abnormally: %s", p.o.Why)
			continue
		}
		oks++
		v := p.st.Value(p.o.Ret[0])
		f := func(s string) *eng.Term { return strip(p.st.Value(eng.Field(v, s, nil))) }
		count := func(t *eng.Term, role string) bool {
			t = strip(t)
			return t.Op == "count" && t.Aux == role+".0"
		}
		r.Ob(count(f("Ready"), "ready"), "ready-size", n, p.o, "the number of ready messages is reported as %s", f("Ready"))
		r.Ob(count(f("Unacked"), "inflight"), "unacked-size", n, p.o, "the number of messages in flight is reported as %s", f("Unacked"))
		s := flatSum(f("Total"))
		r.Ob(len(s) == 2 && (count(s[0], "ready") && count(s[1], "inflight") || count(s[1], "ready") && count(s[0], "inflight")), "total-size", n, p.o, "the total number of messages is reported as %s", f("Total"))
		for _, nm := range []string{"Name", "Type"} {
			t := f(nm)
			r.Ob(fieldPathHas(t, nm), "own-"+strings.ToLower(nm), n, p.o, "the queue's %s is reported as %s", strings.ToLower(nm), t)
		}
		var sec *eng.Event
		var cur *eng.Event
		for _, e := range p.evs {
			switch {
			case e.Kind == "lock" && ownLock(e.Recv, x.arg(0)):
				cur = e
			case e.Kind == "unlock" && ownLock(e.Recv, x.arg(0)):
				cur = nil
			case e.Kind == "qlen":
				if sec == nil {
					sec = cur
				}
				r.Ob(cur != nil && sec == cur, "sizes-together", n, p.o, "the sizes are not read in one critical section of the queue")
			}
		}
		// rates
		st := p.st.Value(eng.Field(v, "Stats", nil))
		for _, op := range statOps {
			fn := op + "RPS"
			t := strip(eng.Field(st, fn, types.Typ[types.Float64]))
			if none, known := p.st.Decide(eng.Mk("bin", "<", types.Typ[types.Bool], eng.Int(0), windowOf(p.st))); known && !none {
				continue // no window of no seconds is made
			}
			if !r.Ob(t.Op == "bin" && t.Aux == "/", "rate-average", n, p.o, "the rate %s is %s, not an average", fn, t) {
				continue
			}
			r.Ob(isSize(t.Args[1]), "rate-average", n, p.o, "the rate %s is divided by %s, not the window size", fn, t.Args[1])
			sum := flatSum(t.Args[0])
			got := map[int64]bool{}
			for _, e := range sum {
				i, ok := int64(0), e.Op == "index" && strip(e.Args[0]).Op == "field"
				if ok {
					r.Ob(strip(e.Args[0]).Aux == hist[counter[op]], "rate-of-operation", n, p.o, "the rate %s is made from %s; %s is counted in %s and kept in %s", fn, strip(e.Args[0]).Aux, op, counter[op], hist[counter[op]])
					i, ok = strip(e.Args[1]).IntVal()
				}
				r.Ob(ok && !got[i], "rate-average", n, p.o, "the rate %s sums %s", fn, e)
				got[i] = true
			}
			for i := int64(0); i < int64(len(sum)); i++ {
				r.Ob(got[i], "rate-average", n, p.o, "the rate %s leaves out slot %d", fn, i)
			}
			r.Ob(sizeIs(p.st, int64(len(sum)), false), "whole-window", n, p.o, "the rate %s does not sum the whole window", fn)
		}
	}
	r.Ob(oks > 0, "can-succeed", n, nil, "no path reports statistics")
}

func (m *queueModel) windowCtor(r *Report, hist map[string]string) {
	ctor := m.c.Func("pkg/queue", "NewBadgerPriorityQueue")
	if !r.Anchor(ctor != nil, "queue.NewBadgerPriorityQueue") {
		return
	}
	e := m.c.exec(r)
	m.install(e)
	n := "NewBadgerPriorityQueue"
	used := 0
	for _, o := range r.run(e, ctor, nil) {
		o := o
		if o.Exit != eng.Return {
			continue
		}
		v := o.St.Value(o.Ret[0])
		bs := m.bpq.Underlying().(*types.Struct)
		for i := 0; i < bs.NumFields(); i++ {
			pt, ok := bs.Field(i).Type().(*types.Pointer)
			if !ok {
				continue
			}
			ss, ok := pt.Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			has := map[string]bool{}
			for j := 0; j < ss.NumFields(); j++ {
				has[ss.Field(j).Name()] = true
			}
			mine := len(hist) > 0
			for _, h := range hist {
				mine = mine && has[h]
			}
			if !mine {
				continue
			}
			sv := o.St.Value(eng.Field(v, bs.Field(i).Name(), bs.Field(i).Type()))
			var size *eng.Term
			for j := 0; j < ss.NumFields(); j++ {
				f := ss.Field(j)
				ft := eng.Field(sv, f.Name(), f.Type())
				isHist := false
				for _, h := range hist {
					isHist = isHist || h == f.Name()
				}
				if isHist {
					if !r.Ob(ft.Op == "makeslice", "window-size", n, &o, "the history %s is %s", f.Name(), ft) {
						continue
					}
					l := strip(ft.Args[0])
					r.Ob(size == nil || size == l, "window-size", n, &o, "the histories have the sizes %s and %s", size, l)
					size = l
				}
			}
			if size == nil {
				continue
			}
			used++
			for j := 0; j < ss.NumFields(); j++ {
				f := ss.Field(j)
				if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
					ft := strip(eng.Field(sv, f.Name(), f.Type()))
					r.Ob(ft == size, "window-size", n, &o, "the window has %s slots, the histories %s", ft, size)
				}
			}
			if k, ok := size.IntVal(); ok {
				r.Ob(k >= 1, "window-not-empty", n, &o, "the window has %d slots", k)
			} else {
				r.Ob(fieldPathHas(size, r.C.settingField("queue.stats.window_side")), "window-configured", n, &o, "the window has %s slots, not the configured number", size)
				lt, known := o.St.Decide(eng.Mk("bin", "<", types.Typ[types.Bool], size, eng.Int(1)))
				lz, knownz := o.St.Decide(eng.Mk("bin", "<", types.Typ[types.Bool], eng.Int(0), size))
				r.Ob(known && !lt || knownz && lz, "window-not-empty", n, &o, "a window of no seconds is possible: the first step and the averages divide by zero or leave the slice")
			}
		}
	}
	r.Ob(used > 0, "window-known", n, nil, "the statistics window was not found")
}

// metricRule decides the exported counters and gauges.
func (m *queueModel) metricRule(r *Report) {
	ctor := m.c.Func("pkg/queue", "NewPrometheusMetrics")
	if !r.Anchor(ctor != nil, "queue.NewPrometheusMetrics") {
		return
	}
	e := m.c.exec(r)
	names := map[string]string{}
	var pm *types.Struct
	for _, o := range r.run(e, ctor, nil) {
		o := o
		if o.Exit != eng.Return {
			r.Ob(o.Exit == eng.Cut, "no-panic", ctor.Name(), &o, "setting up metrics ends abnormally: %s", o.Why)
			continue
		}
		v := o.St.Value(o.Ret[0])
		pt, ok := ctor.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok {
			continue
		}
		pm, _ = pt.Elem().Underlying().(*types.Struct)
		made := map[*eng.Term]*eng.Event{}
		for _, ev := range o.St.Events() {
			if ev.Kind == "call" && (strings.HasSuffix(ev.Name, "NewCounterVec") || strings.HasSuffix(ev.Name, "NewGaugeVec")) && len(ev.Res) == 1 {
				made[ev.Res[0]] = ev
			}
		}
		regs := map[string]string{}
		for i := 0; pm != nil && i < pm.NumFields(); i++ {
			f := pm.Field(i)
			ev := made[eng.Field(v, f.Name(), f.Type())]
			if ev == nil {
				continue
			}
			nm, ok := eng.Field(ev.Args[0], "Name", types.Typ[types.String]).StrVal()
			r.Ob(ok, "metric-name", f.Name(), &o, "the metric has no fixed name")
			r.Ob(regs[nm] == "", "metric-name-once", nm, &o, "two metrics are named %s", nm)
			regs[nm] = f.Name()
			names[f.Name()] = nm
			els, ok := e.SliceElems(o.St, ev.Args[1])
			l := ""
			if ok && len(els) == 1 {
				l, _ = els[0].StrVal()
			}
			r.Ob(l == "queue_name", "metric-labels", f.Name(), &o, "the metric's labels are not just queue_name")
		}
	}
	r.Anchor(len(names) >= 7, "the exported metrics")
	type gauge struct {
		name  string
		roles []string
	}
	gauges := map[string][]string{"ready_messages": {"ready"}, "unacked_messages": {"inflight"}, "messages": {"ready", "inflight"}}
	for _, op := range statOps {
		x := m.runMethod(r, op)
		if x == nil {
			continue
		}
		on := 0
		for _, p := range x.ps {
			if p.cut {
				continue
			}
			enabled, known := false, false
			p.st.FactTerms(func(a *eng.Term, v bool) {
				if a.Op == "field" && a.Aux == "Enabled" {
					enabled, known = v, true
				}
			})
			field := map[*eng.Term]string{}
			label := map[*eng.Term]*eng.Term{}
			labels := map[*eng.Term]map[string]*eng.Term{}
			incs := map[string]int{}
			last := map[string]*eng.Term{}
			for _, ev := range p.evs {
				switch {
				case ev.Kind == "mapset":
					if k, ok := ev.Args[0].StrVal(); ok {
						if labels[ev.Recv] == nil {
							labels[ev.Recv] = map[string]*eng.Term{}
						}
						labels[ev.Recv][k] = strip(ev.Args[1])
					}
				case ev.Kind == "call" && (strings.HasSuffix(ev.Name, "Vec).With") || strings.HasSuffix(ev.Name, "Vec).WithLabelValues")) && len(ev.Res) > 0:
					rc := strip(ev.Recv)
					if rc.Op == "field" {
						field[ev.Res[0]] = names[rc.Aux]
					}
					if strings.HasSuffix(ev.Name, "WithLabelValues") {
						if els, ok := e.SliceElems(p.st, ev.Args[0]); ok && len(els) == 1 {
							label[ev.Res[0]] = strip(els[0])
						}
					} else {
						label[ev.Res[0]] = labels[strip(ev.Args[0])]["queue_name"]
					}
				case ev.Kind == "call" && (strings.HasSuffix(ev.Name, ".Inc") || strings.HasSuffix(ev.Name, ".Set") || strings.HasSuffix(ev.Name, ".Add") || strings.HasSuffix(ev.Name, ".Dec") || strings.HasSuffix(ev.Name, ".Sub")) && strings.Contains(ev.Name, "prometheus"):
					rc := strip(ev.Recv)
					nm := field[rc]
					if !r.Ob(nm != "", "metric-known", op, p.o, "an unknown metric is changed: %s", ev) {
						continue
					}
					l := label[rc]
					r.Ob(l != nil && fieldPathHas(l, "Name"), "metric-queue", op, p.o, "the metric %s is changed for %s, not for the queue's name", nm, l)
					switch ev.Name[strings.LastIndex(ev.Name, ".")+1:] {
					case "Inc":
						incs[nm]++
					case "Set":
						last[nm] = strip(ev.Args[0])
					case "Add":
						if f, ok := strip(ev.Args[0]).IntVal(); ok && f == 1 {
							incs[nm]++
						} else {
							incs[nm] += 100
						}
					default:
						incs[nm] += 100
					}
				}
			}
			var ks []string
			for k := range incs {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			mine := strings.ToLower(op) + "_total"
			if !p.ok || known && !enabled {
				r.Ob(len(ks) == 0, "failure-not-exported", op, p.o, "a failed operation, or one without metrics, is counted as %s", strings.Join(ks, ", "))
				continue
			}
			if !known {
				r.Ob(false, "metrics-switch", op, p.o, "a successful operation does not look whether metrics are enabled")
				continue
			}
			on++
			r.Ob(len(ks) == 1 && ks[0] == mine && incs[mine] == 1, "exported-once", op, p.o, "a successful operation is counted as %v, not once as %s", incs, mine)
			var gs []string
			for g := range gauges {
				gs = append(gs, g)
			}
			sort.Strings(gs)
			for _, g := range gs {
				t := last[g]
				if !r.Ob(t != nil, "gauge-set", op, p.o, "the gauge %s is not set after the operation", g) {
					continue
				}
				want := map[string]bool{}
				for _, role := range gauges[g] {
					want[role+"."+itoa(p.st.Ver(qver(role)))] = true
				}
				sum := flatSum(t)
				okg := len(sum) == len(want)
				for _, s := range sum {
					okg = okg && s.Op == "count" && want[s.Aux]
					if s.Op == "count" {
						delete(want, s.Aux)
					}
				}
				r.Ob(okg, "gauge-size", op, p.o, "the gauge %s is set to %s, which is not its size after the operation", g, t)
			}
		}
		r.Ob(on > 0, "metrics-reachable", op, nil, "no successful path of the operation updates metrics")
	}
}
