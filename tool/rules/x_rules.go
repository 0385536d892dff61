package rules

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("X01", "Lock-set analysis over the whole program: every access to memory by every task (request handlers, state machine, background tasks, start-up) is summarised with the locks held on all ways to it, bottom-up through calls, closures and interfaces; every pair of accesses to the same field or its elements from tasks that can run at the same time, one of them a write, must hold a common lock of an object both belong to, or be atomic; objects not yet made known to another task are exempt, and start-up is ordered before the tasks it starts.", 300, ruleX01)
	register("X02", "Lock dataflow over every function: locks held on entry to and exit from every function on all and on some ways, deferred releases included; acquisitions while held, release kinds, cycles of the order in which locks are taken across calls, and waits without limit while a lock is held.", 60, ruleX02)
}

// access is a use as a task makes it.
type access struct {
	use
	t *thread
}

func (x *conc) roots0(r *Report) []*thread {
	var ts []*thread
	add := func(f *ssa.Function) {
		if f != nil && len(f.Blocks) > 0 {
			ts = append(ts, &thread{name: "main", fn: f, all: true})
		}
	}
	for _, p := range x.c.ByPath {
		if p.Pkg.Name() == "main" && strings.HasPrefix(p.Pkg.Path(), Mod+"/cmd") {
			add(p.Func("init"))
			add(p.Func("main"))
		}
	}
	add(x.c.entry(r))
	return ts
}

// all computes every task's summary.
func (x *conc) all(r *Report) []*thread {
	todo := x.roots0(r)
	for i := 0; i < len(todo); i++ {
		x.sum(todo[i].fn)
		if i == len(todo)-1 {
			known := map[*ssa.Function]bool{}
			for _, t := range todo {
				known[t.fn] = true
			}
			for _, t := range x.order {
				if !known[t.fn] {
					todo = append(todo, t)
					known[t.fn] = true
				}
			}
		}
	}
	for _, t := range todo {
		if t.name == "main" {
			t.many = false
		}
	}
	// tasks that several others start for the same object
	for _, t := range todo {
		if t.name == "main" {
			continue
		}
		for _, s := range x.sum(t.fn).starts {
			// an object that the task made gets the tasks it needs once
			if _, ok := x.asTask(t, s.path, s.shared); !ok || s.path.fresh() {
				continue
			}
			for _, u := range todo {
				if u.name == s.thread {
					u.many = true
				}
			}
		}
	}
	return todo
}

// asTask names memory as the task sees it; false if only this task has it.
func (x *conc) asTask(t *thread, p apath, shared bool) (apath, bool) {
	switch p.root[0] {
	case 'P':
		if t.all {
			return p, true
		}
		return p, p.root == "P0" && t.fn.Signature.Recv() != nil
	case 'F':
		if t.clos != nil {
			i := 0
			fmt.Sscanf(p.root, "F%d", &i)
			if i < len(t.clos.Bindings) {
				qs := x.replace(p, x.paths(t.clos.Bindings[i]), t.clos.Bindings[i], map[ssa.Value]bool{})
				if len(qs) == 1 && qs[0].fresh() {
					return qs[0], true
				}
			}
		}
		return p, true
	case 'N':
		return p, shared
	case 'L':
		return p, false
	}
	return p, true
}

func keyOf(p apath) string {
	k := p.key()
	if i := strings.Index(k, "^"); i >= 0 && k[0] == 'N' {
		j := strings.IndexAny(k[i:], "[")
		if j >= 0 {
			k = k[:i] + k[i+j:]
		} else {
			k = k[:i]
		}
	}
	return k
}

func (x *conc) concurrent(a, b access, desc map[string]strset) bool {
	if a.t.name == b.t.name {
		if a.t.name == "main" {
			return false
		}
		if a.t.many {
			return true
		}
		return false
	}
	for i := 0; i < 2; i++ {
		if a.path.fresh() && a.t.name != "main" && strings.HasPrefix(b.t.name, "go ") && !b.t.many && (b.path.root[0] == 'P' || b.path.root[0] == 'F') {
			// the object's own task was not started yet
			started := false
			for s := range a.spawned {
				started = started || desc[s][b.t.name]
			}
			if !started {
				return false
			}
		}
		if a.t.name == "main" {
			for s := range a.spawned {
				if desc[s][b.t.name] {
					return true
				}
				if g, ok := strings.CutPrefix(s, "start:"); ok {
					if b.t.from == g || desc["from:"+g][b.t.name] {
						return true
					}
				}
			}
			return false
		}
		a, b = b, a
	}
	return true
}

// descendants of a task by name: itself and what it starts.
func (x *conc) descendants(ts []*thread) map[string]strset {
	kids := map[string]strset{}
	for _, t := range ts {
		kids[t.name] = kids[t.name].add(x.sum(t.fn).spawns)
		if t.from != "" {
			kids["from:"+t.from] = kids["from:"+t.from].add(strset{t.name: true})
		}
	}
	r := map[string]strset{}
	for n := range kids {
		seen := strset{}
		todo := []string{n}
		for len(todo) > 0 {
			m := todo[0]
			todo = todo[1:]
			if seen[m] {
				continue
			}
			seen[m] = true
			if g, ok := strings.CutPrefix(m, "start:"); ok {
				todo = append(todo, "from:"+g)
			}
			for k := range kids[m] {
				todo = append(todo, k)
			}
		}
		r[n] = seen
	}
	return r
}

func protects(l lockAt, p apath) bool {
	return p.root == "U" || p.under(l.owner()) || l.path.root[0] == 'G'
}

func common(a, b access) bool {
	for _, l := range a.locks {
		if !protects(l, a.path) {
			continue
		}
		for _, m := range b.locks {
			if protects(m, b.path) && keyOf(l.path) == keyOf(m.path) && (l.mode == "W" || m.mode == "W") {
				return true
			}
		}
	}
	return false
}

func ruleX01(c *Ctx, r *Report) {
	x := c.newConc()
	ts := x.all(r)
	r.Anchor(len(ts) > 20, "the tasks of the program")
	by := map[string][]access{}
	for _, t := range ts {
		r.Funcs[t.fn.String()] = true
		for _, u := range x.sum(t.fn).uses {
			p, ok := x.asTask(t, u.path, u.shared)
			if !ok {
				continue
			}
			u.path = p
			k := keyOf(p)
			if k == "" {
				continue
			}
			by[k] = append(by[k], access{u, t})
		}
	}
	for f := range x.sums {
		r.Funcs[f.String()] = true
	}
	defer func() { x.dump(ts, by, keysOf(by)) }()
	desc := x.descendants(ts)
	var keys []string
	for k := range by {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r.Ob(len(ts) >= 25, "tasks-known", "program", nil, "only %d tasks were found", len(ts))
	written := 0
	for _, k := range keys {
		as := by[k]
		sort.Slice(as, func(i, j int) bool {
			if as[i].pos != as[j].pos {
				return as[i].pos < as[j].pos
			}
			return as[i].t.name < as[j].t.name
		})
		w, bad := false, false
		for i := range as {
			for j := i; j < len(as) && !bad; j++ {
				a, b := as[i], as[j]
				if !a.write && !b.write {
					continue
				}
				if i == j && !a.write {
					continue
				}
				if !x.concurrent(a, b, desc) {
					continue
				}
				w = true
				ok := a.atomic && b.atomic || common(a, b)
				bad = bad || !ok
				r.ObAt(ok, "race", k, a.pos, "%s of %s by %s (in %s) with locks {%s} and %s at %s by %s (in %s) with locks {%s} can happen at the same time", verb(a), k, a.t.name, funcName(a.fn), lockNames(a), verb(b), c.Pos(b.pos), b.t.name, funcName(b.fn), lockNames(b))
			}
		}
		if w {
			written++
		}
	}
	r.Ob(written >= 15, "shared-known", "program", nil, "only %d kinds of memory are shared and written", written)
}

func verb(a access) string {
	s := "the read"
	if a.write {
		s = "the write"
	}
	if a.atomic {
		s += " (atomic)"
	}
	return s
}

func lockNames(a access) string {
	var r []string
	for _, l := range a.locks {
		s := keyOf(l.path)
		if l.mode == "R" {
			s += " (shared)"
		}
		if !protects(l, a.path) {
			s += " (of another object)"
		}
		r = append(r, s)
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

func ruleX02(c *Ctx, r *Report) {
	x := c.newConc()
	ts := x.all(r)
	for _, f := range c.ReachableFuncs() {
		if x.own(f) {
			x.sum(f)
		}
	}
	// every operation on a lock is analysed
	ops := 0
	var fs []*ssa.Function
	for f := range x.sums {
		fs = append(fs, f)
		r.Funcs[f.String()] = true
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if op, ps := x.lockOp(call.Common()); op != "" {
						n++
						r.ObAt(len(ps) == 1, "lock-known", funcName(f), in.Pos(), "which lock this takes or releases is not known")
					}
				}
			}
		}
		ops += n
		s := x.sum(f)
		if n > 0 && len(s.odd) == 0 {
			r.Ob(true, "released", funcName(f), nil, "")
			r.Ob(true, "taken-once", funcName(f), nil, "")
		}
		for _, o := range s.odd {
			r.ObAt(false, o.rule, funcName(o.fn), o.pos, "%s", o.what)
		}
	}
	r.Ob(ops >= 40, "locks-known", "program", nil, "only %d operations on locks were found", ops)
	// what remains at the end of a task
	for _, t := range ts {
		s := x.sum(t.fn)
		for _, l := range s.acq {
			r.ObAt(false, "released", funcName(t.fn), l.pos, "%s is never released", lockName(l))
		}
		for _, l := range s.rel {
			r.ObAt(false, "released", funcName(t.fn), l.pos, "%s is released without being held", lockName(l))
		}
	}
	// exported entry points that tests and other packages call
	edges := map[string]map[string]taking{}
	for _, f := range fs {
		for _, t := range x.sum(f).takes {
			to := keyOf(t.lock.path)
			for _, h := range t.held {
				from := keyOf(h.path)
				if from == "" || to == "" {
					continue
				}
				if edges[from] == nil {
					edges[from] = map[string]taking{}
				}
				if _, ok := edges[from][to]; !ok {
					edges[from][to] = t
				}
			}
		}
		for _, b := range x.sum(f).blocks {
			if len(b.held) == 0 {
				r.Ob(true, "wait", funcName(f), nil, "")
				continue
			}
			for _, h := range b.held {
				r.ObAt(false, "wait", keyOf(h.path), b.pos, "%s, which may never end, while %s is held", b.what, keyOf(h.path))
			}
		}
	}
	var names []string
	for k := range edges {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, a := range names {
		var bs []string
		for b := range edges[a] {
			bs = append(bs, b)
		}
		sort.Strings(bs)
		for _, b := range bs {
			t := edges[a][b]
			if a == b {
				// the same lock is told above; two objects of a kind have no order
				same := false
				for _, h := range t.held {
					same = same || keyOf(h.path) == b && h.path == t.lock.path
				}
				r.ObAt(same, "order", a+" and "+b, t.pos, "%s of one object is taken while that of another is held: two tasks can do so the other way round", a)
				continue
			}
			via := reaches(edges, b, a, map[string]bool{})
			var p token.Pos
			if t2, ok := edges[b][a]; ok {
				p = t2.pos
			}
			r.ObAt(!via, "order", a+" and "+b, t.pos, "%s is taken while %s is held, and elsewhere (%s) the other way round", b, a, c.Pos(p))
		}
	}
	r.Ob(len(names) >= 2, "order-known", "program", nil, "only %d locks are held while others are taken", len(names))
}

func reaches(e map[string]map[string]taking, from, to string, seen map[string]bool) bool {
	if from == to {
		return true
	}
	if seen[from] {
		return false
	}
	seen[from] = true
	for n := range e[from] {
		if n != from && reaches(e, n, to, seen) {
			return true
		}
	}
	return false
}
