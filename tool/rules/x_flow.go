package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// flow is what is known at a point of a function.
type flow struct {
	must  lockSet // held on every way here
	may   lockSet // held on some way here
	rel   strset  // of the caller's locks, those released on some way here
	relAt lockSet
	pub   strset
	alias map[apath]apath
	in    map[string]strset
	spawn strset
	defs  []*ssa.Defer
	sure  map[*ssa.Defer]bool
}

func newFlow() *flow {
	return &flow{must: lockSet{}, may: lockSet{}, rel: strset{}, relAt: lockSet{}, pub: strset{}, alias: map[apath]apath{}, in: map[string]strset{}, spawn: strset{}, sure: map[*ssa.Defer]bool{}}
}

func (f *flow) clone() *flow {
	g := newFlow()
	g.must, g.may, g.relAt = f.must.clone(), f.may.clone(), f.relAt.clone()
	g.rel, g.pub, g.spawn = strset{}.add(f.rel), strset{}.add(f.pub), strset{}.add(f.spawn)
	for k, v := range f.alias {
		g.alias[k] = v
	}
	for k, v := range f.in {
		g.in[k] = v
	}
	g.defs = append(g.defs, f.defs...)
	for k := range f.sure {
		g.sure[k] = true
	}
	return g
}

func (f *flow) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%s|%s|%s|%s|%d|%d|%d|", f.must, f.may, f.rel, f.pub, f.spawn, len(f.alias), len(f.defs), len(f.sure))
	n := 0
	for _, s := range f.in {
		n += len(s)
	}
	fmt.Fprintf(&b, "%d", n)
	return b.String()
}

// join merges another way to the same point.
func (f *flow) join(g *flow) {
	for k, v := range f.must {
		w, ok := g.must[k]
		if !ok {
			delete(f.must, k)
		} else if w.mode != v.mode {
			v.mode = "R"
			f.must[k] = v
		}
	}
	for k, v := range g.may {
		if _, ok := f.may[k]; !ok {
			f.may[k] = v
		}
	}
	for k, v := range g.relAt {
		f.relAt[k] = v
	}
	f.rel, f.pub, f.spawn = f.rel.add(g.rel), f.pub.add(g.pub), f.spawn.add(g.spawn)
	for k, v := range g.alias {
		if _, ok := f.alias[k]; !ok {
			f.alias[k] = v
		}
	}
	for k, v := range g.in {
		f.in[k] = f.in[k].add(v)
	}
	for _, d := range g.defs {
		known := false
		for _, e := range f.defs {
			known = known || d == e
		}
		if !known {
			f.defs = append(f.defs, d)
		}
	}
	for d := range f.sure {
		if !g.sure[d] {
			delete(f.sure, d)
		}
	}
}

// resolve names a fresh object that was put into another one by its place
// there, and what was put into a fresh object by its name before.
func (f *flow) resolve(p apath) apath {
next:
	for i := 0; i < 6; i++ {
		pre := p.comps
		for {
			q, ok := f.alias[apath{p.root, pre}]
			// the cell itself is not what it refers to
			ok = ok && (pre == "" || pre != p.comps)
			if ok && !(q.root == p.root && strings.HasPrefix(q.comps, pre)) {
				p = apath{q.root, q.comps + p.comps[len(pre):]}
				continue next
			}
			j := strings.LastIndex(pre, "/")
			if j < 0 {
				return p
			}
			pre = pre[:j]
		}
	}
	return p
}

func (f *flow) resolveAll(ps []apath) []apath {
	var r []apath
	for _, p := range ps {
		r = union(r, []apath{f.resolve(p)})
	}
	return r
}

// publish: what the roots name can be reached by other tasks.
func (f *flow) publish(roots strset) {
	for k := range roots {
		if f.pub[k] {
			continue
		}
		f.pub = f.pub.add(strset{k: true})
		if a, ok := f.alias[apath{root: k}]; ok {
			f.publish(strset{a.root: true})
		}
		f.publish(f.in[k])
	}
}

// put: the value becomes part of the object at addr.
func (f *flow) put(addr []apath, roots strset, vals []apath) {
	for _, a := range addr {
		for _, v := range vals {
			if v.root != a.root && v.fresh() && v.comps == "" && a.comps != "" {
				if _, ok := f.alias[apath{root: v.root}]; !ok {
					f.alias[apath{root: v.root}] = a
				}
			} else if a.fresh() && a.comps != "" && !strings.HasSuffix(a.comps, "/[]") && v != a && v.root != "U" {
				if _, ok := f.alias[a]; !ok {
					f.alias[a] = v
				}
			}
		}
		s := strset{}
		for r := range roots {
			if r != a.root {
				s[r] = true
			}
		}
		if len(s) > 0 {
			f.in[a.root] = f.in[a.root].add(s)
		}
		if f.pub[a.root] || a.root[0] == 'G' {
			f.publish(s)
		}
	}
}

// roots of what can be reached from a value.
func (x *conc) roots(v ssa.Value) strset {
	s := strset{}
	switch v := v.(type) {
	case *ssa.MakeClosure:
		for _, b := range v.Bindings {
			s = s.add(x.roots(b))
		}
		return s
	case *ssa.MakeInterface:
		return x.roots(v.X)
	case *ssa.ChangeType:
		return x.roots(v.X)
	case *ssa.Alloc:
		s[x.at("N", v).root] = true
		for _, p := range x.held(v, map[ssa.Value]bool{}) {
			s[p.root] = true
		}
		return s
	}
	for _, p := range x.paths(v) {
		s[p.root] = true
	}
	return s
}

// sum computes the summary of a function.
func (x *conc) sum(f *ssa.Function) *summary {
	if s, ok := x.sums[f]; ok {
		return s
	}
	if x.busy[f] {
		return newSummary()
	}
	x.busy[f] = true
	s := newSummary()
	w := &walker{x: x, fn: f, s: s}
	w.run()
	x.sums[f] = s
	delete(x.busy, f)
	return s
}

type walker struct {
	x    *conc
	fn   *ssa.Function
	s    *summary
	emit bool
	st   *flow
	rets []*flow
	retP []token.Pos
}

func (w *walker) run() {
	f := w.fn
	if len(f.Blocks) == 0 {
		return
	}
	in := map[*ssa.BasicBlock]*flow{f.Blocks[0]: newFlow()}
	todo := []*ssa.BasicBlock{f.Blocks[0]}
	for n := 0; len(todo) > 0 && n < 4000; n++ {
		b := todo[0]
		todo = todo[1:]
		w.st = in[b].clone()
		w.block(b)
		for _, next := range b.Succs {
			old, ok := in[next]
			if !ok {
				in[next] = w.st.clone()
				todo = append(todo, next)
				continue
			}
			was := old.String()
			old.join(w.st)
			if old.String() != was {
				todo = append(todo, next)
			}
		}
	}
	w.emit = true
	for _, b := range f.Blocks {
		if in[b] != nil {
			w.st = in[b].clone()
			w.block(b)
		}
	}
	w.exits()
}

func (w *walker) block(b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		w.instr(in)
	}
}

// exits combines the ways out.
func (w *walker) exits() {
	s := w.s
	if len(w.rets) == 0 {
		return
	}
	acq := w.rets[0].must.clone()
	for i, st := range w.rets {
		for k, l := range st.may {
			if _, ok := st.must[k]; !ok && !strings.Contains(k.comps, "/[]") {
				w.odd("released", fmt.Sprintf("%s is still held on some of the ways to this return", lockName(l)), w.retP[i])
			}
		}
		for k, l := range acq {
			if _, ok := st.must[k]; !ok {
				w.odd("released", fmt.Sprintf("%s is held at one return and not at another", lockName(l)), w.retP[i])
				delete(acq, k)
			}
		}
		for k, l := range st.must {
			if _, ok := acq[k]; !ok {
				w.odd("released", fmt.Sprintf("%s is held at one return and not at another", lockName(l)), w.retP[i])
			}
		}
		for k, l := range st.relAt {
			s.rel[k] = l
		}
		s.pubs = s.pubs.add(st.pub)
		s.spawns = s.spawns.add(st.spawn)
		for k, v := range st.alias {
			if k.fresh() && k.comps != "" {
				s.links[k] = v
			}
		}
		for k, v := range st.in {
			s.inside[k] = s.inside[k].add(v)
		}
	}
	s.acq = acq
}

func lockName(l lockAt) string {
	return l.path.key()
}

func (w *walker) odd(rule, what string, pos token.Pos) {
	if w.emit {
		w.s.odd[rule+what+w.x.c.Pos(pos)] = oddity{rule, what, pos, w.fn}
	}
}

func (w *walker) use(addr ssa.Value, write, atomic bool, pos token.Pos, comp string) {
	if !w.emit {
		return
	}
	for _, p := range w.x.paths(addr) {
		if comp != "" {
			p = p.with(comp)
		}
		w.addUse(use{path: p, write: write, atomic: atomic, locks: w.st.must, minus: w.st.rel, spawned: w.st.spawn, pos: pos, fn: w.fn})
	}
}

func (w *walker) addUse(u use) {
	u.path = w.st.resolve(u.path)
	if u.path.root[0] == 'L' {
		return
	}
	u.shared = u.shared || w.st.pub[u.path.root]
	if u.path.fresh() && !u.shared {
		return
	}
	locks := lockSet{}
	for _, l := range u.locks {
		l.path = w.st.resolve(l.path)
		locks[l.path] = l
	}
	u.locks = locks
	k := fmt.Sprint(u.path, u.write, u.atomic, u.locks, u.shared, u.minus, u.spawned)
	if _, ok := w.s.uses[k]; !ok {
		w.s.uses[k] = u
	}
}

// syncType: values of it do their own synchronisation.
func syncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

func (w *walker) instr(in ssa.Instruction) {
	x, st := w.x, w.st
	switch in := in.(type) {
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if syncType(in.Type()) {
				return
			}
			if s, ok := in.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if !syncType(s.Field(i).Type()) {
						w.use(in.X, false, false, in.Pos(), compOf(in.Type(), i))
					}
				}
				return
			}
			w.use(in.X, false, false, in.Pos(), "")
		case token.ARROW:
			w.block1(x.waitOn(in.X, "a receive from a channel"), in.Pos())
		}
	case *ssa.Store:
		w.use(in.Addr, true, false, in.Pos(), "")
		w.storedFn(in)
		if refers(in.Val.Type()) {
			st.put(st.resolveAll(x.paths(in.Addr)), w.resolved(x.roots(in.Val)), st.resolveAll(x.paths(in.Val)))
		}
	case *ssa.MapUpdate:
		w.use(in.Map, true, false, in.Pos(), "[]")
		var a []apath
		for _, p := range x.paths(in.Map) {
			a = append(a, p.with("[]"))
		}
		if refers(in.Value.Type()) {
			st.put(st.resolveAll(a), w.resolved(x.roots(in.Value)), st.resolveAll(x.paths(in.Value)))
		}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			w.use(in.X, false, false, in.Pos(), "[]")
		}
	case *ssa.Next:
		if r, ok := in.Iter.(*ssa.Range); ok && !in.IsString {
			w.use(r.X, false, false, in.Pos(), "[]")
		}
	case *ssa.Send:
		st.publish(w.resolved(x.roots(in.X)))
		w.block1("a send on a channel", in.Pos())
	case *ssa.Select:
		for _, s := range in.States {
			if s.Send != nil {
				st.publish(w.resolved(x.roots(s.Send)))
			}
		}
		if in.Blocking {
			limited := false
			for _, s := range in.States {
				limited = limited || s.Dir == types.RecvOnly && x.waitOn(s.Chan, "w") == ""
			}
			if !limited {
				w.block1("a select without a time limit", in.Pos())
			}
		}
	case *ssa.Defer:
		for _, d := range st.defs {
			if d == in {
				return
			}
		}
		st.defs = append(st.defs, in)
		st.sure[in] = true
	case *ssa.RunDefers:
		for i := len(st.defs) - 1; i >= 0; i-- {
			d := st.defs[i]
			if st.sure[d] {
				w.call(&d.Call, d.Pos(), false)
				continue
			}
			// only some of the ways come past the defer
			if m, l := x.lockOp(&d.Call); m != "" && strings.HasSuffix(m, "Unlock") {
				for _, p := range st.resolveAll(l) {
					delete(st.must, p)
				}
				continue
			}
			keep := st.clone()
			w.call(&d.Call, d.Pos(), false)
			st.must, st.may, st.relAt, st.rel = keep.must, keep.may, keep.relAt, keep.rel
		}
		st.defs, st.sure = nil, map[*ssa.Defer]bool{}
	case *ssa.Call:
		w.call(&in.Call, in.Pos(), false)
	case *ssa.Go:
		w.spawn(in)
	case *ssa.Return:
		if !w.emit {
			return
		}
		w.rets = append(w.rets, st.clone())
		w.retP = append(w.retP, in.Pos())
		for i, v := range in.Results {
			for len(w.s.rets) <= i {
				w.s.rets = append(w.s.rets, nil)
			}
			w.s.rets[i] = union(w.s.rets[i], st.resolveAll(x.paths(v)))
		}
	}
}

func (w *walker) resolved(s strset) strset {
	r := strset{}
	for k := range s {
		r[k] = true
		if a, ok := w.st.alias[apath{root: k}]; ok {
			r[a.root] = true
		}
	}
	return r
}

func (w *walker) block1(what string, pos token.Pos) {
	if what == "" || !w.emit {
		return
	}
	w.addBlock(block{what: what, held: w.st.must.clone(), minus: w.st.rel, pos: pos, fn: w.fn})
}

func (w *walker) addBlock(b block) {
	k := fmt.Sprint(b.what, b.held, b.minus, w.x.c.Pos(b.pos))
	w.s.blocks[k] = b
}

// waitOn: receiving from a timer's channel ends in time.
func (x *conc) waitOn(ch ssa.Value, what string) string {
	for _, v := range x.c.sources(ch) {
		switch v := v.(type) {
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				switch types.TypeString(eng.DerefType(fa.X.Type()), nil) {
				case "time.Timer", "time.Ticker":
					return ""
				}
			}
		case *ssa.Call:
			if f := v.Call.StaticCallee(); f != nil {
				switch f.String() {
				case "time.After", "time.Tick":
					return ""
				}
			}
		}
	}
	return what
}

// lockOp recognises the operations on locks.
func (x *conc) lockOp(call *ssa.CallCommon) (string, []apath) {
	if !call.IsInvoke() {
		if op, ps := x.boundLock(call.Value, 0); op != "" {
			return op, ps
		}
	}
	f := call.StaticCallee()
	if f == nil {
		// sync.Locker
		if call.IsInvoke() && types.TypeString(call.Value.Type(), nil) == "sync.Locker" {
			return call.Method.Name(), x.paths(call.Value)
		}
		return "", nil
	}
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "Lock", x.paths(call.Args[0])
	case "(*sync.RWMutex).RLock":
		return "RLock", x.paths(call.Args[0])
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "Unlock", x.paths(call.Args[0])
	case "(*sync.RWMutex).RUnlock":
		return "RUnlock", x.paths(call.Args[0])
	}
	return "", nil
}

// boundLock recognises an operation on a lock that is kept as a function, and
// one that a function of the repository hands out.
func (x *conc) boundLock(v ssa.Value, depth int) (string, []apath) {
	switch v := v.(type) {
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		if !strings.HasPrefix(f.Synthetic, "bound method wrapper") || len(v.Bindings) != 1 {
			return "", nil
		}
		switch eng.CanonName(f) {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			return "Lock", x.paths(v.Bindings[0])
		case "(*sync.RWMutex).RLock":
			return "RLock", x.paths(v.Bindings[0])
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			return "Unlock", x.paths(v.Bindings[0])
		case "(*sync.RWMutex).RUnlock":
			return "RUnlock", x.paths(v.Bindings[0])
		}
	case *ssa.ChangeType:
		return x.boundLock(v.X, depth)
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || !x.own(f) || depth > 3 || f.Signature.Results().Len() != 1 {
			return "", nil
		}
		op := ""
		var ps []apath
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			o, qs := x.boundLock(ret.Results[0], depth+1)
			if o == "" || op != "" && op != o {
				return "", nil
			}
			op = o
			for _, q := range qs {
				ps = union(ps, x.subst(q, target{fn: f, args: v.Call.Args}, v.Pos(), map[ssa.Value]bool{}))
			}
		}
		return op, ps
	}
	return "", nil
}

func (w *walker) lock(p apath, mode string, pos token.Pos) {
	st := w.st
	l := lockAt{p, mode, pos}
	if w.emit {
		held := st.must.clone()
		for k, v := range st.may {
			if _, ok := held[k]; !ok {
				held[k] = v
			}
		}
		w.addTake(taking{lock: l, held: held, minus: st.rel, pos: pos, fn: w.fn})
	}
	st.must[p], st.may[p] = l, l
	if st.rel[p.String()] {
		r := strset{}
		for k := range st.rel {
			if k != p.String() {
				r[k] = true
			}
		}
		st.rel = r
	}
}

func (w *walker) addTake(t taking) {
	if o, ok := t.held[t.lock.path]; ok && !strings.Contains(t.lock.path.comps, "/[]") {
		w.odd("taken-once", fmt.Sprintf("%s is taken (%s) while it is already held (%s, taken at %s)", lockName(t.lock), t.lock.mode, o.mode, w.x.c.Pos(o.pos)), t.pos)
	}
	k := fmt.Sprint(t.lock.path, t.lock.mode, t.held, t.minus)
	if _, ok := w.s.takes[k]; !ok {
		w.s.takes[k] = t
	}
}

func (w *walker) unlock(p apath, mode string, pos token.Pos) {
	st := w.st
	if l, ok := st.may[p]; ok {
		if l.mode != mode {
			w.odd("unlock-kind", fmt.Sprintf("%s was taken as %s and is released as %s", lockName(l), l.mode, mode), pos)
		}
		if _, ok := st.must[p]; !ok {
			w.odd("released", fmt.Sprintf("%s is released here though only some of the ways here took it", lockName(l)), pos)
		}
		delete(st.must, p)
		delete(st.may, p)
		return
	}
	st.relAt[p] = lockAt{p, mode, pos}
	st.rel = st.rel.add(strset{p.String(): true})
}

// call: the effects of a call.
func (w *walker) call(call *ssa.CallCommon, pos token.Pos, async bool) {
	x, st := w.x, w.st
	if op, ls := x.lockOp(call); op != "" {
		ls = st.resolveAll(ls)
		switch op {
		case "Lock", "RLock":
			mode := "W"
			if op == "RLock" {
				mode = "R"
			}
			for _, p := range ls {
				w.lock(p, mode, pos)
			}
		default:
			mode := "W"
			if op == "RUnlock" {
				mode = "R"
			}
			for _, p := range ls {
				w.unlock(p, mode, pos)
			}
		}
		return
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			w.use(call.Args[0], true, false, pos, "[]")
		case "copy":
			w.use(call.Args[0], true, false, pos, "[]")
			w.use(call.Args[1], false, false, pos, "[]")
		case "append":
			if len(call.Args) > 1 {
				w.use(call.Args[1], false, false, pos, "[]")
			}
		case "len":
			if _, ok := call.Args[0].Type().Underlying().(*types.Map); ok {
				w.use(call.Args[0], false, false, pos, "[]")
			}
		case "clear":
			w.use(call.Args[0], true, false, pos, "[]")
		}
		return
	}
	ts := x.targets(call)
	for _, t := range ts {
		w.apply(t, lockSet{}, strset{}, strset{}, pos)
	}
	if len(ts) > 0 {
		return
	}
	// a function that was passed in
	for _, p := range x.paths(call.Value) {
		if _, isFn := call.Value.Type().Underlying().(*types.Signature); isFn && !call.IsInvoke() && (p.root[0] == 'P' || p.root[0] == 'F') && (p.comps == "" || p.comps == "/*") {
			w.addCall(fcall{root: p.root, held: st.must.clone(), minus: st.rel, spawned: st.spawn, pos: pos})
		}
	}
	w.library(call, pos)
}

func (w *walker) addCall(f fcall) {
	if w.emit {
		w.s.calls[fmt.Sprint(f.root, f.held, f.minus, f.spawned)] = f
	}
}

// substAll puts what is passed in place of the roots of a path and of the
// locks held with it: those of the same object change together.
func (w *walker) substAll(p apath, locks lockSet, t target, pos token.Pos, f func(p apath, locks lockSet)) {
	x := w.x
	ps := x.subst(p, t, pos, map[ssa.Value]bool{})
	for i, q := range ps {
		ls := lockSet{}
		for _, l := range locks {
			alts := x.subst(l.path, t, pos, map[ssa.Value]bool{})
			for j, a := range alts {
				if l.path.root == p.root && len(alts) == len(ps) && i != j {
					continue
				}
				m := l
				m.path = w.st.resolve(a)
				ls[m.path] = m
			}
		}
		f(w.st.resolve(q), ls)
	}
}

func (w *walker) heldWith(ls lockSet, minus strset, extra lockSet) lockSet {
	r := ls.clone()
	for k, v := range w.st.must {
		if !minus[k.String()] {
			r[k] = v
		}
	}
	for k, v := range extra {
		if !minus[k.String()] {
			r[k] = v
		}
	}
	return r
}

func (w *walker) minusOf(m strset, t target, pos token.Pos) strset {
	r := strset{}
	for k := range m {
		i := strings.Index(k, "/")
		p := apath{root: k}
		if i >= 0 {
			p = apath{k[:i], k[i:]}
		}
		for _, q := range w.x.subst(p, t, pos, map[ssa.Value]bool{}) {
			r[w.st.resolve(q).String()] = true
		}
	}
	return r
}

// apply puts the summary of a called function in place of the call.
func (w *walker) apply(t target, extra lockSet, minus0, spawned strset, pos token.Pos) {
	x, st := w.x, w.st
	s := x.sum(t.fn)
	if w.emit {
		for _, u := range s.uses {
			m := w.minusOf(u.minus, t, pos)
			w.substAll(u.path, u.locks, t, pos, func(p apath, ls lockSet) {
				v := u
				v.path = p
				v.locks = w.heldWith(ls, m.add(minus0), extra)
				v.minus = m.add(st.rel)
				v.spawned = u.spawned.add(st.spawn).add(spawned)
				w.addUse(v)
			})
		}
		for _, u := range s.takes {
			m := w.minusOf(u.minus, t, pos)
			w.substAll(u.lock.path, u.held, t, pos, func(p apath, ls lockSet) {
				v := u
				v.lock.path = p
				v.held = w.heldWith(ls, m.add(minus0), extra)
				v.minus = m.add(st.rel)
				w.addTake(v)
			})
		}
		for _, b := range s.blocks {
			m := w.minusOf(b.minus, t, pos)
			w.substAll(apath{root: "U"}, b.held, t, pos, func(_ apath, ls lockSet) {
				v := b
				v.held = w.heldWith(ls, m.add(minus0), extra)
				v.minus = m.add(st.rel)
				w.addBlock(v)
			})
		}
	}
	if w.emit {
		for _, a := range s.starts {
			for _, p := range x.subst(a.path, t, pos, map[ssa.Value]bool{}) {
				p = st.resolve(p)
				w.addStart(started{a.thread, p, a.shared || st.pub[p.root]})
			}
		}
	}
	for _, c := range s.calls {
		var arg ssa.Value
		var i int
		switch c.root[0] {
		case 'P':
			fmt.Sscanf(c.root, "P%d", &i)
			if i < len(t.args) {
				arg = t.args[i]
			}
		case 'F':
			fmt.Sscanf(c.root, "F%d", &i)
			if t.clos != nil && t.via == nil && i < len(t.clos.Bindings) {
				arg = t.clos.Bindings[i]
			}
		}
		if arg == nil {
			continue
		}
		m := w.minusOf(c.minus, t, pos)
		var ls lockSet
		w.substAll(apath{root: "U"}, c.held, t, pos, func(_ apath, l lockSet) { ls = l })
		known := false
		for _, g := range x.calledValue(arg) {
			t2 := target{}
			switch g := g.(type) {
			case *ssa.Function:
				t2.fn = g
			case *ssa.MakeClosure:
				t2.fn = g.Fn.(*ssa.Function)
				if g.Parent() == w.fn {
					t2.clos = g
				}
			}
			if x.own(t2.fn) {
				known = true
				if c.own {
					th := x.thread(t2.fn, "go "+funcName(t2.fn)+" ("+x.c.Pos(c.pos)+")", "", t2.clos, c.pos)
					th.all, th.many = true, true
					if t2.clos != nil {
						st.publish(w.resolved(x.roots(t2.clos)))
					}
					st.spawn = st.spawn.add(strset{th.name: true})
					continue
				}
				w.apply(t2, ls, m, c.spawned, c.pos)
			}
		}
		if !known {
			for _, p := range x.paths(arg) {
				if (p.root[0] == 'P' || p.root[0] == 'F') && (p.comps == "" || p.comps == "/*") {
					w.addCall(fcall{root: p.root, held: w.heldWith(ls, m, nil), minus: m.add(st.rel), spawned: c.spawned.add(st.spawn), pos: c.pos, own: c.own})
				}
			}
		}
	}
	for _, o := range s.rel {
		for _, p := range x.subst(o.path, t, pos, map[ssa.Value]bool{}) {
			w.unlock(st.resolve(p), o.mode, o.pos)
		}
	}
	for _, o := range s.acq {
		for _, p := range x.subst(o.path, t, pos, map[ssa.Value]bool{}) {
			p = st.resolve(p)
			l := lockAt{p, o.mode, o.pos}
			st.must[p], st.may[p] = l, l
		}
	}
	roots := func(s strset) strset {
		r := strset{}
		for k := range s {
			for _, p := range x.subst(apath{root: k}, t, pos, map[ssa.Value]bool{}) {
				r[p.root] = true
				r[st.resolve(p).root] = true
			}
		}
		return r
	}
	for a, v := range s.links {
		for _, c := range x.subst(a, t, pos, map[ssa.Value]bool{}) {
			for _, d := range x.subst(v, t, pos, map[ssa.Value]bool{}) {
				if _, ok := st.alias[c]; !ok && c.fresh() {
					st.alias[c] = d
				}
			}
		}
	}
	for k, v := range s.inside {
		for c := range roots(strset{k: true}) {
			in := roots(v)
			delete(in, c)
			st.in[c] = st.in[c].add(in)
			if st.pub[c] {
				st.publish(in)
			}
		}
	}
	st.publish(roots(s.pubs))
	st.spawn = st.spawn.add(s.spawns)
}

// calledValue: the functions an argument can be, also the captured variable
// that holds one.
func (x *conc) calledValue(v ssa.Value) []ssa.Value {
	if a, ok := v.(*ssa.Alloc); ok {
		var r []ssa.Value
		for _, ref := range *a.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
				r = append(r, x.funcs(s.Val)...)
			}
		}
		return r
	}
	return x.funcs(v)
}
