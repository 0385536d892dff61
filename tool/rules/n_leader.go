package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// leaderFacts (R08, R09): what the node says about the leader is what
// consensus says.
func (c *Ctx) leaderFacts(r *Report) {
	isL := c.Method("pkg/raft", "Node", "IsLeader")
	led := c.Method("pkg/raft", "Node", "Leader")
	if !r.Anchor(isL != nil && led != nil, "Node.IsLeader and Node.Leader") {
		return
	}
	e := c.exec(r)
	leader := int64(2)
	if p := c.Src[Mod+"/pkg/raft"]; p != nil {
		if rp := p.Imports[raftPkg]; rp != nil && rp.Types != nil {
			if o, ok := rp.Types.Scope().Lookup("Leader").(*types.Const); ok {
				if n, ok := constant.Int64Val(o.Val()); ok {
					leader = n
				}
			}
		}
	}
	var st *eng.State
	fresh := func(fn *ssa.Function) []*path {
		st = eng.NewState()
		var args []*eng.Term
		for _, p := range fn.Params {
			t := eng.Sym(p.Name(), p.Type())
			if eng.Deref(t) != nil {
				st.Assume(eng.IsNil(t), false)
			}
			args = append(args, t)
		}
		return paths(fn, r.run(e, fn, st, args...))
	}

	// IsLeader
	n := 0
	for _, p := range fresh(isL) {
		if p.cut {
			continue
		}
		n++
		ret := p.o.Ret[0]
		good := false
		for _, s := range p.evs {
			if s.Kind != "call" || s.Name != "(*"+raftPkg+".Raft).State" {
				continue
			}
			eq := eng.Eq(s.Res[0], eng.Const(constant.MakeInt64(leader), s.Res[0].Typ))
			if ret == eq || strip(ret) == eq {
				good = true
			}
			v, vk := p.st.Decide(ret)
			w, wk := p.st.Decide(eq)
			if vk && wk && v == w {
				good = true
			}
		}
		r.Ob(good, "says-leader", "Node.IsLeader", p.o, "the node says %s where consensus' state is compared otherwise than with Leader", ret)
	}
	r.Ob(n > 0, "instances", "Node.IsLeader", nil, "no path")

	// Leader: the host of the address kept
	fields := map[string]bool{}
	n = 0
	for _, p := range fresh(led) {
		if p.cut {
			continue
		}
		ret := strip(p.o.Ret[0])
		if s, ok := ret.StrVal(); ok {
			r.Ob(s == "", "says-leader", "Node.Leader", p.o, "the node names %q as the leader", s)
			continue
		}
		n++
		src := hostOf(p, ret)
		if !r.Ob(src != nil, "leader-host", "Node.Leader", p.o, "the leader's name is %s, not the host of its address", ret) {
			continue
		}
		if isRaftLeader(src) {
			fields["direct"] = true
			continue
		}
		_, ch := fieldChain(src)
		if r.Ob(len(ch) > 0, "says-leader", "Node.Leader", p.o, "the leader's address is %s", src) {
			fields[ch[len(ch)-1]] = true
		}
	}
	r.Ob(n > 0, "instances", "Node.Leader", nil, "the node never names a leader")

	// the kept address is what consensus says, refreshed for ever
	stores := 0
	loops := false
	for _, f := range c.Functions() {
		writes := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !fields[nodeField(c, fa)] {
					continue
				}
				stores++
				writes = true
				for _, v := range c.sources(s.Val) {
					ok := isLeaderValue(v)
					r.ObAt(ok, "says-leader", "the leader kept by "+eng.CanonName(f), s.Pos(), "the leader's address kept comes from %s", v)
				}
			}
		}
		if writes {
			loops = c.refreshed(r, f) || loops
		}
	}
	if !fields["direct"] {
		r.Ob(stores > 0 && loops, "leader-refreshed", "Node", nil, "the leader's address the node keeps is not refreshed by a task that Initialize starts and that repeats every few seconds")
	}
}

func nodeField(c *Ctx, fa *ssa.FieldAddr) string {
	pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
	n, ok := pt.(*types.Named)
	if !ok || n != c.Named("pkg/raft", "Node") {
		return ""
	}
	return n.Underlying().(*types.Struct).Field(fa.Field).Name()
}

func isLeaderValue(v ssa.Value) bool {
	if k, ok := v.(*ssa.Const); ok {
		return k.Value != nil && k.Value.ExactString() == `""`
	}
	i := 0
	if x, ok := v.(*ssa.Extract); ok {
		v, i = x.Tuple, x.Index
	}
	call, ok := v.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil || i != 0 {
		return false
	}
	switch eng.CanonName(call.Call.StaticCallee()) {
	case "(*" + raftPkg + ".Raft).LeaderWithID", "(*" + raftPkg + ".Raft).Leader":
		return true
	}
	return false
}

func isRaftLeader(t *eng.Term) bool {
	t = strip(t)
	return t.Op == "res" && (strings.Contains(t.Aux, "Raft).LeaderWithID.0") || strings.HasSuffix(t.Aux, "Raft).Leader"))
}

// hostOf: t is the host part of an address; the address.
func hostOf(p *path, t *eng.Term) *eng.Term {
	for _, e := range p.evs {
		if e.Kind != "call" || len(e.Res) == 0 || strip(e.Res[0]) != t {
			continue
		}
		switch e.Name {
		case "net.SplitHostPort":
			return strip(e.Args[0])
		case "(*net/url.URL).Hostname":
			for _, f := range p.evs {
				if f.Kind == "call" && len(f.Res) > 0 && strip(f.Res[0]) == strip(e.Recv) && !f.Failed && (f.Name == "net/url.ParseRequestURI" || f.Name == "net/url.Parse") {
					a := f.Args[0]
					if a.Op == "concat" && len(a.Args) == 2 {
						if s, ok := a.Args[0].StrVal(); ok && strings.HasSuffix(s, "://") {
							return strip(a.Args[1])
						}
					}
				}
			}
		}
	}
	return nil
}

// refreshed: the function (or the task that calls it) is started by Initialize
// and writes again and again, with pauses of a few seconds at most.
func (c *Ctx) refreshed(r *Report, w *ssa.Function) bool {
	init := c.Method("pkg/raft", "Node", "Initialize")
	if init == nil {
		return false
	}
	for _, f := range append(c.under(init), init) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				t := g.Call.StaticCallee()
				if t == nil {
					continue
				}
				for _, h := range append(c.under(t), t) {
					if h != w {
						continue
					}
					return c.repeats(t)
				}
			}
		}
	}
	return false
}

// under lists the repository functions a function calls or refers to.
func (c *Ctx) under(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{f: true}
	var out []*ssa.Function
	todo := []*ssa.Function{f}
	for len(todo) > 0 {
		g := todo[0]
		todo = todo[1:]
		for _, h := range refs(g) {
			if !seen[h] && c.InRepo(h) {
				seen[h] = true
				out = append(out, h)
				todo = append(todo, h)
			}
		}
	}
	return out
}

// repeats: the task goes round for ever (every path of it is cut at the loop
// bound or ends because it was told to stop), pausing at most a few seconds.
func (c *Ctx) repeats(t *ssa.Function) bool {
	r := NewReport(c, "")
	e := c.exec(r)
	st := eng.NewState()
	var args []*eng.Term
	for _, p := range t.Params {
		a := eng.Sym(p.Name(), p.Type())
		if eng.Deref(a) != nil {
			st.Assume(eng.IsNil(a), false)
		}
		args = append(args, a)
	}
	rounds := 0
	for _, p := range paths(t, r.run(e, t, st, args...)) {
		asks, waits := 0, 0
		for _, x := range p.evs {
			if x.Kind == "call" && (strings.HasSuffix(x.Name, "Raft).LeaderWithID") || strings.HasSuffix(x.Name, "Raft).Leader")) {
				asks++
			}
			if x.Kind == "call" && (x.Name == "time.Sleep" || x.Name == "time.NewTicker" || x.Name == "time.Tick" || x.Name == "time.After" || x.Name == "time.NewTimer") {
				waits++
				if n, ok := strip(x.Args[0]).IntVal(); !ok || n <= 0 || n > 10_000_000_000 {
					return false
				}
			}
		}
		if p.cut && asks > 1 && waits > 0 {
			rounds++
		}
		if !p.cut {
			// ends: only when told to
			told := false
			for _, x := range p.evs {
				if x.Kind == "recv" || x.Kind == "closed" {
					told = true
				}
			}
			if !told {
				return false
			}
		}
	}
	return rounds > 0
}
