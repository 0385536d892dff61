package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R01", "Effect analysis of every node operation with the consensus log and the state machine linked in (the bytes handed to raft are applied by the state machine on the same path), plus a who-may-call analysis over the reference graph: exactly one log entry per request, mutating queue operations only under the state machine.", 60, ruleR01)
	register("R02", "Symbolic round trip over SSA: the command each node operation proposes is encoded with the repository's MarshalJSON, decoded with its UnmarshalJSON and applied by the state machine on the same path; the queue operation reached and every argument are matched with the request's.", 60, ruleR02)
	register("R10", "Dataflow of message ids: one generator call per enqueue, the same term in the command, in the queue operation and in the answer; the generator's node number is the member's index in the raft configuration plus a constant.", 8, ruleR10)
}

const raftPkg = "github.com/hashicorp/raft"

// nodeOp describes an operation of a node in terms of its own parameters
// (their positions are fixed by the interface both APIs use).
type nodeOp struct {
	name  string // method of Node
	owner string // QueueManager or BadgerPriorityQueue
	op    string // the queue operation it stands for
	queue int    // parameter naming the queue
	args  []int  // the operation's arguments; -1 is a generated id
}

var nodeOps = []nodeOp{
	{"Enqueue", "BadgerPriorityQueue", "Enqueue", 0, []int{-1, 1, 2, 3}},
	{"Dequeue", "BadgerPriorityQueue", "Dequeue", 0, []int{1}},
	{"Ack", "BadgerPriorityQueue", "Ack", 0, []int{1}},
	{"Nack", "BadgerPriorityQueue", "Nack", 0, []int{1}},
	{"UpdatePriority", "BadgerPriorityQueue", "UpdatePriority", 0, []int{1, 2}},
	{"CreateQueue", "QueueManager", "Create", -1, []int{0, 1}},
	{"DeleteQueue", "QueueManager", "Delete", -1, []int{0}},
}

// mutators are the queue operations that change state.
func (c *Ctx) mutators(r *Report) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, o := range nodeOps {
		f := c.Method("pkg/queue", o.owner, o.op)
		if r.Anchor(f != nil, o.owner+"."+o.op) {
			m[f] = true
		}
	}
	for _, f := range []string{"Delete", "Create"} {
		if g := c.Method("pkg/queue", "BadgerPriorityQueue", f); g != nil {
			m[g] = true
		}
	}
	// and every other method of the two types that writes to storage
	for _, t := range []string{"QueueManager", "BadgerPriorityQueue"} {
		for _, f := range c.Methods("pkg/queue", t) {
			if f.Object().Exported() && c.writesStorage(f) {
				m[f] = true
			}
		}
	}
	return m
}

// writesStorage: the function, or one it refers to in the repository, writes or
// deletes in the database.
func (c *Ctx) writesStorage(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var w func(f *ssa.Function) bool
	w = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, g := range refs(f) {
			n := eng.CanonName(g)
			if strings.HasPrefix(n, "(*"+eng.Badger+".") {
				switch n[strings.LastIndex(n, ".")+1:] {
				case "Set", "SetEntry", "Delete", "DropPrefix", "DropAll", "NewWriteBatch":
					return true
				}
			}
			if c.InRepo(g) && w(g) {
				return true
			}
		}
		return false
	}
	return w(fn)
}

// refs lists the functions a function refers to.
//
// A function that a declaration puts into a package-level table is referred
// to by those who read the table.
func refs(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	add := func(g *ssa.Function) {
		r = append(r, g)
		if o := g.Origin(); o != nil {
			r = append(r, o)
		}
	}
	isInit := f.Name() == "init" && f.Synthetic != ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var ops [12]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				switch g := (*op).(type) {
				case *ssa.Function:
					if isInit && tableOf(in, 0) != nil {
						continue
					}
					add(g)
				case *ssa.Global:
					if isInit || g.Pkg == nil {
						continue
					}
					for _, h := range tableFuncs(g) {
						add(h)
					}
				}
			}
		}
	}
	return r
}

// tableOf is the package-level variable whose initial value the instruction
// builds.
func tableOf(in ssa.Instruction, depth int) *ssa.Global {
	if depth > 12 {
		return nil
	}
	follow := func(v ssa.Value) *ssa.Global {
		var g *ssa.Global
		for _, u := range *v.Referrers() {
			switch w := u.(type) {
			case *ssa.MapUpdate:
				if w.Map == v {
					continue
				}
			case *ssa.Store:
				if w.Val != v {
					continue
				}
			}
			if u == in {
				continue
			}
			if h := tableOf(u, depth+1); h != nil {
				g = h
			}
		}
		return g
	}
	root := func(a ssa.Value) *ssa.Global {
		for {
			switch x := a.(type) {
			case *ssa.Global:
				return x
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.IndexAddr:
				a = x.X
			case *ssa.Alloc:
				return follow(x)
			default:
				return nil
			}
		}
	}
	switch in := in.(type) {
	case *ssa.Store:
		return root(in.Addr)
	case *ssa.MapUpdate:
		if in.Map.Referrers() != nil {
			return follow(in.Map)
		}
	case *ssa.MakeInterface, *ssa.ChangeType, *ssa.MakeClosure, *ssa.Slice, *ssa.UnOp:
		return follow(in.(ssa.Value))
	}
	return nil
}

// tableFuncs: the functions in the initial value of a package-level variable.
func tableFuncs(g *ssa.Global) []*ssa.Function {
	f := g.Pkg.Func("init")
	if f == nil {
		return nil
	}
	var r []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var ops [12]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if h, ok := (*op).(*ssa.Function); ok && tableOf(in, 0) == g {
					r = append(r, h)
				}
			}
		}
	}
	return r
}

// fsm finds the state machine: the type of the repository that implements
// raft's FSM interface and is given to raft.
func (c *Ctx) fsm(r *Report) (*types.Named, *ssa.Function) {
	var iface *types.Interface
	if p := c.Src[Mod+"/pkg/raft"]; p != nil {
		if rp := p.Imports[raftPkg]; rp != nil && rp.Types != nil {
			if o := rp.Types.Scope().Lookup("FSM"); o != nil {
				iface, _ = o.Type().Underlying().(*types.Interface)
			}
		}
	}
	if !r.Anchor(iface != nil, "raft's FSM interface") {
		return nil, nil
	}
	var found *types.Named
	n := 0
	sc := c.Pkg("pkg/raft").Pkg.Scope()
	for _, nm := range sc.Names() {
		if tn, ok := sc.Lookup(nm).(*types.TypeName); ok && !tn.IsAlias() {
			if t, ok := tn.Type().(*types.Named); ok && types.Implements(types.NewPointer(t), iface) {
				if _, isI := t.Underlying().(*types.Interface); !isI {
					found = t
					n++
				}
			}
		}
	}
	if !r.Anchor(n == 1, "one state machine type in pkg/raft") {
		return nil, nil
	}
	return found, c.Method("pkg/raft", found.Obj().Name(), "Apply")
}

// nodeModel runs node operations with raft and the state machine linked.
type nodeModel struct {
	c     *Ctx
	r     *Report
	fsmT  *types.Named
	apply *ssa.Function
	e     *eng.Exec
}

func isQueueMethod(fn *ssa.Function) (owner, name string, ok bool) {
	if fn == nil || fn.Signature.Recv() == nil {
		return
	}
	t := fn.Signature.Recv().Type()
	if p, isP := t.(*types.Pointer); isP {
		t = p.Elem()
	}
	n, isN := t.(*types.Named)
	if !isN || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != qpkg {
		return
	}
	switch n.Obj().Name() {
	case "QueueManager", "BadgerPriorityQueue":
		return n.Obj().Name(), fn.Name(), true
	}
	return
}

func newNodeModel(c *Ctx, r *Report) *nodeModel {
	m := &nodeModel{c: c, r: r}
	m.fsmT, m.apply = c.fsm(r)
	if m.apply == nil {
		return nil
	}
	e := c.exec(r)
	m.e = e
	e.Opaque = func(name string, fn *ssa.Function) bool {
		_, _, ok := isQueueMethod(fn)
		return ok
	}
	e.Models["("+raftPkg+".ApplyFuture).Response"] = m.response
	gen := func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		t := e.Fresh("sym", "newid", call.Sig.Results().At(0).Type())
		st.Emit(&eng.Event{Kind: "genid", Recv: call.Recv, Res: []*eng.Term{t}, Pos: call.Pos, In: call.In()})
		k(st, t)
		return true
	}
	e.Models["(*github.com/bwmarrin/snowflake.Node).Generate"] = gen
	idconv := func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		k(st, eng.Mk("conv", "", call.Sig.Results().At(0).Type(), call.Recv))
		return true
	}
	e.Models["(github.com/bwmarrin/snowflake.ID).Int64"] = idconv
	return m
}

// response applies the proposed entry with the state machine.
func (m *nodeModel) response(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
	fut := call.Recv
	var data *eng.Term
	done := false
	for _, e := range st.Events() {
		if e.Kind == "raft" && e.Name == "Apply" && e.Res[0] == fut {
			data = e.Args[0]
		}
		if e.Kind == "futwait" && e.Recv == fut {
			done = true
		}
	}
	bad := data == nil || !done || !st.KnownNil(eng.Mk("futerr", "", nil, fut))
	st.Emit(&eng.Event{Kind: "futresp", Recv: fut, Pos: call.Pos, In: call.In(), Failed: bad})
	if bad {
		call.E.Primitive(call, st, k)
		return true
	}
	if v, ok := st.Mem(eng.Mk("answer", "", nil, fut)); ok {
		k(st, v)
		return true
	}
	st.Emit(&eng.Event{Kind: "apply", Recv: fut, Pos: call.Pos, In: call.In()})
	log := m.logEntry(st, data)
	fsm := eng.Sym("$fsm", types.NewPointer(m.fsmT))
	st.Assume(eng.IsNil(fsm), false)
	m.e.RunFuncIn(call.Fr, eng.FuncTerm(m.apply), st, []*eng.Term{fsm, log},
		func(st *eng.State, ret []*eng.Term, x eng.Exit, why string, pos token.Pos) {
			st.Emit(&eng.Event{Kind: "applied", Recv: fut, Pos: call.Pos, In: call.In()})
			if x != eng.Return {
				call.K(st, nil, x, why, pos)
				return
			}
			st.SetMem(eng.Mk("answer", "", nil, fut), ret[0])
			k(st, ret[0])
		})
	return true
}

// logEntry makes a raft log entry with the given data.
func (m *nodeModel) logEntry(st *eng.State, data *eng.Term) *eng.Term {
	lt := m.apply.Params[1].Type()
	log := m.e.Fresh("alloc", "raftlog", lt)
	st.Assume(eng.IsNil(log), false)
	bs := types.NewSlice(types.Typ[types.Uint8])
	st.Store(eng.FieldAddr(log, "Data", bs), eng.Mk("bytes", "", bs, data), bs)
	return log
}

// nodePath is a path of a node operation.
type nodePath struct {
	*path
	proposals []*eng.Event
	ops       []*eng.Event // queue operations other than lookups
	look      []*eng.Event // QueueManager.GetQueue
	other     []*eng.Event // read-only operations
	gen       []*eng.Event
	inFSM     map[*eng.Event]bool
}

func opOf(e *eng.Event) (owner, name string, ok bool) {
	if e.Kind != "call" {
		return
	}
	return isQueueMethod(e.Callee)
}

func (m *nodeModel) classify(p *path, mut map[*ssa.Function]bool) *nodePath {
	n := &nodePath{path: p, inFSM: map[*eng.Event]bool{}}
	in := false
	for _, e := range p.evs {
		switch e.Kind {
		case "apply":
			in = true
		case "applied":
			in = false
		case "raft":
			n.proposals = append(n.proposals, e)
		case "genid":
			n.gen = append(n.gen, e)
		}
		if o, name, ok := opOf(e); ok {
			n.inFSM[e] = in
			switch {
			case mut[e.Callee]:
				n.ops = append(n.ops, e)
			case o == "QueueManager" && name == "GetQueue":
				n.look = append(n.look, e)
			default:
				n.other = append(n.other, e)
			}
		}
	}
	return n
}

type nodeRun struct {
	op nodeOp
	fn *ssa.Function
	ps []*nodePath
}

func (x *nodeRun) param(i int) *eng.Term {
	p := x.fn.Params[i+1]
	return eng.Sym(p.Name(), p.Type())
}

func (c *Ctx) nodeRuns(r *Report) (*nodeModel, []*nodeRun) {
	m := newNodeModel(c, r)
	if m == nil {
		return nil, nil
	}
	mut := c.mutators(r)
	var rs []*nodeRun
	for _, o := range nodeOps {
		fn := c.Method("pkg/raft", "Node", o.name)
		want := 0
		for _, a := range o.args {
			if a >= want {
				want = a + 1
			}
		}
		if !r.Anchor(fn != nil && len(fn.Params) > want, "raft.Node."+o.name) {
			continue
		}
		outs := r.run(m.e, fn, nil)
		x := &nodeRun{op: o, fn: fn}
		for _, p := range paths(fn, outs) {
			x.ps = append(x.ps, m.classify(p, mut))
		}
		rs = append(rs, x)
	}
	return m, rs
}

func ruleR01(c *Ctx, r *Report) {
	m, rs := c.nodeRuns(r)
	if m == nil {
		return
	}
	c.apiArgs(r)
	for _, x := range rs {
		cons := "Node." + x.op.name
		did := 0
		for _, p := range x.ps {
			if p.cut {
				r.Ob(p.o.Exit != eng.Cut, "one-entry-per-request", cons, p.o, "the operation can repeat without bound")
				continue
			}
			n := 0
			for _, e := range p.proposals {
				if e.Name == "Apply" || e.Name == "ApplyLog" {
					n++
				}
			}
			r.Ob(n <= 1, "one-entry-per-request", cons, p.o, "one request puts %d entries into the log", n)
			if p.ok {
				r.Ob(n == 1, "success-needs-entry", cons, p.o, "the request succeeds without an entry in the log")
				did++
			}
			for _, e := range p.ops {
				r.Ob(p.inFSM[e], "only-applied-entries", cons+" "+e.Callee.Name(), p.o, "a queue operation runs outside the state machine")
			}
			// the entry carries the request's own values
			for _, e := range p.proposals {
				for i := range x.fn.Params[1:] {
					r.Ob(e.Args[0].Has(x.param(i)), "entry-carries-request", fmt.Sprintf("%s parameter %d", cons, i), p.o, "the entry does not contain parameter %s", x.fn.Params[i+1].Name())
				}
			}
		}
		r.Ob(did > 0, "can-succeed", cons, nil, "no path of the operation succeeds")
	}
	c.onlyStateMachine(r, m)
}

// onlyStateMachine: nobody but the state machine runs a mutating operation.
func (c *Ctx) onlyStateMachine(r *Report, m *nodeModel) {
	mut := c.mutators(r)
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	reach := c.Reachable()
	from := map[*ssa.Function]*ssa.Function{}
	// roots: everything reachable when the state machine's entry is cut out
	add := func(f, by *ssa.Function) {
		if f == nil || seen[f] || f == m.apply || !c.InRepo(f) {
			return
		}
		seen[f] = true
		from[f] = by
		todo = append(todo, f)
	}
	isRef := map[*ssa.Function]bool{}
	for f := range reach {
		for _, g := range refs(f) {
			isRef[g] = true
		}
	}
	for f := range reach {
		// entry points: main, inits, and methods called through interfaces
		if f == m.apply {
			continue
		}
		if !isRef[f] {
			add(f, nil)
		}
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, g := range refs(f) {
			if g.Synthetic != "" {
				if o, ok := g.Object().(*types.Func); ok {
					add(c.Prog.FuncValue(o), f)
				}
			}
			add(g, f)
		}
	}
	sites := 0
	for f := range reach {
		if pk := f.Package(); pk != nil && pk.Pkg.Path() == qpkg {
			continue
		}
		for _, g := range refs(f) {
			t := g
			if g.Synthetic != "" {
				if o, ok := g.Object().(*types.Func); ok {
					if h := c.Prog.FuncValue(o); h != nil {
						t = h
					}
				}
			}
			if !mut[t] {
				continue
			}
			sites++
			r.ObAt(!seen[f], "who-may-call", funcName(f)+" calls "+funcName(t), f.Pos(), "a mutating queue operation can be reached without the state machine applying an entry (%s)", chain(from, f))
		}
	}
	r.Ob(sites >= 7, "who-may-call", "call sites", nil, "only %d call sites of mutating queue operations were found outside pkg/queue, 7 are known", sites)
	// a mutating operation called through an interface is called by nobody known
	for f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					mt := ci.Common().Method
					it, ok := ci.Common().Value.Type().Underlying().(*types.Interface)
					if !ok || mt.Pkg() == nil || !strings.HasPrefix(mt.Pkg().Path(), Mod) {
						continue
					}
					for g := range mut {
						if g.Name() == mt.Name() && types.Implements(g.Signature.Recv().Type(), it) {
							r.ObAt(!seen[f], "who-may-call", funcName(f)+" calls "+funcName(g), in.Pos(), "a mutating queue operation can be reached through an interface without the state machine")
						}
					}
				}
			}
		}
	}
}

func chain(from map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var s []string
	for i := 0; f != nil && i < 12; i++ {
		s = append(s, funcName(f))
		f = from[f]
	}
	return strings.Join(s, " <- ")
}

func ruleR02(c *Ctx, r *Report) {
	m, rs := c.nodeRuns(r)
	if m == nil {
		return
	}
	for _, x := range rs {
		cons := "Node." + x.op.name
		applied := 0
		for _, p := range x.ps {
			if p.cut {
				r.Ob(p.o.Exit == eng.Cut, "no-crash", cons, p.o, "applying the command ends in %s", p.o.Why)
				continue
			}
			n := 0
			for _, e := range p.ops {
				if !p.inFSM[e] {
					continue
				}
				n++
				o, name, _ := opOf(e)
				r.Ob(o == x.op.owner && name == x.op.op, "right-operation", cons, p.o, "the command of %s is applied as %s.%s", x.op.name, o, name)
				if o != x.op.owner || name != x.op.op || len(e.Args) != len(x.op.args) {
					r.Ob(o != x.op.owner || name != x.op.op, "right-operation", cons, p.o, "%s takes other arguments than the rule knows", name)
					continue
				}
				for i, a := range x.op.args {
					got := strip(e.Args[i])
					if a < 0 {
						okID := len(p.gen) == 1 && got == strip(p.gen[0].Res[0])
						r.Ob(okID, "right-arguments", fmt.Sprintf("%s argument %d of %s", cons, i, name), p.o, "the id applied, %s, is not the id that was generated", got)
						continue
					}
					r.Ob(got == x.param(a), "right-arguments", fmt.Sprintf("%s argument %d of %s", cons, i, name), p.o, "%s is applied with %s, the request said %s", name, got, x.fn.Params[a+1].Name())
				}
				if x.op.queue >= 0 {
					okQ := false
					for _, l := range p.look {
						if len(l.Res) > 0 && l.Res[0] == e.Recv && !l.Failed {
							okQ = strip(l.Args[0]) == x.param(x.op.queue)
						}
					}
					r.Ob(okQ, "right-queue", cons, p.o, "%s runs on %s, not on the queue the request named", name, e.Recv)
				} else {
					r.Ob(true, "right-queue", cons, p.o, "")
				}
				applied++
			}
			r.Ob(n <= 1, "applied-once", cons, p.o, "one command is applied as %d operations", n)
			if p.ok {
				r.Ob(n == 1, "applied-once", cons+" success", p.o, "the request succeeds without its operation having been applied")
			}
			if badDecode(p.path) {
				r.Ob(n == 0, "undecodable-changes-nothing", cons, p.o, "a command that failed to decode is applied")
				r.Ob(!p.ok, "undecodable-is-error", cons, p.o, "a command that failed to decode is reported as a success")
			}
		}
		r.Ob(applied > 0, "is-applied", cons, nil, "the command is never applied as an operation: it is dropped, or it does not decode to what was encoded")
	}
	// a command of unknown bytes
	st := eng.NewState()
	raw := eng.Sym("$bytes", types.Typ[types.String])
	log := m.logEntry(st, raw)
	fsm := eng.Sym("$fsm", types.NewPointer(m.fsmT))
	st.Assume(eng.IsNil(fsm), false)
	outs := r.run(m.e, m.apply, st, fsm, log)
	mut := c.mutators(r)
	rejected := 0
	for _, p := range paths(m.apply, outs) {
		n := m.classify(p, mut)
		r.Ob(!p.cut, "no-crash", "state machine", p.o, "applying an arbitrary entry ends in %s", p.o.Why)
		if p.cut {
			continue
		}
		r.Ob(len(n.ops) <= 1, "applied-once", "state machine", p.o, "one entry is applied as %d operations", len(n.ops))
		err := respError(p.st, p.o.Ret[0])
		if !r.Ob(err != nil, "answers-with-result", "state machine", p.o, "the answer to an entry has no error field: %s", p.o.Ret[0]) {
			continue
		}
		if badDecode(p) {
			rejected++
			r.Ob(len(n.ops) == 0 && len(n.look) == 0, "undecodable-changes-nothing", "state machine", p.o, "an entry that failed to decode is applied")
		}
		if len(n.ops) == 0 {
			r.Ob(p.st.KnownNonNil(err), "unknown-is-error", "state machine", p.o, "an entry that is applied as no operation is answered without an error")
		}
	}
	r.Ob(rejected > 0, "undecodable-is-error", "state machine", nil, "no path on which an entry fails to decode was found")
}

func badDecode(p *path) bool {
	for _, e := range p.evs {
		if (e.Kind == "jsondecode") && e.Failed {
			return true
		}
	}
	return false
}

// respError is the error in an answer of the state machine.
func respError(st *eng.State, ret *eng.Term) *eng.Term {
	u := eng.Unbox(ret)
	for u.Op == "conv" {
		u = u.Args[0]
	}
	if u.Typ != nil && eng.IsErrorType(u.Typ) {
		return u
	}
	pt := eng.Deref(u)
	if pt == nil {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if eng.IsErrorType(s.Field(i).Type()) {
			return st.Value(st.Load(eng.FieldAddr(u, s.Field(i).Name(), s.Field(i).Type()), s.Field(i).Type()))
		}
	}
	return nil
}

func ruleR10(c *Ctx, r *Report) {
	m, rs := c.nodeRuns(r)
	if m == nil {
		return
	}
	for _, x := range rs {
		if x.op.op != "Enqueue" {
			for _, p := range x.ps {
				r.Ob(len(p.gen) == 0, "ids-for-messages-only", "Node."+x.op.name, p.o, "an id is generated by an operation that makes no message")
			}
			continue
		}
		for _, p := range x.ps {
			if p.cut {
				continue
			}
			r.Ob(len(p.gen) <= 1, "one-id", "Node.Enqueue", p.o, "%d ids are generated for one message", len(p.gen))
			for _, e := range p.gen {
				r.Ob(!p.inFSM[e] && !within(p, e), "id-by-proposer", "Node.Enqueue", p.o, "the id is generated while the entry is applied: every node would make its own")
			}
			for _, e := range p.ops {
				if e.Callee.Name() != "Enqueue" {
					continue
				}
				r.Ob(len(p.gen) == 1 && strip(e.Args[0]) == strip(p.gen[0].Res[0]), "id-in-command", "Node.Enqueue", p.o, "the message is stored under %s, not under the generated id", e.Args[0])
			}
			if p.ok && len(p.o.Ret) == 2 {
				id := retField(p.st, p.o.Ret[0], "ID")
				good := false
				for _, e := range p.ops {
					if e.Callee.Name() == "Enqueue" && id != nil {
						good = id == strip(e.Args[0]) || isFieldOf(id, e.Res[0], "ID")
					}
				}
				r.Ob(good, "id-told", "Node.Enqueue", p.o, "the answer carries id %v, not the id the message was stored under", id)
			}
		}
	}
	c.generators(r, m)
	c.apiIDs(r)
}

func within(p *nodePath, ev *eng.Event) bool {
	in := false
	for _, e := range p.evs {
		switch e.Kind {
		case "apply":
			in = true
		case "applied":
			in = false
		}
		if e == ev {
			return in
		}
	}
	return false
}

// retField loads a field of a returned pointer to a struct.
func retField(st *eng.State, t *eng.Term, name string) *eng.Term {
	u := eng.Unbox(t)
	pt := eng.Deref(u)
	if pt == nil {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return strip(st.Value(st.Load(eng.FieldAddr(u, name, s.Field(i).Type()), s.Field(i).Type())))
		}
	}
	return nil
}

// isFieldOf: t is the initial value of field name of the object p points to.
func isFieldOf(t, p *eng.Term, name string) bool {
	t = strip(t)
	if t.Op != "field" || t.Aux != name {
		return false
	}
	b := t.Args[0]
	return (b.Op == "load" || b.Op == "deref" || b.Op == "init") && len(b.Args) > 0 && strip(b.Args[0]) == strip(p) || strip(b) == strip(p)
}

// generators: a member's generator is made with its index among the members.
func (c *Ctx) generators(r *Report, m *nodeModel) {
	fn := c.Method("pkg/raft", "Node", "InitIDGenerator")
	if !r.Anchor(fn != nil, "raft.Node.InitIDGenerator") {
		return
	}
	own := c.nodeIDField(r)
	e := c.exec(r)
	outs := r.run(e, fn, nil)
	made, found := 0, 0
	offs := map[*eng.Term]bool{}
	others := map[*eng.Term]*eng.Outcome{}
	for _, p := range paths(fn, outs) {
		if p.cut {
			continue
		}
		var gens []*eng.Event
		for _, ev := range p.evs {
			if ev.Kind == "call" && ev.Name == "github.com/bwmarrin/snowflake.NewNode" {
				gens = append(gens, ev)
			}
		}
		if !p.ok {
			continue
		}
		r.Ob(len(gens) == 1 && !gens[0].Failed, "own-generator", "Node.InitIDGenerator", p.o, "a success without having made a generator")
		if len(gens) != 1 {
			continue
		}
		made++
		// kept where Enqueue takes it from
		kept := false
		p.st.Memory(func(a, v *eng.Term) {
			if a.Op == "fieldaddr" && strip(v) == strip(gens[0].Res[0]) {
				kept = true
			}
		})
		r.Ob(kept, "own-generator", "Node.InitIDGenerator keeps it", p.o, "the generator is made and not kept")
		// its number is the index of the member whose id is this node's
		arg := strip(gens[0].Args[0])
		idx, n := memberIndex(p, own)
		if n == 0 {
			others[arg] = p.o
			continue
		}
		r.Ob(n == 1, "generator-number", "Node.InitIDGenerator", p.o, "the member is found %d times", n)
		off := eng.Binop(token.SUB, arg, strip(idx), types.Typ[types.Int64])
		offs[off] = true
		r.Ob(off.IsConst() && len(offs) == 1, "generator-number", "Node.InitIDGenerator", p.o, "the generator's node number is %s for the member at index %s: it is not the index plus one fixed number, so two members can have the same", arg, idx)
		found++
	}
	r.Ob(found >= 2, "generator-number", "Node.InitIDGenerator", nil, "no two paths on which this node is found among the members at different indexes")
	r.Ob(made > 0, "own-generator", "Node.InitIDGenerator", nil, "no path makes a generator")
}

// nodeIDField is the field of Node that holds its own id.
func (c *Ctx) nodeIDField(r *Report) string {
	fn := c.Func("pkg/raft", "NewNode")
	if !r.Anchor(fn != nil, "raft.NewNode") {
		return ""
	}
	e := c.exec(r)
	name := ""
	for _, p := range paths(fn, r.run(e, fn, nil)) {
		if p.cut || len(p.o.Ret) == 0 {
			continue
		}
		pt := eng.Deref(p.o.Ret[0])
		if pt == nil {
			continue
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			v := retField(p.st, p.o.Ret[0], s.Field(i).Name())
			if v != nil && v.Op == "field" && v.Aux == "NodeID" {
				name = s.Field(i).Name()
			}
		}
	}
	r.Anchor(name != "", "the field of raft.Node that holds the configured node id")
	return name
}

// memberIndex: which member of the raft configuration the path found to have
// this node's id.
func memberIndex(p *path, own string) (idx *eng.Term, n int) {
	p.st.FactTerms(func(a *eng.Term, v bool) {
		if !v || a.Op != "bin" || a.Aux != "==" {
			return
		}
		for i := 0; i < 2; i++ {
			x, y := strip(a.Args[i]), strip(a.Args[1-i])
			if x.Op == "field" && x.Aux == "ID" && strings.HasPrefix(x.Args[0].Op, "index") && y.Op == "field" && y.Aux == own {
				idx = x.Args[0].Args[1]
				n++
			}
		}
	})
	return
}
