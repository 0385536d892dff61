package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

const grpcPkg = "google.golang.org/grpc"
const protoPkg = Mod + "/pkg/proto"

// grpcAPI is the gRPC service as its constructor registers it.
type grpcAPI struct {
	c       *Ctx
	r       *Report
	e       *eng.Exec
	ctor    *ssa.Function
	port    *eng.Term
	server  *eng.Term // the registered service
	st      *eng.State
	iface   *types.Interface
	unary   []*apiRun
	streams []*apiRun
	shared  []*eng.Term // addresses of the service's fields that requests change
	before  map[*eng.Term]*eng.Term
	used    map[*ssa.Function]bool // unary-shaped methods that streams use
	helpers []*apiRun
}

// grpcModels: connections to other nodes and the registration of the service.
func (c *Ctx) grpcModels(e *eng.Exec) {
	dial := func(off int) eng.Model {
		return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
			bad := st.Clone()
			conn := e.Fresh("alloc", "conn", call.Sig.Results().At(0).Type())
			st.SetMem(eng.Mk("dialled", "", nil, conn), eng.Concat(call.Args[off]))
			st.Emit(&eng.Event{Kind: "dial", Name: call.Name, Args: []*eng.Term{eng.Concat(call.Args[off])}, Res: []*eng.Term{conn}, Pos: call.Pos, In: call.In()})
			k(st, conn, eng.Nil)
			bad.Emit(&eng.Event{Kind: "dial", Name: call.Name, Args: []*eng.Term{eng.Concat(call.Args[off])}, Pos: call.Pos, In: call.In(), Failed: true})
			k(bad, eng.Nil, e.AnyErr("dial"))
			return true
		}
	}
	e.Models[grpcPkg+".Dial"] = dial(0)
	e.Models[grpcPkg+".NewClient"] = dial(0)
	e.Models[grpcPkg+".DialContext"] = dial(1)
	e.Models["(*"+grpcPkg+".ClientConn).Close"] = func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		st.Emit(&eng.Event{Kind: "closed", Recv: call.Recv, Pos: call.Pos, In: call.In()})
		k(st, e.Fresh("res", "Close", call.Sig.Results().At(0).Type()))
		return true
	}
	e.Models[protoPkg+".NewDOQClient"] = func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		cl := e.Fresh("alloc", "client", call.Sig.Results().At(0).Type())
		if v, ok := st.Mem(eng.Mk("dialled", "", nil, eng.Unbox(call.Args[0]))); ok {
			st.SetMem(eng.Mk("dialled", "", nil, cl), v)
		}
		k(st, cl)
		return true
	}
	e.Models[protoPkg+".RegisterDOQServer"] = func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		st.Emit(&eng.Event{Kind: "register", Name: call.Name, Args: call.Args, Pos: call.Pos, In: call.In()})
		k(st)
		return true
	}
	e.Models["("+grpcPkg+".ServiceRegistrar).RegisterService"] = e.Models[protoPkg+".RegisterDOQServer"]
	e.Models[grpcPkg+".NewServer"] = func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		k(st, e.Fresh("alloc", "server", call.Sig.Results().At(0).Type()))
		return true
	}
}

// mutated: fields of the repository's structs that are assigned after the
// object was made.
func (c *Ctx) mutated() map[string]bool {
	m := map[string]bool{}
	for _, f := range c.Functions() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, made := fa.X.(*ssa.Alloc); made {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem()
				m[fieldKey(st, fa.Field)] = true
			}
		}
	}
	return m
}

func fieldKey(t types.Type, i int) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return types.TypeString(t, nil) + "." + s.Field(i).Name()
}

// settle is the state some time after a constructor ran: fields that change
// after construction hold unknown values, everything else what it was given.
func (c *Ctx) settle(e *eng.Exec, st *eng.State) (*eng.State, []*eng.Term) {
	mut := c.mutated()
	n := st.Spawn(nil)
	var ch []*eng.Term
	seen := map[*eng.Term]bool{}
	var object func(base *eng.Term)
	object = func(base *eng.Term) {
		bt := eng.Deref(base)
		if bt == nil || seen[base] {
			return
		}
		seen[base] = true
		s, ok := bt.Elem().Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			a := eng.FieldAddr(base, f.Name(), f.Type())
			if mut[fieldKey(bt.Elem(), i)] {
				ch = append(ch, a)
			} else {
				object(a)
			}
		}
	}
	var bases []*eng.Term
	st.Memory(func(a, v *eng.Term) {
		for a.Op == "fieldaddr" {
			a = a.Args[0]
			bases = append(bases, a)
		}
		if v != nil && v.Op == "alloc" {
			bases = append(bases, v)
		}
	})
	for _, b := range bases {
		if b.Op != "fieldaddr" {
			object(b)
		}
	}
	sort.Slice(ch, func(i, j int) bool { return ch[i].String() < ch[j].String() })
	for _, a := range ch {
		var t types.Type
		if p := eng.Deref(a); p != nil {
			t = p.Elem()
		} else if v, ok := st.Mem(a); ok {
			t = v.Typ
		}
		n.SetMem(a, e.Fresh("sym", "some:"+a.Aux, t))
	}
	return n, ch
}

func (c *Ctx) grpcAPI(r *Report) *grpcAPI {
	g := &grpcAPI{c: c, r: r, used: map[*ssa.Function]bool{}}
	g.ctor = c.Func("pkg/grpc", "NewGRPCServer")
	in := c.Named("pkg/proto", "DOQServer")
	if !r.Anchor(g.ctor != nil && len(g.ctor.Params) == 2, "grpc.NewGRPCServer(node, port)") || !r.Anchor(in != nil, "the gRPC service definition") {
		return nil
	}
	g.iface = in.Underlying().(*types.Interface)
	g.e = c.exec(r)
	g.e.Visits = 2
	c.grpcModels(g.e)
	var args []*eng.Term
	st := eng.NewState()
	for _, p := range g.ctor.Params {
		t := eng.Sym(p.Name(), p.Type())
		args = append(args, t)
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			g.port = t
		} else {
			st.Assume(eng.IsNil(t), false)
		}
	}
	n := 0
	for _, p := range paths(g.ctor, r.run(g.e, g.ctor, st, args...)) {
		if p.cut || !p.ok {
			continue
		}
		n++
		regs := p.kind("register")
		if !r.Ob(len(regs) == 1, "registered", "gRPC service", p.o, "the service is registered %d times", len(regs)) {
			return nil
		}
		g.server = eng.Unbox(regs[0].Args[1])
		ret := eng.Unbox(p.o.Ret[0])
		r.Ob(eng.Unbox(regs[0].Args[0]) == ret, "registered", "gRPC server", p.o, "the service is registered at another server than the one returned")
		g.st, g.shared = c.settle(g.e, p.st)
	}
	if !r.Anchor(n > 0 && g.server != nil && g.port != nil, "the gRPC service") {
		return nil
	}
	g.before = map[*eng.Term]*eng.Term{}
	for _, a := range g.shared {
		v, _ := g.st.Mem(a)
		g.before[a] = v
	}
	return g
}

// method of the registered service, nil if it is the generated default.
func (g *grpcAPI) method(name string) *ssa.Function {
	sel := g.c.Prog.MethodSets.MethodSet(g.server.Typ).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	o := sel.Obj().(*types.Func)
	if o.Pkg() != nil && o.Pkg().Path() == protoPkg {
		return nil
	}
	return g.c.Prog.MethodValue(sel)
}

func (g *grpcAPI) runMethod(m *types.Func) *apiRun {
	fn := g.method(m.Name())
	if fn == nil {
		return nil
	}
	x := g.runFunc(fn, m.Type().(*types.Signature), m.Name())
	x.op = apiOpOf(func(o *apiOp) bool { return o.rpc == m.Name() && x.outT != nil })
	return x
}

func (g *grpcAPI) runFunc(fn *ssa.Function, sig *types.Signature, name string) *apiRun {
	x := &apiRun{name: name, rpc: name, api: "gRPC", fn: fn}
	st := g.st.Clone()
	st.Assume(eng.IsNil(g.server), false)
	args := []*eng.Term{g.server}
	var in *eng.Term
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		t := eng.Sym("arg"+strconv.Itoa(i), p.Type())
		st.Assume(eng.IsNil(t), false)
		args = append(args, t)
		if d, ok := p.Type().(*types.Pointer); ok && strings.HasPrefix(types.TypeString(d.Elem(), nil), protoPkg) {
			in, x.inT = t, p.Type()
		}
	}
	if sig.Results().Len() == 2 {
		x.outT = sig.Results().At(0).Type()
	}
	var outs []eng.Outcome
	g.e.RunFunc(eng.FuncTerm(fn), st, args, func(st *eng.State, ret []*eng.Term, ex eng.Exit, why string, pos token.Pos) {
		outs = append(outs, eng.Outcome{Ret: ret, St: st, Exit: ex, Why: why, Pos: pos})
	})
	g.r.finish(g.e, "gRPC "+x.name, outs)
	for _, p := range paths(fn, outs) {
		x.ps = append(x.ps, g.c.apiPath(p, in, 0))
	}
	return x
}

// handlers runs every method of the service.
func (g *grpcAPI) handlers() []*apiRun {
	if g.unary == nil {
		for i := 0; i < g.iface.NumMethods(); i++ {
			m := g.iface.Method(i)
			if !m.Exported() {
				continue
			}
			if m.Type().(*types.Signature).Results().Len() == 2 {
				if x := g.runMethod(m); x != nil {
					g.unary = append(g.unary, x)
				}
			}
		}
	}
	return g.unary
}

func (g *grpcAPI) streamRuns() []*apiRun {
	if g.streams == nil {
		g.streamMode()
		for i := 0; i < g.iface.NumMethods(); i++ {
			m := g.iface.Method(i)
			if m.Exported() && m.Type().(*types.Signature).Results().Len() == 1 {
				if x := g.runMethod(m); x != nil {
					g.streams = append(g.streams, x)
				}
			}
		}
		g.e.Opaque = nil
		for fn := range g.used {
			if fn.Object() != nil && g.iface != nil {
				pub := false
				for i := 0; i < g.iface.NumMethods(); i++ {
					pub = pub || g.method(g.iface.Method(i).Name()) == fn
				}
				if !pub {
					x := g.runFunc(fn, fn.Signature, fn.Name())
					res := types.TypeString(x.outT, nil)
					res = strings.TrimSuffix(res[strings.LastIndex(res, ".")+1:], "Response")
					x.op = apiOpOf(func(o *apiOp) bool { return o.rpc == res })
					x.rpc = res
					g.helpers = append(g.helpers, x)
				}
			}
		}
	}
	return g.streams
}

// methodsRule (A04): every method of the definition is implemented.
func (g *grpcAPI) methodsRule(r *Report) {
	n := 0
	for i := 0; i < g.iface.NumMethods(); i++ {
		m := g.iface.Method(i)
		if !m.Exported() {
			continue
		}
		n++
		r.Ob(g.method(m.Name()) != nil, "implemented", "gRPC "+m.Name(), nil, "the service does not implement %s itself: calls of it fail as unimplemented", m.Name())
	}
	r.Ob(n >= 9, "instances", "gRPC methods", nil, "the service definition has %d methods, at least 9 are known", n)
	for _, o := range apiOps {
		if o.rpc != "" {
			has := false
			for i := 0; i < g.iface.NumMethods(); i++ {
				has = has || g.iface.Method(i).Name() == o.rpc
			}
			r.Ob(has, "implemented", "gRPC "+o.rpc, nil, "the service definition has no %s", o.rpc)
		}
	}
}

// target renders the address a connection was made to.
func (g *grpcAPI) target(p *apiPath, t *eng.Term) string {
	parts := []*eng.Term{t}
	if t.Op == "concat" {
		parts = t.Args
	}
	var b strings.Builder
	for _, q := range parts {
		if s, ok := q.StrVal(); ok {
			b.WriteString(s)
			continue
		}
		u := strip(q)
		if u.Op == "dec" {
			u = strip(u.Args[0])
		}
		switch {
		case p.leaderOf(u) != nil:
			b.WriteString("{leader}")
		case u == g.port:
			b.WriteString("{port}")
		default:
			b.WriteString("{?" + u.String() + "}")
		}
	}
	return b.String()
}

func (g *grpcAPI) toLeader(p *apiPath, t *eng.Term) bool {
	switch g.target(p, t) {
	case "{leader}:{port}":
		return true
	case "{leader}":
		return p.st.Known(eng.Eq(g.port, eng.Int(0)), true) || p.st.Known(eng.Eq(eng.Int(0), g.port), true)
	}
	return false
}

// forwardRule (R09) for gRPC.
func (g *grpcAPI) forwardRule(r *Report, x *apiRun) {
	if x.op == nil {
		return
	}
	cons := "gRPC " + x.name
	sent := 0
	for _, p := range x.ps {
		for _, e := range p.fwd {
			if e.Kind == "http" {
				r.Ob(false, "same-operation", cons, p.o, "the request is forwarded by HTTP")
				continue
			}
			sent++
			r.Ob(last(e.Name) == x.rpc, "same-operation", cons, p.o, "the request is forwarded as %s", last(e.Name))
			ok := len(e.Args) > 1
			if ok {
				ok = g.sameRequest(p, x, e.Args[1])
			}
			r.Ob(ok, "same-request", cons, p.o, "the forwarded request is %s, not the one received", e.Args[len(e.Args)-2])
			if !p.cut && p.ok && !e.Failed {
				ret := eng.Unbox(p.o.Ret[0])
				r.Ob(ret == strip(e.Res[0]) || g.sameMessage(p, x, e), "same-answer", cons, p.o, "the answer is %s, not the one the leader gave", ret)
			}
		}
	}
	r.Ob(sent > 0, "is-forwarded", cons, nil, "the request is never forwarded")
}

// targetRule (R08, R09): a request is forwarded to the leader the node knows,
// and the kept connection stays the leader's.
func (g *grpcAPI) targetRule(r *Report, x *apiRun) {
	cons := "gRPC " + x.name
	for _, p := range x.ps {
		for _, e := range p.fwd {
			if e.Kind == "http" {
				r.Ob(false, "to-the-leader", cons, p.o, "a gRPC request is forwarded by HTTP")
				continue
			}
			g.leaderClient(r, p, cons, e)
		}
		g.clientInvariant(r, p, cons)
	}
}

// sameRequest: the request object itself, or one with the same fields.
func (g *grpcAPI) sameRequest(p *apiPath, x *apiRun, t *eng.Term) bool {
	if strip(t) == p.in {
		return true
	}
	v := p.st.Value(t)
	return g.sameFields(v, x.inT, func(name string, f *eng.Term) bool { return wireName(f, p.in, x.inT) == name })
}

func (g *grpcAPI) sameMessage(p *apiPath, x *apiRun, e *eng.Event) bool {
	return g.sameFields(p.out, x.outT, func(name string, f *eng.Term) bool { return wireName(f, strip(e.Res[0]), x.outT) == name })
}

func (g *grpcAPI) sameFields(v *eng.Term, t types.Type, same func(string, *eng.Term) bool) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if v == nil || v.Op != "struct" {
		return false
	}
	n := 0
	for name, f := range outFields(v, t) {
		n++
		if !same(name, f) {
			return false
		}
	}
	return n > 0
}

// leaderClient: the request goes to the node that is the leader now.
func (g *grpcAPI) leaderClient(r *Report, p *apiPath, cons string, e *eng.Event) {
	cl := eng.Unbox(e.Recv)
	if to, ok := p.st.Mem(eng.Mk("dialled", "", nil, cl)); ok {
		if !r.Ob(g.toLeader(p, to), "to-the-leader", cons, p.o, "the request is sent to %s, not to the leader at the service's port", g.target(p, to)) {
			return
		}
		r.Ob(g.known(p), "leader-is-known", cons, p.o, "the request is forwarded without a check that the leader is known")
		return
	}
	// a client kept from before: only if it is the leader's
	ok := false
	for _, a := range g.shared {
		if g.before[a] != cl {
			continue
		}
		for _, l := range p.leaders {
			for _, b := range g.shared {
				if b != a && g.pair(a, b) && p.st.Known(eng.Eq(strip(l.Res[0]), g.before[b]), true) {
					ok = true
				}
			}
		}
	}
	r.Ob(ok, "to-the-leader", cons+" kept connection", p.o, "the request is sent over %s without a check that it is the connection to the leader", cl)
	r.Ob(g.known(p), "leader-is-known", cons, p.o, "the request is forwarded without a check that the leader is known")
}

func (g *grpcAPI) known(p *apiPath) bool {
	for _, l := range p.leaders {
		if p.st.Known(isEmptyStr(l.Res[0]), false) {
			return true
		}
	}
	return false
}

// pair: a is the kept client, b the leader it belongs to.
func (g *grpcAPI) pair(a, b *eng.Term) bool {
	return g.before[a] != nil && g.before[b] != nil && types.IsInterface(g.before[a].Typ) && isStrT(g.before[b].Typ) && a.Args[0] == b.Args[0]
}

func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// clientInvariant: the kept client stays the one of the leader kept with it.
func (g *grpcAPI) clientInvariant(r *Report, p *apiPath, cons string) {
	if p.o.Exit == eng.Panic {
		return
	}
	for _, a := range g.shared {
		for _, b := range g.shared {
			if a == b || !g.pair(a, b) {
				continue
			}
			av, _ := p.st.Mem(a)
			bv, _ := p.st.Mem(b)
			if av == nil || bv == nil || av == g.before[a] && bv == g.before[b] {
				continue
			}
			av = eng.Unbox(av)
			if av.Op == "nil" {
				continue
			}
			to, ok := p.st.Mem(eng.Mk("dialled", "", nil, av))
			good := ok && p.leaderOf(bv) != nil && g.toLeader(p, to)
			r.Ob(good, "kept-connection", cons, p.o, "afterwards the kept client (%s) is not the one of the leader kept with it (%s)", av, bv)
		}
	}
}
