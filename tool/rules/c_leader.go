package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R12", "Path analysis of Initialize and of the tasks it starts (every value received from consensus' leadership channel reaches the callback before the next is received); the program's entry is run to the start of consensus, and the callback registered there is run for a gain and a loss, comparing every part of the endpoint it sends with this node's own.", 40, ruleR12)
}

const slicesPkg = "k8s.io/client-go/kubernetes/typed/discovery/v1"

func ruleR12(c *Ctx, r *Report) {
	c.leadershipPassed(r)
	c.endpointRule(r)
}

// callbackField is where SetLeaderChangeFunc keeps the callback.
func (c *Ctx) callbackField(r *Report) string {
	fn := c.Method("pkg/raft", "Node", "SetLeaderChangeFunc")
	if !r.Anchor(fn != nil && len(fn.Params) == 2, "Node.SetLeaderChangeFunc") {
		return ""
	}
	e := c.exec(r)
	st := eng.NewState()
	n, f := eng.Sym("node", fn.Params[0].Type()), eng.Sym("callback", fn.Params[1].Type())
	st.Assume(eng.IsNil(n), false)
	st.Assume(eng.IsNil(f), false)
	field := ""
	for _, p := range paths(fn, r.run(e, fn, st, n, f)) {
		got := ""
		for _, w := range p.evs {
			if w.Kind == "wr" && len(w.Args) > 0 && strip(w.Args[0]) == f && w.Recv.Op == "fieldaddr" && strip(w.Recv.Args[0]) == n {
				got = w.Recv.Aux
			}
		}
		r.Ob(got != "" && (field == "" || field == got), "callback-kept", "Node.SetLeaderChangeFunc", p.o, "the callback is not kept")
		field = got
	}
	return field
}

// isLeaderCh: a channel that consensus reports leadership on.
func isLeaderCh(t *eng.Term) bool {
	return t.Contains(func(x *eng.Term) bool { return x.Op == "res" && strings.Contains(x.Aux, "LeaderCh") })
}

// leadershipPassed: every value received is passed on.
func (c *Ctx) leadershipPassed(r *Report) {
	field := c.callbackField(r)
	init := c.Method("pkg/raft", "Node", "Initialize")
	if field == "" || !r.Anchor(init != nil, "Node.Initialize") {
		return
	}
	e := c.exec(r)
	c.serverModels(e, clusterStart)
	st := eng.NewState()
	node := eng.Sym("node", init.Params[0].Type())
	st.Assume(eng.IsNil(node), false)
	// passes: the receive is followed by the callback with its value
	passes := func(p *path, i int) bool {
		v := p.evs[i].Res
		for _, x := range p.evs[i+1:] {
			if x.Kind == "recv" && isLeaderCh(x.Recv) {
				break
			}
			if x.Kind != "call" || x.Name != "dynamic" || x.Recv == nil || len(x.Args) != 1 {
				continue
			}
			_, ch := fieldChain(strip(x.Recv))
			if len(ch) == 0 || ch[len(ch)-1] != field {
				continue
			}
			if len(v) > 0 && same(x.Args[0], v[0]) {
				return true
			}
			if len(v) > 0 {
				a, ak := p.st.Decide(x.Args[0])
				b, bk := p.st.Decide(v[0])
				if ak && bk && a == b {
					return true
				}
			}
		}
		return p.unset(field)
	}
	open := func(p *path, ev *eng.Event) bool { // the channel is not known to be closed
		if len(ev.Res) > 1 {
			if ok, known := p.st.Decide(ev.Res[1]); known && !ok {
				return false
			}
		}
		return true
	}
	seen := map[*ssa.Function]bool{}
	listened := map[string]bool{}
	n := 0
	for _, p := range paths(init, r.run(e, init, st, node)) {
		boot := false
		k := 0
		for i, ev := range p.evs {
			if ev.Kind == "raft" && ev.Name == "BootstrapCluster" {
				boot = true
			}
			if ev.In != nil {
				seen[ev.In] = true
			}
			if ev.Kind != "recv" || !isLeaderCh(ev.Recv) || !open(p, ev) {
				continue
			}
			if p.cut && i == lastRecv(p) {
				continue
			}
			k++
			n++
			what := "first notification after bootstrapping"
			if !boot {
				what = "start of a node that is a member already"
			} else if k > 1 {
				what = "later notification while starting"
			}
			r.Ob(passes(p, i), "passes-on", what, p.o, "a change of leadership that consensus reports while the node starts is not passed to the callback")
		}
		if p.cut {
			continue
		}
		// the tasks
		listeners := 0
		for _, ev := range p.evs {
			if ev.Kind != "go" || len(ev.Args) == 0 {
				continue
			}
			t := eng.Unbox(ev.Args[0])
			if t.Fn == nil {
				continue
			}
			key := t.Fn.String()
			if done, ok := listened[key]; ok {
				if done {
					listeners++
				}
				continue
			}
			got := false
			rec := func(st *eng.State, ret []*eng.Term, x eng.Exit, why string, pos token.Pos) {
				o := &eng.Outcome{Ret: ret, St: st, Exit: x, Why: why, Pos: pos}
				q := &path{o: o, st: st, evs: st.Events(), cut: x == eng.Cut}
				last := lastRecv(q)
				for i, ev := range q.evs {
					if ev.In != nil {
						seen[ev.In] = true
					}
					if ev.Kind != "recv" || !isLeaderCh(ev.Recv) {
						continue
					}
					got = true
					if !open(q, ev) || q.cut && i == last {
						continue
					}
					n++
					r.Ob(passes(q, i), "passes-on", "listener", o, "a change of leadership that consensus reports is not passed to the callback")
				}
				if got && !q.cut {
					closed := last >= 0 && !open(q, q.evs[last])
					r.Ob(closed, "listens-for-ever", "listener", o, "the task that listens for changes of leadership ends although consensus runs")
				}
			}
			e.RunFunc(t, p.st.Spawn(nil), ev.Args[1:], rec)
			listened[key] = got
			if got {
				listeners++
			}
		}
		if p.ok && p.o.Exit == eng.Return {
			r.Ob(listeners == 1, "listens", "Node.Initialize", p.o, "%d tasks listen for changes of leadership", listeners)
		}
	}
	r.Ob(n > 0, "instances", "Node.Initialize", nil, "nothing listens for changes of leadership")
	// nobody else takes notifications away
	for _, f := range c.Functions() {
		for _, g := range refs(f) {
			if strings.HasSuffix(eng.CanonName(g), "raft.Raft).LeaderCh") {
				r.ObAt(seen[f] || seen[f.Parent()], "one-listener", funcName(f), f.Pos(), "another function takes notifications of changes of leadership")
			}
		}
	}
}

// unset: the path found that the field holds nothing.
func (p *path) unset(field string) bool {
	found := false
	p.st.FactTerms(func(a *eng.Term, v bool) {
		if !v || a.Op != "bin" || a.Aux != "==" {
			return
		}
		for i, x := range a.Args {
			if _, ch := fieldChain(strip(x)); a.Args[1-i].Op == "nil" && len(ch) > 0 && ch[len(ch)-1] == field {
				found = true
			}
		}
	})
	return found
}

func lastRecv(p *path) int {
	l := -1
	for i, e := range p.evs {
		if e.Kind == "recv" && isLeaderCh(e.Recv) {
			l = i
		}
	}
	return l
}

// endpointRule: what the callback does that the program registers before it
// starts consensus.
func (c *Ctx) endpointRule(r *Report) {
	field := c.callbackField(r)
	if field == "" {
		return
	}
	o := clusterStart
	o.stop = func(n string) bool { return n == raftPkg+".NewRaft" }
	e, ps := c.server(r, o)
	if e == nil {
		return
	}
	// whether the port could be read as a number is of interest here
	for _, n := range []string{"strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi"} {
		e.Models[n] = parseModel(e)
	}
	svc := setting("cluster.service_name", types.Typ[types.String])
	n := map[string]int{}
	nodeT := c.Named("pkg/raft", "Node")
	for _, p := range ps {
		reached := false
		for _, x := range p.evs {
			if x.Kind == "call" && x.Name == raftPkg+".NewRaft" {
				reached = true
			}
		}
		if !reached {
			continue
		}
		in, known := p.st.Decide(isEmptyStr(svc))
		var cb *eng.Term
		p.st.Memory(func(a, v *eng.Term) {
			if a.Op == "fieldaddr" && a.Aux == field && a.Args[0].Typ != nil && nodeT != nil && types.Identical(eng.DerefType(a.Args[0].Typ), nodeT) {
				cb = v
			}
		})
		if !r.Ob(cb != nil, "registered-first", "the program's start", p.o, "the node has no callback when consensus starts") {
			continue
		}
		n["starts"]++
		for _, gain := range []bool{true, false} {
			mark := len(p.evs)
			var qs []*path
			e.RunFunc(cb, p.st.Clone(), []*eng.Term{eng.Bool(gain)}, func(st *eng.State, ret []*eng.Term, x eng.Exit, why string, pos token.Pos) {
				out := &eng.Outcome{Ret: ret, St: st, Exit: x, Why: why, Pos: pos}
				qs = append(qs, &path{o: out, st: st, evs: st.Events(), cut: x == eng.Cut})
			})
			for _, q := range qs {
				ks := kube(q, mark)
				if known && in {
					r.Ob(len(ks) == 0, "endpoint-left-alone", "outside a cluster", q.o, "without a service name %s is done", evStr(ks))
					continue
				}
				if !gain {
					n["loss"]++
					r.Ob(len(ks) == 0, "endpoint-left-alone", "loss of leadership", q.o, "on a loss of leadership %s is done", evStr(ks))
					continue
				}
				c.gained(r, e, p, q, mark, svc, n)
			}
		}
	}
	for _, k := range []string{"starts", "loss", "replaced", "noaddress"} {
		r.Ob(n[k] > 0, "instances", "leadership callback "+k, nil, "no path is of the kind %q: %s", k, fmt.Sprint(n))
	}
}

// kube lists the changes a path asks of the Kubernetes API.
func kube(p *path, mark int) []*eng.Event {
	var r []*eng.Event
	for i, e := range p.evs {
		if i < mark || e.Kind != "call" || !strings.Contains(e.Name, "k8s.io/client-go/kubernetes/typed/") {
			continue
		}
		switch last(e.Name) {
		case "Delete", "Create", "Update", "Patch", "Apply", "DeleteCollection", "UpdateStatus", "ApplyStatus":
			r = append(r, e)
		}
	}
	return r
}

// gained: leadership was gained.
func (c *Ctx) gained(r *Report, e *eng.Exec, start, q *path, mark int, svc *eng.Term, n map[string]int) {
	ks := kube(q, mark)
	cons := "gain of leadership"
	// what the node knows on this path
	var ip *eng.Term
	lost := false
	var parsed *eng.Event
	for i, x := range q.evs {
		if i < mark || x.Kind != "call" {
			continue
		}
		switch x.Name {
		case "net.LookupHost":
			if x.Failed {
				lost = true
				continue
			}
			l := x.Res[0]
			v, known := q.st.Decide(eng.Eq(eng.Mk("call", "len", types.Typ[types.Int], l), eng.Int(0)))
			if known && v {
				lost = true
				continue
			}
			ip = l
		case "os.Hostname":
			lost = lost || x.Failed
		case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
			parsed = x
		}
	}
	if lost && ip == nil {
		n["noaddress"]++
		r.Ob(len(ks) == 0, "endpoint-left-alone", "no known address", q.o, "without a known address %s is done", evStr(ks))
		return
	}
	client := false
	for _, x := range start.evs {
		if x.Kind == "call" && strings.HasPrefix(x.Name, "k8s.io/client-go/kubernetes.NewForConfig") && !x.Failed {
			client = true
		}
	}
	if !client {
		r.Ob(len(ks) == 0, "endpoint-left-alone", "no client", q.o, "without a client %s is done", evStr(ks))
		return
	}
	if parsed != nil && parsed.Failed {
		return
	}
	if q.cut {
		return
	}
	var puts []*eng.Event
	gone := false
	for i, x := range ks {
		if !r.Ob(strings.Contains(x.Name, slicesPkg+".EndpointSliceInterface)"), "only-the-endpoint", last(x.Name), q.o, "%s is done", x.Name) {
			continue
		}
		// in which namespace
		var ns *eng.Term
		for _, y := range q.evs {
			if y.Kind == "call" && last(y.Name) == "EndpointSlices" && len(y.Res) > 0 && strip(y.Res[0]) == strip(x.Recv) && len(y.Args) == 1 {
				ns = strip(y.Args[0])
			}
		}
		if r.Ob(ns != nil, "own-namespace", last(x.Name), q.o, "in which namespace %s is done is not known", x) {
			r.Ob(discovered(start, svc, ns), "own-namespace", last(x.Name), q.o, "%s is done in the namespace %s, not the one the node's service is looked up in", last(x.Name), ns)
		}
		switch last(x.Name) {
		case "Delete":
			gone = true
			r.Ob(len(x.Args) > 1 && same(x.Args[1], svc), "own-service", "Delete", q.o, "the endpoint %s is deleted, not the service's", x.Args[1])
			r.Ob(i != len(ks)-1, "endpoint-replaced", cons, q.o, "the endpoint is deleted and not created again")
		case "Create", "Update":
			puts = append(puts, x)
			earlier := gone
			for _, y := range ks[:i] {
				earlier = earlier || y.Failed
			}
			r.Ob(last(x.Name) == "Update" || earlier, "endpoint-replaced", cons, q.o, "the new endpoint is created while the old one of the same name is still there")
			c.endpoint(r, e, q, x, svc, ip)
		default:
			r.Ob(false, "endpoint-replaced", last(x.Name), q.o, "the endpoint is changed by %s", last(x.Name))
		}
	}
	n["replaced"] += len(puts)
	r.Ob(len(puts) > 0, "endpoint-replaced", cons, q.o, "leadership was gained and the service's endpoint is not replaced")
}

// discovered: the name looked up is the service's in the namespace.
func discovered(p *path, svc, ns *eng.Term) bool {
	for _, x := range p.evs {
		if x.Kind == "call" && x.Name == "net.LookupSRV" && len(x.Args) == 3 {
			return eng.Concat(x.Args[2]) == eng.Concat(svc, eng.Str("-internal."), ns, eng.Str(".svc.cluster.local"))
		}
	}
	return false
}

// endpoint: the object sent.
func (c *Ctx) endpoint(r *Report, e *eng.Exec, q *path, x *eng.Event, svc, ips *eng.Term) {
	cons := last(x.Name)
	if len(x.Args) < 2 {
		return
	}
	get := func(t *eng.Term, f string) *eng.Term {
		if t == nil {
			return nil
		}
		return follow(q.st, t, []string{f})
	}
	at := func(t *eng.Term) *eng.Term { // the only element
		if t == nil {
			return nil
		}
		l, ok := e.SliceElems(q.st, t)
		if !ok {
			l = q.list(t)
		}
		if len(l) != 1 {
			return nil
		}
		return strip(l[0])
	}
	ptr := func(t *eng.Term) *eng.Term {
		if t == nil || eng.Deref(t) == nil && t.Op != "alloc" {
			return nil
		}
		return strip(q.st.Load(t, eng.DerefType(t.Typ)))
	}
	obj := strip(x.Args[1])
	meta := get(obj, "ObjectMeta")
	name := get(meta, "Name")
	r.Ob(name != nil && same(name, svc), "own-service", cons, q.o, "the endpoint's name is %s, not the service's", name)
	labels := get(meta, "Labels")
	okL := false
	if labels != nil {
		if ks, vs, ok := q.st.MapLit(labels); ok {
			for i, k := range ks {
				if k == "kubernetes.io/service-name" {
					okL = same(vs[i], svc)
				}
			}
		} else if v, ok := q.st.Mem(eng.MapElem(labels, eng.Str("kubernetes.io/service-name"))); ok {
			okL = same(v, svc)
		}
	}
	r.Ob(okL, "own-service", cons+" label", q.o, "the endpoint is not labelled as the service's")
	if t, ok := get(obj, "AddressType").StrVal(); ok {
		r.Ob(t == "IPv4", "own-address", cons+" type", q.o, "the endpoint's addresses are of type %s", t)
	} else {
		r.Ob(false, "own-address", cons+" type", q.o, "the endpoint has no type of address")
	}
	ep := at(get(obj, "Endpoints"))
	if r.Ob(ep != nil, "own-address", cons, q.o, "the slice does not have exactly one endpoint") {
		a := at(get(ep, "Addresses"))
		ok := a != nil && a.Op == "index" && ips != nil && strip(a.Args[0]) == strip(ips)
		r.Ob(ok, "own-address", cons, q.o, "the endpoint's address is %s, not the one the node just looked up for itself", a)
		if rd := get(get(ep, "Conditions"), "Ready"); rd != nil && rd.Op != "nil" {
			v, known := q.st.Decide(orFalse(ptr(rd)))
			r.Ob(known && v, "own-address", cons+" ready", q.o, "the endpoint is not marked ready")
		}
	}
	port := at(get(obj, "Ports"))
	if r.Ob(port != nil, "own-port", cons, q.o, "the slice does not have exactly one port") {
		v := ptr(get(port, "Port"))
		w := v
		fits := true
		for w != nil && (w.Op == "narrow" || w.Op == "conv") {
			if b, ok := w.Typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || b.Kind() == types.Int8 || b.Kind() == types.Uint8 || b.Kind() == types.Int16 {
				fits = false
			}
			w = strip(w.Args[0])
		}
		for _, x := range q.evs {
			if x.Kind == "call" && (x.Name == "strconv.ParseInt" || x.Name == "strconv.ParseUint") && len(x.Args) == 3 && !x.Failed {
				base, _ := x.Args[1].IntVal()
				bits, known := x.Args[2].IntVal()
				fits = fits && (base == 10 || base == 0) && known && (bits == 0 || bits >= 32 || bits == 16 && x.Name == "strconv.ParseUint")
			}
		}
		ok := fits && w != nil && w.Op == "parsed" && same(w.Args[0], setting("http.port", types.Typ[types.String]))
		r.Ob(ok, "own-port", cons, q.o, "the endpoint's port is %s, not the port the node serves HTTP on", v)
	}
}

func orFalse(t *eng.Term) *eng.Term {
	if t == nil {
		return eng.Bool(false)
	}
	return t
}

// parseModel reads a number and records whether it was one.
func parseModel(e *eng.Exec) eng.Model {
	return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		t := call.Sig.Results().At(0).Type()
		bad := st.Clone()
		v := eng.Mk("parsed", call.Name, t, eng.Unwrap(call.Args[0]))
		st.Emit(&eng.Event{Kind: "call", Name: call.Name, Args: call.Args, Res: []*eng.Term{v, eng.Nil}, Pos: call.Pos, In: call.In()})
		k(st, v, eng.Nil)
		err := e.AnyErr(call.Name)
		bad.Emit(&eng.Event{Kind: "call", Name: call.Name, Args: call.Args, Res: []*eng.Term{eng.Zero(t), err}, Pos: call.Pos, In: call.In(), Failed: true})
		k(bad, eng.Zero(t), err)
		return true
	}
}
