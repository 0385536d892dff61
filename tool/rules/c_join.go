package rules

import (
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R11", "Path analysis of Node.Join over the members of the configuration (which member is compared, removed, added, and whether each change was waited for), of the join request's handler, and of Joiner.Join over its hosts (the request sent is decoded with the handler's own input type); the program's entry is run to the point where it joins to see which id, address and hosts it joins with.", 60, ruleR11)
}

func ruleR11(c *Ctx, r *Report) {
	c.joinRule(r)
	if a := c.httpAPI(r); a != nil {
		for i, p := range a.ctors {
			n := 0
			for _, rt := range a.routes[i] {
				if rt.method == "POST" && rt.path == "/join" {
					n++
				}
			}
			r.Ob(n == 1, "served-once", "HTTP Join", p.o, "POST /join is registered %d times", n)
		}
		for _, x := range a.handlers() {
			if x.op != nil && x.op.node == "Join" {
				x.argsRule(r)
				x.onceRule(r)
				x.errorRule(r, 200)
				x.joinsOnce(r)
			}
		}
	}
	j := c.joinerRule(r)
	c.joinsWith(r, j)
}

// joinsOnce: a join request that succeeds was handed to the node.
func (x *apiRun) joinsOnce(r *Report) {
	for _, p := range x.ps {
		if !p.cut && p.ok {
			r.Ob(len(p.ops)+len(p.fwd) == 1, "join-is-carried-out", "HTTP Join", p.o, "the join request is answered as a success without being carried out")
		}
	}
}

// changes lists the membership changes of a path.
func (p *path) changes() []*eng.Event {
	var r []*eng.Event
	for _, e := range p.evs {
		if e.Kind != "raft" {
			continue
		}
		switch e.Name {
		case "GetConfiguration", "Barrier", "VerifyLeader":
		default:
			r = append(r, e)
		}
	}
	return r
}

// done: the change's future was waited for before seq and reported no error.
func (p *path) done(e *eng.Event, seq int) bool {
	f := e.Res[0]
	waited := false
	for _, w := range p.evs {
		if w.Kind == "futwait" && w.Recv == f && (seq < 0 || w.Seq < seq) {
			waited = true
			if p.st.Known(eng.IsNil(w.Res[0]), true) {
				return true
			}
		}
	}
	return waited && p.st.Known(eng.IsNil(eng.Mk("futerr", "", nil, f)), true)
}

// joinRule: what Node.Join does to the members.
func (c *Ctx) joinRule(r *Report) {
	fn := c.Method("pkg/raft", "Node", "Join")
	if !r.Anchor(fn != nil && len(fn.Params) == 3, "Node.Join") {
		return
	}
	e := c.exec(r)
	e.Visits = 3
	st := eng.NewState()
	args := make([]*eng.Term, 3)
	for i, p := range fn.Params {
		args[i] = eng.Sym(p.Name(), p.Type())
	}
	st.Assume(eng.IsNil(args[0]), false)
	id, addr := args[1], args[2]
	n := map[string]int{}
	for _, p := range paths(fn, r.run(e, fn, st, args...)) {
		if p.cut {
			continue
		}
		ch := p.changes()
		var conf *eng.Event
		for _, x := range p.evs {
			if x.Kind == "raft" && x.Name == "GetConfiguration" {
				conf = x
			}
		}
		// failures are reported, and nothing is changed after one
		failed := ""
		at := 0
		for _, x := range p.evs {
			if x.Kind != "futwait" || !p.st.Known(eng.IsNil(eng.Mk("futerr", "", x.Res[0].Typ, x.Recv)), false) {
				continue
			}
			if failed == "" {
				failed, at = x.Recv.Aux, x.Seq
			}
		}
		if failed != "" {
			n["failed"]++
			r.Ob(!p.ok, "failure-is-reported", "Node.Join", p.o, "the join succeeds although %s failed", failed)
			for _, x := range ch {
				r.Ob(x.Seq < at, "nothing-after-failure", "Node.Join", p.o, "%s follows a failed %s", x.Name, failed)
			}
			continue
		}
		if !r.Ob(conf != nil && p.done(conf, -1), "members-are-known", "Node.Join", p.o, "the members are not read, or whether that failed is not asked") {
			continue
		}
		// the members seen on this path
		type member struct {
			id, addr         *eng.Term
			idEq, addrEq     bool
			idKnow, addrKnow bool
		}
		var ms []member
		all := false
		bad := ""
		for i := int64(0); i < 4; i++ {
			cf := eng.Mk("raftconfig", "", nil, conf.Res[0])
			var servers *eng.Term
			for _, x := range p.evs {
				if x.Kind == "futresp" && x.Recv == conf.Res[0] {
					cf = x.Res[0]
				}
			}
			if sT := structField(cf.Typ, "Servers"); sT != nil {
				servers = eng.Field(cf, "Servers", sT)
			}
			if servers == nil {
				bad = "the members are not read from the configuration"
				break
			}
			ln := eng.Mk("call", "len", types.Typ[types.Int], servers)
			v, known := p.st.Decide(eng.Mk("bin", "<", types.Typ[types.Bool], eng.Int(i), ln))
			if i == 0 && !known {
				z, zk := p.st.Decide(eng.Eq(ln, eng.Int(0)))
				v, known = !z, zk
			}
			if known && !v {
				all = true
				break
			}
			el := p.member(servers, i)
			if el == nil {
				break
			}
			m := member{id: eng.Field(el, "ID", nil), addr: eng.Field(el, "Address", nil)}
			m.idEq, m.idKnow = p.equal(m.id, id)
			m.addrEq, m.addrKnow = p.equal(m.addr, addr)
			if !known && !m.idKnow && !m.addrKnow {
				break
			}
			ms = append(ms, m)
		}
		if !r.Ob(bad == "", "members-are-known", "Node.Join", p.o, "%s", bad) {
			continue
		}
		// raft has no two members with one id or one address
		ids, addrs, both := 0, 0, -1
		for i, m := range ms {
			if m.idKnow && m.idEq {
				ids++
			}
			if m.addrKnow && m.addrEq {
				addrs++
			}
			if m.idKnow && m.addrKnow && m.idEq && m.addrEq {
				both = i
			}
		}
		if ids > 1 || addrs > 1 {
			continue
		}
		if both >= 0 {
			n["same"]++
			r.Ob(p.ok, "same-member-succeeds", "Node.Join", p.o, "the join of a node that is a member with the same id and address fails")
			r.Ob(len(ch) == 0, "same-member-changes-nothing", "Node.Join", p.o, "the join of a node that is a member with the same id and address does %s", evStr(ch))
			continue
		}
		if !p.ok {
			r.Ob(false, "join-succeeds", "Node.Join", p.o, "the join fails although nothing failed")
			continue
		}
		// success
		var adds []*eng.Event
		removed := map[*eng.Term]*eng.Event{}
		for _, x := range ch {
			switch x.Name {
			case "AddVoter":
				adds = append(adds, x)
			case "RemoveServer":
				removed[strip(x.Args[0])] = x
			default:
				r.Ob(false, "only-the-join", "Node.Join "+x.Name, p.o, "the join does %s", x.Name)
			}
		}
		if !r.Ob(len(adds) == 1, "added-once", "Node.Join", p.o, "a join that succeeds adds %d voters", len(adds)) {
			continue
		}
		n["added"]++
		a := adds[0]
		r.Ob(same(a.Args[0], id) && same(a.Args[1], addr), "added-as-asked", "Node.Join", p.o, "the voter added is %s at %s, not the id and address asked for", a.Args[0], a.Args[1])
		r.Ob(p.done(a, -1), "failure-is-reported", "Node.Join AddVoter", p.o, "the join succeeds without asking whether the node was added")
		r.Ob(all, "all-members-compared", "Node.Join", p.o, "the node is added before all members were compared")
		for i, m := range ms {
			del := removed[strip(m.id)]
			delete(removed, strip(m.id))
			eq := m.idKnow && m.idEq || m.addrKnow && m.addrEq
			if !eq {
				r.Ob(m.idKnow && m.addrKnow, "all-members-compared", "Node.Join", p.o, "member %d is not compared by id and by address", i)
				r.Ob(del == nil, "others-stay", "Node.Join", p.o, "a member with another id and address is removed")
				continue
			}
			n["removed"]++
			if r.Ob(del != nil && del.Seq < a.Seq, "stale-member-removed", "Node.Join", p.o, "a member with the same id or address only is not removed before the node is added") {
				r.Ob(p.done(del, a.Seq), "stale-member-removed", "Node.Join future", p.o, "the node is added without waiting for the removal")
				if len(a.Args) > 2 {
					z, ok := strip(a.Args[2]).IntVal()
					r.Ob(ok && z == 0, "stale-member-removed", "Node.Join index", p.o, "the node is added on condition of a configuration the removal has replaced")
				}
			}
		}
		for t := range removed {
			r.Ob(false, "others-stay", "Node.Join", p.o, "%s is removed, which is not the id of a member with the same id or address", t)
		}
	}
	for _, k := range []string{"failed", "same", "added", "removed"} {
		r.Ob(n[k] > 0, "instances", "Node.Join "+k, nil, "no path of the join is of the kind %q", k)
	}
}

func same(a, b *eng.Term) bool {
	a, b = strip(a), strip(b)
	if a == b {
		return true
	}
	x, ok1 := a.StrVal()
	y, ok2 := b.StrVal()
	return ok1 && ok2 && x == y
}

// equal tells whether the path knows that two values are equal.
func (p *path) equal(a, b *eng.Term) (eq, known bool) {
	return p.st.Decide(eng.Eq(strip(a), strip(b)))
}

func structField(t types.Type, name string) types.Type {
	if t == nil {
		return nil
	}
	s, ok := eng.DerefType(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// member is the i-th element of a slice as the path refers to it.
func (p *path) member(s *eng.Term, i int64) *eng.Term {
	var found *eng.Term
	look := func(t *eng.Term) {
		t.Contains(func(x *eng.Term) bool {
			if x.Op == "index" && strip(x.Args[0]) == strip(s) {
				if n, ok := x.Args[1].IntVal(); ok && n == i {
					found = x
				}
			}
			return false
		})
	}
	p.st.FactTerms(func(a *eng.Term, v bool) { look(a) })
	for _, e := range p.evs {
		for _, a := range e.Args {
			look(a)
		}
	}
	return found
}

// joiner: where a Joiner keeps what it sends.
type joiner struct {
	hosts, id, addr []string // paths of fields
}

// joinerRule: what Joiner.Join sends and when it succeeds.
func (c *Ctx) joinerRule(r *Report) *joiner {
	fn := c.Method("pkg/cluster", "Joiner", "Join")
	if !r.Anchor(fn != nil && len(fn.Params) == 1, "Joiner.Join") {
		return nil
	}
	var in types.Type
	if h := c.Method("pkg/http", "Handler", "Join"); h != nil && h.Signature.Params().Len() == 2 {
		in = inputBody(h.Signature.Params().At(1).Type())
	}
	if !r.Anchor(in != nil, "the body of the join request") {
		return nil
	}
	out := &joiner{}
	n := map[string]int{}
	for round := 0; round < 2; round++ {
		e := c.exec(r)
		c.clientModels(e)
		// an answer that breaks off may count either way: to join again changes nothing
		for _, m := range []string{"io.ReadAll", "io/ioutil.ReadAll"} {
			if old := e.Models[m]; old != nil {
				e.Models[m] = surely(old)
			}
		}
		if round == 1 {
			// all attempts, building the request succeeds
			e.Visits = 5
			for _, m := range []string{"encoding/json.Marshal", "(*encoding/json.Encoder).Encode", "net/http.NewRequest", "net/http.NewRequestWithContext"} {
				e.Models[m] = surely(e.Models[m])
			}
		}
		st := eng.NewState()
		j := eng.Sym(fn.Params[0].Name(), fn.Params[0].Type())
		st.Assume(eng.IsNil(j), false)
		for _, p := range paths(fn, r.run(e, fn, st, j)) {
			var hosts *eng.Term
			tried := map[*eng.Term]bool{}
			hs := p.kind("http")
			for _, h := range hs {
				m, _ := strip(h.Args[0]).StrVal()
				r.Ob(m == "POST", "join-request", "Joiner.Join method", p.o, "the join request is a %s", h.Args[0])
				host := middle(h.Args[1], "http://", "/join")
				if !r.Ob(host != nil, "join-request", "Joiner.Join address", p.o, "the join request goes to %s, not to a host's /join", h.Args[1]) {
					continue
				}
				list := strip(host)
				if r.Ob(list.Op == "index", "join-request", "Joiner.Join address", p.o, "the join request goes to %s, not to one of the hosts", host) {
					hosts = strip(list.Args[0])
					base, ch := fieldChain(hosts)
					r.Ob(strip(base) == j || isDerefOf(base, j), "join-request", "Joiner.Join address", p.o, "the join request goes to %s, not to one of the joiner's hosts", host)
					out.hosts = ch
					tried[list.Args[1]] = true
				}
				// the body as the handler will read it
				b := strip(h.Args[2])
				var got map[string]*eng.Term
				ok := b.Op == "jsonbytes"
				if ok {
					v, dec := e.JSONDecode(b.Args[0], in)
					if ok = dec; ok {
						got = outFields(v, in)
					}
					// the API refuses properties it does not know
					if ok && b.Args[0].Op == "jobj" {
						for _, k := range strings.Split(b.Args[0].Aux, ",") {
							_, known := got[k]
							r.Ob(known, "join-request", "Joiner.Join "+k, p.o, "the request has a property %q, which the join request does not have", k)
						}
					}
				}
				if !r.Ob(ok, "join-request", "Joiner.Join body", p.o, "the body is %s, which does not decode as a join request", b) {
					continue
				}
				for k, dst := range map[string]*[]string{"id": &out.id, "addr": &out.addr} {
					if !r.Ob(got[k] != nil, "join-request", "Joiner.Join "+k, p.o, "the request has no %s", k) {
						continue
					}
					base, ch := fieldChain(strip(got[k]))
					if r.Ob(len(ch) > 0 && (strip(base) == j || isDerefOf(base, j)), "join-request", "Joiner.Join "+k, p.o, "the %s sent is %s", k, got[k]) {
						*dst = ch
						n["sent"]++
					}
				}
			}
			accepted := -1
			for i, h := range hs {
				if h.Failed {
					continue
				}
				if ok, _ := p.allows(statusOf(h), 200); ok {
					accepted = i
					bad := false
					for _, s := range badStatuses {
						if ok, _ := p.allows(statusOf(h), s); ok {
							bad = true
						}
					}
					if p.cut || !p.ok && i == len(hs)-1 {
						continue
					}
					r.Ob(!bad, "acceptance", "Joiner.Join", p.o, "an answer with an error status is taken for acceptance")
					r.Ob(i == len(hs)-1, "until-accepted", "Joiner.Join", p.o, "another host is asked after one accepted")
				}
			}
			if p.cut {
				continue
			}
			if p.ok {
				if len(hs) == 0 {
					n["none"]++
					r.Ob(p.noHosts(j), "asks-hosts", "Joiner.Join", p.o, "the join succeeds although no host was asked")
					continue
				}
				n["joined"]++
				r.Ob(accepted == len(hs)-1, "acceptance", "Joiner.Join", p.o, "the join succeeds although no host accepted it")
				continue
			}
			n["refused"]++
			r.Ob(accepted < 0, "acceptance", "Joiner.Join", p.o, "the join fails although a host accepted it")
			if hosts == nil {
				r.Ob(len(p.failed()) > 0, "until-accepted", "Joiner.Join", p.o, "the join fails without having asked a host")
				continue
			}
			for i := int64(0); i < 2; i++ {
				v, known := p.st.Decide(eng.Mk("bin", "<", types.Typ[types.Bool], eng.Int(i), eng.Mk("call", "len", types.Typ[types.Int], hosts)))
				if known && !v {
					continue
				}
				r.Ob(tried[eng.Int(i)] || round == 0 && len(p.failed()) > len(failedHTTP(p)), "until-accepted", "Joiner.Join", p.o, "the join fails although host %d was not asked", i)
			}
		}
	}
	for _, k := range []string{"sent", "none", "joined", "refused"} {
		r.Ob(n[k] > 0, "instances", "Joiner.Join "+k, nil, "no path of the joiner is of the kind %q", k)
	}
	return out
}

func failedHTTP(p *path) []*eng.Event {
	var r []*eng.Event
	for _, e := range p.failed() {
		if e.Kind == "http" {
			r = append(r, e)
		}
	}
	return r
}

// noHosts: the path knows that a list of the joiner is empty.
func (p *path) noHosts(j *eng.Term) bool {
	yes := false
	p.st.FactTerms(func(a *eng.Term, v bool) {
		ln := func(t *eng.Term) bool { return t.Op == "call" && t.Aux == "len" && t.Has(j) }
		if a.Op != "bin" {
			return
		}
		x, y := a.Args[0], a.Args[1]
		switch {
		case a.Aux == "==" && v && (ln(x) && isZero(y) || ln(y) && isZero(x)):
			yes = true
		case a.Aux == "<" && !v && ln(y) && isZero(x):
			yes = true
		}
	})
	return yes
}

func isZero(t *eng.Term) bool {
	n, ok := t.IntVal()
	return ok && n == 0
}

func isDerefOf(t, p *eng.Term) bool { return t.Op == "deref" && strip(t.Args[0]) == p }

// middle is what stands between two literals.
func middle(t *eng.Term, before, after string) *eng.Term {
	t = eng.Concat(t)
	if t.Op != "concat" || len(t.Args) != 3 {
		return nil
	}
	a, ok1 := t.Args[0].StrVal()
	b, ok2 := t.Args[2].StrVal()
	if !ok1 || !ok2 || a != before || b != after {
		return nil
	}
	return t.Args[1]
}

// surely: a call that succeeds.
func surely(m eng.Model) eng.Model {
	if m == nil {
		return nil
	}
	return func(c *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		return m(c, st, func(st *eng.State, res ...*eng.Term) {
			if n := len(res); n > 0 && res[n-1].Op != "nil" && eng.IsErrorType(c.Sig.Results().At(n-1).Type()) {
				return
			}
			k(st, res...)
		})
	}
}

// follow reads a path of fields from an object in a state.
func follow(st *eng.State, obj *eng.Term, chain []string) *eng.Term {
	v := strip(obj)
	for _, f := range chain {
		var t types.Type
		if v.Typ != nil {
			t = structField(v.Typ, f)
		}
		if eng.Deref(v) != nil || v.Op == "alloc" {
			v = st.Load(eng.FieldAddr(v, f, t), t)
		} else {
			v = eng.Field(v, f, t)
		}
		v = strip(v)
	}
	return v
}

// start is the program's start up to the point where it joins.
type start struct {
	p    *path
	join *eng.Event
	// what consensus runs as
	localID, bind *eng.Term
}

func (c *Ctx) starts(r *Report) []start {
	o := clusterStart
	isJoin := func(n string) bool { return strings.HasSuffix(n, "/pkg/cluster.Joiner).Join") }
	o.opaque = func(n string, fn *ssa.Function) bool { return isJoin(n) }
	o.ends = isJoin
	_, ps := c.server(r, o)
	var out []start
	for _, p := range ps {
		s := start{p: p}
		for _, e := range p.evs {
			if e.Kind != "call" {
				continue
			}
			switch {
			case isJoin(e.Name):
				s.join = e
			case e.Name == raftPkg+".NewRaft" && len(e.Args) > 0:
				s.localID = follow(p.st, e.Args[0], []string{"LocalID"})
			case strings.HasPrefix(e.Name, raftPkg+".NewTCPTransport") && len(e.Args) > 0:
				s.bind = strip(e.Args[0])
			}
		}
		out = append(out, s)
	}
	return out
}

// serves: the program listens for requests on the path.
func (p *path) serves() *eng.Event {
	for _, e := range p.evs {
		if e.Kind == "call" && (strings.HasSuffix(e.Name, "v2.App).Listen") || strings.HasSuffix(e.Name, "v2.App).Listener") || e.Name == "net.Listen" || e.Name == "net/http.ListenAndServe") {
			return e
		}
	}
	return nil
}

// joinsWith: the program joins with the id and address its consensus runs
// under, at the hosts discovered or configured, and does not serve without.
func (c *Ctx) joinsWith(r *Report, j *joiner) {
	if j == nil || len(j.hosts) == 0 || len(j.id) == 0 || len(j.addr) == 0 {
		r.Anchor(false, "what a Joiner sends")
		return
	}
	n := map[string]int{}
	for _, s := range c.starts(r) {
		p := s.p
		if e := p.serves(); e != nil {
			ok := s.join != nil && !s.join.Failed && s.join.Seq < e.Seq
			if s.join != nil && s.join.Failed {
				ok = false
			}
			r.Ob(ok, "joins-before-serving", "the program's start", p.o, "the node serves requests although it did not join, or its join failed")
		}
		if s.join == nil {
			continue
		}
		if s.join.Failed {
			n["failed"]++
			r.Ob(p.o.Exit == eng.ProcExit || p.serves() == nil, "failure-is-reported", "the program's start", p.o, "the program goes on after its join failed")
			continue
		}
		if !r.Ob(s.localID != nil && s.bind != nil, "joins-as-itself", "the program's start", p.o, "the node joins before its consensus runs") {
			continue
		}
		bootstrapRule(r, p)
		id, addr := follow(p.st, s.join.Recv, j.id), follow(p.st, s.join.Recv, j.addr)
		r.Ob(same(id, s.localID), "joins-as-itself", "id", p.o, "the node joins as %s, its consensus runs as %s", id, s.localID)
		r.Ob(same(addr, s.bind), "joins-as-itself", "address", p.o, "the node joins with the address %s, its consensus listens on %s", addr, s.bind)
		hosts := follow(p.st, s.join.Recv, j.hosts)
		list := p.list(hosts)
		if in, known := p.st.Decide(isEmptyStr(setting("cluster.service_name", types.Typ[types.String]))); known && in {
			join := setting("cluster.join_addr", types.Typ[types.String])
			empty, ek := p.st.Decide(isEmptyStr(join))
			switch {
			case ek && empty:
				n["alone"]++
				r.Ob(list != nil && len(list) == 0, "joins-where-told", "no address to join", p.o, "without an address to join the node joins %s", hosts)
			default:
				n["told"]++
				r.Ob(len(list) == 1 && same(list[0], join), "joins-where-told", "address to join", p.o, "told to join cluster.join_addr the node joins %s", hosts)
			}
		}
	}
	for _, k := range []string{"failed", "alone", "told"} {
		r.Ob(n[k] > 0, "instances", "the program's start "+k, nil, "no path of the program's start is of the kind %q", k)
	}
}
