package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"net"
	"slices"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R13", "Path analysis of the program's entry for every number of discovered records up to three: which condition on host name and record makes a record the node's id, a host to join and the raft address; the conditions are evaluated for representatives of every relation two names can have (equal, prefix, suffix, label in the middle, unrelated) in every order.", 200, ruleR13)
}

// record is a discovered service record.
type record struct {
	target string
	port   int64
}

func (x record) addr() string { return fmt.Sprintf("%s:%d", x.target, x.port) }

const domain = ".doq-internal.default.svc.cluster.local."

// related lists names by how they relate to a host name.
var related = []struct{ what, host, target string }{
	{"the same label", "doq-1", "doq-1" + domain},
	{"the same name", "doq-1", "doq-1"},
	{"the name continued", "doq-1", "doq-10" + domain},
	{"the name continued with a dash", "doq-1", "doq-1-a" + domain},
	{"the end of another label", "doq-1", "xdoq-1" + domain},
	{"the middle of a longer label", "doq-1", "x-doq-1-y" + domain},
	{"the second label", "doq-1", "doq-2.doq-1" + domain},
	{"another name of the same length", "doq-1", "doq-2" + domain},
	{"a name that the host name continues", "doq-10", "doq-1" + domain},
	{"a name that the host name continues, alone", "doq-10", "doq-1"},
	{"a name that differs in its end", "doq-11", "doq-10" + domain},
	{"the same label of a longer name", "doq-10", "doq-10" + domain},
	{"the second label of a longer name", "doq-10", "doq-1.doq-10" + domain},
}

func (x record) own(host string) bool {
	l, _, _ := strings.Cut(x.target, ".")
	return l == host
}

// sample is a choice of a host name and of the records that are found.
type sample struct {
	host string
	recs []record
}

// samples lists the record sets of n records.
func samples(n int) []sample {
	if n > 3 {
		return nil
	}
	var r []sample
	hosts := map[string][]string{}
	var order []string
	for _, x := range related {
		if hosts[x.host] == nil {
			order = append(order, x.host)
		}
		hosts[x.host] = append(hosts[x.host], x.target)
	}
	for _, h := range order {
		var pick func(rs []record, own bool)
		pick = func(rs []record, own bool) {
			if len(rs) == n {
				r = append(r, sample{h, slices.Clone(rs)})
				return
			}
			for _, t := range hosts[h] {
				x := record{t, int64(8000 + len(rs))}
				if x.own(h) && own {
					continue // one record is the node's own at most
				}
				dup := false
				for _, y := range rs {
					dup = dup || y.target == t
				}
				if dup {
					continue
				}
				if n > 2 && !own && !x.own(h) && len(rs) == n-1 {
					continue // the larger sets contain the node
				}
				pick(append(rs, x), own || x.own(h))
			}
		}
		pick(nil, false)
	}
	return r
}

func ruleR13(c *Ctx, r *Report) {
	var j *joiner
	r.Only(func() { j = c.joinerRule(r) }, "-instances")
	if !r.Anchor(j != nil && len(j.hosts) > 0, "the hosts of a Joiner") {
		return
	}
	n := map[string]int{}
	for k := 0; k <= 3; k++ {
		c.discover(r, j, k, nil, n)
	}
	// larger clusters, by the place of the node's own record
	for own := 0; own < 7; own += 3 {
		var rs []record
		for i := 0; i < 7; i++ {
			rs = append(rs, record{fmt.Sprintf("doq-%d%s", i, domain), 8000})
		}
		c.discover(r, j, 7, &sample{fmt.Sprintf("doq-%d", own), rs}, n)
	}
	for _, k := range []string{"own", "alone", "failed net.LookupSRV", "failed net.LookupHost", "failed os.Hostname"} {
		r.Ob(n[k] > 0, "instances", "discovery "+k, nil, "no path is of the kind %q: %s", k, fmt.Sprint(n))
	}
}

// discover runs the start with k discovered records, unknown ones or those
// given.
func (c *Ctx) discover(r *Report, j *joiner, k int, given *sample, n map[string]int) {
	f := c.entry(r)
	if f == nil {
		return
	}
	o := clusterStart
	isJoin := func(n string) bool { return strings.HasSuffix(n, "/pkg/cluster.Joiner).Join") }
	o.free = func(s string) bool { return s == "cluster.service_name" }
	o.opaque = func(n string, fn *ssa.Function) bool { return isJoin(n) }
	o.ends = isJoin
	sure := o.sure
	o.sure = func(n string) bool {
		return sure(n) || strings.HasPrefix(n, "k8s.io/") || strings.HasPrefix(n, "(*k8s.io/") || strings.HasPrefix(n, "os.ReadDir") || strings.HasPrefix(n, "os.Stat")
	}
	e := c.exec(r)
	e.Visits = k + 3
	c.serverModels(e, o)
	host := eng.Sym("hostname", types.Typ[types.String])
	var targets, ports []*eng.Term
	for i := 0; i < k; i++ {
		targets = append(targets, eng.Sym(fmt.Sprintf("target%d", i), types.Typ[types.String]))
		ports = append(ports, eng.Sym(fmt.Sprintf("port%d", i), types.Typ[types.Uint16]))
	}
	sets := samples(k)
	if given != nil {
		host = eng.Str(given.host)
		for i, x := range given.recs {
			targets[i], ports[i] = eng.Str(x.target), eng.Const(constant.MakeInt64(x.port), types.Typ[types.Uint16])
		}
		foldStrings(e)
		sets = []sample{*given}
	}
	e.Models["os.Hostname"] = either(e, func(call *eng.Call, st *eng.State) []*eng.Term {
		return []*eng.Term{host, eng.Nil}
	})
	e.Models["net.LookupSRV"] = either(e, func(call *eng.Call, st *eng.State) []*eng.Term {
		lt := call.Sig.Results().At(1).Type()
		et := lt.Underlying().(*types.Slice).Elem()
		var els []*eng.Term
		for i := 0; i < k; i++ {
			a := e.Fresh("alloc", fmt.Sprintf("record%d", i), et)
			st.Store(eng.FieldAddr(a, "Target", types.Typ[types.String]), targets[i], types.Typ[types.String])
			st.Store(eng.FieldAddr(a, "Port", types.Typ[types.Uint16]), ports[i], types.Typ[types.Uint16])
			els = append(els, a)
		}
		return []*eng.Term{e.Fresh("res", "cname", types.Typ[types.String]), eng.Mk("slicelit", "", lt, els...), eng.Nil}
	})
	// the set-up of consensus succeeds
	e.Models["("+raftPkg+".Future).Error"] = func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		st.Emit(&eng.Event{Kind: "futwait", Recv: call.Recv, Res: []*eng.Term{eng.Nil}, Pos: call.Pos, In: call.In()})
		k(st, eng.Nil)
		return true
	}
	input := func(t *eng.Term) bool {
		return t.Contains(func(x *eng.Term) bool { return x == host || slices.Contains(targets, x) || slices.Contains(ports, x) })
	}
	alike := map[string]bool{}
	svc := setting("cluster.service_name", types.Typ[types.String])
	var ps []*path
	st := eng.NewState()
	st.Assume(isEmptyStr(svc), false)
	for _, p := range paths(f, r.run(e, f, st)) {
		var lost string
		var raft, join *eng.Event
		var bind *eng.Term
		for _, x := range p.evs {
			if x.Kind != "call" {
				continue
			}
			switch {
			case x.Name == "net.LookupSRV" || x.Name == "net.LookupHost" || x.Name == "os.Hostname":
				if x.Failed {
					lost = x.Name
				} else if x.Name == "net.LookupHost" && p.st.Known(eng.Eq(eng.Mk("call", "len", types.Typ[types.Int], x.Res[0]), eng.Int(0)), true) {
					lost = x.Name
				}
				if x.Name == "net.LookupSRV" && k == 0 {
					n0 := eng.Concat(x.Args[2])
					pre, suf := eng.Concat(svc, eng.Str("-internal.")), ".svc.cluster.local"
					s := n0.String()
					r.Ob(n0.Op == "concat" && n0.Args[0] == svc && strings.Contains(s, "-internal.") && strings.HasSuffix(strings.Trim(s, `"`), suf) && isEmptyVal(x.Args[0]) && isEmptyVal(x.Args[1]), "own-service", "net.LookupSRV", p.o, "the records of %s are looked up, not those of %s…%s", n0, pre, suf)
				}
			case strings.HasPrefix(x.Name, raftPkg+".NewTCPTransport") && len(x.Args) > 0:
				bind = x.Args[0]
			case x.Name == raftPkg+".NewRaft":
				raft = x
			case isJoin(x.Name):
				join = x
			}
		}
		if lost != "" {
			n["failed "+lost]++
			r.Ob(raft == nil && join == nil && p.serves() == nil, "failed-lookup-fails", lost, p.o, "the node starts although %s failed", lost)
			continue
		}
		if raft == nil || join == nil || join.Failed {
			continue
		}
		bootstrapRule(r, p)
		// what no names can bring about
		never := &evaluator{p: p, in: func(*eng.Term) (any, bool) { return nil, false }}
		if yes, _ := never.happens(); !yes {
			continue
		}
		// paths that differ in what has nothing to do with the names
		var facts []string
		p.st.FactTerms(func(a *eng.Term, v bool) {
			if input(a) {
				facts = append(facts, fmt.Sprint(v, a))
			}
		})
		slices.Sort(facts)
		hosts := follow(p.st, join.Recv, j.hosts)
		key := fmt.Sprint(follow(p.st, raft.Args[0], []string{"LocalID"}), bind, hosts, p.list(hosts), facts)
		if p.list(hosts) == nil || !alike[key] {
			alike[key] = true
			ps = append(ps, p)
		}
	}
	if !r.Ob(len(ps) > 0, "instances", "discovery", nil, "no path starts consensus and joins") {
		return
	}
	for _, s := range sets {
		in := func(t *eng.Term) (any, bool) {
			if t == svc {
				return "doq", true
			}
			if given != nil {
				return nil, false
			}
			if t == host {
				return s.host, true
			}
			for i := range targets {
				if t == targets[i] {
					return s.recs[i].target, true
				}
				if t == ports[i] {
					return s.recs[i].port, true
				}
			}
			return nil, false
		}
		var own *record
		var others []string
		what := fmt.Sprintf("host %s among", s.host)
		for i, x := range s.recs {
			what += " " + x.addr()
			if x.own(s.host) {
				own = &s.recs[i]
			} else {
				others = append(others, x.addr())
			}
		}
		got := 0
		for _, p := range ps {
			v := &evaluator{p: p, in: in}
			if yes, _ := v.happens(); !yes {
				continue
			}
			got++
			c.identity(r, j, p, v, own, others, s.recs, what, n)
		}
		r.Ob(got > 0, "instances", "discovery", nil, "no path is taken for %s", what)
	}
}

func isEmptyVal(t *eng.Term) bool {
	s, ok := strip(t).StrVal()
	return ok && s == ""
}

// identity: what the node takes itself for.
func (c *Ctx) identity(r *Report, j *joiner, p *path, v *evaluator, own *record, others []string, recs []record, what string, n map[string]int) {
	var id, bind, hosts *eng.Term
	for _, x := range p.evs {
		if x.Kind != "call" {
			continue
		}
		switch {
		case x.Name == raftPkg+".NewRaft" && len(x.Args) > 0:
			id = follow(p.st, x.Args[0], []string{"LocalID"})
		case strings.HasPrefix(x.Name, raftPkg+".NewTCPTransport") && len(x.Args) > 0:
			bind = strip(x.Args[0])
		case strings.HasSuffix(x.Name, "/pkg/cluster.Joiner).Join"):
			hosts = follow(p.st, x.Recv, j.hosts)
		}
	}
	if !r.Ob(id != nil && bind != nil && hosts != nil, "own-address", "id", p.o, "for %s the node has no id, address or hosts", what) {
		return
	}
	str := func(t *eng.Term, of string) (string, bool) {
		x, ok := v.val(t)
		s, isS := x.(string)
		return s, r.Ob(ok && isS, "own-address", of, p.o, "for %s the %s is not decided: %s", what, of, t)
	}
	if s, ok := str(id, "id"); ok {
		if own != nil {
			n["own"]++
			r.Ob(s == own.addr(), "own-address", "id", p.o, "for %s the node's id is %q", what, s)
		} else {
			n["alone"]++
			bad := false
			for _, x := range recs {
				bad = bad || s == x.addr()
			}
			r.Ob(!bad, "own-address", "id", p.o, "for %s the node takes the address of another node, %q, as its id", what, s)
		}
	}
	if own != nil {
		if s, ok := str(bind, "raft address"); ok {
			h, _, err := net.SplitHostPort(s)
			r.Ob(err == nil && h == own.target, "raft-address-on-own-host", "raft address", p.o, "for %s the raft address is %q", what, s)
		}
	}
	l := p.list(hosts)
	if hosts.Op == "nil" {
		l = []*eng.Term{}
	}
	var got []string
	ok := l != nil
	for _, t := range l {
		x, k := v.val(t)
		s, isS := x.(string)
		ok = ok && k && isS
		got = append(got, s)
	}
	if !ok {
		if x, k := v.val(hosts); k {
			if s, isL := x.([]string); isL {
				got, ok = s, true
			}
		}
	}
	if r.Ob(ok, "joins-the-others", "hosts", p.o, "for %s the hosts to join are not decided: %s", what, hosts) {
		slices.Sort(got)
		want := slices.Clone(others)
		slices.Sort(want)
		r.Ob(slices.Equal(got, want), "joins-the-others", "hosts", p.o, "for %s the hosts to join are %q", what, got)
	}
}

// either: the call succeeds with these results, or fails.
func either(e *eng.Exec, res func(call *eng.Call, st *eng.State) []*eng.Term) eng.Model {
	return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		bad := st.Clone()
		ok := res(call, st)
		st.Emit(&eng.Event{Kind: "call", Name: call.Name, Callee: call.Fn, Recv: call.Recv, Args: call.Args, Res: ok, Pos: call.Pos, In: call.In()})
		k(st, ok...)
		var no []*eng.Term
		t := call.Sig.Results()
		for i := 0; i < t.Len()-1; i++ {
			no = append(no, eng.Zero(t.At(i).Type()))
		}
		no = append(no, e.AnyErr(call.Name))
		bad.Emit(&eng.Event{Kind: "call", Name: call.Name, Callee: call.Fn, Recv: call.Recv, Args: call.Args, Res: no, Pos: call.Pos, In: call.In(), Failed: true})
		k(bad, no...)
		return true
	}
}

// bootstrapRule: a node that starts a cluster starts it as its only member,
// under its own id and address.
func bootstrapRule(r *Report, p *path) {
	var id, bind *eng.Term
	for _, x := range p.evs {
		switch {
		case x.Kind == "call" && x.Name == raftPkg+".NewRaft" && len(x.Args) > 0:
			id = follow(p.st, x.Args[0], []string{"LocalID"})
		case x.Kind == "call" && strings.HasPrefix(x.Name, raftPkg+".NewTCPTransport") && len(x.Args) > 0:
			bind = strip(x.Args[0])
		case x.Kind == "raft" && x.Name == "BootstrapCluster" && len(x.Args) > 0:
			l := p.list(follow(p.st, x.Args[0], []string{"Servers"}))
			if !r.Ob(len(l) == 1, "bootstraps-as-itself", "members", p.o, "a new cluster is started with the members %s", x.Args[0]) {
				continue
			}
			m, a := follow(p.st, l[0], []string{"ID"}), follow(p.st, l[0], []string{"Address"})
			r.Ob(same(m, id), "bootstraps-as-itself", "id", p.o, "a new cluster is started with the member %s, the node is %s", m, id)
			r.Ob(same(a, bind), "bootstraps-as-itself", "address", p.o, "a new cluster is started with a member at %s, the node listens on %s", a, bind)
		}
	}
}
