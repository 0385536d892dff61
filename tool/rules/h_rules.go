package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"doqcheck/eng"
)

// value a call's boolean result has on the path.
func (p *path) truth(e *eng.Event) (bool, bool) { return p.st.Decide(e.Res[0]) }

func (p *apiPath) leadBefore(seq int) *eng.Event {
	var l *eng.Event
	for _, e := range p.isLead {
		if e.Seq < seq {
			l = e
		}
	}
	if l == nil {
		return nil
	}
	// an answer from before the path waited for something says nothing now
	for _, e := range p.evs {
		if e.Seq > l.Seq && e.Seq < seq && (e.Kind == "select" || isStreamCall(e, "Recv") || e.Kind == "call" && e.Name == "time.Sleep") {
			return nil
		}
	}
	return l
}

// leaderOf: the value is what the node said its leader is.
func (p *apiPath) leaderOf(t *eng.Term) *eng.Event {
	for _, e := range p.leaders {
		if len(e.Res) > 0 && strip(e.Res[0]) == strip(t) {
			return e
		}
	}
	return nil
}

func isEmptyStr(t *eng.Term) *eng.Term { return eng.Eq(t, eng.Str("")) }

// leaderRule (R08): who executes and who forwards.
func (x *apiRun) leaderRule(r *Report) {
	local, fwd := 0, 0
	changing := x.op != nil && x.op.change
	for _, p := range x.ps {
		n := 0
		for _, e := range p.ops {
			if o := apiOpOf(func(o *apiOp) bool { return o.node == last(e.Name) }); o == nil || !o.change {
				continue
			}
			n++
			l := p.leadBefore(e.Seq)
			ok := false
			if l != nil {
				v, known := p.truth(l)
				ok = v && known
			}
			r.Ob(ok, "leader-executes", x.api+" "+x.name, p.o, "%s runs on this node although the node did not say just before that it is the leader", last(e.Name))
		}
		for _, e := range p.fwd {
			l := p.leadBefore(e.Seq)
			ok := false
			if l != nil {
				v, known := p.truth(l)
				ok = !v && known
			}
			r.Ob(ok, "follower-forwards", x.api+" "+x.name, p.o, "the request is forwarded although the node did not say that it is not the leader")
			r.Ob(n == 0, "execute-or-forward", x.api+" "+x.name, p.o, "the request is executed here and forwarded")
		}
		if p.cut || !changing {
			continue
		}
		r.Ob(len(p.fwd) <= 1 && n <= 1, "once", x.api+" "+x.name, p.o, "one request is executed %d times and forwarded %d times", n, len(p.fwd))
		if p.ok {
			r.Ob(n+len(p.fwd) == 1, "execute-or-forward", x.api+" "+x.name, p.o, "the request succeeds after %d executions here and %d forwards", n, len(p.fwd))
			local += n
			fwd += len(p.fwd)
		}
	}
	if changing {
		r.Ob(local > 0, "leader-executes", x.api+" "+x.name+" can succeed", nil, "no path on which the leader executes the request")
		r.Ob(fwd > 0, "follower-forwards", x.api+" "+x.name+" can succeed", nil, "no path on which a follower forwards the request")
	}
}

// relevant failures on a path.
func (p *apiPath) failures() []*eng.Event {
	var r []*eng.Event
	for _, e := range p.evs {
		// whether the caller is gone is not a failure of a layer below
		if e.Failed && e.Name != "(context.Context).Err" {
			r = append(r, e)
		}
	}
	return r
}

// status of the answers to the requests the path sent.
func statusOf(e *eng.Event) *eng.Term {
	if len(e.Res) == 0 {
		return nil
	}
	return eng.Mk("field", "StatusCode", types.Typ[types.Int], eng.Mk("deref", "", nil, strip(e.Res[0])))
}

var badStatuses = []int64{300, 302, 304, 400, 401, 403, 404, 405, 409, 422, 429, 500, 502, 503, 504}

// errorRule (R04): failures and successes reach the caller as such.
func (x *apiRun) errorRule(r *Report, leaderStatus int64) {
	cons := x.api + " " + x.name
	succ := 0
	for _, p := range x.ps {
		if p.cut {
			continue
		}
		fs := p.failures()
		if p.ok {
			succ++
			r.Ob(len(fs) == 0, "failure-is-reported", cons, p.o, "the request is reported as a success although %s", evStr(fs))
			if x.op != nil && x.op.change {
				n := len(p.fwd)
				for _, e := range p.ops {
					if o := apiOpOf(func(o *apiOp) bool { return o.node == last(e.Name) }); o != nil && o.change {
						n++
					}
				}
				r.Ob(n > 0, "failure-is-reported", cons+" is carried out", p.o, "the request is reported as a success although nothing below has carried it out")
			}
			if x.api == "HTTP" {
				st, known := x.status(p)
				r.Ob(known && st >= 200 && st <= 299, "success-is-reported", cons, p.o, "a success is answered with status %d", st)
			}
			for _, e := range p.fwd {
				if e.Kind != "http" || e.Failed {
					continue
				}
				sc := statusOf(e)
				for _, s := range badStatuses {
					ok, _ := p.allows(sc, s)
					r.Ob(!ok, "failure-is-reported", cons+" leader's status", p.o, "an answer of the leader with status %d is taken for a success", s)
				}
			}
			continue
		}
		// an error: what kind, and why
		if h := humaStatus(p.err); h != 0 {
			r.Ob(h >= 400, "failure-is-reported", cons, p.o, "a failure is answered with status %d, which is not an error status", h)
		}
		if len(fs) > 0 {
			r.Ob(true, "error-has-cause", cons, p.o, "")
			continue
		}
		why := false
		for _, l := range p.leaders {
			if p.st.Known(isEmptyStr(l.Res[0]), true) {
				why = true
			}
		}
		for _, e := range p.fwd {
			if e.Kind == "http" {
				if ok, tested := p.allows(statusOf(e), leaderStatus); tested && !ok {
					why = true
				}
			}
		}
		if x.op == nil {
			why = true
		}
		r.Ob(why, "error-has-cause", cons, p.o, "the request fails although nothing it needed failed")
	}
	r.Ob(succ > 0, "success-is-reported", cons, nil, "no path of the handler succeeds")
}

func humaStatus(err *eng.Term) int {
	n := 0
	if err != nil {
		err.Contains(func(t *eng.Term) bool {
			if t.Op == "nonnil" && strings.HasPrefix(t.Aux, "huma") {
				fmt.Sscanf(t.Aux, "huma%d", &n)
			}
			return false
		})
	}
	return n
}

// argsRule: the node operation gets the request's values.
func (x *apiRun) argsRule(r *Report) {
	if x.op == nil {
		return
	}
	cons := x.api + " " + x.name
	want := x.op.args
	if x.api == "gRPC" {
		want = x.op.rpcArgs
	}
	n := 0
	for _, p := range x.ps {
		for _, e := range p.ops {
			n++
			if !r.Ob(last(e.Name) == x.op.node, "right-operation", cons, p.o, "the request is executed as %s, not as %s", last(e.Name), x.op.node) {
				continue
			}
			if !r.Ob(len(e.Args) == len(want), "right-arguments", cons, p.o, "%s has %d arguments, the rule knows %d", last(e.Name), len(e.Args), len(want)) {
				continue
			}
			for i, w := range want {
				got := wireName(e.Args[i], p.in, x.inT)
				r.Ob(got == w, "right-arguments", fmt.Sprintf("%s argument %d of %s", cons, i, x.op.node), p.o, "%s is executed with %s, not with the request's %s", x.op.node, e.Args[i], w)
			}
		}
	}
	r.Ob(n > 0, "right-operation", cons, nil, "the request is never executed")
}

// answerRule (A01): every field of an answer is what it says.
func (x *apiRun) answerRule(r *Report, only ...string) {
	if x.op == nil {
		return
	}
	cons := x.api + " " + x.name
	want := x.op.outs
	if x.api == "gRPC" {
		want = x.op.rpcOuts
	}
	n := 0
	for _, p := range x.ps {
		if p.cut || !p.ok || len(p.fwd) > 0 {
			continue
		}
		v, t := x.body(p)
		if !r.Ob(v != nil, "answer", cons, p.o, "the answer has no body") {
			continue
		}
		var res *eng.Term
		for _, e := range p.ops {
			if len(e.Res) > 0 && last(e.Name) == x.op.node {
				res = e.Res[0]
			}
		}
		n++
		got := outFields(v, t)
		for _, name := range sortedKeys(want) {
			if len(only) > 0 && name != only[0] {
				continue
			}
			g, has := got[name]
			if !r.Ob(has, "answer-field", cons+" "+name, p.o, "the answer has no field %s", name) {
				continue
			}
			if want[name] == "list" {
				x.listRule(r, p, g, res, t, name)
				continue
			}
			r.Ob(x.fromSource(p, g, want[name], res), "answer-field", cons+" "+name, p.o, "the answer's %s is %s, it has to be %s", name, g, want[name])
		}
	}
	r.Ob(n > 0, "answer", cons, nil, "no path answers the request")
}

// listRule: the answer lists every element of the result, each with its own values.
func (x *apiRun) listRule(r *Report, p *apiPath, g, res *eng.Term, t types.Type, name string) {
	cons := x.api + " " + x.name + " " + name
	var et types.Type
	for _, f := range wireOuts(t) {
		if f.name == name {
			if s, ok := f.path[len(f.path)-1].Type().Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
		}
	}
	if !r.Ob(et != nil && res != nil, "answer-list", cons, p.o, "the answer is not a list of what the node returned") {
		return
	}
	// the number of elements the path found
	n := -1
	length := eng.Mk("call", "len", types.Typ[types.Int], strip(res))
	for i := 0; i <= 4; i++ {
		if ok, tested := p.allows(length, int64(i)); ok && tested {
			if n >= 0 {
				n = -2
				break
			}
			n = i
		}
	}
	els, ok := []*eng.Term(nil), false
	if e := p.list(g); e != nil {
		els, ok = e, true
	}
	if !r.Ob(ok && n >= 0, "answer-list", cons, p.o, "the answer's list cannot be followed: %s (%d)", g, n) {
		return
	}
	r.Ob(len(els) == n, "answer-list", cons+" length", p.o, "the answer lists %d of %d", len(els), n)
	for i, el := range els {
		fs := outFields(strip(el), et)
		for fname, src := range queueOuts("") {
			v, has := fs[fname]
			good := false
			if has {
				b, chain := fieldChain(v)
				good = strings.Join(chain, ".") == strings.TrimPrefix(src, "res:") && strings.HasPrefix(b.Op, "index") && len(b.Args) > 1 && strip(b.Args[0]) == strip(res)
				if good {
					if k, isC := strip(b.Args[1]).IntVal(); isC {
						good = int(k) == i
					}
				}
			}
			r.Ob(good, "answer-field", cons+" "+fname, p.o, "element %d has %s as its %s", i, v, fname)
		}
	}
}

// list is the content of a slice value: literal, appended or filled.
func (p *path) list(g *eng.Term) []*eng.Term {
	if g.Op == "slicelit" {
		return g.Args
	}
	if g.Op == "makeslice" {
		if n, ok := g.Args[0].IntVal(); ok && n == 0 {
			return []*eng.Term{}
		}
		var r []*eng.Term
		s, ok := g.Typ.Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		for i := int64(0); ; i++ {
			a := eng.Mk("idxaddr", "", types.NewPointer(s.Elem()), g, eng.Int(i))
			if v, ok := p.st.Mem(a); ok {
				r = append(r, v)
				continue
			}
			if p.hasFields(a, s.Elem()) {
				r = append(r, p.st.Load(a, s.Elem()))
				continue
			}
			break
		}
		if r == nil {
			r = []*eng.Term{}
		}
		return r
	}
	if g.Op == "nil" {
		return []*eng.Term{}
	}
	if g.Op == "sliceof" && g.Aux == "full" {
		if els, ok := (*eng.Exec)(nil).SliceElems(p.st, g); ok {
			return append([]*eng.Term{}, els...)
		}
	}
	return nil
}

func (p *path) hasFields(a *eng.Term, t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := p.st.Mem(eng.FieldAddr(a, s.Field(i).Name(), s.Field(i).Type())); ok {
			return true
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// listenPort is the port the service listens on, as a value of the constructor.
func (a *httpAPI) listenPort(ci int) *eng.Term {
	p := a.ctors[ci]
	if len(p.o.Ret) == 0 {
		return nil
	}
	pt := eng.Deref(p.o.Ret[0])
	if pt == nil {
		return nil
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok {
		return nil
	}
	fn := a.c.Method("pkg/http", n.Obj().Name(), "Start")
	if fn == nil {
		return nil
	}
	base := len(p.st.Events())
	var port *eng.Term
	for _, q := range paths(fn, a.r.run(a.e, fn, p.st.Clone(), p.o.Ret[0])) {
		for _, e := range q.evs[base:] {
			if e.Kind == "call" && strings.HasPrefix(last(e.Name), "Listen") && strings.Contains(e.Name, fiberPkg) {
				t := strip(e.Args[0])
				if t.Op == "concat" && len(t.Args) == 2 {
					if s, ok := t.Args[0].StrVal(); ok && strings.HasSuffix(s, ":") {
						port = strip(t.Args[1])
					}
				}
			}
		}
	}
	return port
}

// template renders a string of the path with the variables named.
func (x *apiRun) template(p *apiPath, t, port *eng.Term) string {
	parts := []*eng.Term{t}
	if t.Op == "concat" {
		parts = t.Args
	}
	var b strings.Builder
	for _, q := range parts {
		if s, ok := q.StrVal(); ok {
			b.WriteString(s)
			continue
		}
		u := strip(q)
		if u.Op == "dec" {
			u = strip(u.Args[0])
		}
		switch {
		case p.leaderOf(u) != nil:
			b.WriteString("{leader}")
		case port != nil && u == port:
			b.WriteString("{port}")
		default:
			n := wireName(u, p.in, x.inT)
			if n == "" {
				n = "?" + u.String()
			}
			b.WriteString("{" + n + "}")
		}
	}
	return b.String()
}

// targetRule (R08, R09): a request is forwarded to the leader the node knows, at
// the port the service listens on.
func (a *httpAPI) targetRule(r *Report, x *apiRun, port *eng.Term) {
	cons := "HTTP " + x.name
	for _, p := range x.ps {
		for _, e := range p.fwd {
			if e.Kind != "http" {
				r.Ob(false, "to-the-leader", cons, p.o, "an HTTP request is forwarded by gRPC")
				continue
			}
			url := x.template(p, e.Args[1], port)
			u, _, _ := strings.Cut(url, "?")
			head, okHead := strings.CutPrefix(u, "http://{leader}")
			r.Ob(okHead, "to-the-leader", cons, p.o, "the request is sent to %s, not to the leader the node knows", url)
			if okHead && !strings.HasPrefix(head, ":{port}/") {
				r.Ob(strings.HasPrefix(head, "/") && port != nil && p.st.Known(isEmptyStr(port), true), "to-the-leader", cons+" port", p.o, "the request is not sent to the port the service listens on: %s", url)
			}
			if lev := p.leaderIn(e.Args[1]); lev != nil {
				r.Ob(p.st.Known(isEmptyStr(lev.Res[0]), false), "leader-is-known", cons, p.o, "the request is forwarded without a check that the leader is known")
			}
		}
	}
}

// servesForwards: every route a request is forwarded to is served with the same
// method by every node.
func (a *httpAPI) servesForwards(r *Report) {
	for _, o := range apiOps {
		if !o.change {
			continue
		}
		n := 0
		for _, x := range a.handlers() {
			if x.op != nil && x.op.node == o.node {
				n++
			}
		}
		r.Ob(n == 1, "leader-serves", "HTTP "+o.node, nil, "%s %s is served %d times", o.method, o.path, n)
	}
}

// forwardRule (R09) for HTTP: the request sent is the request received.
func (a *httpAPI) forwardRule(r *Report, x *apiRun, port *eng.Term) {
	if x.op == nil || !x.op.change {
		return
	}
	cons := "HTTP " + x.name
	segs := strings.Split(x.route.path, "/")
	for i, s := range segs {
		if strings.HasPrefix(s, ":") {
			segs[i] = "{path:" + s[1:] + "}"
		}
	}
	wantPath := strings.Join(segs, "/")
	var query, bodyF []string
	for _, f := range wireFields(x.inT) {
		if n, ok := strings.CutPrefix(f, "query:"); ok {
			query = append(query, n)
		}
		if n, ok := strings.CutPrefix(f, "body:"); ok {
			bodyF = append(bodyF, n)
		}
	}
	sent, answered := 0, 0
	for _, p := range x.ps {
		for _, e := range p.fwd {
			if e.Kind != "http" {
				continue
			}
			sent++
			m, _ := e.Args[0].StrVal()
			r.Ob(m == x.route.method, "same-method", cons, p.o, "a %s request is forwarded as %s", x.route.method, e.Args[0])
			url := x.template(p, e.Args[1], port)
			u, q, _ := strings.Cut(url, "?")
			rest := strings.TrimPrefix(u, "http://")
			if i := strings.Index(rest, "/"); i >= 0 {
				rest = rest[i:]
			}
			r.Ob(rest == wantPath, "same-route", cons, p.o, "the request is forwarded to %s, it was received at %s", rest, wantPath)
			qs := map[string]string{}
			if q != "" {
				for _, kv := range strings.Split(q, "&") {
					k, v, _ := strings.Cut(kv, "=")
					qs[k] = v
				}
			}
			for _, n := range query {
				r.Ob(qs[n] == "{query:"+n+"}", "same-query", cons+" "+n, p.o, "the query parameter %s is forwarded as %q", n, qs[n])
			}
			if len(bodyF) > 0 {
				a.sameBody(r, x, p, e, bodyF)
			}
			if !p.cut && p.ok && !e.Failed {
				answered++
				a.sameAnswer(r, x, p, e)
			}
		}
	}
	r.Ob(sent > 0, "is-forwarded", cons, nil, "the request is never forwarded")
	r.Ob(answered > 0, "is-forwarded", cons+" answer", nil, "no path passes the leader's answer on")
	// the status the leader answers with is one a follower accepts
	for _, p := range x.ps {
		if p.cut || !p.ok || len(p.fwd) > 0 {
			continue
		}
		st, known := x.status(p)
		acc := false
		for _, q := range x.ps {
			if q.cut || !q.ok || len(q.fwd) != 1 || q.fwd[0].Kind != "http" {
				continue
			}
			if ok, _ := q.allows(statusOf(q.fwd[0]), st); ok {
				acc = true
			}
		}
		r.Ob(known && acc, "answer-accepted", cons, p.o, "the leader answers a success with status %d, which a follower takes for a failure", st)
	}
}

// leaderIn: the answer about the leader that a value contains.
func (p *apiPath) leaderIn(t *eng.Term) *eng.Event {
	for _, l := range p.leaders {
		if len(l.Res) > 0 && t.Has(strip(l.Res[0])) {
			return l
		}
	}
	return nil
}

func inputBody(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Body" {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

func (a *httpAPI) sameBody(r *Report, x *apiRun, p *apiPath, e *eng.Event, fields []string) {
	cons := "HTTP " + x.name
	b := strip(e.Args[2])
	if !r.Ob(b.Op == "jsonbytes", "same-body", cons, p.o, "the forwarded body is %s, not the JSON of the request's body", b) {
		return
	}
	bt := inputBody(x.inT)
	v, ok := a.e.JSONDecode(b.Args[0], bt)
	if !r.Ob(ok, "same-body", cons, p.o, "the forwarded body does not decode as the request's body") {
		return
	}
	got := outFields(v, bt)
	for _, f := range fields {
		w := ""
		if g := got[f]; g != nil {
			w = wireName(g, p.in, x.inT)
		}
		r.Ob(w == "body:"+f, "same-body", cons+" "+f, p.o, "the body field %s is forwarded as %v", f, got[f])
	}
}

func (a *httpAPI) sameAnswer(r *Report, x *apiRun, p *apiPath, e *eng.Event) {
	cons := "HTTP " + x.name
	v, t := x.body(p)
	if v == nil {
		r.Ob(false, "same-answer", cons, p.o, "the forwarded answer has no body")
		return
	}
	resp := strip(e.Res[0])
	var dec *eng.Event
	for _, d := range p.evs {
		if d.Kind == "jsondecode" && !d.Failed && len(d.Args) > 0 && d.Args[0].Has(resp) {
			dec = d
		}
	}
	if !r.Ob(dec != nil, "same-answer", cons, p.o, "the leader's answer is not read") {
		return
	}
	names := map[string]wireOut{}
	for _, f := range wireOuts(dec.Elem) {
		names[f.name] = f
	}
	for _, f := range wireOuts(t) {
		g := outFields(v, t)[f.name]
		base, chain := fieldChain(g)
		src, has := names[f.name]
		ok := has && base == strip(dec.Res[0]) && len(chain) == len(src.path)
		if ok {
			for i, pv := range src.path {
				ok = ok && chain[i] == pv.Name()
			}
			lt, st := f.path[len(f.path)-1].Type(), src.path[len(src.path)-1].Type()
			ok = ok && types.Identical(lt.Underlying(), st.Underlying())
		}
		r.Ob(ok, "same-answer", cons+" "+f.name, p.o, "the answer's %s is %s, not the one the leader answered", f.name, g)
	}
}
