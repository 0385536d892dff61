package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

const (
	humaPkg  = "github.com/danielgtaylor/huma/v2"
	fiberPkg = "github.com/gofiber/fiber/v2"
	apiPkg   = Mod + "/pkg/http"
)

// apiOp is one operation of the public API: its HTTP route, the node operation
// it stands for, and where every value of request and answer belongs. The names
// are those on the wire.
type apiOp struct {
	node    string
	method  string
	path    string
	args    []string // request fields, in the node operation's order
	outs    map[string]string
	change  bool // changes a queue
	rpc     string
	rpcArgs []string
	rpcOuts map[string]string
}

// Sources: "in:x" request field x, "res:A.B" field of what the node returned,
// "=lit" a literal; alternatives are separated by "|".
var apiOps = []apiOp{
	{node: "Join", method: "POST", path: "/join", args: []string{"body:id", "body:addr"},
		outs: map[string]string{"id": "in:body:id", "addr": "in:body:addr"}},
	{node: "CreateQueue", method: "POST", path: "/API/v1/queues", args: []string{"body:type", "body:name"}, change: true,
		outs: map[string]string{"status": "=CREATED", "name": "in:body:name", "type": "in:body:type"},
		rpc:  "CreateQueue", rpcArgs: []string{"type", "name"}, rpcOuts: map[string]string{"success": "=true"}},
	{node: "DeleteQueue", method: "DELETE", path: "/API/v1/queues/:queue_name", args: []string{"path:queue_name"}, change: true,
		outs: map[string]string{"status": "=DELETED"},
		rpc:  "DeleteQueue", rpcArgs: []string{"name"}, rpcOuts: map[string]string{"success": "=true"}},
	{node: "Enqueue", method: "POST", path: "/API/v1/queues/:queue_name/messages", args: []string{"path:queue_name", "body:group", "body:priority", "body:content"}, change: true,
		outs: map[string]string{"status": "=ENQUEUED", "id": "res:ID", "group": "in:body:group|res:Group", "priority": "in:body:priority|res:Priority", "content": "in:body:content|res:Content"},
		rpc:  "Enqueue", rpcArgs: []string{"queueName", "group", "priority", "content"},
		rpcOuts: map[string]string{"success": "=true", "id": "res:ID", "group": "in:group|res:Group", "priority": "in:priority|res:Priority", "content": "in:content|res:Content"}},
	{node: "Dequeue", method: "GET", path: "/API/v1/queues/:queue_name/messages", args: []string{"path:queue_name", "query:ack"}, change: true,
		outs: map[string]string{"status": "=DEQUEUED", "id": "res:ID", "group": "res:Group", "priority": "res:Priority", "content": "res:Content"},
		rpc:  "Dequeue", rpcArgs: []string{"queueName", "ack"},
		rpcOuts: map[string]string{"success": "=true", "id": "res:ID", "group": "res:Group", "priority": "res:Priority", "content": "res:Content"}},
	{node: "Ack", method: "POST", path: "/API/v1/queues/:queue_name/messages/:id/ack", args: []string{"path:queue_name", "path:id"}, change: true,
		outs: map[string]string{"status": "=ACKNOWLEDGED", "id": "in:path:id"},
		rpc:  "Ack", rpcArgs: []string{"queueName", "id"}, rpcOuts: map[string]string{"success": "=true"}},
	{node: "Nack", method: "POST", path: "/API/v1/queues/:queue_name/messages/:id/nack", args: []string{"path:queue_name", "path:id"}, change: true,
		outs: map[string]string{"status": "=UNACKNOWLEDGED", "id": "in:path:id"},
		rpc:  "Nack", rpcArgs: []string{"queueName", "id"}, rpcOuts: map[string]string{"success": "=true"}},
	{node: "UpdatePriority", method: "PUT", path: "/API/v1/queues/:queue_name/messages/:id/priority", args: []string{"path:queue_name", "path:id", "body:priority"}, change: true,
		outs: map[string]string{"status": "=UPDATED", "id": "in:path:id", "priority": "in:body:priority"},
		rpc:  "UpdatePriority", rpcArgs: []string{"queueName", "id", "priority"}, rpcOuts: map[string]string{"success": "=true"}},
	{node: "GetQueues", method: "GET", path: "/API/v1/queues", args: nil, outs: map[string]string{"queues": "list"}},
	{node: "GetQueueInfo", method: "GET", path: "/API/v1/queues/:queue_name", args: []string{"path:queue_name"}, outs: queueOuts("in:path:queue_name|")},
}

func queueOuts(name string) map[string]string {
	return map[string]string{"name": name + "res:Name", "type": "res:Type", "enqueue_rps": "res:Stats.EnqueueRPS", "dequeue_rps": "res:Stats.DequeueRPS",
		"ack_rps": "res:Stats.AckRPS", "nack_rps": "res:Stats.NackRPS", "ready": "res:Ready", "unacked": "res:Unacked", "total": "res:Total"}
}

func apiOpOf(f func(o *apiOp) bool) *apiOp {
	for i := range apiOps {
		if f(&apiOps[i]) {
			return &apiOps[i]
		}
	}
	return nil
}

func isNodeOpName(n string) bool {
	return apiOpOf(func(o *apiOp) bool { return o.node == n }) != nil
}

// apiPath is a path of an API handler with what matters about it.
type apiPath struct {
	*path
	in      *eng.Term
	out     *eng.Term
	ops     []*eng.Event // operations of the node
	isLead  []*eng.Event
	leaders []*eng.Event
	fwd     []*eng.Event // requests to another node
	mark    int
}

type apiRun struct {
	name  string // construct
	api   string
	rpc   string
	op    *apiOp
	fn    *ssa.Function
	inT   types.Type
	outT  types.Type
	ps    []*apiPath
	route *route
}

type route struct {
	method, path string
	handler      *eng.Term
	ev           *eng.Event
	opID         string
}

// nodeMethod: the event calls the node through the API's interface.
func (c *Ctx) nodeMethod(e *eng.Event) string {
	if e.Kind != "call" || e.Callee != nil || !strings.HasPrefix(e.Name, "("+Mod+"/pkg/") {
		return ""
	}
	return e.Name[strings.LastIndex(e.Name, ".")+1:]
}

func last(n string) string { return n[strings.LastIndex(n, ".")+1:] }

// httpModels: what the HTTP libraries do.
func (c *Ctx) httpModels(e *eng.Exec) {
	errT := types.Universe.Lookup("error").Type()
	humaErr := func(status int) eng.Model {
		return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
			t := eng.Mk("nonnil", fmt.Sprintf("huma%d", status), call.Sig.Results().At(0).Type(), e.Fresh("errval", "huma", errT))
			k(st, t)
			return true
		}
	}
	re := regexp.MustCompile(`^` + regexp.QuoteMeta(humaPkg) + `\.(?:Error|Status)(\d\d\d)`)
	e.Match = append([]func(*eng.Call) eng.Model{func(call *eng.Call) eng.Model {
		if m := re.FindStringSubmatch(call.Name); m != nil {
			n, _ := strconv.Atoi(m[1])
			return humaErr(n)
		}
		if call.Name == "dynamic" && call.Recv != nil && len(call.Args) > 0 && call.Recv.Contains(func(t *eng.Term) bool {
			return t.Op == "global" && (t.Aux == humaPkg+".NewError" || t.Aux == humaPkg+".NewErrorWithContext")
		}) {
			for _, a := range call.Args {
				if n, ok := strip(a).IntVal(); ok {
					return humaErr(int(n))
				}
			}
			return humaErr(0)
		}
		if strings.HasPrefix(call.Name, humaPkg+".") {
			switch m := call.Name[len(humaPkg)+1:]; m {
			case "Register":
				return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
					op := st.Value(call.Args[1])
					st.Emit(&eng.Event{Kind: "route", Name: "Register", Args: []*eng.Term{op, call.Args[2]}, Recv: call.Args[0], Pos: call.Pos, In: call.In()})
					k(st)
					return true
				}
			case "Get", "Post", "Put", "Patch", "Delete", "Head":
				return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
					st.Emit(&eng.Event{Kind: "route", Name: strings.ToUpper(m), Args: []*eng.Term{call.Args[1], call.Args[2]}, Recv: call.Args[0], Pos: call.Pos, In: call.In()})
					k(st)
					return true
				}
			}
		}
		// fiber and its middleware: recorded, results never nil
		if strings.Contains(call.Name, fiberPkg) || strings.Contains(call.Name, "fiberprometheus") || strings.Contains(call.Name, humaPkg) {
			return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
				res := call.Sig.Results()
				if n := res.Len(); n > 0 && eng.IsErrorType(res.At(n-1).Type()) {
					return false
				}
				var r []*eng.Term
				for i := 0; i < res.Len(); i++ {
					t := e.Fresh("res", last(call.Name), res.At(i).Type())
					r = append(r, t)
					if nilable(res.At(i).Type()) {
						st.Assume(eng.IsNil(t), false)
					}
				}
				args := call.Args
				if n := len(args); n > 0 && call.Sig.Variadic() {
					if els, ok := e.SliceElems(st, args[n-1]); ok {
						args = append(append([]*eng.Term(nil), args[:n-1]...), els...)
					}
				}
				st.Emit(&eng.Event{Kind: "call", Name: call.Name, Callee: call.Fn, Recv: call.Recv, Args: args, Res: r, Pos: call.Pos, In: call.In()})
				k(st, r...)
				return true
			}
		}
		return nil
	}}, e.Match...)
	c.clientModels(e)
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// clientModels: requests to another node.
func (c *Ctx) clientModels(e *eng.Exec) {
	newReq := func(off int) eng.Model {
		return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
			bad := st.Clone()
			t := e.Fresh("alloc", "request", call.Sig.Results().At(0).Type())
			st.SetMem(eng.Mk("httpreq", "", nil, t), c.reqInfo(st, call.Args[off], call.Args[off+1], call.Args[off+2]))
			st.Emit(&eng.Event{Kind: "newrequest", Name: call.Name, Args: call.Args[off:], Res: []*eng.Term{t}, Pos: call.Pos, In: call.In()})
			k(st, t, eng.Nil)
			bad.Emit(&eng.Event{Kind: "newrequest", Name: call.Name, Args: call.Args[off:], Pos: call.Pos, In: call.In(), Failed: true})
			k(bad, eng.Nil, e.AnyErr("NewRequest"))
			return true
		}
	}
	e.Models["net/http.NewRequest"] = newReq(0)
	e.Models["net/http.NewRequestWithContext"] = newReq(1)
	send := func(req func(call *eng.Call, st *eng.State) *eng.Term) eng.Model {
		return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
			bad := st.Clone()
			q := req(call, st)
			resp := e.Fresh("res", "response", call.Sig.Results().At(0).Type())
			st.Assume(eng.IsNil(resp), false)
			st.Emit(&eng.Event{Kind: "http", Name: call.Name, Recv: call.Recv, Args: q.Args, Res: []*eng.Term{resp}, Pos: call.Pos, In: call.In()})
			k(st, resp, eng.Nil)
			bad.Emit(&eng.Event{Kind: "http", Name: call.Name, Recv: call.Recv, Args: q.Args, Res: []*eng.Term{eng.Nil}, Pos: call.Pos, In: call.In(), Failed: true})
			k(bad, eng.Nil, e.AnyErr("http"))
			return true
		}
	}
	e.Models["(*net/http.Client).Do"] = send(func(call *eng.Call, st *eng.State) *eng.Term {
		if v, ok := st.Mem(eng.Mk("httpreq", "", nil, eng.Unbox(call.Args[0]))); ok {
			return v
		}
		return eng.Mk("httpreq?", "", nil, eng.Mk("unknown", "", nil), eng.Mk("unknown", "", nil), eng.Nil)
	})
	post := send(func(call *eng.Call, st *eng.State) *eng.Term {
		return c.reqInfo(st, eng.Str("POST"), call.Args[0], call.Args[2])
	})
	get := send(func(call *eng.Call, st *eng.State) *eng.Term {
		return c.reqInfo(st, eng.Str("GET"), call.Args[0], eng.Nil)
	})
	e.Models["(*net/http.Client).Post"] = post
	e.Models["net/http.Post"] = post
	e.Models["(*net/http.Client).Get"] = get
	e.Models["net/http.Get"] = get
	for _, n := range []string{"Set", "Add", "Del"} {
		e.Models["(net/http.Header)."+n] = func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
			k(st)
			return true
		}
	}
	e.Models["(io.Closer).Close"] = func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		st.Emit(&eng.Event{Kind: "closed", Recv: call.Recv, Pos: call.Pos, In: call.In()})
		k(st, e.Fresh("res", "Close", call.Sig.Results().At(0).Type()))
		return true
	}
	e.Models["io/ioutil.ReadAll"] = e.Models["io.ReadAll"]
	for _, n := range []string{"bufio.NewReader", "io.NopCloser"} {
		e.Models[n] = func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
			k(st, eng.Mk("conv", "", call.Sig.Results().At(0).Type(), eng.Unbox(call.Args[0])))
			return true
		}
	}
}

func (c *Ctx) reqInfo(st *eng.State, method, url, body *eng.Term) *eng.Term {
	b := eng.Unbox(body)
	if b.Op != "nil" {
		if v, ok := st.Mem(eng.Mk("content", "", nil, b)); ok {
			b = v
		}
	}
	m := strip(method)
	if v, ok := m.StrVal(); ok && v == "" {
		m = eng.Str("GET")
	}
	return eng.Mk("httpreq", "", nil, m, eng.Concat(url), b)
}

// httpAPI is the HTTP service as its constructor builds it.
type httpAPI struct {
	c      *Ctx
	r      *Report
	e      *eng.Exec
	ctor   *ssa.Function
	ctors  []*path
	routes [][]*route // per constructor path
	runs   []*apiRun
}

func (c *Ctx) httpAPI(r *Report) *httpAPI {
	a := &httpAPI{c: c, r: r}
	a.ctor = c.serviceCtor(r)
	if a.ctor == nil {
		return nil
	}
	a.e = c.exec(r)
	a.e.Visits = 3
	c.httpModels(a.e)
	for _, p := range paths(a.ctor, r.run(a.e, a.ctor, nil)) {
		if p.cut || !p.ok {
			continue
		}
		a.ctors = append(a.ctors, p)
		var rs []*route
		for _, ev := range p.kind("route") {
			x := &route{ev: ev, handler: ev.Args[1]}
			if ev.Name == "Register" {
				x.method, _ = strip(eng.Field(strip(ev.Args[0]), "Method", types.Typ[types.String])).StrVal()
				x.path, _ = strip(eng.Field(strip(ev.Args[0]), "Path", types.Typ[types.String])).StrVal()
				x.opID, _ = strip(eng.Field(strip(ev.Args[0]), "OperationID", types.Typ[types.String])).StrVal()
			} else {
				x.method = ev.Name
				x.path, _ = strip(ev.Args[0]).StrVal()
			}
			x.path = normPath(x.path)
			rs = append(rs, x)
		}
		a.routes = append(a.routes, rs)
	}
	if !r.Anchor(len(a.ctors) > 0 && len(a.routes[0]) >= len(apiOps), "the routes of the HTTP API") {
		return nil
	}
	return a
}

var braceParam = regexp.MustCompile(`\{([A-Za-z0-9_]+)\}`)

func normPath(p string) string { return braceParam.ReplaceAllString(p, ":$1") }

// serviceCtor is the function of pkg/http that takes a node and makes the
// service: it is called by the server.
func (c *Ctx) serviceCtor(r *Report) *ssa.Function {
	fn := c.Func("pkg/http", "NewHttpService")
	if !r.Anchor(fn != nil, "http.NewHttpService") {
		return nil
	}
	return fn
}

// run executes every handler on what the constructor left.
func (a *httpAPI) handlers() []*apiRun {
	if a.runs != nil {
		return a.runs
	}
	for ci, p := range a.ctors {
		for _, rt := range a.routes[ci] {
			op := apiOpOf(func(o *apiOp) bool { return o.method == rt.method && o.path == rt.path })
			x := a.runHandler(p.st, rt, op)
			if x == nil {
				continue
			}
			// the constructor's branches do not change the handlers: keep one run
			// per route unless they do
			merged := false
			for _, y := range a.runs {
				if y.name == x.name {
					y.ps = append(y.ps, x.ps...)
					merged = true
				}
			}
			if !merged {
				a.runs = append(a.runs, x)
			}
		}
	}
	return a.runs
}

func (a *httpAPI) runHandler(base *eng.State, rt *route, op *apiOp) *apiRun {
	t := eng.Unbox(rt.handler)
	for t.Op == "conv" {
		t = t.Args[0]
	}
	if !a.r.Anchor(t.Fn != nil, "the handler of "+rt.method+" "+rt.path) {
		return nil
	}
	ps := t.Fn.Signature.Params()
	if !a.r.Anchor(ps.Len() == 2, "the handler of "+rt.method+" "+rt.path) {
		return nil
	}
	x := &apiRun{name: rt.method + " " + rt.path, api: "HTTP", op: op, fn: t.Fn, route: rt}
	x.inT = ps.At(1).Type()
	st := base.Clone()
	ctx := eng.Sym("ctx", ps.At(0).Type())
	in := eng.Sym("input", x.inT)
	st.Assume(eng.IsNil(in), false)
	st.Assume(eng.IsNil(ctx), false)
	mark := len(st.Events())
	var outs []eng.Outcome
	a.e.RunFunc(t, st, []*eng.Term{ctx, in}, func(st *eng.State, ret []*eng.Term, ex eng.Exit, why string, pos token.Pos) {
		outs = append(outs, eng.Outcome{Ret: ret, St: st, Exit: ex, Why: why, Pos: pos})
	})
	a.r.finish(a.e, x.name, outs)
	if res := t.Fn.Signature.Results(); res.Len() == 2 {
		x.outT = res.At(0).Type()
	}
	for _, p := range paths(t.Fn, outs) {
		x.ps = append(x.ps, a.c.apiPath(p, in, mark))
	}
	return x
}

func (c *Ctx) apiPath(p *path, in *eng.Term, mark int) *apiPath {
	y := &apiPath{path: p, in: in, mark: mark}
	p.evs = p.evs[mark:]
	for _, e := range p.evs {
		switch m := c.nodeMethod(e); {
		case m == "IsLeader":
			y.isLead = append(y.isLead, e)
		case m == "Leader":
			y.leaders = append(y.leaders, e)
		case isNodeOpName(m):
			if !isClientIface(e.Name) {
				y.ops = append(y.ops, e)
			}
		}
		if e.Kind == "http" || e.Kind == "call" && isClientIface(e.Name) {
			y.fwd = append(y.fwd, e)
		}
	}
	if !p.cut && len(p.o.Ret) > 0 {
		y.out = p.st.Value(p.o.Ret[0])
	}
	return y
}

func isClientIface(n string) bool { return strings.HasPrefix(n, "("+Mod+"/pkg/proto.DOQClient).") }

// wireName of a request value: where the field it was read from is on the wire.
func wireName(t, in *eng.Term, inT types.Type) string {
	base, chain := fieldChain(t)
	if base != in {
		return ""
	}
	return wirePath(inT, chain)
}

// fieldChain splits a value read from an object into the object and the fields.
func fieldChain(t *eng.Term) (*eng.Term, []string) {
	var names []string
	for {
		t = strip(t)
		switch t.Op {
		case "field":
			names = append([]string{t.Aux}, names...)
			t = t.Args[0]
			continue
		case "deref", "load", "init":
			if len(t.Args) == 1 {
				a := t.Args[0]
				if a.Op == "fieldaddr" {
					names = append([]string{a.Aux}, names...)
					t = eng.Mk("deref", "", nil, a.Args[0])
					continue
				}
				t = a
				continue
			}
		}
		return t, names
	}
}

// wirePath names a field of an input: path:, query:, header: parameters, body:
// for JSON fields of the body, or the protobuf field name.
func wirePath(t types.Type, chain []string) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || len(chain) == 0 {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != chain[0] {
			continue
		}
		tag := reflect.StructTag(s.Tag(i))
		if pb := tag.Get("protobuf"); pb != "" {
			for _, p := range strings.Split(pb, ",") {
				if n, ok := strings.CutPrefix(p, "name="); ok && len(chain) == 1 {
					return n
				}
			}
			return ""
		}
		for _, k := range []string{"path", "query", "header", "cookie"} {
			if n := tag.Get(k); n != "" && len(chain) == 1 {
				n, _, _ = strings.Cut(n, ",")
				return k + ":" + n
			}
		}
		if f.Name() == "Body" && len(chain) > 1 {
			for _, jf := range eng.JSONFields(f.Type()) {
				if jf.Is(chain[1:]) {
					return "body:" + jf.Name()
				}
			}
			return ""
		}
		if f.Embedded() {
			return wirePath(f.Type(), chain[1:])
		}
	}
	return ""
}

// wireFields lists the wire names an input declares.
func wireFields(t types.Type) []string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []string
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			r = append(r, wireFields(f.Type())...)
			continue
		}
		if f.Name() == "Body" {
			for _, jf := range eng.JSONFields(f.Type()) {
				r = append(r, "body:"+jf.Name())
			}
			continue
		}
		if n := wirePath(t, []string{f.Name()}); n != "" {
			r = append(r, n)
		}
	}
	return r
}

// body of an output: the value of its Body field (HTTP) or the message itself.
func (x *apiRun) body(p *apiPath) (*eng.Term, types.Type) {
	t := x.outT
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if x.api != "HTTP" {
		return p.out, t
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Body" {
				return eng.Field(p.out, "Body", s.Field(i).Type()), s.Field(i).Type()
			}
		}
	}
	return nil, nil
}

// status of an output, 200 if it does not say.
func (x *apiRun) status(p *apiPath) (int64, bool) {
	t := x.outT
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Status" {
				n, ok := strip(eng.Field(p.out, "Status", s.Field(i).Type())).IntVal()
				if ok && n == 0 {
					n = 200
				}
				return n, ok
			}
		}
	}
	return 200, true
}

// outField is one wire field of an answer.
func outFields(v *eng.Term, t types.Type) map[string]*eng.Term {
	r := map[string]*eng.Term{}
	for _, f := range wireOuts(t) {
		x := v
		for _, p := range f.path {
			x = eng.Field(x, p.Name(), p.Type())
		}
		r[f.name] = strip(x)
	}
	return r
}

type wireOut struct {
	name string
	path []*types.Var
}

func wireOuts(t types.Type) []wireOut {
	var r []wireOut
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	pb := false
	for i := 0; i < s.NumFields(); i++ {
		if reflect.StructTag(s.Tag(i)).Get("protobuf") != "" {
			pb = true
			r = append(r, wireOut{wirePath(t, []string{s.Field(i).Name()}), []*types.Var{s.Field(i)}})
		}
	}
	if pb {
		return r
	}
	for _, f := range eng.JSONFields(t) {
		r = append(r, wireOut{f.Name(), f.Path()})
	}
	return r
}

// fromSource: the value is what the specification says.
func (x *apiRun) fromSource(p *apiPath, v *eng.Term, src string, res *eng.Term) bool {
	for _, s := range strings.Split(src, "|") {
		if s == "" {
			continue
		}
		if lit, ok := strings.CutPrefix(s, "="); ok {
			if b, isB := v.BoolVal(); isB && fmt.Sprint(b) == lit {
				return true
			}
			if y, isS := v.StrVal(); isS && y == lit {
				return true
			}
			continue
		}
		u := v
		if u.Op == "dec" {
			u = strip(u.Args[0])
		}
		if n, ok := strings.CutPrefix(s, "in:"); ok {
			if wireName(u, p.in, x.inT) == n {
				return true
			}
			continue
		}
		if n, ok := strings.CutPrefix(s, "res:"); ok && res != nil {
			b, chain := fieldChain(u)
			rb, _ := fieldChain(res)
			if b == rb && strings.Join(chain, ".") == n {
				return true
			}
		}
	}
	return false
}

// --- concrete decision of comparisons ----------------------------------------

var binTok = map[string]token.Token{"==": token.EQL, "!=": token.NEQ, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ,
	"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM}

// with decides a comparison after giving a term a number.
func with(a, x *eng.Term, n int64) (bool, bool) {
	t := eng.Subst(a, func(t *eng.Term) *eng.Term {
		if t == x {
			return eng.Const(constant.MakeInt64(n), types.Typ[types.Int])
		}
		return nil
	})
	var ev func(t *eng.Term) *eng.Term
	ev = func(t *eng.Term) *eng.Term {
		if t.Op == "conv" {
			return ev(t.Args[0])
		}
		if t.Op == "bin" {
			if op, ok := binTok[t.Aux]; ok {
				return eng.Binop(op, ev(t.Args[0]), ev(t.Args[1]), t.Typ)
			}
		}
		return t
	}
	return ev(t).BoolVal()
}

// allows: the path's facts are consistent with the number; decided is false
// when a fact about the term cannot be evaluated.
func (p *path) allows(x *eng.Term, n int64) (ok, tested bool) {
	ok = true
	p.st.FactTerms(func(a *eng.Term, v bool) {
		if !a.Has(x) {
			return
		}
		if y, known := with(a, x, n); known {
			tested = true
			if y != v {
				ok = false
			}
		}
	})
	return
}
