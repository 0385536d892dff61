package rules

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() {
	register("F02", "Symbolic evaluation of the deployment program over SSA paths, for unknown parameters, to the resources it asks for; compared with what the server's own source does: the flags its command defines, the name its discovery looks up, the calls it makes to the Kubernetes API and the endpoint it creates.", 60, ruleF02)
}

const (
	pulumiPkg = "github.com/pulumi/pulumi/sdk/v3/go/pulumi"
	pulumiK8s = "github.com/pulumi/pulumi-kubernetes/sdk/"
)

// loadDeploy loads the deployment's module. Of its dependencies only the
// declarations are read.
func loadDeploy(dir string) (*Ctx, error) {
	fset := token.NewFileSet()
	abs, err := filepath.Abs(dir)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode: loadMode&^packages.NeedExportFile | packages.NeedDeps,
		Dir:  dir, Fset: fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
		ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
			if f != nil && !strings.HasPrefix(name, abs+string(filepath.Separator)) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	c := &Ctx{Repo: filepath.Dir(abs), Pkgs: ps, ByPath: map[string]*ssa.Package{}, Src: map[string]*packages.Package{}, Fset: fset, own: map[string]bool{}}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %s", p.PkgPath, e)
		}
	}
	// a declaration without a body is an error to the type checker
	packages.Visit(ps, nil, func(p *packages.Package) { p.IllTyped = false })
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	c.Prog = prog
	for i, p := range ps {
		c.Src[p.PkgPath] = p
		if sp[i] != nil {
			c.ByPath[p.PkgPath] = sp[i]
			c.own[p.PkgPath] = true
		}
	}
	return c, nil
}

// resource is something the deployment asks for.
type resource struct {
	kind string
	args *eng.Term
	ev   *eng.Event
}

// deployRun is one way through the deployment program.
type deployRun struct {
	c   *Ctx
	e   *eng.Exec
	p   *path
	res []resource
}

// deployModels: the parameters are unknown, and what is asked for is created
// or refused.
func deployModels(e *eng.Exec, body *[]func(eng.K)) {
	pass := func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		if len(call.Args) == 0 {
			return false
		}
		k(st, strip(call.Args[0]))
		return true
	}
	e.Match = append([]func(*eng.Call) eng.Model{func(call *eng.Call) eng.Model {
		n := call.Name
		bare := strings.TrimLeft(n, "(*")
		switch {
		case n == pulumiPkg+".Run" || n == pulumiPkg+".RunErr":
			return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
				f, s := call.Args[0], st.Clone()
				*body = append(*body, func(end eng.K) {
					ctx := eng.Sym("ctx", nil)
					if sg, ok := f.Typ.Underlying().(*types.Signature); ok {
						ctx = eng.Sym("ctx", sg.Params().At(0).Type())
					}
					s.Assume(eng.IsNil(ctx), false)
					e.RunFunc(f, s, []*eng.Term{ctx}, end)
				})
				for i := 0; i < call.Sig.Results().Len(); i++ {
					k(st, eng.Nil)
					return true
				}
				k(st)
				return true
			}
		case strings.HasPrefix(bare, pulumiPkg+"/config."):
			m := last(n)
			return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
				res := call.Sig.Results()
				if m == "New" {
					t := e.Fresh("res", "config", res.At(0).Type())
					st.Assume(eng.IsNil(t), false)
					k(st, t)
					return true
				}
				var key string
				ok := false
				for _, a := range call.Args {
					if s, isS := strip(a).StrVal(); isS {
						key, ok = s, true
					}
				}
				if !ok || res.Len() == 0 {
					return false
				}
				v := eng.Sym("param:"+key, res.At(0).Type())
				if res.Len() == 2 {
					bad := st.Clone()
					k(st, v, eng.Nil)
					k(bad, eng.Zero(res.At(0).Type()), e.AnyErr("config."+m))
					return true
				}
				k(st, v)
				return true
			}
		case bare == pulumiPkg+".Sprintf":
			return e.Models["fmt.Sprintf"]
		case strings.HasPrefix(bare, pulumiPkg+"."):
			m := last(n)
			if m == "Any" || m == "ToOutput" || m == "ToSecret" || strings.HasSuffix(m, "Ptr") || strings.HasPrefix(m, "To") && strings.HasSuffix(m, "Output") {
				if call.Recv != nil {
					return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
						k(st, strip(call.Recv))
						return true
					}
				}
				return pass
			}
			return sureModel(e)
		case strings.HasPrefix(bare, pulumiK8s):
			m := last(n)
			if !strings.HasPrefix(m, "New") || len(call.Args) < 3 {
				if call.Recv != nil && strings.HasPrefix(m, "To") {
					return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
						k(st, strip(call.Recv))
						return true
					}
				}
				return sureModel(e)
			}
			return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
				res := call.Sig.Results()
				t := e.Fresh("res", strings.TrimPrefix(m, "New"), res.At(0).Type())
				bad := st.Clone()
				err := e.AnyErr(m)
				st.Assume(eng.IsNil(t), false)
				st.Emit(&eng.Event{Kind: "call", Name: n, Callee: call.Fn, Args: call.Args, Res: []*eng.Term{t, eng.Nil}, Pos: call.Pos, In: call.In()})
				k(st, t, eng.Nil)
				bad.Emit(&eng.Event{Kind: "call", Name: n, Callee: call.Fn, Args: call.Args, Res: []*eng.Term{eng.Nil, err}, Pos: call.Pos, In: call.In(), Failed: true})
				k(bad, eng.Nil, err)
				return true
			}
		}
		return nil
	}}, e.Match...)
}

// deployments runs the deployment program.
func (c *Ctx) deployments(r *Report) []*deployRun {
	d, err := loadDeploy(filepath.Join(c.Repo, "deploy"))
	if err != nil {
		r.Ob(false, "anchor", "deploy", nil, "the deployment does not load: %v", err)
		return nil
	}
	var out []*deployRun
	for _, f := range d.Functions() {
		if f.Name() != "main" || f.Parent() != nil || f.Package().Pkg.Name() != "main" {
			continue
		}
		e := eng.New(d.Prog)
		e.InRepo = d.InRepo
		e.Models = eng.StdModels()
		e.Visits = 12
		var body []func(eng.K)
		deployModels(e, &body)
		old := r.C
		r.C = d
		e.Run(f, nil)
		if !r.Anchor(len(body) > 0, "the deployment's program") {
			r.C = old
			continue
		}
		// what is run once the parameters can be read
		r.Ob(len(body) == 1, "instances", "pulumi.Run", nil, "the deployment program runs %d programs", len(body))
		var outs []eng.Outcome
		body[0](func(st *eng.State, ret []*eng.Term, x eng.Exit, why string, pos token.Pos) {
			outs = append(outs, eng.Outcome{Ret: ret, St: st, Exit: x, Why: why, Pos: pos})
		})
		r.finish(e, "deployment", outs)
		r.C = old
		for i := range outs {
			o := &outs[i]
			p := &path{o: o, st: o.St, evs: o.St.Events(), cut: o.Exit != eng.Return}
			p.effects()
			if !p.cut && len(o.Ret) == 1 {
				v, known := o.St.Decide(eng.IsNil(o.Ret[0]))
				p.ok = known && v
			}
			x := &deployRun{c: d, e: e, p: p}
			for _, ev := range p.evs {
				if ev.Kind == "call" && !ev.Failed && strings.HasPrefix(ev.Name, pulumiK8s) && strings.HasPrefix(last(ev.Name), "New") && len(ev.Args) >= 3 {
					x.res = append(x.res, resource{strings.TrimPrefix(last(ev.Name), "New"), strip(ev.Args[2]), ev})
				}
			}
			out = append(out, x)
		}
	}
	return out
}

func (x *deployRun) of(kind string) []resource {
	var r []resource
	for _, s := range x.res {
		if s.kind == kind {
			r = append(r, s)
		}
	}
	return r
}

// at follows a path of fields; nil when a part of it is not given.
func (x *deployRun) at(t *eng.Term, chain ...string) *eng.Term {
	for _, f := range chain {
		if t == nil || t.Op == "nil" {
			return nil
		}
		t = follow(x.p.st, t, []string{f})
	}
	if t == nil || t.Op == "nil" {
		return nil
	}
	t = strip(t)
	// the address of a plain value
	if pt, ok := t.Typ.(*types.Pointer); ok && t.Op == "alloc" {
		if _, isB := pt.Elem().Underlying().(*types.Basic); isB {
			t = strip(x.p.st.Load(t, pt.Elem()))
		}
	}
	return t
}

// list reads the elements of a list; not every list is known.
func (x *deployRun) list(t *eng.Term) ([]*eng.Term, bool) {
	if t == nil {
		return nil, true
	}
	if l, ok := x.e.SliceElems(x.p.st, strip(t)); ok {
		return l, true
	}
	if t.Op == "append" {
		l, ok := x.list(t.Args[0])
		if !ok {
			return nil, false
		}
		for _, a := range t.Args[1:] {
			if _, isS := a.Typ.Underlying().(*types.Slice); isS {
				m, ok := x.list(a)
				if !ok {
					return nil, false
				}
				l = append(l, m...)
				continue
			}
			l = append(l, a)
		}
		return l, true
	}
	l := x.p.list(strip(t))
	return l, l != nil
}

// table reads a map of texts.
func (x *deployRun) table(t *eng.Term) (map[string]*eng.Term, bool) {
	r := map[string]*eng.Term{}
	if t == nil {
		return r, true
	}
	ks, vs, ok := x.p.st.MapLit(t)
	if !ok {
		return nil, false
	}
	for i, k := range ks {
		r[k] = textOf(vs[i])
	}
	return r, true
}

// text brings a text to one form.
func textOf(t *eng.Term) *eng.Term {
	if t == nil {
		return nil
	}
	t = strip(t)
	if t.Op == "copy" {
		t = strip(t.Args[0])
	}
	return eng.Concat(t)
}

func sameText(a, b *eng.Term) bool { return a != nil && b != nil && textOf(a) == textOf(b) }

func isText(t *eng.Term, s string) bool {
	if t == nil {
		return false
	}
	v, ok := textOf(t).StrVal()
	return ok && v == s
}

// sameNumber: the text says the number.
func sameNumber(txt, num *eng.Term) bool {
	if txt == nil || num == nil {
		return false
	}
	txt, num = textOf(txt), strip(num)
	if sameText(txt, num) {
		return true
	}
	if s, ok := txt.StrVal(); ok {
		n, isN := num.IntVal()
		v, err := strconv.ParseInt(s, 10, 64)
		return err == nil && isN && n == v
	}
	return txt.Op == "dec" && strip(txt.Args[0]) == num
}

func subst(t, from, to *eng.Term) *eng.Term {
	if t == from {
		return to
	}
	if t.Op == "concat" {
		var as []*eng.Term
		for _, a := range t.Args {
			as = append(as, subst(a, from, to))
		}
		return eng.Concat(as...)
	}
	if t.Op == "conv" || t.Op == "iface" || t.Op == "copy" {
		return subst(t.Args[0], from, to)
	}
	return t
}

// serverNeeds is what the server's source says about the cluster it runs in.
type serverNeeds struct {
	flags map[string]*flagDef
	def   map[string]*eng.Term // the flags' values when not given

	lookups  map[*eng.Term]bool            // names looked up, of the service name
	verbs    map[string]map[*eng.Term]bool // resource/verb -> namespaces
	portName map[*eng.Term]bool            // of the leader's endpoint
	labels   map[*eng.Term]bool            // the service the endpoint is for
}

func (c *Ctx) serverNeeds(r *Report) *serverNeeds {
	s := &serverNeeds{flags: map[string]*flagDef{}, def: map[string]*eng.Term{}, lookups: map[*eng.Term]bool{}, verbs: map[string]map[*eng.Term]bool{}, portName: map[*eng.Term]bool{}, labels: map[*eng.Term]bool{}}
	icc := c.Func("pkg/config", "InitCobraCommand")
	if !r.Anchor(icc != nil, "InitCobraCommand") {
		return nil
	}
	e := c.exec(r)
	e.Visits = 100
	c.commandModels(e)
	for _, p := range paths(icc, r.run(e, icc, nil)) {
		if p.cut {
			continue
		}
		for _, f := range p.flags() {
			s.flags[f.name] = f
		}
		for _, ev := range p.evs {
			if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "(*"+pflagPkg+".FlagSet).") || len(ev.Args) < 2 {
				continue
			}
			m := last(ev.Name)
			i := 0
			if strings.HasSuffix(strings.TrimSuffix(m, "P"), "Var") {
				i = 1
			}
			name, ok := strip(ev.Args[i]).StrVal()
			if strings.HasSuffix(m, "P") {
				i++
			}
			if ok && i+1 < len(ev.Args) {
				s.def[name] = strip(ev.Args[i+1])
			}
		}
	}
	if !r.Anchor(len(s.flags) > 0, "the server's flags") {
		return nil
	}
	field := c.callbackField(r)
	if field == "" {
		return nil
	}
	o := clusterStart
	o.stop = func(n string) bool { return n == raftPkg+".NewRaft" }
	e2, ps := c.server(r, o)
	if e2 == nil {
		return nil
	}
	svc := setting("cluster.service_name", types.Typ[types.String])
	nodeT := c.Named("pkg/raft", "Node")
	for _, p := range ps {
		if in, known := p.st.Decide(isEmptyStr(svc)); known && in {
			continue
		}
		var cb *eng.Term
		reached := false
		for _, x := range p.evs {
			if x.Kind == "call" && x.Name == raftPkg+".NewRaft" {
				reached = true
			}
			if x.Kind == "call" && x.Name == "net.LookupSRV" && len(x.Args) == 3 {
				s.lookups[textOf(x.Args[2])] = true
			}
		}
		p.st.Memory(func(a, v *eng.Term) {
			if a.Op == "fieldaddr" && a.Aux == field && a.Args[0].Typ != nil && nodeT != nil && types.Identical(eng.DerefType(a.Args[0].Typ), nodeT) {
				cb = v
			}
		})
		if !reached || cb == nil {
			continue
		}
		e2.RunFunc(cb, p.st.Clone(), []*eng.Term{eng.Bool(true)}, func(st *eng.State, ret []*eng.Term, x eng.Exit, why string, pos token.Pos) {
			q := &path{o: &eng.Outcome{Ret: ret, St: st, Exit: x, Why: why, Pos: pos}, st: st, evs: st.Events()}
			s.learn(e2, q)
		})
	}
	return s
}

// learn collects what is asked of the Kubernetes API.
func (s *serverNeeds) learn(e *eng.Exec, q *path) {
	for _, ev := range q.evs {
		if ev.Kind != "call" || !strings.Contains(ev.Name, "k8s.io/client-go/kubernetes/typed/") {
			continue
		}
		verb := strings.ToLower(last(ev.Name))
		switch verb {
		case "apply":
			verb = "patch"
		case "updatestatus":
			verb = "update"
		case "deletecollection", "delete", "create", "update", "patch", "get", "list", "watch":
		default:
			continue
		}
		// the interface is named after the resource, its package after the group
		iface := strings.TrimSuffix(strings.TrimSuffix(ev.Name, "."+last(ev.Name)), ")")
		resource := strings.ToLower(strings.TrimSuffix(iface[strings.LastIndex(iface, ".")+1:], "Interface"))
		if !strings.HasSuffix(resource, "s") {
			resource += "s"
		}
		key := resource + " " + verb
		if s.verbs[key] == nil {
			s.verbs[key] = map[*eng.Term]bool{}
		}
		var ns *eng.Term
		for _, g := range q.evs {
			if g.Kind == "call" && len(g.Res) > 0 && strip(g.Res[0]) == strip(ev.Recv) && len(g.Args) > 0 {
				ns = textOf(g.Args[0])
			}
		}
		if ns == nil {
			ns = textOf(ev.Recv)
			if u := strip(ev.Recv); u.Op == "call" && len(u.Args) > 0 {
				ns = textOf(u.Args[len(u.Args)-1])
			}
		}
		s.verbs[key][ns] = true
		if verb != "create" && verb != "update" || len(ev.Args) < 2 {
			continue
		}
		obj := strip(ev.Args[1])
		if l := follow(q.st, obj, []string{"Ports"}); l != nil {
			els, ok := e.SliceElems(q.st, l)
			if !ok {
				els = q.list(l)
			}
			for _, el := range els {
				nm := follow(q.st, el, []string{"Name"})
				if nm.Op == "alloc" || eng.Deref(nm) != nil {
					nm = q.st.Load(nm, eng.DerefType(nm.Typ))
				}
				s.portName[textOf(nm)] = true
			}
		}
		if m := follow(q.st, obj, []string{"ObjectMeta", "Labels"}); m != nil {
			if ks, vs, ok := q.st.MapLit(m); ok {
				for i, k := range ks {
					if k == "kubernetes.io/service-name" {
						s.labels[textOf(vs[i])] = true
					}
				}
			} else if v, ok := q.st.Mem(eng.MapElem(m, eng.Str("kubernetes.io/service-name"))); ok {
				s.labels[textOf(v)] = true
			}
		}
	}
}

func ruleF02(c *Ctx, r *Report) {
	s := c.serverNeeds(r)
	if s == nil {
		return
	}
	r.Ob(len(s.lookups) > 0, "instances", "lookups", nil, "the server looks up no name")
	r.Ob(len(s.verbs) > 0, "instances", "Kubernetes API", nil, "the server changes nothing in the cluster")
	r.Ob(len(s.portName) > 0 && len(s.labels) > 0, "instances", "endpoint", nil, "the server creates no endpoint")
	n := 0
	for _, x := range c.deployments(r) {
		if x.p.cut {
			r.Ob(false, "deploys", "deployment", x.p.o, "the deployment ends in %s", x.p.o.Why)
			continue
		}
		lost := false
		for _, e := range x.p.evs {
			lost = lost || e.Kind == "call" && e.Failed
		}
		if lost {
			continue
		}
		if !r.Ob(x.p.ok, "deploys", "deployment", x.p.o, "the deployment fails although nothing failed") {
			continue
		}
		n++
		x.check(r, s)
	}
	r.Ob(n > 0, "instances", "deployment", nil, "no way through the deployment succeeds")
}

func (x *deployRun) check(r *Report, s *serverNeeds) {
	old := r.C
	r.C = x.c
	defer func() { r.C = old }()
	o := x.p.o
	ss := x.of("StatefulSet")
	if !r.Ob(len(ss) == 1, "stable-nodes", "StatefulSet", o, "%d stateful sets are deployed: the nodes' names and volumes are not stable", len(ss)) {
		return
	}
	spec := x.at(ss[0].args, "Spec")
	pod := x.at(spec, "Template", "Spec")
	labels, okL := x.table(x.at(spec, "Template", "Metadata", "Labels"))
	if !r.Ob(pod != nil && okL && len(labels) > 0, "selected", "pod labels", o, "the pods have no known labels") {
		return
	}
	selects := func(sel map[string]*eng.Term) bool {
		for k, v := range sel {
			if !sameText(labels[k], v) {
				return false
			}
		}
		return len(sel) > 0
	}
	sel, ok := x.table(x.at(spec, "Selector", "MatchLabels"))
	r.Ob(ok && selects(sel), "selected", "StatefulSet selector", o, "the set's selector does not select its pods")
	ns := textOf(x.at(ss[0].args, "Metadata", "Namespace"))

	// the command
	cs, ok := x.list(x.at(pod, "Containers"))
	var server *eng.Term
	for _, k := range cs {
		if l, ok := x.list(x.at(strip(k), "Command")); ok && len(l) > 0 {
			server = strip(k)
		} else if l, ok := x.list(x.at(strip(k), "Args")); ok && len(l) > 0 {
			server = strip(k)
		}
	}
	if !r.Ob(ok && server != nil, "flags-are-defined", "container", o, "no container runs the server") {
		return
	}
	cmd, ok1 := x.list(x.at(server, "Command"))
	args, ok2 := x.list(x.at(server, "Args"))
	if !r.Ob(ok1 && ok2, "flags-are-defined", "container", o, "the server's command line is not known") {
		return
	}
	if len(cmd) > 0 {
		cmd = cmd[1:]
	}
	given := x.flagsGiven(r, s, append(append([]*eng.Term{}, cmd...), args...))
	value := func(name string) *eng.Term {
		if v, ok := given[name]; ok {
			return v
		}
		return s.def[name]
	}

	// the volume
	dir := value("storage.data_dir")
	ms, ok := x.list(x.at(server, "VolumeMounts"))
	var vol *eng.Term
	for _, m := range ms {
		m = strip(m)
		if belowMount(dir, x.at(m, "MountPath")) {
			if ro := x.at(m, "ReadOnly"); ro == nil || isFalse(ro) {
				vol = textOf(x.at(m, "Name"))
			}
		}
	}
	if r.Ob(ok && vol != nil, "data-on-volume", "mount", o, "no volume is mounted at the data directory %s", dir) {
		ts, ok := x.list(x.at(spec, "VolumeClaimTemplates"))
		found := false
		for _, t := range ts {
			found = found || sameText(x.at(strip(t), "Metadata", "Name"), vol)
		}
		r.Ob(ok && found, "data-on-volume", "claim", o, "the volume %s at the data directory is not claimed by the set", vol)
		vs, ok := x.list(x.at(pod, "Volumes"))
		for _, v := range vs {
			r.Ob(!sameText(x.at(strip(v), "Name"), vol), "data-on-volume", "volume", o, "the claim %s is hidden by a volume of the pod", vol)
		}
		r.Ob(ok, "data-on-volume", "volume", o, "the pod's volumes are not known")
	}

	// discovery
	svc := value("cluster.service_name")
	if !r.Ob(svc != nil && !isText(svc, ""), "in-a-cluster", "cluster.service_name", o, "the server is started without the name of its service") {
		return
	}
	port := value("http.port")
	own := setting("cluster.service_name", types.Typ[types.String])
	svs := x.of("Service")
	for look := range s.lookups {
		name := textOf(subst(look, own, svc))
		var head *resource
		for i, v := range svs {
			if nm := x.at(v.args, "Metadata", "Name"); nm != nil && startsWithName(name, nm) {
				head = &svs[i]
			}
		}
		if !r.Ob(head != nil, "discovered", "headless service", o, "no service is deployed under the name looked up, %s", name) {
			continue
		}
		nm := textOf(x.at(head.args, "Metadata", "Name"))
		hns := textOf(x.at(head.args, "Metadata", "Namespace"))
		r.Ob(hns != nil && name == eng.Concat(nm, eng.Str("."), hns, eng.Str(".svc.cluster.local")), "server-namespace", "discovery", o, "the server looks up %s, the service is %s in the namespace %s", name, nm, hns)
		r.Ob(hns == ns, "one-namespace", "headless service", o, "the headless service is in %s, the pods are in %s", hns, ns)
		r.Ob(isText(x.at(head.args, "Spec", "ClusterIP"), "None"), "discovered", "headless service address", o, "the service looked up has an address of its own: its records do not name the pods")
		pn := x.at(head.args, "Spec", "PublishNotReadyAddresses")
		yes := false
		if pn != nil {
			yes, _ = strip(pn).BoolVal()
		}
		r.Ob(yes, "discovered", "headless service not ready", o, "addresses of nodes that are not ready are not published: a node that starts is not found")
		sel, ok := x.table(x.at(head.args, "Spec", "Selector"))
		r.Ob(ok && selects(sel), "discovered", "headless service selector", o, "the service looked up does not select the pods")
		r.Ob(sameText(x.at(spec, "ServiceName"), nm), "discovered", "StatefulSet service", o, "the set's pods are named under the service %s, the service looked up is %s", x.at(spec, "ServiceName"), nm)
		ports, ok := x.list(x.at(head.args, "Spec", "Ports"))
		if r.Ob(ok && len(ports) == 1, "discovered", "headless service ports", o, "the service looked up has %d ports: a record per node and port is found", len(ports)) {
			x.portRule(r, strip(ports[0]), port, "headless service port")
		}
	}
	// the leader's endpoint
	for l := range s.labels {
		name := textOf(subst(l, own, svc))
		var lead *resource
		for i, v := range svs {
			if sameText(x.at(v.args, "Metadata", "Name"), name) {
				lead = &svs[i]
			}
		}
		if !r.Ob(lead != nil, "leader-service", "service", o, "no service is deployed under the name %s that the leader publishes itself for", name) {
			continue
		}
		r.Ob(textOf(x.at(lead.args, "Metadata", "Namespace")) == ns, "one-namespace", "leader's service", o, "the leader's service is in another namespace than the pods")
		sel, ok := x.table(x.at(lead.args, "Spec", "Selector"))
		r.Ob(ok && len(sel) == 0, "leader-service", "selector", o, "the leader's service selects pods itself: it sends requests to every node")
		ports, ok := x.list(x.at(lead.args, "Spec", "Ports"))
		if r.Ob(ok && len(ports) == 1, "leader-service", "ports", o, "the leader's service has %d ports", len(ports)) {
			pn := x.at(strip(ports[0]), "Name")
			r.Ob(pn != nil && s.portName[textOf(pn)] && len(s.portName) == 1, "leader-service", "port name", o, "the leader's service has the port %s, the endpoint another", pn)
			x.portRule(r, strip(ports[0]), port, "leader's service port")
		}
	}
	// the container's port and the scrapes
	cp, ok := x.list(x.at(server, "Ports"))
	found := false
	for _, p := range cp {
		found = found || sameNumber(port, x.at(strip(p), "ContainerPort"))
	}
	r.Ob(ok && found, "port-exposed", "container", o, "the container does not expose the port %s the server listens on", port)
	an, ok := x.table(x.at(spec, "Template", "Metadata", "Annotations"))
	if r.Ob(ok, "scraped", "annotations", o, "the pods' annotations are not known") && isText(an["prometheus.io/scrape"], "true") {
		r.Ob(sameNumber(an["prometheus.io/port"], port) || sameText(an["prometheus.io/port"], port), "scraped", "port", o, "metrics are scraped at the port %s, the server listens on %s", an["prometheus.io/port"], port)
		r.Ob(isText(value("prometheus.enabled"), "true"), "scraped", "prometheus.enabled", o, "metrics are scraped but not enabled")
	}
	x.permissions(r, s, pod, ns)
}

// portRule: the port is the one the server listens on.
func (x *deployRun) portRule(r *Report, p, port *eng.Term, cons string) {
	r.Ob(sameNumber(port, x.at(p, "Port")), "port-exposed", cons, x.p.o, "the service's port is %s, the server listens on %s", x.at(p, "Port"), port)
	if t := x.at(p, "TargetPort"); t != nil {
		r.Ob(sameNumber(port, t), "port-exposed", cons+" target", x.p.o, "the service's target port is %s, the server listens on %s", t, port)
	}
	if t := x.at(p, "Protocol"); t != nil {
		r.Ob(isText(t, "TCP"), "port-exposed", cons+" protocol", x.p.o, "the service's protocol is %s", t)
	}
}

func isFalse(t *eng.Term) bool {
	v, ok := strip(t).BoolVal()
	return ok && !v
}

// belowMount: a directory is a mount's or below it.
func belowMount(dir, mount *eng.Term) bool {
	if dir == nil || mount == nil {
		return false
	}
	if sameText(dir, mount) {
		d, isS := textOf(dir).StrVal()
		return !isS || strings.HasPrefix(d, "/")
	}
	d, ok1 := textOf(dir).StrVal()
	m, ok2 := textOf(mount).StrVal()
	return ok1 && ok2 && strings.HasPrefix(d, "/") && (filepath.Clean(d) == filepath.Clean(m) || strings.HasPrefix(filepath.Clean(d), strings.TrimSuffix(filepath.Clean(m), "/")+"/"))
}

// startsWithName: the first label of a domain name.
func startsWithName(domain, name *eng.Term) bool {
	as := []*eng.Term{textOf(domain)}
	if as[0].Op == "concat" {
		as = as[0].Args
	}
	bs := []*eng.Term{textOf(name)}
	if bs[0].Op == "concat" {
		bs = bs[0].Args
	}
	for i, b := range bs {
		if i >= len(as) {
			return false
		}
		if as[i] == b {
			if i+1 == len(bs) && i+1 < len(as) {
				s, ok := as[i+1].StrVal()
				return ok && strings.HasPrefix(s, ".")
			}
			continue
		}
		s, ok1 := as[i].StrVal()
		t, ok2 := b.StrVal()
		return ok1 && ok2 && i+1 == len(bs) && strings.HasPrefix(s, t+".")
	}
	return false
}

// flagsGiven reads a command line.
func (x *deployRun) flagsGiven(r *Report, s *serverNeeds, args []*eng.Term) map[string]*eng.Term {
	o := x.p.o
	given := map[string]*eng.Term{}
	for i := 0; i < len(args); i++ {
		a := textOf(args[i])
		first := a
		var rest []*eng.Term
		if a.Op == "concat" {
			first, rest = a.Args[0], a.Args[1:]
		}
		w, ok := first.StrVal()
		if !ok || !strings.HasPrefix(w, "-") {
			r.Ob(false, "flags-are-defined", "argument", o, "the argument %s belongs to no flag", a)
			continue
		}
		name := strings.TrimLeft(w, "-")
		var val *eng.Term
		if j := strings.Index(name, "="); j >= 0 {
			val = eng.Concat(append([]*eng.Term{eng.Str(name[j+1:])}, rest...)...)
			name = name[:j]
		} else if !r.Ob(len(rest) == 0, "flags-are-defined", "argument", o, "the flag %s is not known", a) {
			continue
		}
		f := s.flags[name]
		if !r.Ob(f != nil, "flags-are-defined", name, o, "the server defines no flag --%s", name) {
			// its value goes with it
			if val == nil && i+1 < len(args) {
				i++
			}
			continue
		}
		r.Ob(strings.HasPrefix(w, "--"), "flags-are-defined", name+" dashes", o, "a flag is given as %s", w)
		if val == nil {
			if f.kind == "Bool" {
				val = eng.Str("true")
				if i+1 < len(args) {
					if t, ok := textOf(args[i+1]).StrVal(); ok && (t == "true" || t == "false") {
						i++
						r.Ob(t == "true", "flags-are-defined", name+" value", o, "the value %s after the flag --%s, which takes none, is ignored", t, name)
					}
				}
			} else if r.Ob(i+1 < len(args), "flags-are-defined", name+" value", o, "the flag --%s is given no value", name) {
				i++
				val = textOf(args[i])
			} else {
				continue
			}
		}
		fits := true
		t, isS := val.StrVal()
		switch {
		case flagKinds[f.kind] == types.IsInteger:
			_, err := strconv.ParseInt(t, 0, 64)
			fits = val.Op == "dec" || isS && err == nil
		case flagKinds[f.kind] == types.IsBoolean:
			_, err := strconv.ParseBool(t)
			fits = isS && err == nil
		case flagKinds[f.kind] == types.IsFloat:
			_, err := strconv.ParseFloat(t, 64)
			fits = val.Op == "dec" || isS && err == nil
		}
		r.Ob(fits, "flags-are-defined", name+" value", o, "the flag --%s is a %s and is given %s", name, f.kind, val)
		given[name] = val
	}
	return given
}

// permissions: the pods may do what the server does.
func (x *deployRun) permissions(r *Report, s *serverNeeds, pod, ns *eng.Term) {
	o := x.p.o
	acc := textOf(x.at(pod, "ServiceAccountName"))
	if acc == nil {
		acc = textOf(x.at(pod, "ServiceAccount"))
	}
	if !r.Ob(acc != nil, "permitted", "account", o, "the pods run under no account of their own") {
		return
	}
	made := false
	for _, a := range x.of("ServiceAccount") {
		made = made || sameText(x.at(a.args, "Metadata", "Name"), acc) && textOf(x.at(a.args, "Metadata", "Namespace")) == ns
	}
	r.Ob(made, "permitted", "account", o, "the account %s of the pods is not created", acc)
	type grant struct{ rule, ns *eng.Term }
	var grants []grant
	for _, kind := range []string{"RoleBinding", "ClusterRoleBinding"} {
		for _, b := range x.of(kind) {
			subs, ok := x.list(x.at(b.args, "Subjects"))
			mine := false
			for _, u := range subs {
				u = strip(u)
				mine = mine || isText(x.at(u, "Kind"), "ServiceAccount") && sameText(x.at(u, "Name"), acc) && textOf(x.at(u, "Namespace")) == ns
			}
			if !ok || !mine || !isText(x.at(b.args, "RoleRef", "ApiGroup"), "rbac.authorization.k8s.io") {
				continue
			}
			for _, rk := range []string{"Role", "ClusterRole"} {
				for _, ro := range x.of(rk) {
					if !isText(x.at(b.args, "RoleRef", "Kind"), rk) || !sameText(x.at(b.args, "RoleRef", "Name"), x.at(ro.args, "Metadata", "Name")) {
						continue
					}
					in := textOf(x.at(b.args, "Metadata", "Namespace"))
					if kind == "ClusterRoleBinding" {
						in = nil // everywhere
					} else if rk == "Role" && textOf(x.at(ro.args, "Metadata", "Namespace")) != in {
						continue
					}
					rules, _ := x.list(x.at(ro.args, "Rules"))
					for _, u := range rules {
						grants = append(grants, grant{strip(u), in})
					}
				}
			}
		}
	}
	has := func(t *eng.Term, want string) bool {
		l, ok := x.list(t)
		for _, v := range l {
			if isText(v, want) || isText(v, "*") {
				return ok
			}
		}
		return false
	}
	for key, nss := range s.verbs {
		res, verb, _ := strings.Cut(key, " ")
		group := map[string]string{"endpointslices": "discovery.k8s.io", "leases": "coordination.k8s.io", "deployments": "apps", "statefulsets": "apps"}[res]
		var got []grant
		for _, g := range grants {
			if has(x.at(g.rule, "ApiGroups"), group) && has(x.at(g.rule, "Resources"), res) && has(x.at(g.rule, "Verbs"), verb) && x.at(g.rule, "ResourceNames") == nil {
				got = append(got, g)
			}
		}
		if !r.Ob(len(got) > 0, "permitted", key, o, "the server does %s of %s, which its account is not permitted", verb, res) {
			continue
		}
		for n := range nss {
			ok := false
			for _, g := range got {
				ok = ok || g.ns == nil || g.ns == n
			}
			r.Ob(ok, "server-namespace", "permissions", o, "the server does %s of %s in %s, which its account is permitted in %s", verb, res, n, got[0].ns)
		}
	}
}
