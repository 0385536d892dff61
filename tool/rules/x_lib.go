package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// started is a task with the object it is about.
type started struct {
	thread string
	path   apath
	shared bool
}

func calleeOf(call *ssa.CallCommon) (pkg, name string) {
	if call.IsInvoke() {
		p := call.Method.Pkg()
		if p != nil {
			pkg = p.Path()
		}
		return pkg, "(" + types.TypeString(call.Value.Type(), nil) + ")." + call.Method.Name()
	}
	f := call.StaticCallee()
	if f == nil {
		return "", ""
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	return pkg, f.String()
}

// handsOver: the library call keeps functions or values whose methods it calls
// later from its own tasks; what starts them.
func handsOver(pkg, name string) (bool, string) {
	switch {
	case strings.HasPrefix(pkg, "github.com/gofiber/fiber"), strings.HasPrefix(pkg, "github.com/danielgtaylor/huma"), strings.HasPrefix(pkg, "github.com/ansrivas/fiberprometheus"):
		return true, "http"
	case pkg == Mod+"/pkg/proto" && strings.Contains(name, "Register"), strings.HasPrefix(pkg, "google.golang.org/grpc"):
		return true, "grpc"
	case strings.HasPrefix(pkg, "github.com/hashicorp/raft"), name == "time.AfterFunc", name == "context.AfterFunc", pkg == "net/http":
		return true, ""
	case name == "(*golang.org/x/sync/errgroup.Group).Go", name == "(*sync.WaitGroup).Go":
		return true, ""
	}
	return false, ""
}

// startsOf: the library call runs the tasks that were handed over before.
func startsOf(pkg, name string) string {
	m := name[strings.LastIndex(name, ".")+1:]
	switch {
	case strings.Contains(name, "github.com/gofiber/fiber") && strings.HasPrefix(m, "Listen"):
		return "http"
	case strings.HasPrefix(name, "(*google.golang.org/grpc.Server).Serve"):
		return "grpc"
	}
	return ""
}

// waits: the library call can take as long as another party wants.
func waits(call *ssa.CallCommon, pkg, name string) string {
	m := name[strings.LastIndex(name, ".")+1:]
	switch name {
	case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "(*net/http.Client).Head",
		"net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head", "net.Dial", "net.LookupSRV", "net.LookupHost", "net.LookupIP", "net.LookupAddr", "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Wait", "(*os/exec.Cmd).Output", "google.golang.org/grpc.DialContext",
		"(*golang.org/x/sync/errgroup.Group).Wait":
		return "a call of " + name
	}
	if name == "google.golang.org/grpc.Dial" || name == "google.golang.org/grpc.NewClient" {
		for _, a := range call.Args {
			for _, v := range elems(a) {
				if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().String() == "google.golang.org/grpc.WithBlock" {
					return "a connection that waits for the other side"
				}
			}
		}
	}
	if call.IsInvoke() {
		t := types.TypeString(call.Value.Type(), nil)
		switch {
		case strings.HasPrefix(t, "github.com/hashicorp/raft.") && strings.HasSuffix(t, "Future") && m == "Error":
			return "waiting for raft"
		case t == Mod+"/pkg/proto.DOQClient", strings.HasPrefix(t, Mod+"/pkg/proto.") && (m == "Recv" || m == "Send" || m == "CloseAndRecv"):
			return "a call of " + name
		case strings.HasPrefix(t, "k8s.io/client-go/"):
			switch m {
			case "Create", "Update", "Delete", "Get", "List", "Patch", "Watch", "Apply":
				return "a call of " + name
			}
		case strings.HasPrefix(t, "google.golang.org/grpc.") && (m == "RecvMsg" || m == "SendMsg" || m == "Invoke"):
			return "a call of " + name
		case t == "net.Listener" && m == "Accept":
			return "a call of " + name
		}
	}
	return ""
}

// elems: an argument, or the arguments in a variadic list.
func elems(v ssa.Value) []ssa.Value {
	if s, ok := v.(*ssa.Slice); ok {
		if a, ok := s.X.(*ssa.Alloc); ok {
			var r []ssa.Value
			for _, ref := range *a.Referrers() {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
						r = append(r, st.Val)
					}
				}
			}
			return r
		}
	}
	return []ssa.Value{v}
}

// library: a call of a function outside the repository.
func (w *walker) library(call *ssa.CallCommon, pos token.Pos) {
	x, st := w.x, w.st
	pkg, name := calleeOf(call)
	if name == "" {
		return
	}
	if pkg == "sync/atomic" && !call.IsInvoke() && call.StaticCallee().Signature.Recv() == nil && len(call.Args) > 0 {
		m := name[strings.LastIndex(name, ".")+1:]
		w.use(call.Args[0], !strings.HasPrefix(m, "Load"), true, pos, "")
		return
	}
	if what := waits(call, pkg, name); what != "" {
		w.block1(what, pos)
	}
	if s := startsOf(pkg, name); s != "" {
		st.spawn = st.spawn.add(strset{"start:" + s: true})
		return
	}
	async, from := handsOver(pkg, name)
	args := call.Args
	var sig *types.Signature
	if call.IsInvoke() {
		sig, _ = call.Method.Type().(*types.Signature)
	} else {
		sig = call.Signature()
	}
	off := 0
	if sig != nil && !call.IsInvoke() && len(args) == sig.Params().Len()+1 {
		off = 1
	}
	for i, arg := range args {
		for _, v := range elems(arg) {
			if _, isFn := strip2(v).Type().Underlying().(*types.Signature); isFn {
				w.passed(v, async, from, name, pos)
				continue
			}
			mi, ok := strip2(v).(*ssa.MakeInterface)
			var it types.Type
			if ok {
				it = mi.Type()
			} else if _, isI := v.Type().Underlying().(*types.Interface); isI {
				it = v.Type()
			} else {
				continue
			}
			ifc, _ := it.Underlying().(*types.Interface)
			if ifc == nil || i < off {
				continue
			}
			for j := 0; j < ifc.NumMethods(); j++ {
				m := ifc.Method(j).Name()
				var fs []*ssa.Function
				if ok {
					if sel := x.c.Prog.MethodSets.MethodSet(mi.X.Type()).Lookup(ifc.Method(j).Pkg(), m); sel != nil {
						if f := x.c.Prog.MethodValue(sel); f != nil && x.own(f) {
							fs = []*ssa.Function{f}
						}
					}
				} else {
					fs = x.methods(it, m)
				}
				for _, f := range fs {
					if async {
						group := ""
						if strings.Contains(types.TypeString(it, nil), "hashicorp/raft.FSM") {
							group = "the state machine"
						}
						x.thread(f, group, from, nil, pos)
						st.publish(w.resolved(x.roots(v)))
						w.starts(f, group, from, nil)
						continue
					}
					t := target{fn: f, args: make([]ssa.Value, len(f.Params)), sync: true}
					t.args[0] = v
					if name == "container/heap.Push" && m == "Push" && len(args) > 1 && len(t.args) > 1 {
						t.args[1] = args[1]
					}
					w.apply(t, lockSet{}, strset{}, strset{}, pos)
				}
			}
		}
	}
}

func strip2(v ssa.Value) ssa.Value {
	for {
		switch c := v.(type) {
		case *ssa.ChangeType:
			v = c.X
		case *ssa.MakeInterface:
			if _, ok := c.X.Type().Underlying().(*types.Signature); ok {
				v = c.X
				continue
			}
			return v
		default:
			return v
		}
	}
}

// passed: a function given to a library.
func (w *walker) passed(v ssa.Value, async bool, from, name string, pos token.Pos) {
	x, st := w.x, w.st
	fs := x.funcs(strip2(v))
	for _, g := range fs {
		t := target{}
		switch g := g.(type) {
		case *ssa.Function:
			t.fn = g
		case *ssa.MakeClosure:
			t.fn = g.Fn.(*ssa.Function)
			if g.Parent() == w.fn {
				t.clos = g
			}
		}
		if !x.own(t.fn) {
			continue
		}
		if async {
			x.thread(t.fn, "", from, t.clos, pos)
			if t.clos != nil {
				st.publish(w.resolved(x.roots(t.clos)))
			}
			w.starts(t.fn, "", from, t.clos)
			continue
		}
		w.apply(t, lockSet{}, strset{}, strset{}, pos)
	}
	if len(fs) == 0 && !async {
		for _, p := range x.paths(strip2(v)) {
			if (p.root[0] == 'P' || p.root[0] == 'F') && (p.comps == "" || p.comps == "/*") {
				w.addCall(fcall{root: p.root, held: st.must.clone(), minus: st.rel, spawned: st.spawn, pos: pos})
			}
		}
	}
}

func threadName(f *ssa.Function, group string) string {
	if group != "" {
		return group
	}
	return f.String()
}

// thread notes a function that runs on its own.
func (x *conc) thread(f *ssa.Function, group, from string, clos *ssa.MakeClosure, pos token.Pos) *thread {
	k := threadName(f, group) + "|" + f.String()
	t, ok := x.threads[k]
	if !ok {
		t = &thread{name: threadName(f, group), fn: f, from: from, many: group == "", pos: pos}
		x.threads[k] = t
		x.order = append(x.order, t)
	}
	if clos != nil {
		t.clos = clos
	}
	return t
}

func (w *walker) starts(f *ssa.Function, group, from string, clos *ssa.MakeClosure) {
	if from == "" {
		w.st.spawn = w.st.spawn.add(strset{threadName(f, group): true})
	}
}

// spawn: a go statement.
func (w *walker) spawn(in *ssa.Go) {
	x, st := w.x, w.st
	ts := x.targets(&in.Call)
	for _, t := range ts {
		th := x.thread(t.fn, "go "+funcName(t.fn)+" ("+x.c.Pos(in.Pos())+")", "", t.clos, in.Pos())
		th.all = true
		roots := strset{}
		for _, a := range t.args {
			roots = roots.add(x.roots(a))
		}
		if t.clos != nil {
			roots = roots.add(x.roots(t.clos))
		}
		if w.emit {
			for r := range roots {
				p := st.resolve(apath{root: r})
				w.addStart(started{th.name, p, st.pub[p.root]})
			}
		}
		st.publish(w.resolved(roots))
		st.spawn = st.spawn.add(strset{th.name: true})
	}
	if len(ts) == 0 {
		if in.Call.StaticCallee() != nil || in.Call.IsInvoke() {
			w.library(&in.Call, in.Pos())
			return
		}
		for _, p := range x.paths(in.Call.Value) {
			if (p.root[0] == 'P' || p.root[0] == 'F') && (p.comps == "" || p.comps == "/*") {
				w.addCall(fcall{root: p.root, held: lockSet{}, minus: st.rel, spawned: st.spawn, pos: in.Pos(), own: true})
			}
		}
	}
}

func (w *walker) addStart(s started) {
	if s.path.fresh() && !s.shared {
		return
	}
	w.s.starts[fmt.Sprint(s.thread, s.path, s.shared)] = s
}

// stored: a function put into a structure of a library runs when the library
// wants.
func (w *walker) storedFn(in *ssa.Store) {
	fa, ok := in.Addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	if _, ok := in.Val.Type().Underlying().(*types.Signature); !ok {
		return
	}
	n, ok := eng.DerefType(fa.X.Type()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return
	}
	pkg := n.Obj().Pkg().Path()
	if strings.HasPrefix(pkg, Mod) {
		return
	}
	if pkg == "github.com/spf13/cobra" {
		for _, g := range w.x.calledValue(in.Val) {
			f, _ := g.(*ssa.Function)
			if mc, ok := g.(*ssa.MakeClosure); ok {
				f = mc.Fn.(*ssa.Function)
			}
			if w.x.own(f) {
				w.x.thread(f, "main", "", nil, in.Pos())
			}
		}
		return
	}
	async, from := handsOver(pkg, n.Obj().Name())
	if pkg == "sync" { // sync.Pool's New runs in the caller of Get
		return
	}
	w.passed(in.Val, async, from, n.Obj().Name(), in.Pos())
}
