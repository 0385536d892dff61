package rules

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("A05", "Aliasing analysis from the HTTP handlers' path, query and header strings down through the node's operations into the queue manager: copies (concatenation, encoding, Clone) end the alias; a store into shared memory, a map, a channel, another goroutine or a library that keeps it is a violation.", 40, ruleA05)
}

// aliases decides whether a value shares memory with a tainted string.
type aliases struct {
	p     *path
	taint func(t *eng.Term) bool
	seen  map[*eng.Term]bool
}

// substrings: library functions whose result shares the memory of an argument.
func substring(name string) bool {
	switch name {
	case "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimSpace", "strings.Trim", "strings.TrimRight", "strings.TrimLeft",
		"strings.TrimFunc", "strings.Split", "strings.SplitN", "strings.Fields", "strings.Cut", "strings.ToLower", "strings.ToUpper",
		"strings.Replace", "strings.ReplaceAll", "strings.Map", "strings.ToValidUTF8", "path.Clean", "path.Base", "path/filepath.Join":
		return true
	}
	return false
}

func (a *aliases) of(t *eng.Term) bool {
	if t == nil || a.seen[t] {
		return false
	}
	a.seen[t] = true
	if a.taint(t) {
		return true
	}
	switch t.Op {
	case "concat":
		// an empty string added to another gives the other itself
		for _, x := range t.Args {
			if s, ok := x.StrVal(); ok && s != "" {
				return false
			}
		}
	case "copy", "jsonbytes", "json", "be64", "bytes", "bin", "exists", "errval", "anyerr", "nonnil":
		return false
	case "call":
		if !substring(t.Aux) {
			return false
		}
	case "field", "index", "deref", "mapget":
		return false
	}
	for _, x := range t.Args {
		if a.of(x) {
			return true
		}
	}
	if eng.Deref(t) != nil || t.Op == "alloc" || t.Op == "makemap" || t.Op == "makeslice" {
		hit := false
		a.p.st.Memory(func(at, v *eng.Term) {
			if hit || eng.Root(at) != t && !(at.Op == "content" && at.Args[0] == t) {
				return
			}
			hit = a.of(v)
		})
		return hit
	}
	return false
}

// keeps: a library call that keeps what it is given.
func keeps(n string) bool {
	for _, p := range []string{"github.com/prometheus/", "(*github.com/prometheus/", "(github.com/prometheus/", "(*sync.Map).", "(*sync.Pool).Put", "time.AfterFunc", "(*container/list.", "(*sync/atomic.", "(*expvar."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

type aliasTask struct {
	fn   *ssa.Function
	par  []int
	from string
}

// sinks reports where a path keeps a tainted value, and returns the calls that
// pass one on.
func (c *Ctx) aliasSinks(r *Report, name string, p *path, taint func(t *eng.Term) bool) (on []*eng.Event) {
	is := func(t *eng.Term) bool {
		return (&aliases{p: p, taint: taint, seen: map[*eng.Term]bool{}}).of(t)
	}
	for _, e := range p.evs {
		var vs []*eng.Term
		what := ""
		switch e.Kind {
		case "mapset":
			if e.Owned {
				continue
			}
			what, vs = "a map", e.Args
		case "wr":
			if e.Owned {
				continue
			}
			what, vs = "shared memory", e.Args
		case "send":
			what, vs = "a channel", e.Args
		case "go":
			what, vs = "another goroutine", e.Args
		case "call":
			if keeps(e.Name) {
				what, vs = "what "+e.Name+" keeps", e.Args
				break
			}
			for _, a := range e.Args {
				if is(a) {
					on = append(on, e)
					break
				}
			}
			continue
		default:
			continue
		}
		bad := false
		for _, v := range vs {
			bad = bad || is(v)
		}
		r.Ob(!bad, "not-kept", name, p.o, "a string of the request is kept in %s without being copied (%s): the next request overwrites it", what, c.Pos(e.Pos))
	}
	return on
}

func ruleA05(c *Ctx, r *Report) {
	a := c.httpAPI(r)
	if a == nil {
		return
	}
	node := c.Named("pkg/raft", "Node")
	if !r.Anchor(node != nil, "raft.Node") {
		return
	}
	copyModel := func(e *eng.Exec) {
		e.Copies = true
		e.Models["strings.Clone"] = func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
			k(st, eng.Mk("copy", "", call.Sig.Results().At(0).Type(), call.Args[0]))
			return true
		}
	}
	copyModel(a.e)
	var todo []aliasTask
	seen := map[string]bool{}
	add := func(fn *ssa.Function, par int, from string) {
		if fn == nil || len(fn.Blocks) == 0 || par >= len(fn.Params) {
			return
		}
		k := fn.String() + "#" + itoa(par)
		if seen[k] {
			return
		}
		seen[k] = true
		for i := range todo {
			if todo[i].fn == fn {
				todo[i].par = append(todo[i].par, par)
				return
			}
		}
		todo = append(todo, aliasTask{fn: fn, par: []int{par}, from: from})
	}
	pass := func(p *path, e *eng.Event, taint func(t *eng.Term) bool, from string) {
		fn := e.Callee
		off := 0
		if fn == nil {
			// an operation of the node through the API's interface
			n := c.nodeMethod(e)
			if n == "" {
				return
			}
			fn = c.Method("pkg/raft", "Node", n)
			off = 1
		} else if !c.InRepo(fn) {
			return
		} else if fn.Signature.Recv() != nil && len(e.Args) < len(fn.Params) {
			off = 1
		}
		for i, v := range e.Args {
			if (&aliases{p: p, taint: taint, seen: map[*eng.Term]bool{}}).of(v) {
				add(fn, i+off, from)
			}
		}
	}
	handlers := 0
	for _, x := range a.handlers() {
		tags := aliasFields(x.inT)
		if len(tags) == 0 {
			continue
		}
		handlers++
		for _, p := range x.ps {
			taint := func(t *eng.Term) bool {
				return t.Op == "field" && tags[t.Aux] && (t.Args[0] == p.in || t.Args[0].Op == "deref" && t.Args[0].Args[0] == p.in)
			}
			for _, e := range c.aliasSinks(r, x.name, p.path, taint) {
				pass(p.path, e, taint, x.name)
			}
		}
	}
	r.Ob(handlers >= 6, "handlers-known", "HTTP", nil, "only %d handlers with strings from the server's buffers were found", handlers)
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	nodes, queues := 0, 0
	for len(todo) > 0 {
		t := todo[0]
		todo = todo[1:]
		e := c.exec(r)
		copyModel(e)
		if _, _, q := isQueueMethod(t.fn); q {
			queues++
			e.Visits = 1
			m.install(e)
		} else {
			nodes++
			e.Opaque = func(name string, fn *ssa.Function) bool {
				_, _, ok := isQueueMethod(fn)
				return ok
			}
		}
		par := map[*eng.Term]bool{}
		st := eng.NewState()
		var args []*eng.Term
		for i, p := range t.fn.Params {
			v := eng.Sym(p.Name(), p.Type())
			if i == 0 && eng.Deref(v) != nil {
				st.Assume(eng.IsNil(v), false)
			}
			args = append(args, v)
			for _, j := range t.par {
				if i == j {
					par[v] = true
				}
			}
		}
		taint := func(v *eng.Term) bool { return par[v] }
		for _, p := range paths(t.fn, r.run(e, t.fn, st, args...)) {
			for _, ev := range c.aliasSinks(r, funcName(t.fn), p, taint) {
				pass(p, ev, taint, t.from)
			}
		}
	}
	r.Ob(nodes >= 5, "operations-known", "Node", nil, "only %d operations of the node get strings of a request", nodes)
	r.Ob(queues >= 1, "operations-known", "QueueManager", nil, "no operation of the queue manager gets a string of a request")
}

// aliasFields: fields of an input that the HTTP server fills with parts of its
// own buffers.
func aliasFields(t types.Type) map[string]bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	out := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i))
		for _, k := range []string{"path", "query", "header", "cookie"} {
			if tag.Get(k) != "" && f.Type().Underlying() == types.Typ[types.String] {
				out[f.Name()] = true
			}
		}
		if f.Name() == "RawBody" {
			out[f.Name()] = true
		}
		if f.Embedded() {
			for k := range aliasFields(f.Type()) {
				out[k] = true
			}
		}
	}
	var ks []string
	for k := range out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return out
}
