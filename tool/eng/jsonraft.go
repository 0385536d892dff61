package eng

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- JSON ----------------------------------------------------------------
//
// A marshalled value is a term: jobj(name=value, ...) for structs, the value's
// own term for scalars. Decoding such a term into a type follows the field
// names; decoding unknown bytes gives decoded(T, bytes).

type jfield struct {
	name   string
	path   []*types.Var
	typ    types.Type
	tagged bool
	opts   string
}

// Name of the field in JSON, and the Go fields that lead to it.
func (f jfield) Name() string       { return f.name }
func (f jfield) Path() []*types.Var { return f.path }

// Is reports whether the field is reached by the given Go field names.
func (f jfield) Is(names []string) bool {
	if len(names) != len(f.path) {
		return false
	}
	for i, n := range names {
		if f.path[i].Name() != n {
			return false
		}
	}
	return true
}

// JSONFields lists the JSON names of a struct type with encoding/json's
// embedding rules.
func JSONFields(t types.Type) []jfield {
	var all []jfield
	depth := map[string]int{}
	var walk func(st *types.Struct, path []*types.Var, d int)
	walk = func(st *types.Struct, path []*types.Var, d int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			p := append(append([]*types.Var(nil), path...), f)
			if f.Embedded() && name == "" {
				ft := f.Type()
				if pt, ok := ft.Underlying().(*types.Pointer); ok {
					ft = pt.Elem()
				}
				if s := structOf(ft); s != nil {
					walk(s, p, d+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			jf := jfield{name: name, path: p, typ: f.Type(), tagged: name != "", opts: opts}
			if name == "" {
				jf.name = f.Name()
			}
			all = append(all, jf)
			if old, ok := depth[jf.name]; !ok || d < old {
				depth[jf.name] = d
			}
		}
	}
	if s := structOf(t); s != nil {
		walk(s, nil, 1)
	}
	var r []jfield
	for _, f := range all {
		if len(f.path) != depth[f.name] {
			continue
		}
		same, tagged := 0, 0
		for _, g := range all {
			if g.name == f.name && len(g.path) == len(f.path) {
				same++
				if g.tagged {
					tagged++
				}
			}
		}
		if same > 1 && !(f.tagged && tagged == 1) {
			continue
		}
		r = append(r, f)
	}
	return r
}

func hasMethod(prog *ssa.Program, t types.Type, name string) *ssa.Function {
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// jsonEncode calls k with the JSON term of a value, running MarshalJSON
// methods that belong to the repository.
func (e *Exec) jsonEncode(c *Call, st *State, v *Term, typ types.Type, k func(*State, *Term)) {
	v2 := v
	for v2.Op == "iface" {
		typ = v2.Typ
		v2 = v2.Args[0]
	}
	if typ == nil {
		typ = v2.Typ
	}
	if typ == nil {
		k(st, mk("json", "", nil, v2))
		return
	}
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		if fn := hasMethod(e.Prog, typ, "MarshalJSON"); fn != nil && e.InRepo(fn) {
			e.runMarshal(c, st, fn, v2, k)
			return
		}
		if st.KnownNil(v2) {
			k(st, mk("jnull", "", nil))
			return
		}
		e.jsonEncode(c, st, st.Load(v2, p.Elem()), p.Elem(), k)
		return
	}
	if fn := hasMethod(e.Prog, typ, "MarshalJSON"); fn != nil && e.InRepo(fn) {
		e.runMarshal(c, st, fn, v2, k)
		return
	}
	if isRawJSON(typ) {
		k(st, mk("unraw", "", nil, e.Bytes(st, v2)))
		return
	}
	if mt, ok := typ.Underlying().(*types.Map); ok {
		keys, els, ok := st.MapLit(v2)
		if ok {
			vals := make([]*Term, len(keys))
			var each func(st *State, i int)
			each = func(st *State, i int) {
				if i == len(keys) {
					k(st, mk("jobj", strings.Join(keys, ","), nil, append([]*Term(nil), vals...)...))
					return
				}
				e.jsonEncode(c, st, els[i], mt.Elem(), func(st *State, j *Term) {
					vals[i] = j
					each(st, i+1)
				})
			}
			each(st, 0)
			return
		}
	}
	fs := JSONFields(typ)
	if structOf(typ) == nil {
		k(st, mk("json", "", nil, v2))
		return
	}
	names := make([]string, len(fs))
	vals := make([]*Term, len(fs))
	var step func(st *State, i int)
	step = func(st *State, i int) {
		if i == len(fs) {
			k(st, mk("jobj", strings.Join(names, ","), nil, append([]*Term(nil), vals...)...))
			return
		}
		f := fs[i]
		x := v2
		for _, p := range f.path {
			x = Field(x, p.Name(), p.Type())
		}
		e.jsonEncode(c, st, x, f.typ, func(st *State, j *Term) {
			names[i] = f.name
			if strings.Contains(f.opts, "string") {
				j = mk("jstring", "", nil, j)
			}
			vals[i] = j
			step(st, i+1)
		})
	}
	step(st, 0)
}

func (e *Exec) runMarshal(c *Call, st *State, fn *ssa.Function, recv *Term, k func(*State, *Term)) {
	e.call(fn, []*Term{recv}, nil, st, c.Fr, func(st *State, ret []*Term, x Exit, why string, pos tpos) {
		if x != Return {
			c.K(st, nil, x, why, pos)
			return
		}
		if st.KnownNonNil(ret[1]) {
			c.K(st, []*Term{Nil, ret[1]}, Return, "", pos)
			return
		}
		b := e.Bytes(st, ret[0])
		if b.Op == "jsonbytes" {
			k(st, b.Args[0])
			return
		}
		k(st, mk("unraw", "", nil, b))
	})
}

// JSONDecode gives the value of type typ decoded from a JSON term; ok is false
// when it cannot decode.
func (e *Exec) JSONDecode(j *Term, typ types.Type) (v *Term, ok bool) {
	if isRawJSON(typ) {
		return mk("bytes", "", typ, mk("jsonbytes", "", nil, j)), true
	}
	if p, isP := typ.Underlying().(*types.Pointer); isP {
		in, ok := e.JSONDecode(j, p.Elem())
		return mk("ptrto", "", typ, in), ok
	}
	if structOf(typ) == nil {
		if j.Op == "json" {
			x := j.Args[0]
			if x.Typ != nil && !jsonCompatible(x.Typ, typ) {
				return nil, false
			}
			return x, true
		}
		if j.Op == "jobj" {
			if _, isI := typ.Underlying().(*types.Interface); isI {
				return mk("decodedany", "", typ, j), true
			}
			return nil, false
		}
		return mk("decoded", "", typ, j), true
	}
	if j.Op == "json" && j.Args[0].Typ != nil && structOf(j.Args[0].Typ) == nil {
		return nil, false
	}
	if j.Op != "jobj" {
		return mk("decoded", "", typ, j), true
	}
	var names []string
	if j.Aux != "" {
		names = strings.Split(j.Aux, ",")
	}
	fs := JSONFields(typ)
	st := structOf(typ)
	var build func(st *types.Struct, prefix []*types.Var, t types.Type) (*Term, bool)
	build = func(st *types.Struct, prefix []*types.Var, t types.Type) (*Term, bool) {
		args := make([]*Term, st.NumFields())
		for i := range args {
			f := st.Field(i)
			path := append(append([]*types.Var(nil), prefix...), f)
			args[i] = Zero(f.Type())
			for _, jf := range fs {
				if samePath(jf.path, path) {
					for n, nm := range names {
						if nm == jf.name || (!contains(names, jf.name) && strings.EqualFold(nm, jf.name)) {
							src := j.Args[n]
							if strings.Contains(jf.opts, "string") != (src.Op == "jstring") {
								return nil, false
							}
							if src.Op == "jstring" {
								src = src.Args[0]
							}
							v, ok := e.JSONDecode(src, jf.typ)
							if !ok {
								return nil, false
							}
							args[i] = v
						}
					}
				}
			}
			if f.Embedded() {
				if s := structOf(f.Type()); s != nil {
					v, ok := build(s, path, f.Type())
					if !ok {
						return nil, false
					}
					args[i] = v
				}
			}
		}
		return mk("struct", "", t, args...), true
	}
	return build(st, nil, typ)
}

func contains(ss []string, x string) bool {
	for _, s := range ss {
		if s == x {
			return true
		}
	}
	return false
}

func samePath(a, b []*types.Var) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// jsonCompatible: a value of type a always decodes into type b unchanged.
func jsonCompatible(a, b types.Type) bool {
	ab, ok1 := a.Underlying().(*types.Basic)
	bb, ok2 := b.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if ab.Info()&types.IsInteger != 0 {
			return bb.Kind() == ab.Kind()
		}
		return ab.Kind() == bb.Kind() || ab.Info()&types.IsString != 0 && bb.Info()&types.IsString != 0
	}
	return types.Identical(a.Underlying(), b.Underlying())
}

func jsonModels(m map[string]Model) {
	m["encoding/json.Marshal"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		st2 := st.Clone()
		c.E.jsonEncode(c, st, c.Args[0], nil, func(st *State, j *Term) {
			k(st, mk("bytes", "", c.Sig.Results().At(0).Type(), mk("jsonbytes", "", nil, j)), Nil)
		})
		st2.Emit(&Event{Kind: "jsonencode", Pos: c.Pos, In: c.Fr.fn, Failed: true})
		k(st2, Nil, c.E.FreshErr("json.Marshal"))
		return true
	}
	m["encoding/json.Unmarshal"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		c.E.jsonDecodeInto(c, st, c.E.Bytes(st, c.Args[0]), c.Args[1], k)
		return true
	}
	m["encoding/json.NewDecoder"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		t := c.E.Fresh("alloc", "decoder", c.Sig.Results().At(0).Type())
		src := Unbox(c.Args[0])
		b, ok := st.mem[mk("content", "", nil, src)]
		if !ok {
			b = mk("readall", "", nil, src)
		}
		st.mem[mk("content", "", nil, t)] = b
		k(st, t)
		return true
	}
	m["(*encoding/json.Decoder).Decode"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		b, ok := st.mem[mk("content", "", nil, c.Recv)]
		if !ok {
			b = mk("readall", "", nil, c.Recv)
		}
		c.E.jsonDecodeInto(c, st, b, c.Args[0], k)
		return true
	}
	m["encoding/json.NewEncoder"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		t := c.E.Fresh("alloc", "encoder", c.Sig.Results().At(0).Type())
		st.mem[mk("encdst", "", nil, t)] = Unbox(c.Args[0])
		k(st, t)
		return true
	}
	m["(*encoding/json.Encoder).Encode"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		dst := st.mem[mk("encdst", "", nil, c.Recv)]
		st2 := st.Clone()
		c.E.jsonEncode(c, st, c.Args[0], nil, func(st *State, j *Term) {
			if dst != nil {
				st.mem[mk("content", "", nil, dst)] = mk("jsonbytes", "", nil, j)
			}
			k(st, Nil)
		})
		st2.Emit(&Event{Kind: "jsonencode", Pos: c.Pos, In: c.Fr.fn, Failed: true})
		k(st2, c.E.FreshErr("json.Encode"))
		return true
	}
	m["io.ReadAll"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		st2 := st.Clone()
		src := Unbox(c.Args[0])
		b, ok := st.mem[mk("content", "", nil, src)]
		if !ok {
			b = mk("readall", "", nil, src)
		}
		k(st, mk("bytes", "", c.Sig.Results().At(0).Type(), b), Nil)
		st2.Emit(&Event{Kind: "call", Name: c.Name, Pos: c.Pos, In: c.Fr.fn, Failed: true})
		k(st2, Nil, c.E.AnyErr("io.ReadAll"))
		return true
	}
}

func (e *Exec) jsonDecodeInto(c *Call, st *State, data, dst *Term, k func(*State, ...*Term)) {
	p := Unbox(dst)
	pt := Deref(p)
	if pt == nil {
		k(st, e.AnyErr("json"))
		return
	}
	if fn := hasMethod(e.Prog, p.Typ, "UnmarshalJSON"); fn != nil && e.InRepo(fn) && len(fn.Blocks) > 0 {
		st2 := st.Clone()
		e.call(fn, []*Term{p, mk("bytes", "", nil, data)}, nil, st, c.Fr, c.K)
		st2.Emit(&Event{Kind: "jsondecode", Recv: p, Args: []*Term{data}, Pos: c.Pos, In: c.Fr.fn, Elem: pt.Elem(), Failed: true})
		k(st2, e.FreshErr("json.syntax"))
		return
	}
	j := data
	if j.Op == "jsonbytes" {
		j = j.Args[0]
	}
	st2 := st.Clone()
	v, ok := e.JSONDecode(j, pt.Elem())
	if data.Op != "jsonbytes" {
		v, ok = mk("decoded", "", pt.Elem(), data), true
	}
	if ok {
		st.Emit(&Event{Kind: "jsondecode", Recv: p, Args: []*Term{data}, Res: []*Term{v}, Pos: c.Pos, In: c.Fr.fn, Elem: pt.Elem()})
		if !st.isOwned(p) {
			st.Emit(&Event{Kind: "wr", Recv: p, Args: []*Term{v}, Pos: c.Pos, In: c.Fr.fn, Elem: pt.Elem()})
		}
		st.Store(p, v, pt.Elem())
		k(st, Nil)
	}
	st2.Emit(&Event{Kind: "jsondecode", Recv: p, Args: []*Term{data}, Pos: c.Pos, In: c.Fr.fn, Elem: pt.Elem(), Failed: true})
	// a failed decode may leave a partial value
	st2.Store(p, e.Fresh("sym", "partial", pt.Elem()), pt.Elem())
	k(st2, e.FreshErr("json.Unmarshal"))
}

// ---- raft futures --------------------------------------------------------

func raftModels(m map[string]Model) {
	const R = "github.com/hashicorp/raft"
	fut := func(kind string) Model {
		return func(c *Call, st *State, k func(*State, ...*Term)) bool {
			f := c.E.Fresh("future", kind, c.Sig.Results().At(0).Type())
			ev := &Event{Kind: "raft", Name: kind, Recv: c.Recv, Args: c.Args, Res: []*Term{f}, Pos: c.Pos, In: c.Fr.fn}
			if kind == "Apply" || kind == "ApplyLog" {
				ev.Args = append([]*Term{c.E.Bytes(st, c.Args[0])}, c.Args[1:]...)
			}
			st.Emit(ev)
			st.Assume(IsNil(f), false)
			k(st, f)
			return true
		}
	}
	for _, n := range []string{"Apply", "ApplyLog", "RemoveServer", "AddVoter", "AddNonvoter", "DemoteVoter", "BootstrapCluster", "GetConfiguration", "Barrier", "VerifyLeader", "Snapshot", "LeadershipTransfer", "Shutdown", "RemovePeer", "AddPeer"} {
		m["(*"+R+".Raft)."+n] = fut(n)
	}
	m["("+R+".Future).Error"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		f := c.Recv
		t := mk("futerr", "", errT, f)
		st.Emit(&Event{Kind: "futwait", Recv: f, Res: []*Term{t}, Pos: c.Pos, In: c.Fr.fn})
		if _, ok := st.Decide(IsNil(t)); ok {
			k(st, t)
			return true
		}
		st2 := st.Clone()
		st.Assume(IsNil(t), true)
		k(st, Nil)
		st2.Assume(IsNil(t), false)
		k(st2, t)
		return true
	}
	m["("+R+".ApplyFuture).Response"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		t := mk("resp", "", c.Sig.Results().At(0).Type(), c.Recv)
		st.Emit(&Event{Kind: "futresp", Recv: c.Recv, Res: []*Term{t}, Pos: c.Pos, In: c.Fr.fn, Failed: !st.KnownNil(mk("futerr", "", errT, c.Recv))})
		st.Assume(IsNil(t), false)
		k(st, t)
		return true
	}
	m["("+R+".ConfigurationFuture).Configuration"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		t := mk("raftconfig", "", c.Sig.Results().At(0).Type(), c.Recv)
		st.Emit(&Event{Kind: "futresp", Recv: c.Recv, Res: []*Term{t}, Pos: c.Pos, In: c.Fr.fn, Failed: !st.KnownNil(mk("futerr", "", errT, c.Recv))})
		k(st, t)
		return true
	}
}

// isRawJSON: the type that keeps the bytes of a JSON value.
func isRawJSON(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "encoding/json.RawMessage", "encoding/json/jsontext.Value":
		return true
	}
	return false
}
