package rules

import (
	"go/types"
	"reflect"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

const viperPkg = "github.com/spf13/viper"

// setting is the value of a configuration setting.
func setting(name string, t types.Type) *eng.Term { return eng.Sym("cfg:"+strings.ToLower(name), t) }

// settingName is the setting a term is.
func settingName(t *eng.Term) string {
	t = strip(t)
	if t.Op == "sym" && strings.HasPrefix(t.Aux, "cfg:") {
		return t.Aux[4:]
	}
	return ""
}

// leaf is a field of the configuration and the name its value is decoded from.
type leaf struct {
	key  string
	path []*types.Var
}

// settingsOf lists the fields the decoder fills.
func settingsOf(t types.Type) []leaf {
	var r []leaf
	var walk func(t types.Type, prefix string, path []*types.Var)
	walk = func(t types.Type, prefix string, path []*types.Var) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			r = append(r, leaf{strings.TrimSuffix(prefix, "."), path})
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !f.Exported() {
				continue
			}
			name, opts, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("mapstructure"), ",")
			if name == "-" {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			p := append(append([]*types.Var(nil), path...), f)
			if strings.Contains(opts, "squash") {
				walk(f.Type(), prefix, p)
				continue
			}
			walk(f.Type(), prefix+strings.ToLower(name)+".", p)
		}
	}
	walk(t, "", nil)
	return r
}

// settingField is the name of the field a setting is decoded into.
func (c *Ctx) settingField(key string) string {
	if t := c.Named("pkg/config", "Config"); t != nil {
		for _, l := range settingsOf(t) {
			if l.key == key {
				return l.path[len(l.path)-1].Name()
			}
		}
	}
	return "no field for " + key
}

// viperModels: reading a setting gives its value; decoding fills the fields.
func (c *Ctx) viperModels(e *eng.Exec, free func(string) bool) {
	value := func(name string, t types.Type) *eng.Term {
		if free == nil || free(strings.ToLower(name)) {
			return setting(name, t)
		}
		return eng.Zero(t)
	}
	e.Match = append([]func(*eng.Call) eng.Model{func(call *eng.Call) eng.Model {
		if !strings.HasPrefix(call.Name, viperPkg+".") && !strings.HasPrefix(call.Name, "(*"+viperPkg+".Viper).") {
			return nil
		}
		m := last(call.Name)
		switch {
		case m == "Unmarshal" || m == "UnmarshalExact" || m == "UnmarshalKey":
			return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
				prefix, i := "", 0
				if m == "UnmarshalKey" {
					s, ok := strip(call.Args[0]).StrVal()
					if !ok {
						return false
					}
					prefix, i = s+".", 1
				}
				dst := eng.Unbox(call.Args[i])
				pt, ok := dst.Typ.(*types.Pointer)
				if !ok {
					if d := eng.Deref(dst); d != nil {
						pt = d
					} else {
						return false
					}
				}
				bad := st.Clone()
				for _, l := range settingsOf(pt.Elem()) {
					a := dst
					var t types.Type
					for _, v := range l.path {
						a = eng.FieldAddr(a, v.Name(), v.Type())
						t = v.Type()
					}
					st.Store(a, value(prefix+l.key, t), t)
				}
				st.Emit(&eng.Event{Kind: "decode", Name: call.Name, Recv: dst, Pos: call.Pos, In: call.In(), Elem: pt.Elem()})
				k(st, eng.Nil)
				bad.Emit(&eng.Event{Kind: "decode", Name: call.Name, Recv: dst, Pos: call.Pos, In: call.In(), Failed: true, Elem: pt.Elem()})
				k(bad, e.AnyErr("viper.Unmarshal"))
				return true
			}
		case m == "GetViper":
			return nil
		case strings.HasPrefix(m, "Get"):
			return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
				if len(call.Args) != 1 || call.Sig.Results().Len() != 1 {
					return false
				}
				s, ok := strip(call.Args[0]).StrVal()
				if !ok {
					return false
				}
				k(st, value(s, call.Sig.Results().At(0).Type()))
				return true
			}
		}
		return nil
	}}, e.Match...)
}

// entry is the function the command line runs.
func (c *Ctx) entry(r *Report) *ssa.Function {
	icc := c.Func("pkg/config", "InitCobraCommand")
	if !r.Anchor(icc != nil, "InitCobraCommand") {
		return nil
	}
	var f *ssa.Function
	calls, _ := c.callsOf(icc)
	for _, s := range calls {
		if len(s.Args) == 0 {
			continue
		}
		for _, v := range c.sources(s.Args[0]) {
			if g, ok := v.(*ssa.Function); ok && len(g.Params) == 2 {
				f = g
			}
		}
	}
	r.Anchor(f != nil, "the function the command runs")
	return f
}

// serverOpts bounds a run of the program's entry.
type serverOpts struct {
	free func(setting string) bool // the others have their zero value
	stop func(call string) bool    // the run ends there
	sure func(call string) bool    // libraries that do what they are asked

	ends   func(call string) bool                   // the run ends there unless the call fails
	opaque func(call string, fn *ssa.Function) bool // analysed on its own
}

// server runs the program's entry with unknown settings.
func (c *Ctx) server(r *Report, o serverOpts) (*eng.Exec, []*path) {
	f := c.entry(r)
	if f == nil {
		return nil, nil
	}
	e := c.exec(r)
	c.serverModels(e, o)
	ps := paths(f, r.run(e, f, nil))
	r.Anchor(len(ps) > 0, "paths of the program's entry")
	return e, ps
}

func (c *Ctx) serverModels(e *eng.Exec, o serverOpts) {
	e.Opaque = o.opaque
	c.clientModels(e)
	c.httpModels(e)
	c.viperModels(e, o.free)
	e.Match = append([]func(*eng.Call) eng.Model{func(call *eng.Call) eng.Model {
		switch {
		case o.stop != nil && o.stop(call.Name):
			return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
				st.Emit(&eng.Event{Kind: "call", Name: call.Name, Callee: call.Fn, Recv: call.Recv, Args: call.Args, Pos: call.Pos, In: call.In()})
				call.K(st, nil, eng.Cut, "end of the part analysed", call.Pos)
				return true
			}
		case o.ends != nil && o.ends(call.Name):
			return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
				bad := st.Clone()
				st.Emit(&eng.Event{Kind: "call", Name: call.Name, Callee: call.Fn, Recv: call.Recv, Args: call.Args, Pos: call.Pos, In: call.In()})
				call.K(st, nil, eng.Cut, "end of the part analysed", call.Pos)
				bad.Emit(&eng.Event{Kind: "call", Name: call.Name, Callee: call.Fn, Recv: call.Recv, Args: call.Args, Pos: call.Pos, In: call.In(), Failed: true})
				k(bad, e.AnyErr(last(call.Name)))
				return true
			}
		case o.sure != nil && o.sure(call.Name):
			return sureModel(e)
		}
		return nil
	}}, e.Match...)
}

// sureModel: a library call that succeeds.
func sureModel(e *eng.Exec) eng.Model {
	return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		res := call.Sig.Results()
		var r []*eng.Term
		for i := 0; i < res.Len(); i++ {
			t := eng.Nil
			if !eng.IsErrorType(res.At(i).Type()) {
				t = e.Fresh("res", last(call.Name), res.At(i).Type())
				if nilable(res.At(i).Type()) {
					st.Assume(eng.IsNil(t), false)
				}
			}
			r = append(r, t)
		}
		st.Emit(&eng.Event{Kind: "call", Name: call.Name, Callee: call.Fn, Recv: call.Recv, Args: call.Args, Res: r, Pos: call.Pos, In: call.In()})
		k(st, r...)
		return true
	}
}
