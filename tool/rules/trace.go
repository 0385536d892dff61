package rules

import (
	"go/token"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// sources follows a value backwards to where it comes from: through
// conversions, phis, parameters (to every call of the function in the
// repository), results of repository functions, and fields of which every
// store in the repository is known. What it cannot follow it returns itself.
func (c *Ctx) sources(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.ChangeType:
			walk(x.X)
			return
		case *ssa.Convert:
			walk(x.X)
			return
		case *ssa.MakeInterface:
			walk(x.X)
			return
		case *ssa.ChangeInterface:
			walk(x.X)
			return
		case *ssa.TypeAssert:
			if !x.CommaOk {
				walk(x.X)
				return
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if a, ok := x.X.(*ssa.Alloc); ok {
					n := 0
					for _, ref := range *a.Referrers() {
						if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
							n++
							walk(s.Val)
						}
					}
					if n > 0 {
						return
					}
				}
			}
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				if f := call.Call.StaticCallee(); f != nil && c.InRepo(f) && len(f.Blocks) > 0 {
					for _, b := range f.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(ret.Results) {
							if k, isK := ret.Results[x.Index].(*ssa.Const); isK && k.IsNil() && failing(ret) {
								continue
							}
							walk(ret.Results[x.Index])
						}
					}
					return
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && c.InRepo(f) && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
				for _, b := range f.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						walk(ret.Results[0])
					}
				}
				return
			}
		case *ssa.Parameter:
			calls, all := c.callsOf(x.Parent())
			if all && len(calls) > 0 {
				i := paramIndex(x)
				for _, call := range calls {
					if i >= 0 && i < len(call.Args) {
						walk(call.Args[i])
					}
				}
				return
			}
		case *ssa.FreeVar:
			for _, f := range c.Functions() {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						mc, ok := in.(*ssa.MakeClosure)
						if !ok || mc.Fn != x.Parent() {
							continue
						}
						for i, fv := range x.Parent().FreeVars {
							if fv == x {
								walk(mc.Bindings[i])
							}
						}
					}
				}
			}
			return
		}
		out = append(out, v)
	}
	walk(v)
	return out
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

// callsOf lists the static calls of a function in the repository; all is false
// if it may also be called otherwise.
func (c *Ctx) callsOf(fn *ssa.Function) (calls []*ssa.CallCommon, all bool) {
	all = fn.Parent() == nil
	for _, f := range c.Functions() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				if isCall && call.Common().StaticCallee() == fn {
					if _, closure := call.Common().Value.(*ssa.MakeClosure); !closure {
						calls = append(calls, call.Common())
					}
				}
				var ops [12]*ssa.Value
				for i, op := range in.Operands(ops[:0]) {
					if *op == fn && !(isCall && i == 0 && call.Common().Value == fn) {
						all = false
					}
				}
			}
		}
	}
	return
}

// failing: the return reports an error.
func failing(ret *ssa.Return) bool {
	n := len(ret.Results)
	if n < 2 || !eng.IsErrorType(ret.Results[n-1].Type()) {
		return false
	}
	k, isK := ret.Results[n-1].(*ssa.Const)
	return !(isK && k.IsNil())
}
