package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"net"
	"strconv"
	"strings"

	"doqcheck/eng"
)

// evaluator gives terms over strings and numbers their value for one choice of
// the inputs. What it does not know it does not give a value.
type evaluator struct {
	p   *path
	in  func(t *eng.Term) (any, bool) // the inputs
	off map[*eng.Term]bool
}

func (v *evaluator) all(ts []*eng.Term) ([]any, bool) {
	var r []any
	for _, t := range ts {
		x, ok := v.val(t)
		if !ok {
			return nil, false
		}
		r = append(r, x)
	}
	return r, true
}

func (v *evaluator) val(t *eng.Term) (any, bool) {
	if x, ok := v.in(t); ok {
		return x, true
	}
	switch t.Op {
	case "const":
		switch t.C.Kind() {
		case constant.String:
			return constant.StringVal(t.C), true
		case constant.Bool:
			return constant.BoolVal(t.C), true
		case constant.Int:
			n, ok := constant.Int64Val(t.C)
			return n, ok
		}
		return nil, false
	case "nil":
		return nil, true
	case "conv", "iface", "bytes", "aliased", "ifhas":
		return v.val(t.Args[0])
	case "concat":
		xs, ok := v.all(t.Args)
		if !ok {
			return nil, false
		}
		s := ""
		for _, x := range xs {
			p, ok := x.(string)
			if !ok {
				return nil, false
			}
			s += p
		}
		return s, true
	case "dec":
		x, ok := v.val(t.Args[0])
		if n, isN := x.(int64); ok && isN {
			return strconv.FormatInt(n, 10), true
		}
		return nil, false
	case "un":
		x, ok := v.val(t.Args[0])
		if b, isB := x.(bool); ok && isB && t.Aux == "!" {
			return !b, true
		}
		return nil, false
	case "bin":
		return v.bin(t)
	case "call":
		return v.call(t)
	case "slicelit":
		xs, ok := v.all(t.Args)
		if !ok {
			return nil, false
		}
		r := []string{}
		for _, x := range xs {
			s, ok := x.(string)
			if !ok {
				return nil, false
			}
			r = append(r, s)
		}
		return r, true
	case "append":
		a, ok := v.val(t.Args[0])
		if !ok {
			return nil, false
		}
		l, _ := a.([]string)
		r := append([]string{}, l...)
		for _, x := range t.Args[1:] {
			s, ok := v.val(x)
			if !ok {
				return nil, false
			}
			switch s := s.(type) {
			case string:
				r = append(r, s)
			case []string:
				r = append(r, s...)
			default:
				return nil, false
			}
		}
		return r, true
	case "makeslice":
		if l := v.p.list(t); l != nil {
			return v.val(eng.Mk("slicelit", "", t.Typ, l...))
		}
	case "index":
		a, ok1 := v.val(t.Args[0])
		i, ok2 := v.val(t.Args[1])
		n, isN := i.(int64)
		if !ok1 || !ok2 || !isN || n < 0 {
			return nil, false
		}
		switch a := a.(type) {
		case []string:
			if n < int64(len(a)) {
				return a[n], true
			}
		case string:
			if n < int64(len(a)) {
				return int64(a[n]), true
			}
		}
		return nil, false
	case "sliceof":
		a, ok := v.val(t.Args[0])
		if !ok {
			return nil, false
		}
		xs, ok := v.all(t.Args[1:])
		if !ok {
			return nil, false
		}
		size := int64(0)
		switch a := a.(type) {
		case string:
			size = int64(len(a))
		case []string:
			size = int64(len(a))
		default:
			return nil, false
		}
		lo, hi := int64(0), size
		if len(xs) > 0 {
			lo, _ = xs[0].(int64)
		}
		if len(xs) > 1 {
			hi, _ = xs[1].(int64)
		}
		if lo < 0 || lo > hi || hi > size {
			return nil, false
		}
		switch a := a.(type) {
		case string:
			return a[lo:hi], true
		case []string:
			return a[lo:hi], true
		}
	case "res":
		// the result of a library function that was called
		if v.p == nil {
			return nil, false
		}
		for _, e := range v.p.evs {
			for i, x := range e.Res {
				if x == t {
					return v.lib(e, i)
				}
			}
		}
	}
	return nil, false
}

// lib evaluates library calls that can fail.
func (v *evaluator) lib(e *eng.Event, i int) (any, bool) {
	if e.Kind != "call" {
		return nil, false
	}
	xs, ok := v.all(e.Args)
	if !ok {
		return nil, false
	}
	switch e.Name {
	case "net.SplitHostPort":
		h, p, err := net.SplitHostPort(xs[0].(string))
		if (err != nil) != e.Failed {
			return nil, false
		}
		if i < 2 {
			return []string{h, p}[i], true
		}
	}
	return nil, false
}

// happens: the outcome of every library call of the path is the one it has for
// these inputs, and so is every condition. Unknown ones count as possible.
func (v *evaluator) happens() (bool, []*eng.Term) {
	for _, e := range v.p.evs {
		if e.Kind == "call" && e.Name == "net.SplitHostPort" {
			if xs, ok := v.all(e.Args); ok {
				_, _, err := net.SplitHostPort(xs[0].(string))
				if (err != nil) != e.Failed {
					return false, nil
				}
			}
		}
	}
	yes := true
	var unknown []*eng.Term
	v.p.st.FactTerms(func(a *eng.Term, want bool) {
		x, ok := v.val(a)
		if !ok {
			unknown = append(unknown, a)
			return
		}
		if b, isB := x.(bool); isB && b != want {
			yes = false
		}
	})
	return yes, unknown
}

func (v *evaluator) bin(t *eng.Term) (any, bool) {
	a, ok1 := v.val(t.Args[0])
	b, ok2 := v.val(t.Args[1])
	if !ok1 || !ok2 {
		return nil, false
	}
	if a == nil || b == nil {
		isEmpty := func(x any) bool {
			l, ok := x.([]string)
			return x == nil || ok && l == nil
		}
		switch t.Aux {
		case "==":
			return isEmpty(a) && isEmpty(b), true
		case "!=":
			return !(isEmpty(a) && isEmpty(b)), true
		}
		return nil, false
	}
	c := func(x any) constant.Value {
		switch x := x.(type) {
		case string:
			return constant.MakeString(x)
		case int64:
			return constant.MakeInt64(x)
		case bool:
			return constant.MakeBool(x)
		}
		return constant.MakeUnknown()
	}
	x, y := c(a), c(b)
	if x.Kind() != y.Kind() || x.Kind() == constant.Unknown {
		return nil, false
	}
	ops := map[string]token.Token{"==": token.EQL, "!=": token.NEQ, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ, "+": token.ADD, "-": token.SUB, "&&": token.LAND, "||": token.LOR}
	op, ok := ops[t.Aux]
	if !ok {
		return nil, false
	}
	switch op {
	case token.ADD, token.SUB, token.LAND, token.LOR:
		z := constant.BinaryOp(x, op, y)
		return v.val(eng.Const(z, types.Typ[types.Int]))
	}
	return constant.Compare(x, op, y), true
}

func (v *evaluator) call(t *eng.Term) (any, bool) {
	xs, ok := v.all(t.Args)
	if !ok {
		return nil, false
	}
	if t.Aux == "len" {
		switch x := xs[0].(type) {
		case string:
			return int64(len(x)), true
		case []string:
			return int64(len(x)), true
		case nil:
			return int64(0), true
		}
		return nil, false
	}
	name, res, _ := strings.Cut(t.Aux, "#")
	s := func(i int) string {
		if i < len(xs) {
			r, _ := xs[i].(string)
			return r
		}
		return ""
	}
	n := func(i int) int {
		if i < len(xs) {
			r, _ := xs[i].(int64)
			return int(r)
		}
		return 0
	}
	pick := func(rs ...any) (any, bool) {
		i, err := strconv.Atoi(res)
		if err != nil {
			i = 0
		}
		return rs[i], true
	}
	switch name {
	case "strings.HasPrefix":
		return strings.HasPrefix(s(0), s(1)), true
	case "strings.HasSuffix":
		return strings.HasSuffix(s(0), s(1)), true
	case "strings.Contains":
		return strings.Contains(s(0), s(1)), true
	case "strings.ContainsAny":
		return strings.ContainsAny(s(0), s(1)), true
	case "strings.EqualFold":
		return strings.EqualFold(s(0), s(1)), true
	case "strings.Index":
		return int64(strings.Index(s(0), s(1))), true
	case "strings.LastIndex":
		return int64(strings.LastIndex(s(0), s(1))), true
	case "strings.IndexByte":
		return int64(strings.IndexByte(s(0), byte(n(1)))), true
	case "strings.LastIndexByte":
		return int64(strings.LastIndexByte(s(0), byte(n(1)))), true
	case "strings.Count":
		return int64(strings.Count(s(0), s(1))), true
	case "strings.Compare":
		return int64(strings.Compare(s(0), s(1))), true
	case "strings.TrimSuffix":
		return strings.TrimSuffix(s(0), s(1)), true
	case "strings.TrimPrefix":
		return strings.TrimPrefix(s(0), s(1)), true
	case "strings.TrimSpace":
		return strings.TrimSpace(s(0)), true
	case "strings.Trim":
		return strings.Trim(s(0), s(1)), true
	case "strings.TrimLeft":
		return strings.TrimLeft(s(0), s(1)), true
	case "strings.TrimRight":
		return strings.TrimRight(s(0), s(1)), true
	case "strings.ToLower":
		return strings.ToLower(s(0)), true
	case "strings.ToUpper":
		return strings.ToUpper(s(0)), true
	case "strings.Split":
		return strings.Split(s(0), s(1)), true
	case "strings.SplitN":
		return strings.SplitN(s(0), s(1), n(2)), true
	case "strings.SplitAfter":
		return strings.SplitAfter(s(0), s(1)), true
	case "strings.Fields":
		return strings.Fields(s(0)), true
	case "strings.ReplaceAll":
		return strings.ReplaceAll(s(0), s(1), s(2)), true
	case "strings.Replace":
		return strings.Replace(s(0), s(1), s(2), n(3)), true
	case "net.JoinHostPort":
		return net.JoinHostPort(s(0), s(1)), true
	case "strings.Cut":
		a, b, ok := strings.Cut(s(0), s(1))
		return pick(a, b, ok)
	case "strings.CutPrefix":
		a, ok := strings.CutPrefix(s(0), s(1))
		return pick(a, ok)
	case "strings.CutSuffix":
		a, ok := strings.CutSuffix(s(0), s(1))
		return pick(a, ok)
	}
	return nil, false
}

// foldStrings: functions of strings whose arguments are known have their value.
func foldStrings(e *eng.Exec) {
	v := &evaluator{in: func(*eng.Term) (any, bool) { return nil, false }}
	lit := func(t *eng.Term) *eng.Term {
		x, ok := v.val(t)
		if !ok {
			return t
		}
		switch x := x.(type) {
		case string:
			return eng.Const(constant.MakeString(x), t.Typ)
		case bool:
			return eng.Bool(x)
		case int64:
			return eng.Const(constant.MakeInt64(x), t.Typ)
		case []string:
			var els []*eng.Term
			for _, s := range x {
				els = append(els, eng.Str(s))
			}
			return eng.Mk("slicelit", "", t.Typ, els...)
		}
		return t
	}
	for n, m := range e.Models {
		if !strings.HasPrefix(n, "strings.") && n != "net.JoinHostPort" {
			continue
		}
		e.Models[n] = func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
			return m(call, st, func(st *eng.State, res ...*eng.Term) {
				for i := range res {
					res[i] = lit(res[i])
				}
				k(st, res...)
			})
		}
	}
	e.Models["net.SplitHostPort"] = func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		x, ok := v.val(call.Args[0])
		s, isS := x.(string)
		if !ok || !isS {
			return false
		}
		h, p, err := net.SplitHostPort(s)
		if err != nil {
			k(st, eng.Str(""), eng.Str(""), e.FreshErr("net.SplitHostPort"))
			return true
		}
		k(st, eng.Str(h), eng.Str(p), eng.Nil)
		return true
	}
}
