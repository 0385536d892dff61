// Package eng is a path-sensitive abstract interpreter over go/ssa.
//
// It never runs the program: every value is a term describing where it came
// from (provenance), every call of interest is an event, and a path is a
// sequence of events plus the branch facts taken. Branches are pruned only by
// syntactic contradiction with facts already on the path; no solver is used.
package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned abstract value. Two equal terms are the same pointer.
type Term struct {
	ID   int
	Op   string
	Aux  string
	Args []*Term
	Typ  types.Type
	C    constant.Value
	Fn   *ssa.Function
	str  string
}

type interner struct {
	m     map[string]*Term
	types map[types.Type]string
}

var in = &interner{m: map[string]*Term{}, types: map[types.Type]string{}}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := in.types[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	in.types[t] = s
	return s
}

func mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(aux)
	switch op {
	case "const", "zero", "iface", "conv", "struct", "nil", "decoded", "assertok", "sym":
		b.WriteByte(0)
		b.WriteString(typeKey(typ))
	default:
		// a fresh value of one run must not be one of another run
		if strings.IndexByte(aux, '#') >= 0 {
			b.WriteByte(0)
			b.WriteString(typeKey(typ))
		}
	}
	for _, a := range args {
		fmt.Fprintf(&b, "\x00%d", a.ID)
	}
	k := b.String()
	if t, ok := in.m[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	t := &Term{ID: len(in.m) + 1, Op: op, Aux: aux, Args: args, Typ: typ}
	in.m[k] = t
	return t
}

// Mk builds an interned term (for rules).
func Mk(op, aux string, typ types.Type, args ...*Term) *Term { return mk(op, aux, typ, args...) }

func Const(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return Zero(typ)
	}
	t := mk("const", v.ExactString(), typ)
	t.C = v
	return t
}

func Str(s string) *Term                  { return Const(constant.MakeString(s), types.Typ[types.String]) }
func Int(n int64) *Term                   { return Const(constant.MakeInt64(n), types.Typ[types.Int]) }
func Bool(b bool) *Term                   { return Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func Sym(name string, t types.Type) *Term { return mk("sym", name, t) }

// Zero is the zero value of a type; nil for nillable types.
func Zero(typ types.Type) *Term {
	if typ == nil {
		return mk("nil", "", nil)
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Const(constant.MakeBool(false), typ)
		case u.Info()&types.IsString != 0:
			return Const(constant.MakeString(""), typ)
		case u.Info()&types.IsNumeric != 0:
			return Const(constant.MakeInt64(0), typ)
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return Nil
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return Nil
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = Zero(u.At(i).Type())
		}
		return mk("tuple", "", typ, args...)
	}
	return mk("zero", "", typ)
}

var Nil = mk("nil", "", nil)
var True = Bool(true)
var False = Bool(false)

func (t *Term) IsConst() bool { return t.Op == "const" }
func (t *Term) StrVal() (string, bool) {
	if t.Op == "const" && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) IntVal() (int64, bool) {
	if t.Op == "const" && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func (t *Term) BoolVal() (bool, bool) {
	if t.Op == "const" && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

// Field projects a field of a struct value term.
func Field(t *Term, name string, typ types.Type) *Term {
	switch t.Op {
	case "struct":
		st := structOf(t.Typ)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return t.Args[i]
			}
		}
	case "zero", "nil":
		return Zero(typ)
	case "conv":
		return Field(t.Args[0], name, typ)
	case "phi":
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = Field(a, name, typ)
		}
		return mk("phi", "", typ, args...)
	}
	return mk("field", name, typ, t)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func Deref(t *Term) *types.Pointer {
	if t.Typ == nil {
		return nil
	}
	p, _ := t.Typ.Underlying().(*types.Pointer)
	return p
}

// Unwrap strips interface boxing and value-preserving conversions.
func Unwrap(t *Term) *Term {
	for {
		switch t.Op {
		case "iface":
			t = t.Args[0]
		case "conv":
			t = t.Args[0]
		case "bytes", "aliased":
			t = t.Args[0]
		default:
			return t
		}
	}
}

// Unbox strips only interface boxing.
func Unbox(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// Contains reports whether pred holds for t or any sub-term.
func (t *Term) Contains(pred func(*Term) bool) bool {
	seen := map[int]bool{}
	var w func(*Term) bool
	w = func(x *Term) bool {
		if seen[x.ID] {
			return false
		}
		seen[x.ID] = true
		if pred(x) {
			return true
		}
		for _, a := range x.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (t *Term) Has(s *Term) bool { return t.Contains(func(x *Term) bool { return x == s }) }

// Subst replaces sub-terms bottom-up.
func Subst(t *Term, f func(*Term) *Term) *Term {
	memo := map[int]*Term{}
	var w func(*Term) *Term
	w = func(x *Term) *Term {
		if r, ok := memo[x.ID]; ok {
			return r
		}
		if r := f(x); r != nil {
			memo[x.ID] = r
			return r
		}
		if len(x.Args) == 0 {
			memo[x.ID] = x
			return x
		}
		args := make([]*Term, len(x.Args))
		ch := false
		for i, a := range x.Args {
			args[i] = w(a)
			ch = ch || args[i] != a
		}
		r := x
		if ch {
			r = mk(x.Op, x.Aux, x.Typ, args...)
			r.Fn = x.Fn
		}
		memo[x.ID] = r
		return r
	}
	return w(t)
}

func shortAux(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (t *Term) String() string {
	if t == nil {
		return "<nil-term>"
	}
	if t.str != "" {
		return t.str
	}
	s := t.render(6)
	t.str = s
	return s
}

func (t *Term) render(d int) string {
	if d == 0 {
		return "…"
	}
	list := func(as []*Term) string {
		var p []string
		for _, a := range as {
			p = append(p, a.render(d-1))
		}
		return strings.Join(p, ", ")
	}
	switch t.Op {
	case "const":
		return t.C.String()
	case "nil":
		return "nil"
	case "zero":
		return "zero(" + shortAux(typeKey(t.Typ)) + ")"
	case "sym":
		return t.Aux
	case "alloc":
		return "&" + shortAux(t.Aux)
	case "global":
		return "&" + shortAux(t.Aux)
	case "deref":
		return t.Args[0].render(d)
	case "field":
		return t.Args[0].render(d) + "." + t.Aux
	case "fieldaddr":
		return "&" + t.Args[0].render(d) + "." + t.Aux
	case "iface", "conv", "bytes":
		return t.Args[0].render(d)
	case "bin":
		return "(" + t.Args[0].render(d-1) + " " + t.Aux + " " + t.Args[1].render(d-1) + ")"
	case "un":
		return t.Aux + t.Args[0].render(d-1)
	case "proj":
		return t.Args[0].render(d-1) + "#" + t.Aux
	case "call":
		return shortAux(t.Aux) + "(" + list(t.Args) + ")"
	case "concat":
		var p []string
		for _, a := range t.Args {
			p = append(p, a.render(d-1))
		}
		return strings.Join(p, "+")
	case "func", "closure":
		if t.Fn != nil {
			return t.Fn.Name()
		}
	case "struct":
		n := shortAux(typeKey(t.Typ))
		return n + "{" + list(t.Args) + "}"
	}
	a := t.Op
	if t.Aux != "" {
		a += ":" + shortAux(t.Aux)
	}
	if len(t.Args) == 0 {
		return a
	}
	return a + "(" + list(t.Args) + ")"
}

// --- boolean normal form -------------------------------------------------

func isZeroConst(t *Term) bool {
	n, ok := t.IntVal()
	return ok && n == 0
}
func isOneConst(t *Term) bool {
	n, ok := t.IntVal()
	return ok && n == 1
}
func isCount(t *Term) bool {
	// never negative: lengths and unsigned values
	u := Unwrap(t)
	if u.Op == "call" && (u.Aux == "len" || u.Aux == "cap") || u.Op == "count" {
		return true
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

// Canon normalises a boolean term to an atom and a polarity.
func Canon(t *Term) (*Term, bool) {
	pos := true
	for {
		switch {
		case t.Op == "un" && t.Aux == "!":
			pos = !pos
			t = t.Args[0]
			continue
		case t.Op == "bin":
			a, b := stripCmp(t.Args[0]), stripCmp(t.Args[1])
			switch t.Aux {
			case "!=", "==":
				if t.Aux == "!=" {
					pos = !pos
				}
				// x == true / x == false
				if v, ok := b.BoolVal(); ok {
					if !v {
						pos = !pos
					}
					t = a
					continue
				}
				if v, ok := a.BoolVal(); ok {
					if !v {
						pos = !pos
					}
					t = b
					continue
				}
				if a.ID > b.ID {
					a, b = b, a
				}
				return mk("bin", "==", types.Typ[types.Bool], a, b), pos
			case ">":
				a, b = b, a
				return canonLess(a, b, pos)
			case "<":
				return canonLess(a, b, pos)
			case ">=":
				return canonLess(a, b, !pos)
			case "<=":
				return canonLess(b, a, !pos)
			}
		}
		return t, pos
	}
}

// stripCmp removes conversions that cannot change an ordering for the values
// compared here (integer widening, string/bytes views, interface boxing).
func stripCmp(t *Term) *Term {
	for t.Op == "conv" || t.Op == "iface" || t.Op == "bytes" || t.Op == "aliased" {
		t = t.Args[0]
	}
	return t
}

func canonLess(a, b *Term, pos bool) (*Term, bool) {
	if isZeroConst(a) && isCount(b) { // 0 < len  ==  !(len == 0)
		x, y := a, b
		x = Int(0)
		if x.ID > y.ID {
			x, y = y, x
		}
		return mk("bin", "==", types.Typ[types.Bool], x, y), !pos
	}
	if isOneConst(b) && isCount(a) { // len < 1 == (len == 0)
		x, y := Int(0), a
		if x.ID > y.ID {
			x, y = y, x
		}
		return mk("bin", "==", types.Typ[types.Bool], x, y), pos
	}
	return mk("bin", "<", types.Typ[types.Bool], a, b), pos
}

func foldBin(op token.Token, a, b *Term, typ types.Type) *Term {
	ua, ub := a, b
	if ua.Op == "const" && ub.Op == "const" {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if ua.C.Kind() == ub.C.Kind() || (isNum(ua.C) && isNum(ub.C)) {
				return Bool(constant.Compare(ua.C, op, ub.C))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if ua.C.Kind() == ub.C.Kind() {
				return Const(constant.BinaryOp(ua.C, op, ub.C), typ)
			}
		case token.QUO, token.REM:
			if ua.C.Kind() == constant.Int && ub.C.Kind() == constant.Int && constant.Sign(ub.C) != 0 {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				return Const(constant.BinaryOp(ua.C, o, ub.C), typ)
			}
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(ub.C); ok && ua.C.Kind() == constant.Int && n < 64 {
				return Const(constant.Shift(ua.C, op, uint(n)), typ)
			}
		}
	}
	if op == token.ADD && typ != nil {
		if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return Concat(a, b)
		}
	}
	if (op == token.ADD || op == token.SUB) && typ != nil {
		if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			return linear(op, a, b, typ)
		}
	}
	return mk("bin", op.String(), typ, a, b)
}

// linear keeps integer sums in one form, so that equal sums are equal terms.
func linear(op token.Token, a, b *Term, typ types.Type) *Term {
	var c int64
	coef := map[*Term]int64{}
	var order []*Term
	var add func(t *Term, sign int64)
	add = func(t *Term, sign int64) {
		if n, ok := t.IntVal(); ok {
			c += sign * n
			return
		}
		if t.Op == "bin" && t.Typ != nil && (t.Aux == "+" || t.Aux == "-") {
			add(t.Args[0], sign)
			if t.Aux == "-" {
				sign = -sign
			}
			add(t.Args[1], sign)
			return
		}
		if t.Op == "conv" && sameWidthInt(t.Typ, t.Args[0].Typ) {
			add(t.Args[0], sign)
			return
		}
		if _, ok := coef[t]; !ok {
			order = append(order, t)
		}
		coef[t] += sign
	}
	add(a, 1)
	if op == token.SUB {
		add(b, -1)
	} else {
		add(b, 1)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	var pos, neg *Term
	acc := func(p **Term, t *Term) {
		if *p == nil {
			*p = t
		} else {
			*p = mk("bin", "+", typ, *p, t)
		}
	}
	for _, t := range order {
		for n := coef[t]; n > 0; n-- {
			acc(&pos, t)
		}
		for n := coef[t]; n < 0; n++ {
			acc(&neg, t)
		}
	}
	if c > 0 {
		acc(&pos, Const(constant.MakeInt64(c), typ))
	} else if c < 0 {
		acc(&neg, Const(constant.MakeInt64(-c), typ))
	}
	if pos == nil {
		pos = Const(constant.MakeInt64(0), typ)
	}
	if neg == nil {
		return pos
	}
	if pc, ok := pos.IntVal(); ok && len(order) == 0 {
		if nc, ok := neg.IntVal(); ok {
			return Const(constant.MakeInt64(pc-nc), typ)
		}
	}
	return mk("bin", "-", typ, pos, neg)
}

func sameWidthInt(a, b types.Type) bool {
	if a == nil || b == nil {
		return false
	}
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	w := func(k types.BasicKind) int {
		switch k {
		case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
			return 64
		case types.Int32, types.Uint32:
			return 32
		}
		return 0
	}
	return w(x.Kind()) != 0 && w(x.Kind()) == w(y.Kind())
}

func isNum(c constant.Value) bool {
	return c.Kind() == constant.Int || c.Kind() == constant.Float
}

// Concat joins string/byte terms into a flat concatenation.
func Concat(parts ...*Term) *Term {
	var flat []*Term
	var add func(*Term)
	add = func(p *Term) {
		u := p
		for u.Op == "conv" || u.Op == "iface" || u.Op == "bytes" || u.Op == "aliased" {
			u = u.Args[0]
		}
		if u.Op == "concat" {
			for _, a := range u.Args {
				add(a)
			}
			return
		}
		if u.Op == "nil" {
			return
		}
		if s, ok := u.StrVal(); ok {
			if s == "" {
				return
			}
			if n := len(flat); n > 0 {
				if prev, ok := flat[n-1].StrVal(); ok {
					flat[n-1] = Str(prev + s)
					return
				}
			}
			flat = append(flat, Str(s))
			return
		}
		flat = append(flat, u)
	}
	for _, p := range parts {
		add(p)
	}
	if len(flat) == 0 {
		return Str("")
	}
	if len(flat) == 1 {
		return flat[0]
	}
	return mk("concat", "", types.Typ[types.String], flat...)
}

// Sum is t plus a constant, in normal form.
func Sum(t *Term, n int64, typ types.Type) *Term {
	return foldBin(token.ADD, t, Const(constant.MakeInt64(n), typ), typ)
}

// FuncTerm is the value of a function.
func FuncTerm(fn *ssa.Function) *Term {
	t := mk("func", fn.String(), fn.Type())
	t.Fn = fn
	return t
}

// Binop is the value of an arithmetic operation.
func Binop(op token.Token, a, b *Term, typ types.Type) *Term { return foldBin(op, a, b, typ) }
