package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R06", "Path-sensitive effect analysis of the log store: committed writes and their keys per stored entry, symbolic match of the encoded entry with what reading decodes, the scans behind the first and last index, and for range deletion an invariant over every scan and batch (start, what is deleted and what is passed over, where the next scan resumes, what ends it).", 60, ruleR06)
	register("R07", "Path-sensitive effect analysis of the stable store: own key and committed write per success, and for reads which of found, absent and failed leads to which answer.", 30, ruleR07)
}

// storeModel is the raft log and stable store.
type storeModel struct {
	c       *Ctx
	r       *Report
	logs    func(idx *eng.Term) *eng.Term // the key of an entry
	logsLit string
}

type storeRun struct {
	fn   *ssa.Function
	args []*eng.Term
	ps   []*path
}

// run executes a method; the store and the entries it is given exist.
func (s *storeModel) run(name string, widen bool) *storeRun {
	fn := s.c.Method("pkg/badger-store", "BadgerStore", name)
	if !s.r.Anchor(fn != nil, "BadgerStore."+name) {
		return nil
	}
	e := s.c.exec(s.r)
	e.Widen = widen
	x := &storeRun{fn: fn}
	st := eng.NewState()
	for _, p := range fn.Params {
		t := eng.Sym(p.Name(), p.Type())
		if eng.Deref(t) != nil {
			st.Assume(eng.IsNil(t), false)
		}
		x.args = append(x.args, t)
	}
	x.ps = paths(fn, s.r.run(e, fn, st, x.args...))
	for _, p := range x.ps {
		if p.cut {
			s.r.Ob(p.o.Exit == eng.Cut, "no-panic", name, p.o, "%s ends abnormally: %s", name, p.o.Why)
		}
	}
	return x
}

// literal is a key's leading literal, when the rest is what is given.
func keyed(k, rest *eng.Term) (string, bool) {
	k = strip(k)
	if k.Op != "concat" || len(k.Args) != 2 {
		return "", false
	}
	l, ok := k.Args[0].StrVal()
	return l, ok && l != "" && strip(k.Args[1]) == strip(rest)
}

// committed: no write or delete of the path is left behind, and writes are by
// one transaction.
func (s *storeModel) committed(n string, p *path) {
	s.r.Ob(len(p.lost) == 0, "committed-before-success", n, p.o, "%s reports success before this is committed: %s", n, evStr(p.lost))
	txns := map[*eng.Term]bool{}
	for _, e := range p.eff {
		txns[e.Recv] = true
	}
	for _, e := range p.failed() {
		if e.Kind == "get" && e.Name == "notfound" {
			continue
		}
		s.r.Ob(false, "failure-is-reported", n, p.o, "%s reports success although %s", n, e)
	}
}

func (s *storeModel) failing(n string, p *path) {
	s.r.Ob(p.explained(false), "refusal-explained", n, p.o, "%s fails although nothing failed", n)
	s.r.Ob(len(p.eff) == 0 || strings.HasPrefix(n, "Delete"), "all-or-nothing", n, p.o, "%s fails after it committed %s", n, evStr(p.eff))
}

// entries decides StoreLogs (and StoreLog): each given entry is committed
// under its own index.
func (s *storeModel) entries(name string) {
	x := s.run(name, false)
	if x == nil {
		return
	}
	r := s.r
	arg := x.args[1]
	oks, most := 0, 0
	for _, p := range x.ps {
		// every write is an entry under its own index
		var sets []*eng.Event
		for _, e := range p.evs {
			if e.Kind != "set" && e.Kind != "del" && e.Kind != "dropprefix" {
				continue
			}
			if !r.Ob(e.Kind == "set", "only-stores", name, p.o, "%s deletes: %s", name, e) {
				continue
			}
			if !e.Failed {
				sets = append(sets, e)
			}
		}
		var stored []*eng.Term
		for _, e := range sets {
			v := strip(e.Args[1])
			if !r.Ob(v.Op == "msgpack", "entry-encoded", name, p.o, "what is stored is not one encoded entry: %s", v) {
				continue
			}
			l := strip(v.Args[0])
			stored = append(stored, l)
			idx := eng.Sym("?", nil)
			if eng.Deref(l) != nil {
				idx = p.st.Load(eng.FieldAddr(l, "Index", types.Typ[types.Uint64]), types.Typ[types.Uint64])
			}
			lit, ok := keyed(e.Args[0], eng.Mk("be64", "", nil, strip(idx)))
			r.Ob(ok, "own-index", name, p.o, "an entry is stored under %s, not under its own index in ascending order", e.Args[0])
			if ok {
				if s.logs == nil {
					s.logsLit = lit
					s.logs = func(i *eng.Term) *eng.Term {
						return eng.Concat(eng.Str(lit), eng.Mk("be64", "", nil, strip(i)))
					}
				}
				r.Ob(lit == s.logsLit, "own-index", name, p.o, "entries are stored under %q and %q", lit, s.logsLit)
			}
		}
		if p.cut {
			continue
		}
		if !p.ok {
			s.failing(name, p)
			continue
		}
		oks++
		s.committed(name, p)
		txns := map[*eng.Term]bool{}
		for _, e := range p.eff {
			txns[e.Recv] = true
		}
		r.Ob(len(txns) <= 1, "one-transaction", name, p.o, "the entries are committed in %d transactions", len(txns))
		// exactly the given ones
		if _, ok := arg.Typ.Underlying().(*types.Slice); !ok {
			r.Ob(len(stored) == 1 && stored[0] == arg, "each-stored", name, p.o, "the given entry is stored %d times", len(stored))
			most = 1
			continue
		}
		n := 0
		for ; n < 8; n++ {
			v, known := p.st.Decide(eng.Binop(token.LSS, eng.Int(int64(n)), eng.LenOf(arg), types.Typ[types.Bool]))
			if known && !v {
				break
			}
		}
		if !r.Ob(n < 8, "each-stored", name, p.o, "%s reports success without having looked at every entry", name) {
			continue
		}
		if n > most {
			most = n
		}
		seen := map[*eng.Term]bool{}
		for _, l := range stored {
			seen[l] = true
		}
		r.Ob(len(stored) == n && len(seen) == n, "each-stored", name, p.o, "%d entries were given and %d stored", n, len(seen))
		for l := range seen {
			r.Ob(strings.HasPrefix(l.Op, "index") && len(l.Args) > 0 && strip(l.Args[0]) == arg, "each-stored", name, p.o, "%s is stored, which was not given", l)
		}
	}
	r.Ob(oks > 0, "can-succeed", name, nil, "no path of %s succeeds", name)
	r.Ob(most > 0, "can-store", name, nil, "no path of %s stores an entry", name)
}

// sentinelText is the text of an error variable of the repository.
func (c *Ctx) sentinelText(err *eng.Term) (string, bool) {
	if err == nil || err.Op != "errval" {
		return "", false
	}
	for _, pk := range c.Prog.AllPackages() {
		if pk.Pkg == nil {
			continue
		}
		i := strings.LastIndex(err.Aux, ".")
		if i < 0 || pk.Pkg.Path() != err.Aux[:i] {
			continue
		}
		g, ok := pk.Members[err.Aux[i+1:]].(*ssa.Global)
		if !ok {
			return "", false
		}
		in := pk.Func("init")
		if in == nil {
			return "", false
		}
		for _, b := range in.Blocks {
			for _, x := range b.Instrs {
				s, ok := x.(*ssa.Store)
				if !ok || s.Addr != g {
					continue
				}
				call, ok := s.Val.(*ssa.Call)
				if !ok {
					continue
				}
				if f := call.Call.StaticCallee(); f != nil && f.String() == "errors.New" {
					if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
						return constant.StringVal(k.Value), true
					}
				}
			}
		}
	}
	return "", false
}

const errLogNotFound = "github.com/hashicorp/raft.ErrLogNotFound"

// reads decides a read by key: the key, and which outcome has which answer.
// absent says whether an error is the one that means the key is not there.
func (s *storeModel) reads(name string, key func(p *path, k *eng.Term) bool, absent func(err *eng.Term) bool, found func(p *path, stored *eng.Term)) {
	x := s.run(name, false)
	if x == nil {
		return
	}
	r := s.r
	oks, miss := 0, 0
	for _, p := range x.ps {
		if p.cut {
			continue
		}
		gets := p.kind("get")
		r.Ob(len(p.eff) == 0 && len(p.lost) == 0, "reads-only", name, p.o, "%s writes: %s", name, evStr(append(p.eff, p.lost...)))
		if !r.Ob(len(gets) == 1, "one-read", name, p.o, "%s reads %d records", name, len(gets)) {
			continue
		}
		g := gets[0]
		r.Ob(key(p, g.Args[0]), "own-key", name, p.o, "%s reads %s", name, g.Args[0])
		if name == "GetLog" && !g.Failed && p.isEmpty(eng.Mk("stored", g.Res[0].Aux, nil, strip(g.Args[0]))) {
			continue // no entry is encoded as nothing
		}
		switch {
		case g.Failed && g.Name == "notfound":
			miss++
			r.Ob(!p.ok && absent(p.err), "absent-is-told", name, p.o, "for a key that is not stored, %s answers %v, not the error that says so", name, retStr(p))
		case p.ok:
			oks++
			for _, e := range p.failed() {
				r.Ob(false, "failure-is-reported", name, p.o, "%s reports success although %s", name, e)
			}
			found(p, eng.Mk("stored", g.Res[0].Aux, nil, strip(g.Args[0])))
		default:
			r.Ob(!absent(p.err), "absent-only-if-absent", name, p.o, "%s says that the key is not stored, although it is or could not be read", name)
			r.Ob(p.explained(false), "refusal-explained", name, p.o, "%s fails although nothing failed", name)
		}
	}
	r.Ob(oks > 0 && miss > 0, "can-succeed", name, nil, "%s never finds a value or never misses one", name)
}

func retStr(p *path) string {
	var s []string
	for _, t := range p.o.Ret {
		s = append(s, t.String())
	}
	return strings.Join(s, ", ")
}

// sameHandle: what one encodes the other decodes. The time format may differ:
// every decoder reads both.
func sameHandle(a, b *eng.Term) bool {
	if a == b {
		return true
	}
	return dropTime(a).String() == dropTime(b).String()
}

func dropTime(h *eng.Term) *eng.Term {
	st, ok := h.Typ.(*types.Named)
	if !ok {
		return h
	}
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return h
	}
	var fs []*eng.Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := eng.Field(h, f.Name(), f.Type())
		switch f.Name() {
		case "TimeNotBuiltin":
			v = eng.Sym("any", f.Type())
		case "BasicHandle":
			v = dropTime(v)
		}
		fs = append(fs, v)
	}
	return eng.Mk("tuple", "", nil, fs...)
}

func ruleR06(c *Ctx, r *Report) {
	s := &storeModel{c: c, r: r}
	s.entries("StoreLogs")
	s.entries("StoreLog")
	if s.logs == nil {
		r.Ob(false, "own-index", "StoreLogs", nil, "under which key an entry is stored is not known")
		return
	}
	s.getLog()
	s.ends("FirstIndex", false)
	s.ends("LastIndex", true)
	s.deleteRange()
	s.wiring()
}

func (s *storeModel) getLog() {
	r := s.r
	fn := s.c.Method("pkg/badger-store", "BadgerStore", "GetLog")
	if !r.Anchor(fn != nil && len(fn.Params) == 3, "BadgerStore.GetLog") {
		return
	}
	idx := eng.Sym(fn.Params[1].Name(), fn.Params[1].Type())
	out := eng.Sym(fn.Params[2].Name(), fn.Params[2].Type())
	var enc *eng.Term
	if x := s.run("StoreLogs", false); x != nil {
		for _, p := range x.ps {
			for _, e := range p.evs {
				if e.Kind == "msgencode" {
					enc = e.Args[1]
				}
			}
		}
	}
	s.reads("GetLog", func(p *path, k *eng.Term) bool { return strip(k) == s.logs(idx) },
		func(err *eng.Term) bool { return err == eng.Sentinel(errLogNotFound) },
		func(p *path, stored *eng.Term) {
			n := 0
			for _, e := range p.kind("msgdecode") {
				if strip(e.Args[0]) == stored && strip(e.Args[1]) == out {
					n++
					r.Ob(enc != nil && sameHandle(e.Args[2], enc), "same-encoding", "GetLog", p.o, "an entry is decoded otherwise than it was encoded: %s, %s", e.Args[2], enc)
				} else {
					r.Ob(false, "entry-returned", "GetLog", p.o, "%s is decoded into %s", e.Args[0], e.Args[1])
				}
			}
			r.Ob(n == 1, "entry-returned", "GetLog", p.o, "the stored entry is not what the caller gets")
		})
}

// idxOf: v is the index in the key k.
func (s *storeModel) idxOf(v, k *eng.Term) bool {
	v = strip(v)
	if v.Op != "unbe64" {
		return false
	}
	a := v.Args[0]
	for a.Op == "aliased" || a.Op == "bytes" {
		a = a.Args[0]
	}
	if a.Op != "sliceof" || strip(a.Args[0]) != k {
		return false
	}
	if a.Aux != "from" && a.Aux != "range" {
		return false
	}
	lo, ok := a.Args[1].IntVal()
	return ok && lo == int64(len(s.logsLit))
}

// isEmpty: the path knows that these bytes are none.
func (p *path) isEmpty(b *eng.Term) bool {
	if p.st.KnownNil(b) {
		return true
	}
	bare := func(t *eng.Term) *eng.Term {
		for t = strip(t); t.Op == "aliased" || t.Op == "bytes"; {
			t = strip(t.Args[0])
		}
		return t
	}
	empty := false
	p.st.FactTerms(func(a *eng.Term, v bool) {
		if !v || a.Op != "bin" || a.Aux != "==" || len(a.Args) != 2 {
			return
		}
		for i := 0; i < 2; i++ {
			n, ok := a.Args[i].IntVal()
			l := a.Args[1-i]
			if ok && n == 0 && l.Op == "call" && l.Aux == "len" && bare(l.Args[0]) == b {
				empty = true
			}
		}
	})
	return empty
}

// ends decides FirstIndex and LastIndex.
func (s *storeModel) ends(name string, last bool) {
	x := s.run(name, false)
	if x == nil {
		return
	}
	r := s.r
	found, none := 0, 0
	for _, p := range x.ps {
		if p.cut {
			continue
		}
		r.Ob(len(p.eff) == 0 && len(p.lost) == 0, "reads-only", name, p.o, "%s writes", name)
		if !p.ok {
			r.Ob(p.explained(false), "refusal-explained", name, p.o, "%s fails although nothing failed", name)
			continue
		}
		ss := p.scans()
		if !r.Ob(len(ss) == 1 && ss[0].prefix != nil, "one-scan", name, p.o, "%s does not scan the entries once", name) {
			continue
		}
		sc := ss[0]
		r.Ob(optBool(sc.opts, "Reverse") == last, "scan-direction", name, p.o, "the scan for %s goes the wrong way", name)
		at, isLit := sc.prefix.StrVal()
		if last {
			// beyond every index in use and before every key of another kind
			r.Ob(isLit && strings.HasPrefix(at, s.logsLit) && len(at) > len(s.logsLit) && at[len(s.logsLit)] == 0xff || isLit && at > s.logsLit && !strings.HasPrefix(at, s.logsLit) && s.nothingBetween(at), "scan-start", name, p.o, "the scan for the last index starts at %q: entries can be beyond it", at)
		} else {
			r.Ob(isLit && at == s.logsLit, "scan-start", name, p.o, "the scan for the first index starts at %s, not before all entries", sc.prefix)
		}
		for _, g := range sc.guards {
			gl, _ := g.StrVal()
			r.Ob(gl == s.logsLit, "scan-bounded", name, p.o, "the scan is bounded by %s, not by the entries' prefix", g)
		}
		r.Ob(len(sc.guards) > 0 || sc.bounded, "scan-bounded", name, p.o, "the scan can find a record that is not an entry")
		ret := p.o.Ret[0]
		if len(sc.iters) == 0 {
			none++
			n, ok := ret.IntVal()
			r.Ob(sc.ended && ok && n == 0, "none-is-zero", name, p.o, "for an empty store %s answers %s", name, ret)
			continue
		}
		found++
		r.Ob(s.idxOf(ret, sc.iters[0]), "first-found", name, p.o, "%s answers %s, not the index of the entry found first", name, ret)
	}
	r.Ob(found > 0 && none > 0, "can-succeed", name, nil, "%s never finds an entry or never misses one", name)
}

func optBool(o *eng.Term, f string) bool { return optTrue(o, f) }

// nothingBetween: no key of another kind lies between the entries and at.
func (s *storeModel) nothingBetween(at string) bool {
	for _, l := range []string{"conf", "messages:", "queues:"} {
		if l > s.logsLit && l <= at {
			return false
		}
	}
	return true
}

// beyond: is the index in the key k known to be above (or not above) bound?
func (s *storeModel) above(p *path, k, bound *eng.Term) (is, known bool) {
	kb := s.logs(bound)
	p.st.FactTerms(func(a *eng.Term, v bool) {
		if a.Op != "bin" {
			return
		}
		x, y := strip(a.Args[0]), strip(a.Args[1])
		cmp := func(t *eng.Term) int { // +1: compare(k, bound), -1: compare(bound, k)
			if t.Op != "call" || t.Aux != "bytes.Compare" {
				return 0
			}
			l, m := content(t.Args[0]), content(t.Args[1])
			switch {
			case l == k && m == kb:
				return 1
			case l == kb && m == k:
				return -1
			}
			return 0
		}
		zero := func(t *eng.Term) bool { n, ok := t.IntVal(); return ok && n == 0 }
		less := func(lowK bool) { // the fact is lowK: idx < bound, else bound < idx
			if lowK && v {
				is, known = false, true
			} else if !lowK {
				is, known = v, true
			}
		}
		switch a.Aux {
		case "<":
			switch {
			case s.idxOf(x, k) && y == strip(bound):
				less(true)
			case s.idxOf(y, k) && x == strip(bound):
				less(false)
			case zero(y) && cmp(x) != 0:
				less(cmp(x) > 0)
			case zero(x) && cmp(y) != 0:
				less(cmp(y) < 0)
			}
		case "==":
			if v && (s.idxOf(x, k) && y == strip(bound) || s.idxOf(y, k) && x == strip(bound)) {
				is, known = false, true
			}
		}
	})
	return
}

func content(t *eng.Term) *eng.Term {
	t = strip(t)
	for t.Op == "bytes" || t.Op == "aliased" {
		t = strip(t.Args[0])
	}
	return t
}

func (s *storeModel) deleteRange() {
	name := "DeleteRange"
	x := s.run(name, true)
	if x == nil {
		return
	}
	r := s.r
	min, max := x.args[1], x.args[2]
	oks, dels, resumes := 0, 0, 0
	for _, p := range x.ps {
		dels += s.deletePath(name, p, min, max, &resumes)
		if p.cut {
			continue
		}
		if !p.ok {
			s.failing(name, p)
			continue
		}
		oks++
		for _, e := range p.failed() {
			r.Ob(false, "failure-is-reported", name, p.o, "%s reports success although %s", name, e)
		}
		r.Ob(len(p.lost) == 0, "committed-before-success", name, p.o, "%s reports success before this is committed: %s", name, evStr(p.lost))
	}
	r.Ob(oks > 0 && dels > 0, "can-succeed", name, nil, "no path of %s deletes an entry", name)
	r.ObAt(s.batched(x), "bounded-transaction", name, x.fn.Pos(), "the number of deletes in one transaction is not bounded: a long range does not fit into one and cannot be deleted")
}

// batched: a bound on the deletes of one transaction is tested, or a batch that
// splits itself is used.
func (s *storeModel) batched(x *storeRun) bool {
	ok := false
	for _, f := range append(s.c.under(x.fn), x.fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.BinOp:
					switch i.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
						for _, v := range append(s.c.sources(i.X), s.c.sources(i.Y)...) {
							if k, is := v.(*ssa.Const); is && k.Value != nil && k.Value.Kind() == constant.Int {
								if n, exact := constant.Int64Val(k.Value); exact && n >= 2 && n <= 20000 {
									ok = true
								}
							}
						}
					}
				case ssa.CallInstruction:
					if f := i.Common().StaticCallee(); f != nil && strings.HasPrefix(f.String(), eng.BadgerT+"WriteBatch)") {
						ok = true
					}
				}
			}
		}
	}
	return ok
}

// deletePath follows one path of a range deletion.
func (s *storeModel) deletePath(name string, p *path, min, max *eng.Term, resumes *int) int {
	r := s.r
	type scan struct {
		it, txn *eng.Term
		at      *eng.Term
		cur     *eng.Term // the key the scan is at
		ended   bool
	}
	var cur *scan
	scans := 0
	deleted := map[*eng.Term]bool{}
	pending := map[*eng.Term]bool{}
	passed := map[*eng.Term]bool{} // visited and done with: deleted or above
	n := 0
	leave := func() {
		// the scan goes on, or ends: the entry it was at must be done with
		if cur == nil || cur.cur == nil {
			return
		}
		k := cur.cur
		if deleted[k] {
			passed[k] = true
			return
		}
		is, known := s.above(p, k, max)
		if !r.Ob(known, "range-complete", name, p.o, "an entry is passed over without knowing whether it is in the range") {
			return
		}
		if is {
			passed[k] = true
		} else {
			pending[k] = true // to be deleted before the transaction is committed
		}
	}
	by := map[*eng.Term]*scan{}
	for _, e := range p.evs {
		switch e.Kind {
		case "iter":
			cur = &scan{it: e.Res[0], txn: e.Recv}
			by[cur.it] = cur
			scans++
			if len(e.Args) > 0 {
				r.Ob(!optTrue(e.Args[0], "Reverse"), "scan-direction", name, p.o, "the scan goes backwards")
			}
		case "seek":
			sc := by[e.Recv]
			if sc == nil {
				continue
			}
			sc.at = content(e.Args[0])
			switch {
			case sc.at == s.logs(min):
				r.Ob(true, "scan-start", name, p.o, "")
			default:
				// resumed at, or just behind, an entry that is done with
				*resumes++
				a := sc.at
				if a.Op == "concat" && len(a.Args) == 2 {
					if z, ok := a.Args[1].StrVal(); ok && z == "\x00" {
						a = content(a.Args[0])
					}
				}
				idx := false
				if a.Op == "concat" { // the next index
					for k := range passed {
						if a == s.logs(eng.Binop(token.ADD, s.indexIn(p, k), eng.Int(1), types.Typ[types.Uint64])) {
							idx = true
						}
					}
				}
				if is, known := s.above(p, a, max); deleted[a] || known && is {
					passed[a] = true
				}
				r.Ob(passed[a] || idx, "scan-start", name, p.o, "a scan starts at %s: entries of the range can lie before it", sc.at)
			}
		case "rewind":
			r.Ob(false, "scan-start", name, p.o, "a scan starts at the beginning of the store")
		case "iteritem":
			if sc := by[e.Recv]; sc != nil {
				cur = sc
				sc.cur = eng.Mk("iterkey", e.Res[0].Aux, nil, sc.it)
				v, known := p.st.Decide(eng.Mk("itervalidprefix", e.Res[0].Aux, types.Typ[types.Bool], sc.it, eng.Str(s.logsLit)))
				r.Ob(known && v, "entries-only", name, p.o, "what the scan found is taken for an entry without knowing that it is one")
			}
		case "next":
			if sc := by[e.Recv]; sc != nil && sc == cur {
				leave()
				cur.cur = nil
			}
		case "iterclose":
			if sc := by[e.Recv]; sc != nil && sc == cur {
				r.Ob(true, "closed", name, p.o, "")
			}
		case "set", "dropprefix":
			r.Ob(false, "only-deletes", name, p.o, "%s does more than delete entries: %s", name, e)
		case "del":
			n++
			k := content(e.Args[0])
			if !r.Ob(k.Op == "iterkey", "only-in-range", name, p.o, "%s is deleted, which was not found by the scan", k) {
				continue
			}
			r.Ob(e.Args[1].Op != "aliased", "key-outlives-iteration", name, p.o, "the key given to the transaction is only valid until the next step of the scan: the transaction deletes other keys instead")
			is, known := s.above(p, k, max)
			r.Ob(known && !is, "only-in-range", name, p.o, "an entry is deleted without knowing that it is not above the range")
			if e.Failed {
				// the whole fails
			} else {
				deleted[k] = true
				delete(pending, k)
				passed[k] = true
			}
		case "commit":
			r.Ob(len(pending) == 0, "range-complete", name, p.o, "an entry of the range is passed over")
		}
	}
	if p.cut || !p.ok {
		return n
	}
	r.Ob(len(pending) == 0, "range-complete", name, p.o, "an entry of the range is passed over")
	if scans == 0 {
		v, known := p.st.Decide(eng.Binop(token.LSS, max, min, types.Typ[types.Bool]))
		r.Ob(known && v, "range-complete", name, p.o, "%s reports success without looking for entries", name)
		return n
	}
	// what ended the last scan
	done := false
	if cur.cur != nil && !deleted[cur.cur] {
		is, known := s.above(p, cur.cur, max)
		done = known && is
	} else {
		p.st.FactTerms(func(a *eng.Term, v bool) {
			if a.Op == "itervalidprefix" && a.Args[0] == cur.it && !v {
				if l, ok := a.Args[1].StrVal(); ok && l == s.logsLit {
					done = true
				}
			}
			if a.Op == "itervalid" && a.Args[0] == cur.it && !v {
				done = true
			}
		})
	}
	r.Ob(done, "range-complete", name, p.o, "%s reports success although the scan did not reach the end of the range", name)
	return n
}

// indexIn is the index a key holds, as the path knows it.
func (s *storeModel) indexIn(p *path, k *eng.Term) *eng.Term {
	return eng.Mk("unbe64", "", types.Typ[types.Uint64], eng.Mk("sliceof", "from", nil, k, eng.Int(int64(len(s.logsLit)))))
}

// wiring: consensus keeps its log and its settings in this store, on the
// database the store was given.
func (s *storeModel) wiring() {
	c, r := s.c, s.r
	bs := c.Named("pkg/badger-store", "BadgerStore")
	n := 0
	for _, f := range c.ReachableFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := call.Call.StaticCallee()
				if g == nil || g.String() != raftPkg+".NewRaft" {
					continue
				}
				n++
				for i, what := range map[int]string{2: "log", 3: "settings"} {
					var isStore func(v ssa.Value, depth int) bool
					isStore = func(v ssa.Value, depth int) bool {
						if k, ok := v.(*ssa.Const); ok && k.IsNil() {
							return true // with an error
						}
						if p, ok := v.Type().(*types.Pointer); ok && bs != nil && types.Identical(p.Elem(), bs) {
							return true
						}
						if depth > 4 {
							return false
						}
						if ex, ok := v.(*ssa.Extract); ok {
							v = ex.Tuple
						}
						if cl, ok := v.(*ssa.Call); ok && i == 2 {
							if h := cl.Call.StaticCallee(); h != nil && h.String() == raftPkg+".NewLogCache" {
								src := c.sources(cl.Call.Args[1])
								for _, s := range src {
									if !isStore(s, depth+1) {
										return false
									}
								}
								return len(src) > 0
							}
						}
						return false
					}
					src := c.sources(call.Call.Args[i])
					r.ObAt(len(src) > 0, "store-used", funcName(f), call.Pos(), "where consensus keeps its %s is not known", what)
					for _, v := range src {
						r.ObAt(isStore(v, 0), "store-used", funcName(f), call.Pos(), "consensus keeps its %s in %s, not in the store of this node", what, v)
					}
				}
			}
		}
	}
	r.Anchor(n > 0, "the call that starts consensus")
	ctor := c.Func("pkg/badger-store", "New")
	if r.Anchor(ctor != nil, "badgerstore.New") {
		e := c.exec(r)
		db := eng.Sym(ctor.Params[0].Name(), ctor.Params[0].Type())
		for _, p := range paths(ctor, r.run(e, ctor, nil)) {
			if p.cut || !p.ok {
				continue
			}
			ok := false
			v := p.o.Ret[0]
			if pt := eng.Deref(v); pt != nil {
				if st, is := pt.Elem().Underlying().(*types.Struct); is {
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						if p.st.Load(eng.FieldAddr(v, f.Name(), f.Type()), f.Type()) == db {
							ok = true
						}
					}
				}
			}
			r.Ob(ok, "own-database", "New", p.o, "the store does not keep the database it is given")
		}
	}
}

func ruleR07(c *Ctx, r *Report) {
	s := &storeModel{c: c, r: r}
	lits := map[string]bool{}
	for _, t := range [][2]string{{"Set", ""}, {"SetUint64", "be64"}} {
		x := s.run(t[0], false)
		if x == nil {
			continue
		}
		oks := 0
		for _, p := range x.ps {
			if p.cut {
				continue
			}
			if !p.ok {
				s.failing(t[0], p)
				continue
			}
			oks++
			s.committed(t[0], p)
			if !r.Ob(len(p.eff) == 1 && p.eff[0].Kind == "set", "written", t[0], p.o, "a successful %s commits %s", t[0], evStr(p.eff)) {
				continue
			}
			lit, ok := keyed(p.eff[0].Args[0], x.args[1])
			r.Ob(ok, "own-key", t[0], p.o, "the value is written under %s", p.eff[0].Args[0])
			lits[lit] = true
			want := x.args[2]
			if t[1] != "" {
				want = eng.Mk(t[1], "", nil, want)
			}
			r.Ob(content(p.eff[0].Args[1]) == strip(want), "own-value", t[0], p.o, "%s is written instead of the value", p.eff[0].Args[1])
		}
		r.Ob(oks > 0, "can-succeed", t[0], nil, "no path of %s succeeds", t[0])
	}
	absent := func(err *eng.Term) bool {
		txt, ok := c.sentinelText(err)
		return ok && txt == "not found"
	}
	for _, t := range [][2]string{{"Get", ""}, {"GetUint64", "unbe64"}} {
		fn := c.Method("pkg/badger-store", "BadgerStore", t[0])
		if fn == nil {
			r.Anchor(false, "BadgerStore."+t[0])
			continue
		}
		k := eng.Sym(fn.Params[1].Name(), fn.Params[1].Type())
		s.reads(t[0], func(p *path, key *eng.Term) bool {
			lit, ok := keyed(key, k)
			lits[lit] = true
			return ok
		}, absent, func(p *path, stored *eng.Term) {
			ret := content(p.o.Ret[0])
			want := stored
			if t[1] != "" {
				want = eng.Mk(t[1], "", types.Typ[types.Uint64], stored)
			}
			r.Ob(ret == want, "value-returned", t[0], p.o, "%s returns %s, not the stored value", t[0], ret)
			r.Ob(p.o.Ret[0].Op != "aliased", "value-outlives-read", t[0], p.o, "the returned value is only valid until the transaction ends")
		})
	}
	r.Ob(len(lits) == 1, "own-key", "Set", nil, "values are written and read under different keys")
}
