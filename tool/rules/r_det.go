package rules

import (
	"go/types"
	"regexp"
	"sort"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R03", "Non-interference analysis of the state machine over SSA paths, in layers (state machine, storage-backed queue and queue manager, in-memory queues): no effect on queue state has a clock, random, environment, node configuration or map-order value in it, and for every such value that decides a branch the sets of effects on both sides are equal; tasks started on the way and functions outside the state machine change no queue state.", 200, ruleR03)
}

// A value that can differ between nodes that apply the same log.

var purePkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "bytes": true, "errors": true, "math": true,
	"math/bits": true, "sort": true, "slices": true, "cmp": true, "unicode": true, "unicode/utf8": true, "path": true,
	"regexp": true, "container/heap": true, "container/list": true, "container/ring": true, "encoding/json": true,
	"encoding/binary": true, "encoding/hex": true, "encoding/base64": true, "encoding/gob": true, "html": true, "unsafe": true,
	"hash/fnv": true, "hash/crc32": true, "crypto/sha256": true, "crypto/sha1": true, "crypto/md5": true, "sync": true, "io": true}

// what of the database differs between nodes that stored the same records
var localDB = map[string]bool{"Version": true, "ExpiresAt": true, "EstimatedSize": true, "Size": true, "ValueSize": true, "Tables": true,
	"Levels": true, "MaxVersion": true, "MaxBatchCount": true, "MaxBatchSize": true, "IsClosed": true, "ReadTs": true, "KeySize": false}

// nodeLocal says why the result of a call to fn can differ between nodes.
func (c *Ctx) nodeLocal(fn *ssa.Function, name string) string {
	if fn == nil {
		return ""
	}
	if c.InRepo(fn) {
		return ""
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pk = o.Pkg().Path()
	}
	last := fn.Name()
	switch {
	case pk == eng.Badger:
		if localDB[last] {
			return "the database's " + last
		}
		return ""
	case purePkgs[pk]:
		return ""
	case pk == "time":
		switch last {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "Local":
			return "this node's clock"
		}
		return ""
	case pk == "sync/atomic", strings.HasPrefix(pk, "github.com/rs/zerolog"), strings.HasPrefix(pk, "github.com/prometheus/"), strings.HasPrefix(pk, "google.golang.org/protobuf"):
		return ""
	}
	return "a result of " + name
}

// localTerm finds a part of a term that can differ between nodes.
type localTerms struct {
	c      *Ctx
	res    map[*eng.Term]string // results of calls
	ranged bool
	fsm    *types.Named
}

func (l *localTerms) add(evs []*eng.Event) {
	for _, e := range evs {
		switch e.Kind {
		case "call":
			why := l.c.nodeLocal(e.Callee, e.Name)
			if why == "" && (e.Callee == nil || !l.c.InRepo(e.Callee)) {
				// what is computed from such a value is one
				if e.Recv != nil {
					why = l.why(e.Recv)
				}
				for _, a := range e.Args {
					if why == "" {
						why = l.why(a)
					}
				}
			}
			if why != "" {
				for _, t := range e.Res {
					if t.Op != "nil" && t.Op != "const" {
						l.res[t] = why
					}
				}
			}
		case "genid":
			for _, t := range e.Res {
				l.res[t] = "an id generated by this node"
			}
		case "range":
			if e.Recv != nil && e.Recv.Typ != nil {
				if _, ok := e.Recv.Typ.Underlying().(*types.Map); ok {
					l.ranged = true
				}
			}
		case "recv", "select":
			for _, t := range e.Res {
				l.res[t] = "what arrives on a channel"
			}
		}
	}
}

func (l *localTerms) why(t *eng.Term) string {
	w := ""
	t.Contains(func(x *eng.Term) bool {
		if r, ok := l.res[x]; ok {
			w = r
		}
		switch x.Op {
		case "now":
			w = "this node's clock"
		case "sym":
			if l.ranged && (strings.HasPrefix(x.Aux, "rangekey") || strings.HasPrefix(x.Aux, "rangeval")) {
				w = "the order of a map"
			}
		case "global":
			// a variable of the repository: settled by the reads below
		case "field", "fieldaddr":
			b := x.Args[0].Typ
			if b == nil {
				break
			}
			if p, ok := b.Underlying().(*types.Pointer); ok {
				b = p.Elem()
			}
			n, ok := b.(*types.Named)
			if !ok || n.Obj().Pkg() == nil {
				break
			}
			switch {
			case n.Obj().Pkg().Path() == Mod+"/pkg/config":
				if x.Op == "field" && leafField(x.Typ) {
					w = "this node's configuration (" + x.Aux + ")"
				}
			case n.Obj().Pkg().Path() == raftPkg && n.Obj().Name() == "Log" && x.Aux == "AppendedAt":
				w = "the time this node appended the entry"
			case l.fsm != nil && types.Identical(n, l.fsm) && leafField(x.Typ) && x.Op == "field":
				w = "what this node is called (" + x.Aux + ")"
			}
		}
		return w != ""
	})
	return w
}

// leafField: a value, not an object in which only a part is meant.
func leafField(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

var freshNo = regexp.MustCompile(`#\d+`)

// detRun checks the paths of one function.
type detRun struct {
	r     *Report
	c     *Ctx
	m     *queueModel
	state map[*types.Named]bool
	fsm   *types.Named
	what  string // the construct
	head  func(p *path) []*eng.Term
	known int
}

// effect tells whether an event changes queue state and how it is written.
func (d *detRun) effect(p *path, e *eng.Event) bool {
	switch e.Kind {
	case "q":
		return qmutates(e)
	case "heap":
		return true
	case "mapset", "mapdel", "mapclear":
		return !e.Owned
	case "wr":
		if e.Owned || e.Recv.Op != "fieldaddr" && e.Recv.Op != "idxaddr" {
			return false
		}
		return d.stateful(e.Recv)
	case "call":
		_, _, ok := opOf(e)
		return ok
	case "go":
		return true
	case "close":
		return false
	}
	return false
}

// stateful: the location belongs to an object that holds queue state.
func (d *detRun) stateful(a *eng.Term) bool {
	for a != nil && (a.Op == "fieldaddr" || a.Op == "idxaddr" || a.Op == "field" || a.Op == "index" || a.Op == "sliceof") && len(a.Args) > 0 {
		b := a.Args[0]
		if b.Typ != nil {
			t := b.Typ
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := t.(*types.Named); ok && d.state[n] {
				return true
			}
			if s, ok := t.Underlying().(*types.Slice); ok {
				el := s.Elem()
				if pt, ok := el.Underlying().(*types.Pointer); ok {
					el = pt.Elem()
				}
				if n, ok := el.(*types.Named); ok && d.state[n] {
					return true
				}
			}
		}
		a = b
	}
	return false
}

func (d *detRun) effects(p *path) []*eng.Event {
	committed := map[*eng.Event]bool{}
	for _, e := range p.eff {
		committed[e] = true
	}
	var es []*eng.Event
	for _, e := range p.evs {
		if committed[e] || d.effect(p, e) {
			es = append(es, e)
		}
	}
	return es
}

func (d *detRun) signature(p *path) string {
	var s []string
	for _, e := range d.effects(p) {
		x := e.Kind + " " + e.Role + " " + e.Name
		if e.Callee != nil {
			x += " " + e.Callee.Name()
		}
		for _, a := range e.Args {
			x += " " + a.String()
		}
		if e.Kind == "wr" || e.Kind == "mapset" || e.Kind == "mapdel" {
			x += " @" + e.Recv.String()
		}
		s = append(s, x)
	}
	// what the operation hands up
	if p.o.Exit == eng.Return {
		for _, t := range p.o.Ret {
			if p.err != nil && t == p.err {
				if p.ok {
					s = append(s, "returns no error")
				} else {
					s = append(s, "returns an error")
				}
				continue
			}
			s = append(s, "returns "+t.String())
		}
	}
	return freshNo.ReplaceAllString(strings.Join(s, "; "), "#")
}

// check decides one function's paths.
func (d *detRun) check(ps []*path) {
	r := d.r
	l := &localTerms{c: d.c, res: map[*eng.Term]string{}, fsm: d.fsm}
	for _, p := range ps {
		l.add(p.evs)
		for _, e := range p.evs {
			if e.Kind == "call" && (strings.HasSuffix(e.Name, "badger/v4.Entry).WithTTL") || strings.HasSuffix(e.Name, ".NewTTLEntry")) {
				r.Ob(false, "same-effect-everywhere", d.what+" expiry", p.o, "%s: when the record goes depends on this node's clock", e)
			}
		}
	}
	// values in effects
	for _, p := range ps {
		for _, e := range d.effects(p) {
			if e.Kind == "go" {
				continue
			}
			ok := true
			for i, a := range e.Args {
				why := l.why(a)
				if why == "" {
					continue
				}
				ok = false
				if e.Kind == "q" && e.Role == "inflight" && e.Name == "Enqueue" && i == 2 && deadlineLike(a) {
					r.Ob(false, "same-effect-everywhere", "the redelivery deadline", p.o, "the deadline of a message in flight is computed from this node's clock and configuration: %s", a)
					continue
				}
				r.Ob(false, "same-effect-everywhere", d.what+" "+strings.TrimSpace(e.Role+" "+e.Name+" "+e.Kind)+" from "+why, p.o, "%s depends on %s", e, why)
			}
			if e.Kind == "set" || e.Kind == "del" || e.Kind == "mapset" || e.Kind == "wr" {
				if why := l.why(e.Recv); why != "" && e.Kind != "set" && e.Kind != "del" {
					ok = false
					r.Ob(false, "same-effect-everywhere", d.what+" "+e.Kind+" at "+why, p.o, "%s depends on %s", e, why)
				}
			}
			if ok {
				r.Ob(true, "same-effect-everywhere", d.what, p.o, "")
			}
		}
	}
	// values that decide: equal effects on both sides
	type side map[string]*path
	atoms := map[string][2]side{}
	whys := map[string]string{}
	due := map[string]bool{}
	for _, p := range ps {
		sig := ""
		p.st.FactTerms(func(a *eng.Term, v bool) {
			why := l.why(a)
			if why == "" {
				return
			}
			k := freshNo.ReplaceAllString(a.String(), "#")
			if sig == "" {
				sig = d.signature(p) + "|"
			}
			s := atoms[k]
			if s[0] == nil {
				s = [2]side{{}, {}}
			}
			i := 0
			if v {
				i = 1
			}
			s[i][sig] = p
			atoms[k] = s
			whys[k] = why
			if dueLike(a) {
				due[k] = true
			}
		})
	}
	keys := make([]string, 0, len(atoms))
	for k := range atoms {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		s := atoms[k]
		var diff *path
		var what string
		for i := 0; i < 2; i++ {
			for sig, p := range s[i] {
				if _, ok := s[1-i][sig]; !ok && (what == "" || sig < what) {
					diff, what = p, sig
				}
			}
		}
		if diff == nil {
			r.Ob(true, "same-decision-everywhere", d.what, nil, "")
			continue
		}
		if due[k] {
			r.Ob(false, "same-decision-everywhere", "whether the head is due: "+d.what, diff.o, "whether an entry is taken depends on this node's clock: %s", k)
			d.known++
			continue
		}
		r.Ob(false, "same-decision-everywhere", d.what+" on "+whys[k], diff.o, "what is done depends on %s: only when %s is one way: %s", whys[k], k, what)
	}
	if len(keys) == 0 {
		r.Ob(true, "same-decision-everywhere", d.what, nil, "")
	}
}

// deadlineLike: the time now plus something of the configuration.
func deadlineLike(t *eng.Term) bool {
	t = eng.Unwrap(t)
	if t.Op != "bin" || t.Aux != "+" {
		return false
	}
	a, b := eng.Unwrap(t.Args[0]), eng.Unwrap(t.Args[1])
	if !isUnixNow(a) {
		a, b = b, a
	}
	return isUnixNow(a) && b.Op == "field" && b.Args[0].Op == "field"
}

// dueLike: the time now compared with an entry's priority.
func dueLike(t *eng.Term) bool {
	if t.Op != "bin" || t.Aux != "<" {
		return false
	}
	a, b := strip(t.Args[0]), strip(t.Args[1])
	if !isUnixNow(a) {
		a, b = b, a
	}
	return isUnixNow(a) && (b.Op == "field" && b.Aux == "Priority" || b.Op == "load" || strings.Contains(b.String(), "Priority"))
}

// stateTypes are the struct types that hold queue state.
func (c *Ctx) stateTypes(m *queueModel) map[*types.Named]bool {
	r := map[*types.Named]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch t := t.(type) {
		case *types.Pointer:
			walk(t.Elem())
		case *types.Slice:
			walk(t.Elem())
		case *types.Array:
			walk(t.Elem())
		case *types.Map:
			walk(t.Elem())
		case *types.Named:
			if r[t] || t.Obj().Pkg() == nil || t.Obj().Pkg().Path() != qpkg {
				return
			}
			r[t] = true
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					walk(s.Field(i).Type())
				}
			} else {
				walk(t.Underlying())
			}
		}
	}
	for _, i := range m.impls {
		walk(i)
	}
	walk(m.item)
	walk(m.msg)
	r[m.bpq] = true
	if q := c.Named("pkg/queue", "QueueManager"); q != nil {
		r[q] = true
	}
	return r
}

func ruleR03(c *Ctx, r *Report) {
	nm := newNodeModel(c, r)
	if nm == nil {
		return
	}
	m := newQueueModel(c, r)
	if m == nil {
		return
	}
	d := &detRun{r: r, c: c, m: m, state: c.stateTypes(m), fsm: nm.fsmT}

	// the state machine: which operation, with which values
	st := eng.NewState()
	log := eng.Sym("$log", nm.apply.Params[1].Type())
	fsm := eng.Sym("$fsm", types.NewPointer(nm.fsmT))
	st.Assume(eng.IsNil(fsm), false)
	st.Assume(eng.IsNil(log), false)
	ops := map[*ssa.Function]bool{}
	var aps []*path
	for _, p := range paths(nm.apply, r.run(nm.e, nm.apply, st, fsm, log)) {
		for _, e := range p.evs {
			if _, _, ok := opOf(e); ok {
				ops[e.Callee] = true
			}
			if e.Kind == "go" {
				r.Ob(false, "runs-in-order", "state machine", p.o, "%s: what the command does depends on when the task runs", e)
			}
		}
		// the answer is for the node that proposed the command
		q := *p
		o := *p.o
		o.Ret = nil
		q.o = &o
		aps = append(aps, &q)
	}
	r.Ob(len(aps) > 10, "runs-in-order", "state machine", nil, "only %d paths through the state machine were found", len(aps))
	d.what = "state machine"
	d.check(aps)

	// the operations it runs
	var names []*ssa.Function
	for f := range ops {
		names = append(names, f)
	}
	sort.Slice(names, func(i, j int) bool { return funcName(names[i]) < funcName(names[j]) })
	r.Ob(len(names) >= 8, "operations", "state machine", nil, "only %d queue operations are run by the state machine, 8 are known", len(names))
	// the manager's operations run those of a queue: with their loops, too
	once := map[*ssa.Function]bool{}
	for _, f := range names {
		if o, _, _ := isQueueMethod(f); o != "QueueManager" {
			continue
		}
		once[f] = true
		for _, g := range refs(f) {
			if o, _, ok := isQueueMethod(g); ok && o == "BadgerPriorityQueue" && !ops[g] {
				ops[g] = true
				names = append(names, g)
			}
		}
	}
	monitors := 0
	for _, f := range names {
		e := c.exec(r)
		if once[f] {
			e.Visits = 1
		}
		m.install(e)
		ps := paths(f, r.run(e, f, nil))
		d.what = funcName(f)
		var done []*path
		for _, p := range ps {
			if p.cut {
				continue
			}
			// what an operation on messages returns goes into the answer only
			q := *p
			o := *p.o
			if isErrRet(f) {
				o.Ret = o.Ret[len(o.Ret)-1:]
			}
			q.o = &o
			done = append(done, &q)
			monitors += d.tasks(p)
		}
		r.Ob(len(done) > 0, "operations", d.what, nil, "no path of the operation was decided")
		d.check(done)
	}
	r.Ob(monitors > 0, "changes-only-by-commands", "tasks", nil, "no task started by an operation was found")

	// the in-memory queues
	h := findHeap(c, r)
	if h == nil {
		return
	}
	ms := make([]string, 0, len(qops))
	for n := range qops {
		ms = append(ms, n)
	}
	sort.Strings(ms)
	for _, i := range m.impls {
		tn := i.(*types.Pointer).Elem().(*types.Named).Obj().Name()
		for _, n := range ms {
			if c.Method("pkg/queue", tn, n) == nil {
				r.Anchor(false, tn+"."+n)
				continue
			}
			_, ps := h.pathsOf(r, tn, n)
			d.what = tn + "." + n
			d.check(ps)
		}
	}
	// and the order itself
	for _, f := range c.Methods("pkg/queue", h.t.Obj().Name()) {
		e := c.exec(r)
		var ps []*path
		for _, p := range paths(f, r.run(e, f, nil)) {
			if !p.cut {
				ps = append(ps, p)
			}
		}
		d.what = funcName(f)
		d.check(ps)
	}
	c.onlyStateMachine(r, nm)
}

// tasks checks what the goroutines started by an operation change.
func (d *detRun) tasks(p *path) (n int) {
	for _, g := range p.kind("go") {
		t := d.m.runTask(d.r, p, g, nil)
		if t == nil {
			d.r.Ob(false, "changes-only-by-commands", d.what+" task", p.o, "a task of unknown code is started: %s", g)
			continue
		}
		n++
		before := len(p.evs)
		for i := range t.outs {
			o := &t.outs[i]
			q := &path{o: o, st: o.St, evs: o.St.Events()}
			if len(q.evs) >= before {
				q.evs = q.evs[before:]
			}
			q.effects()
			for _, e := range d.effects(q) {
				if e.Kind == "wr" || e.Kind == "go" {
					if e.Kind == "wr" {
						d.r.Ob(false, "changes-only-by-commands", d.what+" task writes", o, "a background task changes queue state: %s", e)
					}
					continue
				}
				if t.isMonitor() && e.Kind == "q" {
					d.r.Ob(false, "changes-only-by-commands", "background redelivery", o, "messages in flight become ready again by a task of each node, not by a command: %s", e)
					continue
				}
				d.r.Ob(false, "changes-only-by-commands", d.what+" task "+e.Kind+" "+e.Role, o, "a background task changes queue state: %s", e)
			}
			d.r.Ob(true, "changes-only-by-commands", "tasks", o, "")
		}
	}
	return
}
