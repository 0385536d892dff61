package rules

import (
	"fmt"
	"go/types"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// isSub: a method of the service object itself with the shape of a unary call.
// The stream rules take it as one step; the unary rules decide its body.
func (g *grpcAPI) isSub(fn *ssa.Function) bool {
	if fn == nil || fn.Signature.Recv() == nil || !types.Identical(fn.Signature.Recv().Type(), g.server.Typ) {
		return false
	}
	res := fn.Signature.Results()
	if res.Len() != 2 || !eng.IsErrorType(res.At(1).Type()) {
		return false
	}
	if !isProtoPtr(res.At(0).Type(), "Response") {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if isProtoPtr(fn.Signature.Params().At(i).Type(), "Request") {
			return true
		}
	}
	return false
}

func isProtoPtr(t types.Type, suffix string) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == protoPkg && strings.HasSuffix(n.Obj().Name(), suffix)
}

// sends: the function offers something on a channel.
func sends(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Select); ok {
				for _, st := range s.States {
					if st.Dir == types.SendOnly {
						return true
					}
				}
			}
			if _, ok := in.(*ssa.Send); ok {
				return true
			}
		}
	}
	return false
}

// subs: the unary-shaped methods the streams use, each analysed like a unary
// method of the same operation.
func (g *grpcAPI) subs() []*apiRun {
	g.streamRuns()
	return g.helpers
}

func (g *grpcAPI) streamMode() {
	g.e.Opaque = func(name string, fn *ssa.Function) bool {
		if fn == nil || !g.c.InRepo(fn) {
			return false
		}
		if g.isSub(fn) {
			g.used[fn] = true
			return true
		}
		return fn.Signature.Results().Len() == 0 && fn.Signature.Recv() != nil && len(fn.Params) > 1 && sends(fn)
	}
}

// take is one message asked for or accepted within a stream.
type take struct {
	e    *eng.Event
	op   *apiOp
	kind string // op, sub, forward
	in   *eng.Event
}

func (g *grpcAPI) takeOf(e *eng.Event) *take {
	if e.Kind != "call" {
		return nil
	}
	if isClientIface(e.Name) {
		if o := apiOpOf(func(o *apiOp) bool { return o.rpc == last(e.Name) }); o != nil {
			return &take{e: e, op: o, kind: "forward"}
		}
		return nil
	}
	if e.Callee != nil && g.isSub(e.Callee) {
		res := types.TypeString(e.Callee.Signature.Results().At(0).Type(), nil)
		res = strings.TrimSuffix(res[strings.LastIndex(res, ".")+1:], "Response")
		if o := apiOpOf(func(o *apiOp) bool { return o.rpc == res }); o != nil {
			return &take{e: e, op: o, kind: "sub"}
		}
		return nil
	}
	if m := g.c.nodeMethod(e); isNodeOpName(m) {
		if o := apiOpOf(func(o *apiOp) bool { return o.node == m }); o.change {
			return &take{e: e, op: o, kind: "op"}
		}
	}
	return nil
}

// request: the take is for exactly the request given.
func (t *take) request(in *eng.Term, inT types.Type) bool {
	switch t.kind {
	case "op":
		if len(t.e.Args) != len(t.op.rpcArgs) {
			return false
		}
		for i, w := range t.op.rpcArgs {
			if wireName(t.e.Args[i], in, inT) != w {
				return false
			}
		}
		return true
	}
	for _, a := range t.e.Args {
		if strip(a) == in {
			return true
		}
	}
	return false
}

func isStreamCall(e *eng.Event, name string) bool {
	return e.Kind == "call" && e.Callee == nil && last(e.Name) == name && (strings.Contains(e.Name, protoPkg+".DOQ_") || strings.Contains(e.Name, grpcPkg+".") && strings.Contains(e.Name, "Stream"))
}

// message: what is sent is what was taken.
func (g *grpcAPI) message(p *apiPath, t *take, sent *eng.Term, in *eng.Term, inT types.Type) (bool, string) {
	u := strip(sent)
	if t.kind != "op" {
		if u == strip(t.e.Res[0]) {
			return true, ""
		}
	}
	v := p.st.Value(u)
	if v == nil || v.Op != "struct" {
		return false, fmt.Sprint(sent)
	}
	x := &apiRun{inT: inT}
	q := *p
	q.in = in
	for name, f := range outFields(v, v.Typ) {
		src := t.op.rpcOuts[name]
		if t.kind != "op" && name != "success" {
			if b, ch := fieldChain(f); b == strip(t.e.Res[0]) && len(ch) == 1 && strings.EqualFold(ch[0], name) {
				continue
			}
			return false, name
		}
		if !x.fromSource(&q, f, src, t.e.Res[0]) {
			return false, name + " is " + f.String()
		}
	}
	return true, ""
}

// enqueueStream (A02, R04): one answer per accepted request, in order.
func (g *grpcAPI) enqueueStream(r *Report, x *apiRun) {
	cons := "gRPC " + x.name
	took, sent, eofs := 0, 0, 0
	for _, p := range x.ps {
		var cur *eng.Event
		var pend *take
		var dead string
		var inT types.Type
		for _, e := range p.evs {
			t := g.takeOf(e)
			if isStreamCall(e, "Recv") || t != nil || isStreamCall(e, "Send") {
				r.Ob(dead == "", "stream-ends-on-failure", cons, p.o, "the stream goes on after %s", dead)
			}
			switch {
			case isStreamCall(e, "Recv"):
				r.Ob(pend == nil, "stream-answers", cons, p.o, "the next request is read before the accepted one is answered")
				cur = e
				if e.Failed {
					dead = "a failed receive"
				} else {
					inT = e.Res[0].Typ
				}
			case t != nil:
				took++
				r.Ob(t.op.rpc == "Enqueue", "right-operation", cons, p.o, "the request is executed as %s", last(e.Name))
				ok := cur != nil && !cur.Failed && t.request(strip(cur.Res[0]), inT)
				r.Ob(ok, "right-arguments", cons, p.o, "%s is not called with the values of the request just received", last(e.Name))
				cur2 := cur
				cur = nil
				if e.Failed {
					dead = "a failed enqueue"
				} else {
					pend = t
				}
				if pend != nil {
					pend.in = cur2
				}
			case isStreamCall(e, "Send"):
				sent++
				if !r.Ob(pend != nil, "stream-answers", cons, p.o, "an answer is sent although no message was accepted") {
					break
				}
				var in *eng.Term
				if pend.in != nil {
					in = strip(pend.in.Res[0])
				}
				ok, what := g.message(p, pend, e.Args[0], in, inT)
				r.Ob(ok, "stream-answers", cons+" values", p.o, "the answer does not have the values of the accepted message: %s", what)
				pend = nil
				if e.Failed {
					dead = "a failed send"
				}
			}
		}
		if p.cut {
			continue
		}
		r.Ob(pend == nil, "stream-answers", cons, p.o, "the stream ends without the answer for an accepted message")
		if dead == "a failed receive" {
			var rc *eng.Event
			for _, e := range p.evs {
				if isStreamCall(e, "Recv") {
					rc = e
				}
			}
			err := rc.Res[len(rc.Res)-1]
			if p.st.Known(eng.Eq(err, eng.Sentinel("io.EOF")), true) {
				eofs++
				r.Ob(p.ok, "success-is-reported", cons, p.o, "the end of the client's requests is reported as a failure")
			} else {
				r.Ob(!p.ok, "failure-is-reported", cons, p.o, "the stream ends as a success although a request could not be received")
			}
		} else {
			r.Ob(dead != "" && !p.ok, "failure-is-reported", cons, p.o, "the stream ends with success %t after %q", p.ok, dead)
		}
	}
	r.Ob(took > 0 && sent > 0 && eofs > 0, "instances", cons, nil, "the stream takes %d, sends %d and ends %d times", took, sent, eofs)
}

// maxWait is the longest a consumer may wait for a message that is there.
const maxWait = 5

// dequeueStream (A02).
func (g *grpcAPI) dequeueStream(r *Report, x *apiRun, reg map[string]bool) {
	cons := "gRPC " + x.name
	took, sent, ends, waits := 0, 0, 0, 0
	for _, p := range x.ps {
		var pend *take
		var dead string
		var sel *eng.Event
		tookSince := 0
		var regs []*eng.Event
		for _, e := range p.evs {
			if e.Kind == "mapset" && len(e.Args) > 1 && (e.Args[1].Op == "makechan" || strip(e.Args[1]).Op == "makechan") {
				regs = append(regs, e)
			}
		}
		for i, e := range p.evs {
			t := g.takeOf(e)
			switch {
			case t != nil:
				r.Ob(dead == "", "stream-ends-on-failure", cons, p.o, "another message is dequeued after %s", dead)
				r.Ob(pend == nil, "stream-sends", cons, p.o, "another message is dequeued before the one dequeued is sent")
				took++
				tookSince++
				r.Ob(t.op.rpc == "Dequeue", "right-operation", cons, p.o, "the stream executes %s", last(e.Name))
				r.Ob(t.request(p.in, x.inT), "right-arguments", cons, p.o, "%s is not called with the queue and acknowledgement mode of the request", last(e.Name))
				if !e.Failed {
					pend = t
				}
			case isStreamCall(e, "Send"):
				sent++
				if !r.Ob(pend != nil, "stream-sends", cons, p.o, "a message is sent that was not dequeued or was sent before") {
					break
				}
				ok, what := g.message(p, pend, e.Args[0], p.in, x.inT)
				r.Ob(ok, "stream-sends", cons+" values", p.o, "what is sent is not the message dequeued: %s", what)
				pend = nil
				if e.Failed {
					dead = "a failed send"
				}
			case e.Kind == "select":
				r.Ob(pend == nil, "stream-sends", cons, p.o, "the stream waits before it sends the message dequeued")
				r.Ob(dead == "", "stream-ends-on-failure", cons, p.o, "the stream goes on after %s", dead)
				if sel != nil && tookSince == 0 {
					r.Ob(false, "stream-looks", cons, p.o, "the stream is woken and does not look for a message")
				}
				sel, tookSince = nil, 0
				if len(e.Args) == 0 {
					break
				}
				waits++
				done, wake, tick := false, false, false
				for _, ch := range e.Args {
					if g.isDone(ch) {
						done = true
					}
					if sec := g.period(p, e, ch); sec > 0 && sec <= maxWait {
						tick = true
					}
					for _, m := range regs {
						if strip(m.Args[1]) == strip(ch) && m.Seq < e.Seq {
							wake = true
						}
					}
				}
				r.Ob(done, "stream-ends", cons, p.o, "while it waits the stream does not notice that the consumer is gone")
				r.Ob(wake, "stream-wakes", cons, p.o, "the stream does not wait on the channel it registered")
				r.Ob(tick, "stream-looks", cons, p.o, "the stream does not wake on its own at least every %d seconds", maxWait)
				// what this path waited for
				for _, f := range p.evs[i+1:] {
					if f.Kind == "recv" && f.Name == "select" {
						if g.isDone(f.Recv) {
							dead = "the consumer is gone"
						} else {
							sel = e
						}
						break
					}
					if f.Kind == "select" {
						break
					}
				}
			}
		}
		for _, m := range regs {
			_, key := p.mapPath(m.Recv)
			n := ""
			if len(key) > 0 {
				n = wireName(key[0], p.in, x.inT)
			}
			r.Ob(n == "queueName", "stream-registers", cons, p.o, "the consumer is registered for %v, not for the queue of its request", m.Recv)
			root, _ := p.mapPath(m.Recv)
			reg[root] = true
		}
		for _, e := range p.evs {
			switch {
			case e.Kind == "mapset" && len(e.Args) > 1 && strip(e.Args[1]).Op == "makemap":
				if root, _ := p.mapPath(e.Recv); reg[root] {
					had, known := p.st.MapHad(strip(e.Recv), e.Args[0])
					r.Ob(known && !had, "stream-registers", cons+" others", p.o, "the queue's other consumers are dropped by the registration")
				}
			case e.Kind == "mapdel":
				if root, keys := p.mapPath(e.Recv); reg[root] && len(keys) == 0 {
					empty := false
					p.st.FactTerms(func(a *eng.Term, v bool) {
						if a.Contains(func(t *eng.Term) bool { return t.Op == "call" && t.Aux == "len" || t.Op == "maplen" || t.Op == "len" }) {
							empty = true
						}
					})
					r.Ob(empty, "stream-unregisters", cons+" others", p.o, "all consumers of the queue are dropped when one leaves")
				}
			}
		}
		if p.cut {
			continue
		}
		ends++
		r.Ob(len(regs) == 1, "stream-registers", cons, p.o, "the consumer is registered %d times", len(regs))
		r.Ob(pend == nil, "stream-sends", cons, p.o, "the stream ends without sending the message dequeued")
		if p.ok {
			r.Ob(dead == "the consumer is gone", "failure-is-reported", cons, p.o, "the stream ends as a success after %q", dead)
		} else {
			r.Ob(dead == "a failed send" || dead == "the consumer is gone", "stream-goes-on", cons, p.o, "the stream ends although neither the consumer left nor a send failed")
		}
		for _, m := range regs {
			un := false
			for _, e := range p.evs {
				if e.Kind == "mapdel" && e.Seq > m.Seq && strip(e.Args[0]) == strip(m.Args[0]) && p.sameMap(e.Recv, m.Recv) {
					un = true
				}
			}
			r.Ob(un, "stream-unregisters", cons, p.o, "the stream ends and its consumer stays registered")
		}
		for _, e := range p.evs {
			if e.Kind == "call" && e.Name == "time.NewTicker" {
				st := false
				for _, f := range p.evs {
					if f.Kind == "call" && f.Name == "(*time.Ticker).Stop" && f.Recv == e.Res[0] && f.Seq > e.Seq {
						st = true
					}
				}
				r.Ob(st, "stream-releases", cons, p.o, "the stream ends and its ticker runs on")
			}
		}
	}
	r.Ob(took > 0 && sent > 0 && ends > 0 && waits > 0, "instances", cons, nil, "the stream waits %d, dequeues %d, sends %d and ends %d times", waits, took, sent, ends)
}

// mapPath splits a map of maps into the outermost map and the keys.
func (p *path) mapPath(m *eng.Term) (string, []*eng.Term) {
	var keys []*eng.Term
	m = strip(m)
	for {
		if m.Op == "mapget" || m.Op == "mapelem" {
			keys = append([]*eng.Term{m.Args[1]}, keys...)
			m = strip(m.Args[0])
			continue
		}
		// a map made on this path: where it was put
		if m.Op == "makemap" {
			var in *eng.Event
			for _, e := range p.evs {
				if e.Kind == "mapset" && len(e.Args) > 1 && strip(e.Args[1]) == m {
					in = e
				}
			}
			if in != nil {
				keys = append([]*eng.Term{in.Args[0]}, keys...)
				m = strip(in.Recv)
				continue
			}
			// a copy of another map
			if src := p.copyOf(m); src != nil {
				m = strip(src)
				continue
			}
		}
		break
	}
	_, ch := fieldChain(m)
	if m.Op == "makemap" {
		return "", keys
	}
	return strings.Join(ch, "."), keys
}

// copyOf is the map whose entries were put into a map made on the path.
func (p *path) copyOf(m *eng.Term) *eng.Term {
	var src *eng.Term
	for _, e := range p.evs {
		if e.Kind != "mapset" || strip(e.Recv) != m || len(e.Args) < 2 {
			continue
		}
		v := strip(e.Args[1])
		if v.Op != "rangeval" || strip(e.Args[0]) != strip(v.Args[1]) || src != nil && src != v.Args[0] {
			return nil
		}
		src = v.Args[0]
	}
	return src
}

// fromMap is the map that a value was taken from, also by way of a slice that
// its values were copied to.
func (g *grpcAPI) fromMap(p *path, v *eng.Term) *eng.Term {
	v = strip(v)
	switch v.Op {
	case "rangeval", "mapget":
		return v.Args[0]
	case "index", "rangeelem":
		var src *eng.Term
		for _, el := range g.elements(p, v.Args[0]) {
			el = strip(el)
			if el.Op != "rangeval" || src != nil && src != el.Args[0] {
				return nil
			}
			src = el.Args[0]
		}
		return src
	}
	return nil
}

// elements are the values that were put into a slice made on the path.
func (g *grpcAPI) elements(p *path, s *eng.Term) []*eng.Term {
	if s = strip(s); s.Op == "append" && s.Aux != "spread" {
		return append(g.elements(p, s.Args[0]), s.Args[1:]...)
	}
	els, _ := g.e.SliceElems(p.st, s)
	return els
}

func (p *path) sameMap(a, b *eng.Term) bool {
	if strip(a) == strip(b) {
		return true
	}
	ra, ka := p.mapPath(a)
	rb, kb := p.mapPath(b)
	if ra != rb || ra == "" || len(ka) != len(kb) {
		return false
	}
	for i := range ka {
		if strip(ka[i]) != strip(kb[i]) {
			return false
		}
	}
	return true
}

// isDone: a channel that closes when the request's context ends.
func (g *grpcAPI) isDone(ch *eng.Term) bool {
	return strip(ch).Op == "res" && strings.Contains(strip(ch).Aux, "(context.Context).Done")
}

// period of a channel in seconds: of a ticker or of a timer that was armed
// since the channel was last used.
func (g *grpcAPI) period(p *apiPath, at *eng.Event, ch *eng.Term) int64 {
	sec := func(d *eng.Term) int64 {
		if n, ok := strip(d).IntVal(); ok && n > 0 {
			return (n + 999_999_999) / 1_000_000_000
		}
		return 0
	}
	var t timers
	for _, e := range p.evs {
		if e.Seq < at.Seq {
			t.step(p.st, e)
		}
	}
	if t.dead[eng.Unbox(ch)] {
		return 0
	}
	if d, ok := eng.Period(p.st, ch); ok {
		return sec(d)
	}
	base, chain := fieldChain(ch)
	if len(chain) != 1 || chain[0] != "C" {
		return 0
	}
	var s int64
	for _, e := range p.evs {
		if e.Seq < at.Seq && e.Kind == "call" && e.Name == "(*time.Timer).Reset" && strip(e.Recv) == base {
			s = sec(e.Args[0])
		}
	}
	return s
}

// broadcastRule (A02): an enqueue wakes the consumers of its queue and waits
// for none of them without limit.
func (g *grpcAPI) broadcastRule(r *Report, x *apiRun, reg map[string]bool) {
	cons := "gRPC " + x.name
	woke := 0
	for _, p := range x.ps {
		for _, e := range p.evs {
			if e.Kind == "mapdel" {
				root, _ := p.mapPath(e.Recv)
				r.Ob(!reg[root], "wake-keeps-consumers", cons, p.o, "an enqueue unregisters a consumer, which is not woken by the next")
			}
			var chs []*eng.Term
			switch {
			case e.Kind == "send" && e.Name != "select":
				r.Ob(false, "wake-bounded", cons, p.o, "an enqueue waits without limit until %s is received from", e.Recv)
				chs = []*eng.Term{e.Recv}
			case e.Kind == "send":
				chs = []*eng.Term{e.Recv}
			case e.Kind == "select" && e.Name == "blocking" && len(e.Args) > 0:
				ok := false
				for _, ch := range e.Args {
					if s := g.period(p, e, ch); s > 0 && s <= 10 {
						ok = true
					}
				}
				r.Ob(ok, "wake-bounded", cons, p.o, "an enqueue waits for a consumer without a limit of a few seconds")
			}
			for _, ch := range chs {
				if m := g.fromMap(p.path, ch); m != nil {
					root, keys := p.mapPath(m)
					n := ""
					if len(keys) > 0 {
						n = wireName(keys[0], p.in, x.inT)
					}
					r.Ob(n == "queueName", "wake-own-queue", cons, p.o, "an enqueue wakes the consumers in %s, not those of its own queue", m)
					r.Ob(reg[root], "wake-own-queue", cons+" registry", p.o, "an enqueue wakes what is in %s, consumers register elsewhere", root)
					woke++
				}
			}
		}
		// nothing is woken for an enqueue that failed; a success looks for consumers
		if !p.cut && p.ok && len(p.fwd) == 0 && len(p.ops) > 0 {
			looked := false
			for _, e := range p.evs {
				if (e.Kind == "mapget" || e.Kind == "range") && e.Seq > p.ops[0].Seq {
					root, keys := p.mapPath(e.Recv)
					if len(e.Args) > 0 && e.Kind == "mapget" {
						keys = append(keys, e.Args[0])
					}
					if reg[root] && len(keys) > 0 && wireName(keys[0], p.in, x.inT) == "queueName" {
						looked = true
					}
				}
			}
			r.Ob(looked, "wake", cons, p.o, "a message is accepted and no waiting consumer of its queue is woken")
		}
	}
	r.Ob(woke > 0, "wake", cons, nil, "an enqueue wakes no consumer")
}

// streamForwards (R08): the requests of a stream can reach the leader from a
// node that is not.
func (g *grpcAPI) streamForwards(r *Report, x *apiRun) {
	fwd := 0
	for _, p := range x.ps {
		for _, e := range p.evs {
			if t := g.takeOf(e); t != nil && t.kind != "op" {
				fwd++
			}
		}
	}
	r.Ob(fwd > 0, "follower-forwards", "gRPC "+x.name+" can succeed", nil, "no path on which a follower forwards the requests of the stream")
}
