package rules

func init() {
	register("R04", "Path analysis of error flow through every layer: both APIs with their proxies, the streams, the node operations with log and state machine linked in, the queue operations and the join request; on a path that reports success no call it used failed, on a path that reports failure one did.", 400, ruleR04)
	register("R08", "Path analysis of every handler of both APIs on the service its constructor builds, with the proxies linked in: a changing node operation only after the node said it is the leader, a forward only after it said it is not, to the leader it named, exactly one of the two per success.", 150, ruleR08)
	register("R09", "Symbolic comparison of the request a handler received with the one its proxy sends (method, route, path and query parameters, body decoded back, gRPC message) and of the answer; connections to a former leader are traced through the proxy's kept client.", 200, ruleR09)
	register("A01", "Symbolic comparison of every field of every answer with the operation's result or the request's values, in both APIs, in the node and in the queue manager's list.", 200, ruleA01)
	register("A02", "Path analysis of the stream handlers and of the wake-up of consumers, from the state the gRPC service's constructor leaves.", 60, ruleA02)
	register("A04", "Evaluation of the route registrations the constructor makes (operations, middleware, catch-all, in order), the handlers' inputs, the admin UI's requests and the gRPC service's method set, matched with the frozen table of operations.", 60, ruleA04)
}

func ruleR04(c *Ctx, r *Report) {
	if a := c.httpAPI(r); a != nil {
		for _, x := range a.handlers() {
			x.errorRule(r, 200)
		}
	}
	if g := c.grpcAPI(r); g != nil {
		for _, x := range g.handlers() {
			x.errorRule(r, 0)
		}
		for _, x := range g.streamRuns() {
			r.Only(func() { g.streamRule(r, x, map[string]bool{}) }, "failure-is-reported", "success-is-reported", "stream-ends-on-failure", "stream-goes-on")
		}
		for _, x := range g.subs() {
			x.errorRule(r, 0)
		}
	}
	c.nodeErrors(r)
	if m := newQueueModel(c, r); m != nil {
		m.queueErrors(r)
	}
	r.Only(func() { ruleR11(c, r) }, "failure-is-reported", "acceptance", "members-are-known", "-instances", "-anchor")
}

func ruleR08(c *Ctx, r *Report) {
	c.leaderFacts(r)
	if a := c.httpAPI(r); a != nil {
		for _, x := range a.handlers() {
			x.leaderRule(r)
			a.targetRule(r, x, a.listenPort(0))
		}
	}
	if g := c.grpcAPI(r); g != nil {
		for _, x := range g.handlers() {
			x.leaderRule(r)
			g.targetRule(r, x)
		}
		for _, x := range g.streamRuns() {
			x.leaderRule(r)
			g.streamForwards(r, x)
			g.targetRule(r, x)
		}
		for _, x := range g.subs() {
			x.leaderRule(r)
			g.targetRule(r, x)
		}
	}
}

func ruleR09(c *Ctx, r *Report) {
	c.leaderFacts(r)
	if a := c.httpAPI(r); a != nil {
		port := a.listenPort(0)
		for _, x := range a.handlers() {
			a.targetRule(r, x, port)
			a.forwardRule(r, x, port)
		}
		a.servesForwards(r)
	}
	if g := c.grpcAPI(r); g != nil {
		for _, x := range append(g.handlers(), g.subs()...) {
			g.forwardRule(r, x)
			g.targetRule(r, x)
		}
		for _, x := range append(g.streamRuns(), g.subs()...) {
			g.targetRule(r, x)
		}
	}
}

func ruleA01(c *Ctx, r *Report) {
	if a := c.httpAPI(r); a != nil {
		for _, x := range a.handlers() {
			x.argsRule(r)
			x.answerRule(r)
		}
	}
	if g := c.grpcAPI(r); g != nil {
		for _, x := range g.handlers() {
			x.argsRule(r)
			x.answerRule(r)
		}
		for _, x := range g.subs() {
			x.argsRule(r)
			x.answerRule(r)
		}
		for _, x := range g.streamRuns() {
			r.Only(func() { g.streamRule(r, x, map[string]bool{}) }, "right-arguments", "stream-answers", "stream-sends")
		}
	}
	c.nodeAnswers(r)
	if m := newQueueModel(c, r); m != nil {
		m.listOfQueues(r)
		m.statsRule(r, m.opCounters(r), m.windowRule(r))
	}
}

func (g *grpcAPI) streamRule(r *Report, x *apiRun, reg map[string]bool) bool {
	switch x.name {
	case "EnqueueStream":
		g.enqueueStream(r, x)
	case "DequeueStream":
		g.dequeueStream(r, x, reg)
	default:
		return false
	}
	return true
}

func ruleA02(c *Ctx, r *Report) {
	g := c.grpcAPI(r)
	if g == nil {
		return
	}
	reg := map[string]bool{}
	n := 0
	for _, x := range g.streamRuns() {
		if g.streamRule(r, x, reg) {
			n++
		}
	}
	r.Anchor(n == 2, "the EnqueueStream and DequeueStream handlers")
	for _, x := range append(g.handlers(), g.subs()...) {
		if x.rpc == "Enqueue" {
			g.broadcastRule(r, x, reg)
		}
	}
}

func ruleA04(c *Ctx, r *Report) {
	if a := c.httpAPI(r); a != nil {
		a.routesRule(r)
		for _, x := range a.handlers() {
			x.argsRule(r)
		}
	}
	if g := c.grpcAPI(r); g != nil {
		g.methodsRule(r)
		for _, x := range g.handlers() {
			x.argsRule(r)
		}
	}
}

// apiArgs: what the APIs hand to the node is the request's own, and it is
// handed over once.
func (c *Ctx) apiArgs(r *Report) {
	if a := c.httpAPI(r); a != nil {
		for _, x := range a.handlers() {
			x.argsRule(r)
			x.onceRule(r)
		}
	}
	if g := c.grpcAPI(r); g != nil {
		for _, x := range append(g.handlers(), g.subs()...) {
			x.argsRule(r)
			x.onceRule(r)
		}
		for _, x := range g.streamRuns() {
			r.Only(func() { g.streamRule(r, x, map[string]bool{}) }, "right-operation", "right-arguments")
		}
	}
}

// onceRule: one request is handed to the node, here or elsewhere, at most once.
func (x *apiRun) onceRule(r *Report) {
	for _, p := range x.ps {
		r.Ob(len(p.ops)+len(p.fwd) <= 1, "one-request-one-operation", x.api+" "+x.name, p.o, "one request is executed %d times and forwarded %d times", len(p.ops), len(p.fwd))
	}
}

// apiIDs (R10): the client is told the id the node returned.
func (c *Ctx) apiIDs(r *Report) {
	if a := c.httpAPI(r); a != nil {
		for _, x := range a.handlers() {
			if x.op != nil && x.op.node == "Enqueue" {
				x.answerRule(r, "id")
			}
		}
	}
	if g := c.grpcAPI(r); g != nil {
		for _, x := range append(g.handlers(), g.subs()...) {
			if x.rpc == "Enqueue" {
				x.answerRule(r, "id")
			}
		}
		for _, x := range g.streamRuns() {
			if x.name == "EnqueueStream" {
				r.Only(func() { g.enqueueStream(r, x) }, "stream-answers")
			}
		}
	}
}
