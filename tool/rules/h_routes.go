package rules

import (
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"doqcheck/eng"
)

// routesRule (A04): the routes of the HTTP API.
func (a *httpAPI) routesRule(r *Report) {
	for ci, p := range a.ctors {
		rs := a.routes[ci]
		// every operation under its own route
		for i := range apiOps {
			o := &apiOps[i]
			n := 0
			for _, rt := range rs {
				if rt.method == o.method && rt.path == o.path {
					n++
				}
			}
			r.Ob(n == 1, "served-once", "HTTP "+o.node, p.o, "%s %s is registered %d times", o.method, o.path, n)
		}
		// no route hides another
		for i, x := range rs {
			r.ObAt(x.method != "" && x.path != "", "route-is-known", "HTTP route", x.ev.Pos, "a route has a method or path that is not a constant")
			for _, y := range rs[:i] {
				r.ObAt(!overlap(x, y), "routes-distinct", "HTTP "+x.method+" "+x.path, x.ev.Pos, "the route can match the same request as %s %s, which is registered first", y.method, y.path)
				r.ObAt(x.opID == "" || x.opID != y.opID, "routes-distinct", "HTTP operation "+x.opID, x.ev.Pos, "two routes have the same operation id")
			}
			// the handler reads the parameters the path has
			t := eng.Unbox(x.handler)
			if t.Fn == nil || t.Fn.Signature.Params().Len() != 2 {
				continue
			}
			inT := t.Fn.Signature.Params().At(1).Type()
			want, got := map[string]bool{}, map[string]bool{}
			for _, s := range strings.Split(x.path, "/") {
				if strings.HasPrefix(s, ":") {
					want[s[1:]] = true
				}
			}
			for _, f := range wireFields(inT) {
				if n, ok := strings.CutPrefix(f, "path:"); ok {
					got[n] = true
				}
			}
			r.ObAt(strings.Join(sortedKeys(want), ",") == strings.Join(sortedKeys(got), ","), "path-parameters", "HTTP "+x.method+" "+x.path, x.ev.Pos, "the path has the parameters %v, the handler reads %v", sortedKeys(want), sortedKeys(got))
		}
		a.middleware(r, p, rs)
	}
	a.adminUI(r)
	port := a.listenPort(0)
	r.Ob(port != nil, "listens", "HTTP service", nil, "Start does not listen on the configured port")
}

func overlap(x, y *route) bool {
	if x.method != y.method {
		return false
	}
	a, b := strings.Split(x.path, "/"), strings.Split(y.path, "/")
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasPrefix(a[i], ":") && !strings.HasPrefix(b[i], ":") {
			return false
		}
	}
	return true
}

// middleware: requests pass recover before any handler, and nothing registered
// before the routes takes their requests.
func (a *httpAPI) middleware(r *Report, p *path, rs []*route) {
	if len(rs) == 0 {
		return
	}
	var rec []*eng.Term
	first, lastSeq := rs[0].ev.Seq, rs[0].ev.Seq
	for _, rt := range rs {
		if rt.ev.Seq < first {
			first = rt.ev.Seq
		}
		if rt.ev.Seq > lastSeq {
			lastSeq = rt.ev.Seq
		}
	}
	used := false
	for _, e := range p.evs {
		if e.Kind != "call" {
			continue
		}
		if e.Name == fiberPkg+"/middleware/recover.New" && len(e.Res) == 1 {
			plain := true
			for _, arg := range e.Args {
				if nx := eng.Field(strip(arg), "Next", nil); nx.Op != "nil" {
					plain = false
				}
			}
			if plain {
				rec = append(rec, e.Res[0])
			}
		}
		if !strings.Contains(e.Name, fiberPkg+".") {
			continue
		}
		m := last(e.Name)
		switch m {
		case "Use":
			pat := ""
			for _, arg := range e.Args {
				u := strip(arg)
				if s, ok := u.StrVal(); ok {
					pat = s
				}
				for _, t := range rec {
					if (u == t || strip(t) == u) && pat == "" && e.Seq < first {
						used = true
					}
				}
			}
		case "Get", "Post", "Put", "Delete", "Patch", "Head", "All", "Add", "Static":
			if len(e.Args) == 0 || e.Seq > lastSeq {
				continue
			}
			meth := strings.ToUpper(m)
			arg := e.Args[0]
			if m == "Add" {
				meth, _ = strip(arg).StrVal()
				arg = e.Args[1]
			}
			pat, ok := strip(arg).StrVal()
			hides := ""
			for _, rt := range rs {
				if rt.ev.Seq < e.Seq {
					continue
				}
				if (meth == rt.method || meth == "ALL" || meth == "STATIC") && (!ok || fiberMatch(pat, rt.path, meth == "STATIC")) {
					hides = rt.method + " " + rt.path
				}
			}
			r.ObAt(hides == "", "routes-distinct", "HTTP pattern "+pat, e.Pos, "the pattern %q is registered before %s and takes its requests", pat, hides)
		}
	}
	r.Ob(used, "recovery", "HTTP middleware", p.o, "the recovery middleware is not in place before the first route: a panic in a handler ends the process")
}

func fiberMatch(pat, path string, prefix bool) bool {
	if i := strings.IndexAny(pat, "*+"); i >= 0 {
		return strings.HasPrefix(path, pat[:i]) || strings.HasPrefix(path+"/", pat[:i])
	}
	if prefix {
		return strings.HasPrefix(path, strings.TrimSuffix(pat, "/"))
	}
	return overlap(&route{path: pat}, &route{path: path})
}

var (
	fetchRe  = regexp.MustCompile("(?s)\\bfetch\\(\\s*([\"'`])(.*?)([\"'`])\\s*(,\\s*\\{(.*?)\\}\\s*,?\\s*)?\\)")
	methodRe = regexp.MustCompile(`method\s*:\s*["'` + "`" + `]([A-Za-z]+)["'` + "`" + `]`)
	holeRe   = regexp.MustCompile(`\$\{[^}]*\}`)
)

// adminUI: every request of the admin UI goes to a route.
func (a *httpAPI) adminUI(r *Report) {
	root := filepath.Join(a.c.Repo, "admin_ui", "src")
	n := 0
	var files []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		switch filepath.Ext(p) {
		case ".ts", ".tsx", ".js", ".jsx":
			if !strings.Contains(p, ".test.") && !strings.Contains(p, ".spec.") {
				files = append(files, p)
			}
		}
		return nil
	})
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		src := string(b)
		for _, m := range fetchRe.FindAllStringSubmatchIndex(src, -1) {
			url := src[m[4]:m[5]]
			if !strings.HasPrefix(url, "/") {
				continue
			}
			// the call's own options follow up to the end of the statement
			rest := src[m[5]:]
			if i := strings.Index(rest, ";"); i >= 0 {
				rest = rest[:i]
			}
			meth := "GET"
			if mm := methodRe.FindStringSubmatch(rest); mm != nil {
				meth = strings.ToUpper(mm[1])
			}
			n++
			u, q, _ := strings.Cut(url, "?")
			u = holeRe.ReplaceAllString(u, ":x")
			var hit *route
			for _, rt := range a.routes[0] {
				if rt.method == meth && matches(rt.path, u) {
					hit = rt
				}
			}
			rel, _ := filepath.Rel(a.c.Repo, f)
			cons := rel + " " + meth + " " + url
			if !r.Ob(hit != nil, "ui-route-exists", cons, nil, "the admin UI requests %s %s, which is not a route", meth, url) {
				continue
			}
			t := eng.Unbox(hit.handler)
			have := map[string]bool{}
			if t.Fn != nil && t.Fn.Signature.Params().Len() == 2 {
				for _, w := range wireFields(t.Fn.Signature.Params().At(1).Type()) {
					have[w] = true
				}
			}
			if q != "" {
				for _, kv := range strings.Split(q, "&") {
					k, _, _ := strings.Cut(kv, "=")
					r.Ob(have["query:"+k], "ui-route-exists", cons+" "+k, nil, "the admin UI sends the query parameter %s, which the route does not read", k)
				}
			}
		}
	}
	r.Ob(n >= 7, "ui-route-exists", "admin UI", nil, "only %d requests of the admin UI were found, 7 are known", n)
}

// matches: a requested path (with :x for holes) is served by a route's path.
func matches(pattern, u string) bool {
	a, b := strings.Split(pattern, "/"), strings.Split(u, "/")
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if strings.HasPrefix(a[i], ":") {
			if b[i] == "" {
				return false
			}
			continue
		}
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ types.Type
