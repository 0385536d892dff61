package rules

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// Rule decides one property.
type Rule struct {
	ID   string
	Note string // what is decided, for the evidence
	Min  int    // obligations confirmed by hand; fewer means the rule went blind
	Run  func(c *Ctx, r *Report)
}

var table = map[string]*Rule{}

func register(id, note string, min int, run func(c *Ctx, r *Report)) {
	table[id] = &Rule{ID: id, Note: note, Min: min, Run: run}
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Main is the command line.
func Main(args []string) int {
	repo := env("DOQ_REPO", "/repo")
	verif := env("DOQ_VERIF", "/verif")
	switch args[0] {
	case "list":
		var ids []string
		for id := range table {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return 0
	case "dump":
		return dump(repo, args[1], args[2])
	case "check":
		rc := 0
		ids := args[1:]
		if len(ids) == 1 && ids[0] == "all" {
			ids = nil
			for id := range table {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		for _, id := range ids {
			if x := check(repo, verif, id); x != 0 {
				rc = x
			}
		}
		return rc
	}
	return 2
}

var loaded = map[string]*Ctx{}

func load(repo string) (*Ctx, error) {
	if c, ok := loaded[repo]; ok {
		return c, nil
	}
	c, err := Load(repo)
	if err == nil {
		loaded[repo] = c
	}
	return c, err
}

func check(repo, verif, id string) int {
	start := time.Now()
	rule := table[id]
	r := NewReport(nil, id)
	r.Verif = verif
	tier := env("VERIF_TIER", "quick")
	if rule == nil {
		fmt.Printf("no rule for %s\n", id)
		return 2
	}
	c, err := load(repo)
	if err != nil {
		r.Viol = append(r.Viol, Violation{Prop: id, Rule: "load", Construct: "repository", Detail: "the repository does not load: " + err.Error()})
	} else {
		c.Tier = tier
		if eng.Deeper = 0; tier == "thorough" {
			eng.Deeper = 1
		}
		r.C = c
		func() {
			defer func() {
				if x := recover(); x != nil {
					r.Viol = append(r.Viol, Violation{Prop: id, Rule: "undecided", Construct: "analysis", Detail: fmt.Sprintf("the analysis failed: %v\n%s", x, debug.Stack())})
				}
			}()
			rule.Run(c, r)
		}()
		if r.Obligations < rule.Min {
			r.Viol = append(r.Viol, Violation{Prop: id, Rule: "instances", Construct: "obligations", Detail: fmt.Sprintf("only %d obligations were found, at least %d were confirmed by hand: the rule no longer sees what it is about", r.Obligations, rule.Min)})
		}
	}
	known, err := LoadFindings(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		fmt.Println("known findings:", err)
	}
	kf := map[string]Finding{}
	for _, f := range known {
		if f.Property == id {
			kf[f.Key] = f
		}
	}
	var left []Violation
	hit := map[string]bool{}
	for _, v := range r.Viol {
		if f, ok := kf[v.Key()]; ok {
			if !hit[v.Key()] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
				hit[v.Key()] = true
			}
			continue
		}
		left = append(left, v)
	}
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	var fns []string
	for f := range r.Funcs {
		fns = append(fns, strings.ReplaceAll(f, Mod+"/", ""))
	}
	sort.Strings(fns)
	samples := r.Samples
	sort.Strings(samples)
	rules := []string{}
	for k, n := range r.Rules {
		rules = append(rules, fmt.Sprintf("%s: %d", k, n))
	}
	sort.Strings(rules)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation": rule.Note,
			"obligations": r.Obligations, "discharged": r.Discharged,
			"paths_analysed": r.Paths, "instructions_interpreted": r.Steps,
			"functions_analysed": fns, "rules_applied": rules, "samples": samples,
			"known_findings": len(hit), "notes": r.Notes,
		},
		"assumptions": r.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(left),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
	rp := filepath.Join(verif, "evidence", id+".violation.txt")
	os.Remove(rp)
	fmt.Printf("%s: %d obligations over %d paths of %d functions, %d violations, %.1fs\n", id, r.Obligations, r.Paths, len(fns), len(left), time.Since(start).Seconds())
	if len(left) == 0 {
		return 0
	}
	var w strings.Builder
	for _, v := range left {
		fmt.Fprintf(&w, "rule %s, %s\n  at %s\n  %s\n", v.Rule, v.Construct, v.Where, v.Detail)
		for _, l := range v.Path {
			fmt.Fprintln(&w, "  "+l)
		}
		fmt.Fprintln(&w)
	}
	os.WriteFile(rp, []byte(w.String()), 0o644)
	for i, v := range left {
		if i < 8 {
			fmt.Printf("  [%s] %s (%s): %s\n", v.Rule, v.Construct, v.Where, v.Detail)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func dump(repo, pkg, name string) int {
	c, err := load(repo)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var fn *ssa.Function
	if t, m, ok := strings.Cut(name, "."); ok {
		fn = c.Method(pkg, t, m)
	} else {
		fn = c.Func(pkg, name)
	}
	if fn == nil {
		fmt.Println("no such function")
		return 2
	}
	r := NewReport(c, "dump")
	e := c.exec(r)
	if pkg == "pkg/queue" && strings.HasPrefix(name, "Badger") {
		newQueueModel(c, r).install(e)
	}
	if pkg == "pkg/raft" && os.Getenv("RAW") == "" {
		e = newNodeModel(c, r).e
	}
	if pkg == "cmd/server" {
		c.serverModels(e, clusterStart)
	}
	outs := e.Run(fn, nil)
	for i, o := range outs {
		fmt.Printf("--- path %d\n", i)
		for _, l := range PathLines(c, &o) {
			fmt.Println(l)
		}
	}
	fmt.Println("overflow", e.Overflow, "steps", e.Steps, "unknown", e.Unknown)
	_ = eng.Nil
	return 0
}
