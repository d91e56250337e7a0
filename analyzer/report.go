package main

// report.go: obligations, known findings, evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type Ob struct {
	N      int      `json:"n"`
	Rule   string   `json:"rule"`
	Status string   `json:"status"` // ok, violated, undecided
	Where  string   `json:"where,omitempty"`
	Detail string   `json:"detail,omitempty"`
	Path   []string `json:"path,omitempty"`
}

type C struct {
	p        *Program
	id       string
	tier     string
	obs      []Ob
	funcs    map[string]bool
	unmod    map[string]int
	steps    int
	calls    int
	forks    int
	outcomes int
	scen     int
	debug    bool
	only     string

	dress         bool // decide every obligation also for decorated declarations
	shard, shards int  // this process decides the obligations n with n%shards == shard
	next          int
	group, groups int
}

// mine numbers the next obligation and says whether this process decides it.
func (c *C) mine() bool {
	c.next++
	n := c.next
	if c.group > 0 {
		n = c.group
	}
	return c.shards == 0 || n%c.shards == c.shard
}

// together runs f, whose obligations depend on each other, in one process.
func (c *C) together(f func()) {
	c.groups++
	c.group = c.groups
	f()
	c.group = 0
}

func (c *C) thorough() bool { return c.tier == "thorough" }

// O is the obligation being decided.
type O struct {
	c    *C
	b    *B
	rule string
	ob   Ob
	seen bool
}

func (o *O) fail(where, detail string, st *State) {
	if st != nil && st.opaque != nil {
		o.undecided("depends on an uninterpreted decision at " + st.opaque.text)
		return
	}
	if o.ob.Status == "violated" {
		return
	}
	o.ob.Status = "violated"
	o.ob.Where = where
	o.ob.Detail = detail
	if st != nil {
		o.ob.Path = st.notes.list(30)
	}
}

func (o *O) undecided(why string) {
	if o.ob.Status == "" {
		o.ob.Status = "undecided"
		o.ob.Detail = why
	}
}

// expect requires every outcome to satisfy pred (1 yes, 0 no, -1 unknown).
func (o *O) expect(rs []Ret, what string, pred func(r Ret) int) {
	o.c.outcomes += len(rs)
	if len(rs) == 0 {
		o.undecided("no outcome")
	}
	for _, r := range rs {
		if o.c.debug {
			v := "-"
			if r.val != nil {
				v = r.val.Path()
			}
			fmt.Printf("    outcome kind=%d %s val=%s msg=%s opaque=%v\n", r.kind, r.where(o.c.p), v, r.msg, r.st.opaque)
			for _, n := range r.st.notes.list(40) {
				fmt.Println("        ", n)
			}
		}
		switch pred(r) {
		case 0:
			d := what
			switch r.kind {
			case RPanic:
				d += "; instead the call panics: " + r.msg
			case RExit:
				d += "; instead the process exits"
			default:
				if r.val != nil {
					v := r.val.Path()
					if len(v) > 300 {
						v = v[:300] + "…"
					}
					d += "; the call returns " + v
				}
			}
			o.fail(r.where(o.c.p), d, r.st)
		case -1:
			o.undecided("value not determined: " + what)
		}
	}
}

func (o *O) accept(rs []Ret, what string) {
	o.expect(rs, what+" must be accepted", func(r Ret) int {
		if r.kind != RReturn {
			return 0
		}
		return o.b.accepts(r)
	})
}

func (o *O) reject(rs []Ret, what string) {
	o.expect(rs, what+" must be rejected with an error", func(r Ret) int {
		if r.kind != RReturn {
			return 0
		}
		n := o.b.accepts(r)
		if n < 0 {
			return -1
		}
		return 1 - n
	})
}

// check runs one abstract scenario.
func (c *C) check(rule string, sc *Scenario, f func(b *B, o *O)) {
	c.check1(rule, sc, f, false)
	if c.dress {
		c.check1(rule+dressedRule, sc, f, true)
	}
}

const dressedRule = ", with remarks and defaults"

func (c *C) check1(rule string, sc *Scenario, f func(b *B, o *O), dressed bool) {
	if c.only != "" && !strings.Contains(rule, c.only) {
		return
	}
	if !c.mine() {
		return
	}
	c.scen++
	o := &O{c: c, rule: rule, ob: Ob{N: c.next, Rule: rule}}
	var b *B
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch y := x.(type) {
				case budgetExceeded:
					o.undecided("analysis bound: " + y.why)
				case anchorLost:
					// a renamed or moved declaration is no evidence of wrong behaviour
					o.undecided("the anchored declaration no longer exists: " + y.what)
				default:
					if c.debug {
						fmt.Println(x)
						debug.PrintStack()
					}
					o.undecided(fmt.Sprint("analyser failure: ", x))
				}
			}
		}()
		if c.debug {
			fmt.Println("==", rule)
		}
		b = c.p.NewB(sc)
		b.dressed, b.plainRemarks = dressed, c.id == "C26" || c.id == "C27"
		o.b = b
		f(b, o)
	}()
	if b != nil {
		c.steps += b.e.steps
		c.calls += b.e.calls
		c.forks += b.e.forks
		for k := range b.e.fnSeen {
			c.funcs[k] = true
		}
		for k, n := range b.e.unmodelled {
			if !strings.HasSuffix(k, ".init") {
				c.unmod[k] += n
			}
		}
		if b.e.overflow > 0 && o.ob.Status == "violated" && !c.debug {
			// joins forced by the disjunct limit lose correlations
			o.ob.Status = "undecided"
			o.ob.Detail = "disjunct limit reached; " + o.ob.Detail
		}
	}
	if o.ob.Status == "" {
		o.ob.Status = "ok"
	}
	if c.debug {
		fmt.Println("   ->", o.ob.Status, o.ob.Where, o.ob.Detail)
	}
	c.obs = append(c.obs, o.ob)
}

// ok records a directly decided obligation.
func (c *C) decided(rule string, holds bool, where, detail string) {
	if c.only != "" && !strings.Contains(rule, c.only) {
		return
	}
	if !c.mine() {
		return
	}
	ob := Ob{N: c.next, Rule: rule, Status: "ok"}
	if !holds {
		ob.Status = "violated"
		ob.Where = where
		ob.Detail = detail
	}
	c.obs = append(c.obs, ob)
}

type Property struct {
	id      string
	rule    string // the rule applied, for the evidence
	assume  []string
	floor   int
	level   string
	trusted []string
	run     func(c *C)
	dress   bool
}

type known struct {
	prop, rule, where, text string
}

func loadKnown(root string) []known {
	raw, err := os.ReadFile(filepath.Join(root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, line := range strings.Split(string(raw), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		// known: property=C01 rule="..." at="..." text
		k := known{}
		rest := strings.TrimPrefix(line, "known: ")
		for _, f := range []struct {
			n string
			p *string
		}{{"property=", &k.prop}, {"rule=", &k.rule}, {"at=", &k.where}} {
			rest = strings.TrimSpace(rest)
			if !strings.HasPrefix(rest, f.n) {
				continue
			}
			rest = rest[len(f.n):]
			if strings.HasPrefix(rest, `"`) {
				j := strings.Index(rest[1:], `"`)
				*f.p = rest[1 : 1+j]
				rest = rest[j+2:]
			} else {
				j := strings.IndexByte(rest, ' ')
				if j < 0 {
					j = len(rest)
				}
				*f.p = rest[:j]
				rest = rest[j:]
			}
		}
		k.text = strings.TrimSpace(rest)
		out = append(out, k)
	}
	return out
}

func (c *C) finish(pr *Property, verif string, start time.Time) int {
	ks := loadKnown(verif)
	var viol []Ob
	nOK, nUnd, nKnown := 0, 0, 0
	usedKnown := map[int]bool{}
	var undecided []string
	for _, o := range c.obs {
		switch o.Status {
		case "ok":
			nOK++
		case "undecided":
			nUnd++
			undecided = append(undecided, o.Rule+": "+o.Detail)
		default:
			hit := -1
			for i, k := range ks {
				if k.prop == c.id && k.rule == strings.TrimSuffix(o.Rule, dressedRule) && (k.where == "" || strings.Contains(o.Where+" "+o.Detail, k.where)) {
					hit = i
				}
			}
			if hit >= 0 {
				nKnown++
				if !usedKnown[hit] {
					usedKnown[hit] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.id, ks[hit].text, ks[hit].rule)
				}
				continue
			}
			viol = append(viol, o)
		}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0755)
	replay := filepath.Join(evdir, c.id+".violations.txt")
	os.Remove(replay)
	if len(viol) > 0 {
		var sb strings.Builder
		for _, o := range viol {
			fmt.Fprintf(&sb, "property %s, rule %q violated\n  at: %s\n  %s\n", c.id, o.Rule, o.Where, o.Detail)
			for _, n := range o.Path {
				fmt.Fprintf(&sb, "    %s\n", n)
			}
			fmt.Fprintf(&sb, "  replay: cd %s && ./check.sh %s -only %q -debug\n\n", verif, c.id, o.Rule)
		}
		os.WriteFile(replay, []byte(sb.String()), 0644)
		for i, o := range viol {
			if i >= 12 {
				fmt.Printf("  … %d more, see the replay file\n", len(viol)-i)
				break
			}
			fmt.Printf("  %s: %s\n    at %s\n", o.Rule, o.Detail, o.Where)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, strings.ReplaceAll(f, module, "sadl"))
	}
	sort.Strings(fns)
	seed := 1
	rules := make([]string, 0, len(c.obs))
	for _, o := range c.obs {
		rules = append(rules, o.Status+": "+o.Rule)
	}
	var um []string
	for k, n := range c.unmod {
		um = append(um, fmt.Sprintf("%s ×%d", k, n))
	}
	sort.Strings(um)
	cov := map[string]interface{}{
		"explanation": "Abstract interpretation of the type-checked SSA form of /repo's current sources (no execution of the code under analysis, no solver). Rule: " + pr.rule +
			" Each obligation is one abstract input class (fixed shape, symbolic names/bounds/contents) for which every abstract outcome of the entry point must satisfy the rule.",
		"rule":                  pr.rule,
		"obligations":           len(c.obs),
		"discharged":            nOK,
		"undecided":             nUnd,
		"undecided_obligations": undecided,
		"known_findings":        nKnown,
		"functions_analysed":    len(fns),
		"functions":             fns,
		"instructions":          c.steps,
		"call_sites":            c.calls,
		"path_splits":           c.forks,
		"outcomes":              c.outcomes,
		"obligation_list":       rules,
		"uninterpreted_calls":   um,
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
		"assumptions": append([]string{
			"transfer functions for the standard library calls listed in analyzer/models.go are faithful",
			"files that need the absent modules boynton/scanner and boynton/smithy are not part of the analysed program"}, pr.assume...),
	}
	raw, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, c.id+".json"), append(raw, '\n'), 0644)
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d undecided, %d violated; %d functions, %d instructions, %.1fs\n",
		c.id, len(c.obs), nOK, nKnown, nUnd, len(viol), len(fns), c.steps, time.Since(start).Seconds())
	if len(viol) > 0 {
		return 1
	}
	return 0
}
