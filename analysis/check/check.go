// Package check is the frame in which the rules of each property run: it
// counts the obligations a rule discharged, collects violations and writes the
// report and the evidence file.
package check

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"mintcheck/load"
)

// Violation is one construct that breaks a rule.
type Violation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	Msg       string   `json:"message"`
	Path      []string `json:"path,omitempty"`
}

// Key identifies the violation independently of line numbers.
func (v Violation) Key() string { return v.Rule + "|" + v.Construct }

// Ctx is the context of one run of one property's rules.
type Ctx struct {
	P     *load.Program
	Prop  string
	Tier  string
	Verif string

	viol    []Violation
	seen    map[string]bool
	obls    map[string]map[string]int // rule -> construct -> count
	ruleDoc map[string]string
	cover   map[string]interface{}
	assume  []string
}

// Thorough reports whether the run is the deep one.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Rule documents a rule; obligations are counted under its name.
func (c *Ctx) Rule(name, doc string) {
	c.ruleDoc[name] = doc
	if c.obls[name] == nil {
		c.obls[name] = map[string]int{}
	}
}

// OK records one discharged obligation of a rule.
func (c *Ctx) OK(rule, construct string) {
	if c.obls[rule] == nil {
		c.obls[rule] = map[string]int{}
	}
	c.obls[rule][construct]++
}

// Fail records a violation.
func (c *Ctx) Fail(rule, construct string, pos token.Pos, format string, args ...interface{}) {
	c.FailPath(rule, construct, pos, nil, format, args...)
}

// FailPath records a violation together with a path that leads to it.
func (c *Ctx) FailPath(rule, construct string, pos token.Pos, path []string, format string, args ...interface{}) {
	c.OK(rule, construct)
	v := Violation{Rule: rule, Construct: construct, Msg: fmt.Sprintf(format, args...), Path: path}
	if c.P != nil {
		v.Pos = c.P.Pos(pos)
	}
	k := v.Key() + "|" + v.Pos + "|" + v.Msg
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.viol = append(c.viol, v)
}

// Check records one obligation, violated unless ok.
func (c *Ctx) Check(ok bool, rule, construct string, pos token.Pos, format string, args ...interface{}) bool {
	if ok {
		c.OK(rule, construct)
	} else {
		c.Fail(rule, construct, pos, format, args...)
	}
	return ok
}

// Count is the number of distinct constructs the rule was applied to.
func (c *Ctx) Count(rule string) int { return len(c.obls[rule]) }

// Min fails the property when a rule was applied to fewer constructs than
// were confirmed by hand: a rule that matches nothing decides nothing.
func (c *Ctx) Min(rule string, n int) {
	if got := c.Count(rule); got < n {
		c.Fail(rule, "instances", token.NoPos, "rule applied to %d constructs, at least %d expected: the constructs it governs were not found", got, n)
	}
}

// Assume records an assumption in the evidence.
func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }

// Cover records a measured quantity in the evidence.
func (c *Ctx) Cover(k string, v interface{}) { c.cover[k] = v }

// Violations returns what was found so far.
func (c *Ctx) Violations() []Violation { return c.viol }

// Prop is a property and the rules that decide it.
type Prop struct {
	ID          string
	Explanation string
	Run         func(*Ctx)
}

// Props holds the registered properties.
var Props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) {
	if Props[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	Props[p.ID] = p
}

// known reads the findings listed in the known-findings file for prop.
func known(verif, prop string) (map[string]string, error) {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<rule|construct> <what fails>
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) == 3 && f[0] == "property="+prop && strings.HasPrefix(f[1], "key=") {
			out[strings.TrimPrefix(f[1], "key=")] = f[2]
		}
	}
	return out, nil
}

// Run decides one property and returns the exit status.
func Run(p *load.Program, loadErr error, prop *Prop, verif, tier string, seed int, start time.Time) int {
	c := &Ctx{P: p, Prop: prop.ID, Tier: tier, Verif: verif,
		seen: map[string]bool{}, obls: map[string]map[string]int{}, ruleDoc: map[string]string{}, cover: map[string]interface{}{}}
	if loadErr != nil {
		c.Fail("load", "repository", token.NoPos, "the repository cannot be analysed: %v", loadErr)
	} else {
		func() {
			if os.Getenv("MINTCHECK_PANIC") == "" {
				defer func() {
					if r := recover(); r != nil {
						c.Fail("internal", fmt.Sprint(r), token.NoPos, "analysis could not decide the property: %v", r)
					}
				}()
			}
			prop.Run(c)
		}()
	}
	if len(c.obls) == 0 {
		c.Fail("internal", "no-obligations", token.NoPos, "no rule was applied")
	}
	list, err := known(verif, prop.ID)
	if err != nil {
		c.Fail("internal", "known-findings", token.NoPos, "%v", err)
	}
	sort.Slice(c.viol, func(i, j int) bool {
		if c.viol[i].Rule != c.viol[j].Rule {
			return c.viol[i].Rule < c.viol[j].Rule
		}
		return c.viol[i].Construct < c.viol[j].Construct
	})
	var fresh []Violation
	told := map[string]bool{}
	for _, v := range c.viol {
		if what, ok := list[v.Key()]; ok {
			if !told[v.Key()] {
				told[v.Key()] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop.ID, what)
			}
			continue
		}
		fresh = append(fresh, v)
	}

	total, constructs := 0, 0
	rules := []map[string]interface{}{}
	var names []string
	for r := range c.obls {
		names = append(names, r)
	}
	sort.Strings(names)
	var samples []string
	for _, r := range names {
		n := 0
		var cs []string
		for k, v := range c.obls[r] {
			n += v
			cs = append(cs, k)
		}
		sort.Strings(cs)
		constructs += len(cs)
		total += n
		shown := cs
		if len(shown) > 12 {
			shown = shown[:12]
		}
		rules = append(rules, map[string]interface{}{"rule": r, "meaning": c.ruleDoc[r], "constructs": len(cs), "obligations": n, "examples": shown})
		if len(cs) > 0 {
			samples = append(samples, r+": "+cs[0])
		}
	}
	c.cover["explanation"] = prop.Explanation
	c.cover["rules"] = rules
	c.cover["obligations"] = total
	c.cover["distinct_constructs"] = constructs
	c.cover["discharged"] = total - len(c.viol)
	c.cover["samples"] = samples
	if p != nil {
		nf := 0
		for range p.Funcs() {
			nf++
		}
		c.cover["functions_loaded"] = nf
		var pk []string
		for _, q := range p.Order {
			pk = append(pk, q.Path)
		}
		c.cover["packages_loaded"] = pk
	}
	ev := map[string]interface{}{
		"property": prop.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": c.cover, "assumptions": c.assume,
		"violations": len(fresh), "findings": fresh,
		"wall_s": time.Since(start).Seconds(),
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	if fresh == nil {
		ev["findings"] = []Violation{}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, prop.ID+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	if len(fresh) == 0 {
		fmt.Printf("OK property=%s rules=%d constructs=%d obligations=%d wall=%.1fs\n", prop.ID, len(names), constructs, total, time.Since(start).Seconds())
		return 0
	}
	report := filepath.Join(dir, prop.ID+".report.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %d violation(s)\n\n", prop.ID, len(fresh))
	for _, v := range fresh {
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
		if d := c.ruleDoc[v.Rule]; d != "" {
			fmt.Fprintf(&sb, "    rule: %s\n", d)
		}
		for _, s := range v.Path {
			fmt.Fprintf(&sb, "    via %s\n", s)
		}
	}
	os.WriteFile(report, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, report)
	return 1
}
