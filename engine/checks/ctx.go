// Package checks decides the properties.
package checks

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/ai"
)

// Finding is a violated obligation.
type Finding struct {
	Rule, Instance, Where, Msg string
}

// Key identifies a finding independently of source positions.
func (f Finding) Key() string { return f.Rule + " | " + f.Instance }

// Ctx collects obligations of one check run.
type Ctx struct {
	P           *ai.Program
	Prop        string
	Thorough    bool
	Obligations map[string]int // rule -> decided instances
	Findings    []Finding
	Traces      int
	Funcs       map[*ssa.Function]bool
	Blocks      map[*ssa.BasicBlock]bool
	Notes       []string
	seen        map[string]bool
	Mins        map[string]int // rule -> minimum instances
	samples     map[string][]string
}

func NewCtx(p *ai.Program, prop string, thorough bool) *Ctx {
	return &Ctx{P: p, Prop: prop, Thorough: thorough, Obligations: map[string]int{}, Funcs: map[*ssa.Function]bool{},
		Blocks: map[*ssa.BasicBlock]bool{}, seen: map[string]bool{}, Mins: map[string]int{}, samples: map[string][]string{}}
}

// Ok records a discharged obligation.
func (c *Ctx) Ok(rule string) { c.Obligations[rule]++ }

// Fail records a violated or undecided obligation.
func (c *Ctx) Fail(rule, instance, where, f string, a ...interface{}) {
	fd := Finding{rule, instance, where, fmt.Sprintf(f, a...)}
	c.Obligations[rule]++
	if c.seen[fd.Key()] {
		return
	}
	c.seen[fd.Key()] = true
	c.Findings = append(c.Findings, fd)
}

// Check records an obligation.
func (c *Ctx) Check(ok bool, rule, instance, where, f string, a ...interface{}) bool {
	if ok {
		c.Ok(rule)
	} else {
		c.Fail(rule, instance, where, f, a...)
	}
	return ok
}

// Sample keeps a few decided instances per rule for the evidence.
func (c *Ctx) Sample(rule, instance string) {
	if len(c.samples[rule]) < 3 {
		c.samples[rule] = append(c.samples[rule], instance)
	}
}

// Samples lists decided instances.
func (c *Ctx) Samples() []string {
	var r []string
	for rule, xs := range c.samples {
		for i, x := range xs {
			if i < 3 {
				r = append(r, rule+": "+x)
			}
		}
	}
	sort.Strings(r)
	return r
}

// doc describes checks for the evidence.
type doc struct {
	explain string
	assume  []string
}

var docs = map[string]doc{}

func Explain(id string) string       { return docs[id].explain }
func Assumptions(id string) []string { return docs[id].assume }

// Min requires at least n instances of a rule.
func (c *Ctx) Min(rule string, n int) { c.Mins[rule] = n }

func (c *Ctx) finish() {
	for r, n := range c.Mins {
		if c.Obligations[r] < n {
			c.Fail("coverage", r, "", "only %d instances of rule %q were decided, expected at least %d", c.Obligations[r], r, n)
		}
	}
	sort.SliceStable(c.Findings, func(i, j int) bool { return c.Findings[i].Key() < c.Findings[j].Key() })
}

// Total obligations.
func (c *Ctx) Total() int {
	n := 0
	for _, v := range c.Obligations {
		n += v
	}
	return n
}

// Anchor finds a function by name, or by signature when it was renamed.
func (c *Ctx) Anchor(names ...string) *ssa.Function {
	for _, n := range names {
		if f := c.P.Func(n); f != nil {
			return f
		}
	}
	return nil
}

// MustAnchor is Anchor that fails the check.
func (c *Ctx) MustAnchor(names ...string) *ssa.Function {
	f := c.Anchor(names...)
	if f == nil {
		panic(AnchorError{strings.Join(names, "/")})
	}
	return f
}

type AnchorError struct{ Name string }

// Registry of checks.
type CheckFunc func(c *Ctx)

var Registry = map[string]CheckFunc{}

// Run runs one check, converting analysis failures into findings.
func Run(p *ai.Program, prop string, thorough bool) *Ctx {
	c := NewCtx(p, prop, thorough)
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case AnchorError:
					c.Fail("anchor", e.Name, "", "the construct %s the property is anchored in was not found", e.Name)
				case ai.Abort:
					c.Fail("analysis", e.Reason, "", "analysis undecided: %s", e.Reason)
				case ai.AbsPanic:
					c.Fail("analysis", "panic", e.Site, "the analysed code panics: %s", ai.Show(e.V))
				default:
					c.Fail("analysis", "internal", "", "the analysis failed: %v\n%s", r, debug.Stack())
				}
			}
		}()
		for r, n := range tableMins[prop] {
			c.Min(r, n)
		}
		Registry[prop](c)
	}()
	c.finish()
	return c
}
