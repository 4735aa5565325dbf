package checks

import "strings"

func init() {
	Registry["C11"] = func(c *Ctx) {
		c.runSchemas(matchSchemas("match"), cgOpts{Semantics: true})
		c.runSchemas(fnSchemas("many cases", "", manyCases(c.Thorough), 4), cgOpts{Semantics: true, Visits: 400})
		c.Min("many cases", 16)
		matchAcceptance(c, "acceptance")
	}
	Registry["C12"] = func(c *Ctx) {
		c.runSchemas(forSchemas("for"), cgOpts{Semantics: true})
		var bs []nsrc
		for _, b := range longBodies(c.Thorough) {
			if strings.HasSuffix(b.name, "in loop") || strings.HasSuffix(b.name, "in range") || strings.HasPrefix(b.name, "range") || strings.HasPrefix(b.name, "descending") || strings.HasPrefix(b.name, "array loop") {
				bs = append(bs, b)
			}
		}
		c.runSchemas(fnSchemas("large body", "", bs, 3), cgOpts{Semantics: true, Visits: 400})
		c.Min("large body", 20)
	}
	Registry["C13"] = func(c *Ctx) {
		c.runSchemas(closureSchemas("function value"), cgOpts{Semantics: true})
		ctx, one := []string{"captured", "captured twice", "captured in a loop", "captured in a case", "captured in a declaration"}, 1
		if !c.Thorough {
			ctx = ctx[:2]
		}
		c.runSchemas(grammarSchemas("captured composition", 2, one, ctx...), cgOpts{Semantics: true, Roots: true})
		if p, lib := libProgram(c, "dispatch", libMain); p != nil {
			checkDispatch(c, "dispatch", lib)
			dispatchResult(c, "dispatch", p)
		}
	}
}
