package checks

import (
	"fmt"
	"strings"
)

// A body with every construct that opens a scope. [ and ] (as the runes below) mark the extent of scopes, • a place for
// a statement, ◦ a place for an int expression.
const scopeSkeleton = `• if ◦ > 1 { ⟦•⟧ } elseif ◦ > 2 { ⟦•⟧ } elseif ◦ > 3 { ⟦•⟧ } else { ⟦•⟧ } • while ◦ > 1 { ⟦• if ◦ > 2 { ⟦•⟧ } else { ⟦•⟧ } •⟧ } • for li in ◦ .. ◦ { ⟦⟪li⟫•⟧ } • for lj in mka(◦) { ⟦⟪lj⟫• for lk in ea() { ⟦⟪lk⟫•⟧ } ⟧ } • match mke(◦) { case Aa(): ⟦•⟧ case Bb(cn): ⟦⟪cn⟫•⟧ case Cc(cs, cm): ⟦⟪cm⟫• if eb() { ⟦•⟧ } •⟧ } • ff := fn(pz: int) int { ⟦⟪pz⟫• if ◦ > 4 { ⟦• return pz⟧ } • return ◦⟧ } • gg := fn(pw: int) int = ⟦⟪pw⟫◦⟧ • use(◦) •`

type scopePoint struct {
	at    int // in the text
	scope []int
	expr  bool
	name  string // a variable bound here by a loop, case or literal
}

// scopePoints strips the marks and lists the places with their scopes.
func scopePoints(s string) (text []rune, ps []scopePoint) {
	var cur []int
	n := 0
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		switch r := rs[i]; r {
		case '⟦':
			n++
			cur = append(append([]int{}, cur...), n)
		case '⟧':
			cur = cur[:len(cur)-1]
		case '•', '◦':
			ps = append(ps, scopePoint{len(text), cur, r == '◦', ""})
			text = append(text, r)
		case '⟪':
			j := i
			for rs[j] != '⟫' {
				j++
			}
			ps = append(ps, scopePoint{len(text), cur, false, string(rs[i+1 : j])})
			i = j
		default:
			text = append(text, r)
		}
	}
	return
}

func scopeSees(decl, use scopePoint) bool {
	if decl.at >= use.at && !(decl.at == use.at && decl.name != "") || len(decl.scope) > len(use.scope) {
		return false
	}
	for i, s := range decl.scope {
		if use.scope[i] != s {
			return false
		}
	}
	return true
}

// placementItems: a variable declared at every place and mentioned, or declared again, at every other place.
func placementItems(thorough bool) []item {
	var it []item
	outer := []nsrc{{"", "%s"}, {" in while", "while eb() { %s }"}, {" in else", "if eb() { use(1) } else { %s }"}, {" in case", "match ee() { case Aa(): use(1) case Bb(k): %s case Cc(s, m): use(m) }"}, {" in literal", "run(fn() { %s })"}}
	text, ps := scopePoints(scopeSkeleton)
	build := func(with map[int]string) string {
		var b strings.Builder
		for i, r := range text {
			if s, ok := with[i]; ok {
				b.WriteString(s)
			} else if r == '◦' {
				b.WriteString("1")
			} else if r != '•' {
				b.WriteRune(r)
			}
		}
		return b.String()
	}
	for oi, o := range outer {
		for i, d := range ps {
			if d.expr {
				continue
			}
			for j, u := range ps {
				if u.name != "" || i == j {
					continue
				}
				if !thorough && oi > 0 && (i+j)%5 != oi {
					continue
				}
				with := map[int]string{}
				v := d.name
				if v == "" {
					v = "vv"
					with[d.at] = "vv := e1()"
				}
				if u.expr {
					with[u.at] = v
				} else {
					with[u.at] = "use(" + v + ")"
				}
				body := strings.Replace(o.src, "%s", build(with), 1)
				it = append(it, item{fmt.Sprintf("%s at place %d mentioned at place %d%s", v, i, j, o.name), "fn @() { " + body + " }", scopeSees(d, u)})
				if !u.expr && d.name == "" && i < j {
					with[u.at] = "vv := es()"
					same := len(d.scope) == len(u.scope) && scopeSees(d, u)
					it = append(it, item{fmt.Sprintf("declared at places %d and %d%s", i, j, o.name), "fn @() { " + strings.Replace(o.src, "%s", build(with), 1) + " }", !same})
				}
			}
		}
	}
	return it
}
