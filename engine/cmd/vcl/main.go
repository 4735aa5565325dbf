// Command vcl decides one property of the tree in /repo by static analysis.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/engine/ai"
	"verif/engine/checks"
)

func main() {
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verbose := flag.Bool("v", false, "print every finding in full")
	flag.Parse()
	debug.SetGCPercent(400)
	if *tier != "thorough" {
		*tier = "quick"
	}
	props := flag.Args()
	if len(props) == 1 && props[0] == "all" {
		props = nil
		for id := range checks.Registry {
			props = append(props, id)
		}
		sort.Strings(props)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	exit := 0
	for _, id := range props {
		if checks.Registry[id] == nil {
			fmt.Printf("no check for %s\n", id)
			os.Exit(2)
		}
		if !one(*repo, *verif, id, *tier, seed, *verbose) {
			exit = 1
		}
	}
	os.Exit(exit)
}

func one(repo, verif, id, tier string, seed int, verbose bool) bool {
	t0 := time.Now()
	p, err := ai.Load(repo)
	var c *checks.Ctx
	if err != nil {
		c = checks.NewCtx(nil, id, false)
		c.Fail("load", "tree", "", "the tree cannot be type-checked: %v", err)
	} else {
		c = checks.Run(p, id, tier == "thorough")
	}
	if d := os.Getenv("VCL_BLOCKS"); d != "" && p != nil {
		dumpBlocks(p, c, filepath.Join(d, id+".blocks"))
	}
	known := knownFindings(filepath.Join(verif, "known-findings.txt"), id)
	var bad []checks.Finding
	for _, f := range c.Findings {
		if what, ok := known[f.Key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
			continue
		}
		bad = append(bad, f)
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	rules := map[string]int{}
	for r, n := range c.Obligations {
		rules[r] = n
	}
	var fns []string
	for f := range c.Funcs {
		if f.Pkg != nil && f.Synthetic == "" {
			fns = append(fns, f.RelString(nil))
		}
	}
	sort.Strings(fns)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
		"assumptions": checks.Assumptions(id),
		"coverage": map[string]interface{}{
			"explanation":         checks.Explain(id),
			"rule":                checks.Explain(id),
			"obligations":         c.Total(),
			"discharged":          c.Total() - len(c.Findings),
			"rules":               rules,
			"functions_analysed":  fns,
			"blocks_analysed":     len(c.Blocks),
			"abstract_partitions": c.Traces,
			"samples":             c.Samples(),
			"known_findings":      len(c.Findings) - len(bad),
			"notes":               c.Notes,
		},
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, id+".json"), append(js, '\n'), 0o644)
	fmt.Printf("%s: %d obligations over %d rules, %d functions, %d blocks, %d partitions, %.1fs\n", id, c.Total(), len(rules), len(fns), len(c.Blocks), c.Traces, time.Since(t0).Seconds())
	if len(bad) == 0 {
		return true
	}
	rp := filepath.Join(evdir, id+".violation.txt")
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "rule:     %s\ninstance: %s\nwhere:    %s\nreport:   %s\n\n", f.Rule, f.Instance, f.Where, f.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, f := range bad {
		if i >= 12 && !verbose {
			fmt.Printf("  ... %d more, see %s\n", len(bad)-i, rp)
			break
		}
		fmt.Printf("  [%s] %s (%s): %s\n", f.Rule, f.Instance, f.Where, f.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return false
}

// dumpBlocks lists every basic block of the tree and whether the check reached it.
func dumpBlocks(p *ai.Program, c *checks.Ctx, path string) {
	var sb strings.Builder
	for _, f := range p.AllFuncs() {
		for _, b := range f.Blocks {
			line := 0
			file := ""
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					ps := p.Prog.Fset.Position(in.Pos())
					file, line = filepath.Base(ps.Filename), ps.Line
					break
				}
			}
			fmt.Fprintf(&sb, "%s\t%s#%d\t%s:%d\n", map[bool]string{true: "+", false: "-"}[c.Blocks[b]], f.RelString(nil), b.Index, file, line)
		}
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
}

// knownFindings reads "finding: property=<id> key=<rule | instance> :: what".
func knownFindings(path, id string) map[string]string {
	r := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return r
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		pre := "finding: property=" + id + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		l = l[len(pre):]
		if i := strings.Index(l, " :: "); i > 0 {
			r[l[:i]] = l[i+4:]
		}
	}
	return r
}
