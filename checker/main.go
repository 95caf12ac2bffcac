package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// checkDef is the machinery that decides one property.
type checkDef struct {
	run  func(c *Check)
	what string // what is analysed against which rule
	min  int    // smallest number of obligations expected (anti-vacuity)
}

func main() {
	t0 := time.Now()
	debug.SetGCPercent(400)
	if f := os.Getenv("VC_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: valuecheck PROPERTY [obligation filter]")
		os.Exit(2)
	}
	if os.Args[1] == "-list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	dir := os.Getenv("VC_REPO")
	if dir == "" {
		dir = "/repo"
	}
	out := os.Getenv("VC_OUT")
	if out == "" {
		out = "/verif/evidence"
	}
	id := os.Args[1]
	def, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	c := &Check{id: id, extra: map[string]int{}}
	if len(os.Args) > 2 {
		c.filter = os.Args[2]
	}
	e, err := load(dir)
	if p := os.Getenv("VC_PART"); p != "" {
		fmt.Sscanf(p, "%d/%d", &c.part, &c.parts)
	}
	if c.parts == 0 && err == nil && def.min > 6 && os.Getenv("VC_ONE") == "" {
		c.e = e
		c.workers(8)
		if c.filter == "" && len(c.obls) < def.min {
			c.fail("coverage", "undecided", fmt.Sprintf("only %d obligations generated, expected at least %d", len(c.obls), def.min), "", "", "")
		}
	} else if err != nil {
		c.fail("load", "undecided", err.Error(), "", "", "")
	} else {
		e.debug = os.Getenv("VC_DEBUG") != ""
		c.e = e
		def.run(c)
		if c.parts > 0 {
			c.dump()
			return
		}
		if c.filter == "" && len(c.obls) < def.min {
			c.fail("coverage", "undecided", fmt.Sprintf("only %d obligations generated, expected at least %d", len(c.obls), def.min), "", "", "")
		}
	}
	known := loadKnown(id)
	var open []Finding
	for _, f := range c.findings {
		if k := known.match(f); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		if f.Kind == "undecided" && f.Obl != "load" && f.Obl != "coverage" {
			c.undecided = append(c.undecided, f)
			continue
		}
		open = append(open, f)
	}
	for i, f := range c.undecided {
		if i < 6 {
			fmt.Printf("UNDECIDED: %s: %s at %s in %s (%d paths)\n", f.Obl, f.Msg, f.Pos, f.Fn, f.Count)
		}
	}
	if c.filter == "" {
		c.writeEvidence(out, def, open, time.Since(t0))
	}
	if len(open) == 0 {
		if os.Getenv("VC_STRICT") != "" && len(c.undecided) > 0 {
			os.Exit(3)
		}
		fmt.Printf("%s: %d obligations, %d conditions, %d paths: held (%v)\n", id, len(c.obls), c.conds(), c.paths(), time.Since(t0).Round(time.Millisecond))
		return
	}
	os.MkdirAll(out, 0o755)
	rep := filepath.Join(out, id+".report.txt")
	var sb strings.Builder
	for _, f := range open {
		fmt.Fprintf(&sb, "%s: %s: %s\n    at %s in %s (%d paths)\n    path: %s\n", f.Obl, f.Kind, f.Msg, f.Pos, f.Fn, f.Count, f.Path)
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	for i, f := range open {
		if i == 8 {
			fmt.Printf("... and %d more in %s\n", len(open)-i, rep)
			break
		}
		fmt.Printf("%s: %s: %s at %s in %s (%d paths)\n   path: %.300s\n", f.Obl, f.Kind, f.Msg, f.Pos, f.Fn, f.Count, f.Path)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	pprof.StopCPUProfile()
	os.Exit(1)
}

// The obligations of a check are independent; worker processes share them.
type partObl struct {
	Name         string
	Seq          int
	Paths, Conds int
	Bounded      []string
}

type partResult struct {
	Findings []Finding
	Obls     []partObl
	Rules    []string
	Notes    []string
	Extra    map[string]int
	Used     []string
	Calls    map[string]int
}

func (c *Check) dump() {
	p := partResult{Findings: c.findings, Rules: c.rules, Notes: c.notes, Extra: c.extra, Calls: c.e.calls}
	for _, o := range c.obls {
		p.Obls = append(p.Obls, partObl{o.name, o.seq, o.paths, o.conds, o.bounded})
	}
	for fn := range c.e.used {
		if fn.Pkg == c.e.pkg {
			p.Used = append(p.Used, fn.RelString(c.e.tpkg))
		}
	}
	b, _ := json.Marshal(p)
	os.Stdout.Write(b)
}

func (c *Check) workers(n int) {
	res := make([]partResult, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], os.Args[1:]...)
			cmd.Env = append(os.Environ(), fmt.Sprintf("VC_PART=%d/%d", i, n))
			cmd.Stderr = os.Stderr
			b, err := cmd.Output()
			if err == nil {
				err = json.Unmarshal(b, &res[i])
			}
			errs[i] = err
		}(i)
	}
	wg.Wait()
	c.usedNames = map[string]bool{}
	for i, p := range res {
		if errs[i] != nil {
			c.fail("worker", "undecided", fmt.Sprintf("analysis process failed: %v", errs[i]), "", "", "")
			continue
		}
		for _, f := range p.Findings {
			n := f.Count
			c.fail(f.Obl, f.Kind, f.Msg, f.Pos, f.Fn, f.Path)
			for i := range c.findings {
				g := &c.findings[i]
				if g.Obl == f.Obl && g.Kind == f.Kind && g.Msg == f.Msg && g.Pos == f.Pos {
					g.Count += n - 1
				}
			}
		}
		for _, o := range p.Obls {
			c.obls = append(c.obls, oblStat{name: o.Name, seq: o.Seq, paths: o.Paths, conds: o.Conds, bounded: o.Bounded})
		}
		if len(p.Rules) > len(c.rules) {
			c.rules = p.Rules
		}
		if len(p.Notes) > len(c.notes) {
			c.notes = p.Notes
		}
		for k, v := range p.Extra {
			if v > c.extra[k] {
				c.extra[k] = v
			}
		}
		for _, f := range p.Used {
			c.usedNames[f] = true
		}
		for k, v := range p.Calls {
			c.e.calls[k] += v
		}
	}
	sort.SliceStable(c.obls, func(i, j int) bool { return c.obls[i].seq < c.obls[j].seq })
	order := map[string]int{}
	for i, o := range c.obls {
		order[o.name] = i
	}
	sort.SliceStable(c.findings, func(i, j int) bool { return order[c.findings[i].Obl] < order[c.findings[j].Obl] })
}

func (c *Check) conds() (n int) {
	for _, o := range c.obls {
		n += o.conds
	}
	return
}

func (c *Check) paths() (n int) {
	for _, o := range c.obls {
		n += o.paths
	}
	return
}

func (c *Check) writeEvidence(dir string, def checkDef, open []Finding, d time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	bad := map[string]bool{}
	for _, f := range open {
		bad[f.Obl] = true
	}
	und := []string{}
	for _, f := range c.undecided {
		bad[f.Obl] = true
		und = append(und, fmt.Sprintf("%s: %s at %s in %s", f.Obl, f.Msg, f.Pos, f.Fn))
	}
	var names, bounded []string
	disch := 0
	for _, o := range c.obls {
		names = append(names, fmt.Sprintf("%s: %d paths, %d conditions", o.name, o.paths, o.conds))
		if !bad[o.name] {
			disch++
		}
		for _, b := range o.bounded {
			bounded = append(bounded, o.name+": "+b)
		}
	}
	fns := []string{}
	var models []string
	total := 0
	if c.e != nil {
		for fn := range c.e.used {
			if fn.Pkg == c.e.pkg {
				fns = append(fns, fn.RelString(c.e.tpkg))
			}
		}
		for n := range c.usedNames {
			fns = append(fns, n)
		}
		sort.Strings(fns)
		models = sortedKeys(c.e.calls)
		total = len(c.e.files)
	}
	expl := def.what + " Decided by abstract interpretation of the SSA form of the current source (nothing is executed): every path of every analysed function is followed with symbolic inputs, loops are replaced by inductively checked closed forms, and each obligation's rule is decided on every path from the linear and congruence facts collected on it."
	if len(bounded) > 0 {
		expl += " For the loops listed under bounded_loops no inductive closed form precise enough was found; they were followed for at most " + strconv.Itoa(c.e.unrollMax) + " iterations."
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation": expl,
			"obligations": len(c.obls), "discharged": disch,
			"conditions_decided": c.conds(), "paths": c.paths(),
			"source_files": total, "functions_analysed": fns, "library_contracts_used": models,
			"undecided": und, "obligation_list": names, "rules": c.rules, "bounded_loops": bounded, "counts": c.extra,
		},
		"assumptions": append([]string{
			"go/types and x/tools/go/ssa build a faithful SSA form of the source",
			"the checker's transfer functions and its contracts for library functions are right",
			"int has 64 bits; integers that count elements or bytes in memory do not overflow",
		}, c.notes...),
		"wall_s":     d.Seconds(),
		"violations": len(open),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644)
}

// ---- known findings

type knownList struct{ items []string }

// Lines "finding: property=<id> obligation=<name> | <message substring> | <text>".
func loadKnown(id string) knownList {
	var k knownList
	b, err := os.ReadFile("/verif/KNOWN_FINDINGS.txt")
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			k.items = append(k.items, strings.TrimPrefix(l, "finding: property="+id+" "))
		}
	}
	return k
}

func (k knownList) match(f Finding) string {
	for _, it := range k.items {
		p := strings.SplitN(it, " | ", 3)
		if len(p) == 3 && p[0] == "obligation="+f.Obl && strings.Contains(f.Msg, p[1]) {
			return p[2]
		}
	}
	return ""
}
