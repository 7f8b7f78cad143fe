package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type ruleSet struct {
	run  func(*Chk)
	rule string // one-line description of what is decided
}

var registry = map[string]ruleSet{}

func register(id, rule string, f func(*Chk)) {
	if typs := liveMaps[id]; typs != nil {
		g := f
		f = func(c *Chk) {
			g(c)
			for _, typ := range typs {
				c.liveMap("collections", typ)
			}
		}
	}
	registry[id] = ruleSet{f, rule}
}

// liveMaps: the checks that also decide that the map accessed is the one in
// place, by the type that owns the map.
var liveMaps = map[string][]string{
	"H02": {"HashSet"},
	"M01": {"SimpleMap", "ShardMap"},
	"T01": {"TwoKeyMap"},
	"G01": {"GuavaMap"},
	"D01": {"HolderMap"},
	"R01": {"RequestMap"},
	"P01": {"ResponseMap"},
	"V01": {"WaitMap"},
	"U01": {"StructUniqSet"},
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		w, err := loadWorld(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		x := exploreAll(w)
		for _, p := range x.order {
			if len(os.Args) == 3 {
				fmt.Println(p.Name, len(p.Traces), "cut", p.Cut)
				continue
			}
			a := os.Args[3]
			if p.Name == a || strings.HasSuffix(a, "*") && strings.HasPrefix(p.Name, strings.TrimSuffix(a, "*")) {
				fmt.Println("==", p.Name)
				dumpProc(w, p, len(os.Args) > 4)
			}
		}
		return
	}
	if len(os.Args) == 2 && os.Args[1] == "rules" {
		for _, id := range sortedKeys(registry) {
			fmt.Printf("%s\t%s\n", id, registry[id].rule)
		}
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "all" {
		runAll(os.Args[2])
		return
	}
	if len(os.Args) < 5 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: axv check ID TIER REPO [VERIF] | dump REPO [PROC] | all REPO")
		os.Exit(2)
	}
	verif := "/verif"
	if len(os.Args) > 5 {
		verif = os.Args[5]
	}
	os.Exit(check(os.Args[2], os.Args[3], os.Args[4], verif))
}

// decide runs the rules of one property and turns a failure of the analyser
// itself into a finding: an undecided property is never reported as held.
func decide(w *World, x *Exec, id, tier string) (c *Chk) {
	c = newChk(w, x, id, tier)
	r, ok := registry[id]
	if !ok {
		c.bad("anchor", id, "no rules for property %s", id)
		return c
	}
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("AXV_DEBUG") != "" {
				panic(e)
			}
			c.bad("undecided", id, "the analysis could not decide: %v", e)
		}
	}()
	r.run(c)
	return c
}

func runAll(repo string) {
	w, err := loadWorld(repo)
	if err != nil {
		fmt.Println("LOAD", err)
		os.Exit(1)
	}
	x := exploreAll(w)
	learnAllocs(x)
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	bad := 0
	for _, id := range ids {
		c := decide(w, x, id, "quick")
		for _, f := range c.Findings {
			bad++
			fmt.Printf("%s [%s] %s %s: %s\n", id, f.Rule, f.Where, w.pos(f.Pos), f.Msg)
		}
		if len(os.Args) > 3 {
			for _, r := range sortedKeys(c.Obl) {
				fmt.Printf("  %s %s %d\n", id, r, c.Obl[r])
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}

type buildConf struct {
	name string
	env  []string
}

func check(id, tier, repo, verif string) int {
	start := time.Now()
	confs := []buildConf{{"host", nil}}
	if tier == "thorough" {
		confs = append(confs, buildConf{"linux/386", []string{"GOOS=linux", "GOARCH=386"}}, buildConf{"windows/amd64", []string{"GOOS=windows", "GOARCH=amd64"}},
			buildConf{"darwin/arm64", []string{"GOOS=darwin", "GOARCH=arm64"}})
	}
	var all []*Finding
	var first *Chk
	obl, disc := 0, 0
	var w *World
	var loadErr error
	var confNames []string
	for _, cf := range confs {
		extraEnv = cf.env
		resetTerms()
		var err error
		w, err = loadWorld(repo)
		if err != nil {
			loadErr = fmt.Errorf("%s: %w", cf.name, err)
			break
		}
		confNames = append(confNames, cf.name)
		x := exploreAll(w)
		learnAllocs(x)
		c := decide(w, x, id, tier)
		if first == nil {
			first = c
		}
		for _, f := range c.Findings {
			dup := false
			for _, g := range all {
				if g.Rule == f.Rule && g.Where == f.Where {
					dup = true
				}
			}
			if !dup {
				f.Msg = strings.TrimSpace(f.Msg)
				f.text = renderFinding(w, id, f)
				all = append(all, f)
			}
		}
		for _, n := range c.Obl {
			obl += n
		}
		for r, n := range c.Obl {
			disc += n - c.Fail[r]
		}
	}
	if loadErr != nil {
		all = append(all, &Finding{Rule: "load", Where: "module", Msg: loadErr.Error(), text: "the module could not be loaded and type-checked: " + loadErr.Error()})
	}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), id)
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	exit := 0
	nviol := 0
	var viol []any
	old, _ := filepath.Glob(filepath.Join(evdir, id+"-*.replay.txt"))
	for _, f := range old {
		os.Remove(f)
	}
	for _, f := range all {
		key := f.Rule + "|" + f.Where
		if t, ok := known[key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, t)
			continue
		}
		nviol++
		exit = 1
		path := filepath.Join(evdir, fmt.Sprintf("%s-%d.replay.txt", id, nviol))
		os.WriteFile(path, []byte(f.text), 0o644)
		loc := ""
		if f.Pos.IsValid() && w != nil {
			loc = w.pos(f.Pos)
		}
		fmt.Printf("%s: [%s] %s: %s\n", loc, f.Rule, f.Where, f.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		viol = append(viol, map[string]any{"rule": f.Rule, "construct": f.Where, "at": loc, "message": f.Msg, "replay": path})
	}
	cov := map[string]any{}
	var assume []string
	if first != nil {
		var fns, procs []string
		paths, events := 0, 0
		fset := map[string]bool{}
		for p := range first.Procs {
			procs = append(procs, p.Name)
			paths += len(p.Traces)
			for _, t := range p.Traces {
				events += len(t.Events)
				for _, e := range t.Events {
					if e.Fn != nil {
						fset[fnName(e.Fn)] = true
					}
				}
			}
		}
		for f := range fset {
			fns = append(fns, f)
		}
		sort.Strings(fns)
		sort.Strings(procs)
		procs = uniq(procs)
		var samples []string
		for _, r := range sortedKeys(first.Samples) {
			samples = append(samples, r+": "+first.Samples[r])
		}
		cov["functions_analysed"] = fns
		cov["entry_points"] = procs
		cov["paths"] = paths
		cov["events"] = events
		cov["obligations_by_rule"] = first.Obl
		cov["samples"] = samples
		assume = sortedKeys(first.Assume)
	}
	cov["obligations"] = obl
	cov["discharged"] = disc
	cov["build_configurations"] = confNames
	cov["rule"] = registry[id].rule
	cov["explanation"] = "Static decision on the SSA form of the current tree: every listed entry point is explored along all of its abstract paths (loops through one generic iteration), and each path event the rule speaks about is one obligation. Nothing is executed and no solver is used. Rule: " + registry[id].rule
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	if tier != "thorough" {
		tier = "quick"
	}
	assume = append(assume, "the Go compiler and standard library behave as documented; callbacks supplied by users do not modify the library's own objects except through its API")
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(start).Seconds(),
		"assumptions": assume}
	if nviol > 0 {
		ev["violations"] = nviol
		cov["violation_list"] = viol
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 1
	}
	if exit == 0 {
		fmt.Printf("OK property=%s obligations=%d\n", id, obl)
	}
	return exit
}

func uniq(a []string) []string {
	var out []string
	for _, s := range a {
		if len(out) == 0 || out[len(out)-1] != s {
			out = append(out, s)
		}
	}
	return out
}

func renderFinding(w *World, id string, f *Finding) string {
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\nrule %s\nconstruct %s\nposition %s\n%s\n\n", id, f.Rule, f.Where, w.pos(f.Pos), f.Msg)
	if f.Trace != nil {
		fmt.Fprintf(&b, "path through %s (ends with %s):\n", f.Trace.Proc.Name, f.Trace.End)
		for _, e := range f.Trace.Events {
			m := "  "
			if e == f.Ev {
				m = "=>"
			}
			fmt.Fprintf(&b, "%s %s\n", m, evStr(w, e))
		}
		b.WriteString("conditions on this path:\n")
		for _, fa := range f.Trace.Facts {
			fmt.Fprintf(&b, "   %s is %v\n", fa.Atom, fa.Val)
		}
	}
	return b.String()
}

// loadKnown reads the committed list of recorded defects: lines
// "known: property=<id> <rule>|<construct> :: <text>".
func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" ")
		k, txt, ok := strings.Cut(rest, " :: ")
		if ok {
			out[strings.TrimSpace(k)] = txt
		}
	}
	return out
}
