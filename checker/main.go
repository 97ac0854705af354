package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Analysis is one property being decided.
type Analysis struct {
	id      string
	tier    string
	prog    *Program
	vprog   *Program
	viols   []Violation
	vkeys   map[string]bool
	counts  map[string]int
	funcs   map[string]bool
	rules   []string
	assume  []string
	engines int
}

type propDef struct {
	id        string
	technique string
	note      string
	run       func(a *Analysis)
}

var props []propDef

func register(id, technique, note string, run func(a *Analysis)) {
	props = append(props, propDef{id, technique, note, run})
}

// program loads the main module.
func (a *Analysis) program() *Program {
	if a.prog == nil {
		p, err := loadModule(repoDir(), true, "./...")
		if err != nil {
			panic("loading the repository: " + err.Error())
		}
		a.prog = p
	}
	return a.prog
}

// vancap loads the capture tool's module.
func (a *Analysis) vancap() *Program {
	if a.vprog == nil {
		p, err := loadModule(filepath.Join(repoDir(), "vancap"), true, "./...")
		if err != nil {
			panic("loading vancap: " + err.Error())
		}
		a.vprog = p
	}
	return a.vprog
}

func (a *Analysis) count(k string, n int) { a.counts[k] += n }

func (a *Analysis) rule(format string, args ...any) {
	a.rules = append(a.rules, fmt.Sprintf(format, args...))
}
func (a *Analysis) assumption(s string) { a.assume = append(a.assume, s) }

// violate reports a construct outside of an engine run.
func (a *Analysis) violate(p *Program, rule string, pos token.Pos, fn, format string, args ...any) {
	v := Violation{rule: rule, pos: pos, fn: fn, msg: fmt.Sprintf(format, args...)}
	v.key = rule + "|" + fn + "|" + p.pos(pos)
	a.add(p, v)
}

func (a *Analysis) add(p *Program, v Violation) {
	if p != nil {
		v.where = p.pos(v.pos)
	}
	if a.vkeys[v.key] {
		return
	}
	a.vkeys[v.key] = true
	a.viols = append(a.viols, v)
}

// anchor fails the check when something it needs is not found.
func (a *Analysis) anchor(ok bool, what string) bool {
	if !ok {
		a.violate(a.prog, "anchor", token.NoPos, "", "%s not found: the property can not be established", what)
	}
	return ok
}

// explore runs an engine to its end and collects what it found.
func (a *Analysis) explore(e *Engine) {
	a.engines++
	e.run()
	if os.Getenv("VF_DEBUG") != "" {
		fmt.Println("engine", e.roots[0], e.states, e.steps)
	}
	for _, v := range e.violations {
		a.add(e.p, v)
	}
	a.counts["abstract states"] += e.states
	a.counts["instructions interpreted"] += e.steps
	a.counts["paths ended"] += e.paths
	a.counts["roots"] += len(e.roots)
	for k, n := range e.counts {
		a.counts[k] += n
	}
	for fn := range e.infos {
		if fn.Pkg != nil || fn.Parent() != nil {
			a.funcs[fn.String()] = true
		}
	}
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	WallS       float64        `json:"wall_s"`
	Assumptions []string       `json:"assumptions"`
	Violations  []string       `json:"violations"`
}

func verifDir() string {
	if d := os.Getenv("VF_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// knownFindings reads the recorded findings of a property: rule|function|text.
func knownFindings(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" ")
		// key=<rule|function> description
		if strings.HasPrefix(rest, "key=") {
			f := strings.SplitN(rest[4:], " :: ", 2)
			d := ""
			if len(f) == 2 {
				d = f[1]
			}
			out[f[0]] = d
		}
	}
	return out
}

func runProp(d propDef, shared *Analysis) (bad int) {
	t0 := time.Now()
	a := &Analysis{id: d.id, tier: os.Getenv("VERIF_TIER"), vkeys: map[string]bool{}, counts: map[string]int{}, funcs: map[string]bool{}}
	if a.tier != "thorough" {
		a.tier = "quick"
	}
	if shared != nil {
		a.prog, a.vprog = shared.prog, shared.vprog
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				a.viols = append(a.viols, Violation{rule: "undecided", msg: fmt.Sprintf("the analysis failed: %v", r), trail: strings.Split(string(debug.Stack()), "\n")})
			}
		}()
		d.run(a)
	}()
	if shared != nil {
		shared.vprog = a.vprog
		if a.prog != a.vprog {
			shared.prog = a.prog
		}
	}
	if len(a.viols) == 0 && a.counts["obligations checked"] == 0 {
		a.viols = append(a.viols, Violation{rule: "vacuous", msg: "nothing was checked"})
	}
	known := knownFindings(d.id)
	var open []Violation
	for _, v := range a.viols {
		if desc, ok := known[v.rule+"|"+v.fn]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.id, desc)
			continue
		}
		open = append(open, v)
	}
	ev := evidence{Property: d.id, Tier: a.tier, Level: "other", Seed: 0, WallS: time.Since(t0).Seconds(), Assumptions: a.assume, Violations: []string{}}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &ev.Seed)
	if ev.Assumptions == nil {
		ev.Assumptions = []string{}
	}
	cov := map[string]any{"explanation": d.technique + ". " + d.note, "rules": a.rules}
	for k, n := range a.counts {
		cov[strings.ReplaceAll(k, " ", "_")] = n
	}
	fl := make([]string, 0, len(a.funcs))
	for f := range a.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov["functions_analysed"] = len(fl)
	cov["functions"] = fl
	ev.Coverage = cov
	var rep strings.Builder
	for _, v := range open {
		line := fmt.Sprintf("%s: [%s] %s (%s)", v.where, v.rule, v.msg, v.fn)
		ev.Violations = append(ev.Violations, line)
		fmt.Fprintln(&rep, line)
		for _, t := range v.trail {
			fmt.Fprintln(&rep, "    "+t)
		}
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, d.id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	rp := filepath.Join(dir, d.id+".violations.txt")
	if len(open) > 0 {
		os.WriteFile(rp, []byte(rep.String()), 0o644)
		fmt.Print(rep.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.id, rp)
		return 1
	}
	os.Remove(rp)
	fmt.Printf("%s: holds; %d obligations, %d abstract states, %.1fs\n", d.id, a.counts["obligations checked"], a.counts["abstract states"], ev.WallS)
	return 0
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vfcheck PROPERTY... | all | list | smoke")
		os.Exit(2)
	}
	sort.Slice(props, func(i, j int) bool { return props[i].id < props[j].id })
	switch os.Args[1] {
	case "list":
		type entry struct{ ID, Technique, Note string }
		var out []entry
		for _, d := range props {
			out = append(out, entry{d.id, d.technique, d.note})
		}
		json.NewEncoder(os.Stdout).Encode(out)
		return
	case "smoke":
		smoke(os.Args[2:])
		return
	}
	want := os.Args[1:]
	var shared *Analysis
	if len(want) > 1 || want[0] == "all" {
		shared = &Analysis{}
	}
	rc := 0
	for _, d := range props {
		for _, w := range want {
			if w == d.id || w == "all" {
				rc |= runProp(d, shared)
				want = append(want, "")
				break
			}
		}
	}
	for _, w := range want {
		ok := w == "" || w == "all"
		for _, d := range props {
			ok = ok || d.id == w
		}
		if !ok {
			fmt.Printf("unknown property %s\nVIOLATION property=%s replay=none\n", w, w)
			rc = 1
		}
	}
	os.Exit(rc)
}

// smoke explores every function of the given packages without rules.
func smoke(args []string) {
	p, err := loadModule(repoDir(), true, "./...")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, fn := range p.funcs {
		if fn.Pkg == nil || fn.Synthetic != "" || fn.Parent() != nil || fn.TypeParams() != nil && len(fn.TypeArgs()) == 0 {
			continue
		}
		if _, ours := p.spkgs[fn.Pkg.Pkg.Path()]; !ours || strings.HasSuffix(fn.Pkg.Pkg.Path(), "vfmodels") {
			continue
		}
		if len(args) > 0 {
			m := false
			for _, s := range args {
				m = m || strings.Contains(fn.String(), s)
			}
			if !m {
				continue
			}
		}
		t0 := time.Now()
		e := newEngine(p)
		e.h.Go = func(*State, *Call) bool { return true }
		e.h.Escape = func(st *State, f *Term, in ssa.Instruction) bool { return false }
		e.addRoot(nil, fn, nil, nil)
		e.run()
		fmt.Printf("%-90s states %6d steps %8d paths %4d viol %d %.2fs\n", fn.String(), e.states, e.steps, e.paths, len(e.violations), time.Since(t0).Seconds())
		for _, v := range e.violations {
			fmt.Println("     ", v.rule, p.pos(v.pos), v.msg)
		}
	}
}
