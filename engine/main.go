package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is a construct of the repository which breaks a property, or
// which the analysis cannot decide.
type Violation struct {
	Key   string // rule and construct, stable under edits elsewhere
	Where string // file:line and function
	Why   string
}

// Report collects what one check analysed.
type Report struct {
	w          *World
	prop       string
	tier       string
	Violations []Violation
	Obligs     []string // discharged obligations, one line each
	total      int
	counts     map[string]int
}

// pos renders a position relative to the repository.
func (w *World) pos(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	q := w.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(w.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
		if strings.HasPrefix(f, "zzverifspec/") {
			f = "spec/" + strings.TrimPrefix(f, "zzverifspec/")
		}
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ok records an obligation that holds.
func (r *Report) ok(key, what string) {
	r.total++
	r.Obligs = append(r.Obligs, key+": "+what)
}

// bad records an obligation that does not hold or is not decided.
func (r *Report) bad(key, where, format string, a ...any) {
	r.total++
	r.Violations = append(r.Violations, Violation{key, where, fmt.Sprintf(format, a...)})
}

func (r *Report) count(name string, n int) { r.counts[name] += n }

// atLeast fails the check when fewer instances were found than confirmed by
// hand: a rule which matches nothing proves nothing.
func (r *Report) atLeast(name string, n int) {
	if r.counts[name] < n {
		r.bad("instances/"+name, "?", "%d %s analysed, at least %d expected", r.counts[name], name, n)
	}
}

// defaultOpaque are the renderings which are compared as a whole where they
// occur inside another one; each has its own specification.
var defaultOpaque = map[string]bool{
	"(" + repoModule + "/stmt.Select).Write": true,
	"(" + repoModule + "/stmt.Insert).Write": true,
	"(" + repoModule + "/stmt.Update).Write": true,
	"(" + repoModule + "/stmt.Delete).Write": true,
	repoModule + "/parser.ParseJoin":         true,
	repoModule + "/parser.MustParseJoin":     true,
	repoModule + "/builder.ToSet":            true,
	repoModule + "/builder.MergeSet":         true,
	repoModule + "/lexer.New":                true,
	"(*" + repoModule + "/lexer.Lexer).Next": true,
	repoModule + "/token.Lookup":             true,
}

// simulation tells how a comparison by simulation is run: what is opaque, and
// the package whose loops are run step by step.
func simulation(name string) (opaque map[string]bool, pkg string) {
	switch {
	case strings.HasPrefix(name, "Q_C15sim_"):
		return map[string]bool{repoModule + "/lexer.New": true, "(*" + repoModule + "/lexer.Lexer).Next": true}, repoModule + "/parser"
	case strings.HasPrefix(name, "Q_C16sim_"):
		return map[string]bool{repoModule + "/token.Lookup": true}, repoModule + "/lexer"
	}
	return nil, ""
}

// comparison is a result of tryCompare.
type comparison struct {
	f *Fail
	p *Prod
}

// specs compares every Q_<prefix>… with its S_….
func (r *Report) specs(prefix string) {
	w := r.w
	var names []string
	for n := range w.Spec.Members {
		if strings.HasPrefix(n, "Q_"+prefix) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		r.spec(n)
	}
}

func (r *Report) spec(n string) {
	w := r.w
	key := strings.Replace(n[2:], "_", "/", 1)
	q, _ := w.Spec.Members[n].(*ssa.Function)
	s, _ := w.Spec.Members["S_"+n[2:]].(*ssa.Function)
	if q == nil || s == nil {
		r.bad(key, "?", "specification missing")
		return
	}
	t := time.Now()
	m, ok := w.compared[n]
	if !ok {
		m.f, m.p = w.tryCompare(q, s)
		if w.compared == nil {
			w.compared = map[string]comparison{}
		}
		w.compared[n] = m
	}
	f, p := m.f, m.p
	r.count("comparisons", 1)
	r.count("case splits", p.splits)
	r.count("matched events", p.events)
	r.count("repetitions", p.loops)
	r.count("matched ends", p.ends)
	if f != nil {
		d := w.describe(f)
		if len(d) > 1500 {
			d = d[:1500] + "…"
		}
		r.bad(key, w.pos(f.pos)+" "+f.where+" (expected: "+w.pos(f.spos)+")", "%s", d)
		return
	}
	r.count("matched panics", p.panics)
	if p.ends == 0 && (returns(s) || p.panics == 0) {
		r.bad(key, w.pos(s.Pos()), "the comparison is vacuous: no run reaches its end")
		return
	}
	r.ok(key, fmt.Sprintf("%s agrees with its specification on all inputs (%d case splits, %d events, %d repetitions, %v)",
		w.pos(q.Pos()), p.splits, p.events, p.loops, time.Since(t).Round(time.Millisecond)))
}

// returns tells whether a function may return.
func returns(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover {
			return true
		}
	}
	return false
}

// tryCompare is Compare, with analyser faults reported as undecided.
func (w *World) tryCompare(q, s *ssa.Function) (f *Fail, p *Prod) {
	p = &Prod{}
	defer func() {
		if e := recover(); e != nil {
			msg := fmt.Sprint(e)
			if os.Getenv("VT_DEBUG") != "" {
				msg += "\n" + string(debug.Stack())
			}
			f = &Fail{why: "not decided: analyser fault: " + msg, undec: true}
		}
	}()
	if opaque, pkg := simulation(q.Name()); pkg != "" {
		f, p, _ = w.Simulate(q, s, opaque, func(fn *ssa.Function) bool {
			for fn.Parent() != nil {
				fn = fn.Parent()
			}
			pk := fnPkg(fn)
			return fn == s || pk != nil && pk.Path() == pkg
		}, 200000)
		return f, p
	}
	return w.Compare(q, s, defaultOpaque, 100000)
}

func (r *Report) run(p *Property) {
	for _, rule := range p.rules {
		func() {
			defer func() {
				if e := recover(); e != nil {
					msg := fmt.Sprint(e)
					if os.Getenv("VT_DEBUG") != "" {
						msg += "\n" + string(debug.Stack())
					}
					r.bad("analyser", "?", "not decided: analyser fault: %s", msg)
				}
			}()
			rule(r)
		}()
	}
	for name, n := range p.min {
		r.atLeast(name, n)
	}
}

func main() {
	prop := flag.String("prop", "", "property to decide")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository under analysis")
	verif := flag.String("verif", "/verif", "directory of the specifications")
	worker := flag.Bool("worker", false, "analyse in this process")
	only := flag.String("spec", "", "development: compare only the specifications with this prefix")
	all := flag.Bool("all", false, "development: decide all properties, or those given as arguments, in this process")
	flag.Parse()
	if v := os.Getenv("VT_REPO"); v != "" {
		*repo = v
	}
	if *only != "" {
		devel(*repo, *verif, *only)
		return
	}
	if *all {
		decideAll(*repo, *verif, flag.Args())
		return
	}
	p := properties[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	if *worker {
		analyse(p, *prop, *tier, *repo, *verif)
		return
	}
	start := time.Now()
	limit := 500 * time.Second
	if *tier == "thorough" {
		limit = 820 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], append([]string{"-worker"}, os.Args[1:]...)...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	var res result
	if e := json.Unmarshal(out.Bytes(), &res); err != nil || e != nil {
		why := "the analysis did not finish"
		if ctx.Err() != nil {
			why = fmt.Sprintf("the analysis did not finish within %v", limit)
		}
		tail := errb.String()
		if len(tail) > 3000 {
			tail = tail[:3000]
		}
		res = result{Violations: []Violation{{"analysis", "?", why + "\n" + tail}}, Counts: map[string]int{}}
	}
	emit(p, *prop, *tier, *verif, &res, start)
}

type result struct {
	Violations []Violation
	Obligs     []string
	Total      int
	Counts     map[string]int
	Packages   []string
	Functions  int
	Files      int
}

func analyse(p *Property, prop, tier, repo, verif string) {
	debug.SetGCPercent(400)
	w, err := Load(repo, filepath.Join(verif, "spec"))
	res := result{Counts: map[string]int{}}
	if err != nil {
		res.Violations = []Violation{{"load", "?", err.Error()}}
		res.Total = 1
	} else {
		r := &Report{w: w, prop: prop, tier: tier, counts: res.Counts}
		r.run(p)
		res.Violations, res.Obligs, res.Total = r.Violations, r.Obligs, r.total
		for path := range w.Pkgs {
			if path != specPath {
				res.Packages = append(res.Packages, path)
			}
		}
		sort.Strings(res.Packages)
		res.Functions, res.Files = len(w.Funcs), w.Files
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

// emit prints the verdict and writes the evidence.
func emit(p *Property, prop, tier, verif string, res *result, start time.Time) {
	known := knownFindings(filepath.Join(verif, "known_findings.txt"), prop)
	var open []Violation
	nKnown := 0
	for _, v := range res.Violations {
		if what, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, v.Key, what)
			nKnown++
			continue
		}
		open = append(open, v)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	replay := filepath.Join(dir, prop+".violations.txt")
	os.Remove(replay)
	var vs []string
	for _, v := range open {
		vs = append(vs, fmt.Sprintf("%s\n  at %s\n  %s", v.Key, v.Where, v.Why))
	}
	samples := res.Obligs
	if len(samples) > 200 {
		samples = samples[:200]
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]any{
		"explanation":  p.explain,
		"obligations":  res.Total,
		"discharged":   len(res.Obligs),
		"checker_cmd":  "bash check.sh " + prop + " " + tier,
		"trusted_base": trustedBase,
		"samples":      samples,
		"packages":     res.Packages,
		"functions":    res.Functions,
		"files":        res.Files,
		"counts":       res.Counts,
	}
	if len(vs) > 0 {
		cov["violations"] = vs
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage":    cov,
		"assumptions": assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(open),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings; %d functions of %d packages analysed\n",
		prop, res.Total, len(res.Obligs), nKnown, res.Functions, len(res.Packages))
	if len(open) == 0 {
		return
	}
	os.WriteFile(replay, []byte(strings.Join(vs, "\n\n")+"\n"), 0o644)
	for i, v := range vs {
		if i == 5 {
			fmt.Printf("… and %d more\n", len(vs)-5)
			break
		}
		fmt.Println(v)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	os.Exit(1)
}

// knownFindings reads the lines "finding: property=<id> <key> <what>".
func knownFindings(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "finding:" && f[1] == "property="+prop {
			out[f[2]] = strings.Join(f[3:], " ")
		}
	}
	return out
}

var trustedBase = []string{
	"go/types and golang.org/x/tools/go/ssa v0.52.0 (translation of the source)",
	"the analyser in /verif/engine: abstract interpretation in a term domain, lock-step comparison",
	"the models of the standard library functions called by the repository",
	"the specifications in /verif/spec, which state what is expected",
}

var assumptions = []string{
	"methods of values supplied by the caller (encoders, expressions of other packages) are deterministic and do not modify the statement being rendered",
	"no memory exhaustion, no integer overflow of lengths",
}

// devel prints one line per comparison.
func devel(repo, verif, prefix string) {
	w, err := Load(repo, filepath.Join(verif, "spec"))
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println(len(w.Funcs), w.Files, w.initFailed)
	r := &Report{w: w, counts: map[string]int{}}
	var names []string
	for n := range w.Spec.Members {
		if strings.HasPrefix(n, "Q_"+prefix) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		a, b := len(r.Obligs), len(r.Violations)
		r.spec(n)
		for _, o := range r.Obligs[a:] {
			fmt.Println("ok  ", o)
		}
		for _, v := range r.Violations[b:] {
			fmt.Println("FAIL", v.Key)
			fmt.Println("    ", v.Where)
			fmt.Println("    ", v.Why)
		}
	}
}

// decideAll prints the violations of all properties.
func decideAll(repo, verif string, ids []string) {
	debug.SetGCPercent(400)
	w, err := Load(repo, filepath.Join(verif, "spec"))
	if err != nil {
		fmt.Println("load", err)
		os.Exit(1)
	}
	if len(ids) == 0 {
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	exit := 0
	for _, id := range ids {
		t := time.Now()
		r := &Report{w: w, prop: id, tier: "quick", counts: map[string]int{}}
		r.run(properties[id])
		for _, v := range r.Violations {
			exit = 1
			fmt.Printf("%s %s\n  at %s\n  %s\n", id, v.Key, v.Where, v.Why)
		}
		fmt.Printf("%s: %d obligations, %d discharged (%v)\n", id, r.total, len(r.Obligs), time.Since(t).Round(time.Millisecond))
	}
	if os.Getenv("VT_COVER") != "" {
		for _, fn := range w.Funcs {
			n, miss := 0, ""
			for _, b := range fn.Blocks {
				if visited[b] {
					n++
				} else {
					for _, in := range b.Instrs {
						if posOf(in).IsValid() {
							miss += " " + w.pos(posOf(in))
							break
						}
					}
				}
			}
			if n < len(fn.Blocks) {
				fmt.Printf("cover %s %d/%d%s\n", w.fnName(fn), n, len(fn.Blocks), miss)
			}
		}
	}
	os.Exit(exit)
}
