package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Report is the outcome of a run, read by the check driver.
type Report struct {
	Prop        string             `json:"prop"`
	LoadError   string             `json:"load_error,omitempty"`
	Units       int                `json:"units"`
	Functions   []string           `json:"functions"`
	Inlined     []string           `json:"inlined"`
	Used        []string           `json:"contracts_relied_on"`
	Assumed     []string           `json:"assumed_models"`
	Obligations int                `json:"obligations"`
	Discharged  int                `json:"discharged"`
	ByKind      map[string]int     `json:"by_kind"`
	ByBackend   map[string]int     `json:"by_backend"`
	SolverCalls map[string]int     `json:"solver_calls"`
	SolverSecs  map[string]float64 `json:"solver_secs"`
	Failures    []Failure          `json:"failures"`
	Notes       []string           `json:"notes"`
	Missing     []string           `json:"missing"`
	Wall        float64            `json:"wall_s"`
	UnitSecs    map[string]float64 `json:"unit_secs"`
	Samples     []string           `json:"samples"`
}

type Failure struct {
	Unit   string `json:"unit"`
	Name   string `json:"obligation"`
	Kind   string `json:"kind"`
	Pos    string `json:"pos"`
	Trail  string `json:"path"`
	Status string `json:"status"`
	Output string `json:"solver_output"`
	Goal   string `json:"goal"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	contracts := flag.String("contracts", "/verif/contracts", "contract root")
	pkgs := flag.String("pkgs", "tone,ast", "packages to load")
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "only units containing this text")
	out := flag.String("out", "", "report file")
	scratch := flag.String("scratch", "", "scratch directory")
	verbose := flag.Bool("v", false, "print every unit")
	timeout := flag.Int("timeout", 20, "seconds per obligation")
	par := flag.Int("par", 8, "parallel units")
	dump := flag.Bool("dump", false, "keep failing queries")
	witness := flag.String("witness", "", "write the witness-search overlay for the packages to this directory and stop")
	wdir := flag.String("witnesses", "/verif/witness", "witness-search sources")
	flag.Parse()
	t0 := time.Now()
	rep := &Report{Prop: *prop, ByKind: map[string]int{}, ByBackend: map[string]int{}, UnitSecs: map[string]float64{}}
	finish := func(code int) {
		rep.Wall = time.Since(t0).Seconds()
		if *out != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(*out, b, 0o644)
		}
		os.Exit(code)
	}
	dir := *scratch
	if dir == "" {
		d, err := os.MkdirTemp("", "gov")
		if err != nil {
			panic(err)
		}
		dir = d
		defer os.RemoveAll(d)
	}
	rels := strings.Split(*pkgs, ",")
	env := os.Environ()
	if *witness != "" {
		if err := writeWitness(*repo, *contracts, *wdir, *witness, rels); err != nil {
			fmt.Println("LOAD ERROR:", err)
			os.Exit(2)
		}
		os.Exit(0)
	}
	w, err := Load(*repo, "github.com/eaburns/toaq", *contracts, rels, env)
	if err != nil {
		rep.LoadError = err.Error()
		fmt.Println("LOAD ERROR:", err)
		finish(2)
	}
	if err := w.loadConsts(rels, env, dir); err != nil {
		rep.LoadError = err.Error()
		fmt.Println("LOAD ERROR:", err)
		finish(2)
	}
	if *verbose {
		fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	solver := NewSolver(dir, seed)
	solver.Timeout = time.Duration(*timeout) * time.Second
	w.setRecords(*prop)
	us := w.units(*prop)
	if *only != "" {
		var some []*Unit
		for _, u := range us {
			if strings.Contains(u.ct.Pkg+"."+u.ct.Key, *only) || strings.Contains(u.name, *only) {
				some = append(some, u)
			}
		}
		us = some
	}
	w.runUnits(us, solver, *par)
	fnSet, inl, used, asm := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, u := range us {
		rep.Units++
		fnSet[u.ct.Pkg+"."+u.ct.Key] = true
		for _, x := range u.inlined {
			inl[x] = true
		}
		for _, x := range u.used {
			used[x] = true
		}
		for _, x := range u.assumed {
			asm[x] = true
		}
		rep.UnitSecs[u.name] = u.secs
		np, nf := 0, 0
		if u.err != "" {
			rep.Obligations++
			rep.Failures = append(rep.Failures, Failure{Unit: u.name, Name: u.name + "/supported", Kind: "unsupported", Status: "unknown", Output: u.err})
			nf++
		}
		for _, o := range u.obls {
			if *prop != "" && len(o.Props) > 0 && !hasStr(o.Props, *prop) {
				continue
			}
			rep.Obligations++
			rep.ByKind[o.Kind]++
			if o.Status == "proved" {
				rep.Discharged++
				rep.ByBackend[o.Solver]++
				np++
				if len(rep.Samples) < 8 && o.Kind != "vacuity" && o.Solver != "simplifier" {
					rep.Samples = append(rep.Samples, o.Name)
				}
				continue
			}
			nf++
			goal := ""
			if o.goal != nil {
				goal = trunc(o.goal.String(), 1500)
			}
			rep.Failures = append(rep.Failures, Failure{Unit: u.name, Name: o.Name, Kind: o.Kind, Pos: o.Pos, Trail: o.Trail, Status: o.Status, Output: o.Output, Goal: goal})
			if *dump {
				f := filepath.Join("/tmp/govfail", sanitize(o.Name)+".smt2")
				os.MkdirAll("/tmp/govfail", 0o755)
				os.WriteFile(f, []byte(o.query), 0o644)
				fmt.Println("   query:", f)
			}
		}
		for _, n := range u.notes {
			rep.Notes = append(rep.Notes, u.name+": "+n)
		}
		if *verbose || nf > 0 {
			fmt.Printf("%-60s proved %d failed %d paths %d returns %d %.1fs\n", u.name, np, nf, u.paths, u.returns, u.secs)
		}
	}
	live, dead := map[*Contract]int{}, map[*Contract]int{}
	for _, u := range us {
		if u.vacuous {
			dead[u.ct]++
			rep.Notes = append(rep.Notes, u.name+": excluded by its precondition")
		} else {
			live[u.ct]++
		}
	}
	for _, ct := range w.Contracts {
		if dead[ct] > 0 && live[ct] == 0 {
			rep.Obligations++
			rep.Failures = append(rep.Failures, Failure{Unit: ct.Key, Name: ct.Pkg + "." + ct.Key + "/precondition-satisfiable", Kind: "vacuity", Status: "failed"})
		}
	}
	for _, ct := range w.Contracts {
		if !ct.touches(*prop) || ct.IsIface || ct.Lemma || ct.fn != nil {
			continue
		}
		name := ct.Key[strings.IndexByte(ct.Key, '.')+1:]
		rep.Missing = append(rep.Missing, ct.Pkg+"."+ct.Key)
		if name[0] >= 'A' && name[0] <= 'Z' && *only == "" {
			rep.Obligations++
			rep.Failures = append(rep.Failures, Failure{Unit: ct.Key, Name: ct.Pkg + "." + ct.Key + "/function-present", Kind: "missing", Status: "failed", Output: "the function this contract is stated on is gone or has another signature"})
		}
	}
	rep.Functions, rep.Inlined, rep.Used, rep.Assumed = sortedKeys(fnSet), sortedKeys(inl), sortedKeys(used), sortedKeys(asm)
	rep.SolverCalls, rep.SolverSecs = solver.Calls, solver.Secs
	rep.Notes = append(rep.Notes, w.Notes...)
	sort.Strings(rep.Notes)
	for _, f := range rep.Failures {
		fmt.Printf("FAIL %s (%s, %s) at %s\n   path: %s\n   goal: %s\n   %s\n", f.Name, f.Kind, f.Status, f.Pos, f.Trail, trunc(f.Goal, 600), strings.ReplaceAll(trunc(f.Output, 400), "\n", "\n   "))
	}
	if *verbose {
		for _, n := range rep.Notes {
			fmt.Println("note:", n)
		}
	}
	fmt.Printf("obligations %d discharged %d units %d wall %.1fs solvers %v\n", rep.Obligations, rep.Discharged, rep.Units, time.Since(t0).Seconds(), rep.SolverSecs)
	if len(rep.Failures) > 0 {
		finish(1)
	}
	finish(0)
}

// writeWitness writes the overlay with which the witness search runs the
// specification functions as ordinary Go against the real packages.
func writeWitness(repo, contracts, wdir, out string, rels []string) error {
	w := &World{Repo: repo, Overlay: map[string][]byte{}, Renamed: map[string]map[string]bool{}}
	repl := map[string]string{}
	n := 0
	put := func(dst string, src []byte) error {
		n++
		f := filepath.Join(out, fmt.Sprintf("%d_%s", n, filepath.Base(dst)))
		if err := os.WriteFile(f, src, 0o644); err != nil {
			return err
		}
		repl[dst] = f
		return nil
	}
	for _, rel := range rels {
		if _, err := os.Stat(filepath.Join(contracts, rel)); err == nil {
			if err := w.parseContracts(filepath.Join(contracts, rel), rel); err != nil {
				return err
			}
		}
		fs, _ := filepath.Glob(filepath.Join(wdir, rel, "*.go"))
		for _, f := range fs {
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			src = renameIdents(src, w.Renamed[rel])
			if err := put(filepath.Join(repo, rel, "zz_govw_"+filepath.Base(f)), src); err != nil {
				return err
			}
		}
	}
	for dst, src := range w.Overlay {
		if err := put(dst, src); err != nil {
			return err
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	return os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
}
