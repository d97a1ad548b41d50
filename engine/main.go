package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness,omitempty"`
	Label    string `json:"label,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown() []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &out); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings.json:", err)
		}
	}
	return out
}

type violation struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Panic   string            `json:"panic,omitempty"`
	Vals    map[string]string `json:"inputs"`
	Draws   []string          `json:"draws,omitempty"`
	Replay  string            `json:"replay"`
	Detail  string            `json:"detail,omitempty"`
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 3 || os.Args[1] != "check" && os.Args[1] != "replay" {
		fmt.Fprintln(os.Stderr, "usage: vengine check <ID> [quick|thorough] [harness-substring] | vengine replay <ID> FILE")
		os.Exit(2)
	}
	id := os.Args[2]
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 3 && os.Args[1] == "check" {
		tier = os.Args[3]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	thorough = tier == "thorough"
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	readMod()
	t0 := time.Now()
	budget := 240 * time.Second
	if thorough {
		budget = 3600 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	ld, err := load(id)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load:", err)
		os.Exit(2)
	}
	if os.Args[1] == "replay" {
		os.Exit(replayCmd(ld, os.Args[3]))
	}
	if ld.P == nil {
		writeEvidence(id, tier, seed, t0, ld, nil, nil, nil, nil, nil)
		fmt.Printf("INCONCLUSIVE property=%s no harness fits the current tree: %s\n", id, strings.Join(ld.dropped, "; "))
		return
	}
	if len(os.Args) > 4 {
		var hs []*Harness
		for _, h := range ld.harnesses {
			if strings.Contains(h.Name, os.Args[4]) {
				hs = append(hs, h)
			}
		}
		ld.harnesses = hs
	}
	tload := time.Since(t0)
	nat := newNative(ld)
	defer nat.Close()
	// compile the native side while exploring
	built := make(chan bool)
	go func() {
		for _, k := range pkgKeys(ld) {
			nat.build(k, false)
		}
		close(built)
	}()
	ex := newExplorer(ld.P, ld.harnesses, t0.Add(budget))
	nw := runtime.NumCPU()
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			nw = n
		}
	}
	ex.run(nw)
	texp := time.Since(t0) - tload
	<-built
	viol, known, unconf, validated := replayAll(id, ld, ex, nat, seed)
	writeEvidence(id, tier, seed, t0, ld, ex, viol, known, unconf, validated)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions, %d queries (%d sat %d unsat %d unknown), solver %.1fs, load %.1fs, explore %.1fs, total %.1fs, %d native replays\n",
		id, tier, len(ld.harnesses), ex.st.paths, sumAsserts(ex), ex.st.queries, ex.st.sat, ex.st.unsat, ex.st.unknown,
		float64(ex.st.solverNs)/1e9, tload.Seconds(), texp.Seconds(), time.Since(t0).Seconds(), len(validated))
	for _, h := range ld.harnesses {
		r := ex.res[h]
		fmt.Printf("  %s: paths=%d complete=%d asserts=%d (decided by normal form %d) left=%d", h.Name, r.paths, r.complete, r.asserts, r.trivial, r.left)
		for _, k := range keysOf(r.ended) {
			fmt.Printf(" [%s]x%d", k, r.ended[k])
		}
		fmt.Println()
		for _, k := range keysOf(r.inconcl) {
			fmt.Printf("    inconclusive x%d: %.300s\n", r.inconcl[k], k)
		}
	}
	for _, d := range ld.dropped {
		fmt.Printf("  dropped harness file %s\n", d)
	}
	for _, u := range unconf {
		fmt.Printf("  unconfirmed: %.300s\n", u)
	}
	if len(viol) > 0 {
		seen := map[string]bool{}
		for _, v := range viol {
			if seen[v.Harness+v.Label] {
				continue
			}
			seen[v.Harness+v.Label] = true
			fmt.Printf("  violated: %s / %s %s\n", v.Harness, v.Label, v.Panic)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, v.Replay)
		}
		nat.Close()
		os.Exit(1)
	}
}

func sumAsserts(ex *explorer) int {
	n := 0
	for _, r := range ex.res {
		n += r.asserts
	}
	return n
}

func pkgKeys(ld *loaded) []string {
	m := map[string]bool{}
	for _, h := range ld.harnesses {
		m[h.Pkg] = true
	}
	return keysOf(m)
}

type job struct {
	rep  *Replay
	cand *cexCand
	wit  bool
}

// replayAll runs the counterexample candidates and the path witnesses natively.
func replayAll(id string, ld *loaded, ex *explorer, nat *native, seed int64) (viol []violation, known []string, unconf []string, validated []string) {
	kf := loadKnown()
	byPkg := map[string][]job{}
	for _, h := range ld.harnesses {
		r := ex.res[h]
		perLabel := map[string]int{}
		for _, cc := range r.cands {
			if perLabel[cc.label] >= 5 {
				continue
			}
			perLabel[cc.label]++
			rep := *cc.replay
			rep.Label = cc.label
			rep.Attempts, rep.Seconds, rep.Seed, rep.Thorough = 3000, 6, seed, thorough
			if cc.race {
				rep.Attempts, rep.Seconds, rep.race = 20, 60, true
			}
			byPkg[h.Pkg] = append(byPkg[h.Pkg], job{rep: &rep, cand: cc})
		}
		for _, k := range keysOf(r.ranges) {
			x := r.ranges[k]
			if x.hit == [len(x.hit)]bool{true, true, true, true} {
				continue
			}
			rep := *x.replay
			rep.Label = k
			rep.Attempts, rep.Seconds, rep.Seed, rep.Thorough = x.attempts, 150, seed, thorough
			byPkg[h.Pkg] = append(byPkg[h.Pkg], job{rep: &rep, cand: &cexCand{label: k, detail: x.what}})
		}
		for _, w := range r.witnesses {
			rep := *w
			rep.Attempts, rep.Seconds, rep.Seed, rep.Thorough = 2, 5, seed, thorough
			byPkg[h.Pkg] = append(byPkg[h.Pkg], job{rep: &rep, wit: true})
		}
	}
	confirmed := map[string]bool{}
	pending := map[string][]string{}
	knownSeen := map[string]bool{}
	for _, pkg := range keysOf(byPkg) {
		js := byPkg[pkg]
		var rs []*Replay
		for _, j := range js {
			rs = append(rs, j.rep)
		}
		limit := 3 * time.Minute
		if thorough {
			limit = 10 * time.Minute
		}
		res, err := nat.run(pkg, rs, limit)
		if err != nil {
			unconf = append(unconf, fmt.Sprintf("native replay in %s: %v", pkg, err))
		}
		for i, j := range js {
			k := j.rep.Harness + "/" + j.rep.Label
			if i >= len(res) {
				break
			}
			r := res[i]
			if r.Failed == "" {
				if j.wit {
					if r.Complete > 0 {
						validated = append(validated, j.rep.Harness)
					}
				} else {
					pending[k] = append(pending[k], fmt.Sprintf("%s (%d attempts, %d complete) %s %.200s", k, r.Attempts, r.Complete, j.cand.why, j.cand.detail))
				}
				continue
			}
			isKnown := false
			for _, f := range kf {
				if f.Property == id && f.Status == "known" && f.Harness == j.rep.Harness && f.Label == r.Failed {
					isKnown = true
					if !knownSeen[f.What] {
						knownSeen[f.What] = true
						known = append(known, f.What)
					}
				}
			}
			confirmed[k] = true
			confirmed[j.rep.Harness+"/"+r.Failed] = true
			if isKnown {
				continue
			}
			v := violation{Harness: j.rep.Harness, Label: r.Failed, Panic: r.Panic, Vals: j.rep.Vals, Draws: r.Draws}
			if j.cand != nil {
				v.Detail = j.cand.detail
			}
			v.Replay = saveReplay(id, len(viol), j.rep, r, pkg)
			viol = append(viol, v)
			validated = append(validated, j.rep.Harness)
		}
	}
	for _, k := range keysOf(pending) {
		if !confirmed[k] {
			unconf = append(unconf, pending[k][0])
		}
	}
	sort.Strings(known)
	return
}

func saveReplay(id string, n int, rep *Replay, r replayRes, pkg string) string {
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("replay_%s_%d.json", id, n))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "package": pkg, "replay": rep, "result": r,
		"how": "vengine replay " + id + " " + p}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func replayCmd(ld *loaded, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Package string
		Replay  Replay
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nat := newNative(ld)
	defer nat.Close()
	res, err := nat.run(f.Package, []*Replay{&f.Replay}, 5*time.Minute)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o, _ := json.MarshalIndent(res, "", " ")
	fmt.Println(string(o))
	if res[0].Failed != "" {
		return 1
	}
	return 0
}

func writeEvidence(id, tier string, seed int64, t0 time.Time, ld *loaded, ex *explorer, viol []violation, known, unconf, validated []string) {
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	cov := map[string]interface{}{}
	var assumptions []string
	if ex != nil {
		fn := map[string]bool{}
		bounds := map[string]bool{}
		notes := map[string]bool{}
		inc := map[string]int{}
		var samples []interface{}
		var hs []map[string]interface{}
		left, gen := 0, 0
		for _, h := range ld.harnesses {
			r := ex.res[h]
			for k := range r.funcs {
				if strings.Contains(k, "verif_") || strings.Contains(k, "/verifrt") {
					continue
				}
				fn[shortFn(k)] = true
			}
			for k := range r.bounds {
				bounds[k] = true
			}
			for k := range r.notes {
				notes[k] = true
			}
			for k, v := range r.inconcl {
				inc[k] += v
			}
			left += r.left
			gen += r.generic
			hs = append(hs, map[string]interface{}{"harness": h.Name, "paths": r.paths, "complete": r.complete, "assertions": r.asserts,
				"decided_by_normal_form": r.trivial, "ended_early": r.ended, "unexplored_prefixes": r.left, "generic_steps": r.generic, "reached": keysOf(r.reached)})
			for i, w := range r.witnesses {
				if i == 0 && len(samples) < 12 {
					samples = append(samples, map[string]interface{}{"harness": w.Harness, "inputs": w.Vals, "scripted_draws": len(w.Draws)})
				}
			}
		}
		if len(samples) == 0 {
			samples = append(samples, "no complete path had a model")
		}
		cov["states"] = ex.st.paths
		cov["transitions"] = ex.st.decisions + ex.st.instrs
		cov["traces_validated_against_impl"] = len(validated)
		cov["samples"] = samples
		cov["branch_decisions"] = ex.st.decisions
		cov["ssa_instructions_executed"] = ex.st.instrs
		cov["merged_branches"] = ex.st.merges
		cov["assertions_checked"] = sumAsserts(ex)
		cov["functions_encoded"] = keysOf(fn)
		cov["bounds"] = keysOf(bounds)
		cov["modelling_notes"] = keysOf(notes)
		cov["queries"] = map[string]interface{}{"total": ex.st.queries, "sat": ex.st.sat, "unsat": ex.st.unsat, "unknown": ex.st.unknown}
		cov["solver"] = solverBin
		cov["solver_seconds"] = float64(ex.st.solverNs) / 1e9
		cov["slowest_query_seconds"] = float64(ex.st.maxNs) / 1e9
		cov["harnesses"] = hs
		cov["inconclusive"] = inc
		cov["unexplored_prefixes"] = left
		cov["unconfirmed_candidates"] = unconf
		assumptions = append(assumptions,
			"discrete-log model of the groups: a point is its discrete logarithm; circl and go-ethereum arithmetic is taken to implement the group it names",
			"generic-position assumption: sampled values, hash outputs and independent generators with more than 64 bits of range are treated as algebraically independent, so a polynomial identity in them holds only if it holds coefficient-wise",
			"hashes are collision-free and otherwise arbitrary functions of their input")
	} else {
		cov["states"] = 0
		cov["transitions"] = 0
		cov["traces_validated_against_impl"] = 0
		cov["samples"] = []string{"no harness fits the current tree"}
	}
	cov["dropped_harness_files"] = ld.dropped
	cov["known_findings"] = known
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
		"repo_tree_sha256": treeHash(),
	}
	if len(viol) > 0 {
		cov["violations"] = viol
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), b, 0o644)
}

func treeHash() string {
	h := sha256.New()
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && fi.Name() == ".git" {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") {
			b, _ := os.ReadFile(p)
			fmt.Fprintf(h, "%s %d\n", p, len(b))
			h.Write(b)
		}
		return nil
	})
	return fmt.Sprintf("%x", h.Sum(nil)[:16])
}
