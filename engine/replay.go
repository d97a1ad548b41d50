package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Replay is the native re-execution of one symbolic path.
type Replay struct {
	Harness  string
	Vals     map[string]string
	Draws    []string
	DrawMax  []string
	Hashes   []string // hash outputs in order, hexadecimal, "?" or "" = any
	Label    string
	Attempts int
	Seconds  int
	Seed     int64
	Thorough bool
	race     bool
}

type replayRes struct {
	Failed   string
	Panic    string
	Attempts int
	Complete int
	Draws    []string
	Reached  []string
}

// native compiles the package with the harness overlay and runs replays.
type native struct {
	dir  string
	bins map[string]string
	errs map[string]string
	ld   *loaded
}

func newNative(ld *loaded) *native {
	d, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		panic(err)
	}
	return &native{dir: d, bins: map[string]string{}, errs: map[string]string{}, ld: ld}
}
func (n *native) Close() {
	if strings.Contains(n.dir, "verif-replay-") {
		os.RemoveAll(n.dir)
	}
}

func (n *native) build(pkg string, race bool) (string, error) {
	key := pkg
	if race {
		key += "_race"
	}
	if b, ok := n.bins[key]; ok {
		return b, nil
	}
	if e, ok := n.errs[key]; ok {
		return "", fmt.Errorf("%s", e)
	}
	ov := map[string]string{}
	for dst, src := range rtFiles() {
		ov[dst] = src
	}
	var fns []string
	for _, f := range n.ld.files {
		ov[f.dst] = f.src
		if f.pkgKey == pkg {
			fns = append(fns, f.funcs...)
		}
	}
	sort.Strings(fns)
	pdir := pkgDirOf(pkg)
	tests, _ := filepath.Glob(filepath.Join(pdir, "*_test.go"))
	for _, t := range tests {
		ov[t] = ""
	}
	pname := pkg
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\tverifrt %q\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tverifrt.Main(map[string]func(){\n", pname, repoMod+"/verifrt")
	for _, f := range fns {
		fmt.Fprintf(&b, "\t\t%q: %s,\n", f, f)
	}
	b.WriteString("\t})\n}\n")
	tf := filepath.Join(n.dir, key+"_replay_test.go")
	if err := os.WriteFile(tf, []byte(b.String()), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(pdir, "zz_verif_replay_test.go")] = tf
	tags := ""
	if usesHashes(n.ld.files) {
		tags = "verifnative"
		if err := hashOverlay(n.dir, ov); err != nil {
			return "", err
		}
	}
	of := filepath.Join(n.dir, key+"_overlay.json")
	if err := overlayJSON(ov, of); err != nil {
		return "", err
	}
	bin := filepath.Join(n.dir, key+".test")
	args := []string{"test", "-c", "-vet=off", "-tags", tags, "-overlay", of, "-o", bin}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")
	if race {
		args, env = append(args, "-race"), append(env, "CGO_ENABLED=1")
	}
	cmd := exec.Command("go", append(args, pkgPathOf(pkg))...)
	cmd.Dir = repoDir
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.errs[key] = "native build failed: " + string(out)
		return "", fmt.Errorf("native build failed: %s", out)
	}
	n.bins[key] = bin
	return bin, nil
}

// run replays the entries natively, spread over a few processes. An entry that
// was not reached before the timeout has the zero result.
func (n *native) run(pkg string, rs []*Replay, timeout time.Duration) ([]replayRes, error) {
	res := make([]replayRes, len(rs))
	var errs []error
	for _, race := range []bool{false, true} {
		var part []*Replay
		var idx []int
		for i, r := range rs {
			if r.race == race {
				part, idx = append(part, r), append(idx, i)
			}
		}
		if len(part) == 0 {
			continue
		}
		out, err := n.runWith(pkg, race, part, timeout)
		if err != nil {
			errs = append(errs, err)
		}
		for i := range out {
			res[idx[i]] = out[i]
		}
	}
	return res, errors.Join(errs...)
}

func (n *native) runWith(pkg string, race bool, rs []*Replay, timeout time.Duration) ([]replayRes, error) {
	bin, err := n.build(pkg, race)
	if err != nil {
		return nil, err
	}
	key := filepath.Base(bin)
	res := make([]replayRes, len(rs))
	const procs = 6
	errs := make([]error, procs)
	var wg sync.WaitGroup
	for w := 0; w < procs; w++ {
		var part []*Replay
		var idx []int
		for i := w; i < len(rs); i += procs {
			part, idx = append(part, rs[i]), append(idx, i)
		}
		if len(part) == 0 {
			continue
		}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			in, _ := json.Marshal(part)
			inf := filepath.Join(n.dir, fmt.Sprintf("%s_in%d.json", key, w))
			outf := filepath.Join(n.dir, fmt.Sprintf("%s_out%d.json", key, w))
			os.Remove(outf)
			if err := os.WriteFile(inf, in, 0o644); err != nil {
				errs[w] = err
				return
			}
			cmd := exec.Command(bin, "-test.run", "TestVerifReplay", "-test.timeout", timeout.String())
			cmd.Dir = n.dir
			cmd.Env = append(os.Environ(), "VERIF_REPLAY="+inf, "VERIF_REPLAY_OUT="+outf)
			out, err := cmd.CombinedOutput()
			b, rerr := os.ReadFile(outf)
			if rerr != nil {
				errs[w] = fmt.Errorf("replay run failed: %v %s", err, tail(string(out), 2000))
				return
			}
			var r []replayRes
			if err := json.Unmarshal(b, &r); err != nil {
				errs[w] = err
				return
			}
			for i := range r {
				if i < len(idx) {
					res[idx[i]] = r[i]
				}
			}
		}(w)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return res, e
		}
	}
	return res, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func usesHashes(fs []harnessFile) bool {
	for _, f := range fs {
		if b, err := os.ReadFile(f.src); err == nil && (strings.Contains(string(b), "rt.RecordHashes") || strings.Contains(string(b), "rt.ScriptHashes")) {
			return true
		}
	}
	return false
}

// hashOverlay makes crypto/sha256 report the sums that the repository computes.
func hashOverlay(dir string, ov map[string]string) error {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	src := filepath.Join(strings.TrimSpace(string(out)), "src", "crypto", "sha256", "sha256.go")
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	s := strings.Replace(string(b), "func New() hash.Hash {", "func newPlain() hash.Hash {", 1)
	s = strings.Replace(s, "h := New()", "h := newPlain()", 1)
	s = strings.Replace(s, "func Sum256(data []byte) [Size]byte {", "func Sum256(data []byte) [Size]byte {\n\ts := sum256Plain(data)\n\tverifReport(s[:])\n\treturn s\n}\n\nfunc sum256Plain(data []byte) [Size]byte {", 1)
	s = strings.Replace(s, "import (", "import (\n\t\"runtime\"", 1)
	s += `
// VerifHook receives the sums and the name of the calling function.
var VerifHook func(sum []byte, caller string)

type verifHash struct{ hash.Hash }

func New() hash.Hash { return &verifHash{newPlain()} }

func (h *verifHash) Sum(b []byte) []byte {
	out := h.Hash.Sum(b)
	verifReport(out[len(b):])
	return out
}

func verifReport(sum []byte) {
	if VerifHook == nil {
		return
	}
	if pc, _, _, ok := runtime.Caller(2); ok {
		VerifHook(sum, runtime.FuncForPC(pc).Name())
	}
}
`
	f := filepath.Join(dir, "sha256.go")
	if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
		return err
	}
	ov[src] = f
	return nil
}
