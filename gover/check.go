package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type ctrDecl struct {
	Pkg, Name string
	Props     []string
	Doc       string
	Cost      int
	Opts      map[string]string
}

var declRe = regexp.MustCompile(`^func ((?:Contract|Lemma)_\w+)`)

// declared scans the contract files for contract functions and their directives, without loading anything.
func declared() ([]ctrDecl, error) {
	ov, err := overlayFiles()
	if err != nil {
		return nil, err
	}
	var out []ctrDecl
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		rel, _ := filepath.Rel(repoDir, filepath.Dir(dst))
		pkg := repoPath + "/" + rel
		var props []string
		opts := map[string]string{}
		doc := ""
		for _, l := range strings.Split(string(b), "\n") {
			if m := dirRe.FindStringSubmatch(l); m != nil {
				if m[1] == "property" {
					props = append(props, strings.FieldsFunc(m[2], func(r rune) bool { return r == ',' || r == ' ' })...)
				} else {
					opts[m[1]] = m[2]
				}
				continue
			}
			if m := declRe.FindStringSubmatch(l); m != nil {
				c, _ := strconv.Atoi(opts["cost"])
				out = append(out, ctrDecl{Pkg: pkg, Name: m[1], Props: props, Doc: strings.TrimSpace(doc), Cost: c, Opts: opts})
			}
			if strings.HasPrefix(l, "//") {
				doc += strings.TrimSpace(strings.TrimPrefix(l, "//")) + " "
			} else {
				doc, props, opts = "", nil, map[string]string{}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].Pkg+out[i].Name < out[j].Pkg+out[j].Name
	})
	return out, nil
}

// jsonRes is what a worker reports for one contract.
type jsonRes struct {
	Pkg, Name                 string
	Obls                      []*Obligation
	Err                       string
	Inlined, Applied, Assumed []string
	Secs                      float64
}

// limitMemory ends the process when it uses more than max bytes: the contract it works on counts as not proved.
func limitMemory(max uint64) {
	for {
		time.Sleep(300 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > max {
			fmt.Fprintln(os.Stderr, "verification of this contract exceeded its memory limit")
			os.Exit(4)
		}
	}
}

func worker() {
	// args: patterns..., then contract names on stdin, one per line as pkg.name
	pats := strings.Fields(os.Getenv("GOVER_PKGS"))
	enc := json.NewEncoder(os.Stdout)
	go limitMemory(3500 << 20)
	p, err := load(pats...)
	if err != nil {
		enc.Encode(jsonRes{Err: "load: " + err.Error()})
		return
	}
	if err := startSolvers(); err != nil {
		enc.Encode(jsonRes{Err: "solver: " + err.Error()})
		return
	}
	cs := p.contractsOf()
	byName := map[string]*Contract{}
	for _, c := range cs {
		byName[c.pkg+"."+c.name] = c
	}
	var name string
	for {
		if _, err := fmt.Scanln(&name); err != nil {
			return
		}
		c := byName[name]
		if c == nil {
			enc.Encode(jsonRes{Pkg: name, Err: "contract not found"})
			continue
		}
		r := verify(p, cs, c)
		enc.Encode(jsonRes{Pkg: c.pkg, Name: c.name, Obls: r.obls, Err: r.err, Inlined: r.inlined, Applied: r.applied, Assumed: r.assumed, Secs: r.secs})
	}
}

func startSolvers() (err error) {
	solver, err = startSMT("z3-new", "-in")
	return
}

type finding struct {
	Property, Contract, Kind, Desc, What string
}

func knownFindings() []finding {
	var fs []finding
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var doc struct{ Findings []finding }
	json.Unmarshal(b, &doc)
	fs = doc.Findings
	return fs
}

func patternOf(pkg string) string {
	return "./" + strings.TrimPrefix(strings.TrimPrefix(pkg, repoPath), "/")
}

func runWorkers(sel []ctrDecl, deadline time.Time) map[string]*jsonRes {
	pats := map[string]bool{"./lib/...": true}
	for _, d := range sel {
		if !strings.HasPrefix(d.Pkg, repoPath+"/lib") {
			pats[patternOf(d.Pkg)] = true
			if strings.Contains(d.Pkg, "/services") {
				pats["./protocols/..."] = true
			}
			if strings.Contains(d.Pkg, "/protocols") {
				pats["./protocols/..."] = true
			}
		}
	}
	n := runtime.NumCPU()
	if n > len(sel) {
		n = len(sel)
	}
	if n > 8 {
		n = 8
	}
	// long ones first
	sort.SliceStable(sel, func(i, j int) bool { return sel[i].Cost > sel[j].Cost })
	queue := make(chan ctrDecl, len(sel))
	for _, d := range sel {
		queue <- d
	}
	close(queue)
	res := map[string]*jsonRes{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in interface{ Write([]byte) (int, error) }
			var dec *json.Decoder
			start := func() bool {
				cmd = exec.Command(self, "worker")
				cmd.Env = append(os.Environ(), "GOVER_PKGS="+strings.Join(sortedKeys(pats), " "))
				w, _ := cmd.StdinPipe()
				in = w
				r, _ := cmd.StdoutPipe()
				cmd.Stderr = os.Stderr
				if err := cmd.Start(); err != nil {
					return false
				}
				dec = json.NewDecoder(r)
				return true
			}
			if !start() {
				return
			}
			defer func() { cmd.Process.Kill(); cmd.Wait() }()
			for d := range queue {
				key := d.Pkg + "." + d.Name
				fmt.Fprintln(in.(interface{ Write([]byte) (int, error) }), key)
				var jr jsonRes
				done := make(chan error, 1)
				go func() { done <- dec.Decode(&jr) }()
				lim := time.Until(deadline)
				if lim > 420*time.Second {
					lim = 420 * time.Second
				}
				var err error
				select {
				case err = <-done:
				case <-time.After(lim):
					err = fmt.Errorf("verification of this contract exceeded its time limit")
				}
				if err != nil || strings.HasPrefix(jr.Err, "load: ") || strings.HasPrefix(jr.Err, "solver: ") {
					if err != nil {
						jr = jsonRes{Err: "worker: " + err.Error()}
					}
					cmd.Process.Kill()
					cmd.Wait()
					jr.Pkg, jr.Name = d.Pkg, d.Name
					mu.Lock()
					res[key] = &jr
					mu.Unlock()
					if !start() {
						return
					}
					continue
				}
				mu.Lock()
				res[key] = &jr
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return res
}

// replay looks for a concrete input on which a contract fails when the real code runs.
func replay(d ctrDecl, budget time.Duration, race bool) (input string, log string) {
	tmp, err := os.MkdirTemp("", "goverreplay")
	if err != nil {
		return "", err.Error()
	}
	defer os.RemoveAll(tmp)
	rel := strings.TrimPrefix(strings.TrimPrefix(d.Pkg, repoPath), "/")
	pkgName := packageName(d)
	progress := filepath.Join(tmp, "progress")
	inputs := d.Opts["inputs"]
	if inputs == "" {
		inputs = "nil"
	}
	nodes, modfile := rel == "protocols" || rel == "services", ""
	imports, inits := "", ""
	if nodes {
		if modfile, err = onetModfile(tmp); err != nil {
			return "", err.Error()
		}
		imports, inits = nodeImports, nodeInit
	}
	src := fmt.Sprintf(`//go:build go1.18

package %s

import (
	"fmt"
	"os"
	"testing"
	"time"
%s
	"github.com/ldsec/unlynx/lib/zzghost"
)
%s
func TestZZVerifReplay(t *testing.T) {
	if s := os.Getenv("ZZ_SEED"); s != "" {
		var n int64
		fmt.Sscan(s, &n)
		fmt.Println("ZZINPUT", zzghost.Describe(%s, %s, n))
		return
	}
	if r := zzghost.Hunt(%q, %s, %s, %d*time.Millisecond, %q); r != "" {
		fmt.Println("ZZFAIL", r)
		fmt.Println("ZZEND")
	}
}
`, pkgName, imports, inits, d.Name, inputs, d.Name, d.Name, inputs, budget.Milliseconds(), progress)
	tf := filepath.Join(tmp, "zz_verif_replay_test.go")
	os.WriteFile(tf, []byte(src), 0o644)
	ovf := filepath.Join(tmp, "overlay.json")
	// the package's own test files are left out: they may have their own TestMain
	extra := map[string]string{filepath.Join(repoDir, rel, "zz_verif_replay_test.go"): tf}
	own, _ := filepath.Glob(filepath.Join(repoDir, rel, "*_test.go"))
	for _, o := range own {
		extra[o] = ""
	}
	writeOverlay(ovf, extra)
	args := []string{"test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", int(budget.Seconds())+90), "-run", "^TestZZVerifReplay$", "-v"}
	if race {
		args = append(args, "-race")
	}
	if modfile != "" {
		args = append(args, "-modfile", modfile)
	}
	args = append(args, "./"+rel)
	cmd := exec.Command("/opt/veriftools/go1.23.12/bin/go", args...)
	cmd.Dir = repoDir
	cmd.Env = repoEnv()
	out, err := cmd.CombinedOutput()
	s := string(out)
	if i := strings.Index(s, "ZZFAIL"); i >= 0 {
		j := strings.Index(s, "ZZEND")
		if j < i {
			j = len(s)
		}
		return strings.TrimSpace(s[i+6 : j]), s
	}
	pb, _ := os.ReadFile(progress)
	if strings.Contains(s, "WARNING: DATA RACE") {
		i := strings.Index(s, "WARNING: DATA RACE")
		return "data race reported by the race detector while running " + string(pb) + clip(s[i:], 3000), s
	}
	if err != nil && len(pb) > 0 && !strings.HasPrefix(string(pb), "done") {
		// the process died while running this input
		return "the process died (panic in a goroutine, fatal error or abort) while running " + string(pb) + clip(tail(s, 4000), 4000), s
	}
	return "", s + "\n" + string(pb)
}

func tail(s string, n int) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
		if len(s) > n {
			s = s[:n]
		}
		return s
	}
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func packageName(d ctrDecl) string {
	ov, _ := overlayFiles()
	for dst, src := range ov {
		rel, _ := filepath.Rel(repoDir, filepath.Dir(dst))
		if repoPath+"/"+rel == d.Pkg {
			b, _ := os.ReadFile(src)
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "package ") {
					return strings.TrimSpace(strings.TrimPrefix(l, "package "))
				}
			}
		}
	}
	return filepath.Base(d.Pkg)
}

func check(prop, tier string) int {
	t0 := time.Now()
	deadline := t0.Add(600 * time.Second)
	ds, err := declared()
	if err != nil {
		fmt.Println("contracts:", err)
	}
	var sel []ctrDecl
	for _, d := range ds {
		for _, p := range d.Props {
			if p == prop {
				sel = append(sel, d)
				break
			}
		}
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence", "replay"), 0o755)
	if len(sel) == 0 {
		rp := filepath.Join(verifDir, "evidence", "replay", prop+".txt")
		os.WriteFile(rp, []byte("no contract declares this property\n"), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		return 1
	}
	res := runWorkers(append([]ctrDecl{}, sel...), deadline)
	known := knownFindings()
	isKnown := func(c, kind, desc string) *finding {
		for i := range known {
			f := &known[i]
			if f.Property == prop && f.Contract == c && f.Kind == kind && f.Desc == desc {
				return f
			}
		}
		return nil
	}
	total, discharged := 0, 0
	backends := map[string]int{}
	solverMs := 0.0
	assumed, inlined, applied := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var funcs []map[string]interface{}
	type viol struct {
		d    ctrDecl
		what string
		race bool
	}
	var viols []viol
	violated := 0
	found := 0
	printed := map[string]bool{}
	for _, d := range sel {
		r := res[d.Pkg+"."+d.Name]
		if r == nil {
			r = &jsonRes{Pkg: d.Pkg, Name: d.Name, Err: "no result from the verifier"}
		}
		var bad []string
		race := false
		nd := 0
		for _, o := range r.Obls {
			if o.OK {
				total++
				nd++
				discharged++
				backends[o.Backend]++
				solverMs += o.Ms
				continue
			}
			if f := isKnown(d.Name, o.Kind, o.Desc); f != nil {
				if !printed[f.What] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
					printed[f.What] = true
				}
				continue
			}
			total++
			if o.Kind == "race" || o.Kind == "join" {
				race = true
			}
			bad = append(bad, fmt.Sprintf("obligation %s: %s\n  at %s in %s\n  %s", o.Kind, o.Desc, o.Pos, o.Fn, o.Detail))
		}
		if r.Err != "" {
			total++
			bad = append(bad, "the verifier could not process the code: "+r.Err)
		} else if len(r.Obls) == 0 {
			total++
			bad = append(bad, "no obligation was generated")
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		for _, a := range r.Inlined {
			inlined[a] = true
		}
		for _, a := range r.Applied {
			applied[a] = true
		}
		funcs = append(funcs, map[string]interface{}{"contract": strings.TrimPrefix(d.Pkg, repoPath+"/") + "." + d.Name, "states": d.Doc, "obligations": len(r.Obls), "discharged": nd, "seconds": r.Secs})
		if len(bad) > 0 {
			viols = append(viols, viol{d, strings.Join(bad, "\n"), race})
		}
	}
	for i, v := range viols {
		violated++
		rp := filepath.Join(verifDir, "evidence", "replay", prop+"_"+v.d.Name+".txt")
		text := fmt.Sprintf("property %s\ncontract %s.%s: %s\n\nfailed:\n%s\n\n", prop, v.d.Pkg, v.d.Name, v.d.Doc, v.what)
		budget := 40 * time.Second
		if tier == "thorough" {
			budget = 120 * time.Second
		}
		left := time.Until(t0.Add(780 * time.Second))
		if i > 3 || found > 0 && tier != "thorough" {
			budget = 10 * time.Second
		}
		in, lg := "", ""
		if left > budget+60*time.Second {
			in, lg = replay(v.d, budget, false)
			if in == "" && v.race && time.Until(t0.Add(780*time.Second)) > budget+120*time.Second {
				in, lg = replay(v.d, budget/2, true)
			}
		}
		suffix := ""
		if in != "" {
			found++
			text += "replayed on the real code:\n" + in + "\n"
		} else {
			suffix = " no-failing-input-found"
			text += "no failing input found by replay\n" + clip(lg, 3000) + "\n"
		}
		os.WriteFile(rp, []byte(text), 0o644)
		fmt.Printf("%s\n", clip(text, 2500))
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var tb []string
	for _, a := range sortedKeys(assumed) {
		tb = append(tb, "modelled, not verified: "+a)
	}
	tb = append(tb, "gover (the verification-condition generator and its simplifier)", "z3 5.3.2", "golang.org/x/tools/go/ssa v0.52.0")
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": discharged,
			"checker_cmd":  fmt.Sprintf("bash /verif/check.sh %s %s", prop, tier),
			"trusted_base": tb,
			"contracts":    funcs, "backends": backends, "solver_ms": int(solverMs),
			"functions_executed_symbolically": sortedKeys(inlined),
			"calls_by_contract":               sortedKeys(applied),
		},
		"assumptions": assumptions(),
		"wall_s":      time.Since(t0).Seconds(), "violations": violated,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
	fmt.Printf("%s: %d contracts, %d/%d obligations discharged, %.1f s\n", prop, len(sel), discharged, total, time.Since(t0).Seconds())
	if violated > 0 {
		return 1
	}
	return 0
}

func assumptions() []string {
	return []string{
		"the Ed25519 group of kyber is a prime-order group with generator B; its operations are modelled by the group laws, its encodings by injective 32-byte functions",
		"machine integers are treated as mathematical integers; integers used as scalars are smaller than the group order",
		"distinct pointer, slice and map parameters of a contract do not alias and slices have no spare capacity, unless the contract says otherwise",
		"goroutines are joined by WaitGroup; executing a goroutine at its go statement is justified by the race obligations",
		"sigma-protocol proofs are complete and knowledge-sound (Fiat-Shamir); floating point arithmetic is uninterpreted",
	}
}
