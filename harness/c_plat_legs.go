//go:build !js

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() { extraLegs["C25"] = platLegs }

const repoDir = "/repo"

// A platform of the cross builds. Every architecture Go supports is there; the
// thorough tier adds the other operating systems.
type platform struct{ os, arch string }

var platQuick = []platform{{"linux", "amd64"}, {"linux", "386"}, {"linux", "arm"}, {"linux", "arm64"}, {"linux", "loong64"}, {"linux", "mips"}, {"linux", "mipsle"}, {"linux", "mips64"}, {"linux", "mips64le"}, {"linux", "ppc64"}, {"linux", "ppc64le"}, {"linux", "riscv64"}, {"linux", "s390x"}, {"js", "wasm"}, {"wasip1", "wasm"}}

var bigEndian = map[string]bool{"mips": true, "mips64": true, "ppc64": true, "s390x": true}

var bits32 = map[string]bool{"386": true, "arm": true, "mips": true, "mipsle": true}

func crossEnv(p platform) []string {
	return append(os.Environ(), "CGO_ENABLED=0", "GOOS="+p.os, "GOARCH="+p.arch)
}

// tool runs a command with a time limit and returns its output.
func tool(dir string, env []string, limit time.Duration, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir, cmd.Env = dir, env
	cmd.WaitDelay = 5 * time.Second
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	if ctx.Err() != nil {
		err = fmt.Errorf("timed out after %v", limit)
	}
	return b.String(), err
}

// environmental tells whether a failure is not the code's fault.
func environmental(out string, err error) bool {
	if err != nil && strings.Contains(err.Error(), "timed out") {
		return true
	}
	for _, s := range []string{"no space left", "signal: killed", "cannot allocate memory", "out of memory", "resource temporarily unavailable", "exec format error"} {
		if strings.Contains(out, s) || err != nil && strings.Contains(err.Error(), s) {
			return true
		}
	}
	return false
}

type pkgFiles struct {
	ImportPath, Dir                  string
	Name                             string
	GoFiles, SFiles, HFiles, Imports []string
}

func listPkgs(p platform) (map[string]pkgFiles, error) {
	cmd := exec.Command("go", "list", "-e", "-json=ImportPath,Dir,Name,GoFiles,SFiles,HFiles,Imports", "./...")
	cmd.Dir, cmd.Env = repoDir, crossEnv(p)
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	m := map[string]pkgFiles{}
	d := json.NewDecoder(bytes.NewReader(out))
	for d.More() {
		var x pkgFiles
		if err := d.Decode(&x); err != nil {
			return nil, err
		}
		m[x.ImportPath] = x
	}
	return m, nil
}

// emulate describes how to run the files another platform selects.
func emulate(work string, host, target map[string]pkgFiles) (overlay string, portable, differs bool, sig string, err error) {
	repl := map[string]string{}
	n := 0
	var sigs []string
	put := func(path, content string) error {
		f := filepath.Join(work, fmt.Sprintf("overlay%d.go", n))
		n++
		repl[path] = f
		return os.WriteFile(f, []byte(content), 0o644)
	}
	for path, t := range target {
		h := host[path]
		if len(t.SFiles) > 0 || len(h.SFiles) > 0 {
			return "", false, true, "", fmt.Errorf("%s has assembly files", path)
		}
		in := func(v []string, s string) bool {
			for _, x := range v {
				if x == s {
					return true
				}
			}
			return false
		}
		for _, g := range h.GoFiles {
			if !in(t.GoFiles, g) {
				differs = true
				sigs = append(sigs, "-"+path+"/"+g)
				if err = put(filepath.Join(h.Dir, g), "package "+h.Name+"\n"); err != nil {
					return
				}
			}
		}
		for _, g := range t.GoFiles {
			if in(h.GoFiles, g) {
				continue
			}
			differs = true
			sigs = append(sigs, "+"+path+"/"+g)
			src, e := os.ReadFile(filepath.Join(t.Dir, g))
			if e != nil {
				return "", false, true, "", e
			}
			lines := strings.Split(string(src), "\n")
			for i, l := range lines {
				if strings.HasPrefix(l, "package ") {
					break
				}
				if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build") || strings.HasPrefix(l, "//+build") {
					lines[i] = "//"
				}
			}
			s := strings.Join(lines, "\n")
			for _, p := range []string{`"encoding/binary"`, `"math/bits"`, "NativeEndian"} {
				if strings.Contains(s, p) {
					portable = true
				}
			}
			if err = put(filepath.Join(t.Dir, fmt.Sprintf("zz_verif_%d.go", n)), s); err != nil {
				return
			}
		}
	}
	sort.Strings(sigs)
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	overlay = filepath.Join(work, "overlay.json")
	err = os.WriteFile(overlay, b, 0o644)
	return overlay, portable, differs, strings.Join(sigs, " "), err
}

func platLegs(x *supervisor) error {
	harness := filepath.Join(verifDir, "harness")
	note := func(kind, v string) {
		x.mu.Lock()
		defer x.mu.Unlock()
		if x.total.States[kind] == nil {
			x.total.States[kind] = map[string]int{}
		}
		x.total.States[kind][v]++
	}
	viol := func(build, format string, a ...any) {
		x.addViol(Viol{Prop: x.p.ID, Tier: x.tier, Seed: x.seed, Idx: -1, Build: build, Msg: fmt.Sprintf(format, a...)})
	}
	// Cross builds.
	plats := platQuick
	if x.tier == "thorough" {
		out, err := tool(repoDir, os.Environ(), time.Minute, "go", "tool", "dist", "list")
		if err != nil {
			return fmt.Errorf("go tool dist list: %v: %s", err, out)
		}
		plats = nil
		for _, l := range strings.Fields(out) {
			o, a, _ := strings.Cut(l, "/")
			plats = append(plats, platform{o, a})
		}
	}
	if out, err := tool(repoDir, crossEnv(platform{"linux", "amd64"}), 10*time.Minute, "go", "build", "./..."); err != nil {
		return fmt.Errorf("the native build failed: %v: %s", err, clipS(out, 800))
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for _, p := range plats {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			var out string
			var err error
			for try := 0; try < 2; try++ {
				out, err = tool(repoDir, crossEnv(p), 10*time.Minute, "go", "build", "./...")
				if err == nil || !environmental(out, err) {
					break
				}
			}
			name := p.os + "/" + p.arch
			switch {
			case err == nil:
				x.mu.Lock()
				x.total.Evaluations++
				x.total.Distinct["build "+name] = 1
				x.mu.Unlock()
				note("builds_for", name)
			case environmental(out, err):
				x.addErr("build for %s: %v: %s", name, err, clipS(out, 500))
			default:
				viol("cross", "the packages do not build for %s: %s", name, clipS(out, 1500))
			}
		}()
	}
	wg.Wait()
	if len(x.viols) > 0 {
		return nil
	}
	build := func(name string, p platform, extra ...string) (string, string, error) {
		bin := filepath.Join(x.dir, name)
		out, err := tool(harness, crossEnv(p), 10*time.Minute, "go", append(append([]string{"build"}, extra...), "-o", bin, ".")...)
		return bin, out, err
	}
	// 32-bit.
	hosts := map[bool]platform{false: {"linux", "amd64"}, true: {"linux", "386"}}
	bin386, out, err := build("h386", hosts[true])
	if err != nil {
		return fmt.Errorf("building the harness for 386: %v: %s", err, clipS(out, 800))
	}
	can386 := true
	if out, err := tool(harness, os.Environ(), time.Minute, bin386, "list"); err != nil {
		can386 = false
		note("skipped", "running 386 programs: "+clipS(out+err.Error(), 100))
	}
	if can386 {
		x.runLeg("386", bin386, nil)
	}
	// The code other platforms select, on the host.
	lists := map[platform]map[string]pkgFiles{}
	for _, p := range platQuick {
		l, err := listPkgs(p)
		if err != nil {
			return fmt.Errorf("go list for %v: %v", p, err)
		}
		lists[p] = l
	}
	done := map[string]bool{}
	for _, p := range platQuick {
		host := hosts[bits32[p.arch]]
		if p == host || bits32[p.arch] && !can386 {
			continue
		}
		work := filepath.Join(x.dir, "emu."+p.os+"."+p.arch)
		if err := os.MkdirAll(work, 0o755); err != nil {
			return err
		}
		overlay, portable, differs, sig, err := emulate(work, lists[host], lists[p])
		if err != nil {
			note("not_emulated", p.os+"/"+p.arch+": "+err.Error())
			continue
		}
		if !differs {
			note("emulated", p.os+"/"+p.arch+": selects the files of "+host.os+"/"+host.arch)
			continue
		}
		note("emulated", p.os+"/"+p.arch+": "+sig)
		key := fmt.Sprint(host, bigEndian[p.arch], sig)
		if done[key] {
			continue
		}
		done[key] = true
		leg := "emulated-" + p.os + "-" + p.arch
		bin, out, err := build(leg, host, "-overlay", overlay)
		if err != nil {
			// Files meant for another platform need not build for this one;
			// that they build for theirs has been seen above.
			note("not_emulated", leg+": "+clipS(out, 300))
			continue
		}
		mode := "off"
		if bigEndian[p.arch] {
			mode = "strict"
			if portable {
				mode = "auto"
			}
		}
		x.runLeg(leg, bin, []string{"VERIF_SWAP=" + mode})
	}
	// The cases of the other properties, elsewhere and natively.
	type job struct {
		plat, prop string
		start, n   int
	}
	var jobs []job
	var ids []string
	for id := range props {
		if id != "C19" && id != "C26" && id != "C30" {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	n386, nwasm := 128, 16
	if x.tier == "thorough" {
		n386, nwasm = 1500, 160
	}
	_, nodeErr := exec.LookPath("node")
	wasmExec := filepath.Join(os.Getenv("GOROOT"), "lib/wasm/wasm_exec_node.js")
	if _, err := os.Stat(wasmExec); err != nil && nodeErr == nil {
		nodeErr = err
	}
	var binWasm string
	if nodeErr == nil {
		binWasm, out, err = build("h.wasm", platform{"js", "wasm"})
		if err != nil {
			return fmt.Errorf("building the harness for wasm: %v: %s", err, clipS(out, 800))
		}
	} else {
		note("skipped", "running wasm programs: "+nodeErr.Error())
	}
	for _, id := range ids {
		if nodeErr == nil {
			for at := 0; at < nwasm; at += 16 {
				jobs = append(jobs, job{"wasm", id, 8 + at, 16})
			}
		}
	}
	for _, id := range ids {
		if can386 && id != "C25" {
			for at := 0; at < n386; at += 250 {
				jobs = append(jobs, job{"386", id, at, min(250, n386-at)})
			}
		}
	}
	self, err := os.Executable()
	if err != nil {
		return err
	}
	run := func(plat string, j job) (string, error) {
		args := []string{"range", "-prop", j.prop, "-tier", "quick", "-seed", fmt.Sprint(x.seed), "-start", fmt.Sprint(j.start), "-of", fmt.Sprint(j.n), "-verif", verifDir}
		env := append(os.Environ(), "VERIF_BUILD="+plat, "GOMAXPROCS=2")
		switch plat {
		case "wasm":
			env = []string{"PATH=" + os.Getenv("PATH"), "VERIF_BUILD=wasm"}
			return tool(harness, env, 5*time.Minute, "node", append([]string{"--stack-size=8192", wasmExec, binWasm}, args...)...)
		case "386":
			return tool(harness, env, 5*time.Minute, bin386, args...)
		}
		return tool(harness, env, 5*time.Minute, self, args...)
	}
	sem = make(chan bool, 8)
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			a, aerr := run(j.plat, j)
			if aerr == nil && j.prop != "C25" {
				// Everything as specified there; that is all there is to it.
				x.mu.Lock()
				x.total.Evaluations++
				x.total.Cases += j.n
				x.total.Counters["cases_"+j.plat] += j.n
				x.total.Distinct[fmt.Sprint(j)] = 1
				x.mu.Unlock()
				note("ran_on_"+j.plat, j.prop)
				return
			}
			if environmental("", aerr) {
				x.addErr("%v: %v", j, aerr)
				return
			}
			b, berr := run("native", j)
			switch {
			case aerr != nil && berr != nil:
				// Broken everywhere: not for this property to report.
				note("fails_natively_too", j.prop)
			case aerr != nil:
				viol(j.plat, "cases %d to %d of %s fail on %s only: %v: %s", j.start, j.start+j.n-1, j.prop, j.plat, aerr, clipS(a, 2500))
			case berr != nil:
				note("fails_natively_only", j.prop)
			case a[strings.Index(a, "\n")+1:] != b[strings.Index(b, "\n")+1:]:
				viol(j.plat, "cases %d to %d of %s give different output on %s: %s natively: %s", j.start, j.start+j.n-1, j.prop, j.plat, clipS(a, 1200), clipS(b, 1200))
			default:
				x.mu.Lock()
				x.total.Evaluations += j.n
				x.total.Cases += j.n
				x.total.Counters["cases_"+j.plat] += j.n
				x.total.Distinct[fmt.Sprint(j)] = 1
				x.mu.Unlock()
				note("ran_on_"+j.plat, j.prop)
			}
		}()
	}
	wg.Wait()
	return nil
}
