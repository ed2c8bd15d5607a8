//go:build !js

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	// A case which burns this much CPU time without finishing is reported as
	// making no progress. The slowest case on the unchanged tree needs about a
	// hundredth of it.
	maxCaseCPU = 150 * time.Second
	// A case which has not finished after this much wall clock time, and has
	// not burned CPU time either, is blocked.
	maxCaseWall = 330 * time.Second
)

// extraLegs run in the supervisor before the shards, for properties which need
// more than running cases in this binary.
var extraLegs = map[string]func(x *supervisor) error{}

type supervisor struct {
	p     *Prop
	tier  string
	seed  uint64
	dir   string
	mu    sync.Mutex
	viols []Viol
	total *ShardOut
	legs  []string
	errs  []string
}

func (x *supervisor) addViol(v Viol) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.viols = append(x.viols, v)
}

func (x *supervisor) addErr(format string, a ...any) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.errs = append(x.errs, fmt.Sprintf(format, a...))
}

func (x *supervisor) merge(o *ShardOut, leg string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	t := x.total
	t.Evaluations += o.Evaluations
	t.Cases += o.Cases
	for k, n := range o.Counters {
		t.Counters[k] += n
	}
	for k, m := range o.States {
		if t.States[k] == nil {
			t.States[k] = map[string]int{}
		}
		for s, n := range m {
			t.States[k][s] += n
		}
	}
	for k := range o.Distinct {
		t.Distinct[k] = 1
	}
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, o.Samples...)
	}
	for k, v := range o.Known {
		t.Known[k] = v
	}
	x.viols = append(x.viols, o.Viols...)
	t.Counters["cases_"+leg] += o.Cases
}

func shards() int {
	if s := os.Getenv("VERIF_SHARDS"); s != "" {
		if n, err := strconv.Atoi(s); err == nil && n > 0 {
			return n
		}
	}
	return 8
}

func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.Atoi(f[11])
	s, _ := strconv.Atoi(f[12])
	return time.Duration(u+s) * 10 * time.Millisecond
}

// runShard runs one shard process of a leg, restarting it only after an
// externally killed process.
func (x *supervisor) runShard(leg, bin string, env []string, shard, of int) {
	start := 0
	for attempt := 0; attempt < 3; attempt++ {
		dir := filepath.Join(x.dir, fmt.Sprintf("%s.%d.%d", leg, shard, attempt))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			x.addErr("%v", err)
			return
		}
		cmd := exec.Command(bin, "shard", "-prop", x.p.ID, "-tier", x.tier, "-seed", fmt.Sprint(x.seed), "-shard", fmt.Sprint(shard), "-of", fmt.Sprint(of), "-start", fmt.Sprint(start), "-dir", dir, "-verif", verifDir)
		stderr, err := os.Create(filepath.Join(dir, "stderr"))
		if err != nil {
			x.addErr("%v", err)
			return
		}
		cmd.Stderr = stderr
		cmd.Env = append(append(os.Environ(), "VERIF_BUILD="+leg, "GOMAXPROCS=2", "GOTRACEBACK=all"), env...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			x.addErr("start shard: %v", err)
			return
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var stalled string
		var lastIdx = -1
		var cpu0 time.Duration
		var wall0 = time.Now()
		var werr error
	wait:
		for {
			select {
			case werr = <-done:
				break wait
			case <-time.After(500 * time.Millisecond):
				idx := readStatus(dir, shard)
				cpu := cpuTime(cmd.Process.Pid)
				if idx != lastIdx {
					lastIdx, cpu0, wall0 = idx, cpu, time.Now()
				} else if cpu-cpu0 > maxCaseCPU {
					stalled = fmt.Sprintf("no progress: case %d still running after %v of CPU time", idx, cpu-cpu0)
				} else if time.Since(wall0) > maxCaseWall {
					stalled = fmt.Sprintf("no progress: case %d blocked for %v", idx, time.Since(wall0).Round(time.Second))
				}
				if stalled != "" {
					_ = cmd.Process.Kill()
					werr = <-done
					break wait
				}
			}
		}
		stderr.Close()
		out := newShardOut()
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out.%d", shard))); err == nil {
			_ = json.Unmarshal(b, out)
		}
		x.merge(out, leg)
		if werr == nil && out.Done {
			return
		}
		idx := readStatus(dir, shard)
		tail, _ := os.ReadFile(filepath.Join(dir, "stderr"))
		if len(tail) > 5000 {
			tail = append(append(append([]byte{}, tail[:3500]...), []byte("\n...\n")...), tail[len(tail)-1400:]...)
		}
		v := Viol{Prop: x.p.ID, Tier: x.tier, Seed: x.seed, Idx: idx, Build: leg, Stack: string(tail)}
		if stalled != "" {
			v.Msg = stalled
			x.addViol(v)
			return
		}
		var ee *exec.ExitError
		if !errors.As(werr, &ee) {
			x.addErr("shard %s/%d: %v", leg, shard, werr)
			return
		}
		if ee.ExitCode() == 3 {
			x.addErr("shard %s/%d: harness error: %s", leg, shard, tail)
			return
		}
		ws, _ := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			// Somebody else ended the process, presumably for want of memory:
			// rerun just that case, and go on if that works.
			if idx < 0 {
				start = 0
				continue
			}
			one := exec.Command(bin, "one", "-prop", x.p.ID, "-tier", x.tier, "-seed", fmt.Sprint(x.seed), "-case", fmt.Sprint(idx), "-verif", verifDir)
			one.Env = cmd.Env
			if o, err := one.CombinedOutput(); err != nil {
				v.Msg = fmt.Sprintf("process killed while running case %d, and again when repeating it (%v)", idx, err)
				if len(o) > 4000 {
					o = o[:4000]
				}
				v.Stack = string(o)
				x.addViol(v)
				return
			}
			start = idx + 1
			continue
		}
		what := "crashed"
		if bytes.Contains(tail, []byte("DATA RACE")) {
			what = "data race reported"
		} else if bytes.Contains(tail, []byte("AddressSanitizer")) {
			what = "AddressSanitizer report"
		} else if bytes.Contains(tail, []byte("checkptr")) {
			what = "checkptr report"
		} else if bytes.Contains(tail, []byte("stack overflow")) || bytes.Contains(tail, []byte("stack exceeds")) {
			what = "stack overflow"
		} else if bytes.Contains(tail, []byte("out of memory")) || bytes.Contains(tail, []byte("cannot allocate memory")) {
			what = "out of memory"
		} else if bytes.Contains(tail, []byte("all goroutines are asleep")) {
			what = "deadlock"
		}
		v.Msg = fmt.Sprintf("process %s while running case %d (%v)", what, idx, ee)
		x.addViol(v)
		return
	}
	x.addErr("shard %s/%d: killed repeatedly", leg, shard)
}

func readStatus(dir string, shard int) int {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("status.%d", shard)))
	if err != nil {
		return -1
	}
	n, err := strconv.Atoi(strings.TrimSpace(string(b)))
	if err != nil {
		return -1
	}
	return n
}

func (x *supervisor) runLeg(leg, bin string, env []string) {
	of := shards()
	var wg sync.WaitGroup
	for s := 0; s < of; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.runShard(leg, bin, env, s, of)
		}()
	}
	wg.Wait()
	x.legs = append(x.legs, leg)
}

func supervise(p *Prop, tier string, seed uint64) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp(filepath.Join(verifDir, ".build"), "run.")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	x := &supervisor{p: p, tier: tier, seed: seed, dir: dir, total: newShardOut()}
	if f := extraLegs[p.ID]; f != nil {
		if err := f(x); err != nil {
			x.addErr("%v", err)
		}
	}
	// VERIF_LEGS is a list like "plain=/path/a race=/path/b".
	for _, l := range strings.Fields(os.Getenv("VERIF_LEGS")) {
		name, bin, _ := strings.Cut(l, "=")
		var env []string
		switch name {
		case "race":
			env = []string{"GORACE=halt_on_error=1 exitcode=66"}
		case "asan":
			env = []string{"ASAN_OPTIONS=halt_on_error=1:abort_on_error=0:exitcode=67:detect_leaks=0:handle_segv=0"}
		}
		x.runLeg(name, bin, env)
	}
	wall := time.Since(t0).Seconds()
	// Several shards often find the same thing; report a few.
	sort.SliceStable(x.viols, func(i, j int) bool { return x.viols[i].Idx < x.viols[j].Idx })
	if err := x.writeEvidence(wall); err != nil {
		fmt.Println("ERROR: evidence:", err)
		return 2
	}
	for _, f := range loadFindings() {
		if f.Property == p.ID {
			if what, ok := x.total.Known[f.ID]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s; e.g. %s)\n", p.ID, f.What, f.ID, what)
			}
		}
	}
	fmt.Printf("property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d violations=%d wall=%.1fs\n", p.ID, tier, seed, x.total.Cases, x.total.Evaluations, len(x.total.Distinct), len(x.viols), wall)
	if len(x.viols) > 0 {
		rdir := filepath.Join(verifDir, "replays")
		_ = os.MkdirAll(rdir, 0o755)
		for i, v := range x.viols {
			if i >= 3 {
				break
			}
			b, _ := json.MarshalIndent(v, "", "  ")
			path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d-%d.json", p.ID, v.Build, seed, v.Idx))
			_ = os.WriteFile(path, append(b, '\n'), 0o644)
			msg := v.Msg
			if len(msg) > 600 {
				msg = msg[:600] + "..."
			}
			fmt.Printf("  case %d (%s): %s\n", v.Idx, v.Build, msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	if len(x.errs) > 0 {
		for _, e := range x.errs {
			fmt.Println("ERROR:", e)
		}
		return 2
	}
	if x.total.Evaluations == 0 || len(x.total.Distinct) == 0 {
		fmt.Println("ERROR: nothing was observed")
		return 2
	}
	return 0
}

func (x *supervisor) writeEvidence(wall float64) error {
	t := x.total
	cov := map[string]any{
		"evaluations":         t.Evaluations,
		"distinct_nontrivial": len(t.Distinct),
		"rule":                x.p.Rule,
		"cases":               t.Cases,
		"observed":            t.Counters,
		"builds":              x.legs,
	}
	s := t.Samples
	if len(s) > 6 {
		s = s[:6]
	}
	if len(s) == 0 {
		s = []string{"(no case completed)"}
	}
	cov["samples"] = s
	st := map[string]any{}
	for k, m := range t.States {
		if k == "digest" {
			continue
		}
		if len(m) <= 40 {
			st[k] = m
		} else {
			st[k] = map[string]int{"distinct": len(m)}
		}
	}
	if len(st) > 0 {
		cov["states_seen"] = st
	}
	ev := map[string]any{
		"property": x.p.ID, "tier": x.tier, "seed": x.seed, "level": x.p.Level,
		"coverage": cov, "wall_s": wall, "violations": len(x.viols),
	}
	if len(x.p.Assume) > 0 {
		ev["assumptions"] = x.p.Assume
	}
	b, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verifDir, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, x.p.ID+".json"), append(b, '\n'), 0o644)
}
