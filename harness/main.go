// Command harness runs the runtime monitors of /verif against the code in
// /repo. See ../DESIGN.md.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Prop is one monitored property.
type Prop struct {
	ID    string
	Level string
	Rule  string
	// Quick and Thorough are the numbers of cases per tier.
	Quick, Thorough int
	// Run runs one case: it drives the code and judges what it observed.
	Run func(c *C)
	// Assume lists assumptions for the evidence file.
	Assume []string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

// violation is the panic value used to abandon a case.
type violation struct{ msg string }

// C is the context of one case.
type C struct {
	Prop  *Prop
	Idx   int
	Total int
	Tier  string
	Seed  uint64
	R     *Rng
	out   *ShardOut
	key   []string
	brief []string
}

// Failf reports a violation of the property and abandons the case.
func (c *C) Failf(format string, a ...any) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// Check fails the case unless ok.
func (c *C) Check(ok bool, format string, a ...any) {
	if !ok {
		c.Failf(format, a...)
	}
}

// Eval counts n judged executions.
func (c *C) Eval(n int) { c.out.Evaluations += n }

// Count adds to a named coverage counter.
func (c *C) Count(name string, n int) { c.out.Counters[name] += n }

// State records that an abstract state, transition or situation was seen.
func (c *C) State(kind, v string) {
	m := c.out.States[kind]
	if m == nil {
		m = map[string]int{}
		c.out.States[kind] = m
	}
	if _, ok := m[v]; ok || len(m) < 4000 {
		m[v]++
	}
}

// Distinct records a distinct non-trivial case by its signature.
func (c *C) Distinct(format string, a ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, a...)
	c.out.Distinct[fmt.Sprintf("%016x", h.Sum64())] = 1
}

// Briefly describes the case for samples and replay files.
func (c *C) Briefly(format string, a ...any) {
	if len(c.brief) < 400 {
		c.brief = append(c.brief, fmt.Sprintf(format, a...))
	}
}

// Sample stores the description of the case as an evidence sample.
func (c *C) sample() {
	if len(c.out.Samples) < 3 && len(c.brief) > 0 {
		s := strings.Join(c.brief, "; ")
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		c.out.Samples = append(c.out.Samples, fmt.Sprintf("case %d: %s", c.Idx, s))
	}
}

// Known reports that a listed finding was observed. If the finding is not
// listed for this property, it is a violation.
func (c *C) Known(id, format string, a ...any) {
	if !knownFinding(c.Prop.ID, id) {
		c.Failf(format, a...)
	}
	if _, ok := c.out.Known[id]; !ok {
		c.out.Known[id] = fmt.Sprintf(format, a...)
	}
}

// Viol is a recorded violation.
type Viol struct {
	Prop  string   `json:"property"`
	Tier  string   `json:"tier"`
	Seed  uint64   `json:"seed"`
	Idx   int      `json:"case"`
	Build string   `json:"build"`
	Msg   string   `json:"message"`
	Brief []string `json:"case_description,omitempty"`
	Stack string   `json:"stack,omitempty"`
}

// ShardOut is what one shard process observed.
type ShardOut struct {
	Evaluations int
	Cases       int
	Counters    map[string]int
	States      map[string]map[string]int
	Distinct    map[string]int
	Samples     []string
	Known       map[string]string
	Viols       []Viol
	Done        bool
}

func newShardOut() *ShardOut {
	return &ShardOut{Counters: map[string]int{}, States: map[string]map[string]int{}, Distinct: map[string]int{}, Known: map[string]string{}}
}

// Rng is a deterministic random source.
type Rng struct{ *rand.Rand }

func newRng(seed uint64, parts ...string) *Rng {
	h := fnv.New64a()
	fmt.Fprint(h, strings.Join(parts, "\x00"))
	return &Rng{rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+1, h.Sum64()))}
}

// In returns a number in [lo, hi].
func (r *Rng) In(lo, hi int) int { return lo + r.IntN(hi-lo+1) }

// P returns true with the given percentage.
func (r *Rng) P(percent int) bool { return r.IntN(100) < percent }

func pick[T any](r *Rng, v []T) T { return v[r.IntN(len(v))] }

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	i := 0
	for ; i+8 <= n; i += 8 {
		v := r.Uint64()
		for j := 0; j < 8; j++ {
			b[i+j] = byte(v >> (8 * j))
		}
	}
	for ; i < n; i++ {
		b[i] = byte(r.Uint32())
	}
	return b
}

var buildName = "plain"

// runCase runs one case and returns its violation, if any.
func runCase(p *Prop, tier string, seed uint64, idx, total int, out *ShardOut) (v *Viol) {
	c := &C{Prop: p, Idx: idx, Total: total, Tier: tier, Seed: seed, out: out, R: newRng(seed, p.ID, fmt.Sprint(idx))}
	defer func() {
		if e := recover(); e != nil {
			v = &Viol{Prop: p.ID, Tier: tier, Seed: seed, Idx: idx, Build: buildName, Brief: c.brief}
			if x, ok := e.(violation); ok {
				v.Msg = x.msg
			} else {
				v.Msg = fmt.Sprintf("panic: %v", e)
				v.Stack = string(debug.Stack())
				if len(v.Stack) > 6000 {
					v.Stack = v.Stack[:6000]
				}
			}
		}
	}()
	p.Run(c)
	c.sample()
	return nil
}

func cases(p *Prop, tier string) int {
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
		if buildName == "race" && p.ID != "C19" && p.ID != "C26" {
			n /= 8 // the additional leg under the race detector and checkptr
		}
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		fmt.Sscan(s, &n)
	}
	return n
}

// shardMain runs the cases idx = shard, shard+of, ... of a property.
func shardMain(p *Prop, tier string, seed uint64, shard, of, start int, dir string) {
	limitMemory()
	out := newShardOut()
	total := cases(p, tier)
	write := func() {
		b, err := json.Marshal(out)
		if err == nil {
			err = os.WriteFile(filepath.Join(dir, fmt.Sprintf("out.%d.tmp", shard)), b, 0o644)
		}
		if err == nil {
			err = os.Rename(filepath.Join(dir, fmt.Sprintf("out.%d.tmp", shard)), filepath.Join(dir, fmt.Sprintf("out.%d", shard)))
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "shard output:", err)
			os.Exit(3)
		}
	}
	status, err := os.Create(filepath.Join(dir, fmt.Sprintf("status.%d", shard)))
	if err != nil {
		fmt.Fprintln(os.Stderr, "shard status:", err)
		os.Exit(3)
	}
	last := time.Now()
	write()
	for idx := shard; idx < total; idx += of {
		if idx < start {
			continue
		}
		_, _ = status.WriteAt([]byte(fmt.Sprintf("%12d", idx)), 0)
		out.Cases++
		if v := runCase(p, tier, seed, idx, total, out); v != nil {
			out.Viols = append(out.Viols, *v)
			write()
			if len(out.Viols) >= 2 {
				break
			}
		}
		if time.Since(last) > 10*time.Second {
			write()
			last = time.Now()
		}
	}
	out.Done = true
	write()
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: harness run|shard|replay|one ...")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	if b := os.Getenv("VERIF_BUILD"); b != "" {
		buildName = b
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Uint64("seed", 1, "seed")
	shard := fs.Int("shard", 0, "shard")
	of := fs.Int("of", 8, "number of shards")
	start := fs.Int("start", 0, "first case")
	dir := fs.String("dir", "", "work directory")
	idx := fs.Int("case", 0, "case")
	verif := fs.String("verif", "/verif", "verif directory")
	_ = fs.Parse(os.Args[2:])
	verifDir = *verif
	p := props[*prop]
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "shard":
		if p == nil {
			usage()
		}
		shardMain(p, *tier, *seed, *shard, *of, *start, *dir)
	case "one":
		if p == nil {
			usage()
		}
		limitMemory()
		out := newShardOut()
		v := runCase(p, *tier, *seed, *idx, cases(p, *tier), out)
		b, _ := json.MarshalIndent(struct {
			V *Viol
			O *ShardOut
		}{v, out}, "", " ")
		fmt.Println(string(b))
		if v != nil {
			os.Exit(1)
		}
	case "range": // sequential run with one line of digest per case, for other platforms
		if p == nil {
			usage()
		}
		rangeMain(p, *tier, *seed, *start, *of)
	case "run":
		if p == nil {
			usage()
		}
		os.Exit(supervise(p, *tier, *seed))
	default:
		usage()
	}
	runtime.KeepAlive(p)
}

// rangeMain runs n cases sequentially in this process and prints a summary.
func rangeMain(p *Prop, tier string, seed uint64, start, n int) {
	out := newShardOut()
	for i := start; i < start+n; i++ {
		out.Cases++
		if v := runCase(p, tier, seed, i, start+n, out); v != nil {
			b, _ := json.Marshal(v)
			fmt.Printf("RANGE-VIOLATION %s\n", b)
			os.Exit(1)
		}
	}
	digest := ""
	if len(out.States["digest"]) > 0 {
		var ks []string
		for k := range out.States["digest"] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		digest = strings.Join(ks, "\n")
	}
	fmt.Printf("RANGE-OK cases=%d evaluations=%d distinct=%d known=%d\n%s\n", out.Cases, out.Evaluations, len(out.Distinct), len(out.Known), digest)
}
