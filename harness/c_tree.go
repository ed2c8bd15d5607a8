package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"runtime"
	"sort"

	"github.com/gogama/flatgeobuf/packedrtree"
)

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// mustNotPanic runs f and fails the case if it panics.
func mustNotPanic(c *C, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(violation); ok {
				panic(v)
			}
			buf := make([]byte, 3000)
			buf = buf[:runtime.Stack(buf, false)]
			c.Failf("%s panicked: %v\n%s", what, e, buf)
		}
	}()
	f()
}

// panics reports whether f panics.
func panics(f func()) (yes bool) {
	defer func() {
		if recover() != nil {
			yes = true
		}
	}()
	f()
	return
}

func treeShape(n, ns int) string {
	s := levelSizes(n, ns)
	full := 0
	for i := 0; i+1 < len(s); i++ {
		if s[i]%ns == 0 {
			full |= 1 << i
		}
	}
	return fmt.Sprintf("levels=%d fullmask=%b", len(s), full)
}

// loosen enlarges boxes of internal nodes, the root's among them, as another
// writer might which computes them with less precision.
func loosen(r *Rng, nodes []rnode, starts []int) {
	for i := 0; i < starts[0]; i++ {
		if b := &nodes[i].B; r.P(60) && !math.IsInf(b[0]+b[2], 0) && !math.IsInf(b[1]+b[3], 0) && b.proper() {
			for j := range b {
				if d := float64(r.IntN(3)) * (1 + math.Abs(b[j])/1e3); j < 2 {
					b[j] -= d
				} else {
					b[j] += d
				}
			}
		}
	}
}

// bigTree searches an index of millions of references in memory, with nodes of
// so many children that very many of them wait to be visited.
func bigTree(c *C) {
	r := c.R
	_, free := bigZeros(1) // more memory may be used
	defer free()
	ns := int64(r.In(2060, 2200))
	n := ns*ns + int64(r.In(-3000, 3000))
	if c.Idx%7000 > 3500 {
		n, ns = 1<<24+int64(r.In(1, 70000)), int64(pick(r, []int{16, 300, 4200}))
	}
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: float64(i), XMax: float64(i)}, Offset: 7*int64(i) + 3}
	}
	p, err := packedrtree.New(refs, uint16(ns))
	c.Check(err == nil, "New(%d refs, %d): %v", n, ns, err)
	what := fmt.Sprintf("index of %d refs, node size %d", n, ns)
	for k := 0; k < 6; k++ {
		a, b := int64(0), n-1
		if k == 1 {
			a = n - 1
		} else if k > 1 {
			a = int64(r.Uint64() % uint64(n))
			b = min(n-1, a+int64(r.IntN(100000)))
		}
		rs := p.Search(packedrtree.Box{XMin: float64(a), XMax: float64(b)})
		c.Check(int64(len(rs)) == b-a+1, "%s: searching for %d..%d gives %d results", what, a, b, len(rs))
		seen := make([]bool, b-a+1)
		for _, x := range rs {
			i := int64(x.RefIndex)
			c.Check(i >= a && i <= b && !seen[i-a] && x.Offset == 7*i+3, "%s: searching for %d..%d gives %+v, or gives it twice", what, a, b, x)
			seen[i-a] = true
		}
		c.Eval(1)
	}
	c.Check(p.Bounds() == packedrtree.Box{XMax: float64(n - 1)}, "%s: bounds %v", what, p.Bounds())
	c.Distinct("big %d/%d", n, ns)
	c.Briefly("%s", what)
	c.Count("trees_of_millions", 1)
	runtime.GC()
}

// huge tells whether this case is one of the few with sizes beyond 2^16 and
// 2^17, which take a second or so.
func (c *C) huge() bool {
	return c.Idx%1003 == 21 && c.Prop.ID != "C25" && math.MaxInt > math.MaxInt32 && runtime.GOOS != "js" && !raceEnabled && !asanEnabled
}

// genIndexCase makes leaves in Hilbert order with a node size.
func genIndexCase(c *C, max int) ([]Leaf, int) {
	r := c.R
	ns := genNodeSize(r)
	if c.Idx%97 == 5 { // large trees
		max *= 20
		ns = pick(r, []int{2, 3, 16, 255, 65535})
	}
	n := genCount(r, ns, max)
	if c.Idx%97 == 5 {
		n = r.In(max/2, max)
	}
	if c.huge() {
		n, ns = r.In(1<<17, 3<<17), pick(r, []int{2, 2, 2, 3, 16, 65535})
		c.Count("huge_trees", 1)
	}
	ls := genLeaves(r, n)
	sortHilbert(ls)
	c.Briefly("%d refs, node size %d, %s, leaves %s", n, ns, treeShape(n, ns), describeLeaves(ls))
	c.State("tree_shape", treeShape(n, ns))
	return ls, ns
}

func resultSet(rs packedrtree.Results) string {
	x := append(packedrtree.Results(nil), rs...)
	sort.Slice(x, func(i, j int) bool { return x[i].RefIndex < x[j].RefIndex })
	return fmt.Sprint(x)
}

func init() {
	register(&Prop{ID: "C01", Quick: 7000, Thorough: 60000,
		Rule: "random Hilbert-sorted reference lists (all box shapes, level-border counts, node sizes 2..65535) searched with touching, missing, point, infinite and random queries, every result compared with a linear scan; a case is distinct by (count, node size, number of matches) and non-trivial if some query matches some but not all references",
		Run: func(c *C) {
			r := c.R
			if c.Idx%3500 == 77 && math.MaxInt > math.MaxInt32 && !raceEnabled && !asanEnabled {
				bigTree(c)
				return
			}
			ls, ns := genIndexCase(c, 4000)
			refs := toRefs(ls)
			if r.P(30) && properLeaves(ls) {
				// The library's own sort is the documented way to sort.
				all := emptyBx
				for _, l := range ls {
					all = all.union(l.B)
				}
				packedrtree.HilbertSort(refs, toBox(all))
				for i := range refs {
					ls[i] = Leaf{fromBox(refs[i].Box), refs[i].Offset}
				}
			}
			prt, err := packedrtree.New(refs, uint16(ns))
			c.Check(err == nil, "New(%d refs, %d): %v", len(refs), ns, err)
			nq := 24
			if len(ls) > 10000 {
				nq = 8
			}
			if c.huge() {
				nq = 4
			}
			qs := genQueries(r, ls, nq)
			first := make([]string, len(qs))
			for i, q := range qs {
				rs := prt.Search(toBox(q))
				judgeResults(c, "Search", rs, ls, q, false)
				if len(rs) > 0 && len(rs) < len(ls) {
					c.Distinct("%d/%d/%d", len(ls), ns, len(rs))
				}
				first[i] = resultSet(rs)
				// Scribble over the results: they belong to the caller.
				for j := range rs {
					rs[j] = packedrtree.Result{Offset: -1, RefIndex: -1}
				}
				c.Eval(1)
			}
			for k := 0; k < len(qs); k++ {
				i := r.IntN(len(qs))
				c.Check(resultSet(prt.Search(toBox(qs[i]))) == first[i], "repeating the search for %v gives different results", qs[i])
				c.Eval(1)
			}
			// So does one which was read from a file of another writer.
			if r.P(30) {
				nodes, starts := refTree(ls, ns)
				if r.P(50) {
					loosen(r, nodes, starts)
				}
				p2, err := packedrtree.Unmarshal(bytes.NewReader(encNodes(nodes)), len(ls), uint16(ns))
				c.Check(err == nil, "Unmarshal of a valid index (%d refs, node size %d): %v", len(ls), ns, err)
				for _, q := range qs[:min(len(qs), 8)] {
					judgeResults(c, "Search of a deserialized index", p2.Search(toBox(q)), ls, q, false)
					c.Eval(1)
				}
			}
			c.Check(prt.NumRefs() == len(ls), "NumRefs() = %d, want %d", prt.NumRefs(), len(ls))
			c.Check(int(prt.NodeSize()) == ns, "NodeSize() = %d, want %d", prt.NodeSize(), ns)
			c.Count("queries", 2*len(qs))
			c.Count("refs", len(ls))
		}})

	register(&Prop{ID: "C02", Quick: 10000, Thorough: 50000,
		Rule: "serialized indexes (made by an independent encoder) at random offsets in larger streams, searched through Seek with random queries and compared with a linear scan, with the in-memory search of the same bytes, and for the final position; plus arithmetic indexes of up to 2^40 references which exist only as a formula; distinct by (count, node size, matches, start offset)",
		Run: func(c *C) {
			if c.Idx%8 == 7 {
				giantSeek(c)
				return
			}
			r := c.R
			ls, ns := genIndexCase(c, 3000)
			nodes, starts := refTree(ls, ns)
			if r.P(20) {
				loosen(r, nodes, starts)
			}
			idx := encNodes(nodes)
			pre, post := r.Bytes(pick(r, []int{0, 1, 8, 39, 40, 100, 5000})), r.Bytes(pick(r, []int{0, 0, 1, 40, 1000}))
			data := append(append(append([]byte{}, pre...), idx...), post...)
			prt, err := packedrtree.Unmarshal(bytes.NewReader(idx), len(ls), uint16(ns))
			c.Check(err == nil, "Unmarshal of a valid index (%d refs, node size %d): %v", len(ls), ns, err)
			src := newSrc(data)
			src.r = r
			src.record = false
			nq := 12
			if c.huge() {
				nq = 4
			}
			for k, q := range genQueries(r, ls, nq) {
				src.pos = int64(len(pre))
				src.frag = pick(r, []int{fragFull, fragFull, fragRandom, fragDataEOF, fragZeros})
				src.scrib = src.r != nil && src.r.P(30)
				src.ops = 0
				src.maxOps = 1000 + 100*len(idx)
				rs, err := packedrtree.Seek(srcRS{src}, len(ls), uint16(ns), toBox(q))
				c.Check(err == nil, "Seek over a valid index (%d refs, node size %d, query %v): %v", len(ls), ns, q, err)
				judgeResults(c, "Seek", rs, ls, q, true)
				c.Check(src.pos == int64(len(pre)+len(idx)), "Seek left the stream at %d, want %d (start %d, index %d bytes, %d results)", src.pos, len(pre)+len(idx), len(pre), len(idx), len(rs))
				ms := prt.Search(toBox(q))
				c.Check(resultSet(ms) == resultSet(rs), "Seek and Search disagree on query %v (%d and %d results)", q, len(rs), len(ms))
				c.Distinct("%d/%d/%d/%d", len(ls), ns, len(rs), len(pre))
				c.Eval(1)
				if k == 0 {
					c.Briefly("query %v: %d results", q, len(rs))
				}
			}
		}})

	register(&Prop{ID: "C03", Quick: 10000, Thorough: 50000,
		Rule: "every read and seek Seek makes on an instrumented stream is recorded and compared with the set of byte ranges the query needs (root plus child groups of intersecting internal nodes); allocation is measured; distinct by (count, node size, groups read); non-trivial if some but not all groups are needed",
		Run:  c03})

	register(&Prop{ID: "C04", Quick: 4000, Thorough: 40000,
		Rule: "random indexes serialized by Marshal and compared node by node with an independent encoder; independent serializations deserialized, searched, and serialized again; distinct by (count, node size)",
		Run:  c04})

	register(&Prop{ID: "C05", Quick: 32000, Thorough: 300000,
		Rule: "reference counts (small, level borders, powers of two, the overflow border found by bisection with exact arithmetic, up to the platform maximum) and all classes of node sizes; Size compared with exact big-integer arithmetic; refused sizes also passed to Unmarshal and Seek on streams that record reads; distinct by (count, node size)",
		Run:  c05})

	register(&Prop{ID: "C06", Quick: 6000, Thorough: 30000,
		Rule:   "reference lists on grid cells (blocks, random cells, windows along the curve), random boxes, degenerate and overflowing bounds, sorted and compared with an independent Hilbert curve and as multisets; distinct by (shape, count, first cell)",
		Run:    c06,
		Assume: []string{"centres within rounding error of a grid cell border may count as either cell"}})

	register(&Prop{ID: "C07", Quick: 32000, Thorough: 400000,
		Rule:   "boxes expanded by boxes and points in random orders and groupings, compared with exact per-side extremes; index bounds compared with the union of the boxes; distinct by (number of operations, resulting box)",
		Run:    c07,
		Assume: []string{"NaN coordinates are excluded, and zeros of either sign are equal"}})
}

func properLeaves(ls []Leaf) bool {
	for _, l := range ls {
		if !l.B.proper() {
			return false
		}
		for _, f := range l.B {
			if math.IsInf(f, 0) {
				return false
			}
		}
	}
	return true
}

// needed computes the node ranges a query needs: the root and the child groups
// of the internal nodes which intersect the query and are reached.
func needed(nodes []rnode, starts []int, ns int, q Bx) (ranges [][2]int, visited int) {
	type item struct{ at, level int }
	top := len(starts) - 1
	end := func(level int) int {
		if level == 0 {
			return len(nodes)
		}
		return starts[level-1]
	}
	work := []item{{0, top}}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		e := it.at + ns
		if e > end(it.level) {
			e = end(it.level)
		}
		ranges = append(ranges, [2]int{it.at, e})
		visited += e - it.at
		if it.level == 0 {
			continue
		}
		for i := it.at; i < e; i++ {
			if nodes[i].B.hits(q) {
				work = append(work, item{int(nodes[i].Off), it.level - 1})
			}
		}
	}
	sort.Slice(ranges, func(i, j int) bool { return ranges[i][0] < ranges[j][0] })
	return
}

func c03(c *C) {
	r := c.R
	if c.Idx%8 == 7 {
		giantSeek(c)
		return
	}
	ls, ns := genIndexCase(c, 3000)
	nodes, starts := refTree(ls, ns)
	idx := encNodes(nodes)
	pre, post := r.Bytes(pick(r, []int{0, 1, 8, 39, 40, 333})), r.Bytes(pick(r, []int{0, 40, 500}))
	data := append(append(append([]byte{}, pre...), idx...), post...)
	nq := 10
	if c.huge() {
		nq = 4
	}
	for k, q := range genQueries(r, ls, nq) {
		src := newSrc(data)
		src.r = r
		src.pos = int64(len(pre))
		src.frag = pick(r, []int{fragFull, fragFull, fragFull, fragRandom, fragDataEOF})
		src.scrib = src.r != nil && src.r.P(30)
		src.maxOps = 1000 + 100*len(idx)
		a0 := allocated()
		rs, err := packedrtree.Seek(srcRS{src}, len(ls), uint16(ns), toBox(q))
		a1 := allocated()
		c.Check(err == nil, "Seek over a valid index: %v", err)
		want, visited := needed(nodes, starts, ns, q)
		judgeIO(c, src, int64(len(pre)), int64(len(idx)), want, q)
		if len(src.evs) < 2000 {
			judgeAlloc(c, a1-a0, ns, visited, len(rs), len(src.evs))
		}
		c.Count("groups_read", len(want))
		c.Count("io_events", len(src.evs))
		if len(want) > 1 && visited < len(nodes) {
			c.Distinct("%d/%d/%d", len(ls), ns, visited)
		}
		c.Eval(1)
		if k == 0 {
			c.Briefly("query %v: %d of %d nodes needed, %d I/O events", q, visited, len(nodes), len(src.evs))
		}
	}
}

// judgeAlloc bounds the memory Seek allocated in terms of what the query
// touched.
func judgeAlloc(c *C, bytes uint64, ns, visited, results, events int) {
	limit := uint64(256<<10) + 8*40*uint64(ns) + 300*uint64(visited) + 200*uint64(results) + 400*uint64(events)
	if raceEnabled || asanEnabled {
		limit *= 4
	}
	c.Check(bytes <= limit, "Seek allocated %d bytes for a search which visits %d nodes (node size %d, %d results): more than the %d allowed", bytes, visited, ns, results, limit)
}

// judgeIO checks the recorded events of a streaming search.
func judgeIO(c *C, src *Src, start, size int64, want [][2]int, q Bx) {
	// Normalize the wanted byte ranges.
	var need [][2]int64
	for _, w := range want {
		a, b := start+40*int64(w[0]), start+40*int64(w[1])
		if n := len(need); n > 0 && need[n-1][1] == a {
			need[n-1][1] = b
		} else {
			need = append(need, [2]int64{a, b})
		}
	}
	var got [][2]int64
	pos := start
	for _, e := range src.evs {
		switch e.Op {
		case 's':
			c.Check(e.Pos >= pos, "the search moved backward, from %d to %d", pos, e.Pos)
			pos = e.Pos
		case 'r':
			c.Check(e.Pos >= pos, "the search read backward")
			if e.N == 0 {
				continue
			}
			a, b := e.Pos, e.Pos+int64(e.N)
			c.Check(a >= start && b <= start+size, "the search read bytes [%d,%d) outside the index [%d,%d)", a, b, start, start+size)
			if n := len(got); n > 0 {
				c.Check(a >= got[n-1][1], "bytes read twice or backward: [%d,%d) after [%d,%d)", a, b, got[n-1][0], got[n-1][1])
				if a == got[n-1][1] {
					got[n-1][1] = b
					pos = b
					continue
				}
			}
			got = append(got, [2]int64{a, b})
			pos = b
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(need) {
		g, n := fmt.Sprint(got), fmt.Sprint(need)
		if len(g) > 300 {
			g = g[:300]
		}
		if len(n) > 300 {
			n = n[:300]
		}
		c.Failf("query %v read byte ranges %s, but needs exactly %s", q, g, n)
	}
}

// giant is an index too large to exist, computed on demand: leaf i is the
// point (i, 0) with offset 7*i+3.
type giant struct {
	n, ns  int64
	sizes  []int64
	starts []int64
	total  int64
	pre    int64
}

func newGiant(n, ns, pre int64) *giant {
	g := &giant{n: n, ns: ns, pre: pre}
	g.sizes = []int64{n}
	for m := n; ; {
		m = (m-1)/ns + 1
		g.sizes = append(g.sizes, m)
		if m == 1 {
			break
		}
	}
	for _, s := range g.sizes {
		g.total += s
	}
	p := g.total
	for _, s := range g.sizes {
		p -= s
		g.starts = append(g.starts, p)
	}
	return g
}

func (g *giant) node(i int64) rnode {
	level := 0
	for i < g.starts[level] {
		level++
	}
	k := i - g.starts[level]
	if level == 0 {
		return rnode{Bx{float64(k), 0, float64(k), 0}, 7*k + 3}
	}
	span := int64(1)
	for j := 0; j < level; j++ {
		if span > g.n { // avoid overflow
			break
		}
		span *= g.ns
	}
	lo, hi := k*span, (k+1)*span-1
	if hi >= g.n || hi < 0 {
		hi = g.n - 1
	}
	return rnode{Bx{float64(lo), 0, float64(hi), 0}, g.starts[level-1] + k*g.ns}
}

func (g *giant) Size() int64 { return g.pre + 40*g.total + min(1000, math.MaxInt64-g.pre-40*g.total) }

func (g *giant) Fill(p []byte, off int64) int {
	n := 0
	for n < len(p) {
		rel := off + int64(n) - g.pre
		if rel < 0 || rel >= 40*g.total {
			p[n] = 0xEE
			n++
			continue
		}
		b := encNodes([]rnode{g.node(rel / 40)})
		n += copy(p[n:], b[rel%40:])
	}
	return n
}

// giantSeek searches an index with a huge number of references.
func giantSeek(c *C) {
	r := c.R
	ns := int64(pick(r, []int{2, 3, 16, 16, 17, 100, 255, 1024}))
	maxBits := 40
	if math.MaxInt == math.MaxInt32 {
		maxBits = 24
	}
	n := int64(1)<<r.In(15, maxBits) + int64(r.In(-3, 3))
	if r.P(30) {
		n = int64(r.Uint64()%(1<<maxBits)) + 1
	}
	g := newGiant(n, ns, int64(pick(r, []int{0, 12, 4096, 1 << 30})))
	if r.P(20) { // at the far end of what a stream can hold
		g.pre = math.MaxInt64 - 40*g.total - pick(r, []int64{0, 0, 1, 40, 1000, 1 << 40})
	}
	k := int64(r.Uint64() % uint64(n))
	if r.P(20) {
		k = pick(r, []int64{0, n - 1, n / 2})
	}
	w := int64(r.IntN(40))
	q := Bx{float64(k), -1, float64(k + w), 1}
	if r.P(10) {
		q = Bx{float64(n), 0, float64(n + 5), 0} // nothing
		k, w = n, 5
	}
	src := &Src{data: g, pos: g.pre, failAt: -1, maxOps: 20000, record: true, r: r}
	c.Briefly("computed index: %d refs, node size %d, %d bytes at %d, query refs %d..%d", n, ns, 40*g.total, g.pre, k, k+w)
	a0 := allocated()
	rs, err := packedrtree.Seek(srcRS{src}, int(n), uint16(ns), toBox(q))
	a1 := allocated()
	c.Check(err == nil, "Seek over a computed index of %d refs, node size %d: %v", n, ns, err)
	want := 0
	for i := k; i <= k+w && i < n; i++ {
		c.Check(want < len(rs), "Seek over a computed index misses ref %d (%d results)", i, len(rs))
		c.Check(int64(rs[want].RefIndex) == i && rs[want].Offset == 7*i+3, "Seek over a computed index: result %d is %+v, want ref %d offset %d", want, rs[want], i, 7*i+3)
		want++
	}
	c.Check(want == len(rs), "Seek over a computed index returned %d results, want %d", len(rs), want)
	c.Check(src.pos == g.pre+40*g.total, "Seek left the stream at %d, want the end of the index at %d", src.pos, g.pre+40*g.total)
	// Which groups are needed: per level, those containing parents that hit.
	var ranges [][2]int64
	top := len(g.sizes) - 1
	ranges = append(ranges, [2]int64{0, 1})
	type item struct {
		at    int64
		level int
	}
	work := []item{{0, top}}
	visited := 1
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		e := it.at + ns
		if lim := g.starts[it.level] + g.sizes[it.level]; e > lim {
			e = lim
		}
		if it.level != top {
			ranges = append(ranges, [2]int64{it.at, e})
			visited += int(e - it.at)
		}
		if it.level == 0 {
			continue
		}
		for i := it.at; i < e; i++ {
			if nd := g.node(i); nd.B.hits(q) {
				work = append(work, item{nd.Off, it.level - 1})
			}
		}
	}
	sort.Slice(ranges, func(i, j int) bool { return ranges[i][0] < ranges[j][0] })
	wantR := make([][2]int, len(ranges))
	for i, x := range ranges {
		wantR[i] = [2]int{int(x[0]), int(x[1])}
	}
	judgeIO(c, src, g.pre, 40*g.total, wantR, q)
	judgeAlloc(c, a1-a0, int(ns), visited, len(rs), len(src.evs))
	c.Distinct("giant %d/%d/%d", n, ns, len(rs))
	c.Count("computed_indexes", 1)
	c.State("computed_index_size_log2", fmt.Sprint(big.NewInt(40*g.total).BitLen()))
	c.Eval(1)
}

// sameBits is equality of boxes in which a NaN equals itself.
func sameBits(a, b Bx) bool {
	for i := range a {
		if a[i] != b[i] && !(math.IsNaN(a[i]) && math.IsNaN(b[i])) {
			return false
		}
	}
	return true
}

func sameNode(a, b rnode) bool { return a.B == b.B && a.Off == b.Off }

func bitsEqual(a, b Bx) bool {
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

func c04(c *C) {
	r := c.R
	sizeSweep(c, c.Idx*8)
	bigSizes(c, c.Idx)
	ls, ns := genIndexCase(c, 3000)
	nodes, starts := refTree(ls, ns)
	want := encNodes(nodes)
	size, err := packedrtree.Size(len(ls), uint16(ns))
	c.Check(err == nil && size == len(want), "Size(%d, %d) = %d, %v, but the index has %d bytes", len(ls), ns, size, err, len(want))

	// Marshal.
	prt, err := packedrtree.New(toRefs(ls), uint16(ns))
	c.Check(err == nil, "New: %v", err)
	for rep := 0; rep < 2; rep++ {
		d := newDst()
		n, err := prt.Marshal(d.stream(r.P(50)))
		c.Check(err == nil, "Marshal: %v", err)
		c.Check(n == len(want) && len(d.buf) == len(want), "Marshal returned %d and wrote %d bytes, want %d", n, len(d.buf), len(want))
		got := decNodes(d.buf)
		for i := range got {
			if i >= starts[0] {
				c.Check(bitsEqual(got[i].B, nodes[i].B) && got[i].Off == nodes[i].Off, "leaf %d serialized as %v, want %v", i-starts[0], got[i], nodes[i])
			} else {
				c.Check(sameNode(got[i], nodes[i]), "internal node %d serialized as %v, want %v (%d refs, node size %d)", i, got[i], nodes[i], len(ls), ns)
			}
		}
		c.Eval(1)
	}

	// Unmarshal: leaves in any order are fine, as are boxes of internal nodes
	// which are larger than necessary.
	if r.P(40) {
		r.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
		nodes, starts = refTree(ls, ns)
	}
	if r.P(15) {
		for i := 0; i < starts[0]; i++ {
			nodes[i].B = nodes[i].B.union(nodes[0].B)
		}
	}
	if r.P(20) {
		loosen(r, nodes, starts)
	}
	want = encNodes(nodes)
	junk := r.Bytes(pick(r, []int{0, 1, 40, 77}))
	src := newSrc(append(append([]byte{}, want...), junk...))
	src.r = r
	src.record = false
	src.frag = r.IntN(numFrags)
	src.scrib = src.r != nil && src.r.P(30)
	if len(want) > 100000 && (src.frag == fragOne || src.frag == fragZeros) {
		src.frag = fragFull
		src.scrib = src.r != nil && src.r.P(30)
	}
	got, err := packedrtree.Unmarshal(src.stream(r.P(50), r.P(50)), len(ls), uint16(ns))
	c.Check(err == nil, "Unmarshal of a valid index (%d refs, node size %d): %v", len(ls), ns, err)
	c.Check(src.pos == int64(len(want)), "Unmarshal consumed %d bytes of an index of %d bytes", src.pos, len(want))
	c.Check(got.NumRefs() == len(ls) && int(got.NodeSize()) == ns, "deserialized index has %d refs and node size %d, want %d and %d", got.NumRefs(), got.NodeSize(), len(ls), ns)
	var b bytes.Buffer
	n, err := got.Marshal(&b)
	c.Check(err == nil && n == len(want) && bytes.Equal(b.Bytes(), want), "serializing a deserialized index gives different bytes (n=%d, err=%v)", n, err)
	for _, q := range genQueries(r, ls, 5) {
		judgeResults(c, "Search of deserialized index", got.Search(toBox(q)), ls, q, false)
		c.Eval(1)
	}
	c.Check(sameBits(fromBox(got.Bounds()), nodes[0].B), "Bounds() of deserialized index = %v, want %v", got.Bounds(), nodes[0].B)
	c.Distinct("%d/%d", len(ls), ns)
	c.Count("bytes", 2*len(want))
	c.Eval(1)
}

// countReader counts read calls; it has no data.
type countReader struct{ reads, seeks int }

func (x *countReader) Read(p []byte) (int, error) { x.reads++; return 0, io.EOF }
func (x *countReader) Seek(off int64, wh int) (int64, error) {
	x.seeks++
	return 0, nil
}

func c05(c *C) {
	r := c.R
	maxInt := big.NewInt(math.MaxInt)
	type pair struct{ n, ns int }
	var ps []pair
	ns := genNodeSize(r)
	if c.Idx < 2048 { // sweep all node sizes across the cases
		ns = 2 + (c.Idx*32+r.IntN(32))%65534
	}
	add := func(n int) {
		if n >= 1 {
			ps = append(ps, pair{n, ns})
		}
	}
	add(r.In(1, 100))
	add(r.In(1, 1<<20))
	bits := r.In(1, 62)
	if math.MaxInt == math.MaxInt32 {
		bits = r.In(1, 30)
	}
	add(1<<bits + r.In(-2, 2))
	add(int(r.Uint64() >> (64 - uint(bits))))
	add(math.MaxInt - r.IntN(70000))
	add(math.MaxInt)
	add(math.MaxInt / 40)
	add(math.MaxInt/40 - r.IntN(1000000))
	p := ns
	for p <= math.MaxInt/ns && r.P(70) {
		p *= ns
	}
	add(p + r.In(-1, 1))
	// The exact border of what fits, by bisection.
	lo, hi := 1, math.MaxInt
	for lo+1 < hi {
		mid := lo + (hi-lo)/2
		if refSize(int64(mid), int64(ns)).Cmp(maxInt) <= 0 {
			lo = mid
		} else {
			hi = mid
		}
	}
	border := lo
	for d := -2; d <= 2; d++ {
		add(border + d)
	}
	add(border - r.IntN(1<<20))
	if border < math.MaxInt-(1<<21) {
		add(border + r.IntN(1<<20))
	}
	// Where node count overflow would wrap around.
	half := math.MaxInt/2 + 1
	add(half + r.In(-2, 2))
	add(int((uint64(math.MaxInt)*2 + 1) / 40))
	for _, x := range ps {
		want := refSize(int64(x.n), int64(x.ns))
		fits := want.Cmp(maxInt) <= 0
		var got int
		var err error
		mustNotPanic(c, fmt.Sprintf("Size(%d, %d)", x.n, x.ns), func() { got, err = packedrtree.Size(x.n, uint16(x.ns)) })
		if fits {
			c.Check(err == nil && big.NewInt(int64(got)).Cmp(want) == 0, "Size(%d, %d) = %d, %v, want %v", x.n, x.ns, got, err, want)
			c.State("outcome", "fits")
		} else {
			c.Check(err != nil, "Size(%d, %d) = %d without error, but the exact size %v overflows", x.n, x.ns, got, want)
			c.State("outcome", "overflow")
			cr := &countReader{}
			a0 := allocated()
			mustNotPanic(c, fmt.Sprintf("Unmarshal(%d, %d)", x.n, x.ns), func() { _, err = packedrtree.Unmarshal(cr, x.n, uint16(x.ns)) })
			c.Check(err != nil && cr.reads == 0, "Unmarshal of an oversized index (%d refs, node size %d): err=%v after %d reads", x.n, x.ns, err, cr.reads)
			mustNotPanic(c, fmt.Sprintf("Seek(%d, %d)", x.n, x.ns), func() { _, err = packedrtree.Seek(cr, x.n, uint16(x.ns), packedrtree.EmptyBox) })
			c.Check(err != nil && cr.reads == 0, "Seek in an oversized index (%d refs, node size %d): err=%v after %d reads", x.n, x.ns, err, cr.reads)
			a := allocated() - a0
			c.Check(a < 1<<20, "refusing an oversized index (%d refs, node size %d) allocated %d bytes", x.n, x.ns, a)
		}
		c.Distinct("%d/%d", x.n, x.ns)
		c.Eval(1)
	}
	// An index whose size fits, but whose end overflows the stream position.
	if math.MaxInt == math.MaxInt64 {
		src := newSrc(nil)
		src.pos = math.MaxInt64 - int64(r.IntN(1000))
		n := 100 + int(r.Uint64()>>24)
		_, err := packedrtree.Seek(srcRS{src}, n, uint16(ns), packedrtree.EmptyBox)
		c.Check(err != nil && src.reads == 0, "Seek at position %d in an index of %d refs: err=%v after %d reads", src.pos, n, err, src.reads)
		c.Eval(1)
	}
	// The position decides: right at the border it fits.
	if math.MaxInt == math.MaxInt64 {
		for _, x := range ps {
			sz := refSize(int64(x.n), int64(x.ns))
			if sz.Cmp(maxInt) > 0 {
				continue
			}
			last := math.MaxInt64 - sz.Int64()
			for _, d := range []int64{1, 2, 1000, -1, 0} {
				src := newSrc(nil)
				if src.pos = last + d; src.pos < 0 {
					continue
				}
				_, err := packedrtree.Seek(srcRS{src}, x.n, uint16(x.ns), packedrtree.EmptyBox)
				c.Check(err != nil && (src.reads == 0) == (d > 0), "Seek at position %d in an index of %d refs (%v bytes, node size %d) in an empty stream: err=%v after %d reads", last+d, x.n, sz, x.ns, err, src.reads)
				c.Eval(1)
			}
		}
	}
	// Invalid parameters panic.
	n := pick(r, []int{0, -1, -40, math.MinInt, -r.IntN(1 << 30)})
	c.Check(panics(func() { _, _ = packedrtree.Size(n, uint16(ns)) }), "Size(%d, %d) did not panic", n, ns)
	n = pick(r, []int{1, 2, 100, math.MaxInt, r.In(1, 1<<30)})
	for _, bad := range []uint16{0, 1} {
		c.Check(panics(func() { _, _ = packedrtree.Size(n, bad) }), "Size(%d, %d) did not panic", n, bad)
	}
	c.Eval(3)
	c.Briefly("node size %d: largest count that fits is %d; counts %v", ns, border, ps[:3])
}

func c06(c *C) {
	r := c.R
	var ls []Leaf
	var bounds Bx
	kind := c.Idx % 8
	cell := func(x, y uint32, ox, oy, sx, sy float64) Bx {
		// A box whose centre is in the middle of the cell.
		b := Bx{ox + float64(x)*sx, oy + float64(y)*sy, ox + (float64(x)+1)*sx, oy + (float64(y)+1)*sy}
		if r.P(30) { // a point at the centre
			b = Bx{ox + (float64(x)+0.5)*sx, oy + (float64(y)+0.5)*sy, 0, 0}
			b[2], b[3] = b[0], b[1]
		}
		return b
	}
	ox, oy := float64(r.In(-70000, 70000)), float64(r.In(-70000, 70000))
	sx, sy := pick(r, []float64{1, 2, 4, 0.5, 1024}), pick(r, []float64{1, 2, 0.25, 8})
	if r.P(15) { // tiny, or huge, cells
		ox, oy = 0, 0
		sx, sy = math.Ldexp(1, r.In(-980, 900)), math.Ldexp(1, r.In(-980, 900))
		if r.P(50) {
			sx = math.Ldexp(1, r.In(-80, 0))
		}
	}
	grid := Bx{ox, oy, ox + 65535*sx, oy + 65535*sy}
	addCell := func(x, y uint32) {
		if x > 65534 || y > 65534 {
			// The last row and column are only reached by centres on the edge.
			fx, fy := math.Min(float64(x)+0.5, 65535), math.Min(float64(y)+0.5, 65535)
			p := Bx{ox + fx*sx, oy + fy*sy, ox + fx*sx, oy + fy*sy}
			ls = append(ls, Leaf{p, int64(len(ls))})
			return
		}
		ls = append(ls, Leaf{cell(x, y, ox, oy, sx, sy), int64(len(ls))})
	}
	big := c.huge()
	if big {
		kind = pick(r, []int{2, 4})
		c.Count("huge_lists", 1)
	}
	switch kind {
	case 0: // a block of the grid
		bits := r.In(0, 11)
		x0, y0 := uint32(r.IntN(1<<16>>bits))<<bits, uint32(r.IntN(1<<16>>bits))<<bits
		w := uint32(r.In(1, 40))
		for y := uint32(0); y < w; y++ {
			for x := uint32(0); x < w; x++ {
				if x0+x < 65536 && y0+y < 65536 {
					addCell(x0+x, y0+y)
				}
			}
		}
		bounds = grid
	case 1: // a window along the curve
		d0 := r.Uint32()
		for i := uint32(0); i < 1500; i++ {
			x, y := hilbertInv(d0 + i)
			addCell(x, y)
		}
		bounds = grid
	case 2: // random cells
		n := r.In(1, 3000)
		if big {
			n = r.In(1<<17, 3<<17)
		}
		for i := 0; i < n; i++ {
			addCell(uint32(r.IntN(65536)), uint32(r.IntN(65536)))
		}
		bounds = grid
	case 3: // cells at power-of-two borders
		n := r.In(2, 1000)
		g := func() uint32 {
			v := 1<<r.In(0, 16) + r.In(-2, 1)
			if r.P(30) {
				v = 65535 - v
			}
			if v < 0 {
				v = 0
			}
			if v > 65535 {
				v = 65535
			}
			return uint32(v)
		}
		for i := 0; i < n; i++ {
			addCell(g(), g())
		}
		bounds = grid
	case 4: // random boxes, their own bounds
		n := r.In(1, 2000)
		if big {
			n = r.In(1<<16, 3<<17)
		}
		mode := r.IntN(6)
		bounds = emptyBx
		for i := 0; i < n; i++ {
			ls = append(ls, Leaf{genBox(r, mode), int64(r.Uint64())})
			bounds = bounds.union(ls[i].B)
		}
		if r.P(30) { // larger bounds
			bounds = bounds.union(Bx{bounds[0] - 10, bounds[1] - 1, bounds[2] + 3, bounds[3] + 100})
		}
	case 5: // degenerate bounds
		n := r.In(1, 1000)
		x, y := genCoord(r, 1), genCoord(r, 1)
		which := r.IntN(3)
		bounds = emptyBx
		for i := 0; i < n; i++ {
			b := Bx{x, y, x, y}
			if which == 0 {
				b[0] = float64(r.In(-5000, 5000))
				b[2] = b[0] + float64(r.IntN(3)*2)
			} else if which == 1 {
				b[1] = float64(r.In(-5000, 5000))
				b[3] = b[1] + float64(r.IntN(3)*2)
			}
			ls = append(ls, Leaf{b, int64(i)})
			bounds = bounds.union(b)
		}
	case 6: // empty, infinite and huge boxes among ordinary ones
		n := r.In(1, 800)
		inf := math.Inf(1)
		bounds = emptyBx
		for i := 0; i < n; i++ {
			b := genBox(r, 1)
			bounds = bounds.union(b)
			if r.P(20) {
				b = pick(r, []Bx{emptyBx, {-inf, -inf, inf, inf}, {b[0], b[1], inf, b[3]}, {-inf, b[1], b[2], b[3]}, {-math.MaxFloat64, 0, math.MaxFloat64, 0}, {math.MaxFloat64, 0, math.MaxFloat64, 0}})
			}
			ls = append(ls, Leaf{b, int64(i)})
		}
		if r.P(30) {
			bounds = pick(r, []Bx{emptyBx, {-inf, -inf, inf, inf}, {-math.MaxFloat64, -math.MaxFloat64, math.MaxFloat64, math.MaxFloat64}})
		}
	default: // identical boxes, or none
		n := r.In(0, 300)
		b := genBox(r, 1)
		bounds = b
		if n == 0 {
			bounds = emptyBx
		}
		for i := 0; i < n; i++ {
			ls = append(ls, Leaf{b, int64(i)})
		}
	}
	r.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
	if r.P(35) {
		// Some order already.
		rev := func(v []Leaf) {
			for i, j := 0, len(v)-1; i < j; i, j = i+1, j-1 {
				v[i], v[j] = v[j], v[i]
			}
		}
		order := r.IntN(7)
		sortHilbert(ls)
		n := len(ls)
		switch order {
		case 0: // sorted
		case 1:
			rev(ls)
		case 2: // up and down
			rev(ls[n/2:])
		case 3: // sorted halves
			a, b := append([]Leaf{}, ls[n/2:]...), ls[:n/2]
			ls = append(a, b...)
		case 4: // nearly sorted
			for k := 0; k < 3 && n > 1; k++ {
				i, j := r.IntN(n), r.IntN(n)
				ls[i], ls[j] = ls[j], ls[i]
			}
		case 5: // interleaved
			var out []Leaf
			m := r.In(2, 9)
			for k := 0; k < m; k++ {
				for i := k; i < n; i += m {
					out = append(out, ls[i])
				}
			}
			ls = out
		default: // rotated
			if n > 0 {
				k := r.IntN(n)
				ls = append(append([]Leaf{}, ls[k:]...), ls[:k]...)
			}
		}
		c.State("input_order", fmt.Sprint(order))
	}
	refs := toRefs(ls)
	// Spare capacity beyond the slice must not be touched.
	guard := packedrtree.Ref{Offset: 0x5A5A}
	refs = append(refs, guard)[:len(refs)]
	orig := append([]packedrtree.Ref(nil), refs...)
	packedrtree.HilbertSort(refs, toBox(bounds))
	c.Check(refs[:len(refs)+1][len(refs)] == guard, "HilbertSort wrote beyond the end of the list")
	judgePermutation(c, orig, refs)
	boxes := make([]Bx, len(refs))
	for i := range refs {
		boxes[i] = fromBox(refs[i].Box)
	}
	judged := judgeHilbertOrder(c, "HilbertSort", boxes, bounds)
	c.Count("refs_sorted", len(refs))
	c.Count("positions_judged", judged)
	c.State("kind", fmt.Sprint(kind))
	if len(refs) > 1 {
		c.Distinct("%d/%d/%v", kind, len(refs), boxes[0])
	}
	c.Briefly("kind %d, %d boxes, bounds %v, %d judged", kind, len(refs), bounds, judged)
	c.Eval(1)
	if kind == 1 && judged == len(refs) {
		c.Count("curve_windows", 1)
	}
}

func refKey(x packedrtree.Ref) [5]uint64 {
	return [5]uint64{math.Float64bits(x.XMin), math.Float64bits(x.YMin), math.Float64bits(x.XMax), math.Float64bits(x.YMax), uint64(x.Offset)}
}

func judgePermutation(c *C, before, after []packedrtree.Ref) {
	m := make(map[[5]uint64]int, len(before))
	for _, x := range before {
		m[refKey(x)]++
	}
	for _, x := range after {
		m[refKey(x)]--
	}
	for k, n := range m {
		if n > 0 {
			c.Failf("reference lost by sorting: %v", k)
		} else if n < 0 {
			c.Failf("reference invented or duplicated by sorting: %v", k)
		}
	}
}

func c07(c *C) {
	r := c.R
	mode := r.IntN(6)
	inf := math.Inf(1)
	type op struct {
		box   bool
		b     Bx
		point bool
	}
	n := r.In(0, 12)
	ops := make([]op, n)
	for i := range ops {
		b := genBox(r, mode)
		switch r.IntN(12) {
		case 0:
			b = emptyBx
		case 1:
			b = pick(r, []Bx{{-inf, -inf, inf, inf}, {b[0], b[1], inf, b[3]}, {-inf, b[1], b[2], b[3]}, {inf, inf, inf, inf}, {-inf, -inf, -inf, -inf}})
		case 2:
			// Inverted in X, in Y, or in both.
			if k := r.In(1, 3); k&1 != 0 {
				b[0], b[2] = b[2], b[0]
				if k&2 != 0 {
					b[1], b[3] = b[3], b[1]
				}
			} else {
				b[1], b[3] = b[3], b[1]
			}
		}
		ops[i] = op{b: b, box: r.P(50)}
	}
	apply := func(start Bx, order []int) packedrtree.Box {
		acc := toBox(start)
		for _, i := range order {
			o := ops[i]
			before := fromBox(acc)
			var want Bx
			if o.box {
				arg := toBox(o.b)
				keep := arg
				acc.Expand(&arg)
				c.Check(arg == keep, "Expand changed its argument from %v to %v", keep, arg)
				want = before.union(o.b)
			} else {
				acc.ExpandXY(o.b[0], o.b[3])
				want = before.point(o.b[0], o.b[3])
			}
			c.Check(fromBox(acc) == want, "expanding %v by %+v gives %v, want %v", before, o, acc, want)
			// No side moves unless it must, and then only to the argument's side.
			c.Eval(1)
		}
		return acc
	}
	start := emptyBx
	if r.P(50) {
		start = genBox(r, mode)
	}
	order := r.Perm(n)
	a := apply(start, order)
	b := apply(start, r.Perm(n))
	c.Check(a == b, "expanding by the same boxes and points in another order gives %v instead of %v", b, a)
	// Grouping.
	k := 0
	if n > 0 {
		k = r.IntN(n + 1)
	}
	g1 := apply(start, order[:k])
	g2 := apply(emptyBx, order[k:])
	g1.Expand(&g2)
	c.Check(g1 == a, "grouping changes the result of expanding: %v instead of %v", g1, a)
	// Idempotence and identity.
	keep := a
	a.Expand(&keep)
	c.Check(a == keep, "expanding a box by itself gives %v instead of %v", a, keep)
	e := packedrtree.EmptyBox
	a.Expand(&e)
	c.Check(a == keep && e == packedrtree.EmptyBox, "the empty box is not an identity")
	e.Expand(&keep)
	c.Check(e == keep, "expanding the empty box by %v gives %v", keep, e)
	c.Check(fromBox(packedrtree.EmptyBox) == emptyBx, "EmptyBox changed to %v", packedrtree.EmptyBox)
	// Aliasing: a box expanded by itself through the same pointer.
	al := keep
	al.Expand(&al)
	c.Check(al == keep, "expanding a box by itself through the same pointer gives %v", al)
	// Width and height.
	w, h := keep.XMax-keep.XMin, keep.YMax-keep.YMin
	eq := func(a, b float64) bool { return a == b || a != a && b != b }
	c.Check(eq(keep.Width(), w) && eq(keep.Height(), h), "width and height of %v are %v and %v", keep, keep.Width(), keep.Height())
	// Index bounds.
	ns := genNodeSize(r)
	m := genCount(r, ns, 400)
	ls := genLeaves(r, m)
	sortHilbert(ls)
	want := emptyBx
	for _, l := range ls {
		want = want.union(l.B)
	}
	prt, err := packedrtree.New(toRefs(ls), uint16(ns))
	c.Check(err == nil, "New: %v", err)
	c.Check(fromBox(prt.Bounds()) == want, "Bounds() of an index of %d refs (node size %d) = %v, want %v", m, ns, prt.Bounds(), want)
	bb := prt.Bounds()
	bb.ExpandXY(1e300, -1e300)
	c.Check(fromBox(prt.Bounds()) == want, "expanding the box Bounds() returned changes the index")
	c.Eval(4)
	c.Distinct("%d/%v/%v", n, keep, want)
	c.Briefly("%d expansions of %v give %v; index of %d refs has bounds %v", n, start, keep, m, want)
}

var _ = errors.Is
