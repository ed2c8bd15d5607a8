package main

// Reference model of the packed R-tree index section, independent of /repo.

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/gogama/flatgeobuf/packedrtree"
)

// Leaf is a reference: a box and an offset.
type Leaf struct {
	B   Bx
	Off int64
}

// rnode is a node of the reference tree.
type rnode struct {
	B   Bx
	Off int64
}

// levelSizes returns the number of nodes per level, leaves first.
func levelSizes(n, ns int) []int {
	s := []int{n}
	for {
		n = (n-1)/ns + 1
		s = append(s, n)
		if n == 1 {
			return s
		}
	}
}

// refTree builds the reference tree: root first, leaves last.
func refTree(ls []Leaf, ns int) (nodes []rnode, starts []int) {
	sizes := levelSizes(len(ls), ns)
	total := 0
	for _, s := range sizes {
		total += s
	}
	starts = make([]int, len(sizes))
	p := total
	for i, s := range sizes {
		p -= s
		starts[i] = p
	}
	nodes = make([]rnode, total)
	for i, l := range ls {
		nodes[starts[0]+i] = rnode(l)
	}
	for k := 1; k < len(sizes); k++ {
		for i := 0; i < sizes[k]; i++ {
			nd := rnode{B: emptyBx, Off: int64(starts[k-1] + i*ns)}
			for j := i * ns; j < (i+1)*ns && j < sizes[k-1]; j++ {
				nd.B = nd.B.union(nodes[starts[k-1]+j].B)
			}
			nodes[starts[k]+i] = nd
		}
	}
	return nodes, starts
}

func encNodes(nodes []rnode) []byte {
	b := make([]byte, 0, 40*len(nodes))
	for _, n := range nodes {
		for _, f := range n.B {
			b = binary.LittleEndian.AppendUint64(b, math.Float64bits(f))
		}
		b = binary.LittleEndian.AppendUint64(b, uint64(n.Off))
	}
	return b
}

func decNodes(b []byte) []rnode {
	ns := make([]rnode, len(b)/40)
	for i := range ns {
		p := b[40*i:]
		for j := range ns[i].B {
			ns[i].B[j] = math.Float64frombits(binary.LittleEndian.Uint64(p[8*j:]))
		}
		ns[i].Off = int64(binary.LittleEndian.Uint64(p[32:]))
	}
	return ns
}

// refIndex serializes the reference index.
func refIndex(ls []Leaf, ns int) []byte {
	nodes, _ := refTree(ls, ns)
	return encNodes(nodes)
}

// refSize is the exact index size in bytes.
func refSize(n int64, ns int64) *big.Int {
	total := big.NewInt(0)
	for {
		total.Add(total, big.NewInt(n))
		if n == 1 {
			break
		}
		n = (n-1)/ns + 1
	}
	if total.IsInt64() && total.Int64() == 1 {
		total.SetInt64(2) // one leaf still has a root above it
	}
	return total.Mul(total, big.NewInt(40))
}

func toBox(b Bx) packedrtree.Box {
	return packedrtree.Box{XMin: b[0], YMin: b[1], XMax: b[2], YMax: b[3]}
}

func fromBox(b packedrtree.Box) Bx { return Bx{b.XMin, b.YMin, b.XMax, b.YMax} }

func toRefs(ls []Leaf) []packedrtree.Ref {
	rs := make([]packedrtree.Ref, len(ls))
	for i, l := range ls {
		rs[i] = packedrtree.Ref{Box: toBox(l.B), Offset: l.Off}
	}
	return rs
}

// scan is the linear scan oracle: matching leaf indices, ascending. Leaves
// for which a match is a matter of taste (an inverted box which the interval
// tests nevertheless accept) are reported in fuzzy.
func scan(ls []Leaf, q Bx) (hits []int, fuzzy map[int]bool) {
	for i := range ls {
		if ls[i].B.hits(q) {
			if ls[i].B.proper() && q.proper() {
				hits = append(hits, i)
			} else {
				if fuzzy == nil {
					fuzzy = map[int]bool{}
				}
				fuzzy[i] = true
			}
		}
	}
	return
}

// judgeResults compares search results with the scan. If ordered, the results
// have to be in ascending order of RefIndex.
func judgeResults(c *C, what string, rs packedrtree.Results, ls []Leaf, q Bx, ordered bool) {
	hits, fuzzy := scan(ls, q)
	seen := make(map[int]bool, len(rs))
	prev := -1
	for _, x := range rs {
		if x.RefIndex < 0 || x.RefIndex >= len(ls) {
			c.Failf("%s: result has ref index %d of %d refs", what, x.RefIndex, len(ls))
		}
		if seen[x.RefIndex] {
			c.Failf("%s: ref %d returned twice (query %v)", what, x.RefIndex, q)
		}
		seen[x.RefIndex] = true
		if x.Offset != ls[x.RefIndex].Off {
			c.Failf("%s: ref %d returned with offset %d, want %d", what, x.RefIndex, x.Offset, ls[x.RefIndex].Off)
		}
		if ordered && x.RefIndex <= prev {
			c.Failf("%s: results not in ascending order of ref index: %d after %d", what, x.RefIndex, prev)
		}
		prev = x.RefIndex
		if !ls[x.RefIndex].B.hits(q) {
			c.Failf("%s: ref %d with box %v returned for query %v", what, x.RefIndex, ls[x.RefIndex].B, q)
		}
	}
	n := 0
	for i := range fuzzy {
		if seen[i] {
			n++
		}
	}
	if len(rs)-n != len(hits) {
		for _, i := range hits {
			if !seen[i] {
				c.Failf("%s: ref %d of %d with box %v missing from results of query %v (%d results, want %d)", what, i, len(ls), ls[i].B, q, len(rs), len(hits))
			}
		}
	}
	c.Count("results_checked", len(rs))
}

// ---- Hilbert curve reference

// hilbertD maps a cell to its position along the order-16 Hilbert curve. It is
// the textbook quadrant recursion, in the orientation FlatGeobuf uses: (0,0),
// (1,0), (1,1), (0,1) are the first four cells of the order-1 curve.
func hilbertD(x, y uint32) uint32 {
	var d uint32
	for s := uint32(1 << 15); s > 0; s >>= 1 {
		var rx, ry uint32
		if x&s != 0 {
			rx = 1
		}
		if y&s != 0 {
			ry = 1
		}
		d += s * s * ((3 * rx) ^ ry)
		if ry == 0 {
			if rx == 1 {
				x = (1<<16 - 1) - x
				y = (1<<16 - 1) - y
			}
			x, y = y, x
		}
	}
	return d
}

// hilbertInv maps a position to its cell.
func hilbertInv(d uint32) (x, y uint32) {
	t := d
	for s := uint32(1); s < 1<<16; s <<= 1 {
		rx := 1 & (t / 2)
		ry := 1 & (t ^ rx)
		if ry == 0 {
			if rx == 1 {
				x = s - 1 - x
				y = s - 1 - y
			}
			x, y = y, x
		}
		x += s * rx
		y += s * ry
		t /= 4
	}
	return
}

// cellsOf returns the possible Hilbert grid coordinates of a centre coordinate:
// more than one if rounding could go either way.
func cellsOf(lo, hi, min, max float64) []uint32 {
	w := max - min
	if w == 0 {
		return []uint32{0}
	}
	var m big.Float
	m.SetPrec(200).Add(big.NewFloat(lo), big.NewFloat(hi))
	m.Quo(&m, big.NewFloat(2))
	m.Sub(&m, big.NewFloat(min))
	m.Mul(&m, big.NewFloat(65535))
	var d big.Float
	d.SetPrec(200).Sub(big.NewFloat(max), big.NewFloat(min))
	m.Quo(&m, &d)
	f, _ := m.Float64()
	fl := math.Floor(f)
	// Rounding error of the computation in doubles: a few ulps of the operands
	// relative to the width, scaled by 65535.
	scale := math.Max(math.Max(math.Abs(lo), math.Abs(hi)), math.Max(math.Abs(min), math.Abs(max)))
	eps := 65535*scale/w*1e-15 + 1e-9
	if eps > 0.5 {
		return nil // cannot tell
	}
	if mant, _ := math.Frexp(w); f == 65535 && lo == hi && hi == max && min+w == max && mant*65536 == 65535 {
		return []uint32{65535} // nothing to round
	}
	var cs []uint32
	add := func(v float64) {
		if v >= 0 && v <= 65535 {
			cs = append(cs, uint32(v))
		}
	}
	if f-fl < eps {
		add(fl - 1)
	}
	add(fl)
	if fl+1-f < eps {
		add(fl + 1)
	}
	return cs
}

// hilbertChoices returns the possible Hilbert positions of a box centre, or nil
// if the computation is too ill-conditioned (or not finite) to say.
func hilbertChoices(b, bounds Bx) []uint32 {
	for _, f := range []float64{b[0], b[1], b[2], b[3], bounds[0], bounds[1], bounds[2], bounds[3], b[0] + b[2], b[1] + b[3], bounds[2] - bounds[0], bounds[3] - bounds[1]} {
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return nil
		}
	}
	xs := cellsOf(b[0], b[2], bounds[0], bounds[2])
	ys := cellsOf(b[1], b[3], bounds[1], bounds[3])
	var ds []uint32
	for _, x := range xs {
		for _, y := range ys {
			ds = append(ds, hilbertD(x, y))
		}
	}
	return ds
}

// judgeHilbertOrder checks that boxes are in descending Hilbert order over the
// bounds, skipping boxes whose position cannot be determined. It returns how
// many were judged.
func judgeHilbertOrder(c *C, what string, boxes []Bx, bounds Bx) int {
	cur := uint64(math.MaxUint64)
	judged := 0
	for i, b := range boxes {
		ds := hilbertChoices(b, bounds)
		if len(ds) == 0 {
			continue
		}
		best, ok := uint64(0), false
		for _, d := range ds {
			if uint64(d) <= cur && (!ok || uint64(d) > best) {
				best, ok = uint64(d), true
			}
		}
		if !ok {
			c.Failf("%s: not in descending Hilbert order at position %d of %d: box %v has Hilbert position %v, after %d (bounds %v)", what, i, len(boxes), b, ds, cur, bounds)
		}
		cur = best
		judged++
	}
	return judged
}

// sortHilbert sorts leaves in (approximately, on ties and cell borders)
// descending Hilbert order, with the reference curve.
func sortHilbert(ls []Leaf) {
	b := emptyBx
	for _, l := range ls {
		if l.B.proper() && !math.IsInf(l.B[0]+l.B[1], 0) && !math.IsInf(l.B[2]+l.B[3], 0) {
			b = b.union(l.B)
		}
	}
	key := make([]uint32, len(ls))
	idx := make([]int, len(ls))
	for i, l := range ls {
		idx[i] = i
		var x, y uint32
		if w := b[2] - b[0]; w > 0 && !math.IsInf(w, 0) {
			x = clampCell((l.B[0]+l.B[2])/2, b[0], w)
		}
		if h := b[3] - b[1]; h > 0 && !math.IsInf(h, 0) {
			y = clampCell((l.B[1]+l.B[3])/2, b[1], h)
		}
		key[i] = hilbertD(x, y)
	}
	sort.SliceStable(idx, func(i, j int) bool { return key[idx[i]] > key[idx[j]] })
	out := make([]Leaf, len(ls))
	for i, j := range idx {
		out[i] = ls[j]
	}
	copy(ls, out)
}

func clampCell(m, lo, w float64) uint32 {
	v := math.Floor(65535 * ((m - lo) / w))
	if !(v >= 0) {
		return 0
	}
	if v > 65535 {
		return 65535
	}
	return uint32(v)
}

// ---- generators

var nodeSizes = []int{2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 16, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4095, 4096, 10000, 32767, 32768, 65534, 65535}

func genNodeSize(r *Rng) int {
	if r.P(20) {
		return r.In(2, 65535)
	}
	return pick(r, nodeSizes)
}

// genCount picks a number of references, often around level borders.
func genCount(r *Rng, ns, max int) int {
	n := 1
	switch r.IntN(6) {
	case 0:
		n = r.In(1, 12)
	case 1:
		n = r.In(1, 200)
	case 2, 3:
		p := ns
		for r.P(60) && p <= max {
			p *= ns
		}
		n = p + r.In(-1, 1)
		if r.P(30) {
			n = p*r.In(1, 4) + r.In(-1, 1)
		}
	case 4:
		n = r.In(1, 3000)
	default:
		n = r.In(1, max)
	}
	if n < 1 {
		n = 1
	}
	if n > max {
		n = r.In(1, max)
	}
	return n
}

func genBox(r *Rng, mode int) Bx {
	x0, y0, x1, y1 := genCoord(r, mode), genCoord(r, mode), genCoord(r, mode), genCoord(r, mode)
	if x0 > x1 {
		x0, x1 = x1, x0
	}
	if y0 > y1 {
		y0, y1 = y1, y0
	}
	switch r.IntN(8) {
	case 0:
		return Bx{x0, y0, x0, y0}
	case 1:
		return Bx{x0, y0, x1, y0}
	case 2:
		return Bx{x0, y0, x0, y1}
	}
	if r.P(70) { // smaller boxes
		f := 0.02
		if mode <= 1 {
			f = 0.25
		}
		if w := (x1 - x0) * f; !math.IsInf(w, 0) && x0+w <= x1 {
			x1 = x0 + math.Floor(w)
			if mode > 1 {
				x1 = x0 + w
			}
		}
		if h := (y1 - y0) * f; !math.IsInf(h, 0) && y0+h <= y1 {
			y1 = y0 + math.Floor(h)
			if mode > 1 {
				y1 = y0 + h
			}
		}
	}
	return Bx{x0, y0, x1, y1}
}

// genLeaves makes n references. Offsets are distinctive; special shapes
// (empty, infinite, identical) occur.
func genLeaves(r *Rng, n int) []Leaf {
	mode := r.IntN(6)
	special := r.P(30)
	same := r.P(5)
	offMode := r.IntN(4)
	ls := make([]Leaf, n)
	var off int64
	for i := range ls {
		ls[i].B = genBox(r, mode)
		if same && i > 0 {
			ls[i].B = ls[0].B
		}
		if special && r.P(5) {
			inf := math.Inf(1)
			b := ls[i].B
			ls[i].B = pick(r, []Bx{emptyBx, {-inf, -inf, inf, inf}, {-inf, b[1], b[2], b[3]}, {b[0], b[1], inf, b[3]}, {b[0], -inf, b[2], inf}})
		}
		switch offMode {
		case 0:
			ls[i].Off = off
			off += int64(r.In(8, 300))
		case 1:
			ls[i].Off = int64(i)
		case 2:
			ls[i].Off = int64(r.Uint64() >> 1)
		default:
			ls[i].Off = int64(r.Uint64()) // any 64-bit pattern
		}
	}
	return ls
}

// genQueries makes query boxes around the given leaves: touching edges and
// corners, just missing, points, everything, nothing.
func genQueries(r *Rng, ls []Leaf, n int) []Bx {
	all := emptyBx
	for _, l := range ls {
		if l.B.proper() {
			all = all.union(l.B)
		}
	}
	up := func(f float64) float64 { return math.Nextafter(f, math.Inf(1)) }
	down := func(f float64) float64 { return math.Nextafter(f, math.Inf(-1)) }
	var qs []Bx
	inf := math.Inf(1)
	for i := 0; i < n; i++ {
		b := pick(r, ls).B
		if !b.proper() {
			b = genBox(r, r.IntN(6))
		}
		var q Bx
		switch r.IntN(18) {
		case 0:
			q = b
		case 1: // touch right edge
			q = Bx{b[2], b[1], b[2] + math.Abs(b[2]) + 1, b[3]}
		case 2: // touch left edge
			q = Bx{b[0] - math.Abs(b[0]) - 1, b[1], b[0], b[3]}
		case 3: // touch top
			q = Bx{b[0], b[3], b[2], b[3] + math.Abs(b[3]) + 1}
		case 4: // touch bottom
			q = Bx{b[0], b[1] - math.Abs(b[1]) - 1, b[2], b[1]}
		case 5: // corners, as points
			q = pick(r, []Bx{{b[0], b[1], b[0], b[1]}, {b[2], b[3], b[2], b[3]}, {b[0], b[3], b[0], b[3]}, {b[2], b[1], b[2], b[1]}})
		case 6: // just miss right or left
			q = Bx{up(b[2]), b[1], up(b[2]), b[3]}
			if r.P(50) {
				q = Bx{down(b[0]), b[1], down(b[0]), b[3]}
			}
		case 7: // just miss top or bottom
			q = Bx{b[0], up(b[3]), b[2], up(b[3])}
			if r.P(50) {
				q = Bx{b[0], down(b[1]), b[2], down(b[1])}
			}
		case 8:
			q = Bx{-inf, -inf, inf, inf}
		case 9:
			q = emptyBx
		case 10:
			q = all
		case 11: // outside everything
			q = pick(r, []Bx{{up(all[2]), all[1], inf, all[3]}, {-inf, all[1], down(all[0]), all[3]}, {all[0], up(all[3]), all[2], inf}, {all[0], -inf, all[2], down(all[1])}})
		case 12: // thin stripes
			q = pick(r, []Bx{{-inf, b[1], inf, b[1]}, {b[0], -inf, b[0], inf}})
		case 13: // centre point
			q = Bx{b[0]/2 + b[2]/2, b[1]/2 + b[3]/2, b[0]/2 + b[2]/2, b[1]/2 + b[3]/2}
		case 14: // half planes
			q = pick(r, []Bx{{b[2], -inf, inf, inf}, {-inf, -inf, b[0], inf}, {-inf, b[3], inf, inf}, {-inf, -inf, inf, b[1]}})
		case 15: // union of two leaves
			q = b.union(pick(r, ls).B)
		default:
			q = genBox(r, r.IntN(6))
		}
		for j := range q {
			if math.IsNaN(q[j]) {
				q = b
				break
			}
		}
		qs = append(qs, q)
	}
	return qs
}

func describeLeaves(ls []Leaf) string {
	if len(ls) <= 4 {
		return fmt.Sprintf("%v", ls)
	}
	return fmt.Sprintf("%v...(%d refs)", ls[:3], len(ls))
}
