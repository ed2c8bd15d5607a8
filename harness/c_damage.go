package main

// C29: damaged indexes are refused, never misread.

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Prop{ID: "C29", Quick: 16000, Thorough: 160000,
		Rule: "index sections whose child references, internal boxes or leaf offsets were changed one by one or in numbers, deserialized, searched in memory and in streams, and inside files; outcomes compared with a descent through the same bytes that takes the children from the node's position; data sections with damaged feature lengths, read in pieces and searched, compared with what the lengths dictate; distinct by (damage, count, node size, outcome)",
		Run: func(c *C) {
			switch {
			case c.Idx%4 == 3:
				c29file(c)
			case c.Idx%8 == 2:
				c29data(c)
			default:
				c29tree(c)
			}
		}})
}

// descent is what an index with arbitrary numbers in it gives: the leaves
// reached from the root through boxes which intersect the query, where the
// children of a node follow from its position.
type descent struct {
	must, may []int // reached through proper boxes only; otherwise
	bad       int   // a node to descend into, reached through proper boxes only, with a wrong reference
	badMay    bool  // there may be others
	anyBad    int   // any internal node with a wrong reference
}

func descend(nodes []rnode, n, ns int, q Bx) descent {
	d := descent{bad: -1, anyBad: -1}
	sizes := levelSizes(n, ns)
	starts := make([]int, len(sizes))
	p := len(nodes)
	for i, s := range sizes {
		p -= s
		starts[i] = p
	}
	for k := 1; k < len(sizes); k++ {
		for i := 0; i < sizes[k]; i++ {
			if nodes[starts[k]+i].Off != int64(starts[k-1]+i*ns) {
				d.anyBad = starts[k] + i
			}
		}
	}
	var visit func(level, i int, sure bool)
	visit = func(level, i int, sure bool) {
		x := nodes[starts[level]+i]
		if !x.B.hits(q) {
			return
		}
		sure = sure && x.B.proper() && q.proper()
		if level == 0 {
			if sure {
				d.must = append(d.must, i)
			} else {
				d.may = append(d.may, i)
			}
			return
		}
		if x.Off != int64(starts[level-1]+i*ns) {
			if sure {
				d.bad = starts[level] + i
			} else {
				d.badMay = true
			}
		}
		for j := i * ns; j < (i+1)*ns && j < sizes[level-1]; j++ {
			visit(level-1, j, sure)
		}
	}
	visit(len(sizes)-1, 0, true)
	return d
}

// judge compares results with the descent.
func (d *descent) judge(c *C, what string, rs packedrtree.Results, leaves []rnode, ordered bool) {
	want := map[int]int{}
	for _, i := range d.must {
		want[i] = 2
	}
	for _, i := range d.may {
		want[i] = 1
	}
	prev, got := -1, 0
	for _, x := range rs {
		c.Check(want[x.RefIndex] > 0, "%s: returned ref %d, which the index does not lead to, or returned it twice", what, x.RefIndex)
		if want[x.RefIndex] == 2 {
			got++
		}
		want[x.RefIndex] = 0
		c.Check(x.Offset == leaves[x.RefIndex].Off, "%s: ref %d has offset %d, want %d", what, x.RefIndex, x.Offset, leaves[x.RefIndex].Off)
		c.Check(!ordered || x.RefIndex > prev, "%s: ref %d after ref %d", what, x.RefIndex, prev)
		prev = x.RefIndex
	}
	c.Check(got == len(d.must), "%s: returned %d of the %d refs the index leads to", what, got, len(d.must))
}

// damage changes numbers in an index.
func damage(r *Rng, nodes []rnode, n, ns int) string {
	inner := len(nodes) - n
	k := pick(r, []int{1, 1, 1, 2, 3, 10})
	kind := pick(r, []string{"none", "child", "child", "child", "box", "box", "leaf box", "leaf offset", "both"})
	for ; k > 0; k-- {
		i := r.IntN(inner)
		if r.P(30) {
			i = r.IntN(min(inner, 4))
		}
		x := &nodes[i]
		if kind == "child" || kind == "both" {
			old := x.Off
			other := nodes[r.IntN(len(nodes))].Off
			x.Off = pick(r, []int64{old + 1, old - 1, old + int64(ns), old - int64(ns), 0, 1, -1, -old, int64(i), int64(len(nodes)), int64(len(nodes) - 1), other, old + 1<<32, old + 1<<31, old | math.MinInt64, math.MaxInt64, math.MinInt64, old ^ 1<<uint(r.IntN(64))})
		}
		if kind == "box" || kind == "both" {
			switch r.IntN(6) {
			case 0: // looser than necessary, as other writers may have it
				for j := 0; j < 2; j++ {
					x.B[j] = math.Nextafter(x.B[j], math.Inf(-1))
					x.B[j+2] = math.Nextafter(x.B[j+2], math.Inf(1))
				}
			case 1:
				x.B = Bx{math.Inf(-1), math.Inf(-1), math.Inf(1), math.Inf(1)}
			case 2:
				x.B = nodes[r.IntN(len(nodes))].B
			case 3: // a point
				x.B[2], x.B[3] = x.B[0], x.B[1]
			case 4:
				x.B = emptyBx
			default:
				x.B = genBox(r, r.IntN(6))
			}
		}
		l := &nodes[inner+r.IntN(n)]
		if kind == "leaf box" {
			l.B = genBox(r, r.IntN(6))
		}
		if kind == "leaf offset" {
			l.Off = int64(r.Uint64())
		}
	}
	return kind
}

func c29tree(c *C) {
	r := c.R
	ls, ns := genIndexCase(c, 1500)
	n := len(ls)
	nodes, _ := refTree(ls, ns)
	kind := damage(r, nodes, n, ns)
	b := encNodes(nodes)
	what := fmt.Sprintf("index of %d refs, node size %d, damage: %s", n, ns, kind)
	leaves := nodes[len(nodes)-n:]
	src := newSrc(b)
	src.r, src.record = r, false
	src.frag = pick(r, []int{fragFull, fragFull, fragRandom, fragDataEOF})
	t, err := packedrtree.Unmarshal(src.stream(r.P(50), false), n, uint16(ns))
	any := descend(nodes, n, ns, emptyBx).anyBad
	c.Check(err == nil || any >= 0, "Unmarshal of an %s, whose references are right: %v", what, err)
	c.Check((err == nil) == (t != nil), "Unmarshal of an %s: %v, %v", what, t, err)
	res := "unmarshal " + outcome(err)
	qs := genQueries(r, ls, 4)
	qs = append(qs, Bx{math.Inf(-1), math.Inf(-1), math.Inf(1), math.Inf(1)}, nodes[r.IntN(len(nodes))].B)
	for _, q := range qs {
		d := descend(nodes, n, ns, q)
		if t != nil {
			w := fmt.Sprintf("Search for %v of an %s (wrong reference in node %d)", q, what, d.bad)
			d.judge(c, w, t.Search(toBox(q)), leaves, false)
		}
		pre := pick(r, []int64{0, 0, 1, 40, 4097})
		src := newSrc(append(r.Bytes(int(pre)), append(append([]byte{}, b...), r.Bytes(60)...)...))
		src.r, src.record, src.pos = r, false, pre
		src.frag = pick(r, []int{fragFull, fragFull, fragRandom})
		src.maxOps = 1000 + 100*len(b)
		w := fmt.Sprintf("Seek for %v of an %s (wrong reference in node %d)", q, what, d.bad)
		rs, err := packedrtree.Seek(srcRS{src}, n, uint16(ns), toBox(q))
		if err != nil {
			c.Check(d.bad >= 0 || d.badMay || any >= 0, "%s: %v", w, err)
			c.Check(len(rs) == 0, "%s: %d results and %v", w, len(rs), err)
			c.Count("refused", 1)
		} else {
			d.judge(c, w, rs, leaves, true)
			c.Check(src.pos == pre+int64(len(b)), "%s: left the stream at %d, want %d", w, src.pos-pre, len(b))
			c.Count("answered", 1)
		}
		c.Eval(1)
		c.State("outcome", fmt.Sprintf("%s: descends into a wrong reference: %v, Seek %s", kind, d.bad >= 0, outcome(err)))
		res += fmt.Sprintf(", seek %s %d", outcome(err), len(rs))
	}
	c.Briefly("%s: %s", what, res)
	c.Distinct("%s %d %d %s", kind, n, ns, res)
}

// c29file searches files whose index disagrees with their data.
func c29file(c *C) {
	r := c.R
	f := genFile(r, fileOpts{MaxFeats: 40, MinFeats: 1, SmallFeats: true, ForceIndex: true})
	if !f.Indexed {
		return
	}
	n := len(f.Leaves)
	nodes, _ := refTree(f.Leaves, f.NS)
	leaves := nodes[len(nodes)-n:]
	kind := pick(r, []string{"none", "child", "box", "offset", "offset", "offset"})
	if kind == "offset" {
		for k := r.In(1, 3); k > 0; k-- {
			i, j := r.IntN(n), r.IntN(n)
			switch r.IntN(8) {
			case 6, 7: // within the feature j
				if k := f.ByOff[leaves[j].Off]; i != j && f.Offs[k] == leaves[j].Off {
					leaves[i].Off = leaves[j].Off + int64(1+r.IntN(len(f.Feats[k])-1))
				}
			case 0:
				leaves[i].Off, leaves[j].Off = leaves[j].Off, leaves[i].Off
			case 1:
				leaves[i].Off = leaves[j].Off
			case 2:
				leaves[i].Off = pick(r, []int64{-1, -4, math.MinInt64, -f.DataSize, -leaves[i].Off})
			case 3:
				leaves[i].Off = f.DataSize + pick(r, []int64{0, 1, 3, 4, 100, 1 << 32})
			case 4:
				leaves[i].Off = pick(r, []int64{math.MaxInt64, math.MaxInt64 - 7, 1 << 62})
			case 5:
				leaves[i].Off += pick(r, []int64{1 << 31, 1 << 32, 1 << 40})
			}
		}
	} else if kind != "none" {
		for i := 0; i < 20; i++ {
			if damage(r, nodes, n, f.NS) == kind {
				break
			}
			nodes, _ = refTree(f.Leaves, f.NS)
			leaves = nodes[len(nodes)-n:]
		}
	}
	f.Index = encNodes(nodes)
	q := Bx{math.Inf(-1), math.Inf(-1), math.Inf(1), math.Inf(1)}
	if r.P(60) {
		q = genQueries(r, f.Leaves, 1)[0]
	}
	d := descend(nodes, n, f.NS, q)
	if len(d.may) > 0 || d.badMay {
		q = Bx{-1, -1, 1, 1}
		if d = descend(nodes, n, f.NS, q); len(d.may) > 0 || d.badMay {
			return
		}
	}
	src, _ := openFile(r, f, false)
	seek, first := r.P(60), r.P(40)
	what := fmt.Sprintf("%s, damage: %s, seekable %v, Index first %v", f.shape(), kind, seek, first)
	rd := flatgeobuf.NewFileReader(src.stream(seek, false))
	_, err := rd.Header()
	c.Check(err == nil, "%s: Header: %v", what, err)
	res := ""
	if first && seek {
		p, err := rd.Index()
		c.Check((err == nil) == (p != nil), "%s: Index: %v, %v", what, p, err)
		c.Check(err == nil || d.anyBad >= 0, "%s: Index: %v", what, err)
		if err != nil {
			_, err = rd.Data(make([]flat.Feature, 1))
			c.Check(err != nil && err != io.EOF, "%s: Data after Index refused the index: %v", what, err)
			c.Distinct("%s index refused", what)
			return
		}
		err = rd.Rewind()
		c.Check(err == nil, "%s: Rewind: %v", what, err)
		res = "indexed, "
	}
	fs, err := rd.IndexSearch(toBox(q))
	// The features found, in file order.
	var offs []int64
	for _, i := range d.must {
		offs = append(offs, leaves[i].Off)
	}
	sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
	wrong := d.bad >= 0
	why := "a wrong child reference"
	end := int64(0) // of the features read so far
	for k, o := range offs {
		i, ok := f.ByOff[o]
		if !ok && o >= end && o < f.DataSize && o > 0 {
			// It leads into a feature that is not wanted itself. No reader
			// can tell where in the data features begin.
			c.Count("undecidable", 1)
			return
		}
		if ok {
			end = o + int64(len(f.Feats[i]))
		}
		if !ok {
			wrong, why = true, fmt.Sprintf("offset %d, where no feature begins", o)
		} else if k > 0 && offs[k-1] == o {
			wrong, why = true, fmt.Sprintf("two matches at offset %d (feature %d)", o, i)
		}
	}
	w := fmt.Sprintf("%s: IndexSearch(%v)", what, q)
	if err == nil {
		if wrong && d.bad >= 0 {
			// It did not go where the reference leads: the positions say where.
			why = ""
			for k, o := range offs {
				if _, ok := f.ByOff[o]; !ok || k > 0 && offs[k-1] == o {
					why = "features which cannot be had"
				}
			}
		}
		c.Check(!wrong || why == "", "%s: met %s, but returned %d features without an error", w, why, len(fs))
		c.Check(len(fs) == len(offs), "%s: %d features, want %d", w, len(fs), len(offs))
		for k, o := range offs {
			f.judgeFeature(c, w, &fs[k], f.ByOff[o])
		}
		c.Count("file_answered", 1)
	} else {
		c.Check(wrong || d.anyBad >= 0, "%s: %v", w, err)
		c.Check(len(fs) == 0, "%s: %d features and %v", w, len(fs), err)
		fs := make([]flat.Feature, 2)
		k, err := rd.Data(fs)
		c.Check(k == 0 && err != nil && err != io.EOF, "%s: after a failed search, Data: %d, %v", what, k, err)
		c.Count("file_refused", 1)
	}
	c.Eval(1)
	res += outcome(err)
	c.State("outcome", fmt.Sprintf("file, %s: wrong for this query: %v, %s", kind, wrong, res))
	c.Briefly("%s: %s, %d features", w, res, len(fs))
	c.Distinct("%s/%s/%v/%d/%s", kind, f.shape(), seek, len(offs), res)
}

// c29data reads and searches files whose feature lengths are damaged.
func c29data(c *C) {
	r := c.R
	o := fileOpts{MaxFeats: 40, MinFeats: 1, SmallFeats: true, ForceIndex: r.P(50)}
	if c.Idx%800 == 2 {
		o = fileOpts{MaxFeats: 3000, MinFeats: 1000, SmallFeats: true, Tiny: true, ForceIndex: r.P(30)}
	}
	f := genFile(r, o)
	d := make([]byte, 0, f.DataSize)
	for _, x := range f.Feats {
		d = append(d, x...)
	}
	// Damage lengths.
	n := len(f.Feats)
	how := "none"
	for k := r.IntN(4); k > 0 && n > 0; k-- {
		i := r.IntN(n)
		if r.P(30) {
			i = n - 1
		}
		at := int(f.Offs[i])
		old := uint32(len(f.Feats[i]) - 4)
		rest := uint32(len(d) - at - 4)
		v := pick(r, []uint32{0, 1, 2, 3, 3, 4, 5, old - 4, old + 1, old + 4, rest, rest - 1, rest + 1, rest + 1000, 1 << 30, 1 << 31, math.MaxUint32, math.MaxUint32 - 3, old | 1<<31, old | 1<<20})
		if i+1 < n && r.P(30) {
			v = old + uint32(len(f.Feats[i+1])) // swallows the next one
		}
		copy(d[at:], le(4, uint64(v)))
		how = "lengths"
	}
	if r.P(10) {
		d = d[:r.IntN(len(d)+1)]
		how = "cut"
	}
	b := append(append(append(append([]byte{}, magicBytes...), f.Hdr...), f.Index...), d...)
	// at reads the feature at a position as its length dictates.
	at := func(p int64) (x []byte, next int64, ok bool) {
		if p < 0 || p > int64(len(d))-8 {
			return nil, p, false
		}
		l := int64(uint32(d[p]) | uint32(d[p+1])<<8 | uint32(d[p+2])<<16 | uint32(d[p+3])<<24)
		if l < 4 || p+4+l > int64(len(d)) {
			return nil, p, false
		}
		return d[p : p+4+l], p + 4 + l, true
	}
	seek := r.P(60)
	src := newSrc(b)
	src.r, src.record = r, false
	src.frag = pick(r, []int{fragFull, fragFull, fragRandom, fragDataEOF})
	src.maxOps = 10000 + 40*len(b)
	rd := flatgeobuf.NewFileReader(src.stream(seek, r.P(20)))
	what := fmt.Sprintf("%s, damage: %s, seekable %v", f.shape(), how, seek)
	_, err := rd.Header()
	c.Check(err == nil, "%s: Header: %v", what, err)
	if f.Indexed && r.P(50) {
		first := seek && r.P(30)
		if first {
			_, err := rd.Index()
			c.Check(err == nil, "%s: Index: %v", what, err)
			c.Check(rd.Rewind() == nil, "%s: Rewind failed", what)
		}
		q := f.query(r)
		must, may := f.matches(q)
		if len(may) > 0 {
			return
		}
		fs, err := rd.IndexSearch(toBox(q))
		w := fmt.Sprintf("%s: IndexSearch(%v), Index first %v", what, q, first)
		var end int64
		for k, i := range must {
			x, next, ok := at(f.Offs[i])
			if !ok || f.Offs[i] < end {
				c.Check(err != nil && err != io.EOF && len(fs) == 0, "%s: the length of feature %d is wrong (or the one before reaches into it), but it returned %d features and %v", w, i, len(fs), err)
				p := make([]flat.Feature, 2)
				k, err := rd.Data(p)
				c.Check(k == 0 && err != nil && err != io.EOF, "%s: then Data returned %d, %v", w, k, err)
				c.Count("lengths_refused", 1)
				c.Distinct("search %s %d refused", what, i)
				return
			}
			end = next
			c.Check(err != nil || k < len(fs) && bytes.Equal(tableBytes(fs[k].Table()), x), "%s: result %d is not what lies at offset %d", w, k, f.Offs[i])
		}
		c.Check(err == nil && len(fs) == len(must), "%s: returned %d features and %v, want %d", w, len(fs), err, len(must))
		c.Count("lengths_searched", 1)
		c.Eval(1)
		c.Distinct("search %s %d", what, len(must))
		return
	}
	var p int64
	next := 0
	for step := 0; step < 6; step++ {
		k := pick(r, []int{0, 1, 2, 3, 7, 2000, 5000})
		rem := r.P(30)
		var fs []flat.Feature
		var err error
		var m int
		if rem {
			k = math.MaxInt
			fs, err = rd.DataRem()
		} else {
			fs = make([]flat.Feature, k)
			m, err = rd.Data(fs)
			fs = fs[:m]
		}
		w := fmt.Sprintf("%s: reading %d features from number %d on (rest: %v)", what, k, next, rem)
		got, bad, ended := 0, false, false
		for got < k {
			if f.Count > 0 && next == f.Count || f.Count == 0 && p == int64(len(d)) {
				ended = true
				break
			}
			x, to, ok := at(p)
			if !ok {
				bad = true
				break
			}
			c.Check(got < len(fs), "%s: %d features and %v, but another begins at %d", w, len(fs), err, p)
			t := fs[got].Table()
			c.Check(bytes.Equal(tableBytes(t), x), "%s: feature %d is not what lies at offset %d", w, next, p)
			p, next, got = to, next+1, got+1
		}
		c.Check(len(fs) == got, "%s: %d features, want %d", w, len(fs), got)
		c.Eval(1)
		switch {
		case bad:
			c.Check(err != nil && err != io.EOF, "%s: the feature at offset %d has a wrong length: %v", w, p, err)
			n, err := rd.Data(make([]flat.Feature, 1))
			c.Check(n == 0 && err != nil && err != io.EOF, "%s: and then: %d, %v", w, n, err)
			fs, err := rd.DataRem()
			c.Check(len(fs) == 0 && err != nil && err != io.EOF, "%s: and then: %d, %v", w, len(fs), err)
			c.Count("lengths_refused", 1)
			c.Distinct("data %s %d refused", what, next)
			return
		case rem:
			c.Check(err == nil, "%s: %v", w, err)
			c.Count("lengths_read", 1)
			c.Distinct("data %s %d", what, next)
			return
		case ended && f.Count == 0:
			c.Check(err == io.EOF, "%s: %v", w, err)
			c.Distinct("data %s %d", what, next)
			return
		case f.Count > 0 && next == f.Count:
			c.Check(err == io.EOF, "%s: %v", w, err)
			c.Distinct("data %s %d", what, next)
			return
		default:
			c.Check(err == nil, "%s: %v", w, err)
		}
	}
}
