package main

// C08 round trip, C09 IndexData, C15 writer protocol, C16 write failures.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Prop{ID: "C08", Quick: 15000, Thorough: 40000,
		Rule: "files of every shape (tables from two independent encoders, in buffers with and without slack, features up to 3 MiB, indexes built or deserialized) are written, read back and copied reader to writer in different styles, and /repo/testdata is copied; output compared byte for byte with the independently assembled file, and every returned count with the bytes the stream received; distinct by (file shape, sizes, style)",
		Run:  c08})
	register(&Prop{ID: "C09", Quick: 8000, Thorough: 40000,
		Rule: "feature lists (any geometry incl. nested parts, none, identical, duplicates of one pointer) written through IndexData/IndexDataPtr; output parsed with the independent decoder; leaf i compared with stored feature i, order compared with an independent Hilbert curve, searches of the result with a scan of the geometries; distinct by (count, node size, order)",
		Run:  c09})
	register(&Prop{ID: "C15", Quick: 40000, Thorough: 200000,
		Rule: "random sequences of writer calls with legal and illegal arguments (wrong node size or count, foreign indexes, tables which are not size-prefixed roots, too many features) judged call by call against a state machine of the file format, with the bytes the stream received; distinct by call sequence; states_seen lists abstract transitions",
		Run:  c15})
	register(&Prop{ID: "C16", Level: "fault_enumeration", Quick: 9000, Thorough: 30000,
		Rule: "for each script of writer calls: a failure at every write call the script makes, accepting 0, 1, half, all but one or all bytes, once or for good; the same for index serialization and property values; distinct by (script, fault position, bytes accepted)",
		Run:  c16})
}

func features(r *Rng, f *FileM, withSlack bool) []flat.Feature {
	fs := make([]flat.Feature, len(f.Feats))
	for i := range fs {
		b := f.Feats[i]
		if withSlack {
			b = slack(r, b)
		}
		fs[i] = *featureOf(b)
	}
	return fs
}

func (f *FileM) tree(c *C, r *Rng) *packedrtree.PackedRTree {
	if r.P(50) {
		p, err := packedrtree.Unmarshal(bytes.NewReader(f.Index), f.Count, uint16(f.NS))
		c.Check(err == nil, "Unmarshal of an index of %d refs, node size %d: %v", f.Count, f.NS, err)
		return p
	}
	p, err := packedrtree.New(toRefs(f.Leaves), uint16(f.NS))
	c.Check(err == nil, "New: %v", err)
	return p
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func c08(c *C) {
	r := c.R
	var f *FileM
	name := "generated"
	if c.Idx%50 == 9 {
		td := testdata()
		var names []string
		for k := range td {
			names = append(names, k)
		}
		sort.Strings(names)
		if len(names) > 0 {
			name = names[c.Idx/50%len(names)]
			f = td[name]
			c.State("testdata", name)
		}
	}
	if c.huge() {
		f = hugeFile(c, r.P(50))
	}
	if f == nil {
		o := fileOpts{MaxFeats: 20, BigFeats: c.Idx%25 == 3}
		if c.Idx%50 == 4 {
			o = fileOpts{MaxFeats: 3000, MinFeats: 1000, SmallFeats: true}
		}
		f = genFile(r, o)
	}
	if f.Count == 0 && f.NS != 0 {
		// The writer insists on an index for such a header.
		f.NS = 0
		f.HdrM.NodeSize = 0
		f.Hdr = encode(r, f.HdrM.table())
	}
	f.Patch = 1
	want := f.bytes()
	what := fmt.Sprintf("%s %s", name, f.describe())
	c.Briefly("%s", what)
	c.State("file", f.shape())

	// Write.
	dst := newDst()
	w := flatgeobuf.NewFileWriter(dst.stream(r.P(50)))
	total := 0
	call := func(item string, size int, g func() (int, error)) {
		before := len(dst.buf)
		var n int
		var err error
		mustNotPanic(c, item+" of "+what, func() { n, err = g() })
		c.Check(err == nil, "writing %s of %s: %v", item, what, err)
		c.Check(n == len(dst.buf)-before, "writing %s of %s: returned %d, wrote %d bytes", item, what, n, len(dst.buf)-before)
		c.Check(n == size, "writing %s of %s: wrote %d bytes, want %d", item, what, n, size)
		total += n
		c.Eval(1)
	}
	hb := f.Hdr
	if r.P(50) {
		hb = slack(r, hb)
	}
	call("header", 8+len(f.Hdr), func() (int, error) { return w.Header(headerOf(hb)) })
	if f.Indexed {
		t := f.tree(c, r)
		call("index", len(f.Index), func() (int, error) { return w.Index(t) })
	}
	fs := features(r, f, r.P(50))
	for i := range fs {
		call(fmt.Sprintf("feature %d", i), len(f.Feats[i]), func() (int, error) { return w.Data(&fs[i]) })
	}
	c.Check(w.Close() == nil, "Close after writing %s failed", what)
	if !bytes.Equal(dst.buf, want) {
		c.Failf("writing %s: output of %d bytes differs from the expected %d bytes at %d", what, len(dst.buf), len(want), firstDiff(dst.buf, want))
	}
	c.Check(total == len(dst.buf), "writing %s: counts add up to %d of %d bytes", what, total, len(dst.buf))

	// Read back, in some style, and copy.
	in := append([]byte(nil), want...)
	if name == "generated" && r.P(30) {
		in[7] = byte(r.Uint32())
	}
	src := newSrc(in)
	src.r = r
	src.record = false
	src.frag = pick(r, []int{fragFull, fragFull, fragRandom, fragDataEOF})
	src.scrib = src.r != nil && src.r.P(30)
	src.maxOps = 1000000 + 10*len(in)
	rd := flatgeobuf.NewFileReader(src.stream(r.P(60), r.P(50)))
	out := newDst()
	cw := flatgeobuf.NewFileWriter(out.stream(true))
	h, err := rd.Header()
	c.Check(err == nil, "reading %s: Header: %v", what, err)
	f.judgeHeader(c, "reading "+what, h)
	n, err := cw.Header(h)
	c.Check(err == nil && n == len(out.buf), "copying %s: Header: %d, %v", what, n, err)
	total = n
	x, err := rd.Index()
	c.Check(err == nil && (x != nil) == f.Indexed, "reading %s: Index: %v, %v", what, x, err)
	if x != nil {
		n, err := cw.Index(x)
		c.Check(err == nil, "copying %s: Index: %v", what, err)
		total += n
	}
	style := r.IntN(3)
	next := 0
	put := func(x *flat.Feature) {
		f.judgeFeature(c, "reading "+what, x, next)
		next++
		n, err := cw.Data(x)
		c.Check(err == nil, "copying %s: Data: %v", what, err)
		total += n
		c.Eval(1)
	}
	if style == 0 {
		fs, err := rd.DataRem()
		c.Check(err == nil, "reading %s: DataRem: %v", what, err)
		for i := range fs {
			put(&fs[i])
		}
	} else {
		k := 1
		if style == 2 {
			k = r.In(2, 50)
		}
		p := make([]flat.Feature, k)
		for {
			n, err := rd.Data(p)
			for i := range p[:n] {
				put(&p[i])
			}
			if err == io.EOF {
				break
			}
			c.Check(err == nil && n > 0, "reading %s: Data(%d): %d, %v", what, k, n, err)
		}
	}
	c.Check(next == len(f.Feats), "reading %s: %d features", what, next)
	c.Check(rd.Close() == nil && cw.Close() == nil, "copying %s: Close failed", what)
	c.Check(total == len(out.buf), "copying %s: counts add up to %d of %d bytes", what, total, len(out.buf))
	if len(out.buf) < 8 || !bytes.Equal(out.buf[8:], in[8:]) {
		c.Failf("copying %s: output of %d bytes differs from the input's %d at %d", what, len(out.buf), len(in), firstDiff(out.buf, in))
	}
	c.Check(bytes.Equal(out.buf[:8], magicBytes), "copying %s: magic number % x", what, out.buf[:8])
	c.Count("bytes_compared", len(want)+len(in))
	c.Distinct("%s/%d/%d/%d/%d", f.shape(), len(f.Feats), f.NS, style, len(want))
}

// judgeIndexed checks a file written through IndexData: its features are
// those given, the leaves describe them, the order is a Hilbert order.
func judgeIndexed(c *C, what string, buf []byte, hdr []byte, given [][]byte, ns int) *FileM {
	out, err := parseFile(buf)
	c.Check(err == nil, "%s: the output of %d bytes can't be parsed: %v", what, len(buf), err)
	c.Check(bytes.Equal(buf[:8], magicBytes), "%s: magic number % x", what, buf[:8])
	c.Check(bytes.Equal(out.Hdr, hdr), "%s: the header differs", what)
	c.Check(len(out.Feats) == len(given), "%s: %d features stored, %d given", what, len(out.Feats), len(given))
	left := map[string]int{}
	for _, b := range given {
		left[string(b)]++
	}
	for i, b := range out.Feats {
		left[string(b)]--
		c.Check(left[string(b)] >= 0, "%s: stored feature %d (%d bytes) is not one of those given, or stored more often", what, i, len(b))
	}
	boxes := make([]Bx, len(out.Feats))
	bounds := emptyBx
	for i := range out.Feats {
		boxes[i] = out.FeatM[i].Geom.bounds()
		bounds = bounds.union(boxes[i])
		l := out.Leaves[i]
		c.Check(l.Off == out.Offs[i], "%s: leaf %d has offset %d, but stored feature %d is at %d", what, i, l.Off, i, out.Offs[i])
		c.Check(l.B == boxes[i], "%s: leaf %d has box %v, but the geometry of stored feature %d has bounds %v", what, i, l.B, i, boxes[i])
	}
	judgeHilbertOrder(c, what, boxes, bounds)
	// The levels above.
	nodes := decNodes(out.Index)
	want, _ := refTree(out.Leaves, ns)
	for i := range want {
		c.Check(nodes[i] == want[i], "%s: node %d is %v, want %v", what, i, nodes[i], want[i])
	}
	return out
}

// dataWatch takes a whole file and keeps what comes before the data section,
// and the length and place of each feature.
type dataWatch struct {
	pre  []byte // magic number, header and index
	npre int
	n    int64 // bytes of data
	left int64 // of the present feature
	pfx  []byte
	offs []int64
	lens []int64
}

func (w *dataWatch) Write(p []byte) (int, error) {
	n := len(p)
	if k := min(w.npre-len(w.pre), len(p)); k > 0 {
		w.pre = append(w.pre, p[:k]...)
		p = p[k:]
	}
	for len(p) > 0 {
		if w.left > 0 {
			k := min(w.left, int64(len(p)))
			w.left -= k
			w.n += k
			p = p[k:]
			continue
		}
		if len(w.pfx) == 0 {
			w.offs = append(w.offs, w.n)
		}
		w.pfx = append(w.pfx, p[0])
		p = p[1:]
		w.n++
		if len(w.pfx) == 4 {
			w.left = int64(binary.LittleEndian.Uint32(w.pfx))
			w.lens = append(w.lens, 4+w.left)
			w.pfx = w.pfx[:0]
		}
	}
	return n, nil
}

// c09far is a data section of more than 4 GiB: one large feature, many times,
// among small ones, each of them of a length of its own.
func c09far(c *C) {
	r := c.R
	twoGiB := int64(1) << 31
	huge, free := bigZeros(int(twoGiB) + r.In(0, 1<<20)) // also, more memory may be used
	defer free()
	ns := pick(r, []int{2, 16, 100})
	large := 32<<20 + r.In(0, 1<<20)
	count := int((2*twoGiB+300<<20)/int64(large)) + r.In(1, 9)
	box := map[int64]Bx{}
	var ptrs []*flat.Feature
	add := func(id, extra int) *flat.Feature {
		b := encode(r, tinyFeat(r, 1, id).T())
		if extra < 0 {
			copy(huge, b)
			b = huge
		} else {
			b = append(append(make([]byte, 0, len(b)+extra), b...), make([]byte, extra)...)
		}
		copy(b, le(4, uint64(len(b)-4)))
		k := int64(len(b))
		if _, ok := box[k]; ok {
			return nil
		}
		x := emptyBx
		if g := decFeat(decodeRoot(b)).Geom; g != nil {
			x = g.bounds()
		}
		box[k] = x
		return featureOf(b)
	}
	big := add(0, large)
	for i := 0; i < count; i++ {
		ptrs = append(ptrs, big)
	}
	if huge != nil { // one of more than 2 GiB
		ptrs = append(ptrs, add(1, -1))
		c.Count("features_over_2GiB", 1)
	}
	for i := 0; i < 60; i++ {
		if f := add(i, 4*i); f != nil {
			ptrs = append(ptrs, f)
		}
	}
	r.Shuffle(len(ptrs), func(i, j int) { ptrs[i], ptrs[j] = ptrs[j], ptrs[i] })
	n := len(ptrs)
	hm := &HdrM{Count: uint64(n), NodeSize: uint16(ns)}
	hdr := encode(r, hm.table())
	sz := int(refSize(int64(n), int64(ns)).Int64())
	d := &dataWatch{npre: 8 + len(hdr) + sz}
	w := flatgeobuf.NewFileWriter(d)
	_, err := w.Header(headerOf(hdr))
	c.Check(err == nil, "Header: %v", err)
	what := fmt.Sprintf("IndexDataPtr of %d features, node size %d, %d MiB", n, ns, int64(count)*int64(large)>>20)
	m, err := w.IndexDataPtr(ptrs)
	c.Check(err == nil, "%s: %v", what, err)
	c.Check(int64(m) == int64(sz)+d.n, "%s: returned %d, wrote %d bytes", what, m, int64(sz)+d.n)
	c.Check(w.Close() == nil, "%s: Close failed", what)
	c.Check(len(d.pre) == d.npre && len(d.lens) == n && d.left == 0 && len(d.pfx) == 0, "%s: %d features in the data section", what, len(d.lens))
	leaves := d.pre[len(d.pre)-40*n:]
	for i := 0; i < n; i++ {
		nd := decNodes(leaves[40*i : 40*i+40])[0]
		want, ok := box[d.lens[i]]
		c.Check(ok, "%s: feature %d of the data section has %d bytes, none given has", what, i, d.lens[i])
		c.Check(nd.Off == d.offs[i] && nd.B == want, "%s: leaf %d is %v at %d, the feature there is %v at %d", what, i, nd.B, nd.Off, want, d.offs[i])
	}
	c.Count("far_data_sections", 1)
	c.Eval(n)
	debug.FreeOSMemory()
}

func c09(c *C) {
	r := c.R
	if c.Idx%4000 == 71 && !raceEnabled && !asanEnabled && math.MaxInt > math.MaxInt32 {
		c09far(c)
		return
	}
	ns := pick(r, []int{2, 2, 3, 4, 5, 16, 16, 17, 100, 65535})
	n := genCount(r, ns, 300)
	if n > 300 || r.P(50) {
		n = r.In(1, 30)
	}
	if c.Idx%100 == 5 {
		n = r.In(1000, 5000)
	}
	if c.huge() {
		n = r.In(66000, 140000)
		c.Count("huge_lists", 1)
	}
	mode := r.IntN(6)
	cols := genCols(r, r.IntN(4))
	hm := genHdr(r, uint64(n), uint16(ns))
	hm.Cols = some(cols)
	hdr := encode(r, hm.table())
	same := r.P(8) && (n < 30 || c.Idx%100 != 9)
	var given [][]byte
	var feats []flat.Feature
	for i := 0; i < n; i++ {
		var fm *FeatM
		if c.huge() {
			fm = tinyFeat(r, mode, i)
		} else {
			fm = genFeat(r, mode, cols, i)
		}
		if !c.huge() && r.P(3) { // deep nesting
			d := r.In(5, 120)
			g := genGeom(r, mode, 0)
			for ; d > 0; d-- {
				g = &GeomM{Type: 7, Parts: some([]*GeomM{g})}
				if r.P(20) {
					g.Parts.V = append(g.Parts.V, genGeom(r, mode, 0))
				}
				if r.P(10) {
					g.XY = some([]float64{genCoord(r, mode), genCoord(r, mode)})
				}
			}
			fm.Geom = g
		}
		if i == 0 && c.Idx%100 == 9 {
			fm.Geom = bigGeom(r)
			c.Count("big_geometries", 1)
		}
		if same && i > 0 {
			fm.Geom = nil
			if r.P(95) {
				fm.Geom = decFeat(decodeRoot(given[0])).Geom
			}
		}
		b := encode(r, fm.T())
		if len(given) > 0 && r.P(3) {
			b = pick(r, given) // the same bytes twice
		}
		given = append(given, b)
		if r.P(40) {
			b = slack(r, b)
		}
		feats = append(feats, *featureOf(b))
	}
	ptrs := make([]*flat.Feature, n)
	for i := range ptrs {
		ptrs[i] = &feats[i]
		if i > 0 && r.P(2) { // the same pointer twice
			j := r.IntN(i)
			ptrs[i] = ptrs[j]
			given[i] = given[j]
			feats[i] = feats[j]
		}
	}
	ptrs0 := append([]*flat.Feature(nil), ptrs...)
	feats0 := append([]flat.Feature(nil), feats...)
	how := pick(r, []string{"IndexData", "IndexDataPtr"})
	what := fmt.Sprintf("%s of %d features (node size %d)", how, n, ns)
	c.Briefly("%s, coordinates mode %d, identical geometries %v", what, mode, same)
	dst := newDst()
	w := flatgeobuf.NewFileWriter(dst.stream(r.P(50)))
	_, err := w.Header(headerOf(hdr))
	c.Check(err == nil, "Header: %v", err)
	before := len(dst.buf)
	var m int
	mustNotPanic(c, what, func() {
		if how == "IndexData" {
			m, err = w.IndexData(feats)
		} else {
			m, err = w.IndexDataPtr(ptrs)
		}
	})
	c.Check(err == nil, "%s: %v", what, err)
	c.Check(m == len(dst.buf)-before, "%s: returned %d, wrote %d bytes", what, m, len(dst.buf)-before)
	c.Check(w.Close() == nil, "%s: Close failed", what)
	for i := range feats {
		a, b := feats[i].Table(), feats0[i].Table()
		c.Check(ptrs[i] == ptrs0[i] && a.Pos == b.Pos && len(a.Bytes) == len(b.Bytes) && &a.Bytes[0] == &b.Bytes[0], "%s: the caller's slice was changed at %d", what, i)
	}
	out := judgeIndexed(c, what, dst.buf, hdr, given, ns)
	c.Eval(2)
	// Search the result.
	src := newSrc(dst.buf)
	src.record = false
	src.maxOps = 0
	seek := r.P(70)
	rd := flatgeobuf.NewFileReader(src.stream(seek, false))
	_, err = rd.Header()
	c.Check(err == nil, "%s: reading it: %v", what, err)
	for i := 0; i < 3; i++ {
		q := out.query(r)
		fs, err := rd.IndexSearch(toBox(q))
		c.Check(err == nil, "%s: searching it: %v", what, err)
		k := 0
		must, _ := out.matches(q)
		isMust := map[int]bool{}
		for _, j := range must {
			isMust[j] = true
		}
		for j := range out.Feats { // the oracle: geometry bounds, not leaves
			if out.FeatM[j].Geom.bounds().hits(q) {
				c.Check(isMust[j], "harness: leaf and geometry disagree")
				c.Check(k < len(fs) && bytes.Equal(tableBytes(fs[k].Table()), out.Feats[j]), "%s: result %d of a search for %v is not feature %d, whose geometry has bounds %v", what, k, q, j, out.FeatM[j].Geom.bounds())
				k++
			}
		}
		c.Check(k == len(fs), "%s: a search for %v found %d features, want %d", what, q, len(fs), k)
		c.Eval(1)
		c.Count("features_found", k)
		if !seek {
			break
		}
		c.Check(rd.Rewind() == nil, "%s: Rewind failed", what)
	}
	c.Count("features_indexed", n)
	c.Distinct("%s/%d/%d/%d", how, n, ns, len(dst.buf))
	c.State("levels", fmt.Sprint(len(levelSizes(n, ns))))
}

// ---- C15

// notRoot makes a buffer/position which is not a size-prefixed root at 0.
func notRoot(r *Rng, b []byte) (buf []byte, pos uint32, how string) {
	root := 4 + (uint32(b[4]) | uint32(b[5])<<8 | uint32(b[6])<<16 | uint32(b[7])<<24)
	switch r.IntN(6) {
	case 5: // too short for any table, down to the zero value
		k := r.IntN(8)
		if r.P(40) {
			return nil, 0, "no bytes at all"
		}
		return append([]byte(nil), b[:k]...), pick(r, []uint32{0, 4, root, uint32(k)}), "buffer too short for a table"
	case 0: // no size prefix
		return append([]byte(nil), b[4:]...), root - 4, "root without size prefix"
	case 1: // not at the start
		k := 4 * r.In(2, 6)
		x := append(make([]byte, k), b...)
		return x, root + uint32(k), "size-prefixed root in the middle of a buffer"
	case 2: // size prefix too large for the buffer
		x := append([]byte(nil), b...)
		n := uint32(len(b)-4) + uint32(r.In(1, 1000))
		if r.P(30) {
			n = pick(r, []uint32{0xFFFFFFF0, 0xFFFFFFFC, 0xFFFFFFFE, 0xFFFFFFFF, 1 << 31})
		}
		copy(x, le(4, uint64(n)))
		return x, root, "size prefix beyond the buffer"
	case 3: // a nested table or so
		return append([]byte(nil), b...), root + 4, "position which is not the root"
	default: // size prefix ahead of a shorter buffer
		return b[: len(b)-r.In(1, 4) : len(b)], root, "buffer shorter than the size prefix"
	}
}

// corruptHeader damages a header table such that its fields can't be read.
func corruptHeader(r *Rng, b []byte) ([]byte, string) {
	x := append([]byte(nil), b...)
	root := 4 + int(uint32(x[4])|uint32(x[5])<<8|uint32(x[6])<<16|uint32(x[7])<<24)
	d := decodeRoot(x)
	vt := d.pos - int(int32(d.g32(d.pos)))
	slot := pick(r, []int{8, 8, 9, 9}) // features count, index node size
	if r.P(50) && d.field(slot) != 0 && len(x) < 65000 {
		copy(x[vt+4+2*slot:], le(2, uint64(len(x)-root+r.IntN(500))))
		return x, fmt.Sprintf("field %d outside the buffer", slot)
	}
	v := pick(r, []int{root + 1 + r.IntN(1000), -(len(x) - root) - r.IntN(1000), 1<<31 - 1})
	copy(x[root:], le(4, uint64(uint32(int32(v)))))
	return x, "vtable outside the buffer"
}

// corruptGeom damages the geometry of a feature so that its coordinates lie,
// in part at least, outside of its buffer.
func corruptGeom(r *Rng, b []byte) ([]byte, string) {
	x := append([]byte(nil), b...)
	n := uint32(len(x))
	put := func(at int, v uint32) { copy(x[at:], le(4, uint64(v))) }
	far := func(at int) { // an offset which leads outside, without wrapping around
		put(at, pick(r, []uint32{n - uint32(at), n - uint32(at) + 4, n + 1000, 1 << 30, 1<<31 - 1 - n}))
	}
	d := decodeRoot(x)
	g, ok := d.tab(0)
	if !ok {
		return nil, ""
	}
	k := r.IntN(4)
	if k >= 2 {
		// Some part of it, at any depth.
		for i := 0; i < 5; i++ {
			if ps, ok := g.tabs(7); ok && len(ps) > 0 && r.P(70) {
				g = pick(r, ps)
			}
		}
	}
	xy, parts := g.field(1), g.field(7)
	switch {
	case k == 0:
		far(d.field(0))
		return x, "geometry outside the buffer"
	case k == 1 && parts != 0:
		far(parts)
		return x, "parts outside the buffer"
	case xy == 0:
		return nil, ""
	case r.P(50):
		far(xy)
		return x, "coordinates outside the buffer"
	}
	v := xy + g.g32(xy)
	put(v, pick(r, []uint32{(n-uint32(v))/8 + 1, n, 1 << 28, 1<<31 - 1}))
	return x, "more coordinates than fit"
}

type wmodel struct {
	st     string // uninit, header, index, data, full, closed
	count  int
	ns     int
	next   int
	output []byte
}

// c15counts judges the feature counts the writer keeps: headers announcing
// many features, of which some, all or too many are written.
func c15counts(c *C) {
	r := c.R
	announce := pick(r, []uint64{3, 255, 256, 257, 1<<16 + 3, 1 << 31, 1<<31 + 3, 1<<32 + 3, 1 << 32, math.MaxInt64, math.MaxInt64 - 5, uint64(r.Uint32()) + 1})
	write := r.In(0, 6)
	if c.huge() {
		announce = pick(r, []uint64{65535, 65536, 65537, 70000, 1<<17 + 1})
		write = int(announce) + r.In(-1, 2)
	} else if announce < 300 && r.P(60) {
		write = int(announce) + r.In(-1, 2)
	}
	hm := genHdr(r, announce, 0)
	dst := newDst()
	w := flatgeobuf.NewFileWriter(dst.stream(r.P(50)))
	what := fmt.Sprintf("a header announcing %d features", announce)
	n, err := w.Header(headerOf(encode(r, hm.table())))
	if announce > math.MaxInt {
		c.Check(err != nil && n == 0 && len(dst.buf) == 0, "%s: Header: %d, %v", what, n, err)
		c.Eval(1)
		return
	}
	c.Check(err == nil, "%s: Header: %v", what, err)
	ft := encode(r, genFeat(r, 0, nil, 0).T())
	if write > 1000 {
		ft = encode(r, (&FeatM{}).T())
	}
	f := featureOf(ft)
	at := len(dst.buf)
	for i := 0; i < write; i++ {
		n, err = w.Data(f)
		if uint64(i) < announce {
			c.Check(err == nil && n == len(ft), "%s: feature %d: %d, %v", what, i, n, err)
		} else {
			c.Check(err != nil && n == 0, "%s: feature %d was not refused: %d, %v", what, i, n, err)
		}
	}
	full := uint64(write) >= announce
	if full {
		write = int(announce)
	}
	c.Check(len(dst.buf) == at+write*len(ft), "%s: %d features have %d bytes, want %d", what, write, len(dst.buf)-at, write*len(ft))
	err = w.Close()
	c.Check((err == nil) == full, "%s, %d written: Close: %v", what, write, err)
	c.Check(len(dst.buf) == at+write*len(ft), "%s: Close wrote something", what)
	c.Eval(write + 2)
	c.Count("counts", 1)
	c.Distinct("counts %d %d", announce, write)
	c.Briefly("%s, %d written", what, write)
}

func c15(c *C) {
	if c.huge() || c.Idx%25 == 11 {
		c15counts(c)
		return
	}
	r := c.R
	f := genFile(r, fileOpts{MaxFeats: 8, SmallFeats: true, ForceIndex: r.P(60)})
	dst := newDst()
	w := flatgeobuf.NewFileWriter(dst.stream(r.P(40)))
	m := &wmodel{st: "uninit"}
	var trace []string
	var idx *packedrtree.PackedRTree
	if f.Indexed {
		idx = f.tree(c, r)
	}
	var pend [][]byte // features given to IndexData, not in known order
	steps := r.In(3, 22)
	for i := 0; i < steps; i++ {
		var name string
		var g func() (int, error)
		legal := false
		var want []byte // expected output of a legal call, or nil if not exact
		wantLen := -1
		apply := func() {}
		k := r.IntN(20)
		if i == 0 && r.P(80) {
			k = 0
		}
		switch {
		case k < 3: // Header
			switch r.IntN(9) {
			case 8:
				b, how := corruptHeader(r, f.Hdr)
				h := headerOf(b)
				name, g = "Header("+how+")", func() (int, error) { return w.Header(h) }
			case 0: // node size 1
				hm := *f.HdrM
				hm.NodeSize = 1
				h := headerOf(encode(r, hm.table()))
				name, g = "Header(node size 1)", func() (int, error) { return w.Header(h) }
			case 1:
				hm := *f.HdrM
				hm.Count = 1<<63 + uint64(r.IntN(3))
				h := headerOf(encode(r, hm.table()))
				name, g = "Header(count overflow)", func() (int, error) { return w.Header(h) }
			case 2:
				b, pos, how := notRoot(r, f.Hdr)
				h := new(flat.Header)
				h.Init(b, flatUOffset(pos))
				name, g = "Header("+how+")", func() (int, error) { return w.Header(h) }
			default:
				h := headerOf(slackIf(r, f.Hdr))
				name, g = "Header", func() (int, error) { return w.Header(h) }
				legal = m.st == "uninit"
				want = append(append([]byte{}, magicBytes...), f.Hdr...)
				apply = func() { m.st, m.count, m.ns = "header", f.Count, f.NS }
			}
		case k < 7: // Index
			x := idx
			name = "Index"
			if x == nil || r.P(35) {
				n, ns := len(f.Feats)+pick(r, []int{-1, 1, 5}), f.NS
				if r.P(50) || f.NS < 2 {
					n, ns = max(1, len(f.Feats)), f.NS+pick(r, []int{1, -1, 2})
				}
				if n < 1 {
					n = len(f.Feats) + 1
				}
				if ns < 2 {
					ns = f.NS + 2
				}
				if ns > 65535 {
					ns = 65533
				}
				x, _ = packedrtree.New(toRefs(genLeaves(r, n)), uint16(ns))
				name = fmt.Sprintf("Index(%d refs, node size %d)", n, ns)
			} else {
				legal = m.st == "header" && m.ns > 0
			}
			g = func() (int, error) { return w.Index(x) }
			want = f.Index
			apply = func() { m.st = "index" }
		case k < 11: // IndexData, IndexDataPtr
			fs := features(r, f, r.P(30))
			bad := false
			name = "IndexData"
			switch r.IntN(7) {
			case 0:
				fs = nil
				name += "(none)"
				bad = true
			case 1:
				fs = fs[:len(fs)-min(len(fs), 1)]
				name += "(one less)"
				bad = true
			case 2:
				fs = append(fs, *featureOf(encode(r, genFeat(r, 0, nil, 0).T())))
				name += "(one more)"
				bad = true
			case 3:
				if len(fs) > 0 {
					j := r.IntN(len(fs))
					b, pos, how := notRoot(r, f.Feats[j])
					fs[j].Init(b, flatUOffset(pos))
					name += "(" + how + ")"
					bad = true
				}
			case 4:
				if len(fs) > 0 {
					j := r.IntN(len(fs))
					if b, how := corruptGeom(r, f.Feats[j]); b != nil {
						fs[j] = *featureOf(b)
						name += "(" + how + ")"
						bad = true
					}
				}
			}
			legal = m.st == "header" && m.ns > 0 && f.Indexed && !bad
			wantLen = len(f.Index) + int(f.DataSize)
			if r.P(50) {
				ps := make([]*flat.Feature, len(fs))
				for j := range ps {
					ps[j] = &fs[j]
				}
				name = strings.Replace(name, "IndexData", "IndexDataPtr", 1)
				g = func() (int, error) { return w.IndexDataPtr(ps) }
			} else {
				g = func() (int, error) { return w.IndexData(fs) }
			}
			apply = func() { m.st, m.next, pend = "full", f.Count, f.Feats }
		case k < 19: // Data
			name = "Data"
			b := encode(r, genFeat(r, 0, nil, i).T())
			if m.next < len(f.Feats) {
				b = f.Feats[m.next]
			}
			if r.P(20) {
				x, pos, how := notRoot(r, b)
				ft := new(flat.Feature)
				ft.Init(x, flatUOffset(pos))
				name = "Data(" + how + ")"
				g = func() (int, error) { return w.Data(ft) }
				break
			}
			ft := featureOf(slackIf(r, b))
			g = func() (int, error) { return w.Data(ft) }
			legal = m.st == "index" || m.st == "data" || m.st == "header" && m.ns == 0
			want = b
			apply = func() {
				m.st = "data"
				m.next++
				if m.count > 0 && m.next == m.count {
					m.st = "full"
				}
			}
		default:
			name = "Close"
			if r.P(70) && i < steps-1 {
				continue
			}
			short := m.next < m.count
			legal = m.st != "closed" && !short
			want = []byte{}
			g = func() (int, error) { return 0, w.Close() }
			if m.st != "closed" && short {
				apply = nil
			} else {
				apply = func() { m.st = "closed" }
			}
		}
		what := fmt.Sprintf("%s in state %q (%d of %d features, node size %d) after %v", name, m.st, m.next, m.count, m.ns, trace)
		before := len(dst.buf)
		var n int
		var err error
		mustNotPanic(c, what, func() { n, err = g() })
		trace = append(trace, name)
		from := m.st
		c.Eval(1)
		c.Check(n == len(dst.buf)-before, "%s: returned %d, wrote %d bytes", what, n, len(dst.buf)-before)
		if !legal {
			c.Check(err != nil, "%s: accepted", what)
			c.Check(n == 0, "%s: refused (%v), but %d bytes were written", what, err, n)
			if apply == nil {
				m.st = "closed"
			}
			c.State("transition", fmt.Sprintf("%s --%s--> refused", from, name[:idxParen(name)]))
			continue
		}
		c.Check(err == nil, "%s: refused: %v", what, err)
		if wantLen >= 0 {
			c.Check(n == wantLen, "%s: wrote %d bytes, want %d", what, n, wantLen)
		} else {
			c.Check(bytes.Equal(dst.buf[before:], want), "%s: wrote the wrong bytes (%d, want %d)", what, n, len(want))
		}
		apply()
		c.State("transition", fmt.Sprintf("%s --%s--> %s", from, name[:idxParen(name)], m.st))
	}
	if m.st == "full" || m.st == "closed" && m.next == m.count && m.count > 0 {
		out, err := parseFile(dst.buf)
		c.Check(err == nil, "the complete output after %v can't be parsed: %v", trace, err)
		if pend != nil {
			judgeIndexed(c, fmt.Sprintf("output after %v", trace), dst.buf, f.Hdr, pend, f.NS)
		}
		c.Check(len(out.Feats) == f.Count, "the complete output after %v has %d features, header says %d", trace, len(out.Feats), f.Count)
		c.Count("complete_files", 1)
	}
	s := ""
	for _, t := range trace {
		s += t[:2] + t[len(t)-2:]
	}
	c.Distinct("%s/%s", s, f.shape())
	c.Briefly("%s: %s", f.describe(), clipS(strings.Join(trace, " "), 300))
	c.Count("calls", len(trace))
}

func idxParen(s string) int {
	if i := strings.IndexByte(s, '('); i >= 0 {
		if j := strings.IndexAny(s[i:], "0123456789"); j < 0 {
			return len(s)
		}
		return i
	}
	return len(s)
}

func slackIf(r *Rng, b []byte) []byte {
	if r.P(40) {
		return slack(r, b)
	}
	return b
}

// ---- C16

type wcall struct {
	name  string
	items []int // sizes of the items this call writes, in order
	do    func(w *flatgeobuf.FileWriter) (int, error)
}

func c16(c *C) {
	r := c.R
	switch c.Idx % 4 {
	case 2:
		c16marshal(c)
		return
	case 3:
		c16props(c)
		return
	}
	f := genFile(r, fileOpts{MaxFeats: 7, SmallFeats: r.P(90), ForceIndex: r.P(60)})
	if f.Count == 0 && f.NS != 0 {
		f.NS, f.HdrM.NodeSize = 0, 0
		f.Hdr = encode(r, f.HdrM.table())
	}
	hdr := headerOf(f.Hdr)
	fs := features(r, f, r.P(30))
	calls := []wcall{{"Header", []int{8 + len(f.Hdr)}, func(w *flatgeobuf.FileWriter) (int, error) { return w.Header(hdr) }}}
	useData := true
	if f.Indexed {
		if r.P(50) {
			t := f.tree(c, r)
			calls = append(calls, wcall{"Index", []int{len(f.Index)}, func(w *flatgeobuf.FileWriter) (int, error) { return w.Index(t) }})
		} else {
			useData = false
			// The order of the features is that of a fault-free run.
			calls = append(calls, wcall{"IndexData", nil, func(w *flatgeobuf.FileWriter) (int, error) { return w.IndexData(fs) }})
		}
	}
	if useData {
		for i := range fs {
			calls = append(calls, wcall{fmt.Sprintf("Data%d", i), []int{len(f.Feats[i])}, func(w *flatgeobuf.FileWriter) (int, error) { return w.Data(&fs[i]) }})
		}
	}
	// The fault-free run gives the intended output.
	ref := newDst()
	w := flatgeobuf.NewFileWriter(ref.stream(false))
	for _, cl := range calls {
		_, err := cl.do(w)
		c.Check(err == nil, "%s without faults: %v", cl.name, err)
	}
	want := ref.buf
	if !useData {
		out, err := parseFile(want)
		c.Check(err == nil, "IndexData output: %v", err)
		items := []int{len(out.Index)}
		for _, x := range out.Feats {
			items = append(items, len(x))
		}
		calls[1].items = items
	}
	total := ref.calls
	evs := ref.evs
	c.Briefly("%s: %d write calls, useData=%v", f.describe(), total, useData)
	extra := featureOf(encode(r, genFeat(r, 0, nil, 0).T()))
	for k := 0; k < total; k++ {
		full := evs[k].Want
		parts := []int{0, 1, full / 2, full - 1, full}
		seen := map[int]bool{}
		for _, part := range parts {
			if part < 0 || seen[part] {
				continue
			}
			seen[part] = true
			dst := newDst()
			dst.failAt, dst.failPart, dst.failErr = k, part, pick(r, []error{errInjected, errInjected, io.ErrShortWrite, io.EOF, io.ErrClosedPipe})
			dst.sticky = r.P(30)
			w := flatgeobuf.NewFileWriter(dst.stream(r.P(50)))
			what := fmt.Sprintf("%s, write call %d of %d fails after accepting %d of %d bytes (for good: %v)", f.describe(), k, total, part, full, dst.sticky)
			failedAt := -1
			hole := false // some of the failed item was accepted
			for ci, cl := range calls {
				before, failedBefore := len(dst.buf), dst.failed
				var n int
				var err error
				w2 := fmt.Sprintf("%s in %s", cl.name, what)
				mustNotPanic(c, w2, func() { n, err = cl.do(w) })
				got := len(dst.buf) - before
				c.Check(n == got, "%s: returned %d, but the stream accepted %d bytes", w2, n, got)
				c.Check(bytes.HasPrefix(want, dst.buf), "%s: the %d bytes accepted are not a prefix of the intended output (at %d)", w2, len(dst.buf), firstDiff(dst.buf, want))
				c.Eval(1)
				if dst.failed > failedBefore {
					c.Check(errors.Is(err, dst.failErr), "%s: the stream failed, but the call returned %v", w2, err)
					failedAt = ci
					at := 0
					for _, sz := range cl.items {
						// The item the failing write belongs to.
						if start := got - min(part, got); at <= start && start < at+sz {
							hole = got > at
							break
						}
						at += sz
					}
					break
				}
				c.Check(err == nil, "%s: the stream did not fail, but the call returned %v", w2, err)
			}
			c.Check(failedAt >= 0, "harness: fault %d not reached in %s", k, what)
			c.State("fault", fmt.Sprintf("%s, item partly accepted: %v", strings.TrimRight(calls[failedAt].name, "0123456789"), hole))
			// Now everything else.
			after := len(dst.buf)
			if hole {
				more := append([]wcall{}, calls...)
				more = append(more, wcall{"Data(extra)", nil, func(w *flatgeobuf.FileWriter) (int, error) { return w.Data(extra) }},
					wcall{"IndexData", nil, func(w *flatgeobuf.FileWriter) (int, error) { return w.IndexData(fs) }})
				r.Shuffle(len(more), func(i, j int) { more[i], more[j] = more[j], more[i] })
				for _, cl := range more {
					var n int
					var err error
					w2 := fmt.Sprintf("%s after %s failed in %s", cl.name, calls[failedAt].name, what)
					mustNotPanic(c, w2, func() { n, err = cl.do(w) })
					c.Check(err != nil && n == 0, "%s: returned %d, %v although the output has a hole", w2, n, err)
					c.Check(len(dst.buf) == after, "%s: wrote %d bytes although the output has a hole", w2, len(dst.buf)-after)
					c.Eval(1)
				}
			} else {
				// Nothing of the failed item was accepted: retrying it, or
				// giving up, are both fine, as long as the output is.
				cl := calls[failedAt]
				if cl.name != "IndexData" {
					for ci := failedAt; ci < len(calls); ci++ {
						before := len(dst.buf)
						n, _ := calls[ci].do(w)
						c.Check(n == len(dst.buf)-before, "retrying %s after %s: returned %d, wrote %d", calls[ci].name, what, n, len(dst.buf)-before)
						c.Check(bytes.HasPrefix(want, dst.buf), "retrying %s after %s: output is not a prefix of the intended one", calls[ci].name, what)
						c.Eval(1)
					}
				}
			}
			after = len(dst.buf)
			_ = w.Close()
			c.Check(len(dst.buf) == after, "Close wrote %d bytes after %s", len(dst.buf)-after, what)
			c.Distinct("%s/%d/%v/%d/%d/%v", f.shape(), len(f.Feats), useData, k, part, dst.sticky)
			c.Count("faults_injected", 1)
		}
	}
	c.Count("fully_enumerated_scripts", 1)
}

func c16marshal(c *C) {
	r := c.R
	ns := genNodeSize(r)
	n := genCount(r, ns, 400)
	ls := genLeaves(r, n)
	want := refIndex(ls, ns)
	p, err := packedrtree.Unmarshal(bytes.NewReader(want), n, uint16(ns))
	c.Check(err == nil, "Unmarshal: %v", err)
	ref := newDst()
	m, err := p.Marshal(ref.stream(false))
	c.Check(err == nil && m == len(want) && bytes.Equal(ref.buf, want), "Marshal of %d refs, node size %d: %d, %v", n, ns, m, err)
	for k := 0; k < ref.calls && k < 40; k++ {
		full := ref.evs[k].Want
		for _, part := range []int{0, 1, 39, 40, 41, full / 2, full - 1, full, r.IntN(full + 1)} {
			if part > full {
				continue
			}
			dst := newDst()
			dst.failAt, dst.failPart, dst.sticky = k, part, r.P(50)
			dst.failErr = pick(r, []error{errInjected, errInjected, io.ErrShortWrite, io.EOF})
			m, err := p.Marshal(dst.stream(false))
			c.Check(errors.Is(err, dst.failErr), "Marshal of %d refs, node size %d: write call %d fails after %d of %d bytes, but it returned %v", n, ns, k, part, full, err)
			c.Check(m == len(dst.buf), "Marshal of %d refs, node size %d: returned %d, but the stream accepted %d bytes", n, ns, m, len(dst.buf))
			c.Check(bytes.HasPrefix(want, dst.buf), "Marshal of %d refs, node size %d: after a failure the output is not a prefix of the index", n, ns)
			c.Eval(1)
			c.Distinct("marshal %d/%d/%d/%d", n, ns, k, part)
			c.Count("faults_injected", 1)
			// The index is none the worse for it.
			var b bytes.Buffer
			_, err = p.Marshal(&b)
			c.Check(err == nil && bytes.Equal(b.Bytes(), want), "Marshal after a failed one differs")
		}
	}
	c.State("fault", "Marshal")
	c.Briefly("Marshal of %d refs, node size %d, %d bytes in %d write calls", n, ns, len(want), ref.calls)
}

// writeProp writes one value through the matching method.
func writeProp(pw *flatgeobuf.PropWriter, v PVal) (int, error) {
	switch v.Type {
	case ctByte:
		return pw.WriteByte(int8(v.U))
	case ctUByte:
		return pw.WriteUByte(uint8(v.U))
	case ctBool:
		return pw.WriteBool(v.U != 0)
	case ctShort:
		return pw.WriteShort(int16(v.U))
	case ctUShort:
		return pw.WriteUShort(uint16(v.U))
	case ctInt:
		return pw.WriteInt(int32(v.U))
	case ctUInt:
		return pw.WriteUInt(uint32(v.U))
	case ctLong:
		return pw.WriteLong(int64(v.U))
	case ctULong:
		return pw.WriteULong(v.U)
	case ctFloat:
		return pw.WriteFloat(f32(v.U))
	case ctDouble:
		return pw.WriteDouble(f64(v.U))
	case ctString, ctDateTime:
		return pw.WriteString(string(v.B))
	default:
		return pw.WriteBinary(v.B)
	}
}

func c16props(c *C) {
	r := c.R
	for i := 0; i < 30; i++ {
		v := genPVal(r, uint8(r.IntN(numColTypes)))
		want := v.enc()
		ref := newDst()
		n, err := writeProp(flatgeobuf.NewPropWriter(ref.stream(false)), v)
		c.Check(err == nil && n == len(want) && bytes.Equal(ref.buf, want), "writing a value of type %d: %d, %v", v.Type, n, err)
		for k := 0; k < ref.calls; k++ {
			full := ref.evs[k].Want
			for part := 0; part <= full; part++ {
				if full > 20 && part > 3 && part < full-3 && part != full/2 {
					continue
				}
				dst := newDst()
				dst.failAt, dst.failPart, dst.failErr, dst.sticky = k, part, pick(r, []error{errInjected, io.ErrShortWrite}), r.P(50)
				n, err := writeProp(flatgeobuf.NewPropWriter(dst.stream(false)), v)
				c.Check(errors.Is(err, dst.failErr), "writing a value of type %d (%d bytes): write call %d fails after %d of %d bytes, but it returned %v", v.Type, len(want), k, part, full, err)
				c.Check(n == len(dst.buf), "writing a value of type %d: returned %d, but the stream accepted %d bytes", v.Type, n, len(dst.buf))
				c.Check(bytes.HasPrefix(want, dst.buf), "writing a value of type %d: after a failure the output is not a prefix of the value", v.Type)
				c.Eval(1)
				c.Distinct("prop %d/%d/%d/%d", v.Type, len(want), k, part)
				c.Count("faults_injected", 1)
			}
		}
		c.State("fault", fmt.Sprintf("property type %d", v.Type))
	}
	c.Briefly("30 property values, every write call failing after every number of bytes")
}
