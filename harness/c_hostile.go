package main

// C14: corrupt and malicious input.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"time"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Prop{ID: "C14", Quick: 48000, Thorough: 400000,
		Rule: "valid files with bytes, lengths, counts, offsets, node sizes, index nodes and table internals corrupted or contradicting one another, self-referential and deeply nested geometries, hostile property lists and random bytes, driven through random call sequences, index searches and string summaries on every stream kind; watched for panics, crashes, unbounded I/O (call budget) and allocation beyond a constant plus a multiple of the input; distinct by (kind of corruption, transcript of outcomes)",
		Run:  c14})
}

var interesting = []uint64{0, 1, 2, 3, 4, 7, 8, 12, 16, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 1 << 20, 1<<25 - 1, 1 << 25, 1<<25 + 1, 1<<31 - 5, 1<<31 - 1, 1 << 31, 1<<32 - 5, 1<<32 - 4, 1<<32 - 1, 1 << 32, 1<<40 + 3, 1 << 58, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}

// mutate corrupts b in a few places, preferably at the given positions.
func mutate(r *Rng, b []byte, at []int) ([]byte, string) {
	b = append([]byte(nil), b...)
	var how []string
	for k := r.In(1, 1+r.In(0, 6)); k > 0; k-- {
		if len(b) == 0 {
			return b, strings.Join(how, ",")
		}
		p := r.IntN(len(b))
		if len(at) > 0 && r.P(60) {
			p = pick(r, at)
			if r.P(15) {
				p += r.In(0, 24)
			}
		}
		if p >= len(b) {
			continue
		}
		switch r.IntN(12) {
		case 0:
			b[p] ^= 1 << r.IntN(8)
			how = append(how, "bit")
		case 1, 2:
			b[p] = byte(r.Uint32())
			how = append(how, "byte")
		case 3, 4, 5: // a word
			v := pick(r, interesting)
			switch r.IntN(6) {
			case 0:
				v = uint64(len(b))
			case 1:
				v = uint64(len(b) - p)
			case 2:
				v = uint64(r.IntN(len(b) + 1))
			}
			n := pick(r, []int{1, 2, 4, 4, 4, 8})
			var w [8]byte
			binary.LittleEndian.PutUint64(w[:], v)
			copy(b[p:], w[:n])
			how = append(how, fmt.Sprintf("word%d", n))
		case 6: // add a little
			if p+4 <= len(b) {
				v := binary.LittleEndian.Uint32(b[p:])
				binary.LittleEndian.PutUint32(b[p:], v+uint32(int32(r.In(-9, 9))))
				how = append(how, "delta")
			}
		case 7:
			b = b[:p]
			how = append(how, "truncate")
		case 8:
			n := min(r.In(1, 60), len(b)-p)
			b = append(b[:p], b[p+n:]...)
			how = append(how, "delete")
		case 9:
			n := min(r.In(1, 200), len(b)-p)
			x := append([]byte(nil), b[p:p+n]...)
			b = append(b[:p], append(x, b[p:]...)...)
			how = append(how, "duplicate")
		case 10:
			n := min(r.In(1, 100), len(b)-p)
			q := r.IntN(len(b) - n + 1)
			copy(b[p:p+n], append([]byte(nil), b[q:q+n]...))
			how = append(how, "splice")
		case 11:
			x := r.Bytes(r.In(1, 40))
			b = append(b[:p], append(x, b[p:]...)...)
			how = append(how, "insert")
		}
	}
	return b, strings.Join(how, ",")
}

// allocation bounds
const (
	allocConst       = 16 << 20 // dominated by an index node group of 65535 nodes
	allocConstHeader = 48 << 20 // dominated by the header limit
	allocFactor      = 200
)

// bounded runs f with panics and allocation watched. in is the size of the
// input f can see.
func bounded(c *C, what string, in int, f func() int) {
	var before uint64
	measure := !raceEnabled && !asanEnabled
	if measure {
		before = allocated()
	}
	out := 0
	cpu := processCPU()
	mustNotPanic(c, what, func() { out = f() })
	cpu = processCPU() - cpu
	c.Eval(1)
	// What takes a millisecond may take long on a loaded machine, but not that
	// long.
	cpuLimit := 5*time.Second + time.Duration(in)*2*time.Microsecond
	if !measure {
		cpuLimit *= 10
	}
	c.Check(cpu < cpuLimit, "%s: took %v of CPU time for %d bytes of input", what, cpu, in)
	if measure {
		n := allocated() - before
		limit := uint64(allocConst) + allocFactor*uint64(in) + 8*uint64(out)
		if strings.HasPrefix(what, "Header") {
			limit += allocConstHeader - allocConst
		}
		if n > limit {
			c.Failf("%s: allocated %d bytes for %d bytes of input", what, n, in)
		}
		c.State("allocated", fmt.Sprintf("<2^%d", bitLen(n)))
	}
}

func bitLen(n uint64) int {
	k := 0
	for ; n > 0; n >>= 1 {
		k++
	}
	return k
}

func outcome(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "eof"
	case errors.Is(err, flatgeobuf.ErrNoIndex):
		return "noindex"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "cut"
	}
	s := err.Error()
	for _, k := range []string{"magic", "header length", "corrupt header", "overflow", "not big enough", "exceeds", "node size", "corrupt index", "overlaps", "Header() not", "past index", "seek", "read"} {
		if strings.Contains(s, k) {
			return "error:" + k
		}
	}
	return "error"
}

func c14(c *C) {
	switch k := c.Idx % 16; {
	case k < 7:
		c14file(c)
	case k == 7:
		c14claims(c)
	case k == 8 || k == 9:
		c14tree(c)
	case k == 10 || k == 11:
		c14geom(c)
	case k == 12:
		c14props(c)
	case k == 13 || k == 14:
		c14tables(c)
	default:
		c14random(c)
	}
}

// drive opens the bytes as a file and makes random calls.
func drive(c *C, kind string, b []byte, queries []Bx) {
	r := c.R
	seek := r.P(60)
	src := newSrc(b)
	src.r = r
	src.record = false
	src.maxOps = 0
	src.frag = pick(r, []int{fragFull, fragFull, fragFull, fragRandom, fragDataEOF, fragHalf})
	fr := flatgeobuf.NewFileReader(src.stream(seek, r.P(50)))
	var hdr *flat.Header
	var trace []string
	var kept []flat.Feature
	query := func() Bx {
		if len(queries) > 0 && r.P(60) {
			return pick(r, queries)
		}
		return pick(r, []Bx{{math.Inf(-1), math.Inf(-1), math.Inf(1), math.Inf(1)}, {-180, -90, 180, 90}, {0, 0, 1, 1}, {-math.MaxFloat64, -math.MaxFloat64, math.MaxFloat64, math.MaxFloat64}})
	}
	steps := r.In(2, 9)
	for i := 0; i < steps; i++ {
		o := rop{kind: pick(r, []int{opIndex, opSearch, opSearch, opData, opData, opDataRem, opDataRem, opRewind, opRewind}), k: pick(r, []int{0, 1, 2, 10, 2000}), q: query()}
		if i == 0 && r.P(97) {
			o.kind = opHeader
		}
		if r.P(2) {
			o.kind = pick(r, []int{opHeader, opClose})
		}
		ops0 := src.ops
		limit := 400 + 8*len(b)
		if src.frag == fragFull || src.frag == fragDataEOF || src.frag == fragHalf {
			limit = 400 + len(b)
		}
		src.maxOps = ops0 + limit
		what := fmt.Sprintf("%v on a %s file of %d bytes (seekable=%v) after %v", o, kind, len(b), seek, trace)
		bounded(c, what, len(b), func() int {
			var err error
			n := 0
			switch o.kind {
			case opHeader:
				var h *flat.Header
				if h, err = fr.Header(); h != nil {
					hdr = h
				}
			case opIndex:
				var t *packedrtree.PackedRTree
				if t, err = fr.Index(); t != nil {
					n = len(t.Search(toBox(o.q)))
					_ = t.String()
					w := &countWriter{}
					if _, e := t.Marshal(w); e != nil {
						c.Failf("%s: Marshal: %v", what, e)
					}
				}
			case opSearch:
				var fs []flat.Feature
				fs, err = fr.IndexSearch(toBox(o.q))
				kept = append(kept, fs...)
				n = len(fs)
			case opData:
				p := make([]flat.Feature, o.k)
				n, err = fr.Data(p)
				if n < 0 || n > len(p) {
					c.Failf("%s: returned n=%d", what, n)
				}
				kept = append(kept, p[:n]...)
			case opDataRem:
				var fs []flat.Feature
				fs, err = fr.DataRem()
				kept = append(kept, fs...)
				n = len(fs)
			case opRewind:
				err = fr.Rewind()
			case opClose:
				err = fr.Close()
			}
			trace = append(trace, fmt.Sprintf("%s:%s/%d", opName(o.kind), outcome(err), n))
			c.State("outcome", fmt.Sprintf("%s %s %s", kind, opName(o.kind), outcome(err)))
			return 0
		})
		if len(kept) > 200 {
			kept = kept[:200]
		}
	}
	if hdr != nil {
		judgeHeaderString(c, kind, hdr, len(b))
	}
	for i := range kept {
		var s flatgeobuf.Schema
		if hdr != nil && r.P(80) {
			s = hdr
		}
		if i > 20 && !r.P(10) {
			continue
		}
		judgeFeatureString(c, kind, &kept[i], s, len(b))
	}
	c.Count("features_summarized", len(kept))
	c.Briefly("%s: %d bytes: %v", kind, len(b), trace)
	c.Distinct("%s %v", kind, trace)
}

func clampInt(v int64) int {
	if v > math.MaxInt {
		return math.MaxInt
	}
	return int(v)
}

func opName(k int) string {
	return []string{"Header", "Index", "IndexSearch", "Data", "DataRem", "Rewind", "Close"}[k]
}

type countWriter struct{ n int }

func (w *countWriter) Write(p []byte) (int, error) { w.n += len(p); return len(p), nil }

func judgeHeaderString(c *C, kind string, h *flat.Header, in int) {
	bounded(c, kind+": HeaderString", in, func() int {
		s := flatgeobuf.HeaderString(h)
		c.Check(s != "", "%s: HeaderString returned nothing", kind)
		c.State("summary", kind+" header error="+fmt.Sprint(strings.HasPrefix(s, "error")))
		return len(s)
	})
}

func judgeFeatureString(c *C, kind string, f *flat.Feature, s flatgeobuf.Schema, in int) {
	bounded(c, kind+": FeatureString", in, func() int {
		s := flatgeobuf.FeatureString(f, s)
		c.Check(s != "", "%s: FeatureString returned nothing", kind)
		c.State("summary", kind+" feature error="+fmt.Sprint(strings.HasPrefix(s, "error")))
		return len(s)
	})
}

// c14file corrupts a valid file.
func c14file(c *C) {
	r := c.R
	f := genFile(r, fileOpts{MaxFeats: 30, SmallFeats: r.P(80)})
	b := f.bytes()
	// Structural positions: lengths, table internals, index nodes.
	var at []int
	at = append(at, 0, 3, 8, 12)
	for i := 0; i < 10; i++ {
		at = append(at, 8+r.IntN(len(f.Hdr))&^1)
	}
	ix := 8 + len(f.Hdr)
	for i := 0; i+40 <= len(f.Index); i += 40 {
		if i < 400 || r.P(3) {
			at = append(at, ix+i+32, ix+i+8*r.IntN(4))
		}
	}
	p := f.dataStart()
	for i, x := range f.Feats {
		if i < 6 {
			at = append(at, p, p+4)
			for j := 0; j < 4; j++ {
				at = append(at, p+r.IntN(len(x))&^1)
			}
		}
		p += len(x)
	}
	how := ""
	if r.P(95) {
		b, how = mutate(r, b, at)
	}
	var qs []Bx
	for i := 0; i < 3; i++ {
		qs = append(qs, f.query(r))
	}
	for _, h := range strings.Split(how, ",") {
		c.State("mutation", h)
	}
	drive(c, "corrupted", b, qs)
}

// c14claims makes files whose header contradicts the rest.
func c14claims(c *C) {
	r := c.R
	f := genFile(r, fileOpts{MaxFeats: 20, SmallFeats: true})
	count := pick(r, interesting)
	if r.P(40) {
		count = uint64(len(f.Feats) + r.In(-2, 2))
	}
	if r.P(10) {
		// just below the limits of index sizes
		count = uint64(math.MaxInt64/40) - uint64(r.IntN(1<<20))
	}
	ns := uint16(pick(r, []int{0, 1, 2, 3, 16, 255, 65535, f.NS}))
	h := genHdr(r, count, ns)
	f.HdrM = h
	f.Hdr = encode(r, h.table())
	if r.P(50) {
		f.Index = r.Bytes(pick(r, []int{0, 39, 40, 41, 80, 4000}))
	}
	b := f.bytes()
	if r.P(20) { // a feature length that promises too much
		var l [4]byte
		binary.LittleEndian.PutUint32(l[:], uint32(pick(r, interesting)))
		p := f.dataStart()
		b = append(b[:p:p], append(l[:], b[p:]...)...)
	}
	drive(c, "contradictory", b, nil)
}

// c14tree searches corrupt indexes.
func c14tree(c *C) {
	r := c.R
	n, ns := 0, genNodeSize(r)
	var b []byte
	kind := ""
	q := Bx{math.Inf(-1), math.Inf(-1), math.Inf(1), math.Inf(1)}
	switch {
	case c.Idx/16%6 == 0:
		// The promised index is huge, only its first levels are there, and all
		// nodes of a level have the same child, or children far away.
		kind = "amplifying index"
		ns = pick(r, []int{2, 16, 100, 1000, 3000, 6000, 12000})
		levels := 3
		if ns < 100 {
			levels = r.In(3, 12)
		}
		n = 1
		for i := 0; i < levels && int64(n) < min(1<<45, math.MaxInt/50)/int64(ns); i++ {
			n *= ns
		}
		sizes := levelSizes(n, ns) // leaf level first
		top := len(sizes) - 1
		var nodes []rnode
		start := 0
		for l := top; l > 0 && len(nodes) < 30000; l-- {
			cs := start + sizes[l] // first node of the children
			have := min(sizes[l], 30000-len(nodes))
			how := r.IntN(4)
			for i := 0; i < have; i++ {
				ch := cs + i*ns // right
				switch how {
				case 1:
					ch = cs // always the first
				case 2:
					ch = cs + r.IntN(min(sizes[l-1], 2*ns))
				case 3:
					if i > 0 {
						ch = cs + r.IntN(sizes[l-1])
					}
				}
				nodes = append(nodes, rnode{B: q, Off: int64(ch)})
			}
			start = cs
		}
		b = encNodes(nodes)
	case c.Idx/16%6 == 1:
		kind = "random index bytes"
		n = pick(r, []int{1, 2, 3, 17, 100, 1000, 100000, 1 << 30, clampInt(1 << 40)})
		b = r.Bytes(r.In(0, 3000))
	default:
		kind = "corrupted index"
		ls := genLeaves(r, r.In(1, 200))
		n = len(ls)
		b = refIndex(ls, ns)
		var at []int
		for i := 0; i+40 <= len(b); i += 40 {
			if i < 2000 {
				at = append(at, i+32, i+8*r.IntN(4))
			}
		}
		b, _ = mutate(r, b, at)
		if r.P(20) {
			n = max(1, n+r.In(-3, 3))
		}
		if r.P(50) {
			q = genQueries(r, ls, 1)[0]
		}
	}
	what := fmt.Sprintf("%s: %d bytes for %d refs, node size %d", kind, len(b), n, ns)
	mk := func() *Src {
		src := newSrc(b)
		src.r = r
		src.record = false
		src.maxOps = 400 + len(b)
		return src
	}
	res := ""
	bounded(c, "Seek: "+what, len(b), func() int {
		src := mk()
		rs, err := packedrtree.Seek(src.stream(true, false).(io.ReadSeeker), n, uint16(ns), toBox(q))
		res = fmt.Sprintf("seek %s %d", outcome(err), len(rs))
		c.State("outcome", kind+" Seek "+outcome(err))
		c.Check(len(rs) <= len(b)/40, "Seek: %s: %d results", what, len(rs))
		return 0
	})
	bounded(c, "Unmarshal: "+what, len(b), func() int {
		src := mk()
		t, err := packedrtree.Unmarshal(src.stream(false, false), n, uint16(ns))
		c.State("outcome", kind+" Unmarshal "+outcome(err))
		res += fmt.Sprintf(", unmarshal %s", outcome(err))
		if err == nil {
			rs := t.Search(toBox(q))
			c.Check(len(rs) <= n, "Search: %s: %d results", what, len(rs))
			for i := range rs {
				c.Check(rs[i].RefIndex >= 0 && rs[i].RefIndex < n, "Search: %s: result %d has reference index %d", what, i, rs[i].RefIndex)
			}
			_ = t.String()
			res += fmt.Sprintf(" %d", len(rs))
		}
		return 0
	})
	c.Briefly("%s: %s", what, res)
	c.Distinct("%s %d %d %s", kind, n, ns, res)
}

// rawGeom assembles geometry tables by hand, so that vectors may contain
// anything.
func c14geom(c *C) {
	r := c.R
	kind := ""
	var b []byte
	switch c.Idx / 16 % 5 {
	case 0: // parts which contain themselves, or one another
		kind = "self-referential parts"
		n := r.In(1, 6)
		fan := r.In(1, 4)
		b = cyclicFeature(r, n, fan)
	case 1: // a DAG: every geometry has several references to the next one
		kind = "shared parts"
		depth := pick(r, []int{2, 5, 20, 40, 100, 999})
		b = dagFeature(r, depth, r.In(2, 3), r.P(40))
	case 2: // deep nesting
		kind = "deep nesting"
		depth := pick(r, []int{10, 500, 998, 999, 1000, 1001, 1002, 3000, 20000})
		b = dagFeature(r, depth, 1, r.P(20))
	case 3: // valid geometry with corrupt vectors
		kind = "corrupted geometry"
		fm := genFeat(r, 0, nil, 0)
		fm.Geom = genGeom(r, 0, 3)
		b, _ = mutate(r, encode(r, fm.T()), nil)
	default: // wide sharing: a long parts vector of one and the same geometry
		kind = "repeated part"
		b = wideFeature(r, pick(r, []int{10, 1000, 20000}), pick(r, []int{10, 1000, 5000}))
		if c.Idx/16%100 == 4 {
			b = wideFeature(r, 150000, 150000)
			c.Count("wide_features", 1)
		}
	}
	if len(b) < 8 {
		b = append(b, make([]byte, 8)...)
	}
	if binary.LittleEndian.Uint32(b) != uint32(len(b)-4) {
		binary.LittleEndian.PutUint32(b, uint32(len(b)-4))
	}
	h := encode(r, (&HdrM{Count: 1, NodeSize: uint16(pick(r, []int{0, 16}))}).table())
	f := featureOf(b)
	if binary.LittleEndian.Uint32(b[4:]) < 1<<31 {
		judgeFeatureString(c, kind, f, nil, len(b))
	}
	// The same feature through a file.
	var file bytes.Buffer
	file.Write(magicBytes)
	file.Write(encode(r, (&HdrM{Count: uint64(r.IntN(2)), NodeSize: 0}).table()))
	file.Write(b)
	drive(c, kind, file.Bytes(), nil)
	// Copying and indexing it.
	bounded(c, kind+": IndexData", len(b), func() int {
		w := &countWriter{}
		fw := flatgeobuf.NewFileWriter(w)
		if _, err := fw.Header(headerOf(encode(r, (&HdrM{Count: 1, NodeSize: 16}).table()))); err != nil {
			c.Failf("Header: %v", err)
		}
		at := w.n
		n, err := fw.IndexData([]flat.Feature{*f})
		if err != nil {
			c.Check(n == 0 && w.n == at, "%s: IndexData failed (%v) after writing %d bytes, returned %d", kind, err, w.n-at, n)
		} else {
			c.Check(n == w.n-at && n == 80+len(b), "%s: IndexData wrote %d bytes and returned %d, want %d", kind, w.n-at, n, 80+len(b))
		}
		c.State("outcome", kind+" IndexData "+outcome(err))
		return 0
	})
	_ = h
	c.Distinct("%s %s", kind, hashOf(b))
}

// asm assembles tables with back-references allowed.
type asm struct{ b []byte }

func (a *asm) u32(v uint32) int {
	a.b = binary.LittleEndian.AppendUint32(a.b, v)
	return len(a.b) - 4
}
func (a *asm) u16(v uint16) { a.b = binary.LittleEndian.AppendUint16(a.b, v) }

// geom adds a geometry with room for a parts offset and, if xy, a coordinate
// vector; it returns the positions of the table and of the two offsets.
func (a *asm) geom() (table, xy, parts int) {
	vt := len(a.b)
	a.u16(20) // vtable: 8 slots
	a.u16(12)
	for i := 0; i < 8; i++ {
		switch i {
		case 1:
			a.u16(4)
		case 7:
			a.u16(8)
		default:
			a.u16(0)
		}
	}
	table = len(a.b)
	a.u32(uint32(table - vt))
	xy = a.u32(0)
	parts = a.u32(0)
	return
}

func (a *asm) put(at int, v uint32) { binary.LittleEndian.PutUint32(a.b[at:], v) }

// root starts a feature; it returns the position of the geometry offset.
func (a *asm) root() int {
	a.u32(0)
	ro := a.u32(0)
	vt := len(a.b)
	a.u16(6)
	a.u16(8)
	a.u16(4)
	a.u16(0) // padding
	t := len(a.b)
	a.u32(uint32(t - vt))
	g := a.u32(0)
	a.put(ro, uint32(t-ro))
	return g
}

func (a *asm) done() []byte {
	a.put(0, uint32(len(a.b)-4))
	return a.b
}

func (a *asm) coords(at int, n int, claim uint32) {
	p := a.u32(claim)
	a.put(at, uint32(p-at))
	for i := 0; i < n; i++ {
		a.b = binary.LittleEndian.AppendUint64(a.b, math.Float64bits(float64(i)))
	}
}

// Offsets in FlatBuffers are unsigned, but additions wrap around, so that a
// reader which does not care follows them backward.
func cyclicFeature(r *Rng, n, fan int) []byte {
	a := &asm{}
	g := a.root()
	var tabs, vecs []int
	for i := 0; i < n; i++ {
		t, xy, parts := a.geom()
		if i == 0 {
			a.put(g, uint32(t-g))
		}
		if r.P(50) {
			m := r.In(0, 6)
			a.coords(xy, m, uint32(m))
		} else {
			a.coords(xy, 0, 0)
		}
		v := a.u32(uint32(fan))
		a.put(parts, uint32(v-parts))
		for j := 0; j < fan; j++ {
			vecs = append(vecs, a.u32(0))
		}
		tabs = append(tabs, t)
	}
	for _, v := range vecs {
		a.put(v, uint32(pick(r, tabs)-v))
	}
	return a.done()
}

// dagFeature nests geometries depth deep, with fan references to each; a bare
// one has no coordinates anywhere.
func dagFeature(r *Rng, depth, fan int, bare bool) []byte {
	a := &asm{}
	at := []int{a.root()}
	for i := 0; i < depth; i++ {
		t, xy, parts := a.geom()
		for _, p := range at {
			a.put(p, uint32(t-p))
		}
		m := 0
		if !bare && (r.P(10) || i == depth-1) {
			m = 2
		}
		a.coords(xy, m, uint32(m))
		v := a.u32(uint32(fan))
		a.put(parts, uint32(v-parts))
		at = nil
		if i == depth-1 {
			a.put(v, 0)
			break
		}
		for j := 0; j < fan; j++ {
			at = append(at, a.u32(0))
		}
	}
	return a.done()
}

// wideFeature has one geometry of many coordinates, referenced many times.
func wideFeature(r *Rng, refs, coords int) []byte {
	a := &asm{}
	g := a.root()
	t, xy, parts := a.geom()
	a.put(g, uint32(t-g))
	a.coords(xy, 0, 0)
	v := a.u32(uint32(refs))
	a.put(parts, uint32(v-parts))
	p0 := len(a.b)
	a.b = append(a.b, make([]byte, 4*refs)...)
	t, xy, parts = a.geom()
	for i := 0; i < refs; i++ {
		a.put(p0+4*i, uint32(t-(p0+4*i)))
	}
	a.coords(xy, coords, uint32(coords))
	a.put(parts, uint32(len(a.b)-parts))
	a.u32(0)
	return a.done()
}

// c14props decodes hostile property lists.
func c14props(c *C) {
	r := c.R
	cols := genCols(r, r.In(0, 12))
	ps := genPairs(r, cols, r.In(0, 10))
	b := encPairs(ps)
	if r.P(20) {
		for _, x := range cols {
			if r.P(30) {
				x.Type = byte(r.In(15, 255))
			}
		}
	}
	kind := "property list"
	if r.P(20) || len(b) == 0 {
		b = r.Bytes(r.In(0, 100))
		kind = "random property bytes"
	} else if r.P(20) { // huge lengths
		kind = "huge property length"
		i := r.IntN(len(cols))
		cols[i].Type = pick(r, []uint8{ctString, ctBinary, ctJson, ctDateTime})
		b = binary.LittleEndian.AppendUint16(nil, uint16(i))
		b = binary.LittleEndian.AppendUint32(b, uint32(pick(r, interesting)))
		b = append(b, r.Bytes(r.In(0, 50))...)
	} else {
		b, _ = mutate(r, b, nil)
	}
	hdr := headerOf(encode(r, (&HdrM{Cols: some(cols), NodeSize: 16}).table()))
	src := newSrc(b)
	src.record = false
	src.maxOps = 400 + len(b)
	res := ""
	bounded(c, "ReadSchema on "+kind, len(b), func() int {
		vals, err := flatgeobuf.NewPropReader(src.stream(false, false)).ReadSchema(hdr)
		c.Check(err == nil || len(vals) == 0, "ReadSchema on %s: %d values and error %v", kind, len(vals), err)
		res = outcome(err)
		c.State("outcome", kind+" ReadSchema "+res)
		return 0
	})
	for t := 0; t < numColTypes; t++ {
		src := newSrc(b)
		src.record = false
		src.maxOps = 400 + len(b)
		bounded(c, fmt.Sprintf("reading a value of type %d from %s", t, kind), len(b), func() int {
			_, err := readProp(flatgeobuf.NewPropReader(src.stream(false, false)), uint8(t))
			res += "," + outcome(err)
			return 0
		})
	}
	f := encode(r, (&FeatM{Props: some(b)}).T())
	judgeFeatureString(c, kind, featureOf(f), hdr, len(b)+len(f))
	c.Briefly("%s: %d bytes, %d columns: %s", kind, len(b), len(cols), res)
	c.Distinct("%s %s", kind, hashOf(b))
}

// c14tables summarizes tables whose insides are corrupt.
func c14tables(c *C) {
	r := c.R
	var h, f []byte
	cols := genCols(r, r.In(0, 6))
	hm := genHdr(r, uint64(r.IntN(3)), uint16(pick(r, []int{0, 2, 16})))
	hm.Cols = some(cols)
	h = encode(r, hm.table())
	f = encode(r, genFeat(r, 0, cols, 0).T())
	// Every second position of the tables in turn gets a hostile word.
	kind := "corrupted tables"
	hit := func(b []byte) []byte {
		b = append([]byte(nil), b...)
		for k := r.In(1, 3); k > 0; k-- {
			p := 4 + r.IntN(len(b)-4)&^1
			var w [8]byte
			v := pick(r, interesting)
			if r.P(40) {
				v = uint64(r.IntN(len(b) + 8))
			} else if r.P(20) {
				v = uint64(-int64(r.IntN(len(b))))
			}
			binary.LittleEndian.PutUint64(w[:], v)
			copy(b[p:], w[:pick(r, []int{2, 2, 4, 4, 8})])
		}
		return b
	}
	for i := 0; i < 30; i++ {
		hh, ff := hit(h), f
		if r.P(70) {
			ff = hit(f)
		}
		if r.P(10) {
			hh = h
		}
		var hdr *flat.Header
		if p := binary.LittleEndian.Uint32(hh[4:]); p < 1<<31 {
			hdr = headerOf(hh)
			judgeHeaderString(c, kind, hdr, len(hh))
		}
		if p := binary.LittleEndian.Uint32(ff[4:]); p < 1<<31 {
			var s flatgeobuf.Schema
			if hdr != nil {
				s = hdr
			}
			judgeFeatureString(c, kind, featureOf(ff), s, len(hh)+len(ff))
		}
		var file bytes.Buffer
		file.Write(magicBytes)
		file.Write(hh)
		file.Write(ff)
		file.Write(ff)
		if i < 3 {
			drive(c, kind, file.Bytes(), nil)
		}
	}
	c.Distinct("%s %s %s", kind, hashOf(h), hashOf(f))
}

// c14random reads random bytes, with a bit of structure.
func c14random(c *C) {
	r := c.R
	b := r.Bytes(r.In(0, 400))
	kind := "random"
	if r.P(95) {
		b = append(append([]byte{}, magicBytes...), b...)
		kind = "random after magic"
		if r.P(80) && len(b) > 16 {
			n := r.IntN(len(b) - 8)
			binary.LittleEndian.PutUint32(b[8:], uint32(n))
			binary.LittleEndian.PutUint32(b[12:], uint32(r.IntN(n+8)))
			kind = "random header"
		}
		if r.P(20) { // a header which is huge, or promises to be
			n := pick(r, []uint32{1<<25 - 8, 1 << 25, 1<<25 + 1, 1<<31 - 1, 1<<32 - 1})
			b = binary.LittleEndian.AppendUint32(append([]byte{}, magicBytes...), n)
			b = append(b, r.Bytes(r.In(0, 100))...)
			kind = "huge header length"
		}
	}
	drive(c, kind, b, nil)
}
