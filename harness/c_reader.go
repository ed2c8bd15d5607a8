package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// Reader operations.
const (
	opHeader = iota
	opIndex
	opSearch
	opData
	opDataRem
	opRewind
	opClose
)

type rop struct {
	kind int
	k    int // slice size for Data
	q    Bx
}

func (o rop) String() string {
	switch o.kind {
	case opHeader:
		return "Header"
	case opIndex:
		return "Index"
	case opSearch:
		return fmt.Sprintf("IndexSearch%v", o.q)
	case opData:
		return fmt.Sprintf("Data(%d)", o.k)
	case opDataRem:
		return "DataRem"
	case opRewind:
		return "Rewind"
	}
	return "Close"
}

// rmodel is the executable specification of the reader protocol.
type rmodel struct {
	f    *FileM
	seek bool
	st   string // uninit, header, index, data, eof
	next int
}

func newRModel(f *FileM, seek bool) *rmodel { return &rmodel{f: f, seek: seek, st: "uninit"} }

// step performs an operation and judges its result.
func (m *rmodel) step(c *C, r *flatgeobuf.FileReader, o rop, trace []string) {
	what := fmt.Sprintf("%v in state %q (seekable=%v) after %v", o, m.st, m.seek, trace)
	f := m.f
	before := m.st
	mustNotPanic(c, what, func() {
		switch o.kind {
		case opHeader:
			h, err := r.Header()
			if m.st != "uninit" {
				c.Check(err != nil && h == nil, "%s: want refusal, got header %v, err %v", what, h != nil, err)
				return
			}
			c.Check(err == nil, "%s: %v", what, err)
			f.judgeHeader(c, what, h)
			m.st = "header"
		case opIndex:
			prt, err := r.Index()
			if m.st != "header" {
				c.Check(err != nil && prt == nil, "%s: want refusal, got index %v, err %v", what, prt != nil, err)
				return
			}
			c.Check(err == nil, "%s: %v", what, err)
			if !f.Indexed {
				c.Check(prt == nil, "%s: got an index of a file without one", what)
			} else {
				c.Check(prt != nil, "%s: no index returned", what)
				c.Check(prt.NumRefs() == f.Count && int(prt.NodeSize()) == f.NS, "%s: index of %d refs, node size %d; want %d and %d", what, prt.NumRefs(), prt.NodeSize(), f.Count, f.NS)
				judgeResults(c, what, prt.Search(toBox(o.q)), f.Leaves, o.q, false)
			}
			m.st = "index"
		case opSearch:
			fs, err := r.IndexSearch(toBox(o.q))
			if m.st != "header" {
				c.Check(err != nil && len(fs) == 0, "%s: want refusal, got %d features, err %v", what, len(fs), err)
				c.Check(!errors.Is(err, flatgeobuf.ErrNoIndex) && err != io.EOF, "%s: wrong error %v", what, err)
				return
			}
			if !f.Indexed {
				c.Check(errors.Is(err, flatgeobuf.ErrNoIndex) && len(fs) == 0, "%s: want the no-index error, got %d features, err %v", what, len(fs), err)
				m.st = "index"
				return
			}
			c.Check(err == nil, "%s: %v", what, err)
			f.judgeSearch(c, what, fs, o.q)
			m.st = "eof"
		case opData:
			p := make([]flat.Feature, o.k)
			n, err := r.Data(p)
			switch m.st {
			case "uninit":
				c.Check(n == 0 && err != nil && err != io.EOF, "%s: want refusal, got n=%d err=%v", what, n, err)
				return
			case "eof":
				c.Check(n == 0 && err == io.EOF, "%s: want end of data, got n=%d err=%v", what, n, err)
				return
			}
			rem := len(f.Feats) - m.next
			want := min(o.k, rem)
			c.Check(err == nil || err == io.EOF, "%s: %v", what, err)
			c.Check(n == want, "%s: delivered %d features (err=%v), want %d of the remaining %d", what, n, err, want, rem)
			for i := 0; i < n; i++ {
				f.judgeFeature(c, what, &p[i], m.next+i)
			}
			m.next += n
			if f.Count > 0 {
				c.Check((err == io.EOF) == (want == rem), "%s: delivered %d of the remaining %d features with err=%v", what, n, rem, err)
			} else if o.k > rem {
				c.Check(err == io.EOF, "%s: short read (%d of %d) without end of data", what, n, o.k)
			} else if o.k < rem || o.k == 0 {
				c.Check(err == nil, "%s: end of data signalled with %d features remaining", what, rem-n)
			}
			if err == io.EOF {
				m.st = "eof"
			} else {
				m.st = "data"
			}
		case opDataRem:
			fs, err := r.DataRem()
			switch m.st {
			case "uninit":
				c.Check(len(fs) == 0 && err != nil && err != io.EOF, "%s: want refusal, got %d features, err %v", what, len(fs), err)
				return
			case "eof":
				c.Check(len(fs) == 0 && err == nil, "%s: want nothing, got %d features, err %v", what, len(fs), err)
				return
			}
			c.Check(err == nil, "%s: %v", what, err)
			c.Check(len(fs) == len(f.Feats)-m.next, "%s: delivered %d features, want the remaining %d", what, len(fs), len(f.Feats)-m.next)
			for i := range fs {
				f.judgeFeature(c, what, &fs[i], m.next+i)
			}
			m.next = len(f.Feats)
			m.st = "eof"
		case opRewind:
			err := r.Rewind()
			switch {
			case m.st == "uninit":
				c.Check(err != nil, "%s: want refusal", what)
			case m.st == "header":
				c.Check(err == nil || !m.seek, "%s: %v", what, err)
			case m.seek:
				c.Check(err == nil, "%s: %v", what, err)
				m.st = "header"
				m.next = 0
			default:
				c.Check(err != nil, "%s: rewinding a stream that can't seek succeeded", what)
			}
		}
	})
	c.State("transition", fmt.Sprintf("%s --%s--> %s (indexed=%v known=%v seek=%v)", before, strings.SplitN(strings.SplitN(o.String(), "[", 2)[0], "(", 2)[0], m.st, f.Indexed, f.Count > 0, m.seek))
}

func (f *FileM) query(r *Rng) Bx {
	for i := 0; i < 20; i++ {
		var q Bx
		if len(f.Leaves) > 0 {
			q = genQueries(r, f.Leaves, 1)[0]
		} else {
			q = genBox(r, r.IntN(3))
		}
		if _, may := f.matches(q); len(may) == 0 {
			return q
		}
	}
	return Bx{0, 0, 1, 1}
}

func (f *FileM) rop(r *Rng, weights []int) rop {
	o := rop{q: f.query(r)}
	t := 0
	for _, w := range weights {
		t += w
	}
	k := r.IntN(t)
	for i, w := range weights {
		if k < w {
			o.kind = i
			break
		}
		k -= w
	}
	n := len(f.Feats)
	o.k = pick(r, []int{0, 0, 1, 1, 2, 3, r.IntN(n + 2), n, n + 1, n + 7, 1023, 1024, 1025})
	return o
}

// openFile makes a source holding the file, embedded in a larger stream.
func openFile(r *Rng, f *FileM, junkOK bool) (src *Src, pre int64) {
	junk := pick(r, []int{0, 0, 1, 8, 100, 4097})
	b := append(r.Bytes(junk), f.bytes()...)
	if junkOK && f.Count > 0 {
		b = append(b, r.Bytes(pick(r, []int{0, 0, 1, 4, 100}))...)
	}
	src = newSrc(b)
	src.r = r
	pre = int64(junk)
	if r.P(12) { // far into a large stream
		far := pick(r, []int64{1<<31 - 50, 1 << 31, 1<<32 - 9, 5 << 30, 1 << 40, 1<<53 + 1, 1 << 62, int64(r.Uint64() >> 2 >> r.IntN(30))})
		src.data = farBacking{far, b}
		pre += far
	}
	src.pos = pre
	src.record = false
	src.maxOps = 100000 + 40*len(b)
	return
}

func init() {
	register(&Prop{ID: "C10", Quick: 18000, Thorough: 60000,
		Rule: "files made by independent encoders (leaf order equal to or different from file order, leaf boxes from geometries or arbitrary, embedded at any offset, with and without index) searched on seekable and non-seekable streams in every legal situation (fresh, after loading the index, after other searches, after reads), results compared byte for byte with a linear scan; plus computed files of more than 4 GiB; distinct by (file shape, situation, matches, count)",
		Run:  c10})
	register(&Prop{ID: "C11", Quick: 20000, Thorough: 100000,
		Rule: "random call sequences (4 to 40 calls, all slice sizes incl. 0, more than 1024 features in some files) on files of every shape, each result judged by a state machine of the documented protocol; distinct by call sequence and file shape; states_seen lists the abstract transitions observed",
		Run:  c11})
	register(&Prop{ID: "C12", Quick: 25000, Thorough: 120000,
		Rule: "the same operations on the same bytes delivered whole, one byte at a time, in random pieces, with empty reads, and with data and end-of-stream together (for valid, truncated and corrupt data): transcripts must be identical and consumption exact; distinct by (transcript)",
		Run:  c12})
	register(&Prop{ID: "C13", Level: "fault_enumeration", Quick: 4800, Thorough: 24000,
		Rule: "for each file and script of calls: every truncation point (small files; sampled for large ones), and a failure (nothing or part delivered, once or for good) at every read and seek call the script makes; results judged against the true feature sequence; distinct by (file shape, script, fault position, what failed)",
		Run:  c13})
	register(&Prop{ID: "C20", Quick: 20000, Thorough: 100000,
		Rule: "everything returned is snapshotted, then the reader is driven on, other results are overwritten up to their capacity, inputs are mutated, and the snapshots compared; inputs of writers, sorts and index construction are hashed before and after; distinct by (kind, sizes)",
		Run:  c20})
	register(&Prop{ID: "C21", Quick: 24000, Thorough: 200000,
		Rule: "readers and writers driven to a random state (incl. before the header, at end of data, after errors), closed, and then every operation called, with the stream recording I/O and closes; distinct by (kind, state, stream type, close error)",
		Run:  c21})
	register(&Prop{ID: "C22", Quick: 15000, Thorough: 60000,
		Rule: "magic numbers (valid, every single byte changed, every version), header lengths around every limit, node sizes, feature counts and truncations; acceptance compared with the rules, consumption and allocation measured, and every call tried after a refusal; distinct by (kind, parameters)",
		Run:  c22})
}

// skipSweep reads files whose index, and whose first feature, is of a size
// around multiples of likely buffer sizes, in ways which have to skip them.
func skipSweep(c *C) {
	r := c.R
	unit := func() int { return pick(r, []int{512, 1000, 1024, 4000, 4096, 8000, 8096, 8192, 16384, 32768, 65536}) }
	var n, ns int
	for {
		ns = pick(r, []int{2, 16, 16, 100, 65535})
		if r.P(70) { // so many nodes, if they can be had
			u := unit()
			total := (u*r.In(1, 1+200000/u) + r.In(-2, 2)*8) / 40
			for n = total * (ns - 1) / ns; n > 0 && int(refSize(int64(n), int64(ns)).Int64()) > 40*total; n-- {
			}
		} else {
			n = r.In(3, 4000)
		}
		if n >= 3 {
			break
		}
	}
	gap := r.In(24, 500)
	if r.P(80) {
		u := unit()
		gap = max(24, u*r.In(1, 1+100000/u)+r.In(-4, 4)-pick(r, []int{0, 0, 24}))
	}
	feats := [][]byte{(&giantFile_{size: int64(gap)}).feature(0), (&giantFile_{size: 24}).feature(1), (&giantFile_{size: 24}).feature(2)}
	ls := make([]Leaf, n)
	for i := range ls {
		off := int64(0)
		if i > 0 {
			off = int64(gap + 24*(i-1))
		}
		ls[i] = Leaf{Bx{float64(i), 0, float64(i), 0}, off}
	}
	hm := &HdrM{Count: uint64(n), NodeSize: uint16(ns)}
	idx := refIndex(ls, ns)
	head := append(append([]byte{}, magicBytes...), encode(r, hm.table())...)
	b := append(append([]byte{}, head...), idx...)
	at := []int64{int64(len(b))}
	for _, f := range feats {
		b = append(b, f...)
		at = append(at, int64(len(b)))
	}
	b = append(b, make([]byte, 50)...) // the others are of no interest
	what := fmt.Sprintf("file with %d features, node size %d, index of %d bytes, first feature of %d bytes", n, ns, len(idx), gap)
	c.Briefly("%s", what)
	src := newSrc(b)
	src.record = false
	src.r = r
	for _, seek := range []bool{false, r.P(20)} {
		for _, how := range []string{"Data", "Search"} {
			src.pos, src.ops = 0, 0
			src.frag = pick(r, []int{fragFull, fragFull, fragRandom, fragHalf})
			rd := flatgeobuf.NewFileReader(src.stream(seek, false))
			_, err := rd.Header()
			c.Check(err == nil, "%s: Header: %v", what, err)
			var got []flat.Feature
			first := 0
			if how == "Data" {
				got = make([]flat.Feature, 3)
				var m int
				m, err = rd.Data(got)
				c.Check(m == 3 && (err == nil || n == 3 && err == io.EOF), "%s: Data gives %d, %v (seekable stream: %v)", what, m, err, seek)
			} else {
				first = pick(r, []int{1, 1, 2})
				got, err = rd.IndexSearch(packedrtree.Box{XMin: float64(first), XMax: 2})
				c.Check(err == nil && len(got) == 3-first, "%s: IndexSearch gives %d, %v (seekable stream: %v)", what, len(got), err, seek)
			}
			for i := range got {
				c.Check(bytes.Equal(tableBytes(got[i].Table()), feats[first+i]), "%s: %s gives something else for feature %d (seekable stream: %v)", what, how, first+i, seek)
			}
			c.Check(src.pos == at[3], "%s: %s leaves the stream at %d, want %d (seekable stream: %v)", what, how, src.pos, at[3], seek)
			c.Eval(1)
		}
	}
	c.Count("skips_of_buffer_sizes", 1)
	c.Distinct("skip %d/%d", len(idx), gap)
}

func c10(c *C) {
	r := c.R
	if c.Idx%16 == 3 {
		skipSweep(c)
		return
	}
	if c.Idx%16 == 15 {
		giantFile(c)
		return
	}
	if c.Idx%16 == 7 {
		gapFile(c)
		return
	}
	o := fileOpts{MaxFeats: 60, BigFeats: c.Idx%50 == 1}
	if c.Idx%40 == 7 {
		o.MaxFeats, o.MinFeats, o.SmallFeats, o.ForceIndex = 3000, 1000, true, true
	} else if r.P(85) {
		o.ForceIndex = true
	}
	var f *FileM
	if c.huge() {
		f = hugeFile(c, true)
	} else {
		f = genFile(r, o)
	}
	c.State("file", f.shape())
	c.Briefly("%s", f.describe())
	seek := r.P(60)
	src, pre := openFile(r, f, true)
	src.frag = pick(r, []int{fragFull, fragFull, fragRandom, fragZeros, fragDataEOF, fragHalf})
	src.scrib = src.r != nil && src.r.P(30)
	rd := flatgeobuf.NewFileReader(src.stream(seek, r.P(50)))
	h, err := rd.Header()
	c.Check(err == nil, "Header: %v", err)
	f.judgeHeader(c, "Header", h)
	sit := "fresh"
	searches := 1
	if seek {
		searches = r.In(1, 4)
	}
	for s := 0; s < searches; s++ {
		if seek {
			// Bring the reader into some situation first.
			switch r.IntN(5) {
			case 0:
				if _, err := rd.Index(); err != nil {
					c.Failf("Index (%s): %v", sit, err)
				}
				sit += ",index"
				if r.P(30) {
					n, err := rd.Data(make([]flat.Feature, 1))
					c.Check(n == min(1, len(f.Feats)) && (err == nil || err == io.EOF), "Data (%s): %d, %v", sit, n, err)
				}
				c.Check(rd.Rewind() == nil, "Rewind (%s) failed", sit)
			case 1:
				n, err := rd.Data(make([]flat.Feature, 2))
				c.Check(n == min(2, len(f.Feats)) && (err == nil || err == io.EOF), "Data (%s): %d, %v", sit, n, err)
				c.Check(rd.Rewind() == nil, "Rewind (%s) failed", sit)
				sit += ",data"
			case 2:
				fs, err := rd.DataRem()
				c.Check(len(fs) == len(f.Feats) && err == nil, "DataRem (%s): %d, %v", sit, len(fs), err)
				c.Check(rd.Rewind() == nil, "Rewind (%s) failed", sit)
				sit += ",rem"
			}
		}
		q := f.query(r)
		fs, err := rd.IndexSearch(toBox(q))
		what := fmt.Sprintf("IndexSearch (seekable=%v, situation %s, file at %d, %s)", seek, sit, pre, f.describe())
		if !f.Indexed {
			c.Check(errors.Is(err, flatgeobuf.ErrNoIndex) && len(fs) == 0, "%s: want the no-index error, got %d features, %v", what, len(fs), err)
			fs, err := rd.DataRem()
			c.Check(err == nil && len(fs) == len(f.Feats), "%s: after the no-index error, %d of %d features readable (%v)", what, len(fs), len(f.Feats), err)
			for i := range fs {
				f.judgeFeature(c, what, &fs[i], i)
			}
			c.Distinct("noindex/%d/%v/%s", len(f.Feats), seek, sit)
		} else {
			c.Check(err == nil, "%s: %v", what, err)
			n := f.judgeSearch(c, what, fs, q)
			c.Distinct("%d/%d/%v/%s/%d", len(f.Feats), f.NS, seek, sit, n)
			c.Count("features_found", n)
			if !seek && n > 0 {
				// Nothing beyond the last match was consumed.
				must, _ := f.matches(q)
				end := pre + int64(f.dataStart()) + f.Offs[must[len(must)-1]] + int64(len(f.Feats[must[len(must)-1]]))
				c.Check(src.pos <= end, "%s: consumed up to %d, beyond the end of the last match at %d", what, src.pos, end)
			}
			n2, err := rd.Data(make([]flat.Feature, 3))
			c.Check(n2 == 0 && err == io.EOF, "%s: Data after the search: %d, %v", what, n2, err)
		}
		c.Eval(1)
		sit += ",search"
		if !seek {
			break
		}
		c.Check(rd.Rewind() == nil, "Rewind (%s) failed", sit)
	}
	if seek && r.P(50) {
		// All features are still there.
		fs, err := rd.DataRem()
		c.Check(err == nil && len(fs) == len(f.Feats), "after searches (%s), %d of %d features readable (%v)", sit, len(fs), len(f.Feats), err)
		for i := range fs {
			f.judgeFeature(c, "DataRem after "+sit, &fs[i], i)
		}
	}
	c.State("situation_length", fmt.Sprint(strings.Count(sit, ",")))
}

// giantFile is a seekable file with a computed index and data section, far
// beyond 4 GiB: feature i is `size` bytes long.
type giantFile_ struct {
	hdr  []byte
	g    *giant
	size int64
	pre  int64
}

func (x *giantFile_) feature(i int64) []byte {
	b := make([]byte, x.size)
	copy(b, le(4, uint64(x.size-4)))
	copy(b[4:], le(4, 8)) // root at 12
	// vtable at 8: size 4, table size 4; table at 12: soffset 4
	copy(b[8:], []byte{4, 0, 4, 0, 4, 0, 0, 0})
	copy(b[16:], le(8, uint64(i)))
	return b
}

func (x *giantFile_) Size() int64 {
	return x.pre + int64(len(x.hdr)) + 40*x.g.total + x.g.n*x.size
}

func (x *giantFile_) Fill(p []byte, off int64) int {
	n := 0
	for n < len(p) {
		o := off + int64(n) - x.pre
		switch {
		case o < 0:
			p[n] = 0xEE
			n++
		case o < int64(len(x.hdr)):
			n += copy(p[n:], x.hdr[o:])
		case o < int64(len(x.hdr))+40*x.g.total:
			rel := o - int64(len(x.hdr))
			nd := x.g.node(rel / 40)
			if i := rel / 40; i >= x.g.starts[0] {
				nd.Off = (i - x.g.starts[0]) * x.size
			}
			n += copy(p[n:], encNodes([]rnode{nd})[rel%40:])
		default:
			rel := o - int64(len(x.hdr)) - 40*x.g.total
			if rel >= x.g.n*x.size {
				return n
			}
			n += copy(p[n:], x.feature(rel / x.size)[rel%x.size:])
		}
	}
	return n
}

func giantFile(c *C) {
	r := c.R
	maxBits := 38
	if math.MaxInt == math.MaxInt32 {
		maxBits = 24 // and see gapFile
	}
	n := int64(1)<<r.In(14, maxBits) + int64(r.In(-5, 5))
	ns := int64(pick(r, []int{2, 16, 16, 100, 1000}))
	x := &giantFile_{size: int64(pick(r, []int{24, 32, 100, 1000})), pre: pick(r, []int64{0, 7, 5 << 30})}
	hm := &HdrM{Count: uint64(n), NodeSize: uint16(ns)}
	x.hdr = append(append([]byte{}, magicBytes...), encode(r, hm.table())...)
	x.g = newGiant(n, ns, 0)
	src := &Src{data: x, pos: x.pre, failAt: -1, maxOps: 100000, r: r}
	rd := flatgeobuf.NewFileReader(src.stream(true, false))
	_, err := rd.Header()
	c.Check(err == nil, "Header of a computed file with %d features: %v", n, err)
	c.Briefly("computed file: %d features of %d bytes, node size %d, %d bytes at offset %d", n, x.size, ns, x.Size()-x.pre, x.pre)
	for rep := 0; rep < 3; rep++ {
		k := int64(r.Uint64() % uint64(n))
		w := int64(r.IntN(20))
		a0 := allocated()
		fs, err := rd.IndexSearch(packedrtree.Box{XMin: float64(k), YMin: 0, XMax: float64(k + w), YMax: 0})
		a1 := allocated()
		c.Check(err == nil, "IndexSearch in a computed file with %d features: %v", n, err)
		want := min(k+w, n-1) - k + 1
		c.Check(int64(len(fs)) == want, "IndexSearch in a computed file with %d features (node size %d) returned %d features, want %d", n, ns, len(fs), want)
		for i := range fs {
			c.Check(bytes.Equal(tableBytes(fs[i].Table()), x.feature(k+int64(i))), "IndexSearch in a computed file returned the wrong bytes for feature %d", k+int64(i))
		}
		c.Check(a1-a0 < 8<<20, "IndexSearch for %d features allocated %d bytes", want, a1-a0)
		if rep < 2 {
			c.Check(rd.Rewind() == nil, "Rewind failed")
		}
		if rep == 1 {
			// Skipping the index must work as well.
			p := make([]flat.Feature, 2)
			m, err := rd.Data(p)
			c.Check(m == 2 && err == nil, "Data in a computed file: %d, %v", m, err)
			for i := range p {
				c.Check(bytes.Equal(tableBytes(p[i].Table()), x.feature(int64(i))), "Data in a computed file returned the wrong bytes for feature %d", i)
			}
			c.Check(rd.Rewind() == nil, "Rewind failed")
		}
		c.Distinct("giant/%d/%d/%d", n, ns, k)
		c.Eval(1)
	}
	c.Count("computed_files", 1)
}

// pieces is data made of literal pieces with gaps, whose contents are
// arbitrary, in between.
type pieces struct {
	at   []int64
	lit  [][]byte
	size int64
}

func (x *pieces) add(b []byte) {
	x.at = append(x.at, x.size)
	x.lit = append(x.lit, b)
	x.size += int64(len(b))
}

func (x *pieces) gap(n int64) { x.size += n }

func (x *pieces) Size() int64 { return x.size }

func (x *pieces) Fill(p []byte, off int64) int {
	end := off + int64(len(p))
	for i, at := range x.at {
		b := x.lit[i]
		if at >= end || at+int64(len(b)) <= off {
			continue
		}
		if at >= off {
			copy(p[at-off:], b)
		} else {
			copy(p, b[off-at:])
		}
	}
	return len(p)
}

// gapFile has a few features which are far apart, since there are features of
// up to 4 GiB in between. Searches for the small ones have to skip the others.
func gapFile(c *C) {
	r := c.R
	n := r.In(2, 12)
	ns := pick(r, []int{2, 3, 16})
	sizes := make([]int64, n)
	feats := make([][]byte, n)
	ls := make([]Leaf, n)
	var off int64
	for i := range sizes {
		if r.P(40) {
			sizes[i] = 4 + pick(r, []int64{1<<31 - 4, 1<<31 - 5, 1 << 31, 1<<32 - 1, 1<<32 - 8, 1<<31 + 4, 3 << 30, 1 << 30, 8096 - 4, 8092, 16192 - 4, int64(r.Uint32())})
		} else {
			feats[i] = (&giantFile_{size: int64(pick(r, []int{20, 24, 100}) + 4)}).feature(int64(i))
			sizes[i] = int64(len(feats[i]))
		}
		v := float64(n - i)
		ls[i] = Leaf{Bx{v, 0, v, 0}, off}
		off += sizes[i]
	}
	x := &pieces{}
	if r.P(40) {
		x.gap(pick(r, []int64{7, 5 << 30}))
	}
	pre := x.size
	hm := &HdrM{Count: uint64(n), NodeSize: uint16(ns)}
	x.add(append(append([]byte{}, magicBytes...), encode(r, hm.table())...))
	nodes, _ := refTree(ls, ns)
	x.add(encNodes(nodes))
	for i := range sizes {
		if feats[i] != nil {
			x.add(feats[i])
		} else {
			x.add(le(4, uint64(sizes[i]-4)))
			x.gap(sizes[i] - 4)
		}
	}
	seek := r.P(60)
	src := &Src{data: x, pos: pre, failAt: -1, maxOps: 20000000}
	rd := flatgeobuf.NewFileReader(src.stream(seek, false))
	_, err := rd.Header()
	c.Check(err == nil, "Header of a file with gaps: %v", err)
	what := fmt.Sprintf("a file at %d with features of %v bytes (seekable=%v)", pre, sizes, seek)
	c.Briefly("%s", what)
	for rep := 0; rep < 3; rep++ {
		// A search between two neighbors, so that no gap matches.
		k := r.IntN(n)
		if feats[k] == nil {
			continue
		}
		lo := k
		for lo > 0 && feats[lo-1] != nil && r.P(50) {
			lo--
		}
		fs, err := rd.IndexSearch(packedrtree.Box{XMin: float64(n - k), XMax: float64(n - lo)})
		c.Check(err == nil, "IndexSearch for features %d to %d of %s: %v", lo, k, what, err)
		c.Check(len(fs) == k-lo+1, "IndexSearch for features %d to %d of %s: %d features", lo, k, what, len(fs))
		for i := range fs {
			c.Check(bytes.Equal(tableBytes(fs[i].Table()), feats[lo+i]), "IndexSearch for features %d to %d of %s: wrong bytes for feature %d", lo, k, what, lo+i)
		}
		c.Distinct("gap/%d/%d/%v/%d", off, n, seek, k)
		c.Eval(1)
		if !seek {
			break
		}
		c.Check(rd.Rewind() == nil, "Rewind failed")
	}
	c.Count("files_with_gaps", 1)
}

// gapIndex is a file with an index of up to some GiB, which has to be skipped
// to get at the data.
func gapIndex(c *C) {
	r := c.R
	n, ns := 0, pick(r, []int{2, 3, 16, 1000})
	for {
		n = 1<<r.In(8, 27) + r.In(-3, 3)
		if r.P(30) {
			n = (math.MaxInt32/40)*(ns-1)/ns + r.In(-1000, 1000)
		}
		if big, err := packedrtree.Size(n, uint16(ns)); err == nil && int64(big) < 6<<30 {
			break
		}
	}
	var size int64
	for _, l := range levelSizes(n, ns) {
		size += 40 * int64(l)
	}
	x := &pieces{}
	if r.P(40) {
		x.gap(pick(r, []int64{7, 5 << 30}))
	}
	pre := x.size
	hm := &HdrM{Count: uint64(n), NodeSize: uint16(ns)}
	x.add(append(append([]byte{}, magicBytes...), encode(r, hm.table())...))
	x.gap(size)
	feats := make([][]byte, 3)
	for i := range feats {
		feats[i] = (&giantFile_{size: int64(pick(r, []int{24, 100}))}).feature(int64(i))
		x.add(feats[i])
	}
	seek := r.P(50)
	src := &Src{data: x, pos: pre, failAt: -1, maxOps: 20000000}
	rd := flatgeobuf.NewFileReader(src.stream(seek, false))
	_, err := rd.Header()
	what := fmt.Sprintf("a file at %d with %d references, node size %d, and an index of %d bytes (seekable=%v)", pre, n, ns, size, seek)
	c.Briefly("%s", what)
	c.Check(err == nil, "Header of %s: %v", what, err)
	for rep := 0; rep < 2; rep++ {
		p := make([]flat.Feature, 3)
		m, err := rd.Data(p)
		c.Check(m == 3 && err == nil, "Data of %s: %d, %v", what, m, err)
		for i := range p {
			c.Check(bytes.Equal(tableBytes(p[i].Table()), feats[i]), "Data of %s: wrong bytes for feature %d", what, i)
		}
		c.Eval(1)
		m, err = rd.Data(p[:1])
		c.Check(m == 0 && err != nil && err != io.EOF, "Data of %s, which is truncated: %d, %v", what, m, err)
		if !seek || r.P(50) {
			break
		}
		rd = flatgeobuf.NewFileReader(src.stream(seek, false))
		src.pos = pre
		_, err = rd.Header()
		c.Check(err == nil, "Header of %s: %v", what, err)
	}
	c.Distinct("gapindex/%d/%d/%v", n, ns, seek)
	c.Count("big_indexes_skipped", 1)
}

func c11(c *C) {
	r := c.R
	if c.Idx%32 == 13 {
		gapIndex(c)
		return
	}
	if c.Idx%16 == 6 {
		skipSweep(c)
		return
	}
	o := fileOpts{MaxFeats: 20, SmallFeats: r.P(80)}
	if c.Idx%60 == 3 {
		o = fileOpts{MaxFeats: 4200, MinFeats: 1000, SmallFeats: true}
		if r.P(50) {
			n := pick(r, []int{1023, 1024, 1025, 2047, 2048, 2049, 3072})
			o.MaxFeats, o.MinFeats = n, n
		}
	}
	var f *FileM
	if c.huge() {
		f = hugeFile(c, r.P(50))
	} else {
		f = genFile(r, o)
	}
	c.State("file", f.shape())
	seek := r.P(65)
	src, pre := openFile(r, f, true)
	src.frag = pick(r, []int{fragFull, fragFull, fragFull, fragRandom, fragDataEOF})
	src.scrib = src.r != nil && src.r.P(30)
	src.maxOps *= 20
	rd := flatgeobuf.NewFileReader(src.stream(seek, r.P(30)))
	m := newRModel(f, seek)
	var trace []string
	n := r.In(4, 40)
	if len(f.Feats) > 500 {
		n = r.In(3, 8)
	}
	if c.huge() {
		// Everything at once, in one call and in several.
		m.step(c, rd, rop{kind: opHeader}, nil)
		if r.P(50) {
			m.step(c, rd, rop{kind: opIndex, q: f.query(r)}, []string{"Header"})
		}
		m.step(c, rd, rop{kind: opData, k: len(f.Feats) - r.IntN(100)}, []string{"Header"})
		m.step(c, rd, rop{kind: opDataRem}, []string{"Header", "Data"})
		c.Eval(3)
		if !seek {
			return
		}
		m.step(c, rd, rop{kind: opRewind}, []string{"Header", "Data", "DataRem"})
		n = 3
	}
	weights := []int{1, 4, 4, 8, 3, 5}
	if r.P(90) { // get going
		m.step(c, rd, rop{kind: opHeader}, nil)
		trace = append(trace, "Header")
	} else {
		weights[0] = 6
	}
	for i := 0; i < n; i++ {
		o := f.rop(r, weights)
		m.step(c, rd, o, trace)
		trace = append(trace, o.String())
		c.Eval(1)
	}
	// Whatever happened, a seekable file can be read again from the start.
	if seek && m.st != "uninit" {
		m.step(c, rd, rop{kind: opRewind}, trace)
		switch r.IntN(3) {
		case 0:
			m.step(c, rd, rop{kind: opIndex, q: f.query(r)}, append(trace, "Rewind"))
			m.step(c, rd, rop{kind: opDataRem}, append(trace, "Rewind", "Index"))
		case 1:
			m.step(c, rd, rop{kind: opDataRem}, append(trace, "Rewind"))
		default:
			m.step(c, rd, rop{kind: opSearch, q: f.query(r)}, append(trace, "Rewind"))
		}
		c.Eval(2)
	}
	kinds := ""
	for _, t := range trace {
		kinds += t[:1] + t[len(t)-1:]
	}
	c.Distinct("%s/%v/%s/%d", f.shape(), seek, kinds, pre)
	c.Briefly("%s at %d, seekable=%v: %s", f.describe(), pre, seek, clipS(strings.Join(trace, " "), 300))
	c.Count("calls", len(trace))
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func hashOf(b []byte) string {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return fmt.Sprintf("%d:%x", len(b), h.Sum64())
}

func errText(err error) string {
	if err == nil {
		return "nil"
	}
	s := err.Error()
	switch {
	case err == io.EOF:
		s = "<EOF>" + s
	case errors.Is(err, io.ErrUnexpectedEOF):
		s = "<UEOF>" + s
	case errors.Is(err, io.EOF):
		s = "<wraps EOF>" + s
	}
	return s
}

// perform executes an operation and renders its result.
func perform(r *flatgeobuf.FileReader, o rop) (s string) {
	feats := func(fs []flat.Feature) string {
		var b strings.Builder
		for i := range fs {
			t := fs[i].Table()
			fmt.Fprintf(&b, "%s@%d ", hashOf(t.Bytes), t.Pos)
		}
		return b.String()
	}
	switch o.kind {
	case opHeader:
		h, err := r.Header()
		s = "nil"
		if h != nil {
			s = hashOf(h.Table().Bytes)
		}
		return s + " " + errText(err)
	case opIndex:
		p, err := r.Index()
		s = "nil"
		if p != nil && err == nil {
			var b bytes.Buffer
			_, _ = p.Marshal(&b)
			s = hashOf(b.Bytes()) + resultSet(p.Search(toBox(o.q)))
		}
		return s + " " + errText(err)
	case opSearch:
		fs, err := r.IndexSearch(toBox(o.q))
		return feats(fs) + errText(err)
	case opData:
		p := make([]flat.Feature, o.k)
		n, err := r.Data(p)
		return fmt.Sprint(n) + feats(p[:n]) + errText(err)
	case opDataRem:
		fs, err := r.DataRem()
		return feats(fs) + errText(err)
	case opRewind:
		return errText(r.Rewind())
	}
	return errText(r.Close())
}

var fragNames = []string{"whole", "single bytes", "random pieces", "random pieces and empty reads", "whole with data+EOF", "random pieces with data+EOF", "halves"}

func c12(c *C) {
	r := c.R
	switch c.Idx % 8 {
	case 5:
		c12tree(c)
		return
	case 6, 7:
		c12props(c)
		return
	case 4:
		if c.Idx%16 == 4 {
			skipSweep(c)
			return
		}
	}
	o := fileOpts{MaxFeats: 15, SmallFeats: r.P(70), BigFeats: c.Idx%200 == 0}
	f := genFile(r, o)
	b := f.bytes()
	kind := "valid"
	switch r.IntN(6) {
	case 0, 1:
		kind = "truncated"
		b = b[:r.IntN(len(b))]
	case 2:
		kind = "corrupt"
		for i := r.In(1, 3); i > 0; i-- {
			b[r.IntN(len(b))] ^= byte(1 << r.IntN(8))
		}
	case 3:
		if f.Count > 0 {
			kind = "trailing"
			b = append(b, r.Bytes(r.In(1, 50))...)
		}
	}
	seek := r.P(50)
	var ops []rop
	ops = append(ops, rop{kind: opHeader})
	for i := r.In(1, 8); i > 0; i-- {
		ops = append(ops, f.rop(r, []int{0, 4, 4, 8, 3, 3}))
	}
	run := func(frag int) (tr []string, pos []int64) {
		src := newSrc(b)
		src.r = newRng(c.Seed, "c12", fmt.Sprint(c.Idx), fmt.Sprint(frag))
		src.frag = frag
		src.scrib = src.r != nil && src.r.P(30)
		src.record = false
		src.maxOps = 1000000 + 100*len(b)
		rd := flatgeobuf.NewFileReader(src.stream(seek, false))
		for _, o := range ops {
			var s string
			mustNotPanic(c, fmt.Sprintf("%v on a %s file delivered in %s", o, kind, fragNames[frag]), func() { s = perform(rd, o) })
			tr = append(tr, s)
			pos = append(pos, src.pos)
		}
		return
	}
	want, wpos := run(fragFull)
	// Consumption on a valid file: exactly what was asked for.
	if kind == "valid" || kind == "trailing" {
		m := 8 + len(f.Hdr)
		c.Check(wpos[0] == int64(m), "Header consumed %d bytes, want %d", wpos[0], m)
		if len(ops) > 1 && !seek {
			switch o := ops[1]; {
			case o.kind == opIndex:
				c.Check(wpos[1] == int64(f.dataStart()), "Index consumed up to %d, want the data section at %d", wpos[1], f.dataStart())
			case o.kind == opData && (f.Count > 0 || o.k <= len(f.Feats)):
				end := f.dataStart()
				for i := 0; i < o.k && i < len(f.Feats); i++ {
					end += len(f.Feats[i])
				}
				c.Check(wpos[1] == int64(end), "Data(%d) consumed up to %d, want %d", o.k, wpos[1], end)
			case o.kind == opDataRem:
				end := f.dataStart() + int(f.DataSize)
				c.Check(wpos[1] == int64(end), "DataRem consumed up to %d, want %d", wpos[1], end)
			}
		}
	}
	frags := []int{fragOne, fragRandom, fragZeros, fragDataEOF, fragRandEOF, fragHalf}
	if len(b) > 300000 {
		frags = []int{fragRandom, fragDataEOF, fragRandEOF, fragHalf}
	}
	for _, frag := range frags {
		got, gpos := run(frag)
		for i := range got {
			if got[i] != want[i] {
				c.Failf("%v on a %s file (seekable=%v, call %d of %v): delivered in %s it gives %q, delivered whole %q", ops[i], kind, seek, i, ops, fragNames[frag], clipS(got[i], 300), clipS(want[i], 300))
			}
			if kind == "valid" || kind == "trailing" {
				c.Check(gpos[i] == wpos[i], "%v on a %s file (seekable=%v): consumed up to %d when delivered in %s, %d when whole", ops[i], kind, seek, gpos[i], fragNames[frag], wpos[i])
			}
		}
		c.Eval(1)
		c.State("delivery", fragNames[frag])
	}
	c.State("kind", kind)
	c.Distinct("%s/%v", strings.Join(want, "|"), seek)
	c.Briefly("%s file, seekable=%v, calls %v give %s", kind, seek, ops, clipS(strings.Join(want, " | "), 250))
}

func c12tree(c *C) {
	r := c.R
	ns := pick(r, []int{2, 3, 5, 16, 64})
	ls := genLeaves(r, r.In(1, 120))
	idx := refIndex(ls, ns)
	if r.P(40) {
		idx = idx[:r.IntN(len(idx))]
	}
	q := genQueries(r, ls, 1)[0]
	run := func(frag int) (s string) {
		src := newSrc(idx)
		src.record = false
		src.r = newRng(c.Seed, "c12t", fmt.Sprint(c.Idx), fmt.Sprint(frag))
		src.frag = frag
		src.scrib = src.r != nil && src.r.P(30)
		p, err := packedrtree.Unmarshal(src.stream(false, false), len(ls), uint16(ns))
		if p != nil && err == nil {
			var b bytes.Buffer
			_, _ = p.Marshal(&b)
			s = hashOf(b.Bytes())
		}
		s += errText(err)
		src.pos = 0
		rs, err := packedrtree.Seek(srcRS{src}, len(ls), uint16(ns), toBox(q))
		if err == nil {
			s += fmt.Sprint(rs, src.pos)
		}
		s += errText(err)
		return
	}
	want := run(fragFull)
	for frag := 1; frag < numFrags; frag++ {
		got := run(frag)
		c.Check(got == want, "index of %d refs, node size %d: delivered in %s it gives %q, delivered whole %q", len(ls), ns, fragNames[frag], clipS(got, 300), clipS(want, 300))
		c.Eval(1)
	}
	c.Distinct("%s", want)
}

func c12props(c *C) {
	r := c.R
	cols := genCols(r, r.In(1, 16))
	ps := genPairs(r, cols, r.In(1, 12))
	b := encPairs(ps)
	if r.P(40) {
		b = b[:r.IntN(len(b)+1)]
	}
	hdr := headerOf(encode(r, (&HdrM{Cols: some(cols), NodeSize: 16}).table()))
	seq := make([]uint8, 0, 2*len(ps))
	for _, p := range ps {
		seq = append(seq, ctUShort, cols[p.Col].Type)
	}
	run := func(frag int) (s string) {
		src := newSrc(b)
		src.record = false
		src.r = newRng(c.Seed, "c12p", fmt.Sprint(c.Idx), fmt.Sprint(frag))
		src.frag = frag
		src.scrib = src.r != nil && src.r.P(30)
		vals, err := flatgeobuf.NewPropReader(src.stream(false, false)).ReadSchema(hdr)
		for _, v := range vals {
			if err != nil {
				break // What else is returned with an error is nobody's business.
			}
			s += fmt.Sprintf("%d:%v:%v ", v.ColIndex, v.Type, v.Value)
		}
		s += errText(err) + "\n"
		src.pos = 0
		pr := flatgeobuf.NewPropReader(src.stream(false, false))
		for _, t := range seq {
			v, err := readProp(pr, t)
			if err != nil {
				s += fmt.Sprintf("%s @%d;", errText(err), src.pos)
				break
			}
			s += fmt.Sprintf("%v @%d;", v, src.pos)
		}
		if len(b) >= 8 {
			src.pos = 0
			v, err := flatgeobuf.Magic(src.stream(false, false))
			s += fmt.Sprintf("%v %s @%d", v, errText(err), src.pos)
		}
		return
	}
	want := run(fragFull)
	for frag := 1; frag < numFrags; frag++ {
		got := run(frag)
		c.Check(got == want, "properties delivered in %s give %q, delivered whole %q", fragNames[frag], clipS(got, 300), clipS(want, 300))
		c.Eval(1)
	}
	c.Distinct("%s", want)
}

// ---- C13

var errInjected = errors.New("injected I/O error")

type script struct {
	name string
	ops  []rop
}

func scripts(r *Rng, f *FileM) script {
	q := f.query(r)
	if len(f.Leaves) > 0 && r.P(60) {
		q = Bx{-1e9, -1e9, 1e9, 1e9}
		if _, may := f.matches(q); len(may) > 0 {
			q = f.query(r)
		}
	}
	h := rop{kind: opHeader}
	k := r.In(1, 4)
	if r.P(20) {
		// With the index at hand, or only its place.
		rw, x, y := rop{kind: opRewind}, rop{kind: opIndex, q: q}, rop{kind: opSearch, q: f.query(r)}
		d := pick(r, []rop{{kind: opDataRem}, {kind: opData, k: k}})
		switch r.IntN(5) {
		case 0:
			return script{"header,index,rewind,index,rem", []rop{h, x, rw, x, d}}
		case 1:
			return script{"header,index,data,rewind,index,rewind,search", []rop{h, x, d, rw, x, rw, y}}
		case 2:
			return script{"header,search,rewind,search,rewind,index", []rop{h, y, rw, y, rw, x, d}}
		case 3:
			return script{"header,index,rewind,search,rewind,search", []rop{h, x, rw, y, rw, y}}
		default:
			return script{"header,data,rewind,data,rewind,index,rewind,data", []rop{h, d, rw, d, rw, x, rw, d}}
		}
	}
	switch r.IntN(9) {
	case 0:
		return script{"header,data", []rop{h, {kind: opData, k: k}, {kind: opData, k: k}, {kind: opData, k: len(f.Feats) + 1}}}
	case 1:
		return script{"header,rem", []rop{h, {kind: opDataRem}}}
	case 2:
		return script{"header,index,rem", []rop{h, {kind: opIndex, q: q}, {kind: opDataRem}}}
	case 3:
		return script{"header,search", []rop{h, {kind: opSearch, q: q}}}
	case 4:
		return script{"header,index,rewind,search", []rop{h, {kind: opIndex, q: q}, {kind: opRewind}, {kind: opSearch, q: q}}}
	case 5:
		return script{"header,search,rewind,rem", []rop{h, {kind: opSearch, q: q}, {kind: opRewind}, {kind: opDataRem}}}
	case 6:
		return script{"header,data,rewind,index,rem", []rop{h, {kind: opData, k: k}, {kind: opRewind}, {kind: opIndex, q: q}, {kind: opDataRem}}}
	case 7:
		return script{"header,search,rewind,index,rewind,data", []rop{h, {kind: opSearch, q: q}, {kind: opRewind}, {kind: opIndex, q: q}, {kind: opRewind}, {kind: opData, k: k}, {kind: opDataRem}}}
	}
	var ops []rop
	ops = append(ops, h)
	for i := r.In(2, 6); i > 0; i-- {
		ops = append(ops, f.rop(r, []int{0, 4, 4, 6, 3, 4}))
	}
	return script{"random", ops}
}

// runFaulty runs a script against a stream which is truncated or fails, and
// judges every call. It returns what happened.
func runFaulty(c *C, f *FileM, sc script, src *Src, seek bool, truncated bool, truncAt int64, what string) string {
	rd := flatgeobuf.NewFileReader(src.stream(seek, false))
	m := newRModel(f, seek)
	broken := false // an I/O error or truncation has surfaced
	outcome := "untouched"
	boundary := false // the stream ended exactly between two features
	for i, o := range sc.ops {
		w := fmt.Sprintf("%v, call %d of %v, %s (seekable=%v, %s)", o, i, sc.ops, what, seek, f.describe())
		failedBefore := src.failed
		var fs []flat.Feature
		var err error
		got := false // something besides features was delivered
		mustNotPanic(c, w, func() {
			switch o.kind {
			case opHeader:
				var h *flat.Header
				h, err = rd.Header()
				got = h != nil
				if err == nil {
					f.judgeHeader(c, w, h)
				}
			case opIndex:
				var p *packedrtree.PackedRTree
				p, err = rd.Index()
				got = p != nil
				if p != nil && err == nil {
					judgeResults(c, w, p.Search(toBox(o.q)), f.Leaves, o.q, false)
				}
			case opSearch:
				fs, err = rd.IndexSearch(toBox(o.q))
				if err == nil {
					f.judgeSearch(c, w, fs, o.q)
				}
			case opData:
				p := make([]flat.Feature, o.k)
				var n int
				n, err = rd.Data(p)
				fs = p[:n]
			case opDataRem:
				fs, err = rd.DataRem()
			case opRewind:
				err = rd.Rewind()
			}
		})
		c.Eval(1)
		hit := src.failed > failedBefore
		if broken {
			// After an I/O error: no more data, no success.
			c.Check(len(fs) == 0 && !got, "%s: delivered data after an I/O error", w)
			if o.kind == opRewind && boundary && seek && err == nil {
				// Nothing was lost: what is there may be read again.
				broken, boundary = false, false
				m.st, m.next = "header", 0
				continue
			}
			if o.kind == opData && o.k == 0 && boundary {
				continue
			}
			c.Check(err != nil && err != io.EOF, "%s: after an I/O error, returned %v", w, err)
			continue
		}
		if o.kind == opData || o.kind == opDataRem {
			// Delivered features are true and in order.
			if m.st == "eof" || m.st == "uninit" {
				c.Check(len(fs) == 0, "%s: features delivered in state %s", w, m.st)
			}
			for j := range fs {
				f.judgeFeature(c, w, &fs[j], m.next+j)
				if truncated {
					end := int64(f.dataStart()) + f.Offs[m.next+j] + int64(len(f.Feats[m.next+j]))
					c.Check(end <= truncAt, "%s: delivered feature %d, which ends at %d, from a stream of %d bytes", w, m.next+j, end, truncAt)
				}
			}
		}
		if hit {
			if (o.kind == opData || o.kind == opDataRem) && !src.failedSeek && m.st != "eof" && m.st != "uninit" {
				// What was read completely before is not lost.
				whole := f.wholeBefore(m.next, src.pos)
				if o.kind == opData {
					whole = min(whole, o.k)
				}
				c.Check(len(fs) == whole, "%s: I/O failed at %d, after %d complete features, but %d were returned", w, src.pos, whole, len(fs))
			}
			broken = true
			outcome = "fault in " + strings.SplitN(strings.SplitN(o.String(), "[", 2)[0], "(", 2)[0]
			c.Check(err != nil && err != io.EOF && errors.Is(err, src.lastErr), "%s: I/O failed, but the call returned %d features and %v", w, len(fs), err)
			c.Check(!got || o.kind == opHeader, "%s: I/O failed, but an object was returned", w)
			if o.kind == opSearch {
				c.Check(len(fs) == 0, "%s: I/O failed, but %d features were returned", w, len(fs))
			}
			continue
		}
		// No fault surfaced in this call (or it is a truncation).
		next := m.next + len(fs)
		if truncated {
			short := false // does this call need bytes beyond the end?
			need := int64(0)
			switch {
			case o.kind == opHeader && m.st == "uninit":
				need = int64(8 + len(f.Hdr))
			case o.kind == opIndex && m.st == "header" && f.Indexed:
				need = int64(f.dataStart())
				if i > 1 && m.cached(sc.ops[:i]) {
					need = 0
				}
			case o.kind == opSearch && m.st == "header" && f.Indexed:
				must, _ := f.matches(o.q)
				if len(must) > 0 {
					l := must[len(must)-1]
					need = int64(f.dataStart()) + f.Offs[l] + int64(len(f.Feats[l]))
				}
			case (o.kind == opData || o.kind == opDataRem) && (m.st == "header" || m.st == "index" || m.st == "data"):
				k := o.k
				if o.kind == opDataRem {
					k = len(f.Feats) + 1
				}
				l := min(m.next+k, len(f.Feats)) - 1
				if l >= m.next {
					need = int64(f.dataStart()) + f.Offs[l] + int64(len(f.Feats[l]))
				}
			}
			short = need > truncAt
			cleanEnd := false
			if short && f.Count == 0 && (o.kind == opData || o.kind == opDataRem) {
				// Cut exactly between features of a file without a count: a
				// normal end.
				for j, off := range f.Offs {
					if j >= m.next && int64(f.dataStart())+off == truncAt {
						cleanEnd = true
						c.Check(len(fs) == j-m.next, "%s: cut exactly before feature %d, but %d features delivered from %d on", w, j, len(fs), m.next)
					}
				}
			}
			if short && cleanEnd {
				if o.kind == opData {
					c.Check(err == io.EOF, "%s: cut between features of a file without a count, returned %v", w, err)
				} else {
					c.Check(err == nil, "%s: cut between features of a file without a count, returned %v", w, err)
				}
				return "clean end"
			}
			if short {
				if o.kind == opData || o.kind == opDataRem {
					whole := f.wholeBefore(m.next, truncAt)
					if o.kind == opData {
						whole = min(whole, o.k)
					}
					c.Check(len(fs) == whole, "%s: the stream ends at %d, after %d complete features, but %d were returned", w, truncAt, whole, len(fs))
				}
				c.Check(err != nil && err != io.EOF, "%s: the stream ends at %d of the needed %d bytes, but the call returned %d features and %v", w, truncAt, need, len(fs), err)
				if o.kind == opData || o.kind == opDataRem || o.kind == opIndex {
					c.Check(!errors.Is(err, io.EOF), "%s: truncation is reported as an end of data: %v", w, err)
				}
				c.Check(!got || o.kind == opHeader, "%s: an object was returned from truncated data", w)
				if o.kind == opSearch {
					c.Check(len(fs) == 0, "%s: %d features were returned from truncated data", w, len(fs))
				}
				broken = true
				if o.kind == opData || o.kind == opDataRem {
					boundary = truncAt < int64(f.dataStart())
					for _, off := range f.Offs {
						boundary = boundary || int64(f.dataStart())+off == truncAt
					}
				}
				outcome = "truncated in " + strings.SplitN(strings.SplitN(o.String(), "[", 2)[0], "(", 2)[0]
				continue
			}
			if err != nil && err != io.EOF && !errors.Is(err, flatgeobuf.ErrNoIndex) && m.legal(o) {
				// The call could have succeeded, but failing early (say, because
				// the index after the part needed is truncated) is fine too.
				return "failed early"
			}
		}
		// Advance the model.
		switch o.kind {
		case opHeader:
			if err == nil && m.st == "uninit" {
				m.st = "header"
			}
		case opIndex:
			if m.st == "header" && err == nil {
				m.st = "index"
			}
		case opSearch:
			if m.st == "header" {
				if err == nil {
					m.st = "eof"
				} else if errors.Is(err, flatgeobuf.ErrNoIndex) {
					m.st = "index"
				}
			}
		case opData, opDataRem:
			if m.st == "uninit" {
				break
			}
			m.next = next
			if m.st != "eof" {
				m.st = "data"
				if err == io.EOF || o.kind == opDataRem && err == nil {
					c.Check(m.next == len(f.Feats), "%s: end of data after %d of %d features", w, m.next, len(f.Feats))
					m.st = "eof"
				}
			}
		case opRewind:
			if err == nil {
				m.st = "header"
				m.next = 0
			}
		}
	}
	return outcome
}

// wholeBefore counts the features from the given one on which end at or before
// a position in the stream.
func (f *FileM) wholeBefore(first int, pos int64) (n int) {
	for i := first; i < len(f.Feats); i++ {
		if int64(f.dataStart())+f.Offs[i]+int64(len(f.Feats[i])) > pos {
			break
		}
		n++
	}
	return
}

// cached tells whether the index may have been cached by earlier calls.
func (m *rmodel) cached(ops []rop) bool {
	for _, o := range ops {
		if o.kind == opIndex {
			return true
		}
	}
	return false
}

func (m *rmodel) legal(o rop) bool {
	switch o.kind {
	case opHeader:
		return m.st == "uninit"
	case opIndex, opSearch:
		return m.st == "header"
	case opData, opDataRem:
		return m.st != "uninit" && m.st != "eof"
	case opRewind:
		return m.seek && m.st != "uninit"
	}
	return false
}

// roundCuts chooses places within a large item where code which works in
// pieces is likely to begin a new piece.
func roundCuts(r *Rng, a, e int) []int {
	if e-a < 4096 {
		return nil
	}
	var out []int
	for sh := 10; 1<<sh <= e-a; sh++ {
		for i := 0; i < 2; i++ {
			d := (1 + r.IntN((e-a)>>sh)) << sh
			at := a + d
			switch r.IntN(4) {
			case 0, 1:
				at = a + 4 + d // behind a length prefix
			case 2:
				at = e - d
			}
			if at > a && at < e {
				out = append(out, at)
			}
		}
	}
	return out
}

func c13(c *C) {
	r := c.R
	if c.Idx%12 == 11 {
		c13magic(c)
		c13props(c)
		return
	}
	if c.Idx%6 == 5 {
		c13tree(c)
		return
	}
	o := fileOpts{MaxFeats: 12, SmallFeats: true}
	big := c.Idx%30 == 4
	many := c.Idx%300 == 22 || c.Idx%300 == 141
	if big {
		o = fileOpts{MaxFeats: 40, BigFeats: true, ForceIndex: r.P(50)}
	} else if many {
		// More features than DataRem takes at a time.
		o = fileOpts{MinFeats: 1020, MaxFeats: 4200, SmallFeats: true, Tiny: true, ForceIndex: r.P(30)}
		c.Count("files_of_many_features", 1)
	}
	f := genFile(r, o)
	b := f.bytes()
	seek := r.P(60)
	sc := scripts(r, f)
	if many && r.P(60) {
		sc = script{"header,rem", []rop{{kind: opHeader}, {kind: opDataRem}, {kind: opDataRem}}}
	}
	mk := func(data []byte) *Src {
		s := newSrc(data)
		s.record = false
		s.r = r
		s.maxOps = 200000 + 100*len(b)
		return s
	}
	c.Briefly("%s, seekable=%v, calls %v", f.describe(), seek, sc.ops)
	if c.Idx%2 == 0 {
		// Truncation.
		var points []int
		if len(b) <= 700 {
			for i := 0; i < len(b); i++ {
				points = append(points, i)
			}
		} else {
			edges := []int{0, 4, 8, 12, 8 + len(f.Hdr), f.dataStart(), len(b)}
			for i := range f.Offs {
				e := f.dataStart() + int(f.Offs[i])
				edges = append(edges, e, e+4, e+8)
			}
			for _, e := range edges {
				for d := -2; d <= 2; d++ {
					if e+d >= 0 && e+d < len(b) {
						points = append(points, e+d)
					}
				}
			}
			if len(points) > 150 {
				r.Shuffle(len(points), func(i, j int) { points[i], points[j] = points[j], points[i] })
				points = points[:150]
			}
			for i := 0; i < 60; i++ {
				points = append(points, r.IntN(len(b)))
			}
			// Round numbers of bytes into, or before the end of, large items.
			items := [][2]int{{8, edges[4]}, {edges[4], edges[5]}}
			for i := range f.Offs {
				e := f.dataStart() + int(f.Offs[i])
				items = append(items, [2]int{e, e + len(f.Feats[i])})
			}
			for _, it := range items {
				points = append(points, roundCuts(r, it[0], it[1])...)
			}
		}
		for _, p := range points {
			src := mk(b[:p])
			src.frag = pick(r, []int{fragFull, fragFull, fragFull, fragDataEOF, fragRandom, fragRandEOF})
			src.scrib = src.r != nil && src.r.P(30)
			out := runFaulty(c, f, sc, src, seek, true, int64(p), fmt.Sprintf("stream cut at %d of %d", p, len(b)))
			c.State("truncation", out)
			c.Distinct("%s/%v/%s/cut%d", f.shape(), seek, sc.name, p)
		}
		c.Count("truncation_points", len(points))
		return
	}
	// Faults at every I/O call. First count the calls of a fault-free run.
	src := mk(b)
	frag := pick(r, []int{fragFull, fragFull, fragHalf, fragDataEOF})
	src.frag = frag
	src.scrib = src.r != nil && src.r.P(30)
	runFaulty(c, f, sc, src, seek, false, 0, "no fault")
	total := src.ops
	at := make([]int, 0, total)
	for i := 0; i < total; i++ {
		at = append(at, i)
	}
	if len(at) > 120 {
		r.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
		at = at[:120]
	} else {
		c.Count("fully_enumerated_scripts", 1)
	}
	for _, k := range at {
		for _, part := range []int{0, 1, 1 << 30} {
			src := mk(b)
			src.frag = frag
			src.scrib = src.r != nil && src.r.P(30)
			src.failAt = k
			src.failErr = pick(r, []error{errInjected, errInjected, io.ErrClosedPipe, io.ErrNoProgress, io.ErrUnexpectedEOF})
			if r.P(40) {
				// A stream may well say so when it is sent beyond its end.
				src.seekErr = io.EOF
			}
			src.failPart = part
			src.sticky = r.P(50)
			out := runFaulty(c, f, sc, src, seek, false, 0, fmt.Sprintf("I/O call %d of %d fails (%d bytes delivered at most, for good: %v)", k, total, part, src.sticky))
			c.State("fault", out)
			c.Distinct("%s/%v/%s/fault%d/%d", f.shape(), seek, sc.name, k, part)
		}
	}
	c.Count("faults_injected", 3*len(at))
}

// c13props makes every I/O call of a property list being read fail.
// c13magic cuts off, and breaks, the reading of a magic number.
func c13magic(c *C) {
	r := c.R
	base := []byte{'f', 'g', 'b', byte(r.Uint32()), 'f', 'g', 'b', byte(r.Uint32())}
	for n := 0; n <= 8; n++ {
		for frag := 0; frag < numFrags; frag++ {
			src := newSrc(base[:n])
			src.record = false
			src.r = r
			src.frag = frag
			_, err := flatgeobuf.Magic(src.stream(false, false))
			c.Check((err == nil) == (n == 8), "Magic of the first %d bytes of a magic number (delivered in %s): %v", n, fragNames[frag], err)
			c.Eval(1)
		}
	}
	for k := 0; k < 8; k++ {
		src := newSrc(base)
		src.record = false
		src.r = r
		src.frag = pick(r, []int{fragFull, fragOne, fragHalf})
		src.failAt, src.failPart, src.sticky, src.failErr = k, pick(r, []int{0, 1}), r.P(50), errInjected
		_, err := flatgeobuf.Magic(src.stream(false, false))
		if src.pos < 8 || err != nil {
			c.Check(errors.Is(err, errInjected), "Magic from a stream whose read %d fails after %d bytes: %v", k, src.pos, err)
		}
		c.Eval(1)
	}
	c.Count("magic_numbers_cut_or_broken", 17)
}

func c13props(c *C) {
	r := c.R
	cols := genCols(r, r.In(1, 20))
	schema := headerOf(encode(r, (&HdrM{Cols: some(cols), NodeSize: 16}).table()))
	b := encPairs(genPairs(r, cols, r.In(0, 12)))
	if r.P(10) {
		b = encPairs(genPairs(r, cols, 60))
	}
	frag := pick(r, []int{fragFull, fragFull, fragHalf, fragDataEOF})
	run := func(src *Src) (vals []flatgeobuf.PropValue, err error) {
		src.record = false
		src.r = r
		src.frag = frag
		mustNotPanic(c, "ReadSchema", func() {
			vals, err = flatgeobuf.NewPropReader(src.stream(false, false)).ReadSchema(schema)
		})
		c.Eval(1)
		return
	}
	src := newSrc(b)
	_, err := run(src)
	c.Check(err == nil, "ReadSchema of %d columns, %d bytes: %v", len(cols), len(b), err)
	total := src.ops
	for k := 0; k < total && k < 300; k++ {
		for _, part := range []int{0, 1, 1 << 30} {
			src := newSrc(b)
			src.failAt, src.failPart, src.sticky = k, part, r.P(50)
			src.failErr = pick(r, []error{errInjected, errInjected, io.ErrClosedPipe, io.ErrNoProgress, io.ErrUnexpectedEOF})
			vals, err := run(src)
			what := fmt.Sprintf("ReadSchema of %d columns, %d bytes, when read %d of %d fails (%d bytes delivered at most, for good: %v)", len(cols), len(b), k, total, part, src.sticky)
			if src.failed == 0 {
				c.Check(err == nil, "%s: %v", what, err)
				continue
			}
			c.Check(err != nil && err != io.EOF && len(vals) == 0, "%s: %d values, error %v", what, len(vals), err)
			c.Check(errors.Is(err, src.failErr), "%s: error %q does not wrap %q", what, err, src.failErr)
			c.State("fault", "ReadSchema")
		}
	}
	c.Count("faults_injected", 3*total)
	c.Distinct("props/%d/%d/%d", len(cols), len(b), total)
	c.Briefly("property list of %d bytes in %d reads", len(b), total)
}

// c13tree enumerates truncations and faults below the index functions.
func c13tree(c *C) {
	r := c.R
	ns := pick(r, []int{2, 3, 4, 16, 40})
	ls := genLeaves(r, r.In(1, 40))
	if c.Idx%600 == 17 {
		ls = genLeaves(r, pick(r, []int{1 << 15, 40000, 1<<16 + 1}))
	}
	idx := refIndex(ls, ns)
	q := genQueries(r, ls, 1)[0]
	if r.P(40) {
		q = Bx{-1e300, -1e300, 1e300, 1e300}
	}
	nodes, starts := refTree(ls, ns)
	want, _ := needed(nodes, starts, ns, q)
	needEnd := 40 * want[len(want)-1][1]
	c.Briefly("index of %d refs, node size %d, %d bytes, query %v", len(ls), ns, len(idx), q)
	var cuts []int
	for p := 0; p < len(idx) && len(idx) < 1<<18; p++ {
		if len(idx) > 1500 && !r.P(100*1500/len(idx)) {
			continue
		}
		cuts = append(cuts, p)
	}
	if len(idx) >= 1<<18 {
		c.Count("large_indexes_cut", 1)
		for sh := 10; 1<<sh < len(idx)/40; sh++ {
			d := 40 * (1 + r.IntN(len(idx)/40>>sh)) << sh // whole nodes
			cuts = append(cuts, d, len(idx)-d)
		}
		cuts = append(cuts, roundCuts(r, 0, len(idx))...)
	}
	for _, p := range cuts {
		src := newSrc(idx[:p])
		src.record = false
		src.r = r
		src.frag = pick(r, []int{fragFull, fragFull, fragDataEOF, fragRandom})
		src.scrib = src.r != nil && src.r.P(30)
		prt, err := packedrtree.Unmarshal(src.stream(false, false), len(ls), uint16(ns))
		c.Check(prt == nil && err != nil && err != io.EOF, "Unmarshal of an index cut at %d of %d bytes: %v, %v", p, len(idx), prt, err)
		src.pos = 0
		rs, err := packedrtree.Seek(srcRS{src}, len(ls), uint16(ns), toBox(q))
		if p < needEnd {
			c.Check(rs == nil && err != nil && err != io.EOF, "Seek in an index cut at %d of %d bytes, which needs %d: %d results, %v", p, len(idx), needEnd, len(rs), err)
		} else if err == nil {
			judgeResults(c, "Seek in cut index", rs, ls, q, true)
		}
		c.Eval(2)
		c.Distinct("tree %d/%d/cut%d", len(ls), ns, p)
		c.Count("truncation_points", 1)
	}
	for _, fn := range []string{"Unmarshal", "Seek"} {
		run := func(src *Src) (int, bool, error) {
			if fn == "Unmarshal" {
				prt, err := packedrtree.Unmarshal(src.stream(false, false), len(ls), uint16(ns))
				return 0, prt != nil, err
			}
			rs, err := packedrtree.Seek(srcRS{src}, len(ls), uint16(ns), toBox(q))
			return len(rs), rs != nil, err
		}
		src := newSrc(idx)
		frag := pick(r, []int{fragFull, fragHalf, fragDataEOF})
		src.frag = frag
		src.scrib = src.r != nil && src.r.P(30)
		_, _, err := run(src)
		c.Check(err == nil, "%s: %v", fn, err)
		total := src.ops
		for k := 0; k < total && k < 200; k++ {
			for _, part := range []int{0, 1, 1 << 30} {
				src := newSrc(idx)
				src.record = false
				src.frag = frag
				src.scrib = src.r != nil && src.r.P(30)
				src.failAt, src.failPart = k, part
				src.failErr = pick(r, []error{errInjected, errInjected, io.ErrNoProgress, io.ErrUnexpectedEOF})
				if r.P(30) {
					src.seekErr = io.EOF
				}
				src.sticky = r.P(50)
				var n int
				var got bool
				var err error
				mustNotPanic(c, fn, func() { n, got, err = run(src) })
				c.Check(!got && n == 0 && errors.Is(err, src.lastErr) && err != io.EOF, "%s: I/O call %d of %d fails (part %d), but it returned %d results (object: %v) and %v", fn, k, total, part, n, got, err)
				c.Eval(1)
				c.Distinct("tree %d/%d/%s fault%d/%d", len(ls), ns, fn, k, part)
				c.Count("faults_injected", 1)
			}
		}
	}
}
