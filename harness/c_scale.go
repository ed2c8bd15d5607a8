package main

// C30: work grows in proportion to the data.

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// scaleOp is an operation whose cost is measured. make prepares data of size
// n, and returns the operation and a description of the data. The operation
// can be repeated.
type scaleOp struct {
	name string
	n1   int  // smaller size
	k    int  // the larger size is so many times as large
	flat bool // the cost is to be all but independent of the size
	make func(c *C, r *Rng, n int) (func(), string)
}

const scaleOrders = 16

// lines of points, in various orders
func scaleRefs(r *Rng, n, order int) []packedrtree.Ref {
	stride := pick(r, []int{2, 3, 8, 16, 50, 100})
	r = newRng(r.Uint64(), "refs") // so that what is drawn next does not depend on n
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		x, y := float64(i), float64(0)
		switch order {
		case 1: // descending
			x = float64(n - i)
		case 2: // all the same
			x = 5
		case 3: // few values
			x = float64(i % 3)
		case 4:
			x, y = r.Float64(), r.Float64()
		case 5: // up and down
			x = float64(min(i, n-i))
		case 6: // two runs
			x = float64(i % (n/2 + 1))
		case 7: // nearly ascending
			x = float64(i ^ r.IntN(2))
		case 8: // every so-manieth in order
			if i%stride != 0 {
				x = float64(r.IntN(n))
			}
		case 9:
			x = float64(n - i)
			if i%stride != 0 {
				x = float64(r.IntN(n))
			}
		case 10: // most in order, the others at the end
			if i > n-n/stride {
				x = float64(r.IntN(n))
			}
		case 11:
			x = float64(n - i)
			if i > n-n/stride {
				x = float64(r.IntN(n))
			}
		case 12: // in order, the first at the end
			x = float64((i + n/2) % n)
		case 13:
			x = float64((2*n - i + n/2) % n)
		case 14: // runs, up and down
			x = float64(i % (2*stride + 1))
			if i/(2*stride+1)%2 == 1 {
				x = float64(2*stride) - x
			}
		case 15: // two interleaved
			x = float64(i / 2)
			if i%2 == 1 {
				x = float64(n) - x
			}
		}
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: x, YMin: y, XMax: x, YMax: y}, Offset: int64(24 * i)}
	}
	return refs
}

var everything = packedrtree.Box{XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)}

// scaleFile is a file of n minimal features with an index if ns > 0.
func scaleFile(r *Rng, n, ns int, count bool) []byte {
	hm := &HdrM{NodeSize: uint16(ns)}
	if count {
		hm.Count = uint64(n)
	}
	b := append(append([]byte{}, magicBytes...), encode(r, hm.table())...)
	if ns > 0 && count {
		ls := make([]Leaf, n)
		for i := range ls {
			ls[i] = Leaf{Bx{float64(i), 0, float64(i), 0}, int64(24 * i)}
		}
		b = append(b, refIndex(ls, ns)...)
	}
	x := &giantFile_{size: 24}
	for i := 0; i < n; i++ {
		b = append(b, x.feature(int64(i))...)
	}
	return b
}

// quickSrc is a stream which costs next to nothing itself.
type quickSrc struct {
	io.Reader
	step int // bytes per read
}

func (q *quickSrc) Read(p []byte) (int, error) {
	if q.step > 0 && len(p) > q.step {
		p = p[:q.step]
	}
	return q.Reader.Read(p)
}

type quickSeek struct {
	quickSrc
	io.Seeker
}

func scaleStream(b []byte, seek bool, step int) io.Reader {
	rd := bytes.NewReader(b)
	if seek {
		return &quickSeek{quickSrc{rd, step}, rd}
	}
	return &quickSrc{rd, step}
}

func opened(c *C, b []byte, seek bool, step int) *flatgeobuf.FileReader {
	rd := flatgeobuf.NewFileReader(scaleStream(b, seek, step))
	_, err := rd.Header()
	c.Check(err == nil, "Header: %v", err)
	return rd
}

func scaleTree(c *C, r *Rng, n, ns int) *packedrtree.PackedRTree {
	p, err := packedrtree.New(scaleRefs(r, n, 0), uint16(ns))
	c.Check(err == nil, "New: %v", err)
	return p
}

func pointFeats(r *Rng, n int, order int) []flat.Feature {
	refs := scaleRefs(r, n, order)
	fs := make([]flat.Feature, n)
	for i := range fs {
		fm := &FeatM{Props: some(le(4, uint64(i))), Geom: &GeomM{Type: 1, XY: some([]float64{refs[i].XMin, refs[i].YMin})}}
		fs[i] = *featureOf(encode(r, fm.T()))
	}
	return fs
}

func scaleCols(n int, typ uint8, long bool) []*ColM {
	cs := make([]*ColM, n)
	for i := range cs {
		cs[i] = &ColM{Name: some([]byte(fmt.Sprintf("column%d", i))), Type: typ}
		if long {
			cs[i].Title = some([]byte(fmt.Sprintf("title of %d", i)))
		}
	}
	return cs
}

// scaleProps is a list of n properties of nc columns.
func scaleProps(n, nc int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(append(b, le(2, uint64(i%nc))...), le(4, uint64(i&0x7f))...)
	}
	return b
}

const colUInt = 6

func someNodeSize(r *Rng) int { return pick(r, []int{2, 4, 16, 16, 300}) }

var scaleOps []scaleOp

func init() {
	add := func(name string, n1, k int, f func(c *C, r *Rng, n int) (func(), string)) {
		scaleOps = append(scaleOps, scaleOp{name, n1, k, false, f})
	}
	level := func(name string, n1, k int, f func(c *C, r *Rng, n int) (func(), string)) {
		scaleOps = append(scaleOps, scaleOp{name, n1, k, true, f})
	}
	for o := 0; o < scaleOrders; o++ {
		o := o
		add(fmt.Sprintf("HilbertSort, order %d", o), 4000, 64, func(c *C, r *Rng, n int) (func(), string) {
			refs := scaleRefs(r, n, o)
			b := packedrtree.EmptyBox
			for i := range refs {
				b.Expand(&refs[i].Box)
			}
			tmp := make([]packedrtree.Ref, n)
			return func() {
				copy(tmp, refs)
				packedrtree.HilbertSort(tmp, b)
			}, fmt.Sprintf("order %d", o)
		})
	}
	add("New", 4000, 64, func(c *C, r *Rng, n int) (func(), string) {
		refs, ns := scaleRefs(r, n, r.IntN(scaleOrders)), someNodeSize(r)
		return func() {
			_, err := packedrtree.New(refs, uint16(ns))
			c.Check(err == nil, "New: %v", err)
		}, fmt.Sprintf("node size %d", ns)
	})
	add("Search of everything", 4000, 64, func(c *C, r *Rng, n int) (func(), string) {
		ns := someNodeSize(r)
		p := scaleTree(c, r, n, ns)
		return func() { c.Check(len(p.Search(everything)) == n, "Search of everything in %d references", n) }, fmt.Sprintf("node size %d", ns)
	})
	level("Search for one", 16000, 64, func(c *C, r *Rng, n int) (func(), string) {
		ns := pick(r, []int{4, 16, 40})
		p := scaleTree(c, r, n, ns)
		return func() {
			for i := 0; i < 100; i++ {
				x := float64((i*7919 + 13) % n)
				c.Check(len(p.Search(packedrtree.Box{XMin: x, XMax: x})) == 1, "Search for one in %d references", n)
			}
		}, fmt.Sprintf("node size %d", ns)
	})
	add("Marshal", 4000, 64, func(c *C, r *Rng, n int) (func(), string) {
		ns := someNodeSize(r)
		p := scaleTree(c, r, n, ns)
		return func() {
			_, err := p.Marshal(io.Discard)
			c.Check(err == nil, "Marshal: %v", err)
		}, fmt.Sprintf("node size %d", ns)
	})
	index := func(c *C, r *Rng, n, ns int) []byte {
		var b bytes.Buffer
		_, err := scaleTree(c, r, n, ns).Marshal(&b)
		c.Check(err == nil, "Marshal: %v", err)
		return b.Bytes()
	}
	add("Unmarshal", 4000, 64, func(c *C, r *Rng, n int) (func(), string) {
		ns, step := someNodeSize(r), pick(r, []int{0, 0, 100, 7})
		b := index(c, r, n, ns)
		return func() {
			_, err := packedrtree.Unmarshal(scaleStream(b, false, step), n, uint16(ns))
			c.Check(err == nil, "Unmarshal: %v", err)
		}, fmt.Sprintf("node size %d, %d bytes per read", ns, step)
	})
	add("Seek for everything", 2000, 64, func(c *C, r *Rng, n int) (func(), string) {
		ns := someNodeSize(r)
		b := index(c, r, n, ns)
		return func() {
			rs, err := packedrtree.Seek(bytes.NewReader(b), n, uint16(ns), everything)
			c.Check(err == nil && len(rs) == n, "Seek: %d, %v", len(rs), err)
		}, fmt.Sprintf("node size %d", ns)
	})
	level("Seek for one", 8000, 64, func(c *C, r *Rng, n int) (func(), string) {
		ns := pick(r, []int{4, 16, 40})
		b := index(c, r, n, ns)
		return func() {
			for i := 0; i < 100; i++ {
				x := float64((i*7919 + 13) % n)
				rs, err := packedrtree.Seek(bytes.NewReader(b), n, uint16(ns), packedrtree.Box{XMin: x, XMax: x})
				c.Check(err == nil && len(rs) == 1, "Seek: %d, %v", len(rs), err)
			}
		}, fmt.Sprintf("node size %d", ns)
	})
	add("sort of results", 4000, 64, func(c *C, r *Rng, n int) (func(), string) {
		p := scaleTree(c, r, n, 16)
		return func() {
			var t packedrtree.Results = p.Search(everything)
			r.Shuffle(len(t), t.Swap)
			sort.Sort(t)
		}, "line"
	})
	add("Bounds and String of an index", 4000, 64, func(c *C, r *Rng, n int) (func(), string) {
		p := scaleTree(c, r, n, 16)
		return func() {
			for i := 0; i < 100; i++ {
				_ = p.Bounds()
				_ = p.String()
			}
		}, "line"
	})

	// Files
	add("Data of one feature at a time", 2000, 64, func(c *C, r *Rng, n int) (func(), string) {
		ns, count, seek, step := pick(r, []int{0, 16}), r.P(70), r.P(50), pick(r, []int{0, 0, 5})
		b := scaleFile(r, n, ns, count)
		return func() {
			rd := opened(c, b, seek, step)
			p := make([]flat.Feature, 1)
			for i := 0; i < n; i++ {
				m, err := rd.Data(p)
				c.Check(m == 1 && (err == nil || err == io.EOF), "Data %d: %d, %v", i, m, err)
			}
		}, fmt.Sprintf("node size %d, count %v, seekable %v, %d bytes per read", ns, count, seek, step)
	})
	add("Data of all features", 2000, 64, func(c *C, r *Rng, n int) (func(), string) {
		ns, count, seek := pick(r, []int{0, 16}), r.P(70), r.P(50)
		b := scaleFile(r, n, ns, count)
		return func() {
			p := make([]flat.Feature, n+1)
			m, err := opened(c, b, seek, 0).Data(p)
			c.Check(m == n && err == io.EOF, "Data: %d, %v", m, err)
		}, fmt.Sprintf("node size %d, count %v, seekable %v", ns, count, seek)
	})
	add("DataRem", 4000, 64, func(c *C, r *Rng, n int) (func(), string) {
		ns, count, seek := pick(r, []int{0, 16}), r.P(50), r.P(50)
		b := scaleFile(r, n, ns, count)
		return func() {
			p, err := opened(c, b, seek, 0).DataRem()
			c.Check(len(p) == n && err == nil, "DataRem: %d, %v", len(p), err)
		}, fmt.Sprintf("node size %d, count %v, seekable %v", ns, count, seek)
	})
	add("Index", 4000, 64, func(c *C, r *Rng, n int) (func(), string) {
		b, step := scaleFile(r, n, 16, true), pick(r, []int{0, 100, 7})
		return func() {
			_, err := opened(c, b, r.P(50), step).Index()
			c.Check(err == nil, "Index: %v", err)
		}, fmt.Sprintf("%d bytes per read", step)
	})
	add("IndexSearch for everything", 2000, 64, func(c *C, r *Rng, n int) (func(), string) {
		seek, ns, cached := r.P(70), someNodeSize(r), r.P(40)
		b := scaleFile(r, n, ns, true)
		if !seek {
			cached = false
		}
		return func() {
			rd := opened(c, b, seek, 0)
			if cached {
				_, err := rd.Index()
				c.Check(err == nil, "Index: %v", err)
				c.Check(rd.Rewind() == nil, "Rewind failed")
			}
			p, err := rd.IndexSearch(everything)
			c.Check(len(p) == n && err == nil, "IndexSearch: %d, %v", len(p), err)
		}, fmt.Sprintf("node size %d, seekable %v, loaded %v", ns, seek, cached)
	})
	level("IndexSearch for one", 8000, 64, func(c *C, r *Rng, n int) (func(), string) {
		ns, cached := pick(r, []int{4, 16, 40}), r.P(50)
		rd := opened(c, scaleFile(r, n, ns, true), true, 0)
		if cached {
			_, err := rd.Index()
			c.Check(err == nil, "Index: %v", err)
			c.Check(rd.Rewind() == nil, "Rewind failed")
		}
		return func() {
			for i := 0; i < 50; i++ {
				x := float64((i*7919 + 13) % n)
				p, err := rd.IndexSearch(packedrtree.Box{XMin: x, XMax: x})
				c.Check(len(p) == 1 && err == nil, "IndexSearch: %d, %v", len(p), err)
				c.Check(rd.Rewind() == nil, "Rewind failed")
			}
		}, fmt.Sprintf("node size %d, loaded %v", ns, cached)
	})
	level("Header, Rewind and Data of a few", 8000, 64, func(c *C, r *Rng, n int) (func(), string) {
		b := scaleFile(r, n, 16, true)
		return func() {
			for i := 0; i < 10; i++ {
				rd := opened(c, b, true, 0)
				for j := 0; j < 5; j++ {
					m, err := rd.Data(make([]flat.Feature, 3))
					c.Check(m == 3 && err == nil, "Data: %d, %v", m, err)
					c.Check(rd.Rewind() == nil, "Rewind failed")
				}
				c.Check(rd.Close() == nil, "Close failed")
			}
		}, "node size 16"
	})
	add("n searches of one reader", 300, 64, func(c *C, r *Rng, n int) (func(), string) {
		cached := r.P(50)
		b := scaleFile(r, 1000, 16, true)
		return func() {
			rd := opened(c, b, true, 0)
			for i := 0; i < n; i++ {
				if cached && i == 0 {
					_, err := rd.Index()
					c.Check(err == nil, "Index: %v", err)
				} else {
					x := float64(i%1500) / 1.5
					_, err := rd.IndexSearch(packedrtree.Box{XMin: x, XMax: x + 1})
					c.Check(err == nil, "IndexSearch: %v", err)
				}
				c.Check(rd.Rewind() == nil, "Rewind failed")
			}
		}, fmt.Sprintf("loaded %v", cached)
	})
	add("n passes of one reader", 300, 64, func(c *C, r *Rng, n int) (func(), string) {
		b := scaleFile(r, 20, pick(r, []int{0, 16}), true)
		return func() {
			rd := opened(c, b, true, 0)
			for i := 0; i < n; i++ {
				p, err := rd.DataRem()
				c.Check(len(p) == 20 && err == nil, "DataRem: %d, %v", len(p), err)
				c.Check(rd.Rewind() == nil, "Rewind failed")
			}
		}, "20 features"
	})
	add("n searches of one index", 1000, 64, func(c *C, r *Rng, n int) (func(), string) {
		p := scaleTree(c, r, 1000, 16)
		return func() {
			for i := 0; i < n; i++ {
				x := float64(i%50000) / 50
				_ = p.Search(packedrtree.Box{XMin: x, XMax: x + 1})
			}
		}, "1000 references"
	})
	add("one feature of n bytes", 16<<10, 64, func(c *C, r *Rng, n int) (func(), string) {
		step := pick(r, []int{0, 512, 100})
		b := scaleFile(r, 0, 0, false)
		b = append(b, (&giantFile_{size: int64(n)}).feature(0)...)
		return func() {
			p, err := opened(c, b, false, step).DataRem()
			c.Check(len(p) == 1 && err == nil, "DataRem: %d, %v", len(p), err)
		}, fmt.Sprintf("%d bytes per read", step)
	})
	add("a header of n bytes", 16<<10, 64, func(c *C, r *Rng, n int) (func(), string) {
		step := pick(r, []int{0, 512, 100})
		hm := &HdrM{Name: some(bytes.Repeat([]byte("x"), n))}
		b := append(append([]byte{}, magicBytes...), encode(r, hm.table())...)
		return func() { opened(c, b, false, step) }, fmt.Sprintf("%d bytes per read", step)
	})
	add("skipping n bytes between two results", 16<<10, 64, func(c *C, r *Rng, n int) (func(), string) {
		step := pick(r, []int{0, 512, 100})
		hm := &HdrM{Count: 3, NodeSize: 16}
		b := append(append([]byte{}, magicBytes...), encode(r, hm.table())...)
		ls := []Leaf{{Bx{0, 0, 0, 0}, 0}, {Bx{1, 0, 1, 0}, 24}, {Bx{2, 0, 2, 0}, int64(24 + n)}}
		b = append(b, refIndex(ls, 16)...)
		b = append(b, (&giantFile_{size: 24}).feature(0)...)
		b = append(b, (&giantFile_{size: int64(n)}).feature(1)...)
		b = append(b, (&giantFile_{size: 24}).feature(2)...)
		return func() {
			p, err := opened(c, b, false, step).IndexSearch(packedrtree.Box{XMin: 2, XMax: 2})
			c.Check(len(p) == 1 && err == nil, "IndexSearch: %d, %v", len(p), err)
		}, fmt.Sprintf("%d bytes per read", step)
	})

	// Writing
	writer := func(c *C, r *Rng, n, ns int) *flatgeobuf.FileWriter {
		w := flatgeobuf.NewFileWriter(io.Discard)
		_, err := w.Header(headerOf(encode(r, (&HdrM{Count: uint64(n), NodeSize: uint16(ns)}).table())))
		c.Check(err == nil, "Header: %v", err)
		return w
	}
	add("writing features one by one", 2000, 64, func(c *C, r *Rng, n int) (func(), string) {
		fs := pointFeats(r, n, 0)
		return func() {
			w := writer(c, r, n, 0)
			for i := range fs {
				_, err := w.Data(&fs[i])
				c.Check(err == nil, "Data: %v", err)
			}
			c.Check(w.Close() == nil, "Close failed")
		}, "points"
	})
	add("IndexData", 2000, 64, func(c *C, r *Rng, n int) (func(), string) {
		o, ns := r.IntN(scaleOrders), someNodeSize(r)
		fs := pointFeats(r, n, o)
		return func() {
			_, err := writer(c, r, n, ns).IndexData(fs)
			c.Check(err == nil, "IndexData: %v", err)
		}, fmt.Sprintf("order %d, node size %d", o, ns)
	})
	add("IndexDataPtr", 2000, 64, func(c *C, r *Rng, n int) (func(), string) {
		o, ns := r.IntN(scaleOrders), someNodeSize(r)
		fs := pointFeats(r, n, o)
		ps := make([]*flat.Feature, n)
		for i := range ps {
			ps[i] = &fs[i]
			if o == 2 {
				ps[i] = &fs[0]
			}
		}
		return func() {
			_, err := writer(c, r, n, ns).IndexDataPtr(ps)
			c.Check(err == nil, "IndexDataPtr: %v", err)
		}, fmt.Sprintf("order %d, node size %d", o, ns)
	})
	geom := map[string]func(r *Rng, n int) *GeomM{
		"points": func(r *Rng, n int) *GeomM {
			return &GeomM{Type: 2, XY: some(make([]float64, 2*n))}
		},
		"parts": func(r *Rng, n int) *GeomM {
			ps := make([]*GeomM, n)
			for i := range ps {
				ps[i] = &GeomM{Type: 1, XY: some([]float64{float64(i), 1})}
			}
			return &GeomM{Type: 7, Parts: some(ps)}
		},
		"parts within parts": func(r *Rng, n int) *GeomM {
			g := &GeomM{Type: 1, XY: some([]float64{1, 2})}
			for i := 0; i < n/64; i++ {
				g = &GeomM{Type: 7, Parts: some([]*GeomM{g, {Type: 1, XY: some([]float64{float64(i), 2})}})}
			}
			return g
		},
	}
	for _, kind := range []string{"points", "parts", "parts within parts"} {
		kind := kind
		add("bounds of a geometry of "+kind, 1000, 32, func(c *C, r *Rng, n int) (func(), string) {
			f := featureOf(encode(r, (&FeatM{Geom: geom[kind](r, n)}).T()))
			return func() {
				_, err := writer(c, r, 1, 2).IndexDataPtr([]*flat.Feature{f})
				c.Check(err == nil, "IndexDataPtr: %v", err)
			}, kind
		})
		add("text of a geometry of "+kind, 1000, 32, func(c *C, r *Rng, n int) (func(), string) {
			f := featureOf(encode(r, (&FeatM{Geom: geom[kind](r, n)}).T()))
			return func() { _ = flatgeobuf.FeatureString(f, nil) }, kind
		})
	}

	// Properties
	add("writing n properties", 4000, 64, func(c *C, r *Rng, n int) (func(), string) {
		return func() {
			w := flatgeobuf.NewPropWriter(io.Discard)
			for i := 0; i < n; i++ {
				_, err := w.WriteUShort(uint16(i))
				c.Check(err == nil, "WriteUShort: %v", err)
				_, err = w.WriteString("abc")
				c.Check(err == nil, "WriteString: %v", err)
			}
		}, "numbers and strings"
	})
	add("reading n properties", 4000, 64, func(c *C, r *Rng, n int) (func(), string) {
		one := append([]byte{1, 2}, 3, 0, 0, 0, 'a', 'b', 'c')
		b := bytes.Repeat(one, n)
		return func() {
			rd := flatgeobuf.NewPropReader(bytes.NewReader(b))
			for i := 0; i < n; i++ {
				_, err := rd.ReadUShort()
				c.Check(err == nil, "ReadUShort: %v", err)
				_, err = rd.ReadString()
				c.Check(err == nil, "ReadString: %v", err)
			}
		}, "numbers and strings"
	})
	add("a string of n bytes", 16<<10, 64, func(c *C, r *Rng, n int) (func(), string) {
		s := strings.Repeat("x", n)
		b := append(le(4, uint64(n)), s...)
		step := pick(r, []int{0, 512, 100})
		return func() {
			_, err := flatgeobuf.NewPropWriter(io.Discard).WriteString(s)
			c.Check(err == nil, "WriteString: %v", err)
			got, err := flatgeobuf.NewPropReader(scaleStream(b, false, step)).ReadString()
			c.Check(err == nil && len(got) == n, "ReadString: %v", err)
			raw, err := flatgeobuf.NewPropReader(scaleStream(b, false, step)).ReadBinary()
			c.Check(err == nil && len(raw) == n, "ReadBinary: %v", err)
		}, fmt.Sprintf("%d bytes per read", step)
	})
	for _, few := range []bool{true, false} {
		few := few
		what := "as many columns as properties"
		if few {
			what = "few columns"
		}
		// A feature with n properties, or n/16 of as many columns.
		pairs := func(r *Rng, n int) (*flat.Header, []byte) {
			nc := 5
			if !few {
				nc = n
			}
			return headerOf(encode(r, (&HdrM{Cols: some(scaleCols(nc, colUInt, r.P(50)))}).table())), scaleProps(n, nc)
		}
		add("ReadSchema of n properties, "+what, 1000, 64, func(c *C, r *Rng, n int) (func(), string) {
			h, b := pairs(r, n)
			return func() {
				v, err := flatgeobuf.NewPropReader(bytes.NewReader(b)).ReadSchema(h)
				c.Check(err == nil && len(v) == n, "ReadSchema: %d, %v", len(v), err)
			}, what
		})
		add("text of n properties, "+what, 1000, 64, func(c *C, r *Rng, n int) (func(), string) {
			h, b := pairs(r, n)
			f := featureOf(encode(r, (&FeatM{Props: some(b)}).T()))
			return func() {
				if s := flatgeobuf.FeatureString(f, h); len(s) < n {
					c.Failf("FeatureString of %d properties: %s", n, clipS(s, 200))
				}
			}, what
		})
	}
	add("text of n columns", 1000, 64, func(c *C, r *Rng, n int) (func(), string) {
		h := headerOf(encode(r, (&HdrM{Cols: some(scaleCols(n, colUInt, true))}).table()))
		return func() { _ = flatgeobuf.HeaderString(h) }, "columns"
	})
}

func init() {
	register(&Prop{ID: "C30", Quick: 3 * (len(scaleOps) + len(kept)), Thorough: 40 * (len(scaleOps) + len(kept)),
		Rule: "every operation on two sizes of the same kind of data, one 32 or 64 times the other, in several orders of the input and deliveries of the stream; processor time and memory allocated compared, repeated before judged; memory in use before and after 20000 calls that leave nothing behind; distinct by (operation, kind of data, sizes)",
		Run:  c30})
}

// cost is the least processor time run has taken, of several times.
func cost(run func()) (best time.Duration, bytes uint64) {
	best = math.MaxInt64
	var spent time.Duration
	for rep := 0; rep < 3; rep++ {
		runs := 0
		a0 := allocated()
		t0 := processCPU()
		for {
			run()
			runs++
			if d := processCPU() - t0; d > 8*time.Millisecond || runs == 100000 {
				spent += d
				if d /= time.Duration(runs); d < best {
					best = d
				}
				break
			}
		}
		b := (allocated() - a0) / uint64(runs)
		if rep == 0 || b < bytes {
			bytes = b
		}
		if spent > 3*time.Second {
			break
		}
	}
	return
}

// kept are operations after which nothing has to be remembered: n of them, on
// things which stay in use.
var kept = []struct {
	name string
	make func(c *C, r *Rng) func(i int)
}{
	{"searches of an index", func(c *C, r *Rng) func(int) {
		p := scaleTree(c, r, 2000, 16)
		return func(i int) {
			x := float64(i%14000) / 7
			_ = p.Search(packedrtree.Box{XMin: x, XMax: x + float64(i%5)})
			_ = p.Bounds()
		}
	}},
	{"serializations and texts of an index", func(c *C, r *Rng) func(int) {
		p := scaleTree(c, r, 200, 16)
		return func(int) {
			_, _ = p.Marshal(io.Discard)
			_ = p.String()
		}
	}},
	{"streaming searches", func(c *C, r *Rng) func(int) {
		var b bytes.Buffer
		_, err := scaleTree(c, r, 2000, 16).Marshal(&b)
		c.Check(err == nil, "Marshal: %v", err)
		return func(i int) {
			x := float64(i%14000) / 7
			_, err := packedrtree.Seek(bytes.NewReader(b.Bytes()), 2000, 16, packedrtree.Box{XMin: x, XMax: x + 1})
			c.Check(err == nil, "Seek: %v", err)
		}
	}},
	{"indexes made and read", func(c *C, r *Rng) func(int) {
		refs := scaleRefs(r, 300, 4)
		return func(i int) {
			packedrtree.HilbertSort(refs, packedrtree.Box{XMax: 1, YMax: 1})
			p, err := packedrtree.New(refs[:1+i%300], uint16(2+i%700))
			c.Check(err == nil, "New: %v", err)
			var b bytes.Buffer
			_, _ = p.Marshal(&b)
			_, err = packedrtree.Unmarshal(&b, 1+i%300, uint16(2+i%700))
			c.Check(err == nil, "Unmarshal: %v", err)
			_, _ = packedrtree.Size(i+1, uint16(2+i%700))
		}
	}},
	{"searches of a reader", func(c *C, r *Rng) func(int) {
		rd := opened(c, scaleFile(r, 1000, 16, true), true, 0)
		if r.P(50) {
			_, err := rd.Index()
			c.Check(err == nil && rd.Rewind() == nil, "Index: %v", err)
		}
		return func(i int) {
			x := float64(i%7000) / 7
			_, err := rd.IndexSearch(packedrtree.Box{XMin: x, XMax: x + 1})
			c.Check(err == nil && rd.Rewind() == nil, "IndexSearch: %v", err)
		}
	}},
	{"passes of a reader", func(c *C, r *Rng) func(int) {
		rd := opened(c, scaleFile(r, 30, pick(r, []int{0, 16}), true), true, 0)
		return func(i int) {
			_, err := rd.DataRem()
			c.Check(err == nil && rd.Rewind() == nil, "DataRem: %v", err)
		}
	}},
	{"features read from a stream without end", func(c *C, r *Rng) func(int) {
		hm := &HdrM{NodeSize: 0}
		head := append(append([]byte{}, magicBytes...), encode(r, hm.table())...)
		rd := flatgeobuf.NewFileReader(io.MultiReader(bytes.NewReader(head), &endless{b: (&giantFile_{size: 400}).feature(5)}))
		_, err := rd.Header()
		c.Check(err == nil, "Header: %v", err)
		p := make([]flat.Feature, 1)
		return func(i int) {
			m, err := rd.Data(p)
			c.Check(m == 1 && err == nil, "Data: %d, %v", m, err)
		}
	}},
	{"features written", func(c *C, r *Rng) func(int) {
		w := flatgeobuf.NewFileWriter(io.Discard)
		_, err := w.Header(headerOf(encode(r, (&HdrM{NodeSize: 0}).table())))
		c.Check(err == nil, "Header: %v", err)
		return func(i int) {
			_, err := w.Data(featureOf((&giantFile_{size: 400}).feature(int64(i))))
			c.Check(err == nil, "Data: %v", err)
		}
	}},
	{"readers and writers opened and closed", func(c *C, r *Rng) func(int) {
		b := scaleFile(r, 30, 16, true)
		h := encode(r, (&HdrM{Count: 3, NodeSize: 16}).table())
		fs := pointFeats(r, 3, 0)
		return func(i int) {
			rd := opened(c, b, i%2 == 0, 0)
			_, err := rd.IndexSearch(everything)
			c.Check(err == nil, "IndexSearch: %v", err)
			if i%3 == 0 {
				c.Check(rd.Close() == nil, "Close failed")
			}
			w := flatgeobuf.NewFileWriter(io.Discard)
			_, _ = w.Header(headerOf(h))
			_, err = w.IndexData(fs)
			c.Check(err == nil, "IndexData: %v", err)
			if i%3 == 0 {
				c.Check(w.Close() == nil, "Close failed")
			}
		}
	}},
	{"properties", func(c *C, r *Rng) func(int) {
		h := headerOf(encode(r, (&HdrM{Cols: some(scaleCols(9, colUInt, false))}).table()))
		b := scaleProps(30, 9)
		w := flatgeobuf.NewPropWriter(io.Discard)
		str := append(le(4, 300), make([]byte, 300)...)
		rd := flatgeobuf.NewPropReader(&endless{b: str})
		return func(i int) {
			_, err := flatgeobuf.NewPropReader(bytes.NewReader(b)).ReadSchema(h)
			c.Check(err == nil, "ReadSchema: %v", err)
			_, err = w.WriteString(fmt.Sprintf("string %d", i))
			c.Check(err == nil, "WriteString: %v", err)
			_, err = rd.ReadString()
			c.Check(err == nil, "ReadString: %v", err)
		}
	}},
	{"texts of headers and features", func(c *C, r *Rng) func(int) {
		return func(i int) {
			hm := &HdrM{Cols: some(scaleCols(3, colUInt, false)), Name: some([]byte(fmt.Sprintf("name %d", i)))}
			h := headerOf(encode(r, hm.table()))
			_ = flatgeobuf.HeaderString(h)
			f := featureOf(encode(r, (&FeatM{Props: some(scaleProps(5, 3)), Geom: &GeomM{Type: 2, XY: some(make([]float64, 30))}}).T()))
			_ = flatgeobuf.FeatureString(f, h)
		}
	}},
	{"calls which fail", func(c *C, r *Rng) func(int) {
		b := scaleFile(r, 30, 16, true)
		return func(i int) {
			rd := flatgeobuf.NewFileReader(scaleStream(b[:i%len(b)], i%2 == 0, 0))
			_, err := rd.Header()
			if err == nil {
				_, _ = rd.IndexSearch(everything)
			}
			_, err = packedrtree.Unmarshal(bytes.NewReader(b[:i%len(b)]), 1000, 16)
			c.Check(err != nil, "Unmarshal of too few bytes: %v", err)
		}
	}},
}

// endless is a stream of the same bytes again and again.
type endless struct {
	b []byte
	n int
}

func (e *endless) Read(p []byte) (int, error) {
	n := copy(p, e.b[e.n:])
	e.n = (e.n + n) % len(e.b)
	return n, nil
}

// live is the memory in use.
func live() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc + m.StackInuse
}

func c30kept(c *C, i int) {
	k := kept[i]
	f := k.make(c, c.R)
	c.Briefly("memory kept after %s", k.name)
	const n = 20000
	i = 0
	for ; i < n/4; i++ {
		f(i)
	}
	var a, b uint64
	for try := 0; try < 3; try++ {
		a = live()
		for j := 0; j < n; j++ {
			f(i)
			i++
		}
		b = live()
		c.Eval(1)
		if b < a+n*3 { // less than a pointer each
			runtime.KeepAlive(f)
			c.State("memory kept", k.name)
			c.Count("histories_of_20000_calls", 1)
			c.Distinct("kept/%s", k.name)
			return
		}
	}
	runtime.KeepAlive(f)
	c.Failf("%d more %s keep %d bytes more in use", n, k.name, b-a)
}

func c30(c *C) {
	if i := c.Idx % (len(scaleOps) + len(kept)); i >= len(scaleOps) {
		c30kept(c, i-len(scaleOps))
		return
	}
	op := &scaleOps[c.Idx%(len(scaleOps)+len(kept))]
	seed := c.R.Uint64()
	// The smaller step first, lest what grows too fast takes forever.
	if op.k > 8 && !op.flat {
		c.scale(op, 8, seed)
	}
	c.scale(op, op.k, seed)
	debug.FreeOSMemory()
}

func (c *C) scale(op *scaleOp, k int, seed uint64) {
	n1, n2 := op.n1, op.n1*k
	run1, kind := op.make(c, newRng(seed, "scale"), n1)
	run2, kind2 := op.make(c, newRng(seed, "scale"), n2)
	c.Check(kind == kind2, "harness: %s and %s", kind, kind2)
	c.Briefly("%s (%s): sizes %d and %d", op.name, kind, n1, n2)
	runtime.GC()
	run1()
	run2()
	limit, floor := 6*time.Duration(k), 5*time.Millisecond
	memLimit := uint64(8 * k)
	if op.flat {
		limit, memLimit = time.Duration(k)/4, uint64(k)/4
		floor = time.Millisecond
	}
	var t1, t2 time.Duration
	var a1, a2 uint64
	for try := 0; try < 5; try++ {
		t1, a1 = cost(run1)
		t2, a2 = cost(run2)
		c.Eval(1)
		if a2 > memLimit*a1+256<<10 {
			c.Failf("%s (%s) allocates %d bytes for size %d, and %d bytes for size %d", op.name, kind, a1, n1, a2, n2)
		}
		if t2 <= limit*t1+5*time.Duration(a2) || t2 < floor { // memory costs time, the more the less of it is cached
			if t1 > 0 {
				c.State("growth", fmt.Sprintf("%s: x%d size, x%.1f time, x%.1f memory", op.name, k, float64(t2)/float64(t1), float64(a2)/float64(max(a1, 1))))
			}
			c.Distinct("%s/%s/%d", op.name, kind, n1)
			c.Count("operations_compared", 1)
			return
		}
		c.Count("comparisons_repeated", 1)
		if try >= 1 && t2 > 4*(limit*t1+5*time.Duration(a2)) && t2 > time.Second {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	c.Failf("%s (%s) takes %v for size %d, and %v for size %d", op.name, kind, t1, n1, t2, n2)
}
