package main

// C26: memory safety of the code which uses package unsafe.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"runtime"
	"unsafe"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Prop{ID: "C26", Quick: 2400, Thorough: 40000,
		Rule: "index serialization and deserialization of all shapes, streaming search, string and binary properties of all lengths and tables, through streams that touch every byte they are handed and scribble over unused buffer space, with the inputs in read-only memory next to inaccessible pages, failing and truncated streams, and garbage collections in between; run with the compiler's pointer checks and under AddressSanitizer; returned strings and slices re-read later; distinct by (kind, sizes)",
		Run:  c26})
}

// touchW reads every byte it is given, and checks the length.
type touchW struct {
	got    []byte
	failAt int // bytes after which it fails, or -1
}

func (t *touchW) Write(p []byte) (int, error) {
	n := len(p)
	if t.failAt >= 0 && len(t.got)+n > t.failAt {
		n = t.failAt - len(t.got)
	}
	// The memory beyond the length is somebody else's.
	t.got = append(t.got, p[:n]...)
	if n < len(p) {
		return n, errInjected
	}
	return n, nil
}

// scribR overwrites the whole buffer it is given, whatever it delivers.
type scribR struct {
	b     []byte
	pos   int64
	r     *Rng
	whole bool
}

func (s *scribR) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0xEE
	}
	if s.pos >= int64(len(s.b)) {
		return 0, io.EOF
	}
	n := len(p)
	if !s.whole && n > 1 {
		n = 1 + s.r.IntN(n)
	}
	n = copy(p[:n], s.b[s.pos:])
	s.pos += int64(n)
	return n, nil
}

func (s *scribR) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.b))
	}
	if off < 0 {
		return 0, errInjected
	}
	s.pos = off
	return off, nil
}

// tolerate runs a workload for the sanitizers to watch: what it computes is
// judged elsewhere.
func tolerate(c *C, f func()) {
	defer func() {
		if e := recover(); e != nil {
			c.Count("workloads_with_functional_differences", 1)
		}
	}()
	f()
}

func c26(c *C) {
	switch c.Idx % 8 {
	case 0, 1:
		c26tree(c)
	case 2, 3:
		c26strings(c)
	case 4:
		c26tables(c)
	case 5:
		sub := *c
		sub.Idx = c.Idx / 8
		tolerate(c, func() { c04(&sub) })
	case 6:
		sub := *c
		sub.Idx = c.Idx / 8
		tolerate(c, func() { c20index(&sub) })
		tolerate(c, func() { c20props(&sub) })
	default:
		sub := *c
		sub.Idx = c.Idx / 8
		tolerate(c, func() { c16marshal(&sub) })
		tolerate(c, func() { c16props(&sub) })
		tolerate(c, func() { c10(&sub) })
	}
	if c.Idx%16 == 9 {
		runtime.GC()
	}
}

// overlaps tells whether two slices share memory.
func overlaps(a, b []byte) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	x, y := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return x < y+uintptr(len(b)) && y < x+uintptr(len(a))
}

func c26tree(c *C) {
	r := c.R
	ls, ns := genIndexCase(c, 4000)
	want := refIndex(ls, ns)
	what := fmt.Sprintf("index of %d refs, node size %d", len(ls), ns)
	c.Briefly("%s", what)
	c.Distinct("tree %d %d", len(ls), ns)
	var trees []*packedrtree.PackedRTree
	t, err := packedrtree.New(toRefs(ls), uint16(ns))
	if err == nil {
		trees = append(trees, t)
	}
	view, free := guarded(want, r.P(50))
	defer free()
	t, err = packedrtree.Unmarshal(&scribR{b: view, r: r, whole: r.P(50)}, len(ls), uint16(ns))
	if err == nil {
		trees = append(trees, t)
	}
	// Garbage collection in between finds pointers which should not be.
	if r.P(20) {
		runtime.GC()
	}
	for i, t := range trees {
		w := &touchW{failAt: -1}
		n, err := t.Marshal(w)
		// Exactly the nodes are handed out: a longer slice would expose memory
		// behind them.
		c.Check(err != nil || n <= len(want) && len(w.got) <= len(want), "Marshal of an %s handed out %d bytes, the index has %d", what, len(w.got), len(want))
		if i == 1 && err == nil && len(w.got) == len(want) {
			// What was read from the stream is what is there, in spite of the
			// reader's scribbling.
			c.Check(bytes.Equal(w.got, want), "an %s unmarshalled from a stream that overwrites unused buffer space differs at byte %d", what, firstDiff(w.got, want))
		}
		w = &touchW{failAt: r.IntN(len(want) + 1)}
		_, _ = t.Marshal(w)
		c.Eval(2)
		for _, q := range genQueries(r, ls, 3) {
			tolerate(c, func() { _ = t.Search(toBox(q)) })
		}
	}
	// Truncated.
	cut := want[:r.IntN(len(want))]
	view2, free2 := guarded(cut, false)
	defer free2()
	t, err = packedrtree.Unmarshal(&scribR{b: view2, r: r}, len(ls), uint16(ns))
	c.Check(err != nil && t == nil, "an %s cut at byte %d of %d was accepted: it exposes memory which was never read", what, len(cut), len(want))
	// Streaming, with results that must survive the reuse of buffers.
	var all []packedrtree.Results
	var keep []string
	for _, q := range genQueries(r, ls, 4) {
		rs, err := packedrtree.Seek(&scribR{b: view, r: r, whole: r.P(50)}, len(ls), uint16(ns), toBox(q))
		if err == nil {
			all = append(all, rs)
			keep = append(keep, fmt.Sprint(rs))
		}
		_, _ = packedrtree.Seek(&scribR{b: view2, r: r}, len(ls), uint16(ns), toBox(q))
		c.Eval(2)
	}
	for i := range all {
		c.Check(fmt.Sprint(all[i]) == keep[i], "results of a streaming search changed later")
	}
	c.Count("nodes", len(want)/40)
}

func c26strings(c *C) {
	r := c.R
	// Write strings and binaries which lie at the edge of accessible memory.
	var vs []PVal
	k := r.In(1, 30)
	for i := 0; i < k; i++ {
		n := pick(r, []int{0, 0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, r.IntN(5000), 4095, 4096, 4097, r.IntN(200000)})
		if i > 10 && n > 5000 {
			n %= 5000
		}
		vs = append(vs, PVal{Type: pick(r, []uint8{ctString, ctDateTime, ctBinary, ctJson}), B: r.Bytes(n)})
	}
	w := &touchW{failAt: -1}
	pw := flatgeobuf.NewPropWriter(w)
	lens := ""
	for _, v := range vs {
		view, free := guarded(v.B, r.P(50))
		before := len(w.got)
		var n int
		var err error
		mustNotPanic(c, fmt.Sprintf("writing a string of %d bytes", len(v.B)), func() {
			if v.Type == ctString || v.Type == ctDateTime {
				s := ""
				if len(view) > 0 {
					s = unsafe.String(&view[0], len(view))
				} else if r.P(50) && cap(view) == 0 {
					s = string(view)
				}
				if v.Type == ctString {
					n, err = pw.WriteString(s)
				} else {
					n, err = pw.WriteString(s)
				}
			} else if v.Type == ctBinary {
				n, err = pw.WriteBinary(view)
			} else {
				n, err = pw.WriteBinary(view)
			}
		})
		c.Check(err == nil && len(w.got)-before <= 4+len(v.B), "writing a value of %d bytes handed out %d bytes, err %v", len(v.B), len(w.got)-before, err)
		_ = n
		// A failing writer.
		fw := &touchW{failAt: r.IntN(len(v.B) + 5)}
		_, _ = flatgeobuf.NewPropWriter(fw).WriteBinary(view)
		c.Check(bytes.Equal(view, v.B), "writing a value changed it")
		free()
		lens += fmt.Sprint(len(v.B), ",")
		c.Eval(2)
	}
	c.Briefly("strings and binaries of %s bytes", clipS(lens, 200))
	c.Distinct("strings %s", lens)
	// Read them, keep them, use the memory hard, and look again.
	var enc []byte
	for _, v := range vs {
		enc = append(enc, v.enc()...)
	}
	view, free := guarded(enc, false)
	defer free()
	type keptS struct {
		s string
		i int
	}
	type keptB struct {
		b []byte
		i int
	}
	var ss []keptS
	var bs []keptB
	reader := func() *flatgeobuf.PropReader {
		return flatgeobuf.NewPropReader(&scribR{b: view, r: r, whole: r.P(40)})
	}
	passes := r.In(1, 3)
	for p := 0; p < passes; p++ {
		pr := reader()
		for i, v := range vs {
			x, err := readProp(pr, v.Type)
			c.Check(err == nil, "reading a value of %d bytes: %v", len(v.B), err)
			switch y := x.(type) {
			case string:
				ss = append(ss, keptS{y, i})
			case []byte:
				bs = append(bs, keptB{y, i})
			}
			c.Eval(1)
		}
	}
	// More use of the same and other readers, which would reuse a buffer.
	pr := reader()
	for _, v := range vs {
		_, _ = readProp(pr, v.Type)
	}
	cut := flatgeobuf.NewPropReader(&scribR{b: view[:r.IntN(len(view)+1)], r: r})
	for _, v := range vs {
		if _, err := readProp(cut, v.Type); err != nil {
			break
		}
	}
	if r.P(30) {
		runtime.GC()
		var junk [][]byte
		for i := 0; i < 50; i++ {
			b := make([]byte, r.IntN(300))
			for j := range b {
				b[j] = 0xDD
			}
			junk = append(junk, b)
		}
		runtime.KeepAlive(junk)
	}
	for _, x := range bs {
		c.Check(bytes.Equal(x.b, vs[x.i].B), "a binary of %d bytes read earlier has changed", len(vs[x.i].B))
	}
	// Overwrite the binaries, up to their capacity: no string may change.
	for i, x := range bs {
		for j := i + 1; j < len(bs) && j < i+8; j++ {
			c.Check(!overlaps(x.b, bs[j].b), "two binaries share memory")
		}
		full := x.b[:cap(x.b)]
		for j := range full {
			full[j] = 0xAA
		}
	}
	for _, x := range ss {
		c.Check(x.s == string(vs[x.i].B), "a string of %d bytes read earlier has changed", len(vs[x.i].B))
		c.Eval(1)
	}
	c.Count("strings_kept", len(ss))
	c.Count("binaries_kept", len(bs))
}

func c26tables(c *C) {
	r := c.R
	f := genFile(r, fileOpts{MaxFeats: 12, SmallFeats: r.P(70)})
	if f.Count == 0 {
		f.NS = 0
		f.HdrM.NodeSize = 0
		f.Hdr = encode(r, f.HdrM.table())
	}
	c.Distinct("tables %d %d", len(f.Hdr), f.DataSize)
	c.Briefly("tables in guarded memory: %s", f.describe())
	hv, hfree := guarded(f.Hdr, r.P(30))
	defer hfree()
	hdr := headerOf(hv)
	var fs []flat.Feature
	for _, b := range f.Feats {
		v, free := guarded(b, r.P(30))
		defer free()
		fs = append(fs, *featureOf(v))
	}
	tolerate(c, func() { _ = flatgeobuf.HeaderString(hdr) })
	for i := range fs {
		tolerate(c, func() { _ = flatgeobuf.FeatureString(&fs[i], hdr) })
		tolerate(c, func() {
			_, _ = flatgeobuf.NewPropReader(bytes.NewReader(fs[i].PropertiesBytes())).ReadSchema(hdr)
		})
		c.Eval(2)
	}
	w := &touchW{failAt: -1}
	if r.P(30) {
		w.failAt = r.IntN(1 + len(f.Hdr) + len(f.Index) + int(f.DataSize))
	}
	tolerate(c, func() {
		fw := flatgeobuf.NewFileWriter(w)
		_, _ = fw.Header(hdr)
		switch {
		case !f.Indexed:
			for i := range fs {
				_, _ = fw.Data(&fs[i])
			}
		case r.P(50):
			_, _ = fw.IndexData(fs)
		default:
			_, _ = fw.Index(f.tree(c, r))
			for i := range fs {
				_, _ = fw.Data(&fs[i])
			}
		}
		_ = fw.Close()
	})
	c.Check(len(w.got) <= len(f.bytes()), "writing %s handed out %d bytes", f.describe(), len(w.got))
	// A whole file in guarded memory, read by way of scribbling streams.
	fv, ffree := guarded(f.bytes(), false)
	defer ffree()
	var kept []flat.Feature
	tolerate(c, func() {
		s := &scribR{b: fv, r: r, whole: r.P(50)}
		var st io.Reader = s
		if r.P(40) {
			st = struct{ io.Reader }{s}
		}
		rd := flatgeobuf.NewFileReader(st)
		h, err := rd.Header()
		if err != nil {
			panic(err)
		}
		kept2, _ := rd.DataRem()
		kept = kept2
		_ = flatgeobuf.HeaderString(h)
		if rd.Rewind() == nil {
			more, _ := rd.IndexSearch(toBox(f.query(r)))
			kept = append(kept, more...)
		}
	})
	for i := range kept {
		b := kept[i].Table().Bytes
		if len(b) >= 8 && int(binary.LittleEndian.Uint32(b)) <= len(b)-4 {
			_ = bytes.Count(b, []byte{0})
		}
		tolerate(c, func() { _ = flatgeobuf.FeatureString(&kept[i], hdr) })
		c.Eval(1)
	}
}
