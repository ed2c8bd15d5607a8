package main

// C25: behaviour on other platforms. The cases here run natively, in 32-bit
// and WebAssembly builds, and in builds in which the code selected for
// big-endian platforms replaces that for the host. On a big-endian machine
// that code turns the octets of the index in memory into little-endian ones,
// by reversing them. Reversing those of a little-endian machine gives
// big-endian octets. So in such a build everything is as ever, except that each
// octet of the index section is reversed.

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"sync"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Prop{ID: "C25", Quick: 2400, Thorough: 40000,
		Rule: "cross builds for every supported platform; in 386, js/wasm and emulated big-endian builds (the code those platforms select, run on the host) and natively: index serialization, deserialization, streaming search and whole files of all shapes, with failing and fragmented streams, compared with the format model; 386 and js/wasm runs of the cases of the other properties, which have to give the verdicts and outputs of the host; distinct by (kind, shape)",
		Run:  c25})
}

// swapWrite and swapRead tell whether written and read octets are reversed.
var swapWrite, swapRead bool

var swapOnce sync.Once

func detectSwap(c *C) {
	switch os.Getenv("VERIF_SWAP") {
	case "strict":
		swapWrite, swapRead = true, true
	case "auto":
		// Code which does not rely on reversing octets has no reason to
		// behave differently from that for the host. Writing and reading may
		// differ in that.
		ls := []Leaf{{Bx{1, 2, 3, 4}, 0}, {Bx{5, 6, 7, 8}, 99}}
		p, err := packedrtree.New(toRefs(ls), 2)
		c.Check(err == nil, "New: %v", err)
		var b bytes.Buffer
		_, err = p.Marshal(&b)
		c.Check(err == nil, "Marshal: %v", err)
		plain := refIndex(ls, 2)
		swapWrite = !bytes.Equal(b.Bytes(), plain)
		q, err := packedrtree.Unmarshal(bytes.NewReader(plain), 2, 2)
		swapRead = err != nil || fromBox(q.Bounds()) != (Bx{1, 2, 7, 8})
	}
}

func octets(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[i&^7|7-i&7] = b[i]
	}
	return o
}

// wireIn is what an index section looks like to the code that reads it.
func wireIn(b []byte) []byte {
	if swapRead {
		return octets(b)
	}
	return b
}

// wireOut turns bytes written back, as far as they are whole octets.
func wireOut(b []byte) []byte {
	if swapWrite {
		return octets(b[:len(b)&^7])
	}
	return b
}

func (c *C) digest(what string, b []byte) {
	h := fnv.New64a()
	h.Write(b)
	c.State("digest", fmt.Sprintf("%06d %s %d %016x", c.Idx, what, len(b), h.Sum64()))
}

func c25(c *C) {
	swapOnce.Do(func() { detectSwap(c) })
	c.State("octets", fmt.Sprintf("written reversed=%v read reversed=%v", swapWrite, swapRead))
	switch c.Idx % 4 {
	case 0:
		c25tree(c)
		sizeSweep(c, c.Idx/4*8)
	case 1:
		c25tree(c)
	case 2:
		c25file(c)
	default:
		c25indexData(c)
	}
}

func c25tree(c *C) {
	r := c.R
	ls, ns := genIndexCase(c, 2500)
	nodes, starts := refTree(ls, ns)
	want := encNodes(nodes)
	what := fmt.Sprintf("index of %d refs, node size %d", len(ls), ns)
	p, err := packedrtree.New(toRefs(ls), uint16(ns))
	c.Check(err == nil, "New: %v", err)
	judgeNodes := func(what string, raw []byte) {
		got := decNodes(wireOut(raw))
		c.Check(len(raw) == len(want) && len(got) == len(nodes), "%s has %d bytes, want %d", what, len(raw), len(want))
		for i := range got {
			if i >= starts[0] {
				c.Check(bitsEqual(got[i].B, nodes[i].B) && got[i].Off == nodes[i].Off, "%s: leaf %d is %v, want %v", what, i-starts[0], got[i], nodes[i])
			} else {
				c.Check(sameNode(got[i], nodes[i]), "%s: node %d is %v, want %v", what, i, got[i], nodes[i])
			}
		}
	}
	ref := newDst()
	n, err := p.Marshal(ref.stream(r.P(50)))
	c.Check(err == nil && n == len(want), "Marshal of an %s: %d, %v", what, n, err)
	judgeNodes("a serialized "+what, ref.buf)
	c.digest("tree", wireOut(ref.buf))
	// A failure at any place leaves a prefix.
	for k := 0; k < 3; k++ {
		w := &touchW{failAt: r.IntN(len(want))}
		if r.P(30) {
			w.failAt = min(r.In(0, 2)*8096+r.In(-9, 9), len(want)-1)
			if w.failAt < 0 {
				w.failAt = 0
			}
		}
		m, err := p.Marshal(w)
		c.Check(errors.Is(err, errInjected) && m == len(w.got), "Marshal of an %s to a stream that fails after %d bytes: %d, %v", what, len(w.got), m, err)
		c.Check(bytes.HasPrefix(ref.buf, w.got), "Marshal of an %s to a stream that fails after %d bytes: what it wrote is no prefix of the index", what, len(w.got))
		c.Eval(1)
	}
	var b bytes.Buffer
	_, err = p.Marshal(&b)
	c.Check(err == nil && bytes.Equal(b.Bytes(), ref.buf), "serializing an %s again gives different bytes", what)
	// Deserialization.
	in := wireIn(want)
	q, err := packedrtree.Unmarshal(&scribR{b: in, r: r, whole: r.P(50)}, len(ls), uint16(ns))
	c.Check(err == nil, "Unmarshal of an %s: %v", what, err)
	b.Reset()
	_, err = q.Marshal(&b)
	c.Check(err == nil && bytes.Equal(wireOut(b.Bytes()), want), "an %s differs after deserializing and serializing it (%v)", what, err)
	for _, qb := range genQueries(r, ls, 4) {
		judgeResults(c, "Search of deserialized "+what, q.Search(toBox(qb)), ls, qb, false)
		rs, err := packedrtree.Seek(&scribR{b: in, r: r, whole: r.P(50)}, len(ls), uint16(ns), toBox(qb))
		c.Check(err == nil, "Seek in an %s: %v", what, err)
		judgeResults(c, "Seek in an "+what, rs, ls, qb, false)
		c.Eval(2)
	}
	c.Check(fromBox(q.Bounds()) == nodes[0].B, "Bounds of a deserialized %s: %v, want %v", what, q.Bounds(), nodes[0].B)
	_, err = packedrtree.Unmarshal(&scribR{b: in[:r.IntN(len(in))], r: r}, len(ls), uint16(ns))
	c.Check(err != nil, "a truncated %s was accepted", what)
	c.Distinct("tree %d/%d", len(ls), ns)
}

// sizeSweep serializes and deserializes indexes of eight consecutive sizes, so
// that a run of cases meets every relation to the sizes of internal buffers.
func sizeSweep(c *C, base int) {
	if base >= 4096 || raceEnabled || asanEnabled {
		return
	}
	for k := 0; k < 8; k++ {
		sizeCase(c, 1+base+k, 65535)
	}
	c.Count("sizes_swept", 8)
}

// bigSizes covers index sizes at and around multiples of powers of two.
func bigSizes(c *C, idx int) {
	if idx%8 != 5 || idx >= 8*44 || raceEnabled || asanEnabled {
		return
	}
	idx /= 8
	total := 8192 * (1 + idx) // 1 to 32 times 320 KiB
	if idx >= 32 {
		total = 1 << (idx - 29) // 8 to 16384 nodes
	}
	for _, ns := range []int{65535, 16} {
		for d := -1; d <= 1; d++ {
			// The largest number of references with at most total+d nodes.
			lo, hi := 1, total+d
			for lo < hi {
				m := (lo + hi + 1) / 2
				sum := 0
				for _, s := range levelSizes(m, ns) {
					sum += s
				}
				if sum <= total+d {
					lo = m
				} else {
					hi = m - 1
				}
			}
			sizeCase(c, lo, ns)
		}
	}
	c.Count("big_sizes", 6)
}

func sizeCase(c *C, n, ns int) {
	ls := make([]Leaf, n)
	for i := range ls {
		v := float64(i)
		ls[i] = Leaf{Bx{v, -v - 1, v + 0.5, v + 1}, int64(i) * 0x0102030405}
	}
	nodes, _ := refTree(ls, ns)
	want := encNodes(nodes)
	p, err := packedrtree.New(toRefs(ls), uint16(ns))
	c.Check(err == nil, "New with %d refs, node size %d: %v", n, ns, err)
	d := newDst()
	m, err := p.Marshal(d.stream(false))
	c.Check(err == nil && m == len(want) && bytes.Equal(wireOut(d.buf), want), "an index of %d refs, node size %d is serialized wrongly: %d bytes of %d, error %v, first difference at byte %d", n, ns, m, len(want), err, firstDiff(wireOut(d.buf), want))
	q, err := packedrtree.Unmarshal(bytes.NewReader(wireIn(want)), n, uint16(ns))
	c.Check(err == nil, "Unmarshal of an index of %d refs, node size %d: %v", n, ns, err)
	d = newDst()
	_, err = q.Marshal(d.stream(false))
	c.Check(err == nil && bytes.Equal(wireOut(d.buf), want), "an index of %d refs, node size %d is deserialized wrongly: error %v, first difference at byte %d", n, ns, err, firstDiff(wireOut(d.buf), want))
	c.Eval(2)
}

func c25file(c *C) {
	r := c.R
	f := genFile(r, fileOpts{MaxFeats: 60, ForceIndex: true, SmallFeats: r.P(60)})
	what := f.describe()
	c.Briefly("%s", what)
	c.Distinct("file %d/%d/%d", len(f.Feats), f.NS, f.DataSize)
	// Read.
	var in bytes.Buffer
	in.Write(magicBytes)
	in.Write(f.Hdr)
	in.Write(wireIn(f.Index))
	for _, x := range f.Feats {
		in.Write(x)
	}
	for k := 0; k < 3; k++ {
		var st io.Reader = &scribR{b: in.Bytes(), r: r, whole: r.P(50)}
		if r.P(40) {
			st = struct{ io.Reader }{st}
		}
		rd := flatgeobuf.NewFileReader(st)
		h, err := rd.Header()
		c.Check(err == nil, "reading %s: Header: %v", what, err)
		f.judgeHeader(c, "reading "+what, h)
		q := f.query(r)
		if k == 0 {
			t, err := rd.Index()
			c.Check(err == nil, "reading %s: Index: %v", what, err)
			judgeResults(c, "Search of the index of "+what, t.Search(toBox(q)), f.Leaves, q, false)
			fs, err := rd.DataRem()
			c.Check(err == nil && len(fs) == len(f.Feats), "reading %s: DataRem: %d features, %v", what, len(fs), err)
			for i := range fs {
				f.judgeFeature(c, "reading "+what, &fs[i], i)
			}
		} else {
			fs, err := rd.IndexSearch(toBox(q))
			c.Check(err == nil, "reading %s: IndexSearch: %v", what, err)
			f.judgeSearch(c, "reading "+what, fs, q)
		}
		c.Eval(1)
	}
	// Write.
	var p *packedrtree.PackedRTree
	var err error
	if r.P(50) {
		p, err = packedrtree.Unmarshal(bytes.NewReader(wireIn(f.Index)), f.Count, uint16(f.NS))
	} else {
		p, err = packedrtree.New(toRefs(f.Leaves), uint16(f.NS))
	}
	c.Check(err == nil, "making the index of %s: %v", what, err)
	d := newDst()
	w := flatgeobuf.NewFileWriter(d.stream(false))
	_, err = w.Header(headerOf(f.Hdr))
	c.Check(err == nil, "writing %s: Header: %v", what, err)
	n, err := w.Index(p)
	c.Check(err == nil && n == len(f.Index), "writing %s: Index: %d, %v", what, n, err)
	for i := range f.Feats {
		_, err = w.Data(featureOf(f.Feats[i]))
		c.Check(err == nil, "writing %s: Data: %v", what, err)
	}
	c.Check(w.Close() == nil, "writing %s: Close failed", what)
	out := f.unwire(d.buf)
	at := 8 + len(f.Hdr)
	g := f.bytes()
	g[7] = magicBytes[7]
	c.Check(len(out) == len(g) && bytes.Equal(out[:at], g[:at]) && bytes.Equal(out[at+len(f.Index):], g[at+len(f.Index):]), "writing %s: the output is wrong at byte %d", what, firstDiff(out, g))
	a, b := decNodes(out[at:at+len(f.Index)]), decNodes(f.Index)
	for i := range a {
		c.Check(sameNode(a[i], b[i]), "writing %s: index node %d is %v, want %v", what, i, a[i], b[i])
	}
	c.digest("file", out)
	c.Eval(1)
}

// unwire restores the index section of a file as written.
func (f *FileM) unwire(b []byte) []byte {
	at := 8 + len(f.Hdr)
	if len(b) < at+len(f.Index) {
		return b
	}
	return append(append(append([]byte{}, b[:at]...), wireOut(b[at:at+len(f.Index)])...), b[at+len(f.Index):]...)
}

func c25indexData(c *C) {
	r := c.R
	ns := pick(r, []int{2, 2, 3, 4, 16, 16, 17, 100, 65535})
	n := r.In(1, 80)
	if r.P(5) {
		n = r.In(300, 900)
	}
	mode := r.IntN(6)
	hm := genHdr(r, uint64(n), uint16(ns))
	var cols []*ColM
	if hm.Cols.OK {
		cols = hm.Cols.V
	}
	hdr := encode(r, hm.table())
	var given [][]byte
	var fs []flat.Feature
	for i := 0; i < n; i++ {
		b := encode(r, genFeat(r, mode, cols, i).T())
		given = append(given, b)
		fs = append(fs, *featureOf(b))
	}
	what := fmt.Sprintf("IndexData of %d features, node size %d", n, ns)
	c.Briefly("%s", what)
	d := newDst()
	w := flatgeobuf.NewFileWriter(d.stream(false))
	_, err := w.Header(headerOf(hdr))
	c.Check(err == nil, "%s: Header: %v", what, err)
	_, err = w.IndexData(fs)
	c.Check(err == nil, "%s: %v", what, err)
	c.Check(w.Close() == nil, "%s: Close failed", what)
	f := &FileM{Hdr: hdr, Index: make([]byte, int(refSize(int64(n), int64(ns)).Int64()))}
	out := f.unwire(d.buf)
	judgeIndexed(c, what, out, hdr, given, ns)
	c.digest("indexdata", out)
	c.Distinct("indexdata %d/%d", n, ns)
	c.Eval(1)
}
