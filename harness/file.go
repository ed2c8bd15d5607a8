package main

// Model of FlatGeobuf files, built with the independent encoders.

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	fb "github.com/google/flatbuffers/go"
)

var magicBytes = []byte{'f', 'g', 'b', 3, 'f', 'g', 'b', 1}

// FileM is a file and everything there is to know about it.
type FileM struct {
	Patch    byte
	Hdr      []byte // size-prefixed table
	HdrM     *HdrM
	Count    int // as in the header; 0 for unknown
	NS       int // node size as in the header
	Indexed  bool
	Leaves   []Leaf // index leaves; Leaves[i].Off is a feature offset
	Index    []byte
	Feats    [][]byte // size-prefixed tables, in file order
	FeatM    []*FeatM
	Offs     []int64       // data section offset of each feature
	ByOff    map[int64]int // feature number by offset
	DataSize int64
}

func (f *FileM) bytes() []byte {
	var b bytes.Buffer
	b.Write(magicBytes[:7])
	b.WriteByte(f.Patch)
	b.Write(f.Hdr)
	b.Write(f.Index)
	for _, x := range f.Feats {
		b.Write(x)
	}
	return b.Bytes()
}

func (f *FileM) dataStart() int { return 8 + len(f.Hdr) + len(f.Index) }

func (f *FileM) describe() string {
	return fmt.Sprintf("file with %d features, header count %d, node size %d, indexed %v, header %d, index %d and data %d bytes", len(f.Feats), f.Count, f.NS, f.Indexed, len(f.Hdr), len(f.Index), f.DataSize)
}

// shape classifies the file for coverage.
func (f *FileM) shape() string {
	n := "many"
	switch len(f.Feats) {
	case 0:
		n = "0"
	case 1:
		n = "1"
	}
	return fmt.Sprintf("features=%s known=%v indexed=%v nodesize0=%v", n, f.Count > 0, f.Indexed, f.NS == 0)
}

type fileOpts struct {
	MaxFeats   int
	ForceIndex bool
	NoIndex    bool
	// MinFeats
	MinFeats int
	// GeomBoxes makes the leaf boxes those of the geometries.
	GeomBoxes bool
	// SmallFeats keeps features small
	SmallFeats bool
	BigFeats   bool
	// Tiny makes minimal features, for files with very many.
	Tiny bool
}

func genFile(r *Rng, o fileOpts) *FileM {
	f := &FileM{Patch: 1}
	if r.P(30) {
		f.Patch = byte(r.IntN(256))
	}
	n := 0
	switch r.IntN(8) {
	case 0:
		n = r.In(0, 2)
	case 1:
		n = r.In(0, o.MaxFeats)
	default:
		n = r.In(1, 1+o.MaxFeats/4)
	}
	if n < o.MinFeats {
		n = r.In(o.MinFeats, o.MaxFeats)
	}
	known := n > 0 && r.P(80)
	if o.ForceIndex {
		if n == 0 {
			n = r.In(1, 3)
		}
		known = true
	}
	f.NS = 0
	if known {
		f.Count = n
		if (r.P(65) || o.ForceIndex) && !o.NoIndex {
			f.Indexed = true
			f.NS = genNodeSize(r)
			if r.P(50) {
				f.NS = pick(r, []int{2, 3, 4, 16, 16})
			}
		}
	} else if r.P(60) {
		f.NS = pick(r, []int{16, 16, 2, 65535}) // unknown count: no index, whatever this says
	}
	f.HdrM = genHdr(r, uint64(f.Count), uint16(f.NS))
	f.Hdr = encode(r, f.HdrM.table())
	var cols []*ColM
	if f.HdrM.Cols.OK {
		cols = f.HdrM.Cols.V
	}
	mode := r.IntN(6)
	if mode == 3 {
		mode = 2
	}
	f.ByOff = map[int64]int{}
	for i := 0; i < n; i++ {
		if o.Tiny {
			fm := tinyFeat(r, mode, i)
			f.addFeat(fm, encode(r, fm.T()))
			continue
		}
		fm := genFeat(r, mode, cols, i)
		if !o.SmallFeats && r.P(2) {
			fm.Props = some(r.Bytes(r.In(4000, 20000))) // not decodable, but a feature
			if len(cols) == 0 || fm.Cols.OK {
				fm.Cols = Opt[[]*ColM]{}
			}
		}
		if o.BigFeats && r.P(5) {
			fm.Props = some(r.Bytes(pick(r, []int{1<<20 - 100, 1 << 20, 1<<20 + 5, 3<<20 + 17})))
		}
		f.addFeat(fm, encode(r, fm.T()))
	}
	if f.Indexed {
		f.Leaves = make([]Leaf, n)
		for i := range f.Leaves {
			f.Leaves[i].Off = f.Offs[i]
			if o.GeomBoxes || r.P(70) {
				f.Leaves[i].B = f.FeatM[i].Geom.bounds()
			} else {
				f.Leaves[i].B = genBox(r, mode) // the index is authoritative
			}
		}
		if r.P(50) { // leaves not in file order
			if r.P(50) {
				sortHilbert(f.Leaves)
			} else {
				r.Shuffle(n, func(i, j int) { f.Leaves[i], f.Leaves[j] = f.Leaves[j], f.Leaves[i] })
			}
		}
		// Which zero a node above takes where both occur is nobody's business.
		if zero := 0.0; n > 1 {
			if r.P(30) {
				zero = math.Copysign(0, -1)
			}
			for i := range f.Leaves {
				for j, x := range f.Leaves[i].B {
					if x == 0 {
						f.Leaves[i].B[j] = zero
					}
				}
			}
		}
		f.Index = refIndex(f.Leaves, f.NS)
	}
	return f
}

// tinyFeat is a small feature which differs from all others.
func tinyFeat(r *Rng, mode, i int) *FeatM {
	fm := &FeatM{Props: some(le(4, uint64(i)))}
	if !r.P(3) {
		b := genBox(r, mode)
		fm.Geom = &GeomM{Type: 1, XY: some([]float64{b[0], b[1]})}
	}
	return fm
}

// hugeFile has more features than 16 bits can count.
func hugeFile(c *C, indexed bool) *FileM {
	n := c.R.In(66000, 140000)
	c.Count("huge_files", 1)
	return genFile(c.R, fileOpts{MinFeats: n, MaxFeats: n, SmallFeats: true, Tiny: true, ForceIndex: indexed})
}

func (f *FileM) addFeat(fm *FeatM, b []byte) {
	if f.ByOff == nil {
		f.ByOff = map[int64]int{}
	}
	f.ByOff[f.DataSize] = len(f.Feats)
	f.Offs = append(f.Offs, f.DataSize)
	f.Feats = append(f.Feats, b)
	f.FeatM = append(f.FeatM, fm)
	f.DataSize += int64(len(b))
}

// matches returns the feature numbers a search has to return, in file order,
// and those it may return.
func (f *FileM) matches(q Bx) (must []int, may map[int]bool) {
	hits, fuzzy := scan(f.Leaves, q)
	m := map[int]bool{}
	for _, i := range hits {
		m[f.ByOff[f.Leaves[i].Off]] = true
	}
	for i := range f.Feats {
		if m[i] {
			must = append(must, i)
		}
	}
	may = map[int]bool{}
	for i := range fuzzy {
		may[f.ByOff[f.Leaves[i].Off]] = true
	}
	return
}

// tableBytes returns the bytes of a size-prefixed root table at the start of
// its buffer, or nil if it is not one.
func tableBytes(t fb.Table) []byte {
	if len(t.Bytes) < 8 {
		return nil
	}
	n := int(fb.GetUint32(t.Bytes))
	if n < 0 || n > len(t.Bytes)-4 {
		return nil
	}
	if uint32(t.Pos) != 4+fb.GetUint32(t.Bytes[4:]) {
		return nil
	}
	return t.Bytes[:4+n]
}

// judgeFeature checks that a feature read from the file is the i-th.
func (f *FileM) judgeFeature(c *C, what string, x *flat.Feature, i int) {
	t := x.Table()
	got := tableBytes(t)
	if got == nil {
		c.Failf("%s: feature %d is not a size-prefixed root table (%d bytes, position %d)", what, i, len(t.Bytes), t.Pos)
	}
	if i < 0 || i >= len(f.Feats) {
		c.Failf("%s: delivered a feature %d which does not exist (%d features)", what, i, len(f.Feats))
	}
	if !bytes.Equal(got, f.Feats[i]) {
		other := -1
		for j := range f.Feats {
			if bytes.Equal(got, f.Feats[j]) {
				other = j
				break
			}
		}
		c.Failf("%s: feature %d has the wrong bytes (%d bytes, want %d; equal to feature %d)", what, i, len(got), len(f.Feats[i]), other)
	}
}

func (f *FileM) judgeHeader(c *C, what string, h *flat.Header) {
	if h == nil {
		c.Failf("%s: no header", what)
	}
	got := tableBytes(h.Table())
	if !bytes.Equal(got, f.Hdr) {
		c.Failf("%s: header has the wrong bytes (%d bytes, want %d)", what, len(got), len(f.Hdr))
	}
}

// judgeSearch checks the features IndexSearch returned.
func (f *FileM) judgeSearch(c *C, what string, fs []flat.Feature, q Bx) int {
	must, may := f.matches(q)
	j := 0
	last := -1
	for k := range fs {
		got := tableBytes(fs[k].Table())
		// It is the next required one, or an optional one before that.
		if j < len(must) && bytes.Equal(got, f.Feats[must[j]]) {
			last = must[j]
			j++
			continue
		}
		ok := false
		for i := last + 1; i < len(f.Feats); i++ {
			if may[i] && bytes.Equal(got, f.Feats[i]) {
				last = i
				ok = true
				break
			}
		}
		if !ok {
			who := -1
			for i := range f.Feats {
				if bytes.Equal(got, f.Feats[i]) {
					who = i
					break
				}
			}
			c.Failf("%s: result %d of %d is feature %d (%d bytes); want features %v in this order for query %v", what, k, len(fs), who, len(got), clip(must), q)
		}
	}
	if j < len(must) {
		c.Failf("%s: returned %d features, want %v for query %v", what, len(fs), clip(must), q)
	}
	return len(fs)
}

func clip(v []int) []int {
	if len(v) > 12 {
		return v[:12]
	}
	return v
}

func headerOf(b []byte) *flat.Header {
	return flat.GetSizePrefixedRootAsHeader(b, 0)
}

func featureOf(b []byte) *flat.Feature {
	return flat.GetSizePrefixedRootAsFeature(b, 0)
}

// parseFile parses a complete file with the independent decoder.
func parseFile(b []byte) (f *FileM, err error) {
	defer func() {
		if e := recover(); e != nil {
			f, err = nil, fmt.Errorf("%v", e)
		}
	}()
	if len(b) < 12 || string(b[:3]) != "fgb" || string(b[4:7]) != "fgb" {
		return nil, fmt.Errorf("no magic number")
	}
	f = &FileM{Patch: b[7]}
	if b[3] != 3 {
		return nil, fmt.Errorf("major version %d", b[3])
	}
	take := func(at int) []byte {
		n := int(fb.GetUint32(b[at:]))
		return b[at : at+4+n : at+4+n]
	}
	f.Hdr = take(8)
	f.HdrM = decHdr(decodeRoot(f.Hdr))
	f.Count, f.NS = int(f.HdrM.Count), int(f.HdrM.NodeSize)
	at := 8 + len(f.Hdr)
	if f.Count > 0 && f.NS > 0 {
		f.Indexed = true
		n := int(refSize(int64(f.Count), int64(f.NS)).Int64())
		f.Index = b[at : at+n]
		at += n
		nodes := decNodes(f.Index)
		for _, x := range nodes[len(nodes)-f.Count:] {
			f.Leaves = append(f.Leaves, Leaf(x))
		}
	}
	for at < len(b) {
		x := take(at)
		f.addFeat(decFeat(decodeRoot(x)), x)
		at += len(x)
	}
	if f.Count > 0 && len(f.Feats) != f.Count {
		return nil, fmt.Errorf("%d features, header says %d", len(f.Feats), f.Count)
	}
	return f, nil
}

// testdata returns the valid files of /repo/testdata.
func testdata() map[string]*FileM {
	m := map[string]*FileM{}
	for _, g := range []string{"/repo/testdata/flatgeobuf/*.fgb", "/repo/testdata/flatgeobuf/*/*.fgb"} {
		ps, _ := filepath.Glob(g)
		for _, p := range ps {
			b, err := os.ReadFile(p)
			if err != nil {
				continue
			}
			if f, err := parseFile(b); err == nil {
				m[filepath.Base(p)] = f
			}
		}
	}
	return m
}
