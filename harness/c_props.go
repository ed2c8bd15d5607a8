package main

// C17 property values, C18 schema-driven decoding, C24 string summaries.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime/debug"
	"strings"
	"unsafe"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

func init() {
	register(&Prop{ID: "C17", Quick: 5000, Thorough: 60000,
		Rule: "every value of the 8- and 16-bit types and of bool (in slices over the cases), random and boundary values of all others, strings and binaries up to 3 MiB incl. empty and non-UTF-8; written bytes compared with an independent encoding, read back bit for bit from fragmented streams, singly and in long sequences, and cut at every byte; distinct by (type, value)",
		Run:  c17})
	register(&Prop{ID: "C18", Quick: 8000, Thorough: 80000,
		Rule: "random property lists (order, repetition, omission) against headers, features and caller-defined schemas with up to 65536 columns, decoded from fragmented streams; cut at every byte, columns outside the schema, unknown types, I/O errors; distinct by (columns, list)",
		Run:  c18})
	register(&Prop{ID: "C24", Quick: 48000, Thorough: 300000,
		Rule: "generated headers and features (own columns, schema columns, none; nested geometries; all property types), their summary compared with the one computed from the model; undecodable objects have to give an error text; distinct by (summary)",
		Run:  c24})
}

// same tells whether x is the Go value of v, bit for bit.
func (v PVal) same(x any) bool {
	switch v.Type {
	case ctByte:
		y, ok := x.(int8)
		return ok && y == int8(v.U)
	case ctUByte:
		y, ok := x.(uint8)
		return ok && y == uint8(v.U)
	case ctBool:
		y, ok := x.(bool)
		return ok && y == (v.U != 0)
	case ctShort:
		y, ok := x.(int16)
		return ok && y == int16(v.U)
	case ctUShort:
		y, ok := x.(uint16)
		return ok && y == uint16(v.U)
	case ctInt:
		y, ok := x.(int32)
		return ok && y == int32(v.U)
	case ctUInt:
		y, ok := x.(uint32)
		return ok && y == uint32(v.U)
	case ctLong:
		y, ok := x.(int64)
		return ok && y == int64(v.U)
	case ctULong:
		y, ok := x.(uint64)
		return ok && y == v.U
	case ctFloat:
		y, ok := x.(float32)
		return ok && math.Float32bits(y) == uint32(v.U)
	case ctDouble:
		y, ok := x.(float64)
		return ok && math.Float64bits(y) == v.U
	case ctString, ctDateTime:
		y, ok := x.(string)
		return ok && y == string(v.B)
	}
	y, ok := x.([]byte)
	return ok && bytes.Equal(y, v.B)
}

const findReadInt = "readint-low-byte"

// judgeValue checks a decoded value. ReadInt's known finding (it returns only
// the low byte) is told apart from every other wrong value.
func judgeValue(c *C, what string, v PVal, x any) {
	if v.same(x) {
		return
	}
	if y, ok := x.(int32); ok && v.Type == ctInt && y == int32(uint8(v.U)) {
		c.Known(findReadInt, "reading an Int property drops all but the lowest byte: %d is read as %d", int32(v.U), y)
		c.Count("known_finding_values", 1)
		return
	}
	c.Failf("%s: a value of type %d, %s, is read as %s", what, v.Type, clipS(v.show(), 100), clipS(fmt.Sprintf("%T %v", x, x), 100))
}

func (v PVal) show() string {
	if numSize(v.Type) > 0 {
		return fmt.Sprintf("bits %#x", v.U)
	}
	return fmt.Sprintf("%d bytes %q", len(v.B), clipS(string(v.B), 60))
}

func c17(c *C) {
	r := c.R
	var vs []PVal
	switch k := c.Idx % 8; {
	case k == 0: // 8-bit types, bool
		typ := uint8(pick(r, []int{ctByte, ctUByte}))
		for x := 0; x < 256; x++ {
			vs = append(vs, PVal{Type: typ, U: uint64(x)})
		}
		vs = append(vs, PVal{Type: ctBool, U: 0}, PVal{Type: ctBool, U: 1})
	case k <= 2: // a slice of the 16-bit values
		typ := uint8([]int{ctShort, ctUShort}[k-1])
		base := uint64(c.Idx/8%256) << 8
		for x := uint64(0); x < 256; x++ {
			vs = append(vs, PVal{Type: typ, U: base + x})
		}
	case k == 3 && c.Idx%512 == 3: // large binaries
		for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 3<<20 + 5, 1<<16 - 1, 1 << 16} {
			vs = append(vs, PVal{Type: pick(r, []uint8{ctString, ctBinary, ctJson, ctDateTime}), B: r.Bytes(n)})
		}
	default:
		for i := 0; i < 40; i++ {
			vs = append(vs, genPVal(r, uint8(r.IntN(numColTypes))))
		}
	}
	if c.huge() {
		vs = vs[:1]
		for _, n := range []int{1 << 24, 1<<24 + r.In(1, 99), r.In(1<<24, 1<<26), 1<<25 - 1} {
			vs = append(vs, PVal{Type: pick(r, []uint8{ctString, ctBinary, ctJson, ctDateTime}), B: r.Bytes(n)})
		}
		c.Count("huge_values", 4)
	}
	if c.Idx%8 == 0 {
		// Other writers may use any non-zero byte for true.
		for x := 0; x < 256; x++ {
			v, err := flatgeobuf.NewPropReader(bytes.NewReader([]byte{byte(x)})).ReadBool()
			c.Check(err == nil && v == (x != 0), "a Bool property stored as %d is read as %v, %v", x, v, err)
		}
		c.Eval(256)
	}
	if c.Idx == 4 && math.MaxInt > math.MaxInt32 {
		c17limit(c)
	}
	// Write one by one.
	dst := newDst()
	pw := flatgeobuf.NewPropWriter(dst.stream(r.P(30)))
	var all []byte
	var ends []int
	for _, v := range vs {
		before := len(dst.buf)
		n, err := writeProp(pw, v)
		want := v.enc()
		c.Check(err == nil, "writing a value of type %d (%s): %v", v.Type, v.show(), err)
		if !bytes.Equal(dst.buf[before:], want) {
			got := dst.buf[before:]
			c.Failf("a value of type %d (%s) is written as % x, want % x (%d and %d bytes)", v.Type, v.show(), got[:min(len(got), 20)], want[:min(len(want), 20)], len(got), len(want))
		}
		c.Check(n == len(want), "writing a value of type %d (%s): returned %d, wrote %d bytes", v.Type, v.show(), n, len(want))
		all = append(all, want...)
		ends = append(ends, len(all))
		c.Distinct("%d %x %s", v.Type, v.U, hashOf(v.B))
		c.State("type", fmt.Sprint(v.Type))
		c.Eval(1)
	}
	c.Briefly("%d values in %d bytes, first of type %d (%s)", len(vs), len(all), vs[0].Type, clipS(vs[0].show(), 80))
	// Read them back, as a sequence.
	src := newSrc(all)
	src.record = false
	src.r = r
	src.frag = pick(r, []int{fragFull, fragFull, fragRandom, fragOne, fragDataEOF, fragZeros, fragRandEOF, fragHalf})
	src.scrib = src.r != nil && src.r.P(30)
	if len(all) > 1<<20 && src.frag == fragOne {
		src.frag = fragHalf
		src.scrib = src.r != nil && src.r.P(30)
	}
	src.maxOps = 1000 + 8*len(all)
	pr := flatgeobuf.NewPropReader(src.stream(false, false))
	for i, v := range vs {
		x, err := readProp(pr, v.Type)
		c.Check(err == nil, "reading a value of type %d (%s): %v", v.Type, v.show(), err)
		judgeValue(c, "sequence", v, x)
		c.Check(src.pos == int64(ends[i]), "reading a value of type %d (%s) consumed up to %d, want %d", v.Type, v.show(), src.pos, ends[i])
		c.Eval(1)
	}
	_, err := readProp(pr, vs[0].Type)
	c.Check(err != nil, "reading a value of type %d at the end of the stream succeeded", vs[0].Type)
	// Cut short.
	cuts := 0
	for _, v := range vs {
		if cuts > 200 {
			break
		}
		e := v.enc()
		for n := 0; n < len(e); n++ {
			if n > 12 && n < len(e)-3 && !r.P(4) || len(e) > 100000 && n > 8 && n < len(e)-1 && n%(1<<19) != 4 && (len(e) > 1<<22 || n%(1<<16) != 4) {
				continue
			}
			cuts++
			src := newSrc(e[:n])
			src.record = false
			src.r = r
			src.frag = pick(r, []int{fragFull, fragDataEOF})
			src.scrib = src.r != nil && src.r.P(30)
			x, err := readProp(flatgeobuf.NewPropReader(src.stream(false, false)), v.Type)
			c.Check(err != nil, "a value of type %d cut at %d of %d bytes is read as %v", v.Type, n, len(e), clipS(fmt.Sprint(x), 50))
			src = newSrc(e)
			src.record = false
			src.failAt, src.failErr, src.failPart = r.IntN(3), errInjected, r.IntN(4)
			x, err = readProp(flatgeobuf.NewPropReader(src.stream(false, false)), v.Type)
			if src.failed > 0 {
				c.Check(errors.Is(err, errInjected), "a value of type %d is read as %v, %v although the stream failed", v.Type, clipS(fmt.Sprint(x), 50), err)
			} else {
				c.Check(err == nil, "reading a value of type %d: %v", v.Type, err)
			}
			c.Eval(2)
		}
	}
	c.Count("cuts", cuts)
}

// c17limit writes values whose length is about as much as 32 bits can tell.
func c17limit(c *C) {
	if raceEnabled || asanEnabled {
		return
	}
	var over int64 = math.MaxUint32 + 1
	big, free := bigZeros(int(over))
	defer free()
	if big == nil {
		c.Count("limit_lengths_not_available", 1)
		return
	}
	for _, n := range []int64{1<<31 + 5, over} {
		for _, how := range []string{"Binary", "String"} {
			w := &headWriter{}
			pw := flatgeobuf.NewPropWriter(w)
			v := big[:n:n]
			var m int
			var err error
			if how == "Binary" {
				m, err = pw.WriteBinary(v)
			} else {
				m, err = pw.WriteString(unsafe.String(&v[0], len(v)))
			}
			if n > math.MaxUint32 {
				c.Check(err != nil && m == 0 && w.n == 0, "writing a %s value of %d bytes, whose length does not fit 32 bits: %d, %v, %d bytes written", how, n, m, err, w.n)
			} else {
				c.Check(err == nil && int64(m) == n+4 && w.n == n+4, "writing a %s value of %d bytes: %d, %v, %d bytes written", how, n, m, err, w.n)
				c.Check(bytes.Equal(w.head[:4], le(4, uint64(n))), "writing a %s value of %d bytes: length written as % x", how, n, w.head[:4])
			}
			debug.FreeOSMemory() // what a copy took
			c.Eval(1)
			c.Count("limit_lengths", 1)
		}
	}
}

// headWriter keeps the beginning of what is written, and counts.
type headWriter struct {
	head []byte
	n    int64
}

func (w *headWriter) Write(p []byte) (int, error) {
	if len(w.head) < 16 {
		w.head = append(w.head, p[:min(len(p), 16)]...)
	}
	w.n += int64(len(p))
	return len(p), nil
}

// userSchema is a schema defined by the caller.
type userSchema struct {
	hdr  *flat.Header
	n    int
	seen []int
	// lacks is a column which is not there although it is counted.
	lacks Opt[int]
}

func (s *userSchema) ColumnsLength() int { return s.n }
func (s *userSchema) Columns(obj *flat.Column, j int) bool {
	s.seen = append(s.seen, j)
	if s.lacks.OK && s.lacks.V == j {
		return false
	}
	return s.hdr.Columns(obj, j)
}

type bigSchema struct {
	cols []*ColM
	hdr  *flat.Header
}

var bigCols = map[int]bigSchema{}

func c18(c *C) {
	r := c.R
	var cols []*ColM
	var schema flatgeobuf.Schema
	kind := ""
	limit := r.In(1, 20)
	switch {
	case c.Idx%25 == 7: // at the format limit
		n := pick(r, []int{65536, 65535, 32769, 300, 257})
		bs, ok := bigCols[n]
		if !ok {
			cs := make([]*ColM, n)
			for i := range cs {
				cs[i] = &ColM{Name: some([]byte(fmt.Sprintf("c%d", i))), Type: uint8((i * 7) % numColTypes), Width: -1, Prec: -1, Scale: -1, Nullable: true}
			}
			bs = bigSchema{cs, headerOf(encodeOwn(r, (&HdrM{Cols: some(cs), NodeSize: 16}).table()))}
			bigCols[n] = bs
		}
		cols, schema = bs.cols, bs.hdr
		kind = fmt.Sprintf("header with %d columns", n)
	case r.P(40):
		cols = genCols(r, limit)
		schema = headerOf(encode(r, (&HdrM{Cols: some(cols), NodeSize: 16}).table()))
		kind = "header"
	case r.P(50):
		cols = genCols(r, limit)
		schema = featureOf(encode(r, (&FeatM{Cols: some(cols)}).T()))
		kind = "feature"
	default:
		cols = genCols(r, limit)
		schema = &userSchema{hdr: headerOf(encode(r, (&HdrM{Cols: some(cols), NodeSize: 16}).table())), n: len(cols)}
		kind = "caller-defined"
	}
	ps := genPairs(r, cols, r.In(0, 14))
	if len(cols) > 1000 {
		for i := range ps {
			if r.P(60) {
				ps[i].Col = pick(r, []int{len(cols) - 1, len(cols) - 2, 255, 256, 257, 32767, 32768 % len(cols), 0})
				if ps[i].Col >= len(cols) {
					ps[i].Col = len(cols) - 1
				}
				ps[i].V = genPVal(r, cols[ps[i].Col].Type)
			}
		}
	}
	b := encPairs(ps)
	var ends []int
	{
		n := 0
		for _, p := range ps {
			n += 2 + len(p.V.enc())
			ends = append(ends, n)
		}
	}
	open := func(b []byte) *Src {
		src := newSrc(b)
		src.record = false
		src.r = r
		src.frag = pick(r, []int{fragFull, fragFull, fragRandom, fragOne, fragDataEOF, fragRandEOF, fragHalf})
		src.scrib = src.r != nil && src.r.P(30)
		if len(b) > 5000 {
			src.frag = fragFull
			src.scrib = src.r != nil && src.r.P(30)
		}
		return src
	}
	read := func(src *Src) (vals []flatgeobuf.PropValue, err error) {
		mustNotPanic(c, "ReadSchema", func() {
			vals, err = flatgeobuf.NewPropReader(src.stream(false, false)).ReadSchema(schema)
		})
		c.Eval(1)
		return
	}
	judge := func(what string, vals []flatgeobuf.PropValue, want []Pair) {
		c.Check(len(vals) == len(want), "%s: %d values, want %d", what, len(vals), len(want))
		for i := range vals {
			v, p := &vals[i], want[i]
			c.Check(int(v.ColIndex) == p.Col, "%s: pair %d has column %d, want %d", what, i, v.ColIndex, p.Col)
			c.Check(uint8(v.Type) == cols[p.Col].Type, "%s: pair %d (column %d) has type %v, want %d", what, i, p.Col, v.Type, cols[p.Col].Type)
			c.Check(accCol(&v.Col).canon() == cols[p.Col].canon(), "%s: pair %d has column definition %s, want that of column %d, %s", what, i, accCol(&v.Col).canon(), p.Col, cols[p.Col].canon())
			judgeValue(c, fmt.Sprintf("%s: pair %d", what, i), p.V, v.Value)
		}
		c.Count("pairs_checked", len(vals))
	}
	what := fmt.Sprintf("list of %d pairs (%d bytes) against a %s schema of %d columns", len(ps), len(b), kind, len(cols))
	c.Briefly("%s", what)
	c.State("schema", kind)
	c.Distinct("%s/%d/%s", kind, len(cols), hashOf(b))
	src := open(b)
	vals, err := read(src)
	c.Check(err == nil, "%s: %v", what, err)
	judge(what, vals, ps)
	c.Check(src.pos == int64(len(b)), "%s: consumed %d bytes", what, src.pos)
	// Cut short: between pairs it is a shorter list, otherwise an error.
	for n := 0; n < len(b); n++ {
		if len(b) > 300 && !r.P(100*300/len(b)) {
			continue
		}
		k, clean := 0, n == 0
		for k < len(ends) && ends[k] <= n {
			clean = ends[k] == n
			k++
		}
		vals, err := read(open(b[:n]))
		w := fmt.Sprintf("%s, cut at byte %d", what, n)
		if clean {
			c.Check(err == nil, "%s (after pair %d): %v", w, k, err)
			judge(w, vals, ps[:k])
		} else {
			c.Check(err != nil && !errors.Is(err, io.EOF), "%s, inside pair %d: %d values and error %v, want one that is not an end of data", w, k, len(vals), err)
			c.Check(len(vals) == 0, "%s, inside pair %d: %d values and error %v", w, k, len(vals), err)
		}
	}
	// I/O errors.
	if len(b) > 0 {
		for i := 0; i < 4; i++ {
			src := open(b)
			src.failAt, src.failErr, src.failPart = r.IntN(2*len(ps)+2), errInjected, r.IntN(3)
			vals, err := read(src)
			if src.failed > 0 {
				c.Check(err != nil && err != io.EOF && len(vals) == 0, "%s, I/O error at call %d: %d values and %v", what, src.failAt, len(vals), err)
			}
		}
	}
	// A column outside the schema, at any place.
	k := r.IntN(len(ps) + 1)
	at := 0
	if k > 0 {
		at = ends[k-1]
	}
	if len(cols) < 65536 {
		bad := pick(r, []int{len(cols), len(cols) + 1, 65535, r.In(len(cols), 65535)})
		bad = min(bad, 65535)
		x := append(append([]byte{}, b[:at]...), byte(bad), byte(bad>>8))
		x = append(x, r.Bytes(r.IntN(10))...)
		x = append(x, b[at:]...)
		vals, err := read(open(x))
		c.Check(err != nil && len(vals) == 0, "%s with column %d of %d as pair %d: %d values and %v", what, bad, len(cols), k, len(vals), err)
		c.State("error", "column outside schema")
	}
	// A schema which does not have a column it has counted.
	if len(cols) <= 20 && len(ps) > 0 && r.P(30) {
		j := pick(r, ps).Col
		old := schema
		schema = &userSchema{hdr: headerOf(encode(r, (&HdrM{Cols: some(cols), NodeSize: 16}).table())), n: len(cols), lacks: some(j)}
		vals, err := read(open(b))
		c.Check(err != nil && len(vals) == 0, "%s which lacks column %d: %d values and %v", what, j, len(vals), err)
		c.State("error", "schema lacks a column")
		schema = old
	}
	// A column of unknown type.
	if len(cols) <= 20 {
		bad := append([]*ColM{}, cols...)
		j := r.IntN(len(bad))
		y := *bad[j]
		y.Type = uint8(pick(r, []int{15, 16, 17, 100, 127, 128, 200, 255}))
		bad[j] = &y
		uses := false
		for _, p := range ps {
			uses = uses || p.Col == j
		}
		schema = headerOf(encode(r, (&HdrM{Cols: some(bad), NodeSize: 16}).table()))
		vals, err := read(open(b))
		if uses {
			c.Check(err != nil && len(vals) == 0, "%s where column %d has the unknown type %d: %d values and %v", what, j, y.Type, len(vals), err)
			c.State("error", "unknown type used")
		} else {
			c.Check(err == nil, "%s where the unused column %d has the unknown type %d: %v", what, j, y.Type, err)
			judge(what, vals, ps)
			c.State("error", "unknown type not used")
		}
	}
}

// ---- C24

var geomNames = []string{"Unknown", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection", "CircularString", "CompoundCurve", "CurvePolygon", "MultiCurve", "MultiSurface", "Curve", "Surface", "PolyhedralSurface", "TIN", "Triangle"}

func (h *HdrM) summary() string {
	var b strings.Builder
	s := func(key string, v Str) {
		if v.OK {
			fmt.Fprintf(&b, "%s:%s", key, v.V)
		}
	}
	b.WriteString("Header{")
	s("Name", h.Name)
	if len(h.Env.V) > 0 {
		var e []string
		for _, x := range h.Env.V {
			e = append(e, fmt.Sprintf("%.8g", x))
		}
		fmt.Fprintf(&b, ",Envelope:[%s]", strings.Join(e, ","))
	}
	fmt.Fprintf(&b, ",Type:%s", geomNames[h.GType])
	var fl []string
	for i, v := range []bool{h.Z, h.M, h.T, h.TM} {
		if v {
			fl = append(fl, []string{"Z", "M", "T", "TM"}[i])
		}
	}
	if len(fl) > 0 {
		b.WriteString("," + strings.Join(fl, "|"))
	}
	fmt.Fprintf(&b, ",NumColumns:%d", len(h.Cols.V))
	if h.Count > 0 {
		fmt.Fprintf(&b, ",NumFeatures:%d", h.Count)
	} else {
		b.WriteString(",NumFeatures:UNKNOWN")
	}
	if h.NodeSize > 0 {
		fmt.Fprintf(&b, ",NodeSize:%d", h.NodeSize)
	} else {
		b.WriteString(",NO INDEX")
	}
	b.WriteString(",CRS:")
	if c := h.Crs; c == nil {
		b.WriteString("<nil>")
	} else {
		b.WriteString("{")
		s("Org", c.Org)
		fmt.Fprintf(&b, ",Code:%d", c.Code)
		s(",Name", c.Name)
		if c.Wkt.OK {
			fmt.Fprintf(&b, ",WKT:%d bytes", len(c.Wkt.V))
		} else {
			b.WriteString(",WKT:<nil>")
		}
		s(",CodeString", c.CodeStr)
		b.WriteString("}")
	}
	s(",Title", h.Title)
	s(",Desc", h.Desc)
	s(",Meta", h.Meta)
	b.WriteString("}")
	return b.String()
}

// summary is the expected FeatureString; low gives Int values as ReadInt's
// known finding has it.
func (f *FeatM) summary(cols []*ColM, ps []Pair, low bool) string {
	var b strings.Builder
	b.WriteString("Feature{Geometry:")
	if g := f.Geom; g == nil {
		b.WriteString("<nil>")
	} else {
		fmt.Fprintf(&b, "{Type:%s,Bounds:", geomNames[g.Type])
		if bx := g.bounds(); bx == emptyBx {
			b.WriteString("<nil>}")
		} else {
			fmt.Fprintf(&b, "[%.8g,%.8g,%.8g,%.8g]}", bx[0], bx[1], bx[2], bx[3])
		}
	}
	b.WriteString(",Properties:{")
	for i, p := range ps {
		if i > 0 {
			b.WriteString(",")
		}
		if n := cols[p.Col].Name.V; len(n) > 0 {
			b.Write(n)
		} else {
			fmt.Fprintf(&b, "[%d]", i)
		}
		v := p.V
		if low && v.Type == ctInt {
			v.U = uint64(uint8(v.U))
		}
		b.WriteString(":" + v.text())
	}
	b.WriteString("}}")
	return b.String()
}

// isErrorText tells whether a summary reports an error and nothing else.
func isErrorText(s string) bool { return strings.HasPrefix(s, "error") }

func c24(c *C) {
	r := c.R
	if c.Idx%3 == 0 {
		h := genHdr(r, pick(r, []uint64{0, 0, 1, 2, 1000, 1 << 31, 1 << 32, math.MaxInt64, 1 << 63, math.MaxUint64}), uint16(pick(r, []int{0, 0, 1, 2, 16, 16, 255, 256, 65535})))
		got := ""
		if r.P(10) { // whatever the schema says an envelope ought to be
			v := make([]float64, pick(r, []int{1, 1, 3, 5, 7, 12, 100}))
			for i := range v {
				v[i] = genCoord(r, r.IntN(6))
			}
			h.Env = some(v)
		}
		if c.Idx%1500 == 3 {
			cs := make([]*ColM, pick(r, []int{32768, 33000, 65536, 65537, 70000}))
			x := &ColM{Name: some([]byte("c"))}
			for i := range cs {
				cs[i] = x
			}
			h.Cols = some(cs)
			c.Count("headers_of_many_columns", 1)
		}
		enc := encode(r, h.table())
		mustNotPanic(c, "HeaderString", func() { got = flatgeobuf.HeaderString(headerOf(slackIf(r, enc))) })
		c.Check(got == h.summary(), "HeaderString gives %q, want %q", clipS(got, 600), clipS(h.summary(), 600))
		c.Eval(1)
		c.State("kind", "header")
		c.Distinct("%s", got)
		c.Briefly("%q", clipS(got, 200))
		if r.P(20) {
			bad, how := corruptHeader(r, enc)
			mustNotPanic(c, "HeaderString", func() { got = flatgeobuf.HeaderString(headerOf(bad)) })
			c.Check(isErrorText(got), "HeaderString of a header with its %s gives %q, want an error text", how, clipS(got, 300))
			c.State("undecodable", "header")
			c.Eval(1)
		}
		return
	}
	// Features. Negative zeros are left out: they equal zeros.
	mode := pick(r, []int{0, 1, 2, 5})
	f := &FeatM{}
	if r.P(85) {
		f.Geom = genGeom(r, mode, r.IntN(5))
		if c.Idx%200 == 11 {
			f.Geom = bigGeom(r)
		}
		if r.P(5) {
			f.Geom = &GeomM{Type: 7, Parts: some([]*GeomM{f.Geom})}
			for d := r.In(1, 60); d > 0; d-- {
				f.Geom = &GeomM{Type: 7, Parts: some([]*GeomM{f.Geom})}
			}
		}
	}
	hcols := genCols(r, r.IntN(6))
	own := genCols(r, r.IntN(4))
	for _, cs := range [][]*ColM{hcols, own} {
		for i := range cs {
			if r.P(10) {
				cs[i].Name = some([]byte{})
			} else if r.P(10) {
				cs[i].Name = some([]byte{pick(r, []byte("aZ0_ [:,"))})
			}
		}
	}
	cols, which := hcols, "schema columns"
	if r.P(40) {
		f.Cols = some(own)
		if len(own) > 0 {
			cols, which = own, "own columns"
		}
	}
	var schema flatgeobuf.Schema
	switch {
	case r.P(15):
		if which != "own columns" {
			cols = nil
		}
		schema = nil
		which += ", no schema"
	case r.P(20):
		schema = featureOf(encode(r, (&FeatM{Cols: some(hcols)}).T()))
		which += ", feature as schema"
	default:
		schema = headerOf(encode(r, (&HdrM{Cols: some(hcols), NodeSize: 16}).table()))
	}
	ps := genPairs(r, cols, r.IntN(8))
	b := encPairs(ps)
	f.Props = some(b)
	if len(b) == 0 && r.P(50) {
		f.Props = Opt[[]byte]{}
	}
	bad := ""
	if r.P(25) {
		switch r.IntN(3) {
		case 0:
			if len(ps) > 0 {
				last := len(ps[len(ps)-1].V.enc()) + 2
				f.Props = some(b[:len(b)-r.In(1, last-1)])
				bad = "list cut inside a pair"
			}
		case 1:
			x := pick(r, []int{len(cols), len(cols) + 1, 65535})
			f.Props = some(append(append([]byte{}, b...), byte(x), byte(x>>8), 0, 0, 0, 0, 0, 0, 0, 0))
			bad = "column outside the schema"
		default:
			if len(ps) > 0 && !f.Cols.OK && schema != nil {
				y := *cols[ps[0].Col]
				y.Type = 77
				bc := append([]*ColM{}, cols...)
				bc[ps[0].Col] = &y
				schema = headerOf(encode(r, (&HdrM{Cols: some(bc), NodeSize: 16}).table()))
				bad = "column of unknown type"
			}
		}
	}
	enc := encode(r, f.T())
	got := ""
	mustNotPanic(c, "FeatureString", func() { got = flatgeobuf.FeatureString(featureOf(slackIf(r, enc)), schema) })
	c.Eval(1)
	c.State("kind", "feature, "+which)
	c.Distinct("%s", got)
	c.Briefly("%s %s: %q", which, bad, clipS(got, 200))
	if bad != "" {
		c.State("undecodable", bad)
		c.Check(isErrorText(got), "FeatureString of a feature with a %s gives %q, want an error text", bad, clipS(got, 300))
		return
	}
	if x, how := corruptGeom(r, enc); x != nil && r.P(20) {
		s := ""
		mustNotPanic(c, "FeatureString", func() { s = flatgeobuf.FeatureString(featureOf(x), schema) })
		c.Check(isErrorText(s), "FeatureString of a feature with %s gives %q, want an error text", how, clipS(s, 300))
		c.State("undecodable", how)
		c.Eval(1)
	}
	if want := f.summary(cols, ps, false); got != want {
		if got == f.summary(cols, ps, true) {
			c.Known(findReadInt, "FeatureString shows only the lowest byte of Int properties, because ReadInt returns only that")
			return
		}
		c.Failf("FeatureString (%s) gives %q, want %q", which, clipS(got, 900), clipS(want, 900))
	}
}
