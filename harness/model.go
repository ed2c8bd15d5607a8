package main

// Models of the FlatGeobuf tables, with the identifiers and defaults of the
// FlatGeobuf 3 schema, and generators for them.

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"
)

// Opt is an optional string or vector.
type Opt[X any] struct {
	V  X
	OK bool
}

func some[X any](v X) Opt[X] { return Opt[X]{v, true} }

type Str = Opt[[]byte]

type ColM struct {
	Name, Title, Desc, Meta Str
	Type                    uint8
	Width, Prec, Scale      int32
	Nullable, Unique, PK    bool
	// Explicit: write defaulted fields explicitly.
	Explicit bool
}

type CrsM struct {
	Org, Name, Desc, Wkt, CodeStr Str
	Code                          int32
	Explicit                      bool
}

type HdrM struct {
	Name, Title, Desc, Meta Str
	Env                     Opt[[]float64]
	GType                   uint8
	Z, M, T, TM             bool
	Cols                    Opt[[]*ColM]
	Count                   uint64
	NodeSize                uint16
	Crs                     *CrsM
	Explicit                bool
}

type GeomM struct {
	Ends     Opt[[]uint32]
	XY       Opt[[]float64]
	Z, M, T  Opt[[]float64]
	TM       Opt[[]uint64]
	Type     uint8
	Parts    Opt[[]*GeomM]
	Explicit bool
}

type FeatM struct {
	Geom  *GeomM
	Props Opt[[]byte]
	Cols  Opt[[]*ColM]
}

func addStr(t *T, slot int, s Str) {
	if s.OK {
		t.str(slot, s.V)
	}
}

func (c *ColM) T() *T {
	t := &T{}
	addStr(t, 0, c.Name)
	x := c.Explicit
	if c.Type != 0 || x {
		t.u8(1, c.Type)
	}
	addStr(t, 2, c.Title)
	addStr(t, 3, c.Desc)
	if c.Width != -1 || x {
		t.i32(4, c.Width)
	}
	if c.Prec != -1 || x {
		t.i32(5, c.Prec)
	}
	if c.Scale != -1 || x {
		t.i32(6, c.Scale)
	}
	if !c.Nullable || x {
		t.boolean(7, c.Nullable)
	}
	if c.Unique || x {
		t.boolean(8, c.Unique)
	}
	if c.PK || x {
		t.boolean(9, c.PK)
	}
	addStr(t, 10, c.Meta)
	return t
}

func (c *CrsM) T() *T {
	t := &T{}
	addStr(t, 0, c.Org)
	if c.Code != 0 || c.Explicit {
		t.i32(1, c.Code)
	}
	addStr(t, 2, c.Name)
	addStr(t, 3, c.Desc)
	addStr(t, 4, c.Wkt)
	addStr(t, 5, c.CodeStr)
	return t
}

func colsT(cs []*ColM) []*T {
	ts := make([]*T, len(cs))
	for i := range cs {
		ts[i] = cs[i].T()
	}
	return ts
}

func (h *HdrM) table() *T {
	t := &T{}
	x := h.Explicit
	addStr(t, 0, h.Name)
	if h.Env.OK {
		t.f64s(1, h.Env.V)
	}
	if h.GType != 0 || x {
		t.u8(2, h.GType)
	}
	for i, v := range []bool{h.Z, h.M, h.T, h.TM} {
		if v || x {
			t.boolean(3+i, v)
		}
	}
	if h.Cols.OK {
		t.tables(7, colsT(h.Cols.V))
	}
	if h.Count != 0 || x {
		t.u64(8, h.Count)
	}
	if h.NodeSize != 16 || x {
		t.u16(9, h.NodeSize)
	}
	if h.Crs != nil {
		t.table(10, h.Crs.T())
	}
	addStr(t, 11, h.Title)
	addStr(t, 12, h.Desc)
	addStr(t, 13, h.Meta)
	return t
}

func (g *GeomM) table() *T {
	t := &T{}
	if g.Ends.OK {
		t.u32s(0, g.Ends.V)
	}
	if g.XY.OK {
		t.f64s(1, g.XY.V)
	}
	if g.Z.OK {
		t.f64s(2, g.Z.V)
	}
	if g.M.OK {
		t.f64s(3, g.M.V)
	}
	if g.T.OK {
		t.f64s(4, g.T.V)
	}
	if g.TM.OK {
		t.u64s(5, g.TM.V)
	}
	if g.Type != 0 || g.Explicit {
		t.u8(6, g.Type)
	}
	if g.Parts.OK {
		ts := make([]*T, len(g.Parts.V))
		for i := range ts {
			ts[i] = g.Parts.V[i].table()
		}
		t.tables(7, ts)
	}
	return t
}

func (f *FeatM) T() *T {
	t := &T{}
	if f.Geom != nil {
		t.table(0, f.Geom.table())
	}
	if f.Props.OK {
		t.vec(1, 1, f.Props.V)
	}
	if f.Cols.OK {
		t.tables(2, colsT(f.Cols.V))
	}
	return t
}

// ---- decoding with the independent decoder

func decStr(d D, slot int) Str {
	v, ok := d.str(slot)
	return Str{append([]byte(nil), v...), ok}
}

func decCol(d D) *ColM {
	return &ColM{
		Name: decStr(d, 0), Type: uint8(d.scalar(1, 1, 0)), Title: decStr(d, 2), Desc: decStr(d, 3),
		Width: int32(d.scalar(4, 4, math.MaxUint32)), Prec: int32(d.scalar(5, 4, math.MaxUint32)), Scale: int32(d.scalar(6, 4, math.MaxUint32)),
		Nullable: d.scalar(7, 1, 1) != 0, Unique: d.scalar(8, 1, 0) != 0, PK: d.scalar(9, 1, 0) != 0, Meta: decStr(d, 10),
	}
}

func decCols(d D, slot int) Opt[[]*ColM] {
	ds, ok := d.tabs(slot)
	var cs []*ColM
	for _, x := range ds {
		cs = append(cs, decCol(x))
	}
	return Opt[[]*ColM]{cs, ok}
}

func decCrs(d D) *CrsM {
	return &CrsM{Org: decStr(d, 0), Code: int32(d.scalar(1, 4, 0)), Name: decStr(d, 2), Desc: decStr(d, 3), Wkt: decStr(d, 4), CodeStr: decStr(d, 5)}
}

func decHdr(d D) *HdrM {
	env, eok := d.f64s(1)
	h := &HdrM{
		Name: decStr(d, 0), Env: Opt[[]float64]{env, eok}, GType: uint8(d.scalar(2, 1, 0)),
		Z: d.scalar(3, 1, 0) != 0, M: d.scalar(4, 1, 0) != 0, T: d.scalar(5, 1, 0) != 0, TM: d.scalar(6, 1, 0) != 0,
		Cols: decCols(d, 7), Count: d.scalar(8, 8, 0), NodeSize: uint16(d.scalar(9, 2, 16)),
		Title: decStr(d, 11), Desc: decStr(d, 12), Meta: decStr(d, 13),
	}
	if c, ok := d.tab(10); ok {
		h.Crs = decCrs(c)
	}
	return h
}

func decGeom(d D) *GeomM {
	g := &GeomM{Type: uint8(d.scalar(6, 1, 0))}
	g.Ends.V, g.Ends.OK = d.u32s(0)
	g.XY.V, g.XY.OK = d.f64s(1)
	g.Z.V, g.Z.OK = d.f64s(2)
	g.M.V, g.M.OK = d.f64s(3)
	g.T.V, g.T.OK = d.f64s(4)
	g.TM.V, g.TM.OK = d.u64s(5)
	ds, ok := d.tabs(7)
	g.Parts.OK = ok
	for _, x := range ds {
		g.Parts.V = append(g.Parts.V, decGeom(x))
	}
	return g
}

func decFeat(d D) *FeatM {
	f := &FeatM{Cols: decCols(d, 2)}
	if g, ok := d.tab(0); ok {
		f.Geom = decGeom(g)
	}
	p, ok := d.raw(1, 1)
	f.Props = Opt[[]byte]{p, ok}
	return f
}

// canon renders a model canonically (bit exact), for comparison.
func canonStr(s Str) string {
	if !s.OK {
		return "-"
	}
	return fmt.Sprintf("%q", s.V)
}
func canonF(v Opt[[]float64]) string {
	if !v.OK {
		return "-"
	}
	var b strings.Builder
	b.WriteByte('[')
	for _, x := range v.V {
		fmt.Fprintf(&b, "%x ", math.Float64bits(x))
	}
	b.WriteByte(']')
	return b.String()
}
func (c *ColM) canon() string {
	return fmt.Sprintf("col{%s %d %s %s %d %d %d %v %v %v %s}", canonStr(c.Name), c.Type, canonStr(c.Title), canonStr(c.Desc), c.Width, c.Prec, c.Scale, c.Nullable, c.Unique, c.PK, canonStr(c.Meta))
}
func (c *CrsM) canon() string {
	return fmt.Sprintf("crs{%s %d %s %s %s %s}", canonStr(c.Org), c.Code, canonStr(c.Name), canonStr(c.Desc), canonStr(c.Wkt), canonStr(c.CodeStr))
}
func canonCols(c Opt[[]*ColM]) string {
	if !c.OK {
		return "-"
	}
	s := "["
	for _, x := range c.V {
		s += x.canon()
	}
	return s + "]"
}
func (h *HdrM) canon() string {
	crs := "-"
	if h.Crs != nil {
		crs = h.Crs.canon()
	}
	return fmt.Sprintf("hdr{%s %s %d %v%v%v%v %s %d %d %s %s %s %s}", canonStr(h.Name), canonF(h.Env), h.GType, h.Z, h.M, h.T, h.TM, canonCols(h.Cols), h.Count, h.NodeSize, crs, canonStr(h.Title), canonStr(h.Desc), canonStr(h.Meta))
}
func (g *GeomM) canon() string {
	if g == nil {
		return "-"
	}
	ps := "-"
	if g.Parts.OK {
		ps = "["
		for _, p := range g.Parts.V {
			ps += p.canon()
		}
		ps += "]"
	}
	e, tm := "-", "-"
	if g.Ends.OK {
		e = fmt.Sprint(g.Ends.V)
	}
	if g.TM.OK {
		tm = fmt.Sprint(g.TM.V)
	}
	return fmt.Sprintf("geom{%s %s %s %s %s %s %d %s}", e, canonF(g.XY), canonF(g.Z), canonF(g.M), canonF(g.T), tm, g.Type, ps)
}
func (f *FeatM) canon() string {
	return fmt.Sprintf("feat{%s %s %s}", f.Geom.canon(), canonStr(f.Props), canonCols(f.Cols))
}

// bounds is the bounding box of all coordinates, in the order xmin, ymin,
// xmax, ymax; empty if there are none.
func (g *GeomM) bounds() Bx {
	b := emptyBx
	if g == nil {
		return b
	}
	if g.XY.OK {
		for i := 0; i+1 < len(g.XY.V); i += 2 {
			b = b.point(g.XY.V[i], g.XY.V[i+1])
		}
	}
	if g.Parts.OK {
		for _, p := range g.Parts.V {
			b = b.union(p.bounds())
		}
	}
	return b
}

// Bx is the reference box.
type Bx [4]float64

var emptyBx = Bx{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}

func (b Bx) point(x, y float64) Bx {
	if x < b[0] {
		b[0] = x
	}
	if y < b[1] {
		b[1] = y
	}
	if x > b[2] {
		b[2] = x
	}
	if y > b[3] {
		b[3] = y
	}
	return b
}

func (b Bx) union(c Bx) Bx {
	for i := 0; i < 2; i++ {
		if c[i] < b[i] {
			b[i] = c[i]
		}
		if c[i+2] > b[i+2] {
			b[i+2] = c[i+2]
		}
	}
	return b
}

// hits is closed interval intersection.
func (b Bx) hits(c Bx) bool {
	return b[0] <= c[2] && c[0] <= b[2] && b[1] <= c[3] && c[1] <= b[3]
}

func (b Bx) proper() bool { return b[0] <= b[2] && b[1] <= b[3] }

// ---- generators

var words = []string{"", "a", "name", "Ünïcödé", "日本語", "with\x00nul", "new\nline", "a longer piece of text which goes on for a while", "\xff\xfe", "{\"json\":true}"}

func genStr(r *Rng) []byte {
	switch r.IntN(6) {
	case 0:
		return r.Bytes(r.IntN(20))
	case 1:
		return []byte(fmt.Sprintf("s%d", r.IntN(1000)))
	default:
		return []byte(pick(r, words))
	}
}

func genOptStr(r *Rng, pct int) Str {
	if r.P(pct) {
		return some(genStr(r))
	}
	return Str{}
}

func genName(r *Rng) []byte {
	return []byte(fmt.Sprintf("%s%d", pick(r, []string{"c", "col_", "näme", "FIELD"}), r.IntN(1000)))
}

func genCol(r *Rng, typ uint8) *ColM {
	c := &ColM{Name: some(genName(r)), Type: typ, Width: -1, Prec: -1, Scale: -1, Nullable: true}
	if r.P(30) {
		c.Title, c.Desc, c.Meta = genOptStr(r, 50), genOptStr(r, 50), genOptStr(r, 50)
		c.Width, c.Prec, c.Scale = genI32(r, -1), genI32(r, -1), genI32(r, -1)
		c.Nullable, c.Unique, c.PK = r.P(50), r.P(50), r.P(50)
	}
	c.Explicit = r.P(20)
	return c
}

func genI32(r *Rng, def int32) int32 {
	switch r.IntN(6) {
	case 0:
		return def
	case 1:
		return 0
	case 2:
		return math.MaxInt32
	case 3:
		return math.MinInt32
	case 4:
		return int32(r.IntN(300)) - 5
	default:
		return int32(r.Uint32())
	}
}

func genCrs(r *Rng) *CrsM {
	return &CrsM{Org: genOptStr(r, 60), Code: genI32(r, 0), Name: genOptStr(r, 50), Desc: genOptStr(r, 40), Wkt: genOptStr(r, 50), CodeStr: genOptStr(r, 40), Explicit: r.P(20)}
}

// coordinates without NaN
func genCoord(r *Rng, mode int) float64 {
	switch mode {
	case 0: // small grid
		return float64(r.IntN(9))
	case 1: // larger grid
		return float64(r.IntN(2001) - 1000)
	case 2: // degrees
		return r.Float64()*360 - 180
	case 3: // anything finite
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) && math.Abs(f) < 1e300 {
				return f
			}
		}
	case 4: // special
		return pick(r, []float64{0, math.Copysign(0, -1), 1, -1, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat64, -math.MaxFloat64, 1e-300, 65535, 65536, 4294967296, 0.1, 0.2, 0.30000000000000004})
	default: // clustered
		return 1000 + r.Float64()*1e-9
	}
}

func genGeom(r *Rng, mode, depth int) *GeomM {
	g := &GeomM{Explicit: r.P(20)}
	n := pick(r, []int{0, 1, 1, 1, 2, 3, 5, 10})
	if r.P(3) {
		n = r.In(100, 600)
	}
	if depth > 0 && r.P(50) {
		k := r.In(0, 4)
		var ps []*GeomM
		for i := 0; i < k; i++ {
			ps = append(ps, genGeom(r, mode, depth-1))
		}
		g.Parts = some(ps)
		g.Type = pick(r, []uint8{4, 5, 6, 7, 15, 16, 9, 11, 12, 0})
		if r.P(70) {
			n = 0
		}
	} else {
		g.Type = uint8(r.IntN(18))
	}
	if n > 0 || r.P(20) {
		xy := make([]float64, 0, 2*n)
		for i := 0; i < n; i++ {
			xy = append(xy, genCoord(r, mode), genCoord(r, mode))
		}
		g.XY = some(xy)
		f := func(pct int) Opt[[]float64] {
			if !r.P(pct) {
				return Opt[[]float64]{}
			}
			v := make([]float64, n)
			for i := range v {
				v[i] = genCoord(r, mode)
			}
			return some(v)
		}
		g.Z, g.M, g.T = f(25), f(15), f(10)
		if r.P(10) {
			v := make([]uint64, n)
			for i := range v {
				v[i] = r.Uint64()
			}
			g.TM = some(v)
		}
		if r.P(30) {
			g.Ends = some([]uint32{uint32(n / 2), uint32(n)})
			if r.P(25) { // not all of them
				g.Ends.V[1] = uint32(r.IntN(n + 1))
			}
		}
	}
	return g
}

// bigGeom makes a geometry of very many coordinates or parts, whose extremes
// lie at places where code that counts too small or works in pieces errs.
func bigGeom(r *Rng) *GeomM {
	n := pick(r, []int{256, 257, 300, 1 << 10, 1<<12 + 1, 1 << 13, 1<<14 + 1, 1 << 15, 1<<15 + 1, 1 << 16, 1<<16 + 1, 70000})
	at := map[int]bool{n - 1: true, r.IntN(n): true, n &^ 0xff: true}
	if r.P(50) {
		at[1<<uint(bitLen(uint64(n))-1)-1] = true
	}
	coord := func(i int) float64 {
		if at[i] && r.P(70) {
			return (r.Float64() - 0.5) * 1e6
		}
		return r.Float64()
	}
	g := &GeomM{Type: pick(r, []uint8{2, 3, 4, 7})}
	if r.P(60) {
		xy := make([]float64, 0, 2*n)
		for i := 0; i < n; i++ {
			xy = append(xy, coord(i), coord(i))
		}
		g.XY = some(xy)
		if r.P(30) {
			g.Parts = some([]*GeomM{{Type: 1, XY: some([]float64{2, -1})}})
		}
		return g
	}
	ps := make([]*GeomM, n)
	for i := range ps {
		ps[i] = &GeomM{Type: 1, XY: some([]float64{coord(i), coord(i)})}
	}
	g.Parts = some(ps)
	return g
}

// Column types of the schema.
const (
	ctByte = iota
	ctUByte
	ctBool
	ctShort
	ctUShort
	ctInt
	ctUInt
	ctLong
	ctULong
	ctFloat
	ctDouble
	ctString
	ctJson
	ctDateTime
	ctBinary
	numColTypes
)

// PVal is a property value of a given type.
type PVal struct {
	Type uint8
	U    uint64 // bits of numeric and boolean values
	B    []byte // String, Json, DateTime, Binary
}

func numSize(typ uint8) int {
	return []int{1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, -1, -1, -1, -1}[typ]
}

func (v PVal) enc() []byte {
	if n := numSize(v.Type); n > 0 {
		return le(n, v.U)
	}
	return append(le(4, uint64(len(v.B))), v.B...)
}

func genPVal(r *Rng, typ uint8) PVal {
	v := PVal{Type: typ}
	n := numSize(typ)
	switch {
	case typ == ctBool:
		v.U = uint64(r.IntN(2))
	case typ == ctFloat:
		switch r.IntN(4) {
		case 0:
			v.U = uint64(math.Float32bits(float32(genCoord(r, 1))))
		case 1:
			v.U = uint64(pick(r, []uint32{0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc12345, 0xffc00001, 1, 0x7f7fffff}))
		default:
			v.U = uint64(r.Uint32())
			if x := uint32(v.U); x&0x7f800000 == 0x7f800000 && x&0x7fffff != 0 {
				v.U |= 0x400000 // signalling NaNs do not survive float moves everywhere
			}
		}
	case typ == ctDouble:
		switch r.IntN(4) {
		case 0:
			v.U = math.Float64bits(genCoord(r, r.IntN(6)))
		case 1:
			v.U = pick(r, []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff8000000012345, 0xfff8000000000001, 1})
		default:
			v.U = r.Uint64()
			if v.U&0x7ff0000000000000 == 0x7ff0000000000000 && v.U&0xfffffffffffff != 0 {
				v.U |= 0x8000000000000
			}
		}
	case n > 0:
		bits := 8 * n
		mask := ^uint64(0) >> (64 - bits)
		switch r.IntN(6) {
		case 0:
			v.U = uint64(r.IntN(4))
		case 1:
			v.U = ^uint64(0)
		case 2:
			v.U = 1 << (bits - 1)
		case 3:
			v.U = 1<<(bits-1) - 1
		case 4:
			v.U = uint64(0x80) << (8 * r.IntN(n))
		default:
			v.U = r.Uint64()
		}
		v.U &= mask
	default:
		switch r.IntN(8) {
		case 0:
			v.B = []byte{}
		case 1:
			v.B = r.Bytes(r.In(1, 400))
		case 2:
			if r.P(10) {
				v.B = r.Bytes(r.In(5000, 70000))
			} else {
				v.B = r.Bytes(1)
			}
		default:
			v.B = genStr(r)
		}
	}
	return v
}

// text is how fmt.Fprint prints the value.
func (v PVal) text() string {
	switch v.Type {
	case ctByte:
		return fmt.Sprint(int8(v.U))
	case ctUByte:
		return fmt.Sprint(uint8(v.U))
	case ctBool:
		return fmt.Sprint(v.U != 0)
	case ctShort:
		return fmt.Sprint(int16(v.U))
	case ctUShort:
		return fmt.Sprint(uint16(v.U))
	case ctInt:
		return fmt.Sprint(int32(v.U))
	case ctUInt:
		return fmt.Sprint(uint32(v.U))
	case ctLong:
		return fmt.Sprint(int64(v.U))
	case ctULong:
		return fmt.Sprint(v.U)
	case ctFloat:
		return fmt.Sprint(math.Float32frombits(uint32(v.U)))
	case ctDouble:
		return fmt.Sprint(math.Float64frombits(v.U))
	case ctString, ctDateTime:
		return string(v.B)
	default:
		return fmt.Sprint(v.B)
	}
}

// Pair is one encoded property.
type Pair struct {
	Col int
	V   PVal
}

func encPairs(ps []Pair) []byte {
	b := []byte{}
	for _, p := range ps {
		b = binary.LittleEndian.AppendUint16(b, uint16(p.Col))
		b = append(b, p.V.enc()...)
	}
	return b
}

func genCols(r *Rng, n int) []*ColM {
	cs := make([]*ColM, n)
	for i := range cs {
		cs[i] = genCol(r, uint8(r.IntN(numColTypes)))
	}
	return cs
}

func genPairs(r *Rng, cols []*ColM, n int) []Pair {
	var ps []Pair
	if len(cols) == 0 {
		return ps
	}
	for i := 0; i < n; i++ {
		c := r.IntN(len(cols))
		if r.P(50) && i < len(cols) {
			c = i
		}
		ps = append(ps, Pair{c, genPVal(r, cols[c].Type)})
	}
	return ps
}

func genHdr(r *Rng, count uint64, nodeSize uint16) *HdrM {
	h := &HdrM{Count: count, NodeSize: nodeSize, GType: uint8(r.IntN(18)), Explicit: r.P(20)}
	if r.P(80) {
		h.Name = some(genStr(r))
	}
	h.Title, h.Desc, h.Meta = genOptStr(r, 30), genOptStr(r, 30), genOptStr(r, 20)
	if r.P(50) {
		n := pick(r, []int{0, 2, 4, 4, 4, 6, 8})
		v := make([]float64, n)
		for i := range v {
			v[i] = genCoord(r, r.IntN(6))
		}
		h.Env = some(v)
	}
	h.Z, h.M, h.T, h.TM = r.P(30), r.P(20), r.P(20), r.P(20)
	if r.P(70) {
		h.Cols = some(genCols(r, pick(r, []int{0, 1, 2, 3, 5, 15})))
	}
	if r.P(50) {
		h.Crs = genCrs(r)
	}
	return h
}

// genFeat makes a feature; id is put in its properties to make it unique.
func genFeat(r *Rng, mode int, cols []*ColM, id int) *FeatM {
	f := &FeatM{}
	if r.P(92) {
		f.Geom = genGeom(r, mode, r.IntN(4))
	}
	if r.P(15) {
		own := genCols(r, r.In(1, 4))
		f.Cols = some(own)
		cols = own
	}
	if len(cols) > 0 && r.P(80) {
		f.Props = some(encPairs(genPairs(r, cols, r.IntN(6))))
	} else if r.P(20) {
		f.Props = some([]byte{})
	}
	return f
}
