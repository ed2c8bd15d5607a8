package main

// C23: the generated tables of package flat.

import (
	"bytes"
	"fmt"
	"math"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	fb "github.com/google/flatbuffers/go"
)

func init() {
	register(&Prop{ID: "C23", Quick: 60000, Thorough: 400000,
		Rule: "models of all five tables; (a) built with package flat's builder functions in random field order and decoded with an independent decoder, (b) encoded by an independent encoder and read through every accessor, (c) every mutator applied and the whole table decoded again, expecting only the addressed field to differ; names and values of the enumerations compared with the schema; distinct by (table contents)",
		Run:  c23})
}

// ---- reading through the accessors

func accStr(b []byte) Str {
	if b == nil {
		return Str{}
	}
	return Str{append([]byte{}, b...), true}
}

func accCol(x *flat.Column) *ColM {
	return &ColM{Name: accStr(x.Name()), Type: uint8(x.Type()), Title: accStr(x.Title()), Desc: accStr(x.Description()), Width: x.Width(), Prec: x.Precision(), Scale: x.Scale(), Nullable: x.Nullable(), Unique: x.Unique(), PK: x.PrimaryKey(), Meta: accStr(x.Metadata())}
}

func accCols(n int, get func(*flat.Column, int) bool, ok bool) Opt[[]*ColM] {
	var cs []*ColM
	for i := 0; i < n; i++ {
		var x flat.Column
		if !get(&x, i) {
			panic(violation{fmt.Sprintf("column %d of %d is missing", i, n)})
		}
		cs = append(cs, accCol(&x))
	}
	return Opt[[]*ColM]{cs, ok}
}

func accCrs(x *flat.Crs) *CrsM {
	return &CrsM{Org: accStr(x.Org()), Code: x.Code(), Name: accStr(x.Name()), Desc: accStr(x.Description()), Wkt: accStr(x.Wkt()), CodeStr: accStr(x.CodeString())}
}

// absent panics unless elements of a vector which is not there read as
// default values.
func absent(what string, there bool, reads ...bool) {
	for _, ok := range reads {
		if !there && !ok {
			panic(violation{"elements of the absent " + what + " vector are there, or not zero"})
		}
	}
}

// The accessors don't tell an absent vector from an empty one: ok says which
// vectors are there according to the model.
func accHdr(x *flat.Header, m *HdrM) *HdrM {
	h := &HdrM{Name: accStr(x.Name()), Title: accStr(x.Title()), Desc: accStr(x.Description()), Meta: accStr(x.Metadata()), GType: uint8(x.GeometryType()), Z: x.HasZ(), M: x.HasM(), T: x.HasT(), TM: x.HasTm(), Count: x.FeaturesCount(), NodeSize: x.IndexNodeSize()}
	h.Env.OK = m.Env.OK
	for i := 0; i < x.EnvelopeLength(); i++ {
		h.Env.V = append(h.Env.V, x.Envelope(i))
	}
	absent("envelope", m.Env.OK, x.EnvelopeLength() == 0, m.Env.OK || x.Envelope(0) == 0, m.Env.OK || x.Envelope(2) == 0)
	absent("columns", m.Cols.OK, x.ColumnsLength() == 0, m.Cols.OK || !x.Columns(&flat.Column{}, 0))
	h.Cols = accCols(x.ColumnsLength(), x.Columns, m.Cols.OK)
	if c := x.Crs(nil); c != nil {
		h.Crs = accCrs(c)
	}
	return h
}

func accGeom(x *flat.Geometry, m *GeomM) *GeomM {
	g := &GeomM{Type: uint8(x.Type())}
	f := func(n int, get func(int) float64, ok bool) Opt[[]float64] {
		v := Opt[[]float64]{OK: ok}
		for i := 0; i < n; i++ {
			v.V = append(v.V, get(i))
		}
		return v
	}
	g.XY = f(x.XyLength(), x.Xy, m.XY.OK)
	g.Z = f(x.ZLength(), x.Z, m.Z.OK)
	g.M = f(x.MLength(), x.M, m.M.OK)
	g.T = f(x.TLength(), x.T, m.T.OK)
	g.Ends.OK, g.TM.OK, g.Parts.OK = m.Ends.OK, m.TM.OK, m.Parts.OK
	for i := 0; i < x.EndsLength(); i++ {
		g.Ends.V = append(g.Ends.V, x.Ends(i))
	}
	for i := 0; i < x.TmLength(); i++ {
		g.TM.V = append(g.TM.V, x.Tm(i))
	}
	if n := x.PartsLength(); n != len(m.Parts.V) {
		panic(violation{fmt.Sprintf("PartsLength returns %d, want %d", n, len(m.Parts.V))})
	}
	for what, v := range map[string]struct {
		ok  bool
		n   int
		get func(int) float64
	}{"xy": {m.XY.OK, x.XyLength(), x.Xy}, "z": {m.Z.OK, x.ZLength(), x.Z}, "m": {m.M.OK, x.MLength(), x.M}, "t": {m.T.OK, x.TLength(), x.T},
		"tm":   {m.TM.OK, x.TmLength(), func(i int) float64 { return float64(x.Tm(i)) }},
		"ends": {m.Ends.OK, x.EndsLength(), func(i int) float64 { return float64(x.Ends(i)) }}} {
		absent(what, v.ok, v.n == 0, v.ok || v.get(0) == 0, v.ok || v.get(3) == 0)
	}
	absent("parts", m.Parts.OK, m.Parts.OK || !x.Parts(&flat.Geometry{}, 0))
	for i := range m.Parts.V {
		var y flat.Geometry
		if !x.Parts(&y, i) {
			panic(violation{fmt.Sprintf("part %d is missing", i)})
		}
		g.Parts.V = append(g.Parts.V, accGeom(&y, m.Parts.V[i]))
	}
	return g
}

func accFeat(x *flat.Feature, m *FeatM) *FeatM {
	f := &FeatM{}
	if g := x.Geometry(nil); g != nil {
		if m.Geom == nil {
			panic(violation{"Geometry returns one, but there is none"})
		}
		f.Geom = accGeom(g, m.Geom)
	}
	b := x.PropertiesBytes()
	if x.PropertiesLength() != len(b) {
		panic(violation{fmt.Sprintf("PropertiesLength returns %d, PropertiesBytes %d bytes", x.PropertiesLength(), len(b))})
	}
	for i := 0; i < len(b) && i < 100; i++ {
		if x.Properties(i) != b[i] {
			panic(violation{fmt.Sprintf("Properties(%d) differs from PropertiesBytes", i)})
		}
	}
	if n := len(b); n > 100 {
		for _, i := range []int{100, 127, 128, 255, 256, n / 2, n - 1} {
			if i < n && x.Properties(i) != b[i] {
				panic(violation{fmt.Sprintf("Properties(%d) differs from PropertiesBytes", i)})
			}
		}
	}
	absent("properties", m.Props.OK, b == nil, m.Props.OK || x.Properties(0) == 0, m.Props.OK || x.Properties(9) == 0)
	absent("columns", m.Cols.OK, x.ColumnsLength() == 0, m.Cols.OK || !x.Columns(&flat.Column{}, 0))
	f.Props = Str{append([]byte{}, b...), m.Props.OK}
	f.Cols = accCols(x.ColumnsLength(), x.Columns, m.Cols.OK)
	return f
}

// ---- building with the builder functions

type bld struct {
	r *Rng
	b *fb.Builder
}

// run calls the field functions in random order.
func (x bld) run(fs []func()) {
	x.r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for _, f := range fs {
		f()
	}
}

func (x bld) str(fs *[]func(), s Str, add func(*fb.Builder, fb.UOffsetT)) {
	if !s.OK {
		return
	}
	o := x.b.CreateByteString(s.V)
	*fs = append(*fs, func() { add(x.b, o) })
}

func (x bld) f64s(fs *[]func(), v Opt[[]float64], start func(*fb.Builder, int) fb.UOffsetT, add func(*fb.Builder, fb.UOffsetT)) {
	if !v.OK {
		return
	}
	start(x.b, len(v.V))
	for i := len(v.V) - 1; i >= 0; i-- {
		x.b.PrependFloat64(v.V[i])
	}
	o := x.b.EndVector(len(v.V))
	*fs = append(*fs, func() { add(x.b, o) })
}

func (x bld) offs(fs *[]func(), os []fb.UOffsetT, start func(*fb.Builder, int) fb.UOffsetT, add func(*fb.Builder, fb.UOffsetT)) {
	start(x.b, len(os))
	for i := len(os) - 1; i >= 0; i-- {
		x.b.PrependUOffsetT(os[i])
	}
	o := x.b.EndVector(len(os))
	*fs = append(*fs, func() { add(x.b, o) })
}

func (x bld) col(c *ColM) fb.UOffsetT {
	var fs []func()
	x.str(&fs, c.Name, flat.ColumnAddName)
	x.str(&fs, c.Title, flat.ColumnAddTitle)
	x.str(&fs, c.Desc, flat.ColumnAddDescription)
	x.str(&fs, c.Meta, flat.ColumnAddMetadata)
	b := x.b
	fs = append(fs, func() { flat.ColumnAddType(b, flat.ColumnType(c.Type)) }, func() { flat.ColumnAddWidth(b, c.Width) }, func() { flat.ColumnAddPrecision(b, c.Prec) }, func() { flat.ColumnAddScale(b, c.Scale) }, func() { flat.ColumnAddNullable(b, c.Nullable) }, func() { flat.ColumnAddUnique(b, c.Unique) }, func() { flat.ColumnAddPrimaryKey(b, c.PK) })
	flat.ColumnStart(b)
	x.run(fs)
	return flat.ColumnEnd(b)
}

func (x bld) cols(cs []*ColM) (os []fb.UOffsetT) {
	for _, c := range cs {
		os = append(os, x.col(c))
	}
	return
}

func (x bld) crs(c *CrsM) fb.UOffsetT {
	var fs []func()
	x.str(&fs, c.Org, flat.CrsAddOrg)
	x.str(&fs, c.Name, flat.CrsAddName)
	x.str(&fs, c.Desc, flat.CrsAddDescription)
	x.str(&fs, c.Wkt, flat.CrsAddWkt)
	x.str(&fs, c.CodeStr, flat.CrsAddCodeString)
	fs = append(fs, func() { flat.CrsAddCode(x.b, c.Code) })
	flat.CrsStart(x.b)
	x.run(fs)
	return flat.CrsEnd(x.b)
}

func (x bld) hdr(h *HdrM) fb.UOffsetT {
	var fs []func()
	b := x.b
	x.str(&fs, h.Name, flat.HeaderAddName)
	x.str(&fs, h.Title, flat.HeaderAddTitle)
	x.str(&fs, h.Desc, flat.HeaderAddDescription)
	x.str(&fs, h.Meta, flat.HeaderAddMetadata)
	x.f64s(&fs, h.Env, flat.HeaderStartEnvelopeVector, flat.HeaderAddEnvelope)
	if h.Cols.OK {
		x.offs(&fs, x.cols(h.Cols.V), flat.HeaderStartColumnsVector, flat.HeaderAddColumns)
	}
	if h.Crs != nil {
		o := x.crs(h.Crs)
		fs = append(fs, func() { flat.HeaderAddCrs(b, o) })
	}
	fs = append(fs, func() { flat.HeaderAddGeometryType(b, flat.GeometryType(h.GType)) }, func() { flat.HeaderAddHasZ(b, h.Z) }, func() { flat.HeaderAddHasM(b, h.M) }, func() { flat.HeaderAddHasT(b, h.T) }, func() { flat.HeaderAddHasTm(b, h.TM) }, func() { flat.HeaderAddFeaturesCount(b, h.Count) }, func() { flat.HeaderAddIndexNodeSize(b, h.NodeSize) })
	flat.HeaderStart(b)
	x.run(fs)
	return flat.HeaderEnd(b)
}

func (x bld) geom(g *GeomM) fb.UOffsetT {
	var fs []func()
	b := x.b
	if g.Parts.OK {
		var os []fb.UOffsetT
		for _, p := range g.Parts.V {
			os = append(os, x.geom(p))
		}
		x.offs(&fs, os, flat.GeometryStartPartsVector, flat.GeometryAddParts)
	}
	x.f64s(&fs, g.XY, flat.GeometryStartXyVector, flat.GeometryAddXy)
	x.f64s(&fs, g.Z, flat.GeometryStartZVector, flat.GeometryAddZ)
	x.f64s(&fs, g.M, flat.GeometryStartMVector, flat.GeometryAddM)
	x.f64s(&fs, g.T, flat.GeometryStartTVector, flat.GeometryAddT)
	if g.Ends.OK {
		flat.GeometryStartEndsVector(b, len(g.Ends.V))
		for i := len(g.Ends.V) - 1; i >= 0; i-- {
			b.PrependUint32(g.Ends.V[i])
		}
		o := b.EndVector(len(g.Ends.V))
		fs = append(fs, func() { flat.GeometryAddEnds(b, o) })
	}
	if g.TM.OK {
		flat.GeometryStartTmVector(b, len(g.TM.V))
		for i := len(g.TM.V) - 1; i >= 0; i-- {
			b.PrependUint64(g.TM.V[i])
		}
		o := b.EndVector(len(g.TM.V))
		fs = append(fs, func() { flat.GeometryAddTm(b, o) })
	}
	fs = append(fs, func() { flat.GeometryAddType(b, flat.GeometryType(g.Type)) })
	flat.GeometryStart(b)
	x.run(fs)
	return flat.GeometryEnd(b)
}

func (x bld) feat(f *FeatM) fb.UOffsetT {
	var fs []func()
	b := x.b
	if f.Geom != nil {
		o := x.geom(f.Geom)
		fs = append(fs, func() { flat.FeatureAddGeometry(b, o) })
	}
	if f.Props.OK {
		var o fb.UOffsetT
		if x.r.P(50) {
			o = b.CreateByteVector(f.Props.V)
		} else {
			flat.FeatureStartPropertiesVector(b, len(f.Props.V))
			for i := len(f.Props.V) - 1; i >= 0; i-- {
				b.PrependByte(f.Props.V[i])
			}
			o = b.EndVector(len(f.Props.V))
		}
		fs = append(fs, func() { flat.FeatureAddProperties(b, o) })
	}
	if f.Cols.OK {
		x.offs(&fs, x.cols(f.Cols.V), flat.FeatureStartColumnsVector, flat.FeatureAddColumns)
	}
	flat.FeatureStart(b)
	x.run(fs)
	return flat.FeatureEnd(b)
}

// genColAny, genHdrAny: with values of every kind, also nonsensical ones.
func genColAny(r *Rng) *ColM {
	c := genCol(r, uint8(r.IntN(256)))
	if r.P(30) {
		c.Name = Str{}
	}
	c.Width, c.Prec, c.Scale = genI32(r, -1), genI32(r, -1), genI32(r, -1)
	c.Nullable, c.Unique, c.PK = r.P(50), r.P(50), r.P(50)
	c.Title, c.Desc, c.Meta = genOptStr(r, 50), genOptStr(r, 50), genOptStr(r, 50)
	return c
}

func genCountAny(r *Rng) uint64 {
	return pick(r, []uint64{0, 1, 255, 256, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64, r.Uint64()})
}

func c23(c *C) {
	r := c.R
	root := decodeRoot
	kind := []string{"Header", "Column", "Crs", "Feature", "Geometry"}[c.Idx%5]
	var want string
	var own *T
	var build func(x bld) fb.UOffsetT
	var canon func(b []byte) string                       // independent decoder
	var acc func(b []byte, prefixed bool, off int) string // accessors
	var fin, finSP func(*fb.Builder, fb.UOffsetT)
	var hm *HdrM
	var cm *ColM
	var rm *CrsM
	var fm *FeatM
	var gm *GeomM
	switch kind {
	case "Header":
		hm = genHdr(r, genCountAny(r), uint16(r.Uint32()))
		if r.P(30) {
			hm.NodeSize = uint16(pick(r, []int{0, 1, 16, 15, 17, 65535}))
		}
		hm.GType = uint8(r.IntN(256))
		if hm.Cols.OK {
			for i := range hm.Cols.V {
				hm.Cols.V[i] = genColAny(r)
			}
		}
		want, own, build = hm.canon(), hm.table(), func(x bld) fb.UOffsetT { return x.hdr(hm) }
		canon = func(b []byte) string { return decHdr(root(b)).canon() }
		acc = func(b []byte, sp bool, off int) string {
			if sp {
				return accHdr(flat.GetSizePrefixedRootAsHeader(b, fb.UOffsetT(off)), hm).canon()
			}
			return accHdr(flat.GetRootAsHeader(b, fb.UOffsetT(off)), hm).canon()
		}
		fin, finSP = flat.FinishHeaderBuffer, flat.FinishSizePrefixedHeaderBuffer
	case "Column":
		cm = genColAny(r)
		want, own, build = cm.canon(), cm.T(), func(x bld) fb.UOffsetT { return x.col(cm) }
		canon = func(b []byte) string { return decCol(root(b)).canon() }
		acc = func(b []byte, sp bool, off int) string {
			if sp {
				return accCol(flat.GetSizePrefixedRootAsColumn(b, fb.UOffsetT(off))).canon()
			}
			return accCol(flat.GetRootAsColumn(b, fb.UOffsetT(off))).canon()
		}
		fin, finSP = flat.FinishColumnBuffer, flat.FinishSizePrefixedColumnBuffer
	case "Crs":
		rm = genCrs(r)
		want, own, build = rm.canon(), rm.T(), func(x bld) fb.UOffsetT { return x.crs(rm) }
		canon = func(b []byte) string { return decCrs(root(b)).canon() }
		acc = func(b []byte, sp bool, off int) string {
			if sp {
				return accCrs(flat.GetSizePrefixedRootAsCrs(b, fb.UOffsetT(off))).canon()
			}
			return accCrs(flat.GetRootAsCrs(b, fb.UOffsetT(off))).canon()
		}
		fin, finSP = flat.FinishCrsBuffer, flat.FinishSizePrefixedCrsBuffer
	case "Feature":
		fm = genFeat(r, r.IntN(6), genCols(r, r.IntN(4)), 0)
		if r.P(30) {
			fm.Props = some(r.Bytes(r.IntN(300)))
		}
		want, own, build = fm.canon(), fm.T(), func(x bld) fb.UOffsetT { return x.feat(fm) }
		canon = func(b []byte) string { return decFeat(root(b)).canon() }
		acc = func(b []byte, sp bool, off int) string {
			if sp {
				return accFeat(flat.GetSizePrefixedRootAsFeature(b, fb.UOffsetT(off)), fm).canon()
			}
			return accFeat(flat.GetRootAsFeature(b, fb.UOffsetT(off)), fm).canon()
		}
		fin, finSP = flat.FinishFeatureBuffer, flat.FinishSizePrefixedFeatureBuffer
	default:
		gm = genGeom(r, r.IntN(6), r.IntN(4))
		gm.Type = uint8(r.IntN(256))
		if r.P(50) && gm.XY.OK {
			n := r.In(1, 6)
			v := make([]uint32, n)
			for i := range v {
				v[i] = r.Uint32()
			}
			gm.Ends = some(v)
		}
		want, own, build = gm.canon(), gm.table(), func(x bld) fb.UOffsetT { return x.geom(gm) }
		canon = func(b []byte) string { return decGeom(root(b)).canon() }
		acc = func(b []byte, sp bool, off int) string {
			if sp {
				return accGeom(flat.GetSizePrefixedRootAsGeometry(b, fb.UOffsetT(off)), gm).canon()
			}
			return accGeom(flat.GetRootAsGeometry(b, fb.UOffsetT(off)), gm).canon()
		}
		fin, finSP = flat.FinishGeometryBuffer, flat.FinishSizePrefixedGeometryBuffer
	}
	c.Briefly("%s %s", kind, clipS(want, 300))
	c.Distinct("%s", want)
	c.State("table", kind)
	// (a) built by the code under test, decoded independently
	b := fb.NewBuilder(r.IntN(2000))
	o := build(bld{r, b})
	sp := r.P(60)
	var built []byte
	if sp {
		finSP(b, o)
		built = append([]byte(nil), b.FinishedBytes()...)
		c.Check(int(fb.GetUint32(built)) == len(built)-4, "FinishSizePrefixed%sBuffer: size prefix %d of %d bytes", kind, fb.GetUint32(built), len(built))
	} else {
		fin(b, o)
		x := b.FinishedBytes()
		built = append(le(4, uint64(len(x))), x...)
	}
	// What the builder functions make is aligned as well.
	base := 0
	if !sp {
		base = 4
	}
	root = func(b []byte) D {
		d := decodeRoot(b)
		d.al = base + 1
		return d
	}
	got := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				got = fmt.Sprintf("undecodable: %v", e)
			}
		}()
		got = canon(built)
	}()
	c.Check(got == want, "%s built with package flat decodes to %s, want %s", kind, clipS(got, 600), clipS(want, 600))
	c.Eval(1)
	root = decodeRoot
	// (b) encoded independently, read through the accessors
	for i := 0; i < 2; i++ {
		x := encodeOwn(r, own)
		if i == 1 {
			x = encodeGoogle(own)
		}
		off := 0
		y := x
		prefixed := r.P(60)
		if !prefixed {
			y = y[4:]
		}
		if r.P(30) { // at an offset in a larger buffer
			off = 8 * r.In(1, 4)
			y = append(r.Bytes(off), y...)
		}
		got := ""
		mustNotPanic(c, kind+" accessors", func() { got = acc(y, prefixed, off) })
		c.Check(got == want, "accessors of %s (encoding %d) give %s, want %s", kind, i, clipS(got, 600), clipS(want, 600))
		c.Eval(1)
		if i == 1 {
			break
		}
	}
	// (c) mutators
	x := encode(r, own)
	c23mutate(c, kind, x, hm, cm, rm, fm, gm)
	if c.Idx%50 == 0 {
		c23enums(c)
	}
}

// c23mutate applies every mutator once, each on a fresh copy.
func c23mutate(c *C, kind string, enc []byte, hm *HdrM, cm *ColM, rm *CrsM, fm *FeatM, gm *GeomM) {
	r := c.R
	try := func(name string, f func(b []byte) bool, canon func(b []byte) string, want func() string, present bool) {
		b := append([]byte(nil), enc...)
		before := canon(b)
		var ok bool
		mustNotPanic(c, name, func() { ok = f(b) })
		after := canon(b)
		if !present {
			// Without a place for the value nothing may change. (A mutator of
			// a scalar may return true if the value equals the default.)
			c.Check(!ok && bytes.Equal(b, enc), "%s of an absent field: returned %v, or changed the table", name, ok)
		} else if ok {
			w := want()
			c.Check(after == w, "%s: the table is now %s, want %s", name, clipS(after, 500), clipS(w, 500))
		} else {
			c.Check(after == before, "%s returned false, but changed the table", name)
			c.Failf("%s of a present field returned false", name)
		}
		c.Eval(1)
		c.State("mutator", name)
	}
	d := decodeRoot(enc)
	has := func(slot int) bool { return d.field(slot) != 0 }
	switch kind {
	case "Header":
		cn := func(b []byte) string { return decHdr(decodeRoot(b)).canon() }
		h := func(b []byte) *flat.Header { return flat.GetSizePrefixedRootAsHeader(b, 0) }
		w := func(f func(m *HdrM)) func() string {
			return func() string { m := *hm; f(&m); return m.canon() }
		}
		g := uint8(r.Uint32())
		try("Header.MutateGeometryType", func(b []byte) bool { return h(b).MutateGeometryType(flat.GeometryType(g)) }, cn, w(func(m *HdrM) { m.GType = g }), has(2))
		v := r.P(50)
		try("Header.MutateHasZ", func(b []byte) bool { return h(b).MutateHasZ(v) }, cn, w(func(m *HdrM) { m.Z = v }), has(3))
		try("Header.MutateHasM", func(b []byte) bool { return h(b).MutateHasM(v) }, cn, w(func(m *HdrM) { m.M = v }), has(4))
		try("Header.MutateHasT", func(b []byte) bool { return h(b).MutateHasT(v) }, cn, w(func(m *HdrM) { m.T = v }), has(5))
		try("Header.MutateHasTm", func(b []byte) bool { return h(b).MutateHasTm(v) }, cn, w(func(m *HdrM) { m.TM = v }), has(6))
		n := genCountAny(r)
		try("Header.MutateFeaturesCount", func(b []byte) bool { return h(b).MutateFeaturesCount(n) }, cn, w(func(m *HdrM) { m.Count = n }), has(8))
		s := uint16(r.Uint32())
		try("Header.MutateIndexNodeSize", func(b []byte) bool { return h(b).MutateIndexNodeSize(s) }, cn, w(func(m *HdrM) { m.NodeSize = s }), has(9))
		j := r.IntN(len(hm.Env.V) + 1)
		x := genCoord(r, 2)
		if j < len(hm.Env.V) || !hm.Env.OK {
			try("Header.MutateEnvelope", func(b []byte) bool { return h(b).MutateEnvelope(j, x) }, cn, w(func(m *HdrM) {
				m.Env.V = append([]float64(nil), m.Env.V...)
				m.Env.V[j] = x
			}), hm.Env.OK)
		}
	case "Column":
		cn := func(b []byte) string { return decCol(decodeRoot(b)).canon() }
		h := func(b []byte) *flat.Column { return flat.GetSizePrefixedRootAsColumn(b, 0) }
		w := func(f func(m *ColM)) func() string {
			return func() string { m := *cm; f(&m); return m.canon() }
		}
		g := uint8(r.Uint32())
		try("Column.MutateType", func(b []byte) bool { return h(b).MutateType(flat.ColumnType(g)) }, cn, w(func(m *ColM) { m.Type = g }), has(1))
		n := genI32(r, -1)
		try("Column.MutateWidth", func(b []byte) bool { return h(b).MutateWidth(n) }, cn, w(func(m *ColM) { m.Width = n }), has(4))
		try("Column.MutatePrecision", func(b []byte) bool { return h(b).MutatePrecision(n) }, cn, w(func(m *ColM) { m.Prec = n }), has(5))
		try("Column.MutateScale", func(b []byte) bool { return h(b).MutateScale(n) }, cn, w(func(m *ColM) { m.Scale = n }), has(6))
		v := r.P(50)
		try("Column.MutateNullable", func(b []byte) bool { return h(b).MutateNullable(v) }, cn, w(func(m *ColM) { m.Nullable = v }), has(7))
		try("Column.MutateUnique", func(b []byte) bool { return h(b).MutateUnique(v) }, cn, w(func(m *ColM) { m.Unique = v }), has(8))
		try("Column.MutatePrimaryKey", func(b []byte) bool { return h(b).MutatePrimaryKey(v) }, cn, w(func(m *ColM) { m.PK = v }), has(9))
	case "Crs":
		n := genI32(r, 0)
		try("Crs.MutateCode", func(b []byte) bool { return flat.GetSizePrefixedRootAsCrs(b, 0).MutateCode(n) }, func(b []byte) string { return decCrs(decodeRoot(b)).canon() }, func() string { m := *rm; m.Code = n; return m.canon() }, has(1))
	case "Feature":
		j := r.IntN(len(fm.Props.V) + 1)
		if j < len(fm.Props.V) || !fm.Props.OK {
			v := byte(r.Uint32())
			try("Feature.MutateProperties", func(b []byte) bool { return flat.GetSizePrefixedRootAsFeature(b, 0).MutateProperties(j, v) }, func(b []byte) string { return decFeat(decodeRoot(b)).canon() }, func() string {
				m := *fm
				m.Props.V = append([]byte(nil), m.Props.V...)
				m.Props.V[j] = v
				return m.canon()
			}, fm.Props.OK)
		}
	default:
		cn := func(b []byte) string { return decGeom(decodeRoot(b)).canon() }
		h := func(b []byte) *flat.Geometry { return flat.GetSizePrefixedRootAsGeometry(b, 0) }
		w := func(f func(m *GeomM)) func() string {
			return func() string { m := *gm; f(&m); return m.canon() }
		}
		g := uint8(r.Uint32())
		try("Geometry.MutateType", func(b []byte) bool { return h(b).MutateType(flat.GeometryType(g)) }, cn, w(func(m *GeomM) { m.Type = g }), has(6))
		vec := func(name string, v func(m *GeomM) *Opt[[]float64], f func(g *flat.Geometry, j int, x float64) bool) {
			o := *v(gm)
			j, x := r.IntN(len(o.V)+1), genCoord(r, 2)
			if j == len(o.V) && o.OK {
				return
			}
			try(name, func(b []byte) bool { return f(h(b), j, x) }, cn, w(func(m *GeomM) {
				p := v(m)
				p.V = append([]float64(nil), p.V...)
				p.V[j] = x
			}), o.OK)
		}
		vec("Geometry.MutateXy", func(m *GeomM) *Opt[[]float64] { return &m.XY }, (*flat.Geometry).MutateXy)
		vec("Geometry.MutateZ", func(m *GeomM) *Opt[[]float64] { return &m.Z }, (*flat.Geometry).MutateZ)
		vec("Geometry.MutateM", func(m *GeomM) *Opt[[]float64] { return &m.M }, (*flat.Geometry).MutateM)
		vec("Geometry.MutateT", func(m *GeomM) *Opt[[]float64] { return &m.T }, (*flat.Geometry).MutateT)
		if j := r.IntN(len(gm.TM.V) + 1); j < len(gm.TM.V) || !gm.TM.OK {
			x := r.Uint64()
			try("Geometry.MutateTm", func(b []byte) bool { return h(b).MutateTm(j, x) }, cn, w(func(m *GeomM) {
				m.TM.V = append([]uint64(nil), m.TM.V...)
				m.TM.V[j] = x
			}), gm.TM.OK)
		}
		if j := r.IntN(len(gm.Ends.V) + 1); j < len(gm.Ends.V) || !gm.Ends.OK {
			x := r.Uint32()
			try("Geometry.MutateEnds", func(b []byte) bool { return h(b).MutateEnds(j, x) }, cn, w(func(m *GeomM) {
				m.Ends.V = append([]uint32(nil), m.Ends.V...)
				m.Ends.V[j] = x
			}), gm.Ends.OK)
		}
	}
}

var colTypeNames = []string{"Byte", "UByte", "Bool", "Short", "UShort", "Int", "UInt", "Long", "ULong", "Float", "Double", "String", "Json", "DateTime", "Binary"}

func c23enums(c *C) {
	c.Check(len(flat.EnumNamesColumnType) == len(colTypeNames) && len(flat.EnumValuesColumnType) == len(colTypeNames), "ColumnType has %d names and %d values, want %d", len(flat.EnumNamesColumnType), len(flat.EnumValuesColumnType), len(colTypeNames))
	for i, n := range colTypeNames {
		v, ok := flat.EnumValuesColumnType[n]
		c.Check(ok && int(v) == i && flat.EnumNamesColumnType[v] == n && v.String() == n, "ColumnType %s has value %d (%v) and name %s, want value %d", n, v, ok, v, i)
	}
	c.Check(len(flat.EnumNamesGeometryType) == len(geomNames) && len(flat.EnumValuesGeometryType) == len(geomNames), "GeometryType has %d names and %d values, want %d", len(flat.EnumNamesGeometryType), len(flat.EnumValuesGeometryType), len(geomNames))
	for i, n := range geomNames {
		v, ok := flat.EnumValuesGeometryType[n]
		c.Check(ok && int(v) == i && flat.EnumNamesGeometryType[v] == n && v.String() == n, "GeometryType %s has value %d (%v) and name %s, want value %d", n, v, ok, v, i)
	}
	consts := []flat.ColumnType{flat.ColumnTypeByte, flat.ColumnTypeUByte, flat.ColumnTypeBool, flat.ColumnTypeShort, flat.ColumnTypeUShort, flat.ColumnTypeInt, flat.ColumnTypeUInt, flat.ColumnTypeLong, flat.ColumnTypeULong, flat.ColumnTypeFloat, flat.ColumnTypeDouble, flat.ColumnTypeString, flat.ColumnTypeJson, flat.ColumnTypeDateTime, flat.ColumnTypeBinary}
	for i, v := range consts {
		c.Check(int(v) == i, "constant ColumnType%s has value %d, want %d", colTypeNames[i], v, i)
	}
	gs := []flat.GeometryType{flat.GeometryTypeUnknown, flat.GeometryTypePoint, flat.GeometryTypeLineString, flat.GeometryTypePolygon, flat.GeometryTypeMultiPoint, flat.GeometryTypeMultiLineString, flat.GeometryTypeMultiPolygon, flat.GeometryTypeGeometryCollection, flat.GeometryTypeCircularString, flat.GeometryTypeCompoundCurve, flat.GeometryTypeCurvePolygon, flat.GeometryTypeMultiCurve, flat.GeometryTypeMultiSurface, flat.GeometryTypeCurve, flat.GeometryTypeSurface, flat.GeometryTypePolyhedralSurface, flat.GeometryTypeTIN, flat.GeometryTypeTriangle}
	for i := 0; i < 256; i++ {
		if v := flat.ColumnType(i); i >= len(colTypeNames) {
			c.Check(v.String() == fmt.Sprintf("ColumnType(%d)", i), "ColumnType %d, which has no name, is called %s", i, v)
		}
		if v := flat.GeometryType(i); i >= len(geomNames) {
			c.Check(v.String() == fmt.Sprintf("GeometryType(%d)", i), "GeometryType %d, which has no name, is called %s", i, v)
		}
	}
	for i, v := range gs {
		c.Check(int(v) == i, "constant GeometryType%s has value %d, want %d", geomNames[i], v, i)
	}
	c.Eval(4)
	c.State("table", "enumerations")
}
