package main

// An independent model of FlatBuffers tables with two encoders (one written
// here from the wire format, one using the Google builder with raw slot
// numbers) and a decoder. None of it uses /repo.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"

	fb "github.com/google/flatbuffers/go"
)

// Field kinds.
const (
	kScalar = iota // inline scalar of 1, 2, 4 or 8 bytes
	kString        // string: length, bytes, NUL
	kVec           // vector of scalars
	kTable         // table
	kTables        // vector of tables
)

// F is one field of a table.
type F struct {
	Slot int
	Kind int
	Raw  []byte // kScalar: little-endian; kString: bytes; kVec: elements
	Elem int    // kVec: element size
	Tab  *T
	Tabs []*T
}

// T is a table.
type T struct{ Fields []F }

func (t *T) add(f F) { t.Fields = append(t.Fields, f) }

func le(size int, v uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b[:size]
}

func (t *T) u8(slot int, v uint8)   { t.add(F{Slot: slot, Kind: kScalar, Raw: le(1, uint64(v))}) }
func (t *T) u16(slot int, v uint16) { t.add(F{Slot: slot, Kind: kScalar, Raw: le(2, uint64(v))}) }
func (t *T) i32(slot int, v int32) {
	t.add(F{Slot: slot, Kind: kScalar, Raw: le(4, uint64(uint32(v)))})
}
func (t *T) u64(slot int, v uint64) { t.add(F{Slot: slot, Kind: kScalar, Raw: le(8, v)}) }
func (t *T) boolean(slot int, v bool) {
	var x uint8
	if v {
		x = 1
	}
	t.u8(slot, x)
}
func (t *T) str(slot int, v []byte)       { t.add(F{Slot: slot, Kind: kString, Raw: v}) }
func (t *T) vec(slot, elem int, v []byte) { t.add(F{Slot: slot, Kind: kVec, Elem: elem, Raw: v}) }
func (t *T) table(slot int, v *T)         { t.add(F{Slot: slot, Kind: kTable, Tab: v}) }
func (t *T) tables(slot int, v []*T)      { t.add(F{Slot: slot, Kind: kTables, Tabs: v}) }
func (t *T) f64s(slot int, v []float64)   { t.vec(slot, 8, f64bytes(v)) }
func (t *T) u64s(slot int, v []uint64) {
	b := make([]byte, 0, 8*len(v))
	for _, x := range v {
		b = binary.LittleEndian.AppendUint64(b, x)
	}
	t.vec(slot, 8, b)
}
func (t *T) u32s(slot int, v []uint32) {
	b := make([]byte, 0, 4*len(v))
	for _, x := range v {
		b = binary.LittleEndian.AppendUint32(b, x)
	}
	t.vec(slot, 4, b)
}

func f64bytes(v []float64) []byte {
	b := make([]byte, 0, 8*len(v))
	for _, x := range v {
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(x))
	}
	return b
}

// enc is the encoder written from the wire format. It lays tables out in
// random but legal ways: field order, vtable placement and sharing, trailing
// vtable slots, child order and padding all vary.
type enc struct {
	r    *Rng
	b    []byte
	vts  map[string]int // vtable contents to position, relative to base
	todo []func()
}

func (e *enc) pad(align int) {
	for len(e.b)%align != 0 {
		e.b = append(e.b, 0)
	}
}

func (e *enc) put32(at int, v uint32) { binary.LittleEndian.PutUint32(e.b[at:], v) }

// later schedules writing of a child whose uoffset is at position at.
func (e *enc) later(at int, f func() int) {
	e.todo = append(e.todo, func() {
		e.put32(at, uint32(f()-at))
	})
}

func (e *enc) drain() {
	for len(e.todo) > 0 {
		i := 0
		switch e.r.IntN(3) {
		case 0:
			i = len(e.todo) - 1
		case 1:
			i = e.r.IntN(len(e.todo))
		}
		f := e.todo[i]
		e.todo = append(e.todo[:i], e.todo[i+1:]...)
		f()
	}
}

func (e *enc) table(t *T) int {
	r := e.r
	// Order the fields.
	idx := r.Perm(len(t.Fields))
	maxSlot := -1
	for i := range t.Fields {
		if t.Fields[i].Slot > maxSlot {
			maxSlot = t.Fields[i].Slot
		}
	}
	slots := maxSlot + 1
	if r.P(15) {
		slots += r.In(1, 5) // fields of a newer schema, absent
	}
	sizeOf := func(f *F) int {
		if f.Kind == kScalar {
			return len(f.Raw)
		}
		return 4
	}
	// layout computes the inline layout for a table at position pos.
	layout := func(pos int) (offs []int, size int) {
		offs = make([]int, len(t.Fields))
		p := pos + 4
		for _, i := range idx {
			n := sizeOf(&t.Fields[i])
			for p%n != 0 {
				p++
			}
			offs[i] = p - pos
			p += n
		}
		return offs, p - pos
	}
	vtable := func(offs []int, size int) []byte {
		v := make([]byte, 4+2*slots)
		binary.LittleEndian.PutUint16(v, uint16(len(v)))
		binary.LittleEndian.PutUint16(v[2:], uint16(size))
		for i := range t.Fields {
			binary.LittleEndian.PutUint16(v[4+2*t.Fields[i].Slot:], uint16(offs[i]))
		}
		return v
	}
	after := r.P(20)
	var pos, vpos int
	var offs []int
	var size int
	if !after {
		e.pad(4)
		if r.P(50) {
			e.pad(8)
		}
		// Is there an identical vtable to share?
		offs, size = layout(len(e.b))
		v := vtable(offs, size)
		if p, ok := e.vts[string(v)]; ok && r.P(80) {
			vpos = p
		} else {
			// Fixpoint: the table goes right after the vtable.
			vpos = len(e.b)
			e.b = append(e.b, v...)
			e.pad(4)
			offs, size = layout(len(e.b))
			v = vtable(offs, size)
			copy(e.b[vpos:], v)
			e.vts[string(v)] = vpos
		}
		pos = len(e.b)
	} else {
		e.pad(4)
		pos = len(e.b)
		offs, size = layout(pos)
	}
	e.b = append(e.b, make([]byte, size)...)
	if after {
		v := vtable(offs, size)
		if p, ok := e.vts[string(v)]; ok && r.P(50) {
			vpos = p
		} else {
			e.pad(2)
			vpos = len(e.b)
			e.b = append(e.b, v...)
			e.vts[string(v)] = vpos
		}
	}
	e.put32(pos, uint32(int32(pos-vpos)))
	for i := range t.Fields {
		f := &t.Fields[i]
		at := pos + offs[i]
		switch f.Kind {
		case kScalar:
			copy(e.b[at:], f.Raw)
		case kString:
			e.later(at, func() int {
				e.pad(4)
				p := len(e.b)
				e.b = append(e.b, le(4, uint64(len(f.Raw)))...)
				e.b = append(e.b, f.Raw...)
				e.b = append(e.b, 0)
				return p
			})
		case kVec:
			e.later(at, func() int {
				e.pad(4)
				for (len(e.b)+4)%f.Elem != 0 {
					e.b = append(e.b, 0)
				}
				p := len(e.b)
				e.b = append(e.b, le(4, uint64(len(f.Raw)/f.Elem))...)
				e.b = append(e.b, f.Raw...)
				return p
			})
		case kTable:
			e.later(at, func() int { return e.table(f.Tab) })
		case kTables:
			e.later(at, func() int {
				e.pad(4)
				p := len(e.b)
				e.b = append(e.b, le(4, uint64(len(f.Tabs)))...)
				e.b = append(e.b, make([]byte, 4*len(f.Tabs))...)
				for j, c := range f.Tabs {
					e.later(p+4+4*j, func() int { return e.table(c) })
				}
				return p
			})
		}
	}
	return pos
}

// encodeOwn encodes a size-prefixed root table.
func encodeOwn(r *Rng, t *T) []byte {
	e := &enc{r: r, vts: map[string]int{}}
	e.b = make([]byte, 8)
	if r.P(20) {
		e.b = append(e.b, make([]byte, 4*r.In(1, 3))...) // e.g. a file identifier
	}
	root := e.table(t)
	e.drain()
	if r.P(60) {
		e.pad(8)
	}
	e.put32(4, uint32(root-4))
	e.put32(0, uint32(len(e.b)-4))
	return e.b
}

// encodeGoogle encodes a size-prefixed root table with the Google builder.
func encodeGoogle(t *T) []byte {
	b := fb.NewBuilder(64)
	b.FinishSizePrefixed(googleTable(b, t))
	return b.FinishedBytes()
}

func googleTable(b *fb.Builder, t *T) fb.UOffsetT {
	offs := make([]fb.UOffsetT, len(t.Fields))
	slots := 0
	for i := range t.Fields {
		f := &t.Fields[i]
		if f.Slot >= slots {
			slots = f.Slot + 1
		}
		switch f.Kind {
		case kString:
			offs[i] = b.CreateByteString(f.Raw)
		case kVec:
			n := len(f.Raw) / f.Elem
			b.StartVector(f.Elem, n, f.Elem)
			for j := len(f.Raw) - 1; j >= 0; j-- {
				b.PlaceByte(f.Raw[j])
			}
			offs[i] = b.EndVector(n)
		case kTable:
			offs[i] = googleTable(b, f.Tab)
		case kTables:
			os := make([]fb.UOffsetT, len(f.Tabs))
			for j, c := range f.Tabs {
				os[j] = googleTable(b, c)
			}
			b.StartVector(4, len(os), 4)
			for j := len(os) - 1; j >= 0; j-- {
				b.PrependUOffsetT(os[j])
			}
			offs[i] = b.EndVector(len(os))
		}
	}
	b.StartObject(slots)
	for i := range t.Fields {
		f := &t.Fields[i]
		if f.Kind != kScalar {
			b.PrependUOffsetTSlot(f.Slot, offs[i], 0)
			continue
		}
		switch len(f.Raw) {
		case 1:
			b.PrependByte(f.Raw[0])
		case 2:
			b.PrependUint16(binary.LittleEndian.Uint16(f.Raw))
		case 4:
			b.PrependUint32(binary.LittleEndian.Uint32(f.Raw))
		case 8:
			b.PrependUint64(binary.LittleEndian.Uint64(f.Raw))
		}
		b.Slot(f.Slot)
	}
	return b.EndObject()
}

// encode encodes a size-prefixed root table with one of the encoders.
func encode(r *Rng, t *T) []byte {
	if r.P(50) {
		return append([]byte(nil), encodeGoogle(t)...)
	}
	return encodeOwn(r, t)
}

// ---- decoder

var errFB = errors.New("not a FlatBuffers table")

// D is a decoder of a table at a position in a buffer. Its methods panic with
// errFB if the buffer is not well-formed.
type D struct {
	b   []byte
	pos int
	al  int // if not 0, check the alignment relative to position al-1
}

// aligned fails if the position is not a multiple of n.
func (d D) aligned(at, n int) {
	if d.al > 0 && (at-d.al+1)%n != 0 {
		panic(fmt.Errorf("%w: position %d is not a multiple of %d", errFB, at-d.al+1, n))
	}
}

func (d D) need(at, n int) {
	if at < 0 || n < 0 || at+n > len(d.b) {
		panic(fmt.Errorf("%w: [%d,+%d) outside %d bytes", errFB, at, n, len(d.b)))
	}
}
func (d D) g16(at int) int { d.need(at, 2); return int(binary.LittleEndian.Uint16(d.b[at:])) }
func (d D) g32(at int) int { d.need(at, 4); return int(binary.LittleEndian.Uint32(d.b[at:])) }

func decodeRoot(b []byte) D { // size-prefixed
	d := D{b: b}
	n := d.g32(0)
	if n+4 != len(b) {
		panic(fmt.Errorf("%w: size prefix %d in %d bytes", errFB, n, len(b)))
	}
	return D{b: b, pos: 4 + d.g32(4)}
}

// field returns the absolute position of a field, or 0.
func (d D) field(slot int) int {
	vt := d.pos - int(int32(d.g32(d.pos)))
	d.aligned(d.pos, 4)
	d.aligned(vt, 2)
	n := d.g16(vt)
	if 4+2*slot+2 > n {
		return 0
	}
	o := d.g16(vt + 4 + 2*slot)
	if o == 0 {
		return 0
	}
	d.need(d.pos+o, 1)
	return d.pos + o
}

func (d D) scalar(slot, size int, def uint64) uint64 {
	at := d.field(slot)
	if at == 0 {
		return def
	}
	d.need(at, size)
	d.aligned(at, size)
	var v uint64
	for i := size - 1; i >= 0; i-- {
		v = v<<8 | uint64(d.b[at+i])
	}
	return v
}

// raw returns the elements of a vector or string, or nil if it is absent.
func (d D) raw(slot, elem int) ([]byte, bool) {
	at := d.field(slot)
	if at == 0 {
		return nil, false
	}
	p := at + d.g32(at)
	n := d.g32(p)
	d.need(p+4, n*elem)
	d.aligned(at, 4)
	d.aligned(p, 4)
	d.aligned(p+4, elem)
	return d.b[p+4 : p+4+n*elem], true
}

func (d D) str(slot int) ([]byte, bool) {
	v, ok := d.raw(slot, 1)
	if ok {
		at := d.field(slot)
		p := at + d.g32(at)
		d.need(p+4+len(v), 1)
		if d.b[p+4+len(v)] != 0 {
			panic(fmt.Errorf("%w: string without NUL", errFB))
		}
	}
	return v, ok
}

func (d D) tab(slot int) (D, bool) {
	at := d.field(slot)
	if at == 0 {
		return D{}, false
	}
	d.aligned(at, 4)
	return D{d.b, at + d.g32(at), d.al}, true
}

func (d D) tabs(slot int) ([]D, bool) {
	at := d.field(slot)
	if at == 0 {
		return nil, false
	}
	p := at + d.g32(at)
	n := d.g32(p)
	d.need(p+4, 4*n)
	d.aligned(at, 4)
	d.aligned(p, 4)
	ds := make([]D, n)
	for i := range ds {
		q := p + 4 + 4*i
		ds[i] = D{d.b, q + d.g32(q), d.al}
	}
	return ds, true
}

func (d D) f64s(slot int) ([]float64, bool) {
	b, ok := d.raw(slot, 8)
	if !ok {
		return nil, false
	}
	v := make([]float64, len(b)/8)
	for i := range v {
		v[i] = math.Float64frombits(binary.LittleEndian.Uint64(b[8*i:]))
	}
	return v, true
}
func (d D) u64s(slot int) ([]uint64, bool) {
	b, ok := d.raw(slot, 8)
	if !ok {
		return nil, false
	}
	v := make([]uint64, len(b)/8)
	for i := range v {
		v[i] = binary.LittleEndian.Uint64(b[8*i:])
	}
	return v, true
}
func (d D) u32s(slot int) ([]uint32, bool) {
	b, ok := d.raw(slot, 4)
	if !ok {
		return nil, false
	}
	v := make([]uint32, len(b)/4)
	for i := range v {
		v[i] = binary.LittleEndian.Uint32(b[4*i:])
	}
	return v, true
}
