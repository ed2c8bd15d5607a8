package main

// C20 isolation, C21 close, C22 acceptance.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// ---- C20

// held is something handed to the caller.
type held struct {
	what  string
	live  []byte // the caller's view, up to its capacity
	n     int    // its length
	want  []byte // what it held when handed out, or what was written to it
	dirty bool
}

// vault watches over everything handed to the caller.
type vault struct {
	c    *C
	hs   []*held
	more []func(when string) // further comparisons
}

func (v *vault) add(what string, b []byte) {
	h := &held{what: what, live: b[:cap(b)], n: len(b), want: append([]byte(nil), b...)}
	// A slice may have spare capacity, but nobody else may own it.
	v.hs = append(v.hs, h)
}

// scribble overwrites something handed out earlier, spare capacity included.
func (v *vault) scribble(r *Rng) {
	if len(v.hs) == 0 {
		return
	}
	h := pick(r, v.hs)
	x := byte(r.Uint32()) | 1
	for i := range h.live {
		h.live[i] ^= x
	}
	h.dirty = true
	h.want = append([]byte(nil), h.live[:h.n]...)
	v.c.Count("results_overwritten", 1)
}

func (v *vault) check(when string) {
	for _, h := range v.hs {
		v.c.Check(bytes.Equal(h.live[:h.n], h.want), "%s changed (%d bytes, overwritten by the caller before: %v) %s", h.what, h.n, h.dirty, when)
	}
	for _, f := range v.more {
		f(when)
	}
	v.c.Eval(1)
}

func (v *vault) feature(what string, f *flat.Feature) {
	v.add(what, f.Table().Bytes)
}

func c20(c *C) {
	switch c.Idx % 5 {
	case 0, 1:
		c20reader(c)
	case 2:
		c20index(c)
	case 3:
		c20writer(c)
	default:
		c20props(c)
	}
}

func c20reader(c *C) {
	r := c.R
	o := fileOpts{MaxFeats: 20, BigFeats: c.Idx%100 == 1}
	if c.Idx%50 == 5 {
		o = fileOpts{MaxFeats: 2500, MinFeats: 900, SmallFeats: true}
	}
	f := genFile(r, o)
	seek := r.P(70)
	src, _ := openFile(r, f, true)
	src.frag = pick(r, []int{fragFull, fragFull, fragRandom, fragDataEOF})
	src.scrib = src.r != nil && src.r.P(30)
	src.maxOps *= 20
	rd := flatgeobuf.NewFileReader(src.stream(seek, r.P(50)))
	v := &vault{c: c}
	h, err := rd.Header()
	c.Check(err == nil, "Header: %v", err)
	v.add("the header", h.Table().Bytes)
	var idx []*packedrtree.PackedRTree
	var hist []string
	n := r.In(2, 14)
	if len(f.Feats) > 500 {
		n = r.In(2, 5)
	}
	p := make([]flat.Feature, r.In(1, 6)) // a slice the caller uses again
	scribbleFrom := 1                     // the header is left alone
	for i := 0; i < n; i++ {
		o := f.rop(r, []int{1, 3, 4, 6, 2, 5})
		hist = append(hist, o.String())
		name := fmt.Sprintf("of call %d (%v)", i, o)
		mustNotPanic(c, name, func() {
			switch o.kind {
			case opHeader:
				_, _ = rd.Header()
			case opIndex:
				x, _ := rd.Index()
				if x != nil {
					idx = append(idx, x)
					q := o.q
					want := resultSet(x.Search(toBox(q)))
					var b bytes.Buffer
					_, _ = x.Marshal(&b)
					v.more = append(v.more, func(when string) {
						c.Check(resultSet(x.Search(toBox(q))) == want, "the index returned by call %d answers differently %s", i, when)
						var b2 bytes.Buffer
						_, _ = x.Marshal(&b2)
						c.Check(bytes.Equal(b.Bytes(), b2.Bytes()), "the index returned by call %d serializes differently %s", i, when)
					})
				}
			case opSearch:
				fs, _ := rd.IndexSearch(toBox(o.q))
				for j := range fs {
					v.feature(fmt.Sprintf("feature %d %s", j, name), &fs[j])
				}
			case opData:
				if r.P(50) {
					p = make([]flat.Feature, o.k)
				}
				m, _ := rd.Data(p)
				for j := range p[:m] {
					v.feature(fmt.Sprintf("feature %d %s", j, name), &p[j])
				}
			case opDataRem:
				fs, _ := rd.DataRem()
				for j := range fs {
					v.feature(fmt.Sprintf("feature %d %s", j, name), &fs[j])
				}
			case opRewind:
				_ = rd.Rewind()
			}
		})
		v.check(fmt.Sprintf("after call %d (%v) of %v", i, o, hist))
		if len(v.hs) > scribbleFrom && r.P(60) {
			hs := v.hs
			v.hs = hs[scribbleFrom:]
			v.scribble(r)
			v.hs = hs
			v.check(fmt.Sprintf("when the caller overwrote another result, after %v", hist))
		}
		if len(idx) > 0 && r.P(30) {
			// Overwriting search results changes nothing either.
			rs := idx[0].Search(packedrtree.Box{XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)})
			rs = rs[:cap(rs)]
			for j := range rs {
				rs[j] = packedrtree.Result{Offset: -1, RefIndex: -1}
			}
			v.check("when the caller overwrote search results")
		}
	}
	if r.P(60) {
		_ = rd.Close()
		v.check("after Close")
	}
	if x := rawBytes(src.data); x != nil {
		for i := range x {
			x[i] ^= 0x55
		}
		v.check("when the file's bytes changed")
	}
	for i := 0; i < 3; i++ {
		v.scribble(r)
		v.check("when the caller overwrote another result at the end")
	}
	c.Count("results_watched", len(v.hs))
	c.Distinct("reader %d/%d/%v/%s", len(f.Feats), len(v.hs), seek, f.shape())
	c.State("kind", "reader "+f.shape())
	c.Briefly("%s: %d results watched over %s", f.describe(), len(v.hs), clipS(strings.Join(hist, " "), 200))
}

func copyLeaves(ls []packedrtree.Ref) []packedrtree.Ref {
	return append([]packedrtree.Ref(nil), ls...)
}

func sameRefs(a, b []packedrtree.Ref) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Offset != y.Offset || math.Float64bits(x.XMin) != math.Float64bits(y.XMin) || math.Float64bits(x.YMin) != math.Float64bits(y.YMin) || math.Float64bits(x.XMax) != math.Float64bits(y.XMax) || math.Float64bits(x.YMax) != math.Float64bits(y.YMax) {
			return false
		}
	}
	return true
}

func c20index(c *C) {
	r := c.R
	ns := genNodeSize(r)
	n := genCount(r, ns, 3000)
	ls := genLeaves(r, n)
	refs := toRefs(ls)
	// Spare capacity with content of the caller's.
	spare := r.IntN(5)
	big := make([]packedrtree.Ref, n+spare)
	copy(big, refs)
	for i := n; i < len(big); i++ {
		big[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: 1, YMin: 2, XMax: 3, YMax: 4}, Offset: 5}
	}
	refs = big[:n]
	before := copyLeaves(big)
	p, err := packedrtree.New(refs, uint16(ns))
	c.Check(err == nil, "New: %v", err)
	c.Check(sameRefs(big, before), "building an index of %d refs, node size %d, changed the caller's slice", n, ns)
	qs := genQueries(r, ls, 4)
	want := make([]string, len(qs))
	for i, q := range qs {
		want[i] = resultSet(p.Search(toBox(q)))
		judgeResults(c, "Search", p.Search(toBox(q)), ls, q, false)
	}
	var m0 bytes.Buffer
	_, err = p.Marshal(&m0)
	c.Check(err == nil, "Marshal: %v", err)
	ser := append([]byte(nil), m0.Bytes()...)
	s0 := p.String()
	// The caller goes on to use its slice, and what it got.
	what := ""
	switch r.IntN(3) {
	case 0:
		for i := range big {
			big[i] = packedrtree.Ref{Offset: -7}
		}
		what = "the slice it was built from was overwritten"
	case 1:
		b := packedrtree.EmptyBox
		for i := range refs {
			b.Expand(&refs[i].Box)
		}
		r.Shuffle(n, func(i, j int) { refs[i], refs[j] = refs[j], refs[i] })
		what = "the slice it was built from was shuffled"
	default:
		refs = append(refs, packedrtree.Ref{Offset: 99})
		refs[0].XMin = -1e300
		what = "the slice it was built from was appended to and changed"
	}
	b := m0.Bytes()
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xFF
	}
	p2, err := packedrtree.Unmarshal(bytes.NewReader(ser), n, uint16(ns))
	c.Check(err == nil, "Unmarshal: %v", err)
	// Results stay what they are whatever else is searched, and whatever is
	// appended to others.
	type keptResults struct {
		rs   packedrtree.Results
		want packedrtree.Results
	}
	var kept []keptResults
	keep := func(rs packedrtree.Results) {
		kept = append(kept, keptResults{rs, append(packedrtree.Results(nil), rs...)})
	}
	for round := 0; round < 2; round++ {
		for _, q := range qs {
			keep(p.Search(toBox(q)))
			keep(p2.Search(toBox(q)))
			x, err := packedrtree.Seek(bytes.NewReader(ser), n, uint16(ns), toBox(q))
			c.Check(err == nil, "Seek: %v", err)
			keep(x)
		}
	}
	for _, k := range kept {
		_ = append(k.rs, packedrtree.Result{Offset: -11, RefIndex: -11})
		x := k.rs[:cap(k.rs)]
		for j := len(k.rs); j < len(x); j++ {
			x[j] = packedrtree.Result{Offset: -12}
		}
	}
	for _, k := range kept {
		same := len(k.rs) == len(k.want)
		for j := 0; same && j < len(k.rs); j++ {
			same = k.rs[j] == k.want[j]
		}
		c.Check(same, "results of a search changed when others were made, or appended to (%d refs, node size %d)", n, ns)
		c.Eval(1)
	}
	for _, t := range []*packedrtree.PackedRTree{p, p2} {
		for i, q := range qs {
			rs := t.Search(toBox(q))
			c.Check(resultSet(rs) == want[i], "index of %d refs, node size %d, answers differently after %s", n, ns, what)
			for j := range rs {
				rs[j] = packedrtree.Result{}
			}
			c.Check(resultSet(t.Search(toBox(q))) == want[i], "index answers differently after its results were overwritten")
			bx := t.Bounds()
			bx.Expand(&packedrtree.Box{XMin: -1e308, YMin: -1e308, XMax: 1e308, YMax: 1e308})
			c.Eval(2)
		}
		var m1 bytes.Buffer
		_, _ = t.Marshal(&m1)
		c.Check(bytes.Equal(m1.Bytes(), ser), "index of %d refs, node size %d, serializes differently after %s, serializing and searching", n, ns, what)
		c.Check(t.String() == s0 && t.NumRefs() == n && int(t.NodeSize()) == ns, "index describes itself as %s, was %s", t.String(), s0)
	}
	// What was deserialized does not depend on the bytes it came from, nor on
	// what is read through the same machinery later.
	for i := range ser {
		ser[i] ^= 0xA5
	}
	ls2 := genLeaves(r, n)
	_, _ = packedrtree.Unmarshal(bytes.NewReader(refIndex(ls2, ns)), n, uint16(ns))
	rs0, err := packedrtree.Seek(bytes.NewReader(refIndex(ls, ns)), n, uint16(ns), toBox(qs[0]))
	c.Check(err == nil && resultSet(rs0) == want[0], "Seek differs from Search")
	rs1, _ := packedrtree.Seek(bytes.NewReader(refIndex(ls2, ns)), n, uint16(ns), toBox(qs[0]))
	for j := range rs1 {
		rs1[j] = packedrtree.Result{Offset: -3}
	}
	c.Check(resultSet(rs0) == want[0], "results of one streaming search changed with those of another")
	for i, q := range qs {
		c.Check(resultSet(p2.Search(toBox(q))) == want[i], "deserialized index answers differently after its source changed")
		c.Eval(1)
	}
	c.Distinct("index %d/%d/%s", n, ns, what)
	c.State("kind", "index: "+what)
	c.Briefly("index of %d refs, node size %d, after %s", n, ns, what)
}

// slack puts a table into a larger buffer with trailing bytes.
func slack(r *Rng, b []byte) []byte {
	n := len(b)
	x := make([]byte, n+pick(r, []int{0, 0, 0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 40, 64, r.IntN(100)}), n+100)
	copy(x, b)
	full := x[:cap(x)]
	for i := n; i < len(full); i++ {
		full[i] = byte(r.Uint32())
	}
	return x
}

func c20writer(c *C) {
	r := c.R
	f := genFile(r, fileOpts{MaxFeats: 20, MinFeats: 1, SmallFeats: r.P(80), ForceIndex: r.P(60)})
	type input struct {
		full, want []byte
		what       string
	}
	var ins []input
	watch := func(what string, b []byte) []byte {
		b = slack(r, b)
		full := b[:cap(b)]
		ins = append(ins, input{full, append([]byte(nil), full...), what})
		return b
	}
	hb := watch("the header", f.Hdr)
	h := headerOf(hb)
	fs := make([]flat.Feature, len(f.Feats))
	for i := range fs {
		fs[i] = *featureOf(watch(fmt.Sprintf("feature %d", i), f.Feats[i]))
	}
	fsWant := append([]flat.Feature(nil), fs...)
	ptrs := make([]*flat.Feature, len(fs))
	for i := range ptrs {
		ptrs[i] = &fs[i]
	}
	ptrsWant := append([]*flat.Feature(nil), ptrs...)
	dst := newDst()
	how := "Data"
	if r.P(20) {
		dst.failErr, dst.failAt, dst.failPart = errInjected, r.IntN(6), r.IntN(50)
	}
	w := flatgeobuf.NewFileWriter(dst.stream(r.P(50)))
	check := func(when string) {
		for _, in := range ins {
			c.Check(bytes.Equal(in.full, in.want), "%s was modified %s", in.what, when)
		}
		for i := range fs {
			a, b := fs[i].Table(), fsWant[i].Table()
			c.Check(ptrs[i] == ptrsWant[i], "the caller's slice of feature pointers was reordered %s", when)
			c.Check(a.Pos == b.Pos && len(a.Bytes) == len(b.Bytes) && cap(a.Bytes) == cap(b.Bytes) && (len(a.Bytes) == 0 || &a.Bytes[0] == &b.Bytes[0]), "the caller's slice of features was reordered or changed %s", when)
		}
		c.Eval(1)
	}
	_, err := w.Header(h)
	check("by Header")
	if err == nil && f.Indexed {
		switch r.IntN(3) {
		case 0:
			how = "IndexData"
			_, _ = w.IndexData(fs)
		case 1:
			how = "IndexDataPtr"
			_, _ = w.IndexDataPtr(ptrs)
		default:
			how = "Index"
			refs := toRefs(f.Leaves)
			p, err := packedrtree.New(refs, uint16(f.NS))
			c.Check(err == nil, "New: %v", err)
			_, _ = w.Index(p)
			c.Check(sameRefs(refs, toRefs(f.Leaves)), "Index modified the references")
		}
		check("by " + how)
	}
	for i := range fs {
		_, _ = w.Data(&fs[i])
	}
	check("by Data")
	// What was written does not change with the inputs afterwards.
	out := append([]byte(nil), dst.buf...)
	for _, in := range ins {
		for i := range in.full {
			in.full[i] ^= 0xFF
		}
	}
	_ = w.Close()
	c.Check(bytes.HasPrefix(dst.buf, out) && len(dst.buf) == len(out), "Close wrote %d bytes", len(dst.buf)-len(out))
	// Sorting only permutes within the slice.
	refs := toRefs(genLeaves(r, r.In(1, 200)))
	big := append(refs, packedrtree.Ref{Offset: -1}, packedrtree.Ref{Offset: -2})
	b := packedrtree.EmptyBox
	for i := range refs {
		b.Expand(&refs[i].Box)
	}
	b0 := b
	packedrtree.HilbertSort(big[:len(refs)], b)
	c.Check(big[len(refs)].Offset == -1 && big[len(refs)+1].Offset == -2, "HilbertSort touched references beyond the slice")
	c.Check(b == b0, "HilbertSort changed the bounds")
	c.Distinct("writer %s/%d/%d", how, len(f.Feats), len(out))
	c.State("kind", "writer: "+how)
	c.Briefly("inputs of %s for %s hashed before and after", how, f.describe())
}

func c20props(c *C) {
	r := c.R
	cols := genCols(r, r.In(1, 10))
	for i := range cols {
		if r.P(60) {
			cols[i].Type = pick(r, []uint8{ctString, ctBinary, ctJson, ctDateTime})
		}
	}
	ps := genPairs(r, cols, r.In(2, 14))
	b := encPairs(ps)
	src := newSrc(append([]byte(nil), b...))
	src.r = r
	src.frag = pick(r, []int{fragFull, fragFull, fragRandom, fragDataEOF})
	src.scrib = src.r != nil && src.r.P(30)
	pr := flatgeobuf.NewPropReader(src.stream(false, false))
	v := &vault{c: c}
	type str struct {
		s    string
		want []byte
	}
	var strs []str
	v.more = append(v.more, func(when string) {
		for i, s := range strs {
			c.Check(s.s == string(s.want), "string %d returned by the property reader changed from %q to %q %s", i, s.want, s.s, when)
		}
	})
	keep := func(i int, x any) {
		switch x := x.(type) {
		case []byte:
			v.add(fmt.Sprintf("binary value %d", i), x)
		case string:
			strs = append(strs, str{x, append([]byte(nil), x...)})
		}
	}
	how := "methods"
	if r.P(50) {
		how = "ReadSchema"
		hdr := headerOf(encode(r, (&HdrM{Cols: some(cols), NodeSize: 16}).table()))
		vals, err := pr.ReadSchema(hdr)
		c.Check(err == nil && len(vals) == len(ps), "ReadSchema: %d values of %d, %v", len(vals), len(ps), err)
		for i := range vals {
			keep(i, vals[i].Value)
		}
		v.check("after ReadSchema")
		// Reading on and on changes nothing.
		src.pos = 0
		_, _ = pr.ReadSchema(hdr)
		v.check("after another ReadSchema")
	} else {
		for i, p := range ps {
			_, err := pr.ReadUShort()
			c.Check(err == nil, "ReadUShort: %v", err)
			x, err := readProp(pr, p.V.Type)
			c.Check(err == nil, "reading a value of type %d: %v", p.V.Type, err)
			keep(i, x)
			v.check("after reading on")
		}
	}
	for i := 0; i < 4; i++ {
		v.scribble(r)
		v.check("when the caller overwrote another value")
	}
	x := rawBytes(src.data)
	for i := range x {
		x[i] = 0x55
	}
	v.check("when the source bytes changed")
	// Writing does not change what is written, nor keep it.
	dst := newDst()
	if r.P(30) {
		dst.failErr, dst.failAt, dst.failPart = errInjected, r.IntN(4), r.IntN(5)
	}
	pw := flatgeobuf.NewPropWriter(dst.stream(false))
	var want []byte
	for i := 0; i < 4; i++ {
		val := slack(r, genPVal(r, ctBinary).B)
		full := val[:cap(val)]
		before := append([]byte(nil), full...)
		_, err := pw.WriteBinary(val)
		c.Check(bytes.Equal(full, before), "WriteBinary modified its argument (%d bytes)", len(val))
		if err == nil && dst.failErr == nil {
			want = append(append(want, le(4, uint64(len(val)))...), val...)
		}
		for j := range full {
			full[j] ^= 0x77
		}
	}
	if dst.failErr == nil {
		c.Check(bytes.Equal(dst.buf, want), "what WriteBinary wrote changed with its arguments")
	}
	c.Distinct("props %s/%d/%d/%d", how, len(ps), len(b), len(strs))
	c.State("kind", "properties: "+how)
	c.Briefly("%d properties in %d bytes by %s: %d binaries and %d strings watched", len(ps), len(b), how, len(v.hs), len(strs))
}

// ---- C21

var errClose = errors.New("close failed")

func c21(c *C) {
	if c.Idx%2 == 0 {
		c21reader(c)
	} else {
		c21writer(c)
	}
}

func pickCloseErr(r *Rng) error {
	return pick(r, []error{nil, nil, errClose, errClose, io.EOF, io.ErrClosedPipe, flatgeobuf.ErrNoIndex, fmt.Errorf("wrapped: %w", errClose)})
}

func c21reader(c *C) {
	r := c.R
	f := genFile(r, fileOpts{MaxFeats: 8, SmallFeats: true})
	seek, closer := r.P(60), r.P(75)
	src, _ := openFile(r, f, false)
	src.record = true
	src.closeErr = pickCloseErr(r)
	if r.P(25) {
		src.failAt, src.failErr, src.failPart, src.sticky = r.IntN(12), errInjected, r.IntN(20), r.P(50)
	}
	if r.P(15) {
		b := rawBytes(src.data)
		src.data = withBytes(src.data, b[:r.IntN(len(b)+1)])
	}
	if r.P(10) {
		b := rawBytes(src.data)
		if len(b) > 0 {
			b[r.IntN(len(b))] ^= 0x40
		}
	}
	rd := flatgeobuf.NewFileReader(src.stream(seek, closer))
	var hist []string
	n := r.IntN(7)
	for i := 0; i < n; i++ {
		o := f.rop(r, []int{1, 4, 4, 6, 3, 3})
		if i == 0 && r.P(85) {
			o.kind = opHeader
		}
		var s string
		mustNotPanic(c, fmt.Sprintf("%v after %v", o, hist), func() { s = perform(rd, o) })
		res := "ok"
		if !strings.HasSuffix(s, "nil") {
			res = "err"
			if strings.Contains(s, "<EOF>") {
				res = "eof"
			}
			if strings.Contains(s, "no index") {
				res = "noindex"
			}
		}
		hist = append(hist, strings.SplitN(strings.SplitN(o.String(), "[", 2)[0], "(", 2)[0]+":"+res)
	}
	what := fmt.Sprintf("reader (seekable=%v, closable=%v, close error %v) after %v", seek, closer, src.closeErr, hist)
	c.Check(src.closed == 0, "%s: the stream was closed without Close", what)
	src.evs = nil
	var err error
	mustNotPanic(c, "Close of "+what, func() { err = rd.Close() })
	if closer {
		c.Check(src.closed == 1, "%s: Close closed the stream %d times", what, src.closed)
		c.Check(errors.Is(err, src.closeErr) && (err == nil) == (src.closeErr == nil), "%s: Close returned %v", what, err)
	} else {
		c.Check(err == nil, "%s: Close returned %v", what, err)
	}
	src.evs = nil
	ops := src.ops
	for i := r.In(1, 10); i > 0; i-- {
		o := f.rop(r, []int{3, 3, 3, 4, 3, 3, 4})
		var s string
		var err error
		mustNotPanic(c, fmt.Sprintf("%v after Close of %s", o, what), func() { s, err = performErr(rd, o) })
		c.Check(errors.Is(err, flatgeobuf.ErrClosed), "%v after Close of %s: returned %v, want the closed error", o, what, err)
		c.Check(s == "", "%v after Close of %s: returned data (%s)", o, what, s)
		c.Check(src.ops == ops && len(src.evs) == 0, "%v after Close of %s: touched the stream: %v", o, what, src.evs)
		c.Eval(1)
	}
	if closer {
		c.Check(src.closed == 1, "%s: stream closed %d times", what, src.closed)
	}
	last := "fresh"
	if len(hist) > 0 {
		last = hist[len(hist)-1]
	}
	c.State("closed_in_state", "reader "+last)
	c.Distinct("reader %v/%v/%v/%v", seek, closer, src.closeErr, hist)
	c.Briefly("%s", what)
}

// performErr performs an operation and returns its error and a description of
// any data it returned.
func performErr(r *flatgeobuf.FileReader, o rop) (s string, err error) {
	switch o.kind {
	case opHeader:
		var h *flat.Header
		if h, err = r.Header(); h != nil {
			s = "header"
		}
	case opIndex:
		var p *packedrtree.PackedRTree
		if p, err = r.Index(); p != nil {
			s = "index"
		}
	case opSearch:
		var fs []flat.Feature
		if fs, err = r.IndexSearch(toBox(o.q)); len(fs) > 0 {
			s = fmt.Sprintf("%d features", len(fs))
		}
	case opData:
		var n int
		if n, err = r.Data(make([]flat.Feature, o.k)); n != 0 {
			s = fmt.Sprintf("%d features", n)
		}
	case opDataRem:
		var fs []flat.Feature
		if fs, err = r.DataRem(); len(fs) > 0 {
			s = fmt.Sprintf("%d features", len(fs))
		}
	case opRewind:
		err = r.Rewind()
	default:
		err = r.Close()
	}
	return
}

func c21writer(c *C) {
	r := c.R
	f := genFile(r, fileOpts{MaxFeats: 6, SmallFeats: true})
	closer := r.P(75)
	dst := newDst()
	dst.closeErr = pickCloseErr(r)
	if r.P(25) {
		dst.failAt, dst.failErr, dst.failPart = r.IntN(8), errInjected, r.IntN(30)
	}
	w := flatgeobuf.NewFileWriter(dst.stream(closer))
	var hist []string
	h := headerOf(f.Hdr)
	var idx, other *packedrtree.PackedRTree
	if f.Indexed {
		idx, _ = packedrtree.New(toRefs(f.Leaves), uint16(f.NS))
	}
	other, _ = packedrtree.New(toRefs(genLeaves(r, len(f.Feats)+2)), 7)
	fs := make([]flat.Feature, len(f.Feats))
	for i := range fs {
		fs[i] = *featureOf(f.Feats[i])
	}
	spare := featureOf(encode(r, genFeat(r, 0, nil, 0).T()))
	next, accepted := 0, 0
	partial := false // part of an IndexData call was written
	op := func() (name string, n int, err error) {
		k := r.IntN(6)
		if len(hist) == 0 && r.P(85) {
			k = 0
		}
		switch k {
		case 0:
			n, err = w.Header(h)
			return "Header", n, err
		case 1:
			x := other
			if idx != nil && r.P(80) {
				x = idx
			}
			n, err = w.Index(x)
			return "Index", n, err
		case 2:
			v := fs
			if r.P(20) {
				v = nil
			}
			n, err = w.IndexData(v)
			if err == nil {
				accepted += len(v)
			}
			partial = partial || err != nil && n > 0
			return "IndexData", n, err
		case 3:
			v := make([]*flat.Feature, len(fs))
			for i := range fs {
				v[i] = &fs[i]
			}
			n, err = w.IndexDataPtr(v)
			if err == nil {
				accepted += len(v)
			}
			partial = partial || err != nil && n > 0
			return "IndexDataPtr", n, err
		default:
			x := spare
			if next < len(fs) {
				x = &fs[next]
			}
			n, err = w.Data(x)
			if err == nil {
				next++
				accepted++
			}
			return "Data", n, err
		}
	}
	for i := r.IntN(9); i > 0; i-- {
		var name string
		var err error
		mustNotPanic(c, fmt.Sprintf("call after %v", hist), func() { name, _, err = op() })
		if err == nil {
			name += ":ok"
		} else {
			name += ":err"
		}
		hist = append(hist, name)
	}
	what := fmt.Sprintf("writer (closable=%v, close error %v, header count %d) after %v", closer, dst.closeErr, f.Count, hist)
	c.Check(dst.closed == 0, "%s: the stream was closed without Close", what)
	written := len(dst.buf)
	calls := dst.calls
	var err error
	mustNotPanic(c, "Close of "+what, func() { err = w.Close() })
	headerOK := strings.Contains(strings.Join(hist, " "), "Header:ok")
	short := headerOK && accepted < f.Count && !partial
	if closer {
		c.Check(dst.closed == 1, "%s: Close closed the stream %d times", what, dst.closed)
	}
	if closer && dst.closeErr != nil {
		c.Check(errors.Is(err, dst.closeErr), "%s: Close returned %v", what, err)
	} else if short {
		c.Check(err != nil && !errors.Is(err, flatgeobuf.ErrClosed), "%s: closed with %d of %d features, and Close returned %v", what, accepted, f.Count, err)
	} else if headerOK && !partial && dst.failed == 0 {
		c.Check(err == nil, "%s: closed with %d of %d features, and Close returned %v", what, accepted, f.Count, err)
	}
	c.Check(len(dst.buf) == written && dst.calls == calls, "Close of %s wrote to the stream", what)
	for i := r.In(1, 10); i > 0; i-- {
		var name string
		var n int
		var err error
		mustNotPanic(c, "call after Close of "+what, func() {
			if r.P(25) {
				name, err = "Close", w.Close()
			} else {
				name, n, err = op()
			}
		})
		c.Check(errors.Is(err, flatgeobuf.ErrClosed), "%s after Close of %s: returned %v, want the closed error", name, what, err)
		c.Check(n == 0 && len(dst.buf) == written && dst.calls == calls, "%s after Close of %s: wrote to the stream (n=%d)", name, what, n)
		c.Eval(1)
	}
	if closer {
		c.Check(dst.closed == 1, "%s: stream closed %d times", what, dst.closed)
	}
	last := "fresh"
	if len(hist) > 0 {
		last = hist[len(hist)-1]
	}
	c.State("closed_in_state", fmt.Sprintf("writer %s short=%v", last, short))
	c.Distinct("writer %v/%v/%v/%d", closer, dst.closeErr, hist, f.Count)
	c.Briefly("%s", what)
}

// ---- C22

func c22(c *C) {
	r := c.R
	if c.Idx%3 == 0 {
		c22magic(c)
		return
	}
	f := genFile(r, fileOpts{MaxFeats: 5, SmallFeats: true})
	b := f.bytes()
	kind, ok := "valid", true
	consumed := 8 + len(f.Hdr) // at most
	allocLimit := uint64(1<<20 + 64*len(b))
	hdrLen := -1
	switch r.IntN(9) {
	case 0: // valid
	case 1:
		kind, ok = "magic byte", false
		i := pick(r, []int{0, 1, 2, 3, 4, 5, 6})
		x := b[i]
		for x == b[i] {
			x = byte(r.Uint32())
		}
		b[i] = x
		consumed = 8
		kind += fmt.Sprint(" ", i)
	case 2:
		kind, ok = "header length", false
		n := pick(r, []uint32{0, 1, 2, 3, 32<<20 + 1, 32<<20 + 4, 1<<30 - 1, 1 << 30, 1<<31 - 4, 1<<31 - 1, 1 << 31, math.MaxUint32 - 4, math.MaxUint32 - 3, math.MaxUint32})
		if r.P(30) {
			n = uint32(r.In(32<<20+1, 1<<31-1))
		}
		hdrLen = int(int32(n))
		copy(b[8:], le(4, uint64(n)))
		b = append(b, make([]byte, 5000)...)
		consumed = 12
		kind += fmt.Sprintf(" %d", n)
		allocLimit = 1 << 20
	case 3:
		kind, ok = "truncated", false
		n := r.IntN(8 + len(f.Hdr))
		b = b[:n]
		consumed = n
	case 4: // root offset outside the table
		kind, ok = "root offset", false
		n := uint32(len(f.Hdr) - 4)
		o := pick(r, []uint32{n, n + 1, n + 100, 1 << 20, math.MaxInt32, 1 << 31})
		copy(b[12:], le(4, uint64(o)))
		kind += fmt.Sprintf(" %d of %d", o, n)
	case 5:
		kind, ok = "node size 1", false
		f.HdrM.NodeSize = 1
		f.Hdr = encode(r, f.HdrM.table())
		b = f.bytes()
		consumed = 8 + len(f.Hdr)
	case 6:
		kind, ok = "count", false
		n := pick(r, []uint64{math.MaxInt + 1, math.MaxInt + 2, math.MaxUint64, math.MaxUint64 - 1, math.MaxInt + 1 + uint64(r.IntN(1000000))})
		f.HdrM.Count = n
		f.Hdr = encode(r, f.HdrM.table())
		b = f.bytes()
		consumed = 8 + len(f.Hdr)
		kind += fmt.Sprintf(" %d", n)
	case 7:
		kind = "extreme but valid"
		f.HdrM.Count = pick(r, []uint64{math.MaxInt, math.MaxInt - 1, math.MaxInt32, 1 << 30, 1})
		f.HdrM.NodeSize = pick(r, []uint16{0, 2, 16, 65535})
		f.Hdr = encode(r, f.HdrM.table())
		b = append(append(magicBytes[:7:7], byte(r.Uint32())), f.Hdr...)
		consumed = 8 + len(f.Hdr)
		kind += fmt.Sprintf(" count %d node size %d", f.HdrM.Count, f.HdrM.NodeSize)
	default:
		if c.Idx%20 != 1 {
			break
		}
		// A large header: exactly at the limit, just below, or with an
		// incomplete table of that size.
		n := 32<<20 - pick(r, []int{0, 0, 1, 4, 100})
		hm := &HdrM{NodeSize: 0, Name: some([]byte("large"))}
		x := encodeOwn(r, hm.table())
		big := make([]byte, 4+n)
		copy(big, x)
		copy(big, le(4, uint64(n)))
		kind = fmt.Sprintf("header length %d", n)
		f.Hdr, f.HdrM = big, hm
		b = append(append([]byte{}, magicBytes...), big...)
		consumed = len(b)
		if r.P(30) {
			kind, ok = kind+" truncated", false
			b = b[:8+r.IntN(len(big))]
			consumed = len(b)
		}
		allocLimit = 48 << 20
	}
	src := newSrc(b)
	src.r = r
	src.frag = pick(r, []int{fragFull, fragFull, fragRandom, fragDataEOF, fragHalf})
	src.scrib = src.r != nil && src.r.P(30)
	src.record = false
	src.maxOps = 1000000 + 2*len(b)
	seek := r.P(60)
	rd := flatgeobuf.NewFileReader(src.stream(seek, r.P(40)))
	var h *flat.Header
	var err error
	a0 := allocated()
	mustNotPanic(c, "Header, "+kind, func() { h, err = rd.Header() })
	a1 := allocated()
	c.Eval(1)
	// A reader may let a buffer grow with the bytes which really arrive.
	allocLimit += 8 * uint64(src.pos)
	c.Check(a1-a0 <= allocLimit, "%s: Header allocated %d bytes (limit %d) from a stream of %d bytes", kind, a1-a0, allocLimit, len(b))
	c.Check(src.pos <= int64(consumed), "%s: Header consumed %d bytes, more than the %d of the item", kind, src.pos, consumed)
	k := strings.SplitN(kind, " ", 3)
	c.State("kind", k[0]+" "+fmt.Sprint(ok))
	c.Distinct("%s/%v/%d", kind, seek, len(b)%97)
	c.Briefly("%s (header length %d): accepted=%v, err=%v", kind, hdrLen, err == nil, err)
	if ok {
		c.Check(err == nil, "%s: a valid file was refused: %v", kind, err)
		f.judgeHeader(c, kind, h)
		c.Check(src.pos == int64(consumed), "%s: Header consumed %d bytes, want %d", kind, src.pos, consumed)
		return
	}
	c.Check(err != nil && err != io.EOF, "%s: the file was accepted, or reported as end of data: %v", kind, err)
	var trace []string
	for i := r.In(1, 8); i > 0; i-- {
		o := f.rop(r, []int{3, 3, 3, 4, 3, 3})
		trace = append(trace, o.String())
		var s string
		var err error
		mustNotPanic(c, fmt.Sprintf("%s: %v after the refusal", kind, trace), func() { s, err = performErr(rd, o) })
		c.Check(err != nil && err != io.EOF && s == "", "%s: after the refusal, %v returned %q and error %v", kind, trace, s, err)
		c.Eval(1)
	}
	c.Check(rd.Close() == nil, "%s: Close after a refusal failed", kind)
}

func c22magic(c *C) {
	r := c.R
	// Exhaustive over single byte changes, in slices.
	base := append([]byte(nil), magicBytes...)
	i := c.Idx / 3 % 8
	for x := 0; x < 256; x++ {
		m := append([]byte(nil), base...)
		m[i] = byte(x)
		if i != 3 && r.P(50) {
			m[3] = byte(r.Uint32())
		}
		if i != 7 && r.P(50) {
			m[7] = byte(r.Uint32())
		}
		if i != 3 && i != 7 && r.P(5) {
			m[pick(r, []int{0, 1, 2, 4, 5, 6})] = byte(r.Uint32())
		}
		want := m[0] == 'f' && m[1] == 'g' && m[2] == 'b' && m[4] == 'f' && m[5] == 'g' && m[6] == 'b'
		tail := r.Bytes(r.IntN(6))
		src := newSrc(append(append([]byte(nil), m...), tail...))
		src.record = false
		src.r = r
		src.frag = pick(r, []int{fragFull, fragOne, fragRandom, fragDataEOF})
		src.scrib = src.r != nil && src.r.P(30)
		v, err := flatgeobuf.Magic(src.stream(false, false))
		c.Check((err == nil) == want, "Magic of % x: %v", m, err)
		c.Check(src.pos == 8, "Magic consumed %d bytes", src.pos)
		if want {
			c.Check(v.Major == m[3] && v.Patch == m[7], "Magic of % x: version %v", m, v)
		}
		// Opening requires the supported version.
		src = newSrc(append(append([]byte(nil), m...), encode(r, (&HdrM{NodeSize: 16}).table())...))
		src.record = false
		_, err = flatgeobuf.NewFileReader(src.stream(r.P(50), false)).Header()
		c.Check((err == nil) == (want && m[3] == 3), "opening a file with magic number % x: %v", m, err)
		if !want || m[3] != 3 {
			c.Check(src.pos == 8, "%d bytes consumed of a file with magic number % x", src.pos, m)
		}
		c.Eval(2)
		c.Distinct("magic %x", m)
	}
	for n := 0; n < 8; n++ {
		_, err := flatgeobuf.Magic(bytes.NewReader(base[:n]))
		c.Check(err != nil, "Magic of %d bytes accepted", n)
		c.Eval(1)
	}
	c.State("kind", fmt.Sprintf("magic byte %d exhaustively", i))
	c.Count("magic_numbers", 256)
}
