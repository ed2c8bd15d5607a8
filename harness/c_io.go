package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Prop{ID: "C27", Quick: 15000, Thorough: 100000,
		Rule: "random call sequences (Header, Index, IndexSearch, Data, DataRem, Rewind) on valid files of every shape, with every read and seek recorded per call and compared with the byte ranges the call needs (item requested, index nodes on the search path, features returned), and with allocation measured; distinct by (file shape, call sequence, bytes needed)",
		Run:  c27})
	register(&Prop{ID: "C28", Quick: 20000, Thorough: 200000,
		Rule: "result lists with offsets of any 64-bit pattern sorted through sort.Interface and compared with an independent order; text forms of boxes, references and indexes parsed back and compared with the values; distinct by (length, first offset) and by text",
		Run:  c28})
}

// span is a half-open range of bytes.
type span [2]int64

// normSpans sorts and merges ranges.
func normSpans(v []span) []span {
	v = append([]span(nil), v...)
	sort.Slice(v, func(i, j int) bool { return v[i][0] < v[j][0] })
	var out []span
	for _, s := range v {
		if s[0] >= s[1] {
			continue
		}
		if n := len(out); n > 0 && s[0] <= out[n-1][1] {
			if s[1] > out[n-1][1] {
				out[n-1][1] = s[1]
			}
		} else {
			out = append(out, s)
		}
	}
	return out
}

// within tells whether all of a lies in b, both normalized.
func within(a, b []span) bool {
	j := 0
	for _, s := range a {
		for j < len(b) && b[j][1] < s[1] {
			j++
		}
		if j == len(b) || b[j][0] > s[0] {
			return false
		}
	}
	return true
}

func spanBytes(v []span) (n int64) {
	for _, s := range v {
		n += s[1] - s[0]
	}
	return
}

func clipSpans(v []span) string {
	if len(v) > 12 {
		return fmt.Sprint(v[:12]) + fmt.Sprintf("...(%d ranges)", len(v))
	}
	return fmt.Sprint(v)
}

func c27(c *C) {
	r := c.R
	if c.Idx%16 == 3 {
		skipSweep(c)
		return
	}
	o := fileOpts{MaxFeats: 60, BigFeats: c.Idx%50 == 1}
	var f *FileM
	switch {
	case c.huge():
		f = hugeFile(c, true)
	case c.Idx%40 == 7:
		f = genFile(r, fileOpts{MaxFeats: 3000, MinFeats: 1000, SmallFeats: true, ForceIndex: true})
	default:
		o.ForceIndex = r.P(75)
		f = genFile(r, o)
	}
	var nodes []rnode
	var starts []int
	if f.Indexed {
		nodes, starts = refTree(f.Leaves, f.NS)
	}
	seek := r.P(75)
	src, pre := openFile(r, f, true)
	src.record = true
	src.maxOps = 0
	idxAt := pre + 8 + int64(len(f.Hdr))
	dataAt := pre + int64(f.dataStart())
	rd := flatgeobuf.NewFileReader(src.stream(seek, r.P(30)))
	c.State("file", f.shape())
	var trace []string
	// The model of where the reader is.
	st, next := "header", 0
	cached := false
	feat := func(i int) span {
		a := dataAt + f.Offs[i]
		return span{a, a + int64(len(f.Feats[i]))}
	}
	// run performs one call, which has to read `must` and may read `may` in
	// addition; items is the number of pieces the call has to do with.
	run := func(name string, must, may []span, items int, g func() error) {
		src.evs = src.evs[:0]
		what := fmt.Sprintf("%s after %v of %s at %d (seekable=%v)", name, trace, f.describe(), pre, seek)
		a0 := allocated()
		var err error
		mustNotPanic(c, what, func() { err = g() })
		a1 := allocated()
		c.Check(err == nil || err == io.EOF, "%s: %v", what, err)
		var got []span
		pos := int64(-1)
		reads, seeks := 0, 0
		for _, e := range src.evs {
			switch e.Op {
			case 's':
				seeks++
			case 'r':
				reads++
				if e.N > 0 {
					c.Check(e.Pos >= pos, "%s: read at %d after reading up to %d: bytes read backward or twice", what, e.Pos, pos)
					pos = e.Pos + int64(e.N)
					got = append(got, span{e.Pos, pos})
				}
			}
		}
		got = normSpans(got)
		must, may = normSpans(must), normSpans(append(append([]span{}, must...), may...))
		c.Check(within(got, may), "%s: read bytes %s, but only %s concern the call", what, clipSpans(got), clipSpans(may))
		c.Check(within(must, got), "%s: read bytes %s, but the result depends on %s", what, clipSpans(got), clipSpans(must))
		if !seek {
			c.Check(seeks == 0, "harness: seeks on a stream that can't seek")
		}
		n := spanBytes(may)
		if seek {
			limit := 64 + 16*items + int(n/4096)
			c.Check(reads+seeks <= limit, "%s: %d reads and %d seeks for %d items of %d bytes", what, reads, seeks, items, n)
		}
		limit := uint64(512<<10) + 8*uint64(n) + 600*uint64(items) + 400*uint64(len(src.evs))
		if f.Indexed && strings.HasPrefix(name, "IndexSearch") {
			limit += 2 * 40 * uint64(f.NS) // Room for a group of sibling nodes, whether read or not.
		}
		if !raceEnabled && !asanEnabled {
			c.Check(a1-a0 <= limit, "%s: allocated %d bytes for %d items of %d bytes in all", what, a1-a0, items, n)
		}
		trace = append(trace, name)
		c.Eval(1)
		c.Count("io_events", reads+seeks)
		c.Count("bytes_read", int(spanBytes(got)))
		c.State("call", fmt.Sprintf("%s from %s (indexed=%v seek=%v cached=%v)", strings.SplitN(name, "(", 2)[0], st, f.Indexed, seek, cached))
	}
	run("Header", []span{{pre, idxAt}}, nil, 4, func() error {
		_, err := rd.Header()
		return err
	})
	// skipped is what a call from the state "header" may have to read to get
	// past the index.
	skipped := func() []span {
		if st == "header" && !seek {
			return []span{{idxAt, dataAt}}
		}
		return nil
	}
	sig := ""
	for k := r.In(2, 7); k > 0; k-- {
		op := r.IntN(5)
		if c.huge() && k%2 == 0 {
			op = 1
		}
		switch op {
		case 0: // Index
			if st != "header" {
				continue
			}
			idx := []span{{idxAt, dataAt}}
			must := idx
			if cached {
				must = nil
			}
			chunk := len(nodes) / 1000
			run("Index", must, idx, 4+chunk, func() error {
				_, err := rd.Index()
				return err
			})
			cached = cached || f.Indexed
			st = "index"
		case 1: // IndexSearch
			if st != "header" || !f.Indexed {
				continue
			}
			q := f.query(r)
			want, visited := needed(nodes, starts, f.NS, q)
			var must, may []span
			items := visited + 4
			for _, w := range want {
				s := span{idxAt + 40*int64(w[0]), idxAt + 40*int64(w[1])}
				if cached {
					may = append(may, s)
				} else {
					must = append(must, s)
				}
			}
			if !seek {
				must = append(must, span{idxAt, dataAt})
				items += len(nodes)
			}
			hits, _ := f.matches(q)
			end := 0
			for _, i := range hits {
				must = append(must, feat(i))
				items += 1
				end = i
			}
			if !seek && len(hits) > 0 {
				may = append(may, span{dataAt, feat(end)[1]})
				items += end
			}
			run(fmt.Sprintf("IndexSearch(%v: %d matches)", q, len(hits)), must, may, items, func() error {
				fs, err := rd.IndexSearch(toBox(q))
				c.Check(err != nil || len(fs) == len(hits), "IndexSearch of %s found %d features, want %d", f.describe(), len(fs), len(hits))
				return err
			})
			st = "eof"
		case 2: // Data
			if st == "eof" {
				continue
			}
			n := pick(r, []int{0, 1, 1, 2, 3, r.IntN(len(f.Feats) + 2)})
			m := min(n, len(f.Feats)-next)
			var must []span
			for i := 0; i < m; i++ {
				must = append(must, feat(next+i))
			}
			var got int
			var err error
			run(fmt.Sprintf("Data(%d)", n), must, skipped(), m+4, func() error {
				got, err = rd.Data(make([]flat.Feature, n))
				return err
			})
			c.Check(got == m, "Data(%d) of %s delivered %d features, want %d", n, f.describe(), got, m)
			next += m
			st = "data"
			if err == io.EOF {
				st = "eof"
			}
		case 3: // DataRem
			if st == "eof" {
				continue
			}
			var must []span
			for i := next; i < len(f.Feats); i++ {
				must = append(must, feat(i))
			}
			run("DataRem", must, skipped(), len(must)+4, func() error {
				fs, err := rd.DataRem()
				c.Check(err != nil || len(fs) == len(must), "DataRem of %s delivered %d features, want %d", f.describe(), len(fs), len(must))
				return err
			})
			next = len(f.Feats)
			st = "eof"
		default:
			if !seek {
				continue
			}
			run("Rewind", nil, nil, 1, func() error { return rd.Rewind() })
			st, next = "header", 0
		}
		if st == "eof" && seek {
			run("Rewind", nil, nil, 1, func() error { return rd.Rewind() })
			st, next = "header", 0
		}
		sig = fmt.Sprintf("%s %d", sig, op)
	}
	c.Distinct("%s/%v/%s/%d", f.shape(), seek, sig, len(src.evs))
	c.Briefly("%s at %d, seekable=%v: %s", f.describe(), pre, seek, clipS(strings.Join(trace, " "), 300))
}

// parseNums finds the bracketed list of numbers at the start of s.
func parseNums(s string) (v []float64, rest string, ok bool) {
	if !strings.HasPrefix(s, "[") {
		return nil, s, false
	}
	in, rest, ok := strings.Cut(s[1:], "]")
	if !ok {
		return nil, s, false
	}
	for _, x := range strings.Split(in, ",") {
		n, err := strconv.ParseFloat(strings.TrimSpace(x), 64)
		if err != nil && !math.IsInf(n, 0) {
			return nil, s, false
		}
		v = append(v, n)
	}
	return v, rest, true
}

// judgeBoxText checks that s contains the box to about eight digits and
// returns the text without it.
func judgeBoxText(c *C, what, s string, b Bx) string {
	i := strings.Index(s, "[")
	c.Check(i >= 0, "%s of box %v is %q, which has no list of coordinates", what, b, s)
	v, rest, ok := parseNums(s[i:])
	c.Check(ok && len(v) == 4, "%s of box %v is %q, which is not a list of four numbers", what, b, s)
	for k := range v {
		x, y := b[k], v[k]
		near := x == y || math.Abs(x-y) <= math.Abs(x)*1.0000001e-7 || math.IsInf(y, 0) && math.Abs(x) > 1.797693e308 || x == x && math.Abs(x) < 1e-300 && math.Abs(y) < 1e-300
		c.Check(near && math.Signbit(x) == math.Signbit(y) || x == 0 && y == 0, "%s of box %v is %q: side %d differs", what, b, s, k)
	}
	return s[:i] + rest
}

// numAfter finds the integer after a key.
func numAfter(s, key string) (int64, bool) {
	i := strings.Index(s, key)
	if i < 0 {
		return 0, false
	}
	s = s[i+len(key):]
	j := 0
	for j < len(s) && (s[j] >= '0' && s[j] <= '9' || j == 0 && s[j] == '-') {
		j++
	}
	n, err := strconv.ParseInt(s[:j], 10, 64)
	return n, err == nil
}

func c28(c *C) {
	r := c.R
	if c.Idx%4 == 3 {
		c28text(c)
		return
	}
	n := pick(r, []int{0, 1, 2, 3, r.In(0, 20), r.In(0, 300), r.In(0, 3000)})
	rs := make(packedrtree.Results, n)
	mode, wide := r.IntN(5), r.P(30)
	for i := range rs {
		rs[i].RefIndex = int(r.Uint64() >> (65 - strconv.IntSize) >> r.IntN(30) & math.MaxInt)
		if wide { // differing in high bits only
			rs[i].RefIndex = int(uint64(r.IntN(1<<10)) << (strconv.IntSize - 12))
		}
		switch mode {
		case 0:
			rs[i].Offset = int64(r.Uint64())
		case 1:
			rs[i].Offset = int64(r.IntN(5))
		case 2:
			rs[i].Offset = pick(r, []int64{math.MinInt64, math.MaxInt64, -1, 0, 1, 1 << 31, 1<<31 - 1, 1 << 32, -1 << 31, 1<<32 + 1, math.MinInt64 + 1, math.MaxInt64 - 1})
		case 3: // differing only in high or low bits
			rs[i].Offset = int64(r.IntN(4))<<32 | int64(r.IntN(4))<<30 | int64(r.IntN(3))
		default:
			rs[i].Offset = int64(n - i)
		}
	}
	want := append(packedrtree.Results(nil), rs...)
	c.Check(rs.Len() == n, "Len() of %d results is %d", n, rs.Len())
	for k := 0; k < 5 && n > 1; k++ {
		i, j := r.IntN(n), r.IntN(n)
		c.Check(rs.Less(i, j) == (rs[i].Offset < rs[j].Offset), "Less of results with offsets %d and %d is %v", rs[i].Offset, rs[j].Offset, rs.Less(i, j))
	}
	var sorter sort.Interface = rs
	if r.P(50) {
		sort.Sort(sorter)
	} else {
		sort.Stable(sorter)
	}
	for i := 1; i < n; i++ {
		c.Check(rs[i-1].Offset <= rs[i].Offset, "sorted results have offset %d before %d", rs[i-1].Offset, rs[i].Offset)
	}
	key := func(v packedrtree.Results) []packedrtree.Result {
		o := append([]packedrtree.Result(nil), v...)
		sort.Slice(o, func(i, j int) bool {
			return o[i].Offset < o[j].Offset || o[i].Offset == o[j].Offset && o[i].RefIndex < o[j].RefIndex
		})
		return o
	}
	a, b := key(want), key(rs)
	for i := range a {
		c.Check(a[i] == b[i], "sorting %d results changed them: %v instead of %v", n, b[i], a[i])
	}
	if n > 1 {
		c.Distinct("sort %d %d %d", mode, n, rs[0].Offset)
	}
	c.Briefly("%d results, offsets of kind %d", n, mode)
	c.Count("results_sorted", n)
	c.Eval(1)
}

func c28text(c *C) {
	r := c.R
	// Boxes and references.
	for k := 0; k < 10; k++ {
		b := genBox(r, r.IntN(6))
		if r.P(10) {
			inf := math.Inf(1)
			b = pick(r, []Bx{emptyBx, {-inf, b[1], inf, b[3]}, {math.MaxFloat64, -math.MaxFloat64, 5e-324, 0}})
		}
		s := toBox(b).String()
		rest := judgeBoxText(c, "String()", s, b)
		c.Check(rest == "", "String() of box %v is %q", b, s)
		if s2 := fmt.Sprint(toBox(b)); s2 != s {
			c.Failf("a box prints as %q and as %q", s, s2)
		}
		ref := packedrtree.Ref{Box: toBox(b), Offset: int64(r.Uint64()) >> r.IntN(64)}
		s = ref.String()
		rest = judgeBoxText(c, "String() of a reference", s, b)
		n, ok := numAfter(rest, "Offset:")
		c.Check(ok && n == ref.Offset, "String() of a reference with offset %d is %q", ref.Offset, s)
		c.Distinct("%s", s)
		c.Eval(2)
	}
	// An index.
	ls, ns := genIndexCase(c, 300)
	p, err := packedrtree.New(toRefs(ls), uint16(ns))
	c.Check(err == nil, "New: %v", err)
	if r.P(50) {
		var b bytes.Buffer
		_, err := p.Marshal(&b)
		c.Check(err == nil, "Marshal: %v", err)
		p, err = packedrtree.Unmarshal(&b, len(ls), uint16(ns))
		c.Check(err == nil, "Unmarshal: %v", err)
	}
	all := emptyBx
	for _, l := range ls {
		all = all.union(l.B)
	}
	s := p.String()
	rest := judgeBoxText(c, "String() of an index", s, all)
	n, ok := numAfter(rest, "NumRefs:")
	c.Check(ok && n == int64(len(ls)), "String() of an index of %d references is %q", len(ls), s)
	n, ok = numAfter(rest, "NodeSize:")
	c.Check(ok && n == int64(ns), "String() of an index with node size %d is %q", ns, s)
	c.Distinct("%s", s)
	c.Eval(1)
	c.Count("texts", 21)
}
