package main

// C19: concurrent use.

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Prop{ID: "C19", Quick: 2400, Thorough: 40000,
		Rule: "2 to 12 goroutines make random read-only calls on one index, one header and its features (search, serialize, inspect, summarize, decode, copy to a writer, index) while others drive readers, writers, property coders, sorts and streaming searches of their own, with randomly yielding streams; run under the race detector, and each result compared with that of the same call made alone on equal objects; distinct by the interleaving of calls (merged time stamps)",
		Run:  c19})
}

// world is a set of objects which are shared.
type world struct {
	f     *FileM
	file  []byte
	hdr   *flat.Header
	feats []flat.Feature
	tree  *packedrtree.PackedRTree
	refs  []packedrtree.Ref
}

// makeWorld builds the shared objects; how selects where they come from.
func makeWorld(c *C, f *FileM, how int) *world {
	w := &world{f: f, file: f.bytes(), refs: toRefs(f.Leaves)}
	var err error
	switch how % 3 {
	case 0: // everything from a reader
		rd := flatgeobuf.NewFileReader(bytes.NewReader(w.file))
		w.hdr, err = rd.Header()
		if err == nil {
			w.tree, err = rd.Index()
		}
		if err == nil {
			w.feats, err = rd.DataRem()
		}
	case 1:
		w.hdr = headerOf(append([]byte(nil), f.Hdr...))
		w.feats = features(c.R, f, false)
		w.tree, err = packedrtree.New(w.refs, uint16(f.NS))
	default:
		w.hdr = headerOf(append([]byte(nil), f.Hdr...))
		w.feats = features(c.R, f, false)
		w.tree, err = packedrtree.Unmarshal(bytes.NewReader(f.Index), f.Count, uint16(f.NS))
	}
	if err != nil || w.hdr == nil || w.tree == nil || len(w.feats) != len(f.Feats) {
		// Not for this property to judge.
		c.Count("worlds_not_built", 1)
		return nil
	}
	return w
}

// yielding streams give the scheduler something to choose from.
type yieldRS struct {
	*bytes.Reader
	r *Rng
}

func (y yieldRS) Read(p []byte) (int, error) {
	if y.r.P(30) {
		runtime.Gosched()
	}
	if len(p) > 1 && y.r.P(20) {
		p = p[:1+y.r.IntN(len(p)-1)]
	}
	return y.Reader.Read(p)
}

type yieldR struct{ y yieldRS }

func (y yieldR) Read(p []byte) (int, error) { return y.y.Read(p) }

type yieldW struct {
	b bytes.Buffer
	r *Rng
}

func (y *yieldW) Write(p []byte) (int, error) {
	if y.r.P(30) {
		runtime.Gosched()
	}
	return y.b.Write(p)
}

// concOps are the calls, on shared objects first. Each renders its result.
var concOps = []struct {
	name string
	run  func(w *world, r *Rng) string
}{
	{"Search", func(w *world, r *Rng) string {
		return resultSet(w.tree.Search(toBox(w.f.query(r))))
	}},
	{"Search", func(w *world, r *Rng) string {
		s := ""
		for i := 0; i < 5; i++ {
			rs := w.tree.Search(toBox(w.f.query(r)))
			sort.Sort(rs)
			s += fmt.Sprintf("%v", rs)
		}
		return s
	}},
	{"Marshal", func(w *world, r *Rng) string {
		y := &yieldW{r: r}
		n, err := w.tree.Marshal(y)
		return fmt.Sprint(n, err, hashOf(y.b.Bytes()))
	}},
	{"tree inspection", func(w *world, r *Rng) string {
		return fmt.Sprint(w.tree.String(), w.tree.Bounds(), w.tree.NumRefs(), w.tree.NodeSize())
	}},
	{"HeaderString", func(w *world, r *Rng) string { return flatgeobuf.HeaderString(w.hdr) }},
	{"header accessors", func(w *world, r *Rng) string { return accHdr(w.hdr, w.f.HdrM).canon() }},
	{"FeatureString", func(w *world, r *Rng) string {
		i := r.IntN(len(w.feats))
		return flatgeobuf.FeatureString(&w.feats[i], w.hdr)
	}},
	{"feature accessors", func(w *world, r *Rng) string {
		i := r.IntN(len(w.feats))
		return accFeat(&w.feats[i], w.f.FeatM[i]).canon()
	}},
	{"ReadSchema", func(w *world, r *Rng) string {
		i := r.IntN(len(w.feats))
		vs, err := flatgeobuf.NewPropReader(bytes.NewReader(w.feats[i].PropertiesBytes())).ReadSchema(w.hdr)
		s := fmt.Sprint(len(vs), err)
		for j := range vs {
			s += fmt.Sprintf("%d %v %v;", vs[j].ColIndex, vs[j].Type, vs[j].Value)
		}
		return s
	}},
	{"write shared objects", func(w *world, r *Rng) string {
		y := &yieldW{r: r}
		fw := flatgeobuf.NewFileWriter(y)
		_, e1 := fw.Header(w.hdr)
		_, e2 := fw.Index(w.tree)
		var e3 error
		for i := range w.feats {
			if _, e3 = fw.Data(&w.feats[i]); e3 != nil {
				break
			}
		}
		return fmt.Sprint(e1, e2, e3, fw.Close(), hashOf(y.b.Bytes()))
	}},
	{"IndexData of shared features", func(w *world, r *Rng) string {
		y := &yieldW{r: r}
		fw := flatgeobuf.NewFileWriter(y)
		_, e1 := fw.Header(w.hdr)
		_, e2 := fw.IndexData(w.feats)
		return fmt.Sprint(e1, e2, fw.Close(), hashOf(y.b.Bytes()))
	}},
	{"New from shared refs", func(w *world, r *Rng) string {
		t, err := packedrtree.New(w.refs, uint16(r.In(2, 20)))
		if err != nil {
			return err.Error()
		}
		var b bytes.Buffer
		_, _ = t.Marshal(&b)
		return hashOf(b.Bytes()) + resultSet(t.Search(toBox(w.f.query(r))))
	}},
	// Objects of its own.
	{"own reader", func(w *world, r *Rng) string {
		y := yieldRS{bytes.NewReader(w.file), r}
		var st io.Reader = y
		if r.P(40) {
			st = yieldR{y}
		}
		rd := flatgeobuf.NewFileReader(st)
		s := perform(rd, rop{kind: opHeader})
		for i := 0; i < 5; i++ {
			o := w.f.rop(r, []int{0, 2, 4, 4, 2, 5})
			s += perform(rd, o)
		}
		return s + perform(rd, rop{kind: opClose})
	}},
	{"own streaming search", func(w *world, r *Rng) string {
		rs, err := packedrtree.Seek(yieldRS{bytes.NewReader(w.f.Index), r}, w.f.Count, uint16(w.f.NS), toBox(w.f.query(r)))
		return fmt.Sprint(rs, err)
	}},
	{"own Unmarshal", func(w *world, r *Rng) string {
		t, err := packedrtree.Unmarshal(yieldRS{bytes.NewReader(w.f.Index), r}, w.f.Count, uint16(w.f.NS))
		if err != nil {
			return err.Error()
		}
		return t.String() + resultSet(t.Search(toBox(w.f.query(r))))
	}},
	{"own sort", func(w *world, r *Rng) string {
		refs := append([]packedrtree.Ref(nil), w.refs...)
		b := packedrtree.EmptyBox
		for i := range refs {
			b.Expand(&refs[i].Box)
		}
		packedrtree.HilbertSort(refs, b)
		return fmt.Sprint(b.String(), b.Width(), b.Height(), refs)
	}},
	{"own property coding", func(w *world, r *Rng) string {
		y := &yieldW{r: r}
		pw := flatgeobuf.NewPropWriter(y)
		var vs []PVal
		s := ""
		for i := 0; i < 20; i++ {
			v := genPVal(r, uint8(r.IntN(numColTypes)))
			if len(v.B) > 10000 {
				v.B = v.B[:10000]
			}
			vs = append(vs, v)
			_, err := writeProp(pw, v)
			s += fmt.Sprint(err)
		}
		pr := flatgeobuf.NewPropReader(yieldR{yieldRS{bytes.NewReader(y.b.Bytes()), r}})
		for _, v := range vs {
			x, err := readProp(pr, v.Type)
			s += fmt.Sprint(x, err)
		}
		return s
	}},
	{"own table building", func(w *world, r *Rng) string {
		b := encodeGoogle(w.f.HdrM.table())
		x := flat.GetSizePrefixedRootAsHeader(b, 0)
		x.MutateFeaturesCount(3)
		return flatgeobuf.HeaderString(x) + flat.GeometryType(r.IntN(20)).String() + flat.ColumnType(r.IntN(20)).String()
	}},
	{"names and errors", func(w *world, r *Rng) string {
		_, err := flatgeobuf.Magic(bytes.NewReader(r.Bytes(8)))
		e2 := flatgeobuf.NewFileReader(bytes.NewReader(nil)).Rewind()
		_, e3 := packedrtree.Size(1<<30, 2)
		return fmt.Sprint(err, e2, e3, packedrtree.EmptyBox.String())
	}},
}

func c19(c *C) {
	r := c.R
	o := fileOpts{MaxFeats: 60, ForceIndex: true, SmallFeats: true, GeomBoxes: r.P(50)}
	if c.Idx%40 == 35 {
		o.MaxFeats, o.MinFeats = 1500, 300
	}
	f := genFile(r, o)
	if f.HdrM.Cols.OK && len(f.HdrM.Cols.V) == 0 {
		f.HdrM.Cols = Opt[[]*ColM]{}
	}
	how := r.IntN(3)
	w := makeWorld(c, f, how)
	twin := makeWorld(c, f, how)
	if w == nil || twin == nil {
		return
	}
	runtime.GOMAXPROCS(pick(r, []int{1, 2, 4, 8}))
	type call struct {
		op   int
		seed uint64
		t    time.Duration
		res  string
	}
	g := r.In(2, 12)
	plans := make([][]call, g)
	for i := range plans {
		n := r.In(1, 12)
		if c.Idx < 32 { // everything, in particular for the first time
			for _, op := range r.Perm(len(concOps)) {
				plans[i] = append(plans[i], call{op: op, seed: r.Uint64()})
			}
			continue
		}
		focus := r.IntN(len(concOps))
		for j := 0; j < n; j++ {
			op := focus
			if r.P(60) {
				op = r.IntN(len(concOps))
			}
			plans[i] = append(plans[i], call{op: op, seed: r.Uint64()})
		}
	}
	one := func(w *world, x *call) {
		defer func() {
			if e := recover(); e != nil {
				x.res = fmt.Sprintf("panic: %v", e)
				if v, ok := e.(violation); ok {
					x.res = v.msg
				}
			}
		}()
		x.res = concOps[x.op].run(w, newRng(x.seed, "call"))
	}
	// No synchronization whatsoever between the goroutines after the start.
	start := make(chan struct{})
	t0 := time.Now()
	var wg sync.WaitGroup
	for i := range plans {
		wg.Add(1)
		go func(p []call) {
			defer wg.Done()
			<-start
			for j := range p {
				p[j].t = time.Since(t0)
				one(w, &p[j])
			}
		}(plans[i])
	}
	close(start)
	wg.Wait()
	type stamp struct {
		t    time.Duration
		g, j int
	}
	var order []stamp
	switches := 0
	for i := range plans {
		for j := range plans[i] {
			x := &plans[i][j]
			alone := call{op: x.op, seed: x.seed}
			one(twin, &alone)
			what := concOps[x.op].name
			c.Check(alone.res == x.res, "%s gives %s while %d goroutines are at work, but %s alone", what, clipS(x.res, 300), g, clipS(alone.res, 300))
			c.State("call", what)
			c.Eval(1)
			order = append(order, stamp{x.t, i, j})
		}
	}
	sort.Slice(order, func(a, b int) bool {
		if order[a].t != order[b].t {
			return order[a].t < order[b].t
		}
		return order[a].g < order[b].g
	})
	var sb strings.Builder
	for i, o := range order {
		fmt.Fprintf(&sb, "%d:%d ", o.g, plans[o.g][o.j].op)
		if i > 0 && order[i-1].g != o.g {
			switches++
		}
	}
	// The shared objects are what they were.
	c.Check(bytes.Equal(tableBytes(w.hdr.Table()), f.Hdr), "the shared header was changed")
	for i := range w.feats {
		c.Check(bytes.Equal(tableBytes(w.feats[i].Table()), f.Feats[i]), "shared feature %d was changed", i)
	}
	c.Count("goroutines", g)
	c.Count("switches_between_calls", switches)
	c.Distinct("%s", sb.String())
	c.Briefly("%d goroutines, %d calls, %d switches between them, %s; interleaving %s", g, len(order), switches, f.describe(), clipS(sb.String(), 200))
}
