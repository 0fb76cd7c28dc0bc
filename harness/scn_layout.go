package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"

	"github.com/funny-falcon/go-iproto/marshal"
)

func init() {
	f := []string{"marshal/writer.go", "marshal/reader.go", "marshal/writer_reflect.go", "marshal/reader_reflect.go", "marshal/writer_any.go", "marshal/reader_any.go", "marshal/marshal.go"}
	reg(Scenario{Name: "layout.round", Spec: "TraceLayout", Props: []string{"X01"}, Run: scnLayoutRound, Files: f, Weight: 6, Max: 2420})
	reg(Scenario{Name: "layout.prims", Spec: "TraceLayout", Props: []string{"X01", "X02"}, Run: scnLayoutPrims, Files: f, Weight: 2, Max: 770})
	reg(Scenario{Name: "layout.bad", Spec: "TraceLayout", Props: []string{"X02"}, Run: scnLayoutBad, Files: f, Weight: 6, Max: 2860})
	reg(Scenario{Name: "layout.par", Spec: "TraceLayout", Props: []string{"X01"}, Run: scnLayoutPar, One: true, Files: []string{"marshal/marshal.go"}, First: 12, Weight: 2, Max: 770, Explore: true})
}

/******************************** types ********************************/

// lt is a type and its layout.
type lt struct {
	idx   int
	rt    reflect.Type
	k     string
	w     int
	e     *lt
	n     int
	f     []lfld
	big   int  /* a bound of the encoded size, as far as lengths are small */
	ptr   bool /* has to be addressable */
	open  bool /* the last field is not delimited */
	cust  bool /* there is something with methods of its own in it */
	flat  bool /* bytes: the value is a flat sequence */
	count bool /* brings its own count */
	refs  bool /* contains pointers, which a destination may need to be emptied for */

	/* tuples */
	m    string /* row: what the last field is */
	g    []lfld /* row: a group of it */
	gi   int
	zero interface{} /* opt: what is allocated */
}
type lfld struct {
	t    *lt
	s, x string
	i    int /* Go field */
}

type layoutGen struct {
	r     *rand.Rand
	table []*lt
	long  int /* 1 in long blobs is long */
	noCst bool
	room  int
	huge  bool /* the next blob has a length of three groups */
}

func (g *layoutGen) n(k int) int    { return g.r.Intn(k) }
func (g *layoutGen) p(k int) bool   { return g.r.Intn(100) < k }
func (g *layoutGen) add(t *lt) *lt  { g.table = append(g.table, t); t.idx = len(g.table); return t }
func (g *layoutGen) same(t *lt) *lt { u := *t; return g.add(&u) }

type (
	nU8   uint8
	nI16  int16
	nU32  uint32
	nU64  uint64
	nF64  float64
	nStr  string
	nByts []byte
)

var numTypes = []struct {
	v interface{}
	w int
}{
	{uint8(0), 1}, {int8(0), 1}, {uint16(0), 2}, {int16(0), 2}, {uint32(0), 4}, {int32(0), 4}, {uint64(0), 8}, {int64(0), 8},
	{float32(0), 4}, {float64(0), 8}, {nU8(0), 1}, {nI16(0), 2}, {nU32(0), 4}, {nU64(0), 8}, {nF64(0), 8},
}

func (g *layoutGen) num() *lt {
	v := numTypes[g.n(len(numTypes))]
	return g.add(&lt{rt: reflect.TypeOf(v.v), k: numKind(reflect.TypeOf(v.v)), w: v.w, big: v.w})
}

// numKind: a float32 goes through a float64 at times, which quiets what is not a number.
func numKind(rt reflect.Type) string {
	if rt.Kind() == reflect.Float32 {
		return "flt"
	}
	return "num"
}
func (g *layoutGen) uint() reflect.Type {
	return reflect.TypeOf([]interface{}{uint8(0), uint16(0), uint32(0), uint64(0), nU8(0), nU64(0)}[g.n(6)])
}
func (g *layoutGen) blob() *lt {
	v := []interface{}{"", "", []byte{}, []byte{}, []int8{}, nStr(""), nByts{}, []nU8{}}[g.n(8)]
	return g.add(&lt{rt: reflect.TypeOf(v), k: "bytes", flat: true, big: 44})
}

// gen makes a type at most so deep; what is not delimited by itself is not among them.
func (g *layoutGen) gen(d int) *lt {
	if d <= 0 {
		if g.p(60) {
			return g.num()
		}
		return g.blob()
	}
	switch k := g.n(12); {
	case k < 2:
		return g.num()
	case k < 4:
		return g.blob()
	case k < 6:
		return g.slice(g.gen(d - 1))
	case k < 7:
		return g.array(g.gen(d - 1))
	case k < 8 && !g.noCst:
		return g.custom()
	default:
		return g.strct(d, false)
	}
}
func (g *layoutGen) slice(e *lt) *lt {
	t := &lt{rt: reflect.SliceOf(e.rt), k: "slice", e: e, big: 4 + 4*e.big, ptr: false, cust: e.cust, refs: e.refs}
	if k := e.rt.Kind(); (k == reflect.Uint8 || k == reflect.Int8) && e.k == "num" {
		*t = lt{rt: t.rt, k: "bytes", flat: true, big: 44}
	}
	return g.add(t)
}
func (g *layoutGen) array(e *lt) *lt { return g.arrayOf(1+g.n(4), e) }
func (g *layoutGen) arrayOf(n int, e *lt) *lt {
	return g.add(&lt{rt: reflect.ArrayOf(n, e.rt), k: "array", e: e, n: n, big: n * e.big, ptr: e.ptr, cust: e.cust, refs: e.refs})
}
func (g *layoutGen) form(max int) string {
	f := []string{"ber", "i8", "i16", "i32", "i64", "ber"}[g.n(6)]
	if f == "i8" && max > 255 || f == "i16" && max > 65535 {
		f = "ber"
	}
	return f
}

// strct makes a struct; its last field may not be delimited when open is set.
func (g *layoutGen) strct(d int, open bool) *lt {
	t := &lt{k: "struct", open: open}
	var fs []reflect.StructField
	n := 1 + g.n(4)
	for a := 0; a < n; a++ {
		for g.p(12) {
			/* something that is left out */
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("S%d", len(fs)), Type: reflect.TypeOf([]interface{}{0, true, map[string]int{}, "", []byte{}, uint32(0), new(int)}[g.n(7)]), Tag: `iproto:"skip"`})
			if g.p(40) {
				fs[len(fs)-1] = reflect.StructField{Name: fmt.Sprintf("s%d", len(fs)-1), PkgPath: "x", Type: reflect.TypeOf([]interface{}{uint8(0), "", 0}[g.n(3)])}
			}
		}
		h := lfld{i: len(fs)}
		tag := ""
		last := open && a == n-1
		switch k := g.n(12); {
		case last:
			switch g.n(5) {
			case 0:
				h.t = g.strct(d-1, true)
			case 1:
				h.t = g.slice(g.gen(d - 1))
			case 2:
				h.t = g.ptrTo(g.full(d - 1))
			default:
				h.t = g.blob()
			}
			h.s, tag = "no", []string{"size(no)", "cnt(no)"}[g.n(2)]
		case k < 3:
			/* its size in front */
			switch g.n(4) {
			case 0:
				h.t = g.ptrTo(g.full(d - 1))
			case 1:
				h.t = g.strct(d-1, true)
			default:
				h.t = g.gen(d - 1)
			}
			if g.p(4) {
				/* nothing, with its size */
				h.t = g.arrayOf(0, g.gen(d-1))
			}
			h.s, h.x = "s", g.form(h.t.big)
			tag = "size(" + h.x + ")"
		case k < 5:
			/* its count in front */
			switch g.n(6) {
			case 0:
				h.t = g.array(g.gen(d - 1))
			case 1:
				h.t = g.num()
			case 2:
				if g.p(30) {
					h.t = g.ptrTo(g.blob())
				} else {
					h.t = g.ptrTo(g.slice(g.gen(d - 1)))
				}
			case 3:
				h.t = g.blob()
			default:
				h.t = g.slice(g.gen(d - 1))
			}
			if g.p(8) {
				h.t = g.arrayOf(0, g.gen(d-1))
			}
			h.s, h.x = "c", g.form(h.t.big)
			tag = "cnt(" + h.x + ")"
		case k < 8:
			/* in groups of bits */
			u := g.uint()
			e := g.add(&lt{rt: u, k: "ber", w: int(u.Size()), big: 10})
			ref := false
			switch g.n(4) {
			case 0:
				h.t = e
			case 3:
				h.t, ref = g.ptrTo(e), true
			case 1:
				h.t = g.add(&lt{rt: reflect.SliceOf(u), k: "slice", e: e, big: 44})
			case 2:
				n := 1 + g.n(4)
				h.t = g.add(&lt{rt: reflect.ArrayOf(n, u), k: "array", e: e, n: n, big: 10 * n})
			}
			tag = "ber"
			if ref || g.p(40) {
				h.s, h.x = []string{"s", "c"}[g.n(2)], g.form(h.t.big)
				if h.t.k == "ber" || ref {
					h.s = "s"
				}
				tag += map[string]string{"s": ",size(", "c": ",cnt("}[h.s] + h.x + ")"
				if g.p(50) {
					tag = tag[4:] + ",ber"
				}
			}
		default:
			h.t = g.gen(d - 1)
		}
		st := reflect.StructTag("")
		if tag != "" {
			st = reflect.StructTag(`iproto:"` + tag + `"`)
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: h.t.rt, Tag: st})
		t.f = append(t.f, h)
		t.big += h.t.big + 10
		t.ptr = t.ptr || h.t.ptr
		t.cust = t.cust || h.t.cust
		t.refs = t.refs || h.t.refs
	}
	t.rt = reflect.StructOf(fs)
	return g.add(t)
}

// full is something that is never encoded as nothing.
func (g *layoutGen) full(d int) *lt {
	if g.p(40) {
		return g.num()
	}
	if !g.noCst && g.p(15) {
		return g.customOf(g.n(3))
	}
	for {
		t := g.strct(d, false)
		for _, h := range t.f {
			if h.s != "no" {
				return t
			}
		}
	}
}
func (g *layoutGen) ptrTo(e *lt) *lt {
	return g.add(&lt{rt: reflect.PtrTo(e.rt), k: "ptr", e: e, big: e.big, cust: e.cust, refs: true})
}

/****************** types with methods of their own ******************/

// cuV writes by value: a number and a blob with its length in groups of bits.
type cuV struct {
	A uint8
	B []byte
}

func (c cuV) IWrite(w *marshal.Writer) {
	w.Uint8(c.A)
	w.Intvar(len(c.B))
	w.Bytes(c.B)
}
func (c *cuV) IRead(r *marshal.Reader) {
	c.A = r.Uint8()
	n := r.Intvar()
	c.B = r.Slice(n)
}

// cuP has the long forms of the methods, all of them with a pointer.
type cuP struct {
	A uint16
	B []byte
}

func (c *cuP) IWrite(self interface{}, w *marshal.Writer) {
	c = self.(*cuP)
	w.Uint16(c.A)
	w.IntUint8(len(c.B))
	w.Uint8sl(c.B)
}
func (c *cuP) ISize(self interface{}) int { return 3 + len(self.(*cuP).B) }
func (c *cuP) IRead(self interface{}, r *marshal.Reader) {
	c = self.(*cuP)
	c.A = r.Uint16()
	n := r.IntUint8()
	c.B = r.Slice(n)
}

// odd looks like a number, but the bytes are the other way round.
type cuOdd uint16

func (c cuOdd) IWrite(w *marshal.Writer) { w.Uint8(uint8(c >> 8)); w.Uint8(uint8(c)) }
func (c cuOdd) ISize() int               { return 2 }
func (c *cuOdd) IRead(r *marshal.Reader) {
	a := r.Uint8()
	b := r.Uint8()
	*c = cuOdd(a)<<8 | cuOdd(b)
}

// cuLst is a list with a count of its own.
type cuLst []uint16

func (c *cuLst) IWrite(self interface{}, w *marshal.Writer) { w.Uint16sl(*self.(*cuLst)) }
func (c *cuLst) ICount(self interface{}) int                { return len(*self.(*cuLst)) }
func (c *cuLst) IRead(self interface{}, r *marshal.Reader)  { r.Uint16sl(*self.(*cuLst)) }
func (c *cuLst) IReadTail(self interface{}, r *marshal.Reader) {
	l := self.(*cuLst)
	*l = make(cuLst, len(r.Body)/2)
	r.Uint16sl(*l)
}
func (c *cuLst) ISetCount(self interface{}, n int) error {
	if n > 1<<16 {
		return fmt.Errorf("too many")
	}
	*self.(*cuLst) = make(cuLst, n)
	return nil
}

// cuSrt is such a list with the short forms.
type cuSrt []uint32

func (c *cuSrt) IWrite(w *marshal.Writer) { w.Uint32sl(*c) }
func (c *cuSrt) ICount() int              { return len(*c) }
func (c *cuSrt) ISize() int               { return 4 * len(*c) }
func (c *cuSrt) IRead(r *marshal.Reader)  { r.Uint32sl(*c) }
func (c *cuSrt) IReadTail(r *marshal.Reader) {
	*c = make(cuSrt, len(r.Body)/4)
	r.Uint32sl(*c)
}
func (c *cuSrt) ISetCount(n int) error {
	if n > 1<<16 {
		return fmt.Errorf("too many")
	}
	*c = make(cuSrt, n)
	return nil
}
func (c *cuSrt) ISetSize(n int) (bool, error) {
	if n%4 != 0 {
		return false, fmt.Errorf("not a multiple")
	}
	*c = make(cuSrt, n/4)
	return true, nil
}

// cuTree contains itself.
type cuTree struct {
	V    uint16 `iproto:"ber"`
	Kids []cuTree
	N    []byte `iproto:"size(ber)"`
}

func (g *layoutGen) custom() *lt { return g.customOf(g.n(6)) }
func (g *layoutGen) customOf(k int) *lt {
	num := func(w int) *lt { return g.add(&lt{k: "num", w: w}) }
	byts := func() *lt { return g.add(&lt{rt: reflect.TypeOf([]byte{}), k: "bytes", flat: true, big: 44}) }
	switch k {
	case 0:
		a, b := num(1), byts()
		a.rt = reflect.TypeOf(uint8(0))
		return g.add(&lt{rt: reflect.TypeOf(cuV{}), k: "struct", f: []lfld{{a, "", "", 0}, {b, "c", "ber", 1}}, big: 60, cust: true, ptr: false})
	case 1:
		a, b := num(2), byts()
		a.rt = reflect.TypeOf(uint16(0))
		b.n = 255
		return g.add(&lt{rt: reflect.TypeOf(cuP{}), k: "struct", f: []lfld{{a, "", "", 0}, {b, "c", "i8", 1}}, big: 60, cust: true, ptr: true})
	case 2:
		return g.add(&lt{rt: reflect.TypeOf(cuOdd(0)), k: "num", w: 2, big: 2, cust: true})
	case 3:
		e := num(2)
		e.rt = reflect.TypeOf(uint16(0))
		return g.add(&lt{rt: reflect.TypeOf(cuLst{}), k: "slice", e: e, big: 12, cust: true, ptr: true, count: true})
	case 4:
		e := num(4)
		e.rt = reflect.TypeOf(uint32(0))
		return g.add(&lt{rt: reflect.TypeOf(cuSrt{}), k: "slice", e: e, big: 20, cust: true, ptr: true, count: true})
	default:
		a := g.add(&lt{rt: reflect.TypeOf(uint16(0)), k: "ber", w: 2})
		t := &lt{rt: reflect.TypeOf(cuTree{}), k: "struct", big: 400}
		l := g.add(&lt{rt: reflect.TypeOf([]cuTree{}), k: "slice", e: t})
		t.f = []lfld{{a, "", "", 0}, {l, "", "", 1}, {byts(), "s", "ber", 2}}
		return g.add(t)
	}
}

func (g *layoutGen) types() (l []map[string]interface{}) {
	for _, t := range g.table {
		m := map[string]interface{}{"k": t.k}
		switch t.k {
		case "num", "flt", "ber":
			m["w"] = t.w
		case "slice", "ptr":
			m["e"] = t.e.idx
		case "array":
			m["e"], m["n"] = t.e.idx, t.n
		case "raw":
			m["n"] = t.n
		case "one", "list", "opt":
			m["e"] = t.e.idx
			if t.k == "opt" {
				m["z"] = t.zero
			}
		case "arr":
			m["e"], m["n"] = t.e.idx, t.n
		case "row":
			f, gr := []int{}, []int{}
			for _, h := range t.f {
				f = append(f, h.t.idx)
			}
			for _, h := range t.g {
				gr = append(gr, h.t.idx)
			}
			m["f"], m["m"], m["g"] = f, t.m, gr
		case "tuple", "any":
			f := []int{}
			for _, h := range t.f {
				f = append(f, h.t.idx)
			}
			m["f"] = f
		case "struct":
			f := []map[string]interface{}{}
			for _, h := range t.f {
				f = append(f, map[string]interface{}{"t": h.t.idx, "s": h.s, "x": h.x})
			}
			m["f"] = f
		}
		l = append(l, m)
	}
	return
}

/******************************** values ********************************/

var numEdges = []uint64{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x3fff, 0x4000, 0xffff, 0x10000, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<35 - 1, 1 << 35, 1<<42 - 1, 1 << 42, 1<<49 - 1, 1 << 49, 1<<56 - 1, 1 << 56, 1<<63 - 1, 1 << 63, 1<<64 - 1}

func (g *layoutGen) word() uint64 {
	if g.p(60) {
		return numEdges[g.n(len(numEdges))]
	}
	return g.r.Uint64() >> uint(g.n(64))
}
func (g *layoutGen) fill(v reflect.Value, t *lt, d int) {
	if d == 0 {
		/* a value has so many elements at most */
		g.room = 1000
	}
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(g.word())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(g.word()))
	case reflect.Float32:
		x := math.Float32frombits(uint32(g.r.Uint64()))
		if x != x || g.p(20) {
			x = []float32{0, 1.5, float32(math.Inf(-1)), math.MaxFloat32, math.SmallestNonzeroFloat32}[g.n(5)]
		}
		v.SetFloat(float64(x))
	case reflect.Float64:
		x := math.Float64frombits(g.r.Uint64())
		if x != x || g.p(20) {
			x = []float64{0, 1.5, math.Inf(1), math.MaxFloat64, math.SmallestNonzeroFloat64}[g.n(5)]
		}
		v.SetFloat(x)
	case reflect.String:
		b := make([]byte, g.fit(g.size(t)))
		g.r.Read(b)
		v.SetString(string(b))
	case reflect.Slice:
		n := g.size(t)
		if t.k == "slice" {
			n = g.n(5)
			if d > 3 {
				n = g.n(2)
			}
			if d > 8 {
				n = 0
			}
			if g.long > 0 && g.n(g.long) == 0 && t.e.k != "slice" && t.e.k != "struct" && t.big > 0 && !t.count {
				n = []int{127, 128, 129, 200}[g.n(4)]
			}
		}
		n = g.fit(n)
		if n == 0 && g.p(50) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n+g.n(3)))
		if t.k == "bytes" {
			for a := 0; a < n; a++ {
				b := g.r.Intn(256)
				if v.Index(a).Kind() == reflect.Int8 {
					v.Index(a).SetInt(int64(int8(b)))
				} else {
					v.Index(a).SetUint(uint64(b))
				}
			}
			return
		}
		for a := 0; a < n; a++ {
			g.fill(v.Index(a), t.e, d+1)
		}
	case reflect.Array:
		for a := 0; a < t.n; a++ {
			g.fill(v.Index(a), t.e, d+1)
		}
	case reflect.Ptr:
		if g.p(40) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		v.Set(reflect.New(t.e.rt))
		g.fill(v.Elem(), t.e, d+1)
		if (t.e.k == "slice" || t.e.k == "bytes") && v.Elem().Len() == 0 {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Struct:
		for _, h := range t.f {
			g.huge = d == 0 && h.s != "" && h.x == "ber" && h.t.k == "bytes" && g.long > 0 && g.n(300) == 0
			g.fill(v.Field(h.i), h.t, d+1)
			g.huge = false
		}
	}
}
func (g *layoutGen) part(v reflect.Value, t *lt, d int) {
	g.room = 300
	g.fill(v, t, d)
}
func (g *layoutGen) fit(n int) int {
	if n > g.room {
		n = g.room
	}
	g.room -= n
	return n
}
func (g *layoutGen) size(t *lt) int {
	if g.huge && t.n == 0 {
		g.huge = false
		g.room += 40000
		return []int{16383, 16384, 16385, 16511, 20000}[g.n(5)]
	}
	if g.long > 0 && g.n(g.long) == 0 && t.n == 0 {
		/* the form of a size may be too small for more */
		return []int{127, 128, 129, 254, 255, 60, 100}[g.n(5)%7]
	}
	return g.n(12)
}
func leWord(u uint64, w int) []int {
	res := make([]int, w)
	for a := range res {
		res[a] = int(u >> uint(8*a) & 255)
	}
	return res
}

// value writes a value down the way the specification has it.
func value(v reflect.Value, t *lt) interface{} {
	if t.rt == reflect.TypeOf(cuOdd(0)) {
		return []int{int(v.Uint() >> 8), int(v.Uint() & 255)}
	}
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return leWord(v.Uint(), t.w)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return leWord(uint64(v.Int()), t.w)
	case reflect.Float32:
		return leWord(uint64(math.Float32bits(float32(v.Float()))), 4)
	case reflect.Float64:
		return leWord(math.Float64bits(v.Float()), 8)
	case reflect.String:
		return ints([]byte(v.String()))
	case reflect.Slice, reflect.Array:
		if t.k == "bytes" || t.k == "raw" {
			l := make([]int, v.Len())
			for a := range l {
				if v.Index(a).Kind() == reflect.Int8 {
					l[a] = int(uint8(v.Index(a).Int()))
				} else {
					l[a] = int(v.Index(a).Uint())
				}
			}
			return l
		}
		l := make([]interface{}, v.Len())
		for a := range l {
			l[a] = value(v.Index(a), t.e)
		}
		return l
	case reflect.Ptr:
		if v.IsNil() {
			return []int{}
		}
		return []interface{}{value(v.Elem(), t.e)}
	case reflect.Struct:
		l := []interface{}{}
		for _, h := range t.f {
			l = append(l, value(v.Field(h.i), h.t))
		}
		return l
	}
	panic(fmt.Sprint("no value ", v.Type()))
}

/********************************* runs *********************************/

type lyRun struct {
	j    *J
	g    *layoutGen
	outs [][]byte
	keep []lyKept
	base int
}
type lyKept struct {
	r, k int
	v    reflect.Value
	t    *lt
}

var forms = map[string]struct {
	w func(*marshal.Writer, int)
	r func(*marshal.Reader) int
}{
	"ber": {(*marshal.Writer).Intvar, (*marshal.Reader).Intvar},
	"i8":  {(*marshal.Writer).IntUint8, (*marshal.Reader).IntUint8},
	"i16": {(*marshal.Writer).IntUint16, (*marshal.Reader).IntUint16},
	"i32": {(*marshal.Writer).IntUint32, (*marshal.Reader).IntUint32},
	"i64": {(*marshal.Writer).IntUint64, (*marshal.Reader).IntUint64},
}

func (x *lyRun) crash() {
	if e := recover(); e != nil {
		if os.Getenv("VERIF_STACK") != "" {
			debug.PrintStack()
		}
		x.j.E("crash", "err", fmt.Sprint(e))
	}
}
func (x *lyRun) take(w int, b []byte) {
	if x.g.p(30) {
		/* what is appended to it is nobody else's */
		for k := x.g.n(60); k >= 0; k-- {
			_ = append(b, bytes.Repeat([]byte{0xa5}, k)...)
		}
	}
	x.outs = append(x.outs, b)
	x.j.E("take", "w", w, "k", x.base+len(x.outs), "b", ints(b))
}
func (x *lyRun) again(k int) {
	x.j.E("again", "k", x.base+k+1, "b", ints(x.outs[k]))
}

// put writes a value with a writer; by value or through a pointer.
func (x *lyRun) put(w *marshal.Writer, n int, t *lt, pv reflect.Value, m string) {
	g := x.g
	byPtr := t.ptr || g.p(40)
	var i interface{} = pv.Interface()
	if !byPtr {
		i = pv.Elem().Interface()
	}
	x.j.E("put", "w", n, "t", t.idx, "m", m, "v", value(pv.Elem(), t))
	switch m {
	case "auto":
		if g.p(20) {
			w.WriteValue(pv.Elem())
		} else {
			w.Write(i)
		}
	case "tail":
		w.WriteTail(i)
	default:
		if g.p(20) {
			w.WriteValueWithSize(pv.Elem(), forms[m].w)
		} else {
			w.WriteWithSize(i, forms[m].w)
		}
	}
}

// get reads a value.
func (x *lyRun) get(r *marshal.Reader, n int, t *lt, dst reflect.Value, m string) bool {
	g := x.g
	failed := r.Err != nil
	var err error
	switch m {
	case "auto":
		if g.p(20) {
			err = r.ReadValueAuto(dst.Elem())
		} else {
			err = r.Read(dst.Interface())
		}
	case "tail":
		err = r.ReadTail(dst.Interface())
	default:
		if g.p(20) {
			err = r.ReadValueWithSize(dst.Elem(), forms[m].r)
		} else {
			err = r.ReadWithSize(dst.Interface(), forms[m].r)
		}
	}
	ok := err == nil
	if failed && ok || ok != (r.Err == nil) {
		x.j.E("crash", "err", "the error was forgotten")
	}
	var v interface{} = []int{}
	if ok {
		v = value(dst.Elem(), t)
	}
	x.j.E("get", "r", n, "t", t.idx, "m", m, "ok", ok, "v", v, "left", len(r.Body))
	return ok
}
func (x *lyRun) body(n int, b []byte) *marshal.Reader {
	x.j.E("body", "r", n, "b", ints(b))
	return &marshal.Reader{Body: append([]byte{}, b...)}
}
func (x *lyRun) end(r *marshal.Reader, n int) {
	x.j.E("end", "r", n, "done", r.Done(), "err", r.Error() != nil)
}

// dest is somewhere to read to, which may have been used before.
func (x *lyRun) dest(t *lt) reflect.Value {
	v := reflect.New(t.rt)
	if x.g.p(50) {
		x.g.fill(v.Elem(), t, 0)
	}
	return v
}
func (x *lyRun) mode(t *lt) string {
	if t.open {
		return []string{"tail", "ber", "i32", "i16"}[x.g.n(4)]
	}
	return []string{"auto", "auto", "auto", "tail", "ber", "i16", "i32", "i64"}[x.g.n(8)]
}

// top is a type values of which are written by themselves.
func (x *lyRun) top() *lt {
	g := x.g
	for {
		var t *lt
		switch k := g.n(10); {
		case k < 5:
			t = g.strct(1+g.n(3), false)
		case k < 7:
			t = g.strct(1+g.n(3), true)
		default:
			t = g.gen(2)
		}
		/* the methods of a type are used directly when it is by itself */
		if !t.count {
			return t
		}
	}
}

func newLy(j *J) *lyRun {
	return &lyRun{j: j, g: &layoutGen{r: rand.New(rand.NewSource(j.Seed + 7)), long: 25}}
}

// round writes values and reads them back.
func (x *lyRun) round(ts []*lt, w *marshal.Writer, n, ops int) {
	g := x.g
	type item struct {
		t *lt
		m string
	}
	rn := n * 100
	for ; ops > 0; ops-- {
		var items []item
		k := 1 + g.n(3)
		var b []byte
		if g.p(30) {
			/* with a writer of the pool */
			t := ts[g.n(len(ts))]
			pv := reflect.New(t.rt)
			g.fill(pv.Elem(), t, 0)
			m := "tail"
			if !t.open && g.p(60) {
				m = "auto"
			}
			x.j.E("put", "w", n+1000, "t", t.idx, "m", m, "v", value(pv.Elem(), t))
			i := pv.Interface()
			if !t.ptr && g.p(60) {
				i = pv.Elem().Interface()
			}
			if m == "auto" {
				b = marshal.Write(i)
			} else {
				b = marshal.WriteTail(i)
			}
			x.take(n+1000, b)
			items = append(items, item{t, m})
		} else {
			for a := 0; a < k; a++ {
				t := ts[g.n(len(ts))]
				m := x.mode(t)
				if m == "tail" && a < k-1 {
					m = "ber"
				}
				pv := reflect.New(t.rt)
				g.fill(pv.Elem(), t, 0)
				x.put(w, n, t, pv, m)
				items = append(items, item{t, m})
			}
			if g.p(8) {
				x.j.E("drop", "w", n)
				w.Reset()
				continue
			}
			b = w.Written()
			x.take(n, b)
		}
		rn++
		if len(items) == 1 && g.p(30) {
			/* with a reader of the pool */
			t, m := items[0].t, items[0].m
			if g.p(30) {
				/* whose last one has failed */
				var none uint32
				if g.p(50) {
					marshal.Read([]byte{1, 2}, &none)
				} else {
					marshal.ReadTail([]byte{1, 2, 3, 4, 5}, &none)
				}
			}
			x.j.E("body", "r", rn, "b", ints(b))
			dst := x.dest(t)
			var err error
			if m == "auto" {
				err = marshal.Read(append([]byte{}, b...), dst.Interface())
			} else if m == "tail" {
				err = marshal.ReadTail(append([]byte{}, b...), dst.Interface())
			} else {
				continue
			}
			var v interface{} = []int{}
			if err == nil {
				v = value(dst.Elem(), t)
			}
			x.j.E("get", "r", rn, "t", t.idx, "m", m, "ok", err == nil, "v", v, "left", -1)
			continue
		}
		r := x.body(rn, b)
		for _, it := range items {
			if !x.get(r, rn, it.t, x.dest(it.t), it.m) {
				break
			}
		}
		x.end(r, rn)
	}
}

func scnLayoutRound(j *J) {
	x := newLy(j)
	defer x.crash()
	var ts []*lt
	for a := 1 + j.n(3); a > 0; a-- {
		ts = append(ts, x.top())
	}
	j.E("types", "types", x.g.types())
	w := &marshal.Writer{DefSize: []int{0, 1, 4, 16, 128, 512}[j.n(6)]}
	x.round(ts, w, 1, 3+j.n(6))
	for k := range x.outs {
		if j.p(50) {
			x.again(k)
		}
	}
}

// Several at the same time, with types nobody has seen before.
func scnLayoutPar(j *J) {
	g := newLy(j).g
	x := &lyRun{j: j, g: g}
	var ts []*lt
	for a := 1 + j.n(2); a > 0; a-- {
		ts = append(ts, x.top())
	}
	j.E("types", "types", g.types())
	n := 2 + j.n(2)
	var xs []*lyRun
	for a := 0; a < n; a++ {
		y := &lyRun{j: j, g: &layoutGen{r: rand.New(rand.NewSource(j.Seed + 100 + int64(a))), long: 25}, base: 10000 * a}
		xs = append(xs, y)
		a := a
		j.Go(func() {
			defer y.crash()
			y.round(ts, &marshal.Writer{DefSize: 64}, a+1, 2+y.g.n(4))
		})
	}
	if !j.Join() {
		return
	}
	for _, y := range xs {
		for k := range y.outs {
			y.again(k)
		}
	}
}

// spoil changes a body.
func (x *lyRun) spoil(b []byte) []byte {
	g := x.g
	b = append([]byte{}, b...)
	for k := 1 + g.n(2)*g.n(3); k > 0; k-- {
		switch g.n(8) {
		case 0, 1, 2:
			if len(b) > 0 {
				b = b[:g.n(len(b))]
			}
		case 3:
			b = append(b, make([]byte, 1+g.n(3))...)
		case 4:
			if len(b) > 0 {
				b[g.n(len(b))] ^= 1 << uint(g.n(8))
			}
		case 5:
			if len(b) > 0 {
				b[g.n(len(b))] = byte([]int{0, 1, 0x7f, 0x80, 0xff}[g.n(5)])
			}
		case 6:
			if len(b) > 0 {
				/* a number out of all proportion */
				a := g.n(len(b))
				c := []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f, 1}
				copy(b[a:], c[g.n(2):][:1+g.n(8)])
			}
		case 7:
			if len(b) > 1 {
				a := g.n(len(b) - 1)
				b = append(b[:a], b[a+1:]...)
			}
		}
	}
	return b
}

func scnLayoutBad(j *J) {
	x := newLy(j)
	defer x.crash()
	g := x.g
	var ts []*lt
	for a := 1 + j.n(2); a > 0; a-- {
		ts = append(ts, x.top())
	}
	j.E("types", "types", g.types())
	for rn := 1; rn < 9; rn++ {
		t := ts[g.n(len(ts))]
		m := x.mode(t)
		w := &marshal.Writer{}
		var ms []string
		var us []*lt
		for a := 1 + g.n(2); a > 0; a-- {
			pv := reflect.New(t.rt)
			g.fill(pv.Elem(), t, 0)
			switch {
			case m == "auto":
				w.Write(pv.Interface())
			case m == "tail":
				w.WriteTail(pv.Interface())
			default:
				w.WriteWithSize(pv.Interface(), forms[m].w)
			}
			ms, us = append(ms, m), append(us, t)
			t = ts[g.n(len(ts))]
			m = x.mode(t)
		}
		b := x.spoil(w.Written())
		if g.p(10) {
			b = make([]byte, g.n(30))
			g.r.Read(b)
		}
		r := x.body(rn, b)
		if (ms[0] == "auto" || ms[0] == "tail") && g.p(25) {
			dst := x.dest(us[0])
			var err error
			if ms[0] == "auto" {
				err = marshal.Read(r.Body, dst.Interface())
			} else {
				err = marshal.ReadTail(r.Body, dst.Interface())
			}
			var v interface{} = []int{}
			if err == nil {
				v = value(dst.Elem(), us[0])
			}
			x.j.E("get", "r", rn, "t", us[0].idx, "m", ms[0], "ok", err == nil, "v", v, "left", -1)
			continue
		}
		for a := range ms {
			x.get(r, rn, us[a], x.dest(us[a]), ms[a])
		}
		for a := g.n(3); a > 0; a-- {
			t := ts[g.n(len(ts))]
			x.get(r, rn, t, x.dest(t), x.mode(t))
		}
		x.end(r, rn)
	}
}

/****************************** primitives ******************************/

type lyPrim struct {
	t *lt
	w func(w *marshal.Writer, v reflect.Value)
	r func(r *marshal.Reader, dst reflect.Value)
	m string
}

func (x *lyRun) prims() (ps []lyPrim) {
	g := x.g
	add := func(i interface{}, k string, n int, w, r interface{}) {
		rt := reflect.TypeOf(i)
		t := &lt{rt: rt, k: k, w: int(rt.Size()), n: n}
		m := "auto"
		switch k {
		case "ber":
		case "num":
			t.k = numKind(rt)
		case "array":
			e := g.add(&lt{rt: rt.Elem(), k: numKind(rt.Elem()), w: int(rt.Elem().Size())})
			t.e = e
		case "raw":
			t.k = "bytes"
			t.flat = true
		case "tail":
			t.k, m = "bytes", "tail"
		}
		g.add(t)
		wf, rf := reflect.ValueOf(w), reflect.ValueOf(r)
		p := lyPrim{t: t, m: m}
		p.w = func(w *marshal.Writer, v reflect.Value) { wf.Call([]reflect.Value{reflect.ValueOf(w), v}) }
		p.r = func(r *marshal.Reader, dst reflect.Value) {
			a := []reflect.Value{reflect.ValueOf(r)}
			switch k {
			case "array":
				if dst.Len() != n {
					dst.Set(reflect.MakeSlice(rt, n, n))
				}
				rf.Call(append(a, dst))
			case "raw":
				dst.Set(rf.Call(append(a, reflect.ValueOf(n)))[0])
			default:
				dst.Set(rf.Call(a)[0])
			}
		}
		if k == "raw" {
			t.k = "raw"
		}
		ps = append(ps, p)
	}
	type W = marshal.Writer
	type R = marshal.Reader
	add(uint8(0), "num", 0, (*W).Uint8, (*R).Uint8)
	add(int8(0), "num", 0, (*W).Int8, (*R).Int8)
	add(uint16(0), "num", 0, (*W).Uint16, (*R).Uint16)
	add(int16(0), "num", 0, (*W).Int16, (*R).Int16)
	add(uint32(0), "num", 0, (*W).Uint32, (*R).Uint32)
	add(int32(0), "num", 0, (*W).Int32, (*R).Int32)
	add(uint64(0), "num", 0, (*W).Uint64, (*R).Uint64)
	add(int64(0), "num", 0, (*W).Int64, (*R).Int64)
	add(float32(0), "num", 0, (*W).Float32, (*R).Float32)
	add(float64(0), "num", 0, (*W).Float64, (*R).Float64)
	add(uint64(0), "ber", 0, (*W).Uint64var, (*R).Uint64var)
	k := func() int { return []int{0, 1, 2, 3, 7, 130}[g.n(6)] }
	add([]uint8{}, "array", k(), (*W).Uint8sl, (*R).Uint8sl)
	add([]uint8{}, "array", k(), (*W).Bytes, (*R).Bytes)
	add([]int8{}, "array", k(), (*W).Int8sl, (*R).Int8sl)
	add([]uint16{}, "array", k(), (*W).Uint16sl, (*R).Uint16sl)
	add([]int16{}, "array", k(), (*W).Int16sl, (*R).Int16sl)
	add([]uint32{}, "array", k(), (*W).Uint32sl, (*R).Uint32sl)
	add([]int32{}, "array", k(), (*W).Int32sl, (*R).Int32sl)
	add([]uint64{}, "array", k(), (*W).Uint64sl, (*R).Uint64sl)
	add([]int64{}, "array", k(), (*W).Int64sl, (*R).Int64sl)
	add([]float32{}, "array", k(), (*W).Float32sl, (*R).Float32sl)
	add([]float64{}, "array", k(), (*W).Float64sl, (*R).Float64sl)
	add([]uint8{}, "raw", k(), (*W).Bytes, (*R).Slice)
	add("", "raw", k(), (*W).String, (*R).String)
	add([]uint8{}, "tail", 0, (*W).Bytes, (*R).Tail)
	return
}

// size is a size or count that is written as an int.
func (x *lyRun) sizes() (ps []lyPrim) {
	for _, f := range []string{"ber", "i8", "i16", "i32", "i64"} {
		fn := forms[f]
		w := map[string]int{"ber": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8}[f]
		k := "num"
		if f == "ber" {
			k = "ber"
		}
		t := x.g.add(&lt{rt: reflect.TypeOf(uint64(0)), k: k, w: w})
		ps = append(ps, lyPrim{t: t, m: "auto",
			w: func(w *marshal.Writer, v reflect.Value) { fn.w(w, int(v.Uint())) },
			r: func(r *marshal.Reader, dst reflect.Value) { dst.SetUint(uint64(fn.r(r))) },
		})
	}
	return
}

func scnLayoutPrims(j *J) {
	x := newLy(j)
	defer x.crash()
	g := x.g
	ps := append(x.prims(), x.sizes()...)
	/* several values at once, of any kind */
	var tup *lt
	if j.p(50) {
		g.noCst = true
		tup = &lt{rt: reflect.TypeOf([]interface{}{}), k: "tuple"}
		for a := j.n(4); a > 0; a-- {
			t := g.gen(1)
			tup.f = append(tup.f, lfld{t: t})
		}
		g.add(tup)
	}
	j.E("types", "types", g.types())
	w := &marshal.Writer{DefSize: []int{0, 1, 3, 16, 512}[j.n(5)]}
	for round := 1; round < 4; round++ {
		var did []lyPrim
		for a := 1 + j.n(12); a > 0; a-- {
			p := ps[j.n(len(ps))]
			if p.m == "tail" && a > 1 {
				continue
			}
			v := reflect.New(p.t.rt).Elem()
			switch p.t.k {
			case "array":
				v.Set(reflect.MakeSlice(p.t.rt, p.t.n, p.t.n))
				for b := 0; b < p.t.n; b++ {
					g.fill(v.Index(b), p.t.e, 0)
				}
			case "raw":
				b := make([]byte, p.t.n)
				g.r.Read(b)
				v.Set(reflect.ValueOf(b).Convert(p.t.rt))
			case "bytes":
				b := make([]byte, j.n(9))
				g.r.Read(b)
				v.Set(reflect.ValueOf(b))
			default:
				g.fill(v, p.t, 0)
			}
			if p.t.rt.Kind() == reflect.Uint64 && p.t.w < 8 {
				v.SetUint(v.Uint() & (1<<uint(8*p.t.w) - 1))
			}
			x.j.E("put", "w", 1, "t", p.t.idx, "m", p.m, "v", x.prim(p.t, v))
			p.w(w, v)
			did = append(did, p)
		}
		if j.p(20) {
			/* room somebody else fills */
			b := j.bytes(j.n(600))
			t := ps[len(ps)-1].t
			for _, p := range ps {
				if p.m == "tail" {
					t = p.t
				}
			}
			x.j.E("put", "w", 1, "t", t.idx, "m", "tail", "v", ints(b))
			copy(w.Need(len(b)), b)
			did = append(did, lyPrim{})
		}
		b := w.Written()
		x.take(1, b)
		bad := j.p(50)
		if bad {
			b = x.spoil(b)
		}
		r := x.body(round, b)
		for _, p := range did {
			if p.t == nil {
				break
			}
			dst := reflect.New(p.t.rt).Elem()
			p.r(r, dst)
			ok := r.Err == nil
			var v interface{} = []int{}
			if ok {
				v = x.prim(p.t, dst)
			}
			x.j.E("get", "r", round, "t", p.t.idx, "m", p.m, "ok", ok, "v", v, "left", len(r.Body))
		}
		x.end(r, round)
	}
	if tup != nil {
		x.tuple(w, tup)
	}
	for k := range x.outs {
		x.again(k)
	}
}
func (x *lyRun) prim(t *lt, v reflect.Value) interface{} {
	switch t.k {
	case "raw", "bytes":
		return ints(v.Convert(reflect.TypeOf([]byte{})).Bytes())
	}
	if t.rt.Kind() == reflect.Uint64 {
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, v.Uint())
		return ints(b[:t.w])
	}
	return value(v, t)
}
func (x *lyRun) tuple(w *marshal.Writer, t *lt) {
	g := x.g
	for a := 0; a < 2; a++ {
		var vals, dsts []interface{}
		var dv []reflect.Value
		v := []interface{}{}
		for _, h := range t.f {
			pv := reflect.New(h.t.rt)
			g.fill(pv.Elem(), h.t, 0)
			if g.p(50) || h.t.ptr {
				vals = append(vals, pv.Interface())
			} else {
				vals = append(vals, pv.Elem().Interface())
			}
			v = append(v, value(pv.Elem(), h.t))
			d := x.dest(h.t)
			dv = append(dv, d)
			dsts = append(dsts, d.Interface())
		}
		m := []string{"auto", "tail"}[g.n(2)]
		x.j.E("put", "w", 1, "t", t.idx, "m", m, "v", v)
		if m == "auto" {
			w.Write(vals)
		} else {
			w.WriteTail(vals)
		}
		b := w.Written()
		x.take(1, b)
		if g.p(30) {
			b = x.spoil(b)
		}
		n := 50 + a
		r := x.body(n, b)
		var err error
		switch {
		case m == "auto":
			err = r.Read(&dsts)
		case g.p(50):
			m = "some"
			err = r.Read(dsts)
		default:
			err = r.ReadTail(dsts)
		}
		got := []interface{}{}
		if err == nil {
			for k, h := range t.f {
				got = append(got, value(dv[k].Elem(), h.t))
			}
		}
		x.j.E("get", "r", n, "t", t.idx, "m", m, "ok", err == nil, "v", got, "left", len(r.Body))
		x.end(r, n)
	}
}
