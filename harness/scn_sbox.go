package main

import (
	"fmt"
	"math/rand"
	"reflect"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/marshal"
	"github.com/funny-falcon/go-iproto/sbox"
)

func init() {
	f := []string{"sbox/select.go", "sbox/modify.go", "sbox/rpc.go", "sbox/writer.go", "sbox/reader.go", "sbox/result.go", "marshal/writer_reflect.go", "marshal/reader_reflect.go"}
	reg(Scenario{Name: "sbox.request", Spec: "TraceSbox", Props: []string{"B01"}, Run: scnSboxRequest, Files: f, Weight: 5, Max: 3300})
	reg(Scenario{Name: "sbox.tuple", Spec: "TraceSbox", Props: []string{"B01", "B02"}, Run: scnSboxTuple, Files: f, Weight: 3, Max: 1100})
	reg(Scenario{Name: "sbox.response", Spec: "TraceSbox", Props: []string{"B02"}, Run: scnSboxResponse, Files: f, Weight: 5, Max: 1980})
	reg(Scenario{Name: "sbox.par", Spec: "TraceSbox", Props: []string{"B01", "B02"}, Run: scnSboxPar, One: true, Files: []string{"sbox/result.go", "sbox/rpc.go", "sbox/select.go", "sbox/modify.go"}, First: 12, Weight: 2, Max: 660, Explore: true})
}

/******************************** types ********************************/

func (g *layoutGen) tOne() *lt {
	var e *lt
	switch g.n(5) {
	case 0, 1:
		e = g.num()
	case 2:
		b := g.add(&lt{rt: reflect.TypeOf(uint8(0)), k: "num", w: 1})
		n := 1 + g.n(4)
		e = g.add(&lt{rt: reflect.ArrayOf(n, b.rt), k: "array", e: b, n: n})
	default:
		v := []interface{}{"", []byte{}, nStr(""), nByts{}, []nU8{}}[g.n(5)]
		e = g.add(&lt{rt: reflect.TypeOf(v), k: "bytes", flat: true, big: 44})
	}
	return g.add(&lt{rt: e.rt, k: "one", e: e})
}

// item is a field of a list; plain ones are read from responses by all kinds of places.
func (g *layoutGen) item(plain bool) *lt {
	for {
		var e *lt
		switch k := g.n(6); {
		case k < 2:
			e = g.num()
		case k < 4 || plain:
			v := []interface{}{"", nStr("")}[g.n(2)]
			if !plain && g.p(60) {
				v = []interface{}{[]byte{}, nByts{}, []int8{}, []nU8{}}[g.n(4)]
			}
			e = g.add(&lt{rt: reflect.TypeOf(v), k: "bytes", flat: true, big: 44})
		case k < 5:
			e = g.ptrTo(g.full(1))
		default:
			e = g.gen(1)
		}
		if e.rt.Kind() != reflect.Uint8 {
			return e
		}
	}
}
func (g *layoutGen) tList(plain bool) *lt {
	e := g.item(plain)
	return g.add(&lt{rt: reflect.SliceOf(e.rt), k: "list", e: e, cust: e.cust})
}
func (g *layoutGen) tArr(plain bool) *lt {
	e := g.item(plain)
	n := 1 + g.n(3)
	return g.add(&lt{rt: reflect.ArrayOf(n, e.rt), k: "arr", e: e, n: n, ptr: e.ptr})
}

// field is a field of a row and its tag.
func (g *layoutGen) field() (t *lt, tag string) {
	switch g.n(9) {
	case 0:
		t = g.ptrTo(g.full(1))
	case 1:
		t = g.strct(1, true)
	case 2, 3:
		u := g.uint()
		t, tag = g.add(&lt{rt: u, k: "ber", w: int(u.Size()), big: 10}), "ber"
		if g.p(40) {
			t = g.add(&lt{rt: reflect.SliceOf(u), k: "slice", e: t, big: 44})
		} else if g.p(30) {
			t = g.ptrTo(t)
		}
	case 4:
		t = g.gen(2)
	case 5:
		/* how it is delimited elsewhere makes no difference */
		t, tag = g.blob(), []string{"size(i32)", "cnt(ber)", "size(i8)"}[g.n(3)]
	case 6:
		t = g.blob()
	default:
		t = g.num()
	}
	return
}
func (g *layoutGen) fields(n int) (fs []reflect.StructField, hs []lfld, ptr, cust bool) {
	for a := 0; a < n; a++ {
		if g.p(10) {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("S%d", len(fs)), Type: reflect.TypeOf([]interface{}{0, true, "", uint32(0)}[g.n(4)]), Tag: `iproto:"skip"`})
		}
		t, tag := g.field()
		hs = append(hs, lfld{t: t, i: len(fs)})
		st := reflect.StructTag("")
		if tag != "" {
			st = reflect.StructTag(`iproto:"` + tag + `"`)
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: t.rt, Tag: st})
		ptr, cust = ptr || t.ptr, cust || t.cust
	}
	return
}
func (g *layoutGen) tRow() *lt {
	t := &lt{k: "row"}
	var fs []reflect.StructField
	n := g.n(5)
	m := g.n(4)
	if m > 1 && n == 0 {
		n = 1
	}
	fs, t.f, t.ptr, t.cust = g.fields(n)
	t.gi = len(fs)
	switch m {
	case 0:
		t.m = "tail"
		tag := ""
		var e *lt
		switch g.n(4) {
		case 0:
			e = g.add(&lt{rt: g.uint(), k: "ber", big: 10})
			e.w = int(e.rt.Size())
			tag = `iproto:"ber" `
		case 1:
			e = g.add(&lt{rt: reflect.TypeOf(uint8(0)), k: "num", w: 1})
		default:
			e = g.item(false)
		}
		t.g = []lfld{{t: e, i: -1}}
		fs = append(fs, reflect.StructField{Name: "T", Type: reflect.SliceOf(e.rt), Tag: reflect.StructTag(tag + `sbox:"tail"`)})
	case 1:
		t.m = "split"
		gf, hs, _, _ := g.fields(1 + g.n(3))
		t.g = hs
		fs = append(fs, reflect.StructField{Name: "T", Type: reflect.SliceOf(reflect.StructOf(gf)), Tag: `sbox:"tailsplit"`})
	}
	t.rt = reflect.StructOf(fs)
	return g.add(t)
}
func (g *layoutGen) tOpt(e *lt) *lt {
	return g.add(&lt{rt: reflect.PtrTo(e.rt), k: "opt", e: e, zero: tValue(reflect.Zero(e.rt), e)})
}

// tuple is some kind of tuple; a plain one may be among several.
func (g *layoutGen) tupleT(plain bool) *lt {
	switch k := g.n(10); {
	case k < 2:
		return g.tOne()
	case k < 3:
		return g.tList(plain)
	case k < 4:
		return g.tArr(plain)
	default:
		return g.tRow()
	}
}

/******************************** values ********************************/

func (g *layoutGen) tFill(v reflect.Value, t *lt) {
	switch t.k {
	case "one":
		if g.p(10) && t.e.k == "bytes" {
			/* its length takes more than a byte */
			defer func(l int) { g.long = l }(g.long)
			g.long = 1
			g.huge = g.n(20) == 0
		}
		g.part(v, t.e, 1)
		g.huge = false
	case "list":
		n := g.n(4)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for a := 0; a < n; a++ {
			g.part(v.Index(a), t.e, 1)
		}
	case "arr":
		for a := 0; a < t.n; a++ {
			g.part(v.Index(a), t.e, 1)
		}
	case "opt":
		v.Set(reflect.New(t.e.rt))
		g.tFill(v.Elem(), t.e)
	case "row":
		for _, h := range t.f {
			g.part(v.Field(h.i), h.t, 1)
		}
		if t.m != "" {
			f := v.Field(t.gi)
			n := g.n(4)
			f.Set(reflect.MakeSlice(f.Type(), n, n))
			for a := 0; a < n; a++ {
				for _, h := range t.g {
					g.part(part(f.Index(a), h), h.t, 2)
				}
			}
		}
	}
}
func part(v reflect.Value, h lfld) reflect.Value {
	if h.i < 0 {
		return v
	}
	return v.Field(h.i)
}
func tValue(v reflect.Value, t *lt) interface{} {
	l := []interface{}{}
	switch t.k {
	case "one":
		return value(v, t.e)
	case "list", "arr":
		for a := 0; a < v.Len(); a++ {
			l = append(l, value(v.Index(a), t.e))
		}
	case "opt":
		if !v.IsNil() {
			l = append(l, tValue(v.Elem(), t.e))
		}
	case "row":
		for _, h := range t.f {
			l = append(l, value(v.Field(h.i), h.t))
		}
		if t.m != "" {
			f := v.Field(t.gi)
			r := []interface{}{}
			for a := 0; a < f.Len(); a++ {
				q := []interface{}{}
				for _, h := range t.g {
					q = append(q, value(part(f.Index(a), h), h.t))
				}
				r = append(r, q)
			}
			l = append(l, r)
		}
	}
	return l
}

type sbVal struct {
	i interface{} /* what is handed over */
	t *lt
	v interface{} /* what the specification calls it */
}

// tuple makes a tuple to be written.
func (x *lyRun) tup(t *lt) sbVal {
	g := x.g
	if t.k == "any" {
		var is []interface{}
		vs := []interface{}{}
		for _, h := range t.f {
			e := h.t.e
			pv := reflect.New(e.rt)
			g.part(pv.Elem(), e, 1)
			switch {
			case g.p(10):
				is, vs = append(is, nil), append(vs, []int{})
			case e.ptr || g.p(40):
				is, vs = append(is, pv.Interface()), append(vs, []interface{}{value(pv.Elem(), e)})
			default:
				is, vs = append(is, pv.Elem().Interface()), append(vs, []interface{}{value(pv.Elem(), e)})
			}
		}
		return sbVal{is, t, vs}
	}
	pv := reflect.New(t.rt)
	g.tFill(pv.Elem(), t)
	if t.ptr || g.p(40) {
		return sbVal{pv.Interface(), t, tValue(pv.Elem(), t)}
	}
	return sbVal{pv.Elem().Interface(), t, tValue(pv.Elem(), t)}
}
func (g *layoutGen) tAny() *lt {
	t := &lt{k: "any", rt: reflect.TypeOf([]interface{}{})}
	for a := g.n(4); a > 0; a-- {
		t.f = append(t.f, lfld{t: g.ptrTo(g.gen(1))})
	}
	return g.add(t)
}

func newSb(j *J) *lyRun {
	x := newLy(j)
	return x
}

/******************************* requests *******************************/

func m2(a ...interface{}) map[string]interface{} {
	r := map[string]interface{}{}
	for k := 0; k < len(a); k += 2 {
		r[a[k].(string)] = a[k+1]
	}
	return r
}
func (s sbVal) spec() map[string]interface{} { return m2("t", s.t.idx, "v", s.v) }

// keys makes keys of a select and what they are.
func (x *lyRun) keys(rows []*lt) (interface{}, []interface{}) {
	g := x.g
	ks := []interface{}{}
	one := func(i interface{}, t *lt, v reflect.Value) (interface{}, []interface{}) {
		return i, append(ks, m2("t", t.idx, "v", tValue(v, t)))
	}
	t := rows[g.n(len(rows))]
	k := g.n(5)
	if t.k == "any" {
		k = 1
	}
	switch k {
	case 0:
		/* a single one */
		if t.k == "list" || t.k == "arr" || t.k == "opt" && (t.e.k == "list" || t.e.k == "arr") {
			/* those are several */
			break
		}
		if t.k == "opt" {
			v := reflect.New(t.rt).Elem()
			g.tFill(v, t)
			return one(v.Interface(), t, v)
		}
		pv := reflect.New(t.rt)
		g.tFill(pv.Elem(), t)
		if t.ptr || g.p(40) {
			return one(pv.Interface(), t, pv.Elem())
		}
		return one(pv.Elem().Interface(), t, pv.Elem())
	case 1:
		/* of any kind */
		var is []interface{}
		for a := g.n(4); a > 0; a-- {
			s := x.tup(rows[g.n(len(rows))])
			is, ks = append(is, s.i), append(ks, s.spec())
		}
		if is == nil {
			is = []interface{}{}
		}
		return is, ks
	}
	/* several of a kind */
	if t.rt.Kind() == reflect.Uint8 {
		return x.keys(rows)
	}
	n := g.n(4)
	var s reflect.Value
	if g.p(70) {
		s = reflect.New(reflect.SliceOf(t.rt)).Elem()
		s.Set(reflect.MakeSlice(s.Type(), n, n))
	} else if g.p(50) {
		n++
		s = reflect.New(reflect.ArrayOf(n, t.rt)).Elem()
	} else {
		s = reflect.New(reflect.SliceOf(reflect.PtrTo(t.rt))).Elem()
		s.Set(reflect.MakeSlice(s.Type(), n, n))
	}
	for a := 0; a < n; a++ {
		v := s.Index(a)
		if s.Type().Elem() != t.rt {
			v.Set(reflect.New(t.rt))
			v = v.Elem()
		}
		g.tFill(v, t)
		ks = append(ks, m2("t", t.idx, "v", tValue(v, t)))
	}
	if g.p(30) || t.ptr && s.Kind() == reflect.Array {
		return s.Addr().Interface(), ks
	}
	return s.Interface(), ks
}

var opNums = map[sbox.OpKind]int{sbox.OpSet: 0, sbox.OpAdd: 1, sbox.OpAnd: 2, sbox.OpOr: 3, sbox.OpXor: 4, sbox.OpSplice: 5, sbox.OpDelete: 6, sbox.OpInsert: 7}

func (x *lyRun) ops(vals []*lt) (ops []sbox.Op, sp []interface{}) {
	g := x.g
	sp = []interface{}{}
	for a := g.n(4); a > 0; a-- {
		k := []sbox.OpKind{sbox.OpSet, sbox.OpAdd, sbox.OpAnd, sbox.OpOr, sbox.OpXor, sbox.OpSplice, sbox.OpDelete, sbox.OpInsert}[g.n(8)]
		o := sbox.Op{Field: uint32(g.word()), Op: k}
		e := m2("f", leWord(uint64(o.Field), 4), "o", opNums[k], "t", 0, "v", []int{})
		if g.p(20) {
			o.Op = sbox.OpKind(opNums[k])
		}
		if !g.p(8) {
			t := vals[g.n(len(vals))]
			pv := reflect.New(t.rt)
			g.huge = t.k == "bytes" && g.n(100) == 0
			g.part(pv.Elem(), t, 1)
			g.huge = false
			o.Val = pv.Elem().Interface()
			if t.ptr || g.p(20) {
				o.Val = pv.Interface()
			}
			e["t"], e["v"] = t.idx, value(pv.Elem(), t)
		}
		ops, sp = append(ops, o), append(sp, e)
	}
	return
}
func (x *lyRun) request(rows, vals []*lt, w *marshal.Writer) {
	g := x.g
	space := uint32(g.word())
	sp := leWord(uint64(space), 4)
	var req interface {
		IMsg() iproto.RequestType
	}
	var k string
	var q map[string]interface{}
	ret := g.p(50)
	switch k = []string{"select", "store", "delete", "update", "rpc", "select"}[g.n(6)]; k {
	case "select":
		r := sbox.SelectReq{Space: space, Index: uint32(g.word()), Offset: uint32(g.word()), Limit: int32(g.word() & (1<<31 - 1))}
		q = m2("space", sp, "index", leWord(uint64(r.Index), 4), "offset", leWord(uint64(r.Offset), 4), "limit", "", "max", leWord(uint64(r.Limit), 4))
		if g.p(30) {
			r.Limit, q["limit"] = sbox.SelectN, "n"
		} else if g.p(30) {
			r.Limit, q["limit"] = sbox.SelectAll, "all"
		}
		r.Keys, q["keys"] = x.keys(rows)
		req = r
		if g.p(20) {
			req = &r
		}
	case "store":
		s := x.tup(rows[g.n(len(rows))])
		mode := []uint16{0, 1, 2, 3, 0x7fff}[g.n(5)]
		req = sbox.StoreReq{Space: space, Return: ret, Mode: mode, Tuple: s.i}
		q = m2("space", sp, "ret", ret, "mode", int(mode), "tuple", s.spec())
	case "delete":
		s := x.tup(rows[g.n(len(rows))])
		req = sbox.DeleteReq{Space: space, Return: ret, Key: s.i}
		q = m2("space", sp, "ret", ret, "tuple", s.spec())
	case "update":
		s := x.tup(rows[g.n(len(rows))])
		ops, o := x.ops(vals)
		req = sbox.UpdateReq{Space: space, Return: ret, Key: s.i, Ops: ops}
		q = m2("space", sp, "ret", ret, "tuple", s.spec(), "ops", o)
	case "rpc":
		str := func() string {
			b := make([]byte, []int{0, 1, 5, 127, 128, 300}[g.n(6)])
			if g.n(200) == 0 {
				b = make([]byte, 16383+g.n(3))
			}
			g.r.Read(b)
			return string(b)
		}
		r := sbox.RPCReq{Name: str()}
		args := [][]int{}
		for a := g.n(4); a > 0; a-- {
			s := str()
			r.Args, args = append(r.Args, s), append(args, ints([]byte(s)))
		}
		req = r
		q = m2("name", ints([]byte(r.Name)), "args", args)
	}
	var b []byte
	if g.p(50) {
		b = marshal.Write(req)
	} else {
		w.Write(req)
		b = w.Written()
	}
	x.j.E("req", "k", k, "q", q, "code", int(req.IMsg()), "b", ints(b))
}

func scnSboxRequest(j *J) {
	x := newSb(j)
	defer x.crash()
	g := x.g
	var rows, vals []*lt
	for a := 1 + j.n(4); a > 0; a-- {
		t := g.tupleT(false)
		if j.p(20) {
			t = g.tOpt(t)
		} else if j.p(15) {
			t = g.tAny()
		}
		rows = append(rows, t)
	}
	for a := 1 + j.n(4); a > 0; a-- {
		t := g.num()
		switch j.n(4) {
		case 0:
			t = g.blob()
		case 1:
			t = g.strct(1, true)
		case 2:
			t = g.gen(1)
		}
		vals = append(vals, t)
	}
	/* a slice of values of any kind is not a kind of keys with several of them */
	j.E("types", "types", g.types())
	w := &marshal.Writer{DefSize: []int{0, 1, 16, 512}[j.n(4)]}
	for a := 1 + j.n(5); a > 0; a-- {
		x.request(rows, vals, w)
	}
}

/******************************** tuples ********************************/

// dst is a place for a tuple, which may have been used before.
func (x *lyRun) dst(t *lt) reflect.Value {
	v := reflect.New(t.rt)
	if x.g.p(50) {
		x.g.tFill(v.Elem(), t)
	}
	return v
}

// anyDst is a list of places for fields.
func (x *lyRun) anyDst(t *lt) []interface{} {
	is := []interface{}{}
	for _, h := range t.f {
		pv := reflect.New(h.t.e.rt)
		x.g.part(pv.Elem(), h.t.e, 1)
		is = append(is, pv.Interface())
	}
	return is
}
func anyVal(is []interface{}, t *lt) interface{} {
	l := []interface{}{}
	for k, i := range is {
		if i == nil {
			l = append(l, []int{})
		} else {
			l = append(l, []interface{}{value(reflect.ValueOf(i).Elem(), t.f[k].t.e)})
		}
	}
	return l
}

// oneDst is somewhere to read one tuple to: what is handed over, its type, and what is there.
func (x *lyRun) oneDst(ts []*lt) (interface{}, *lt, func() interface{}) {
	t := ts[x.g.n(len(ts))]
	if t.k == "any" {
		is := x.anyDst(t)
		return is, t, func() interface{} { return anyVal(is, t) }
	}
	if t.m == "len" {
		/* a slice of so many */
		v := reflect.MakeSlice(t.rt, t.n, t.n)
		return v.Interface(), t, func() interface{} { return tValue(v, t) }
	}
	d := x.dst(t)
	return d.Interface(), t, func() interface{} { return tValue(d.Elem(), t) }
}

// written builds a tuple.
func (x *lyRun) written(w *marshal.Writer, t *lt) []byte {
	s := x.tup(t)
	sbox.WriteTuple(w, s.i)
	b := w.Written()
	x.j.E("wrote", "t", t.idx, "v", s.v, "b", ints(b))
	return b
}
func le4(n int) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }

func (x *lyRun) lone(ts []*lt, w *marshal.Writer) {
	g := x.g
	t := ts[g.n(len(ts))]
	for t.m == "len" {
		t = ts[g.n(len(ts))]
	}
	b := x.written(w, t)
	if g.p(30) {
		b = x.spoil(b)
	}
	sized := g.p(40)
	if sized {
		b = append(le4(len(b)-4), b...)
		if g.p(20) {
			b = x.spoil(b)
		}
	}
	b = append(b, make([]byte, g.n(3))...)
	i, dt, val := x.oneDst(ts)
	for dt != t && g.p(75) {
		i, dt, val = x.oneDst(ts)
	}
	r := &marshal.Reader{Body: append([]byte{}, b...)}
	old := val()
	n := dt.idx
	if g.p(5) {
		i, n, old = nil, 0, []int{}
		val = func() interface{} { return []int{} }
	}
	var err error
	if sized {
		err = sbox.ReadSizedTuple(r, i)
	} else {
		err = sbox.ReadRawTuple(r, i)
	}
	x.j.E("lone", "sized", sized, "t", n, "b", ints(b), "old", old, "ok", err == nil, "v", val(), "left", len(r.Body))
}

func (x *lyRun) tupleTypes() (ts []*lt) {
	g := x.g
	for a := 1 + g.n(3); a > 0; a-- {
		t := g.tupleT(false)
		switch g.n(8) {
		case 0:
			t = g.tOpt(t)
		case 1:
			t = g.tAny()
		case 2:
			e := g.item(false)
			n := 1 + g.n(3)
			ts = append(ts, g.add(&lt{rt: reflect.SliceOf(e.rt), k: "arr", m: "len", e: e, n: n}))
		case 3:
			n := g.n(4)
			e := g.add(&lt{rt: reflect.TypeOf([]byte{}), k: "raw", n: n})
			ts = append(ts, g.add(&lt{rt: e.rt, k: "one", m: "len", e: e, n: n}))
		}
		ts = append(ts, t)
	}
	return
}

func scnSboxTuple(j *J) {
	x := newSb(j)
	defer x.crash()
	ts := x.tupleTypes()
	j.E("types", "types", x.g.types())
	w := &marshal.Writer{DefSize: []int{0, 1, 16, 512}[j.n(4)]}
	for a := 2 + j.n(6); a > 0; a-- {
		x.lone(ts, w)
	}
}

/******************************* responses *******************************/

type sbPlace struct {
	t   *lt
	n   int
	old []interface{}
	now func() []interface{}
}

func (p sbPlace) spec() map[string]interface{} { return m2("t", p.t.idx, "n", p.n, "old", p.old) }

// place makes a destination for several tuples.
func (x *lyRun) place(ts []*lt, d int) (interface{}, []sbPlace) {
	g := x.g
	t := ts[g.n(len(ts))]
	list := func(s reflect.Value, n int) []sbPlace {
		now := func() (l []interface{}) {
			l = []interface{}{}
			for a := 0; a < s.Len(); a++ {
				l = append(l, tValue(s.Index(a), t))
			}
			return
		}
		if n < 0 {
			return []sbPlace{{t, n, []interface{}{tValue(reflect.Zero(t.rt), t)}, now}}
		}
		return []sbPlace{{t, n, now(), now}}
	}
	switch k := g.n(12); {
	case k < 4:
		s := reflect.New(reflect.SliceOf(t.rt))
		if d == 0 && g.p(40) {
			n := g.n(3)
			s.Elem().Set(reflect.MakeSlice(s.Elem().Type(), n, n))
			for a := 0; a < n; a++ {
				g.tFill(s.Elem().Index(a), t)
			}
		}
		return s.Interface(), list(s.Elem(), -1)
	case k < 6:
		n := g.n(5)
		s := reflect.New(reflect.ArrayOf(n, t.rt))
		for a := 0; a < n; a++ {
			if g.p(50) {
				g.tFill(s.Elem().Index(a), t)
			}
		}
		return s.Interface(), list(s.Elem(), n)
	case k < 8:
		if t.k != "opt" && t.k != "list" {
			return x.place(ts, d)
		}
		n := g.n(5)
		s := reflect.MakeSlice(reflect.SliceOf(t.rt), n, n)
		for a := 0; a < n; a++ {
			if g.p(50) {
				g.tFill(s.Index(a), t)
			}
		}
		return s.Interface(), list(s, n)
	case k < 10:
		if t.rt.Kind() == reflect.Slice || t.rt.Kind() == reflect.Array {
			/* those are several */
			return x.place(ts, d)
		}
		v := x.dst(t)
		now := func() []interface{} { return []interface{}{tValue(v.Elem(), t)} }
		return v.Interface(), []sbPlace{{t, 1, now(), now}}
	default:
		if d > 2 {
			return x.place(ts, d)
		}
		is := []interface{}{}
		var ps []sbPlace
		for a := g.n(4); a > 0; a-- {
			i, p := x.place(ts, d+1)
			is, ps = append(is, i), append(ps, p...)
		}
		switch g.n(3) {
		case 0:
			return &is, ps
		case 1:
			if len(is) == 2 {
				return &[2]interface{}{is[0], is[1]}, ps
			}
		}
		return is, ps
	}
}

// response builds a response of some tuples.
func (x *lyRun) response(ts []*lt, w *marshal.Writer) []byte {
	g := x.g
	k := []int{0, 1, 1, 2, 3, 5}[g.n(6)]
	b := le4(k)
	t := ts[g.n(len(ts))]
	for ; k > 0; k-- {
		if g.p(15) {
			t = ts[g.n(len(ts))]
		}
		tb := x.written(w, t)
		if g.p(7) {
			tb = x.spoil(tb)
			for len(tb) < 4 {
				tb = append(tb, 0)
			}
		}
		b = append(b, le4(len(tb)-4)...)
		b = append(b, tb...)
	}
	if g.p(20) {
		b = x.spoil(b)
	}
	if g.p(10) && len(b) > 4 {
		/* more is promised than there is, or less */
		b[0] += byte(g.n(5) - 2)
	}
	if g.p(2) {
		copy(b, []byte{0xff, 0xff, 0xff, 0xff}[:g.n(5)])
	}
	return b
}
func (x *lyRun) read(ts, all []*lt, w *marshal.Writer) {
	g := x.g
	b := x.response(ts, w)
	body := append([]byte{}, b...)
	if g.p(35) {
		i, t, val := x.oneDst(all)
		n, old := t.idx, val()
		if g.p(10) {
			i, n, old = nil, 0, []int{}
			val = func() interface{} { return []int{} }
		}
		read, total, err := sbox.ReadFirst(body, i)
		x.j.E("first", "b", ints(b), "t", n, "old", old, "ok", err == nil, "read", read, "total", capped(total), "v", val())
		return
	}
	i, ps := x.place(ts, 0)
	sp := []interface{}{}
	for _, p := range ps {
		sp = append(sp, p.spec())
	}
	read, total, err := sbox.ReadMany(body, i)
	vs := []interface{}{}
	for _, p := range ps {
		vs = append(vs, p.now())
	}
	x.j.E("many", "b", ints(b), "places", sp, "ok", err == nil, "read", read, "total", capped(total), "vs", vs)
}
func capped(n int) int {
	if n > 1<<30 {
		return 1 << 30
	}
	return n
}
func (x *lyRun) placeTypes() (ts, all []*lt) {
	g := x.g
	for a := 1 + g.n(3); a > 0; a-- {
		t := g.tupleT(true)
		ts = append(ts, t)
		if g.p(40) {
			ts = append(ts, g.tOpt(t))
		}
	}
	all = append([]*lt{}, ts...)
	if g.p(30) {
		all = append(all, g.tAny())
	}
	return
}

func scnSboxResponse(j *J) {
	x := newSb(j)
	defer x.crash()
	ts, all := x.placeTypes()
	j.E("types", "types", x.g.types())
	w := &marshal.Writer{DefSize: 64}
	for a := 2 + j.n(5); a > 0; a-- {
		x.read(ts, all, w)
	}
}

// Several at the same time.
func scnSboxPar(j *J) {
	x := newSb(j)
	ts, all := x.placeTypes()
	vals := []*lt{x.g.num(), x.g.blob()}
	j.E("types", "types", x.g.types())
	for a := 2 + j.n(2); a > 0; a-- {
		y := &lyRun{j: j, g: &layoutGen{r: rand.New(rand.NewSource(j.Seed + 50 + int64(a))), long: 25}}
		j.Go(func() {
			defer y.crash()
			w := &marshal.Writer{DefSize: 64}
			for b := 2 + y.g.n(4); b > 0; b-- {
				switch y.g.n(3) {
				case 0:
					y.request(ts, vals, w)
				default:
					y.read(ts, all, w)
				}
			}
		})
	}
	j.Join()
}
