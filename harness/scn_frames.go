package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	"runtime"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

func init() {
	reg(Scenario{Name: "frames.write", Spec: "TraceFrames", Props: []string{"W01"}, Run: scnFramesWrite, Weight: 3})
	reg(Scenario{Name: "frames.read", Spec: "TraceFrames", Props: []string{"W01"}, Run: scnFramesRead, Weight: 4})
	reg(Scenario{Name: "frames.pong", Spec: "TraceFrames", Props: []string{"W01"}, Run: scnFramesPong, Weight: 1, Max: 400})
}

/* long bodies are written down as a digest */
func dig(b []byte) string {
	if len(b) <= 24 {
		return bodyHex(b)
	}
	s := sha256.Sum256(b)
	return bodyHex(s[:12])
}
func w4(v uint32) []int {
	return []int{int(v & 255), int(v >> 8 & 255), int(v >> 16 & 255), int(v >> 24)}
}
func ints(b []byte) []int {
	res := make([]int, len(b))
	for k, c := range b {
		res[k] = int(c)
	}
	return res
}

/* sizes near which readers and writers change their behaviour */
var edges = []int{0, 1, 2, 3, 4, 8, 12, 16, 1012, 1020, 1024, 1025, 2048, 4080, 4084, 4092, 4096, 4097, 8168, 8180, 8184, 8188, 8192, 8193, 8204, 12288, 16384, 20000}

func frSize(j *J) int {
	switch j.n(10) {
	case 0, 1:
		return 0
	case 2, 3, 4:
		return j.n(40)
	case 5:
		return j.n(1500)
	case 6:
		return j.n(9000)
	default:
		n := edges[j.n(len(edges))] + j.n(9) - 4
		if n < 0 {
			n = 0
		}
		return n
	}
}

var oddWords = []uint32{0, 1, 2, 0xff, 0x100, 0xfeff, 0xff00, 0xff01, 0xffff, 0x10000, 0xff0000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x302, 0xfe03}

func word(j *J) uint32 {
	if j.p(40) {
		return oddWords[j.n(len(oddWords))]
	}
	return j.R.Uint32()
}
func (j *J) bytes(n int) []byte {
	b := make([]byte, n)
	j.R.Read(b)
	return b
}

/* remembers what is written to it, fails at some point if told to; with deadlines or without */
type frSink struct {
	out    []byte
	limit  int
	failed bool
	werr   error
	busy   bool
}

var errSink = errors.New("sink is broken")

func (s *frSink) Write(p []byte) (int, error) {
	if s.limit >= 0 && len(s.out)+len(p) > s.limit {
		n := s.limit - len(s.out)
		s.out = append(s.out, p[:n]...)
		s.failed = true
		return n, s.werr
	}
	s.out = append(s.out, p...)
	/* it is not to be kept */
	return len(p), nil
}

type frSinkD struct{ *frSink }

func (s frSinkD) SetReadDeadline(t time.Time) error  { return nil }
func (s frSinkD) SetWriteDeadline(t time.Time) error { return nil }

type frame struct {
	kind          string
	msg, id, code uint32
	body          []byte
	sum           string
}

func scnFramesWrite(j *J) {
	rc := []nt.RCType{nt.RC0byte, nt.RC1byte, nt.RC4byte}[j.n(3)]
	rcl := map[nt.RCType]int{nt.RC0byte: 0, nt.RC1byte: 1, nt.RC4byte: 4}[rc]
	sink := &frSink{limit: -1, werr: errSink}
	if j.p(25) {
		sink.limit = j.n(20000)
		if j.p(20) {
			sink.werr = io.ErrShortWrite
		}
	}
	var w nt.HeaderWriter
	var dst io.Writer = sink
	if j.p(50) {
		dst = frSinkD{sink}
	}
	var to time.Duration
	if j.p(50) {
		to = time.Hour
	}
	w.Init(dst, to, rc)
	n := 1 + j.n(12)
	small := j.p(25)
	if small {
		n = 20 + j.n(500)
	}
	mixed := j.p(30)
	/* some that just fit, or just do not */
	tight := !small && j.p(25)
	if tight {
		n = 4 + j.n(40)
	}
	flush := []int{0, 1, 5, 50}[j.n(4)]
	kind := "qs"[j.n(2)]
	var fs []frame
	var err error
	for k := 0; k < n && err == nil; k++ {
		if mixed {
			kind = "qs"[j.n(2)]
		}
		f := frame{kind: string(kind), msg: word(j), id: word(j), code: word(j)}
		if small {
			f.body = j.bytes(j.n(24))
		} else if tight {
			f.body = j.bytes([]int{1024, 1024, 1025, 1023, 1012, 1008, j.n(1024), j.n(30)}[j.n(8)])
		} else {
			f.body = j.bytes(frSize(j))
		}
		if j.p(10) {
			f.msg = uint32(iproto.Ping)
		}
		if j.p(10) {
			f.msg = uint32(iproto.Ping)
			f.body = nil
		}
		f.sum = dig(f.body)
		b := f.body
		if f.kind == "q" && f.msg == uint32(iproto.Ping) && len(b) == 0 && j.p(50) {
			f.id = 0xffffffff
			err = w.Ping()
		} else if f.kind == "q" {
			err = w.WriteRequest(nt.Request{Msg: iproto.RequestType(f.msg), Id: f.id, Body: b})
		} else {
			err = w.WriteResponse(nt.Response{Msg: iproto.RequestType(f.msg), Id: f.id, Code: iproto.RetCode(f.code), Body: b})
		}
		fs = append(fs, f)
		/* a written body may be used again */
		for x := range b {
			b[x] ^= 0x55
		}
		if err == nil && j.p(flush) {
			err = w.Flush()
		}
	}
	if err == nil {
		err = w.Flush()
	}
	out := sink.out
	for _, f := range fs {
		if len(out) < 12 {
			if sink.failed {
				break
			}
			j.E("w", "kind", f.kind, "rc", rcl, "msg", w4(f.msg), "id", w4(f.id), "code", w4(f.code), "len", len(f.body), "body", f.sum,
				"oh", ints(nil), "oc", ints(nil), "ob", "")
			break
		}
		l := int(binary.LittleEndian.Uint32(out[4:]))
		if l < 0 || l > len(out)-12 {
			if sink.failed {
				break
			}
			l = len(out) - 12
		}
		cl := l - len(f.body)
		if cl < 0 {
			cl = 0
		}
		if cl > 8 {
			cl = 8
		}
		j.E("w", "kind", f.kind, "rc", rcl, "msg", w4(f.msg), "id", w4(f.id), "code", w4(f.code), "len", len(f.body), "body", f.sum,
			"oh", ints(out[:12]), "oc", ints(out[12:12+cl]), "ob", dig(out[12+cl:12+l]))
		out = out[12+l:]
	}
	if !sink.failed {
		j.E("wrest", "n", len(out))
	}
	j.E("wend", "failed", sink.failed, "err", err != nil)
}

/* gives a stream in pieces */
type frSource struct {
	j     *J
	in    []byte
	off   int
	mode  int
	piece int
	end   error
}

func (s *frSource) Read(p []byte) (n int, err error) {
	rest := s.in[s.off:]
	if len(rest) == 0 {
		return 0, s.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	switch s.mode {
	case 0:
		n = len(rest)
	case 1:
		n = 1
	case 2:
		n = 1 + s.j.n(s.piece)
	case 3:
		n = s.piece
	case 4:
		if s.j.p(30) {
			return 0, nil
		}
		n = 1 + s.j.n(3*s.piece)
	}
	if n > len(rest) {
		n = len(rest)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, rest[:n])
	s.off += n
	if s.off == len(s.in) && s.j.p(50) {
		return n, s.end /* the last piece comes together with the end */
	}
	return n, nil
}

type frSourceD struct{ *frSource }

func (s frSourceD) SetReadDeadline(t time.Time) error  { return nil }
func (s frSourceD) SetWriteDeadline(t time.Time) error { return nil }

func scnFramesRead(j *J) {
	rc := []nt.RCType{nt.RC0byte, nt.RC1byte, nt.RC4byte}[j.n(3)]
	rcl := map[nt.RCType]int{nt.RC0byte: 0, nt.RC1byte: 1, nt.RC4byte: 4}[rc]
	kind := "qs"[j.n(2)]
	n := 1 + j.n(12)
	tiny := j.p(30)
	if tiny {
		n = 20 + j.n(400)
	}
	var in bytes.Buffer
	type pos struct{ off, end, cl, dec int }
	var fs []pos
	short := j.p(20)
	for k := 0; k < n; k++ {
		size := frSize(j)
		if tiny {
			size = j.n(24)
		}
		msg := word(j)
		if j.p(12) {
			msg = uint32(iproto.Ping)
		}
		cl := rcl
		if kind == 'q' || msg == uint32(iproto.Ping) {
			cl = 0
		}
		l := size + cl
		if short && j.p(20) {
			/* no place for the code */
			l = j.n(cl + 1)
			if l < cl {
				cl = 0
			}
		}
		var h [12]byte
		binary.LittleEndian.PutUint32(h[:], msg)
		binary.LittleEndian.PutUint32(h[4:], uint32(l))
		binary.LittleEndian.PutUint32(h[8:], word(j))
		fs = append(fs, pos{in.Len(), in.Len() + 12 + l, cl, l})
		in.Write(h[:])
		in.Write(j.bytes(l))
	}
	stream := in.Bytes()
	src := &frSource{j: j, in: stream, mode: j.n(5), end: io.EOF}
	src.piece = []int{2, 7, 12, 13, 16, 100, 1000, 4096, 8192, 9000}[j.n(10)]
	if len(stream) > 60000 && src.mode == 1 {
		src.mode = 2
	}
	if j.p(30) {
		/* cut somewhere, often close to an edge */
		f := fs[j.n(len(fs))]
		cut := f.off + []int{0, 1, 11, 12, 12 + f.cl, 12 + f.cl + 1, f.end - f.off - 1, j.n(12 + f.dec)}[j.n(8)]
		if cut < 0 || cut > len(stream) {
			cut = len(stream)
		}
		src.in = stream[:cut]
		if j.p(30) {
			src.end = errSink
		}
	} else if j.p(10) {
		/* a length that never comes */
		var h [12]byte
		binary.LittleEndian.PutUint32(h[4:], uint32(j.n(300000)+1))
		src.in = append(append([]byte(nil), stream...), h[:]...)
	}
	var r nt.HeaderReader
	var conn io.Reader = src
	if j.p(50) {
		conn = frSourceD{src}
	}
	var to time.Duration
	if j.p(50) {
		to = time.Hour
	}
	r.Init(conn, to, rc)
	var bodies [][]byte
	off := 0
	for k := 0; ; k++ {
		whole := k < len(fs) && fs[k].end <= len(src.in)
		var msg, id, code uint32
		var body []byte
		var err error
		if kind == 'q' {
			var q nt.Request
			q, err = r.ReadRequest()
			msg, id, body = uint32(q.Msg), q.Id, q.Body
		} else {
			var s nt.Response
			s, err = r.ReadResponse()
			msg, id, body, code = uint32(s.Msg), s.Id, s.Body, uint32(s.Code)
		}
		if err != nil {
			j.E("rend", "whole", whole)
			break
		}
		bodies = append(bodies, body)
		var h, c, fed []byte
		if off+12 <= len(src.in) {
			h = src.in[off : off+12]
		} else {
			h = make([]byte, 12)
		}
		if whole {
			c = src.in[off+12 : off+12+fs[k].cl]
			fed = src.in[off+12+fs[k].cl : fs[k].end]
			off = fs[k].end
		} else {
			/* a frame that was not there */
			h = bytes.Repeat([]byte{255}, 12)
			h[7] = 0
		}
		j.E("r", "kind", string(kind), "rc", rcl, "h", ints(h), "c", ints(c), "len", len(fed), "body", dig(fed),
			"rmsg", w4(msg), "rid", w4(id), "rcode", w4(code), "rlen", len(body), "rbody", dig(body))
		if !whole {
			break
		}
		if j.p(10) {
			runtime.GC()
		}
	}
	for k, b := range bodies {
		j.E("still", "n", k+1, "body", dig(b))
	}
}

func scnFramesPong(j *J) {
	msg, id := word(j), word(j)
	if j.p(60) {
		msg = uint32(iproto.Ping)
	}
	if j.p(60) {
		id = 0xffffffff
	}
	var h [12]byte
	binary.LittleEndian.PutUint32(h[:], msg)
	binary.LittleEndian.PutUint32(h[8:], id)
	src := &frSource{j: j, in: h[:], mode: j.n(4), piece: 1 + j.n(12), end: io.EOF}
	short := j.p(15)
	if short {
		src.in = h[:j.n(12)]
	}
	var r nt.HeaderReader
	r.Init(src, 0, nt.RC4byte)
	err := r.ReadPing()
	if short {
		j.E("rend", "whole", err == nil)
		return
	}
	j.E("pong", "h", ints(h[:]), "ok", err == nil)
}
