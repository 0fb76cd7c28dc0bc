package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/server"
	"github.com/funny-falcon/go-iproto/verifsched"
)

func init() {
	f := []string{"net/server/", "net/slice_reader.go", "net/buf_writer.go", "request.go"}
	reg(Scenario{Name: "server.calls", Spec: "TraceServer", Props: []string{"V01", "V02", "V03"}, Files: f, Run: scnServerCalls, Explore: true, First: 24, Weight: 3, Limit: 40 * time.Second})
	reg(Scenario{Name: "server.flood", Spec: "TraceServer", Props: []string{"V01"}, Files: f, Run: scnServerFlood, Explore: true, First: 12, Weight: 1, Max: 60, Limit: 40 * time.Second})
	reg(Scenario{Name: "server.codes", Spec: "TraceServer", Props: []string{"V02"}, Files: f, Run: scnServerCodes, First: 24, Weight: 2, Limit: 40 * time.Second})
	reg(Scenario{Name: "server.config", Spec: "TraceServer", Props: []string{"V02"}, Run: scnServerConfig, First: 8, Max: 60})
	reg(Scenario{Name: "server.drain", Spec: "TraceServer", Props: []string{"V03", "V01"}, Files: f, Run: scnServerDrain, Explore: true, First: 24, Weight: 3, Limit: 40 * time.Second})
	reg(Scenario{Name: "server.lost", Spec: "TraceServer", Props: []string{"V03"}, Files: f, Run: scnServerLost, Explore: true, First: 24, Weight: 2, Limit: 40 * time.Second})
	reg(Scenario{Name: "server.slow", Spec: "TraceServer", Props: []string{"V03"}, Files: f, Run: scnServerSlow, Explore: true, First: 8, Weight: 1, Limit: 40 * time.Second})
	reg(Scenario{Name: "server.stop", Spec: "TraceServer", Props: []string{"V03"}, Files: f, Run: scnServerStop, Explore: true, First: 24, Weight: 3, Limit: 40 * time.Second})
}

// srRun is a server together with its service and peers.
type srRun struct {
	j     *J
	mu    sync.Mutex
	reqs  []*srReq
	dig   map[string]*srReq
	conns []*srConn
	nConn int
	netw  string
	addr  string
	rc    nt.RCType
	cfg   server.Config
	serv  *server.Server
	ps    *iproto.ParallelService
	how   int32 /* what the service does: 0 answers at once, 1 holds, 2 mixed, 3 from another goroutine */
	big   int
	codes []uint32
	held  []*srReq
	R     []int
	ri    int32
	over  int32
	done  int32

	stopping int32
}
type srReq struct {
	iproto.Bookmark
	x    *srRun
	n    int
	k    *srConn
	id   uint32
	req  *iproto.Request
	fin  int32
	resp int32
}

// srConn is the peer's side of a connection.
type srConn struct {
	x     *srRun
	k     int
	c     nt.NetConn
	wm    sync.Mutex
	mu    sync.Mutex
	open  map[uint32]*srReq
	pings int
	stall chan bool
	eof   int32
	dead  int32 /* the peer reads no more */
	half  bool
	late  bool /* it came while the server was being stopped */
	ended chan bool
}

func (x *srRun) rnd(n int) int {
	return x.R[int(atomic.AddInt32(&x.ri, 1))&1023] % n
}

func newSr(j *J) *srRun {
	x := &srRun{j: j, dig: map[string]*srReq{}}
	for k := 0; k < 1024; k++ {
		x.R = append(x.R, j.n(1<<20))
	}
	dir, err := os.MkdirTemp("", "v")
	if err != nil {
		panic(err)
	}
	x.netw, x.addr = "unix", filepath.Join(dir, "s")
	x.rc = []nt.RCType{nt.RC4byte, nt.RC4byte, nt.RC1byte, nt.RC0byte}[j.n(4)]
	if j.p(60) {
		x.cfg.RCMap = map[iproto.RetCode]iproto.RetCode{}
		for k := j.n(4); k >= 0; k-- {
			a, b := srCode(j)&^7|3, srCode(j)
			if b&7 == 3 {
				b &^= 3
			}
			if j.p(30) {
				a = []uint32{0xff03, 0xfe03, 0xfd03}[j.n(3)]
			}
			x.cfg.RCMap[iproto.RetCode(a)] = iproto.RetCode(b)
			x.codes = append(x.codes, a)
		}
	}
	for k := 0; k < 10; k++ {
		x.codes = append(x.codes, srCode(j))
	}
	if j.p(15) {
		x.cfg.ReadTimeout, x.cfg.WriteTimeout = time.Hour, time.Hour
	}
	return x
}
func srCode(j *J) uint32 {
	up := []uint32{0, 8, 0x100, 0x300, 0xff00, 0xfe00, 0xfd00, 0xfc00, 0x12340, 0x7fffff00, 0x80000000, 0xfffffff8, uint32(j.n(1<<24)) << 3}[j.n(13)]
	return up | uint32([]int{0, 0, 1, 2, 3, 3, 3, 4, 5, 6, 7}[j.n(11)])
}
func hilo(c uint32) (string, int) { return hex(c >> 8), int(c & 255) }
func mapList(m map[iproto.RetCode]iproto.RetCode) []interface{} {
	l := []interface{}{}
	for a, b := range m {
		ah, al := hilo(uint32(a))
		bh, bl := hilo(uint32(b))
		l = append(l, map[string]interface{}{"hi": ah, "lo": al, "thi": bh, "tlo": bl})
	}
	return l
}

// run starts the server; kind tells what serves.
func (x *srRun) run(ps bool) bool {
	x.cfg.Network, x.cfg.Address, x.cfg.RCType = x.netw, x.addr, x.rc
	var ep iproto.Service = iproto.Route(x.route)
	if ps {
		x.ps = iproto.BF{N: 1 + x.j.n(4)}.New(x.work)
		ep = srPoint{iproto.Route(x.routePs)}
	}
	x.cfg.EndPoint = ep
	x.serv = x.cfg.NewServer()
	rc := map[nt.RCType]int{nt.RC4byte: 4, nt.RC1byte: 1, nt.RC0byte: 0}[x.rc]
	x.j.E("conf", "rc", rc, "map", mapList(x.cfg.RCMap))
	var err error
	for k := 0; k < 100; k++ {
		if x.netw == "tcp" {
			ln, err := net.Listen("tcp", loopback())
			if err != nil {
				panic(err)
			}
			x.addr = ln.Addr().String()
			ln.Close()
			x.serv.Address = x.addr
		}
		if err = x.serv.Run(); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		x.j.E("crash", "err", err.Error())
		return false
	}
	x.j.Go(func() {
		p := wait(3 * hangLimit)
		for {
			select {
			case <-x.serv.Running:
				x.j.E("done")
				atomic.StoreInt32(&x.done, 1)
				return
			case <-time.After(20 * time.Millisecond):
				if atomic.LoadInt32(&x.over) != 0 && p.over() {
					return
				}
			}
		}
	})
	return true
}

type srPoint struct{ iproto.Route }

func (x *srRun) clean() {
	atomic.StoreInt32(&x.over, 1)
	for _, k := range x.list() {
		k.resume()
		k.c.Close()
	}
	x.mu.Lock()
	h := x.held
	x.held = nil
	x.mu.Unlock()
	for _, q := range h {
		q.req.RespondFail(iproto.RcInternalError)
	}
	if x.ps != nil {
		x.ps.Stop()
	}
	if x.netw == "unix" {
		os.RemoveAll(filepath.Dir(x.addr))
	}
}

/****************************** the service ******************************/

func (q *srReq) Respond(res *iproto.Response) {
	hi, lo := hilo(uint32(res.Code))
	q.x.j.E("fin", "r", q.n, "hi", hi, "lo", lo, "b", dig(res.Body))
	atomic.StoreInt32(&q.fin, 1)
}

func (x *srRun) find(req *iproto.Request) *srReq {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.dig[dig([]byte(req.Body))+"/"+hex(uint32(req.Msg))]
}
func (x *srRun) exec(q *srReq, req *iproto.Request) {
	n := 0
	if q != nil {
		n = q.n
	}
	x.j.E("exec", "r", n, "id", hex(req.Id), "msg", hex(uint32(req.Msg)), "b", dig([]byte(req.Body)))
}
func (x *srRun) route(req *iproto.Request) {
	q := x.find(req)
	x.exec(q, req)
	if q == nil {
		req.SetPending()
		req.SetInFly(nil)
		req.RespondFail(iproto.RcInternalError)
		return
	}
	q.req = req
	if !req.ChainBookmark(q) {
		/* it has been cancelled just now */
		x.j.E("fin", "r", q.n, "hi", "ff", "lo", 3, "b", "")
		atomic.StoreInt32(&q.fin, 1)
		return
	}
	if !req.SetPending() || !req.SetInFly(nil) {
		return
	}
	how := atomic.LoadInt32(&x.how)
	if how == 2 {
		how = int32(x.rnd(4))
	}
	switch how {
	case 0:
		q.answer()
	case 3:
		x.j.Go(func() {
			if x.rnd(2) == 0 {
				time.Sleep(time.Duration(x.rnd(300)) * time.Microsecond)
			}
			q.answer()
		})
	default:
		x.mu.Lock()
		x.held = append(x.held, q)
		x.mu.Unlock()
	}
}
func (x *srRun) routePs(req *iproto.Request) {
	if q := x.find(req); q != nil {
		q.req = req
		req.ChainBookmark(q)
	} else {
		x.exec(q, req)
	}
	x.ps.Send(req)
}
func (x *srRun) work(cx *iproto.Context, req *iproto.Request) (iproto.RetCode, interface{}) {
	q := x.find(req)
	if q == nil {
		return iproto.RcInternalError, nil
	}
	x.exec(q, req)
	how := atomic.LoadInt32(&x.how)
	if how == 1 || how == 2 && x.rnd(3) == 0 {
		/* till it is released or cancelled */
		x.mu.Lock()
		x.held = append(x.held, q)
		x.mu.Unlock()
		for cx.Alive() && atomic.LoadInt32(&x.over) == 0 {
			x.mu.Lock()
			out := true
			for _, h := range x.held {
				if h == q {
					out = false
				}
			}
			x.mu.Unlock()
			if out {
				break
			}
			time.Sleep(100 * time.Microsecond)
		}
	}
	code, body := q.pick()
	switch x.rnd(12) {
	case 0:
		q.ans(0xfc02, nil)
		panic(fmt.Sprint("request ", q.n))
	}
	q.ans(code, body)
	return iproto.RetCode(code), iproto.Body(body)
}

func (q *srReq) pick() (code uint32, body []byte) {
	x := q.x
	code = x.codes[x.rnd(len(x.codes))]
	if x.rnd(2) == 0 {
		code = uint32(q.n)<<8 | uint32(x.rnd(256))
	}
	body = []byte(fmt.Sprintf("a%d.%d", q.n, x.rnd(1<<20)))
	switch x.rnd(8) {
	case 0:
		body = nil
	case 1:
		body = append(body, make([]byte, x.rnd(3000))...)
	case 2:
		body = append(body, make([]byte, edges[x.rnd(len(edges))])...)
	case 3:
		if x.big > 0 {
			body = append(body, make([]byte, x.rnd(x.big))...)
		}
	}
	return
}
func (q *srReq) ans(code uint32, body []byte) {
	hi, lo := hilo(code)
	q.x.j.E("ans", "r", q.n, "hi", hi, "lo", lo, "b", dig(body), "id", hex(q.req.Id), "msg", hex(uint32(q.req.Msg)), "rb", dig([]byte(q.req.Body)))
}

// answer completes the request in one of several ways, sometimes more than once.
func (q *srReq) answer() {
	x := q.x
	for {
		code, body := q.pick()
		switch x.rnd(4) {
		case 0:
			q.ans(code, nil)
			q.req.RespondFail(iproto.RetCode(code))
		case 1:
			q.ans(code, body)
			q.req.Respond(iproto.RetCode(code), iproto.Body(body))
		default:
			q.ans(code, body)
			q.req.RespondBytes(iproto.RetCode(code), body)
		}
		if x.rnd(12) > 0 {
			return
		}
	}
}

// release answers one of those held; false if there is none.
func (x *srRun) release(only *srConn) bool {
	x.mu.Lock()
	var l []int
	for a, q := range x.held {
		if only == nil || q.k == only {
			l = append(l, a)
		}
	}
	if len(l) == 0 {
		x.mu.Unlock()
		return false
	}
	a := l[0]
	switch x.rnd(3) {
	case 0:
		a = l[x.rnd(len(l))]
	case 1:
		a = l[len(l)-1]
	}
	q := x.held[a]
	x.held = append(append([]*srReq{}, x.held[:a]...), x.held[a+1:]...)
	x.mu.Unlock()
	if x.ps == nil {
		q.answer()
	}
	return true
}
func (x *srRun) answerAll() {
	for _, k := range x.list() {
		k.resume()
	}
	atomic.StoreInt32(&x.how, 0)
	for x.release(nil) {
	}
}

/******************************* the peers *******************************/

func (x *srRun) list() []*srConn {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]*srConn{}, x.conns...)
}
func (x *srRun) conn() *srConn {
	l := x.list()
	return l[x.rnd(len(l))]
}

// dial opens a connection; nil when there is nobody.
func (x *srRun) dial() *srConn {
	x.mu.Lock()
	x.nConn++
	k := &srConn{x: x, k: x.nConn, open: map[uint32]*srReq{}, ended: make(chan bool)}
	x.j.E("open", "k", k.k)
	x.mu.Unlock()
	defer func() {
		x.mu.Lock()
		x.conns = append(x.conns, k)
		x.mu.Unlock()
	}()
	c, err := net.Dial(x.netw, x.addr)
	if err != nil {
		k.c = nt.RwcWrapper{ReadWriteCloser: nopRwc{}}
		x.j.E("drop", "k", k.k)
		atomic.StoreInt32(&k.dead, 1)
		atomic.StoreInt32(&k.eof, 1)
		close(k.ended)
		return k
	}
	k.c = c.(nt.NetConn)
	k.late = atomic.LoadInt32(&x.stopping) != 0
	go k.loop()
	return k
}

type nopRwc struct{}

func (nopRwc) Read(b []byte) (int, error)  { return 0, io.EOF }
func (nopRwc) Write(b []byte) (int, error) { return 0, io.EOF }
func (nopRwc) Close() error                { return nil }

func (k *srConn) resume() {
	k.mu.Lock()
	st := k.stall
	k.stall = nil
	k.mu.Unlock()
	if st != nil {
		close(st)
	}
}
func (k *srConn) hold() {
	k.mu.Lock()
	if k.stall == nil {
		k.stall = make(chan bool)
	}
	k.mu.Unlock()
}

// slowReader reads in pieces and can be stalled.
type slowReader struct{ k *srConn }

func (s slowReader) Read(b []byte) (int, error) {
	k := s.k
	k.mu.Lock()
	st := k.stall
	k.mu.Unlock()
	if st != nil {
		<-st
	}
	if len(b) > 1 && k.x.rnd(6) == 0 {
		b = b[:1+k.x.rnd(len(b)-1)]
	}
	return k.c.Read(b)
}

func (k *srConn) loop() {
	x := k.x
	defer close(k.ended)
	r := slowReader{k}
	cl := map[nt.RCType]int{nt.RC4byte: 4, nt.RC1byte: 1, nt.RC0byte: 0}[x.rc]
	var h [12]byte
	for {
		if _, err := io.ReadFull(r, h[:]); err != nil {
			break
		}
		msg, n, id := binary.LittleEndian.Uint32(h[:]), binary.LittleEndian.Uint32(h[4:]), binary.LittleEndian.Uint32(h[8:])
		if msg == uint32(iproto.Ping) {
			if n > 0 && n < 1<<20 {
				io.ReadFull(r, make([]byte, n))
			}
			x.j.E("pong", "k", k.k, "id", hex(id), "len", n&0xfffffff)
			k.mu.Lock()
			k.pings--
			k.mu.Unlock()
			continue
		}
		if int(n) < cl || n > 64<<20 {
			x.j.E("resp", "k", k.k, "id", hex(id), "msg", hex(msg), "hi", "none", "lo", 0, "b", fmt.Sprint("length ", n))
			break
		}
		body := make([]byte, n)
		if _, err := io.ReadFull(r, body); err != nil {
			break
		}
		var code uint32
		switch cl {
		case 4:
			code = binary.LittleEndian.Uint32(body)
		case 1:
			code = uint32(body[0])
		}
		hi, lo := hilo(code)
		if atomic.LoadInt32(&k.dead) != 0 {
			break
		}
		x.j.E("resp", "k", k.k, "id", hex(id), "msg", hex(msg), "hi", hi, "lo", lo, "b", dig(body[cl:]))
		k.mu.Lock()
		if q := k.open[id]; q != nil {
			atomic.StoreInt32(&q.resp, 1)
			delete(k.open, id)
		}
		k.mu.Unlock()
	}
	x.j.E("eof", "k", k.k)
	atomic.StoreInt32(&k.eof, 1)
}

var srIds = []uint32{0, 1, 2, 3, 255, 256, 0xfffffffe, 0xffffffff, 0x80000000}

// frame prepares a request; nil when it should not be sent any more.
func (k *srConn) frame() []byte {
	x := k.x
	x.mu.Lock()
	q := &srReq{x: x, n: len(x.reqs) + 1, k: k}
	body := []byte(fmt.Sprintf("q%d.%d", q.n, x.rnd(1<<20)))
	size := 0
	switch x.rnd(8) {
	case 0:
		size = x.rnd(3000)
	case 1:
		size = edges[x.rnd(len(edges))]
	case 2:
		if x.big > 0 {
			size = x.rnd(x.big)
		}
	}
	body = append(body, make([]byte, size)...)
	msg := uint32(x.rnd(200))
	if x.rnd(5) == 0 {
		msg = []uint32{0, 0xff01, 0xfeff, 0x7fffffff, 0xffffffff}[x.rnd(5)]
	}
	if x.rnd(8) == 0 {
		body, msg = nil, uint32(1000+q.n)
	}
	k.mu.Lock()
	var id uint32
	for n := 0; ; n++ {
		id = srIds[x.rnd(len(srIds))]
		if n > 4 || x.rnd(2) == 0 {
			id = uint32(x.rnd(40 + 64*n))
		}
		if k.open[id] == nil {
			break
		}
	}
	q.id = id
	k.open[id] = q
	x.reqs = append(x.reqs, q)
	x.dig[dig(body)+"/"+hex(msg)] = q
	x.j.E("req", "r", q.n, "k", k.k, "id", hex(id), "msg", hex(msg), "b", dig(body))
	k.mu.Unlock()
	x.mu.Unlock()
	return srFrame(msg, id, body)
}
func srFrame(msg, id uint32, body []byte) []byte {
	b := make([]byte, 12, 12+len(body))
	binary.LittleEndian.PutUint32(b, msg)
	binary.LittleEndian.PutUint32(b[4:], uint32(len(body)))
	binary.LittleEndian.PutUint32(b[8:], id)
	return append(b, body...)
}
func (k *srConn) ping() []byte {
	x := k.x
	id := srIds[x.rnd(len(srIds))]
	x.j.E("ping", "k", k.k, "id", hex(id))
	k.mu.Lock()
	k.pings++
	k.mu.Unlock()
	var body []byte
	if x.rnd(6) == 0 {
		body = make([]byte, x.rnd(100)) /* nobody looks at it */
	}
	return srFrame(uint32(iproto.Ping), id, body)
}

// send writes n frames in one or more pieces.
func (k *srConn) send(n int) {
	x := k.x
	k.wm.Lock()
	defer k.wm.Unlock()
	if k.half || atomic.LoadInt32(&k.dead) != 0 {
		return
	}
	var b []byte
	for ; n > 0; n-- {
		if x.rnd(8) == 0 {
			b = append(b, k.ping()...)
		} else {
			b = append(b, k.frame()...)
		}
		if x.rnd(3) == 0 {
			b = k.part(b)
		}
	}
	k.write(b)
}
func (k *srConn) part(b []byte) []byte {
	c := k.x.rnd(len(b) + 1)
	k.write(b[:c])
	if k.x.rnd(4) == 0 {
		time.Sleep(time.Duration(k.x.rnd(200)) * time.Microsecond)
	}
	return b[c:]
}
func (k *srConn) write(b []byte) {
	if len(b) > 0 {
		k.c.Write(b)
	}
}

// end closes the sending side, perhaps inside a frame.
func (k *srConn) end() {
	k.wm.Lock()
	defer k.wm.Unlock()
	if k.half || atomic.LoadInt32(&k.dead) != 0 {
		return
	}
	k.half = true
	if k.x.rnd(4) == 0 {
		k.x.j.E("part", "k", k.k)
		f := srFrame(5, 77, make([]byte, []int{0, 1, 5, 9000}[k.x.rnd(4)]))
		k.write(f[:k.x.rnd(len(f))])
	} else {
		k.x.j.E("half", "k", k.k)
	}
	k.c.CloseWrite()
}

// drop closes everything and waits till it is so.
func (k *srConn) drop() {
	k.x.j.E("drop", "k", k.k)
	atomic.StoreInt32(&k.dead, 1)
	k.resume()
	k.c.Close()
	k.x.j.Until(hangLimit, func() bool {
		select {
		case <-k.ended:
			return true
		default:
			return false
		}
	})
}
func (k *srConn) left() int {
	k.mu.Lock()
	defer k.mu.Unlock()
	return len(k.open) + k.pings
}
func (k *srConn) inService() (l []*srReq) {
	x := k.x
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, q := range x.held {
		if q.k == k && atomic.LoadInt32(&q.fin) == 0 {
			l = append(l, q)
		}
	}
	return
}

/****************************** the scripts ******************************/

// settle: everything that was asked is answered, on connections that are still open.
func (x *srRun) settle() bool {
	return x.j.Quiesce("answers", func() bool {
		x.answerAll()
		for _, k := range x.list() {
			if atomic.LoadInt32(&k.eof) == 0 && k.left() > 0 {
				return false
			}
		}
		return true
	})
}

// prompt: what the service has answered comes to the peers while other requests are still in service.
func (x *srRun) prompt() bool {
	ok := x.j.Quiesce("prompt", func() bool {
		if atomic.LoadInt64(&x.j.open) > 1 {
			for _, k := range x.list() {
				k.resume()
			}
			return false
		}
		for _, k := range x.list() {
			k.resume()
			if atomic.LoadInt32(&k.eof) == 0 && k.left() != len(k.inService()) {
				return false
			}
		}
		return true
	})
	if ok {
		x.j.E("prompt")
	}
	return ok
}

// close ends all connections and the server and looks that everything is finished.
func (x *srRun) close() {
	stopFirst := x.rnd(2) == 0
	if stopFirst {
		x.stop()
	}
	for _, k := range x.list() {
		if x.rnd(3) > 0 || !stopFirst {
			k.end()
		}
	}
	x.ends("end")
	if !stopFirst {
		if x.rnd(2) == 0 {
			x.j.E("idle")
		}
		x.stop()
	}
	if !x.j.Quiesce("done", func() bool { x.answerAll(); return atomic.LoadInt32(&x.done) != 0 }) {
		return
	}
	x.ends("end")
	/* tasks of the service */
	x.j.Join()
	x.ends("end")
	x.j.E("idle")
}
func (x *srRun) ends(what string) bool {
	t := time.Now()
	return x.j.Quiesce(what, func() bool {
		x.answerAll()
		for _, k := range x.list() {
			if atomic.LoadInt32(&k.eof) == 0 {
				if x.netw == "tcp" && (k.late || time.Since(t) > hangLimit/4) {
					/* the kernel forgets some that a closing listener did not accept, and their peers do
					   not come to know unless they say something */
					k.end()
				}
				return false
			}
		}
		return true
	})
}
func (x *srRun) stop() {
	x.j.E("stop")
	atomic.StoreInt32(&x.stopping, 1)
	x.serv.Stop()
	x.j.E("stopped")
}

func scnServerCalls(j *J) {
	x := newSr(j)
	if j.p(20) {
		x.netw = "tcp"
	}
	defer x.clean()
	if j.p(30) {
		x.big = 40000
	}
	atomic.StoreInt32(&x.how, int32(j.n(4)))
	if !x.run(j.p(25)) {
		return
	}
	nc := 1 + j.n(4)
	for n := 0; n < nc; n++ {
		k := x.dial()
		if x.netw == "unix" && j.p(20) {
			k.hold()
		}
		m := 1 + j.n(5)
		j.Go(func() {
			for a := 0; a < m; a++ {
				k.send(1 + x.rnd(8))
				if x.rnd(3) == 0 {
					x.release(nil)
				}
			}
		})
	}
	for n := j.n(20); n > 0; n-- {
		x.release(nil)
		if j.p(30) {
			time.Sleep(time.Duration(j.n(200)) * time.Microsecond)
		}
	}
	if x.ps == nil && j.p(60) && !x.prompt() {
		return
	}
	if j.p(70) {
		/* writers can wait for answers to be read */
		if !j.Quiesce("written", func() bool { x.answerAll(); return atomic.LoadInt64(&j.open) <= 1 }) {
			return
		}
		if !x.settle() {
			return
		}
		x.j.E("idle")
		if j.p(50) {
			atomic.StoreInt32(&x.how, int32(j.n(4)))
			for n := j.n(4); n > 0; n-- {
				x.conn().send(1 + x.rnd(4))
			}
		}
	}
	x.close()
}

// scnServerFlood: so many answers that the peer does not read that they pile up.
func scnServerFlood(j *J) {
	x := newSr(j)
	defer x.clean()
	atomic.StoreInt32(&x.how, []int32{0, 1, 3}[j.n(3)])
	if !x.run(false) {
		return
	}
	a, b := x.dial(), x.dial()
	a.hold()
	if j.p(50) {
		/* the answers pile up in all places */
		x.big = 60000
	}
	n := 100 + j.n([]int{300, 900}[j.n(2)])
	j.Go(func() {
		for ; n > 0; n -= 10 {
			a.send(10)
		}
	})
	j.Go(func() {
		for m := j.n(20); m > 0; m-- {
			b.send(1)
		}
	})
	time.Sleep(time.Duration(j.n(20)) * time.Millisecond)
	verifsched.Start(j.P, 0, 0)
	for m := j.n(200); m > 0; m-- {
		x.release(nil)
	}
	/* the other one is served all the same */
	atomic.StoreInt32(&x.how, 0)
	if !j.Quiesce("other", func() bool {
		for x.release(b) {
		}
		return b.left() == 0
	}) {
		return
	}
	if j.p(50) {
		for x.release(a) {
			if x.rnd(20) == 0 {
				a.resume()
			}
		}
	}
	if !j.Quiesce("written", func() bool { x.answerAll(); return atomic.LoadInt64(&j.open) <= 1 }) {
		return
	}
	if j.p(60) && !x.settle() {
		return
	}
	x.close()
}

func scnServerCodes(j *J) {
	x := newSr(j)
	defer x.clean()
	for k := 0; k < 40; k++ {
		x.codes = append(x.codes, srCode(j), uint32(j.n(16))<<3|3)
	}
	if !x.run(false) {
		return
	}
	k := x.dial()
	k.send(60)
	if !x.settle() {
		return
	}
	x.close()
}

func scnServerConfig(j *J) {
	for n := 0; n < 20; n++ {
		m := map[iproto.RetCode]iproto.RetCode{}
		for k := j.n(4); k > 0; k-- {
			a, b := srCode(j), srCode(j)
			if j.p(70) {
				a = a&^7 | 3
			}
			if j.p(70) && b&7 == 3 {
				b++
			}
			m[iproto.RetCode(a)] = iproto.RetCode(b)
		}
		refused := func() (r bool) {
			defer func() {
				if e := recover(); e != nil {
					r = strings.Contains(fmt.Sprint(e), "")
				}
			}()
			cfg := server.Config{Network: "unix", Address: "/nowhere", EndPoint: iproto.SF(func(*iproto.Request) {}), RCMap: m}
			cfg.NewServer()
			return
		}()
		j.E("config", "map", mapList(m), "refused", refused)
	}
}

func scnServerDrain(j *J) {
	x := newSr(j)
	if j.p(20) {
		x.netw = "tcp"
	}
	defer x.clean()
	atomic.StoreInt32(&x.how, int32(j.n(4)))
	if !x.run(j.p(25)) {
		return
	}
	nc := 1 + j.n(3)
	for n := 0; n < nc; n++ {
		k := x.dial()
		if x.netw == "unix" && j.p(15) {
			k.hold()
		}
		m := j.n(4)
		j.Go(func() {
			for a := 0; a < m; a++ {
				k.send(1 + x.rnd(5))
			}
			k.end()
		})
	}
	for n := j.n(12); n > 0; n-- {
		x.release(nil)
		if j.p(30) {
			time.Sleep(time.Duration(j.n(200)) * time.Microsecond)
		}
	}
	if !j.Quiesce("written", func() bool {
		if j.p(3) {
			x.answerAll()
		}
		return atomic.LoadInt64(&j.open) <= 1
	}) {
		return
	}
	if j.p(50) && !x.ends("drained") {
		return
	}
	x.close()
}

func scnServerLost(j *J) {
	x := newSr(j)
	defer x.clean()
	atomic.StoreInt32(&x.how, 1)
	ps := j.p(30)
	if !x.run(ps) {
		return
	}
	a, b := x.dial(), x.dial()
	b.send(1 + j.n(4))
	if j.p(20) {
		a.hold()
	}
	a.send(2 + j.n(8))
	if j.p(70) {
		/* all of them are in service, as far as there are workers */
		j.Until(20*time.Millisecond, func() bool { return len(a.inService()) == a.left() })
	}
	if j.p(30) {
		x.release(a)
	}
	if j.p(30) {
		a.end()
	}
	if j.p(30) {
		j.Go(func() { a.send(1 + x.rnd(3)) })
	}
	a.drop()
	/* the server gets to know when it writes */
	one := x.release(a)
	if one && !ps {
		if !j.Quiesce("cancel", func() bool { return len(a.inService()) == 0 }) {
			return
		}
	}
	/* the other one does not notice */
	b.send(j.n(3))
	if !x.settle() {
		return
	}
	if j.p(50) {
		c := x.dial()
		c.send(2)
		if !x.settle() {
			return
		}
	}
	x.close()
}

// scnServerSlow: a peer that does not read long enough is given up.
func scnServerSlow(j *J) {
	x := newSr(j)
	defer x.clean()
	x.cfg.WriteTimeout = time.Duration(50+j.n(100)) * time.Millisecond
	x.cfg.ReadTimeout = 0
	x.big = 300000
	atomic.StoreInt32(&x.how, 1)
	if !x.run(false) {
		return
	}
	a, b := x.dial(), x.dial()
	j.E("lose", "k", a.k)
	a.hold()
	b.send(1 + j.n(3))
	go a.send(60)
	if j.p(50) {
		time.Sleep(time.Duration(j.n(10)) * time.Millisecond)
		if j.p(30) {
			go a.end()
		}
	}
	/* more than fits anywhere */
	for n := 0; n < 40; n++ {
		x.release(a)
		if j.p(20) {
			time.Sleep(time.Duration(j.n(1000)) * time.Microsecond)
		}
	}
	b.send(1)
	if !j.Quiesce("other", func() bool {
		for x.release(b) {
		}
		return b.left() == 0
	}) {
		return
	}
	time.Sleep(x.cfg.WriteTimeout)
	for x.release(a) {
	}
	a.resume()
	x.close()
}

func scnServerStop(j *J) {
	x := newSr(j)
	if j.p(20) {
		x.netw = "tcp"
	}
	defer x.clean()
	atomic.StoreInt32(&x.how, int32(j.n(4)))
	if !x.run(j.p(25)) {
		return
	}
	nc := j.n(4)
	for n := 0; n < nc; n++ {
		k := x.dial()
		m := j.n(5)
		drop := j.p(15)
		j.Go(func() {
			for a := 0; a < m; a++ {
				k.send(1 + x.rnd(5))
				if x.rnd(4) == 0 {
					x.release(nil)
				}
			}
			if drop {
				k.drop()
			}
		})
	}
	if j.p(40) {
		j.Go(func() {
			for n := 0; n < 3; n++ {
				x.dial().send(x.rnd(3))
			}
		})
	}
	if j.p(50) {
		time.Sleep(time.Duration(j.n(1000)) * time.Microsecond)
	}
	m := 1
	if j.p(50) {
		m += j.n(4)
	}
	for ; m > 1; m-- {
		if j.p(50) {
			j.Go(x.stop)
		} else {
			x.stop()
			if j.p(30) {
				x.release(nil)
			}
		}
	}
	x.stop()
	if j.p(50) {
		k := x.dial()
		k.send(1 + x.rnd(3))
	}
	if j.p(40) {
		for n := j.n(6); n > 0; n-- {
			x.release(nil)
		}
	}
	if j.p(30) {
		for _, k := range x.list() {
			k.end()
		}
	}
	if !x.ends("end") {
		return
	}
	if !j.Quiesce("done", func() bool { x.answerAll(); return atomic.LoadInt32(&x.done) != 0 }) {
		return
	}
	for n := j.n(4); n > 0; n-- {
		x.stop()
	}
	if j.p(50) {
		x.dial().send(1)
		time.Sleep(2 * time.Millisecond)
	}
	if !x.ends("end") {
		return
	}
	/* a connection may have been opened in the meantime */
	if !x.j.Join() || !x.ends("end") {
		return
	}
	x.j.E("idle")
}
