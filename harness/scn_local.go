package main

import (
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
)

func init() {
	f := []string{"net/", "request.go", "buffer.go"}
	reg(Scenario{Name: "local.calls", Spec: "TraceLocal", Props: []string{"E01"}, Files: f, Run: scnLocalCalls, Explore: true, First: 40, Weight: 3, Limit: 40 * time.Second})
	reg(Scenario{Name: "local.cut", Spec: "TraceLocal", Props: []string{"E01"}, Files: f, Run: scnLocalCut, Explore: true, First: 40, Weight: 3, Limit: 40 * time.Second})
	reg(Scenario{Name: "local.stop", Spec: "TraceLocal", Props: []string{"E01"}, Files: f, Run: scnLocalStop, Explore: true, First: 16, Weight: 1, Limit: 40 * time.Second})
	reg(Scenario{Name: "local.many", Spec: "TraceLocal", Props: []string{"E01"}, Files: f, Run: scnLocalMany, First: 4, Max: 24, Weight: 1, Limit: 40 * time.Second})
}

// loRun is a client, a proxy and a server.
type loRun struct {
	j     *J
	mu    sync.Mutex
	reqs  []*loReq
	dig   map[string]*loReq
	netw  string
	addr  string /* of the proxy, or of the server when there is none */
	saddr string
	dir   string
	rc    nt.RCType
	srv   *server.Server
	ps    *iproto.ParallelService
	cl    *client.Server
	pipes []*loPipe
	ln    net.Listener
	big   int
	held  []func()
	how   int32
	codes []uint32
	nDel  int32
	nSent int32
	over  int32
	chop  bool
	R     []int
	ri    int32
}
type loReq struct {
	x    *loRun
	n    int
	req  *iproto.Request
	done int32
}
type loPipe struct{ a, b nt.NetConn }

func (x *loRun) rnd(n int) int {
	return x.R[int(atomic.AddInt32(&x.ri, 1))&1023] % n
}

func newLo(j *J, proxy bool) *loRun {
	x := &loRun{j: j, dig: map[string]*loReq{}}
	for k := 0; k < 1024; k++ {
		x.R = append(x.R, j.n(1<<20))
	}
	var err error
	if x.dir, err = os.MkdirTemp("", "l"); err != nil {
		panic(err)
	}
	x.netw = "unix"
	x.saddr = filepath.Join(x.dir, "s")
	x.addr = x.saddr
	x.rc = []nt.RCType{nt.RC4byte, nt.RC4byte, nt.RC1byte, nt.RC0byte}[j.n(4)]
	for k := 0; k < 10; k++ {
		x.codes = append(x.codes, srCode(j))
	}
	scfg := server.Config{Network: "unix", Address: x.saddr, RCType: x.rc}
	if j.p(40) {
		scfg.RCMap = map[iproto.RetCode]iproto.RetCode{0xff03: 0x101, 0xfd03: 0x7702, iproto.RetCode(srCode(j)&^7 | 3): 9}
	}
	if j.p(30) {
		x.ps = iproto.BF{N: 1 + j.n(6)}.New(x.work)
		scfg.EndPoint = x.ps
	} else {
		scfg.EndPoint = iproto.SF(x.serve)
	}
	x.srv = scfg.NewServer()
	j.E("conf", "rc", map[nt.RCType]int{nt.RC4byte: 4, nt.RC1byte: 1, nt.RC0byte: 0}[x.rc], "map", mapList(scfg.RCMap))
	if err = x.srv.Run(); err != nil {
		panic(err)
	}
	if proxy {
		x.addr = filepath.Join(x.dir, "p")
		if x.ln, err = net.Listen("unix", x.addr); err != nil {
			panic(err)
		}
		go x.proxy()
	}
	ccfg := client.ServerConfig{Network: "unix", Address: x.addr, RetCodeType: x.rc, Connections: 1 + j.n(4),
		PingInterval: time.Duration(20+j.n(200)) * time.Millisecond, DialTimeout: 8 * time.Second}
	x.cl = ccfg.NewServer()
	iproto.Run(x.cl)
	return x
}
func (x *loRun) clean() {
	atomic.StoreInt32(&x.over, 1)
	x.cl.Stop()
	x.srv.Stop()
	x.release(-1)
	if x.ln != nil {
		x.ln.Close()
	}
	x.mu.Lock()
	for _, p := range x.pipes {
		p.a.Close()
		p.b.Close()
	}
	x.mu.Unlock()
	if x.ps != nil {
		x.ps.Stop()
	}
	os.RemoveAll(x.dir)
}

func (x *loRun) proxy() {
	for {
		c, err := x.ln.Accept()
		if err != nil {
			return
		}
		d, err := net.Dial("unix", x.saddr)
		if err != nil {
			c.Close()
			continue
		}
		p := &loPipe{c.(nt.NetConn), d.(nt.NetConn)}
		x.mu.Lock()
		x.pipes = append(x.pipes, p)
		x.mu.Unlock()
		go x.pipe(p.a, p.b)
		go x.pipe(p.b, p.a)
	}
}
func (x *loRun) pipe(from, to nt.NetConn) {
	var b [5000]byte
	for {
		n := len(b)
		if x.chop && x.rnd(3) == 0 {
			n = 1 + x.rnd(100)
		}
		n, err := from.Read(b[:n])
		if n > 0 {
			if _, e := to.Write(b[:n]); e != nil {
				break
			}
			if x.chop && x.rnd(16) == 0 {
				time.Sleep(time.Duration(x.rnd(200)) * time.Microsecond)
			}
		}
		if err != nil {
			break
		}
	}
	to.CloseWrite()
	from.CloseRead()
}

// cut breaks one of the connections.
func (x *loRun) cut() {
	x.j.E("cut")
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.pipes) == 0 {
		return
	}
	p := x.pipes[x.rnd(len(x.pipes))]
	if x.rnd(2) == 0 {
		p = x.pipes[len(x.pipes)-1]
	}
	switch x.rnd(4) {
	case 0:
		p.a.Close()
		p.b.Close()
	case 1:
		p.a.Close()
	case 2:
		p.b.Close()
	default:
		p.b.CloseWrite()
		p.a.CloseWrite()
	}
}

/****************************** the service ******************************/

func (x *loRun) find(req *iproto.Request) *loReq {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.dig[dig([]byte(req.Body))]
}
func (x *loRun) exec(req *iproto.Request) (q *loReq) {
	n := 0
	if q = x.find(req); q != nil {
		n = q.n
	}
	x.j.E("exec", "r", n, "msg", hex(uint32(req.Msg)), "b", dig([]byte(req.Body)))
	return
}
func (q *loReq) pick() (code uint32, body []byte) {
	x := q.x
	code = x.codes[x.rnd(len(x.codes))]
	if x.rnd(2) == 0 {
		code = uint32(q.n)<<8 | uint32(x.rnd(256))
	}
	body = []byte(fmt.Sprintf("a%d.%d", q.n, x.rnd(1<<20)))
	switch x.rnd(8) {
	case 0:
		body = nil
	case 1, 2:
		body = append(body, make([]byte, edges[x.rnd(len(edges))])...)
	case 3:
		if x.big > 0 {
			body = append(body, make([]byte, x.rnd(x.big))...)
		}
	}
	return
}
func (q *loReq) ans(code uint32, body []byte) {
	hi, lo := hilo(code)
	q.x.j.E("ans", "r", q.n, "hi", hi, "lo", lo, "b", dig(body))
}
func (x *loRun) serve(req *iproto.Request) {
	q := x.exec(req)
	if q == nil {
		req.RespondFail(iproto.RcInternalError)
		return
	}
	f := func() {
		code, body := q.pick()
		q.ans(code, body)
		req.RespondBytes(iproto.RetCode(code), body)
	}
	how := int(atomic.LoadInt32(&x.how))
	if how == 2 {
		how = x.rnd(3)
	}
	switch how {
	case 0:
		f()
	case 1:
		x.mu.Lock()
		x.held = append(x.held, f)
		x.mu.Unlock()
	default:
		go f()
	}
}
func (x *loRun) work(cx *iproto.Context, req *iproto.Request) (iproto.RetCode, interface{}) {
	q := x.exec(req)
	if q == nil {
		return iproto.RcInternalError, nil
	}
	if x.rnd(4) == 0 {
		time.Sleep(time.Duration(x.rnd(300)) * time.Microsecond)
	}
	code, body := q.pick()
	q.ans(code, body)
	return iproto.RetCode(code), iproto.Body(body)
}
func (x *loRun) release(n int) {
	for ; n != 0; n-- {
		x.mu.Lock()
		if len(x.held) == 0 {
			x.mu.Unlock()
			return
		}
		a := x.rnd(len(x.held))
		f := x.held[a]
		x.held = append(append([]func(){}, x.held[:a]...), x.held[a+1:]...)
		x.mu.Unlock()
		f()
	}
}

/******************************* the caller ******************************/

func (q *loReq) Respond(res *iproto.Response) {
	hi, lo := hilo(uint32(res.Code))
	q.x.j.E("del", "r", q.n, "id", hex(res.Id), "msg", hex(uint32(res.Msg)), "hi", hi, "lo", lo, "b", dig(res.Body))
	atomic.StoreInt32(&q.done, 1)
	atomic.AddInt32(&q.x.nDel, 1)
}
func (x *loRun) newReq(to time.Duration) *loReq {
	x.mu.Lock()
	defer x.mu.Unlock()
	q := &loReq{x: x, n: len(x.reqs) + 1}
	body := []byte(fmt.Sprintf("q%d.%d", q.n, x.rnd(1<<20)))
	size := 0
	switch x.rnd(8) {
	case 0:
		size = x.rnd(3000)
	case 1, 2:
		size = edges[x.rnd(len(edges))]
	case 3:
		if x.big > 0 {
			size = x.rnd(x.big)
		}
	}
	body = append(body, make([]byte, size)...)
	msg := uint32(x.rnd(200))
	if x.rnd(5) == 0 {
		msg = []uint32{0, 0xff01, 0x7fffffff, 0xffffffff}[x.rnd(4)]
	}
	q.req = &iproto.Request{Id: clIds[x.rnd(len(clIds))], Msg: iproto.RequestType(msg), Body: iproto.Body(body), Responder: q}
	x.reqs = append(x.reqs, q)
	x.dig[dig(body)] = q
	x.j.E("new", "r", q.n, "id", hex(q.req.Id), "msg", hex(msg), "b", dig(body), "to", to > 0)
	if to > 0 {
		q.req.SetTimeout(to)
	}
	return q
}
func (x *loRun) send(to time.Duration) *loReq {
	q := x.newReq(to)
	x.j.E("send", "r", q.n)
	atomic.AddInt32(&x.nSent, 1)
	x.cl.Send(q.req)
	return q
}
func (q *loReq) kill() {
	if q.x.rnd(2) == 0 {
		q.x.j.E("kill", "r", q.n, "hi", "fd", "lo", 3)
		q.req.Expire()
	} else {
		q.x.j.E("kill", "r", q.n, "hi", "ff", "lo", 3)
		q.req.Cancel()
	}
}
func (x *loRun) settle() bool {
	ok := x.j.Quiesce("answers", func() bool {
		atomic.StoreInt32(&x.how, 0)
		x.release(-1)
		return atomic.LoadInt64(&x.j.open) == 0 && atomic.LoadInt32(&x.nDel) >= atomic.LoadInt32(&x.nSent)
	})
	if ok {
		x.j.E("idle")
	}
	return ok
}

// traffic sends from several goroutines.
func (x *loRun) traffic(g, n int, kills bool) {
	for ; g > 0; g-- {
		x.j.Go(func() {
			for a := 0; a < n; a++ {
				var to time.Duration
				if kills && x.rnd(6) == 0 {
					to = time.Duration(1+x.rnd(5)) * time.Millisecond
				}
				q := x.send(to)
				if kills && x.rnd(8) == 0 {
					if x.rnd(2) == 0 {
						time.Sleep(time.Duration(x.rnd(300)) * time.Microsecond)
					}
					q.kill()
				}
				switch x.rnd(4) {
				case 0:
					x.release(1)
				case 1:
					x.j.Until(time.Millisecond, func() bool { return atomic.LoadInt32(&q.done) != 0 })
				}
			}
		})
	}
}

func scnLocalCalls(j *J) {
	x := newLo(j, j.p(40))
	x.chop = true
	defer x.clean()
	if j.p(40) {
		x.big = 100000
	}
	x.how = int32(j.n(3))
	x.traffic(1+j.n(4), 1+j.n(12), j.p(60))
	if j.p(30) {
		x.cl.SetConnections(1 + j.n(4))
	}
	if !x.settle() {
		return
	}
	/* late answers hit nothing else */
	x.traffic(1, 1+j.n(6), false)
	if !x.settle() {
		return
	}
	x.j.E("stop")
	/* what was served was served once */
	x.probeQuiet()
}

// probeQuiet gives late executions the time to show up.
func (x *loRun) probeQuiet() {
	n := 0
	x.j.Until(3*time.Millisecond, func() bool { n++; return n > 20 })
}

func scnLocalCut(j *J) {
	x := newLo(j, true)
	x.chop = j.p(50)
	defer x.clean()
	if j.p(40) {
		x.big = 200000
	}
	x.how = int32(j.n(3))
	x.traffic(1+j.n(4), 2+j.n(16), j.p(40))
	for n := 1 + j.n(5); n > 0; n-- {
		if j.p(70) {
			time.Sleep(time.Duration(j.n(3000)) * time.Microsecond)
		}
		if j.p(50) {
			m := x.rnd(4)
			j.Until(20*time.Millisecond, func() bool {
				x.mu.Lock()
				defer x.mu.Unlock()
				return len(x.held) >= m && len(x.pipes) > 0
			})
		}
		x.cut()
		if j.p(30) {
			x.release(1)
		}
	}
	if !x.settle() {
		return
	}
	x.traffic(1, 1+j.n(4), false)
	if !x.settle() {
		return
	}
	x.probeQuiet()
}

func scnLocalStop(j *J) {
	x := newLo(j, j.p(40))
	defer x.clean()
	x.how = int32(j.n(3))
	x.traffic(1+j.n(3), 2+j.n(8), j.p(40))
	time.Sleep(time.Duration(j.n(2000)) * time.Microsecond)
	x.j.E("stop")
	if j.p(50) {
		x.srv.Stop()
		x.release(2)
		if j.p(50) {
			x.cl.Stop()
		}
	} else {
		x.cl.Stop()
	}
	if !x.settle() {
		return
	}
	x.probeQuiet()
}

func scnLocalMany(j *J) {
	x := newLo(j, false)
	defer x.clean()
	x.how = 2
	x.big = 3000
	x.traffic(8, 60, false)
	x.settle()
}

var _ = io.EOF
