package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/verifsched"
)

func init() {
	f := []string{"net/client/", "net/slice_reader.go", "net/buf_writer.go", "request.go", "buffer.go"}
	reg(Scenario{Name: "client.ids", Spec: "TraceClient", Props: []string{"N01"}, Files: f, Run: scnClientIds, Explore: true, First: 24, Weight: 3, Limit: 30 * time.Second})
	reg(Scenario{Name: "client.many", Spec: "TraceClient", Props: []string{"N01"}, Files: f, Run: scnClientMany, Explore: true, First: 8, Weight: 1, Max: 40, Limit: 30 * time.Second})
	reg(Scenario{Name: "client.loss", Spec: "TraceClient", Props: []string{"N02", "N01"}, Files: f, Run: scnClientLoss, Explore: true, First: 24, Weight: 3, Limit: 40 * time.Second})
	reg(Scenario{Name: "client.lossmany", Spec: "TraceClient", Props: []string{"N02"}, Files: f, Run: scnClientLossMany, Explore: true, First: 8, Weight: 1, Max: 40, Limit: 40 * time.Second})
	reg(Scenario{Name: "client.lossidle", Spec: "TraceClient", Props: []string{"N02", "N03"}, Files: f, Run: scnClientLossIdle, Explore: true, First: 12, Weight: 1, Limit: 40 * time.Second})
	reg(Scenario{Name: "client.quiet", Spec: "TraceClient", Props: []string{"N03"}, Files: f, Run: scnClientQuiet, First: 6, Weight: 1, Max: 6, Limit: 40 * time.Second})
	reg(Scenario{Name: "client.outage", Spec: "TraceClient", Props: []string{"N02"}, Files: f, Run: scnClientOutage, Explore: true, First: 16, Weight: 1, Limit: 40 * time.Second})
	reg(Scenario{Name: "client.silence", Spec: "TraceClient", Props: []string{"N02"}, Files: f, Run: scnClientSilence, Explore: true, First: 8, Weight: 1, Limit: 40 * time.Second})
	reg(Scenario{Name: "client.resize", Spec: "TraceClient", Props: []string{"N03"}, Files: f, Run: scnClientResize, Explore: true, First: 24, Weight: 3, Limit: 40 * time.Second})
	reg(Scenario{Name: "client.stop", Spec: "TraceClient", Props: []string{"N03"}, Files: f, Run: scnClientStop, Explore: true, First: 24, Weight: 3, Limit: 40 * time.Second})
	reg(Scenario{Name: "client.cancel", Spec: "TraceClient", Props: []string{"R03", "N01"}, Files: f, Run: scnClientCancel, Explore: true, First: 16, Weight: 1, Limit: 40 * time.Second})
}

// clRun is a client together with the scripted peer.
type clRun struct {
	j      *J
	mu     sync.Mutex
	reqs   []*clReq
	dig    map[string]int
	conns  []*clConn
	ln     net.Listener
	netw   string
	addr   string
	rc     nt.RCType
	cfg    client.ServerConfig
	serv   *client.Server
	auto   int32 /* how requests are answered: 0 not at all, 1 at once, 2 some at once, some later */
	frail  bool  /* timeouts are so short that connections may be lost at any time */
	mute   int32 /* pings are not answered */
	odd    int32 /* strange things are sent along */
	big    int   /* sometimes bodies are so big */
	shrtF  bool  /* frames without a place for the code */
	ended  int32
	linger int32 /* the peer does not close first */
	near   int32 /* ids are about to wrap around */
	nDel   int32
	nSent  int32
	loop   int32 /* the client's loop is over */
	R      []int
	ri     int32
	wg     sync.WaitGroup
}
type clReq struct {
	x    *clRun
	n    int
	req  *iproto.Request
	done int32
	sent int32
	full int32
}
type clFrame struct {
	id   uint32
	r    int
	ping bool /* a request that happens to be a ping */
}

// clConn is the peer's side of a connection.
type clConn struct {
	x      *clRun
	k      int
	c      nt.NetConn
	wm     sync.Mutex /* writing */
	mu     sync.Mutex
	held   []clFrame
	old    []clFrame
	pong   bool
	dead   bool
	eof    bool
	stall  chan bool
	stalls bool
	hush   bool
	stay   bool /* till the client closes */
	broken bool /* a part of a frame was written */
}

func (x *clRun) rnd(n int) int {
	return x.R[int(atomic.AddInt32(&x.ri, 1))&1023] % n
}

func newCl(j *J, conns int) *clRun {
	x := &clRun{j: j, dig: map[string]int{}}
	for k := 0; k < 1024; k++ {
		x.R = append(x.R, j.n(1<<20))
	}
	dir, err := os.MkdirTemp("", "c")
	if err != nil {
		panic(err)
	}
	x.netw, x.addr = "unix", filepath.Join(dir, "s")
	if j.p(15) {
		x.netw, x.addr = "tcp", loopback()
	}
	x.rc = []nt.RCType{nt.RC4byte, nt.RC4byte, nt.RC1byte, nt.RC0byte}[j.n(4)]
	x.cfg = client.ServerConfig{Network: x.netw, Address: x.addr, Connections: conns, RetCodeType: x.rc,
		PingInterval: time.Duration(20+j.n(200)) * time.Millisecond, DialTimeout: 8 * time.Second}
	if j.p(15) {
		x.cfg.PingInterval = -1
	}
	if j.p(20) {
		x.cfg.ReadTimeout = time.Hour
		x.cfg.WriteTimeout = time.Hour
	}
	return x
}

func (x *clRun) clean() {
	atomic.StoreInt32(&x.ended, 1)
	x.mu.Lock()
	if x.ln != nil {
		x.ln.Close()
	}
	cs := append([]*clConn{}, x.conns...)
	x.mu.Unlock()
	for _, c := range cs {
		c.c.Close()
		c.mu.Lock()
		if c.stall != nil {
			close(c.stall)
			c.stall = nil
		}
		c.mu.Unlock()
	}
	if x.netw == "unix" {
		os.RemoveAll(filepath.Dir(x.addr))
	}
}

// silent: the peer may not answer the first ping.
func (x *clRun) silent() {
	x.cfg.DialTimeout = 400 * time.Millisecond
	x.j.E("down")
}

// run starts the client.
func (x *clRun) run() {
	if x.netw == "tcp" && strings.HasSuffix(x.addr, ":0") {
		/* find a free port */
		x.up()
		if x.j.p(30) {
			x.down()
		}
	}
	x.cfg.Address = x.addr
	if x.ln == nil {
		x.j.E("down")
	}
	x.j.E("conf", "n", x.cfg.Connections)
	x.serv = x.cfg.NewServer()
	if x.serv.PointLoop == iproto.PointLoop(x.serv) {
		x.serv.PointLoop = &clLoop{x}
	} else {
		x.loop = 1
	}
	iproto.Run(x.serv)
}

// clLoop tells when the client's loop is over.
type clLoop struct{ x *clRun }

func (l *clLoop) Loop() {
	l.x.serv.Loop()
	if atomic.LoadInt32(&l.x.ended) == 0 {
		l.x.j.E("over")
	}
	atomic.StoreInt32(&l.x.loop, 1)
}
func (x *clRun) up() {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.ln != nil {
		return
	}
	if x.netw == "unix" {
		os.Remove(x.addr)
	}
	var ln net.Listener
	var err error
	for k := 0; k < 200; k++ {
		if ln, err = net.Listen(x.netw, x.addr); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		panic(err)
	}
	x.addr = ln.Addr().String()
	x.ln = ln
	go x.acceptLoop(ln)
}
func (x *clRun) down() {
	x.j.E("down")
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.ln != nil {
		x.ln.Close()
		x.ln = nil
	}
}
func (x *clRun) acceptLoop(ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		x.mu.Lock()
		if atomic.LoadInt32(&x.ended) != 0 {
			x.mu.Unlock()
			c.Close()
			return
		}
		k := &clConn{x: x, k: len(x.conns) + 1, c: c.(nt.NetConn)}
		x.conns = append(x.conns, k)
		x.j.E("accept", "k", k.k)
		if x.frail {
			/* the client may give it up by itself */
			x.j.E("dead", "k", k.k)
		}
		x.mu.Unlock()
		go k.loop()
	}
}

func (k *clConn) loop() {
	x := k.x
	var h [12]byte
	for {
		if _, err := io.ReadFull(k.c, h[:]); err != nil {
			break
		}
		msg, n, id := binary.LittleEndian.Uint32(h[:]), binary.LittleEndian.Uint32(h[4:]), binary.LittleEndian.Uint32(h[8:])
		if n > 64<<20 {
			x.j.E("recv", "k", k.k, "id", hex(id), "r", 0, "msg", hex(msg), "b", "huge")
			break
		}
		k.mu.Lock()
		var st chan bool
		if k.stalls && n > 1<<20 {
			k.stalls = false
			k.stall = make(chan bool)
			st = k.stall
			x.j.E("stall", "k", k.k)
		}
		k.mu.Unlock()
		if st != nil {
			<-st
		}
		body := make([]byte, n)
		if _, err := io.ReadFull(k.c, body); err != nil {
			break
		}
		if k.isHush() {
			continue
		}
		d := dig(body)
		x.mu.Lock()
		r := x.dig[d]
		x.mu.Unlock()
		if msg == uint32(iproto.Ping) && (id == 0xffffffff || r == 0) {
			x.j.E("ping", "k", k.k, "id", hex(id), "len", n)
			for atomic.LoadInt32(&x.mute) != 0 && atomic.LoadInt32(&x.ended) == 0 && !k.isDead() {
				if !k.isPong() {
					time.Sleep(time.Millisecond)
					continue
				}
				break
			}
			k.mu.Lock()
			first := !k.pong
			if first {
				k.pong = true
				x.j.E("pong", "k", k.k)
			}
			k.mu.Unlock()
			if first || x.rnd(4) > 0 {
				k.write(uint32(iproto.Ping), 0xffffffff, 0, nil, true)
			}
			continue
		}
		k.mu.Lock()
		if k.dead {
			/* what comes now does not count */
			k.mu.Unlock()
			continue
		}
		x.j.E("recv", "k", k.k, "id", hex(id), "r", r, "msg", hex(msg), "b", d)
		f := clFrame{id, r, msg == uint32(iproto.Ping)}
		now := false
		switch atomic.LoadInt32(&x.auto) {
		case 1:
			now = true
		case 2:
			now = x.rnd(2) == 0
		}
		if !now {
			k.held = append(k.held, f)
		}
		k.mu.Unlock()
		if now {
			k.answer(f)
		}
	}
	k.mu.Lock()
	k.eof = true
	if atomic.LoadInt32(&x.ended) == 0 {
		x.j.E("eof", "k", k.k)
	}
	k.mu.Unlock()
	/* what is held is answered by the script, then the connection is closed */
	for !k.isDead() && atomic.LoadInt32(&x.ended) == 0 {
		k.mu.Lock()
		left := len(k.held)
		auto := atomic.LoadInt32(&x.auto)
		k.mu.Unlock()
		if left == 0 {
			break
		}
		if auto == 1 {
			k.flush()
		}
		time.Sleep(500 * time.Microsecond)
	}
	if atomic.LoadInt32(&x.linger) != 0 {
		/* the client has nothing to wait for and closes the other side, too */
		k.mu.Lock()
		k.stay = true
		k.mu.Unlock()
		for !k.isDead() && atomic.LoadInt32(&x.ended) == 0 {
			if !k.write(uint32(iproto.Ping), 0xffffffff, 0, nil, true) {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	if !k.isDead() && atomic.LoadInt32(&x.ended) == 0 {
		time.Sleep(time.Duration(x.rnd(3)) * time.Millisecond)
		k.kill(0)
	}
}
func (k *clConn) isDead() bool { k.mu.Lock(); defer k.mu.Unlock(); return k.dead }
func (k *clConn) isPong() bool { k.mu.Lock(); defer k.mu.Unlock(); return k.pong }
func (k *clConn) isLive() bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.pong && !k.dead && !k.eof
}

func (k *clConn) write(msg, id, code uint32, body []byte, whole bool) bool {
	cl := 0
	if msg != uint32(iproto.Ping) {
		cl = map[nt.RCType]int{nt.RC4byte: 4, nt.RC1byte: 1, nt.RC0byte: 0}[k.x.rc]
	}
	b := make([]byte, 12, 16+len(body))
	binary.LittleEndian.PutUint32(b, msg)
	binary.LittleEndian.PutUint32(b[4:], uint32(len(body)+cl))
	binary.LittleEndian.PutUint32(b[8:], id)
	switch cl {
	case 4:
		b = append(b, byte(code), byte(code>>8), byte(code>>16), byte(code>>24))
	case 1:
		b = append(b, byte(code))
	}
	b = append(b, body...)
	if !whole {
		b = b[:k.x.rnd(len(b))]
	}
	k.wm.Lock()
	defer k.wm.Unlock()
	if k.broken {
		return false
	}
	if !whole {
		k.broken = true
	}
	if whole && k.x.rnd(4) == 0 {
		cut := k.x.rnd(len(b))
		if _, err := k.c.Write(b[:cut]); err != nil {
			return false
		}
		b = b[cut:]
	}
	_, err := k.c.Write(b)
	return err == nil
}

var clCodes = []uint32{0, 0, 0, 1, 2, 0x100, 0x302, 0xff03, 0xfe03, 0xfd03, 0xfc02, 0x7fffffff, 0x80000000, 0xffffffff}

func (k *clConn) answer(f clFrame) {
	x := k.x
	code := clCodes[x.rnd(len(clCodes))]
	if x.rnd(3) > 0 {
		code = uint32(f.r)<<8 | uint32(x.rnd(256))
	}
	switch x.rc {
	case nt.RC1byte:
		code &= 255
	case nt.RC0byte:
		code = 0
	}
	if f.ping {
		/* its answer has no code */
		code = 0
	}
	body := []byte(fmt.Sprintf("a%d.%d", f.r, x.rnd(1<<20)))
	switch x.rnd(8) {
	case 0:
		body = nil
	case 1:
		body = append(body, make([]byte, x.rnd(3000))...)
	case 2:
		body = append(body, make([]byte, edges[x.rnd(len(edges))])...)
	}
	k.mu.Lock()
	if k.dead {
		k.mu.Unlock()
		return
	}
	x.j.E("resp", "k", k.k, "id", hex(f.id), "c", hex(code), "b", dig(body))
	k.mu.Unlock()
	msg := uint32(5)
	if x.rnd(3) == 0 {
		msg = uint32(x.rnd(1 << 15)) /* nobody looks at it */
	}
	if f.ping {
		msg = uint32(iproto.Ping)
	}
	if k.write(msg, f.id, code, body, true) {
		k.mu.Lock()
		k.old = append(k.old, f)
		if !k.dead && x.netw == "unix" && !x.frail {
			x.j.E("wrote", "k", k.k, "id", hex(f.id))
		}
		k.mu.Unlock()
	}
	if atomic.LoadInt32(&x.odd) != 0 && x.rnd(3) == 0 {
		k.strange()
	}
}

// strange sends a response nobody waits for.
func (k *clConn) strange() {
	x := k.x
	k.mu.Lock()
	if k.dead || !k.pong {
		k.mu.Unlock()
		return
	}
	id := uint32(1<<20 + x.rnd(1<<20))
	switch x.rnd(6) {
	case 0:
		id = 0
	case 1, 2, 3:
		if len(k.old) > 0 {
			id = k.old[x.rnd(len(k.old))].id
		}
	case 4:
		if atomic.LoadInt32(&x.near) == 0 {
			id = []uint32{0xfffffffe, 0xffffff00, 1 << 31, 0xfffffeff}[x.rnd(4)]
		}
	}
	code := uint32(0xbad)
	if x.rc != nt.RC4byte {
		code = 0
	}
	x.j.E("resp", "k", k.k, "id", hex(id), "c", hex(code), "b", dig([]byte("bad")))
	k.mu.Unlock()
	k.write(7, id, code, []byte("bad"), true)
}

// flush answers everything that is held, in some order.
func (k *clConn) flush() {
	k.mu.Lock()
	h := k.held
	k.held = nil
	k.mu.Unlock()
	k.order(h)
	for _, f := range h {
		k.answer(f)
	}
}
func (k *clConn) order(h []clFrame) {
	switch k.x.rnd(3) {
	case 0:
		for a := len(h) - 1; a > 0; a-- {
			b := k.x.rnd(a + 1)
			h[a], h[b] = h[b], h[a]
		}
	case 1:
		for a, b := 0, len(h)-1; a < b; a, b = a+1, b-1 {
			h[a], h[b] = h[b], h[a]
		}
	}
}

// some answers one of those held.
func (k *clConn) some() {
	k.mu.Lock()
	n := len(k.held)
	if n == 0 {
		k.mu.Unlock()
		return
	}
	a := k.x.rnd(n)
	f := k.held[a]
	k.held = append(k.held[:a], k.held[a+1:]...)
	k.mu.Unlock()
	k.answer(f)
}

// kill ends the connection in one of several ways.
func (k *clConn) kill(how int) {
	k.mu.Lock()
	if k.dead {
		k.mu.Unlock()
		return
	}
	k.dead = true
	k.x.j.E("dead", "k", k.k)
	held := k.held
	k.held = nil
	st := k.stall
	k.stall = nil
	k.mu.Unlock()
	switch how {
	case 0:
		k.c.Close()
	case 1:
		/* in the middle of a response */
		id := uint32(3)
		if len(held) > 0 {
			id = held[0].id
		}
		k.write(5, id, 0, make([]byte, 20), false)
		k.c.Close()
	case 2:
		/* only one direction */
		k.c.CloseWrite()
	case 3:
		/* garbage: a length that never comes */
		k.wm.Lock()
		k.c.Write([]byte{5, 0, 0, 0, 0, 0, 1, 0, 1})
		k.broken = true
		k.wm.Unlock()
		k.c.CloseWrite()
	}
	if st != nil {
		close(st)
	}
	if how >= 2 {
		/* the client has to close in time */
		time.AfterFunc(2*time.Second, func() { k.c.Close() })
	}
}

// silence makes the peer behind the connection neither read nor write any more.
func (k *clConn) silence() {
	k.mu.Lock()
	k.hush = true
	k.held = nil
	k.mu.Unlock()
}
func (k *clConn) isHush() bool { k.mu.Lock(); defer k.mu.Unlock(); return k.hush }

func (q *clReq) Respond(res *iproto.Response) {
	q.x.j.E("del", "r", q.n, "id", hex(res.Id), "msg", hex(uint32(res.Msg)), "c", hex(uint32(res.Code)), "b", dig(res.Body))
	if len(res.Body) > 0 {
		atomic.StoreInt32(&q.full, 1)
	}
	atomic.StoreInt32(&q.done, 1)
	atomic.AddInt32(&q.x.nDel, 1)
}

var clIds = []uint32{0, 1, 2, 7, 255, 256, 0xffffffff, 0x80000000}

func (x *clRun) newReq(to time.Duration) *clReq {
	return x.newReqBody(to, -1)
}
func (x *clRun) newReqBody(to time.Duration, size int) *clReq {
	x.mu.Lock()
	defer x.mu.Unlock()
	q := &clReq{x: x, n: len(x.reqs) + 1}
	body := []byte(fmt.Sprintf("q%d.%d", q.n, x.rnd(1<<20)))
	if size < 0 {
		switch x.rnd(8) {
		case 0:
			size = x.rnd(3000)
		case 1:
			size = edges[x.rnd(len(edges))]
		default:
			size = 0
		}
		if x.big > 0 && x.rnd(6) == 0 {
			size = x.big
		}
	}
	if size > 0 {
		body = append(body, make([]byte, size)...)
	}
	msg := uint32(x.rnd(200))
	if x.rnd(5) == 0 {
		msg = []uint32{0, 0xff01, 0x7fffffff, 0xffffffff, uint32(iproto.Ping)}[x.rnd(5)]
	}
	q.req = &iproto.Request{Id: clIds[x.rnd(len(clIds))], Msg: iproto.RequestType(msg), Body: iproto.Body(body), Responder: q}
	x.reqs = append(x.reqs, q)
	d := dig(body)
	x.dig[d] = q.n
	x.j.E("new", "r", q.n, "id", hex(q.req.Id), "msg", hex(msg), "b", d, "to", to > 0 || x.cfg.Timeout > 0)
	if to > 0 {
		q.req.SetTimeout(to)
	}
	return q
}
func (q *clReq) send() {
	q.x.j.E("send", "r", q.n)
	atomic.AddInt32(&q.x.nSent, 1)
	q.x.serv.Send(q.req)
	atomic.StoreInt32(&q.sent, 1)
}
func (q *clReq) kill(how int) {
	switch how {
	case 0:
		q.x.j.E("kill", "r", q.n, "c", hex(uint32(iproto.RcTimeout)))
		q.req.Expire()
	default:
		q.x.j.E("kill", "r", q.n, "c", hex(uint32(iproto.RcCanceled)))
		q.req.Cancel()
	}
}
func (x *clRun) send(to time.Duration) *clReq {
	q := x.newReq(to)
	q.send()
	return q
}
func (x *clRun) list() []*clConn {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]*clConn{}, x.conns...)
}
func (x *clRun) pick() *clReq {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.reqs) == 0 {
		return nil
	}
	return x.reqs[x.rnd(len(x.reqs))]
}
func (x *clRun) conn() *clConn {
	l := x.list()
	var live []*clConn
	for _, k := range l {
		if k.isLive() {
			live = append(live, k)
		}
	}
	if len(live) == 0 {
		return nil
	}
	return live[x.rnd(len(live))]
}
func (x *clRun) live() (n int) {
	for _, k := range x.list() {
		if k.isLive() {
			n++
		}
	}
	return
}
func (x *clRun) allDone() bool {
	return atomic.LoadInt32(&x.nDel) >= atomic.LoadInt32(&x.nSent)
}

// answerAll lets the peer answer from now on, and what it holds.
func (x *clRun) answerAll() {
	atomic.StoreInt32(&x.auto, 1)
	for _, k := range x.list() {
		if k.isHush() {
			continue
		}
		k.mu.Lock()
		st := k.stall
		k.stall, k.stalls = nil, false
		if st != nil {
			x.j.E("resume", "k", k.k)
		}
		k.mu.Unlock()
		if st != nil {
			close(st)
		}
		k.flush()
	}
}

// settle waits till everything is answered.
func (x *clRun) settle() bool {
	x.answerAll()
	if !x.j.Quiesce("answers", func() bool { x.answerAll(); return x.allDone() }) {
		return false
	}
	x.j.E("idle")
	return true
}

// probe sends requests until one is served by the peer.
func (x *clRun) probe() bool {
	p := wait(hangLimit)
	for {
		q := x.send(0)
		if !x.j.Until(hangLimit, func() bool { return atomic.LoadInt32(&q.done) != 0 }) {
			x.j.Hang("probe")
			return false
		}
		if atomic.LoadInt32(&q.full) != 0 {
			return true
		}
		/* the answer could be empty or equal to a failure */
		if p.over() {
			x.j.Hang("recovery")
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// checkLive waits till the number of connections is as configured and looks whether it stays so.
func (x *clRun) checkLive(want int) {
	ok := x.j.Until(hangLimit, func() bool { return x.live() == want })
	if ok {
		time.Sleep(300 * time.Millisecond)
		/* one could have been late */
		x.j.Until(2*time.Second, func() bool { return x.live() == want })
	}
	x.j.E("live", "n", x.live())
}
func (x *clRun) stop() {
	x.j.E("stop")
	x.serv.Stop()
	x.j.E("stopped")
}

// finish stops the client and looks whether it closes everything.
func (x *clRun) finish(stopped bool) {
	if !stopped {
		x.stop()
	}
	n := x.j.n(4)
	for k := 0; k < n; k++ {
		x.send(0)
	}
	if !x.settle() {
		return
	}
	atomic.StoreInt32(&x.mute, 0)
	closed := func() bool {
		for _, k := range x.list() {
			k.mu.Lock()
			ok := k.eof && !k.stay || k.dead
			k.mu.Unlock()
			if !ok {
				return false
			}
		}
		return true
	}
	if !x.j.Quiesce("closing", closed) {
		return
	}
	time.Sleep(20 * time.Millisecond)
	if !x.j.Quiesce("closing", closed) {
		return
	}
	x.j.E("closed")
	if !x.j.Quiesce("over", func() bool { return atomic.LoadInt32(&x.loop) != 0 }) {
		return
	}
	n = x.j.n(4)
	for k := 0; k < n; k++ {
		x.send(0)
	}
	if x.j.p(20) {
		time.Sleep(450 * time.Millisecond)
	}
	x.settle()
}

// script does things with the client and its peer at random.
func (x *clRun) script(n int, ops string) {
	j := x.j
	for a := 0; a < n; a++ {
		k := x.conn()
		switch ops[j.n(len(ops))] {
		case 's':
			x.send(0)
		case 'S':
			m := 1 + j.n(8)
			for b := 0; b < m; b++ {
				x.send(0)
			}
		case 't':
			x.send(time.Duration(1+j.n(30)) * time.Millisecond)
		case 'g':
			m := 1 + j.n(6)
			d := j.n(300)
			j.Go(func() {
				for b := 0; b < m; b++ {
					x.send(0)
					time.Sleep(time.Duration(d) * time.Microsecond)
				}
			})
		case 'a':
			if k != nil {
				k.some()
			}
		case 'A':
			if k != nil {
				k.flush()
			}
		case 'o':
			if k != nil {
				k.strange()
			}
		case 'k':
			if k != nil {
				k.kill(j.n(4))
			}
		case 'K':
			if k != nil {
				how := j.n(4)
				j.Go(func() { k.kill(how) })
			}
		case 'd':
			x.down()
		case 'u':
			x.up()
		case 'm':
			x.j.E("down")
			atomic.StoreInt32(&x.mute, int32(j.n(2)))
		case 'c':
			if q := x.pick(); q != nil {
				q.kill(j.n(2))
			}
		case 'C':
			if q := x.pick(); q != nil {
				how := j.n(2)
				j.Go(func() { q.kill(how) })
			}
		case 'x':
			q := x.newReq(0)
			q.kill(j.n(2))
			q.send()
		case 'w':
			time.Sleep(time.Duration(j.n(3000)) * time.Microsecond)
		case 'W':
			time.Sleep(time.Duration(j.n(250)) * time.Millisecond)
		case 'r':
			m := 1 + j.n(4)
			x.j.E("conf", "n", m)
			x.serv.SetConnections(m)
			x.cfg.Connections = m
		case 'R':
			atomic.StoreInt32(&x.auto, int32(j.n(3)))
		case 'p':
			if k != nil {
				j.Until(300*time.Millisecond, func() bool { k.mu.Lock(); defer k.mu.Unlock(); return len(k.held) > 0 })
			}
		}
	}
}
func (x *clRun) ready() {
	x.j.Until(2*time.Second, func() bool { return x.live() > 0 })
}

func scnClientIds(j *J) {
	x := newCl(j, 1+j.n(2))
	defer x.clean()
	x.up()
	x.run()
	atomic.StoreInt32(&x.odd, int32(j.n(2)))
	if j.p(60) {
		x.ready()
	}
	x.script(10+j.n(40), "sSSgtaaAAocCwpRx")
	j.Join()
	if !x.settle() {
		return
	}
	if j.p(20) {
		x.finish(false)
	} else {
		x.stop()
	}
}

// setWord sets a field of that name somewhere in the client, if there is one.
func setIds(s *client.Server, v uint32) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	cs := reflect.ValueOf(s).Elem().FieldByName("connections")
	for _, k := range cs.MapKeys() {
		f := cs.MapIndex(k).Elem().FieldByName("inFly").FieldByName("curId")
		if f.Kind() == reflect.Uint32 && f.CanAddr() {
			atomic.StoreUint32((*uint32)(unsafe.Pointer(f.UnsafeAddr())), v)
			ok = true
		}
	}
	return
}

func scnClientMany(j *J) {
	x := newCl(j, 1)
	defer x.clean()
	x.up()
	x.run()
	x.ready()
	atomic.StoreInt32(&x.odd, int32(j.n(2)))
	near := j.p(40)
	if near {
		/* shortly before the ids wrap around */
		atomic.StoreInt32(&x.near, 1)
		atomic.StoreInt32(&x.auto, 1)
		atomic.StoreInt32(&x.odd, 0)
		if x.probe() && setIds(x.serv, 0xffffffff-uint32(300+j.n(40))) {
			j.Note("near", 1)
		} else {
			near = false
		}
		for k := 0; k < 4; k++ {
			x.probe()
		}
	}
	atomic.StoreInt32(&x.auto, int32([]int32{0, 2, 1}[j.n(3)]))
	n := 300 + j.n(400)
	if near {
		n = 350
	}
	g := 1 + j.n(3)
	for b := 0; b < g; b++ {
		kill := j.p(30)
		j.Go(func() {
			for a := 0; a < n/g; a++ {
				q := x.send(0)
				if kill && x.rnd(8) == 0 {
					q.kill(0)
				}
				if x.rnd(20) == 0 {
					time.Sleep(time.Duration(x.rnd(500)) * time.Microsecond)
				}
			}
		})
	}
	m := j.n(40)
	for a := 0; a < m; a++ {
		if k := x.conn(); k != nil {
			k.some()
		}
		time.Sleep(time.Duration(j.n(400)) * time.Microsecond)
	}
	j.Join()
	if x.settle() {
		x.stop()
	}
}

func scnClientLoss(j *J) {
	x := newCl(j, 1+j.n(3))
	defer x.clean()
	if j.p(90) {
		x.up()
	}
	if j.p(15) {
		x.big = 300000
	}
	x.run()
	atomic.StoreInt32(&x.auto, int32(j.n(3)))
	if j.p(80) && x.ln != nil {
		x.ready()
	}
	verifsched.Start(j.P, 0, 0)
	x.script(6+j.n(20), "sSSggtaAowpRkkK"+[]string{"", "kKcC", "duW", "W"}[j.n(4)])
	j.Join()
	x.up()
	atomic.StoreInt32(&x.mute, 0)
	if !x.settle() {
		return
	}
	if !x.probe() {
		return
	}
	if j.p(30) {
		x.checkLive(x.cfg.Connections)
	}
	x.stop()
}

// scnClientLossMany: hundreds of requests are in flight when the connection is lost.
func scnClientLossMany(j *J) {
	x := newCl(j, 1)
	defer x.clean()
	x.up()
	x.run()
	x.ready()
	atomic.StoreInt32(&x.auto, int32(2*j.n(2)))
	n := 240 + j.n(120)
	if j.p(20) {
		n += 256
	}
	for a := 0; a < n; a++ {
		x.send(0)
	}
	if !j.Quiesce("sent", func() bool {
		for _, k := range x.list() {
			k.mu.Lock()
			l := len(k.held) + len(k.old)
			k.mu.Unlock()
			if l >= n {
				return true
			}
		}
		return false
	}) {
		return
	}
	for a := j.n(30); a > 0; a-- {
		if k := x.conn(); k != nil {
			k.some()
		}
	}
	for _, k := range x.list() {
		k.kill(j.n(4))
	}
	if !j.Quiesce("answers", x.allDone) {
		return
	}
	j.E("idle")
	if x.settle() && x.probe() {
		x.stop()
	}
}

// scnClientLossIdle: a connection with nothing in flight is lost; the client finds out by itself.
func scnClientLossIdle(j *J) {
	x := newCl(j, 1+j.n(3))
	defer x.clean()
	if j.p(50) {
		x.cfg.PingInterval = -1
	}
	x.up()
	x.run()
	atomic.StoreInt32(&x.auto, 1)
	all := func() bool { return x.live() == x.cfg.Connections }
	for a := 1 + j.n(3); a > 0; a-- {
		if !j.Quiesce("connections", all) {
			return
		}
		for b := j.n(4); b > 0; b-- {
			x.send(0)
		}
		if !j.Quiesce("answers", x.allDone) {
			return
		}
		for _, k := range x.list() {
			if j.p(60) {
				k.kill(j.n(4))
			}
		}
	}
	if !j.Quiesce("connections", all) {
		return
	}
	j.E("live", "n", x.live())
	if j.p(50) {
		x.finish(false)
	} else {
		x.stop()
	}
}

// scnClientQuiet: nothing is asked for longer than the peer may be silent; pings keep the connections.
func scnClientQuiet(j *J) {
	x := newCl(j, 1+j.n(3))
	defer x.clean()
	x.cfg.ReadTimeout = 4 * time.Second
	x.cfg.PingInterval = time.Duration(100+j.n(400)) * time.Millisecond
	x.up()
	x.run()
	atomic.StoreInt32(&x.auto, 1)
	x.script(j.n(4), "sS")
	x.ready()
	time.Sleep(5 * time.Second)
	x.checkLive(x.cfg.Connections)
	if x.probe() {
		x.finish(false)
	}
}

func scnClientOutage(j *J) {
	x := newCl(j, 1+j.n(2))
	defer x.clean()
	x.silent()
	if j.p(30) {
		x.cfg.Timeout = time.Duration(20+j.n(100)) * time.Millisecond
	}
	if j.p(50) {
		x.up()
		atomic.StoreInt32(&x.mute, int32(j.n(2)))
	}
	x.run()
	x.script(4+j.n(8), "sSgtWWdumkc")
	atomic.StoreInt32(&x.mute, 0)
	if j.p(30) {
		/* somebody is there, but does not talk */
		atomic.StoreInt32(&x.mute, 1)
		x.up()
		for a := 0; a < 1+j.n(20); a++ {
			x.send(0)
		}
		j.Join()
		if !j.Quiesce("silence", func() bool {
			for _, k := range x.list() {
				if k.isPong() {
					k.kill(0)
				}
			}
			return x.allDone()
		}) {
			return
		}
		j.E("idle")
		atomic.StoreInt32(&x.mute, 0)
	} else if j.p(60) {
		/* nobody is there: everything has to be answered all the same */
		x.down()
		for _, k := range x.list() {
			k.kill(0)
		}
		for a := 0; a < 1+j.n(20); a++ {
			x.send(0)
		}
		j.Join()
		if !j.Quiesce("outage", func() bool {
			/* one could have been accepted in between */
			for _, k := range x.list() {
				k.kill(0)
			}
			return x.allDone()
		}) {
			return
		}
		j.E("idle")
	}
	j.Join()
	x.up()
	if x.settle() && x.probe() {
		x.stop()
	}
}

func scnClientResize(j *J) {
	x := newCl(j, 1+j.n(4))
	defer x.clean()
	if j.p(30) && x.netw == "unix" {
		x.linger = 1
	}
	x.up()
	x.run()
	atomic.StoreInt32(&x.auto, int32(j.n(3)))
	if j.p(70) {
		x.ready()
	}
	x.script(6+j.n(16), "sSSgaARwWrrr"+[]string{"", "k", "du"}[j.n(3)])
	if j.p(50) {
		/* in flight while the number changes */
		atomic.StoreInt32(&x.auto, 0)
		x.script(6, "SSSrWrR")
	}
	j.Join()
	x.up()
	if !x.settle() {
		return
	}
	x.checkLive(x.cfg.Connections)
	if j.p(50) {
		m := 1 + j.n(4)
		x.j.E("conf", "n", m)
		x.serv.SetConnections(m)
		x.cfg.Connections = m
		x.checkLive(m)
	}
	if j.p(30) {
		if !x.probe() {
			return
		}
	}
	if j.p(50) {
		x.finish(false)
	} else {
		x.stop()
	}
}

func scnClientStop(j *J) {
	x := newCl(j, 1+j.n(3)+j.n(2)*j.n(2)*6)
	defer x.clean()
	if j.p(85) {
		x.up()
	}
	if j.p(40) && x.netw == "unix" {
		x.linger = 1
	}
	if j.p(20) {
		x.silent()
		atomic.StoreInt32(&x.mute, 1)
	}
	x.run()
	atomic.StoreInt32(&x.auto, int32(j.n(3)))
	if j.p(70) && x.ln != nil && x.mute == 0 {
		x.ready()
		verifsched.Start(j.P, 0, 0)
	}
	x.script(j.n(12), "sSSgatARwprcC"+[]string{"", "", "kdu", "kW"}[j.n(4)])
	if j.p(50) {
		n := j.n(12)
		d := j.n(400)
		j.Go(func() {
			for a := 0; a < n; a++ {
				x.send(0)
				time.Sleep(time.Duration(x.rnd(d+1)) * time.Microsecond)
			}
		})
	}
	x.stop()
	if j.p(30) {
		x.script(j.n(8), "ssSaAwwpkcW")
	}
	if j.p(20) {
		x.serv.SetConnections(2)
	}
	if j.p(20) {
		x.stop()
	}
	j.Join()
	if j.p(25) || x.cfg.Connections > 4 && j.p(50) {
		/* the peer waits for the client, and then goes without a word */
		atomic.StoreInt32(&x.auto, 0)
		x.script(2+x.cfg.Connections, "SSs")
		j.Until(time.Second, func() bool { return x.live() == 0 })
		for _, k := range x.list() {
			k.kill(0)
		}
	}
	x.finish(true)
}

// The peer is there, but neither reads nor writes any more: the timeouts of the
// configuration are what notices it.
func scnClientSilence(j *J) {
	x := newCl(j, 1+j.n(2))
	defer x.clean()
	if x.netw == "tcp" {
		dir, _ := os.MkdirTemp("", "c")
		x.netw, x.addr = "unix", filepath.Join(dir, "s")
		x.cfg.Network, x.cfg.Address = x.netw, x.addr
	}
	x.frail = true
	x.cfg.ReadTimeout, x.cfg.WriteTimeout = 0, 0
	write := j.p(60)
	if write {
		x.cfg.WriteTimeout = time.Duration(30+j.n(100)) * time.Millisecond
	} else {
		x.cfg.ReadTimeout = time.Duration(30+j.n(100)) * time.Millisecond
		x.cfg.PingInterval = x.cfg.ReadTimeout / 4
		if j.p(20) {
			x.cfg.PingInterval = -1
		}
	}
	x.up()
	/* the client may have lost a connection by its own timeout, which is hard to tell */
	x.j.E("down")
	x.run()
	x.ready()
	atomic.StoreInt32(&x.auto, int32(j.n(3)))
	for a := j.n(8); a > 0; a-- {
		x.send(0)
	}
	for _, k := range x.list() {
		if write {
			k.mu.Lock()
			k.stalls = true
			k.mu.Unlock()
		}
		k.silence()
	}
	verifsched.Start(j.P, 0, 0)
	for a := j.n(6); a > 0; a-- {
		x.send(0)
	}
	if write {
		/* something that can not be written to every silent connection */
		stalled := func() bool {
			for _, k := range x.list() {
				k.mu.Lock()
				free := k.hush && k.stall == nil && !k.eof
				k.mu.Unlock()
				if free {
					return false
				}
			}
			return true
		}
		for a := 0; a < 60 && !stalled(); a++ {
			x.newReqBody(0, 2<<20).send()
			for b := j.n(3); b > 0; b-- {
				x.send(0)
			}
			j.Until(200*time.Millisecond, stalled)
		}
		if !stalled() {
			j.skip = true
			return
		}
	}
	j.Join()
	atomic.StoreInt32(&x.auto, 1)
	if !x.settle() || !x.probe() {
		return
	}
	x.stop()
}

func scnClientCancel(j *J) {
	x := newCl(j, 1)
	defer x.clean()
	x.netw, x.addr = "unix", x.addr
	if strings.HasSuffix(x.addr, ":0") {
		dir, _ := os.MkdirTemp("", "c")
		x.addr = filepath.Join(dir, "s")
		x.cfg.Network = "unix"
	}
	stall := j.p(60)
	if stall {
		x.up()
	} else if j.p(50) {
		/* connected, but the first ping is not answered yet */
		x.up()
		atomic.StoreInt32(&x.mute, 1)
	}
	x.run()
	if stall {
		x.ready()
		k := x.conn()
		if k == nil {
			j.skip = true
			return
		}
		k.mu.Lock()
		k.stalls = true
		k.mu.Unlock()
		q := x.newReqBody(0, 2<<20)
		q.send()
		if !j.Quiesce("stall", func() bool { k.mu.Lock(); defer k.mu.Unlock(); return k.stall != nil }) {
			return
		}
	}
	var qs []*clReq
	n := 1 + j.n(20)
	for a := 0; a < n; a++ {
		q := x.newReq(0)
		qs = append(qs, q)
		if j.p(10) {
			q.kill(j.n(2))
		}
		q.send()
	}
	for _, q := range qs {
		if j.p(60) {
			q.kill(j.n(2))
		} else if j.p(20) {
			q := q
			j.Go(func() { q.kill(1) })
		}
	}
	if !stall {
		time.Sleep(time.Duration(j.n(250)) * time.Millisecond)
	}
	x.up()
	atomic.StoreInt32(&x.mute, 0)
	j.Join()
	if x.settle() {
		x.stop()
	}
}
