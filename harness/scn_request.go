package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func init() {
	reg(Scenario{Name: "req.random", Files: []string{"request.go", "response.go"}, Spec: "TraceRequest", Props: []string{"R01", "R02", "R03"}, Run: scnRequest, Explore: true, First: 24, Weight: 3})
	reg(Scenario{Name: "req.race", Files: []string{"request.go", "response.go"}, Spec: "TraceRequest", Props: []string{"R01", "R03"}, Run: scnRequestRace, Explore: true, First: 24, Weight: 4})
	reg(Scenario{Name: "req.seq", Files: []string{"request.go", "response.go"}, Spec: "TraceRequest", Props: []string{"R01", "R02", "R03"}, Run: scnRequestSeq, First: 64})
	reg(Scenario{Name: "req.retry", Files: []string{"request.go", "response.go"}, Spec: "TraceRequest", Props: []string{"R02"}, Run: scnRequestRetry, Explore: true, First: 16, Weight: 2})
}

// one request under observation
type reqRun struct {
	j        *J
	r        *iproto.Request
	nop      int32
	marks    []*mark
	deliv    int32
	res      atomic.Value
	timedOut int32
	armedAt  int32
	retries  int32
	retried  chan int
	exp      []*mark
	mu       sync.Mutex
}

type mark struct {
	iproto.Bookmark
	q     *reqRun
	m     int
	retry int    /* how many completions to take back */
	kind  string /* resetp, resetn */
	fly   bool   /* and take it for work at once */
	next  bool   /* tell others to complete it again */
}

func (b *mark) Respond(res *iproto.Response) {
	q := b.q
	q.j.E("in", "m", b.m, "c", hex(uint32(res.Code)), "b", string(res.Body), "id", hex(res.Id), "msg", hex(uint32(res.Msg)),
		"req", b.Request == q.r)
	if res.Code == iproto.RcTimeout {
		atomic.StoreInt32(&q.timedOut, 1)
	}
	if b.retry > 0 && b.Request != nil && b.Request.State() == iproto.RsPrepared {
		b.retry--
		o := q.call(b.kind, "", "", b.m)
		if b.kind == "resetp" {
			b.Request.ResetToPending()
		} else {
			b.Request.ResetToNew()
		}
		q.ret(o, true)
		atomic.AddInt32(&q.retries, 1)
		if b.fly {
			if b.kind == "resetn" {
				q.setPending()
			}
			q.setInFly()
		}
		if b.next {
			select {
			case q.retried <- 1:
			default:
			}
		}
	}
	q.j.E("out", "m", b.m)
}

func newReqRun(j *J) *reqRun {
	q := &reqRun{j: j, retried: make(chan int, 16)}
	pool := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff}
	id, msg := pool[j.n(len(pool))], []uint32{0, 17, 0xff00}[j.n(3)]
	switch j.n(4) {
	case 0:
		g := iproto.GetGenerator()
		q.r = g.Request(id, iproto.RequestType(msg), iproto.Body("body"))
		g.Release()
	case 1:
		q.r = &iproto.Request{Id: id, Msg: iproto.RequestType(msg), Response: &iproto.Response{Id: 77, Msg: 88, Code: 99}}
	default:
		q.r = &iproto.Request{Id: id, Msg: iproto.RequestType(msg)}
	}
	q.r.Responder = iproto.Callback(func(res *iproto.Response) {
		if res.Code == iproto.RcTimeout {
			atomic.StoreInt32(&q.timedOut, 1)
		}
		j.E("del", "c", hex(uint32(res.Code)), "b", string(res.Body), "id", hex(res.Id), "msg", hex(uint32(res.Msg)))
		q.res.Store(res)
		atomic.AddInt32(&q.deliv, 1)
	})
	j.E("new", "id", hex(id), "msg", hex(msg))
	return q
}

func (q *reqRun) call(k, c, b string, m int) int32 {
	o := atomic.AddInt32(&q.nop, 1)
	q.j.E("call", "o", o, "k", k, "c", c, "b", b, "m", m)
	return o
}
func (q *reqRun) ret(o int32, r bool) { q.j.E("ret", "o", o, "r", r) }

func (q *reqRun) setPending() bool {
	o := q.call("setpending", "", "", 0)
	r := q.r.SetPending()
	q.ret(o, r)
	return r
}
func (q *reqRun) setInFly() bool {
	o := q.call("setinfly", "", "", 0)
	r := q.r.SetInFly(nil)
	q.ret(o, r)
	return r
}

func (q *reqRun) newMark() *mark {
	q.mu.Lock()
	b := &mark{q: q, m: len(q.marks) + 1}
	q.marks = append(q.marks, b)
	q.mu.Unlock()
	return b
}
func (q *reqRun) setInFlyB(b *mark) bool {
	o := q.call("setinflyb", "", "", b.m)
	r := q.r.SetInFly(b)
	q.ret(o, r)
	return r
}
func (q *reqRun) chain(b *mark) bool {
	o := q.call("chain", "", "", b.m)
	r := q.r.ChainBookmark(b)
	q.ret(o, r)
	return r
}
func (q *reqRun) respond(code uint32, direct bool) {
	c := hex(code)
	body := fmt.Sprintf("a%d", atomic.LoadInt32(&q.nop))
	o := q.call("respond", c, body, 0)
	if direct {
		q.r.RespondBytes(iproto.RetCode(code), []byte(body))
	} else {
		q.r.Respond(iproto.RetCode(code), iproto.Body(body))
	}
	q.ret(o, true)
}
func (q *reqRun) fail(n int) {
	var code iproto.RetCode
	switch n % 5 {
	case 0:
		code = iproto.RcCanceled
	case 1:
		code = iproto.RcTimeout
	case 2:
		code = iproto.RcIOError
	case 3:
		code = iproto.RcShutdown
	default:
		code = iproto.RetCode(0x1000 + n)
	}
	o := q.call("fail", hex(uint32(code)), "", 0)
	switch n % 5 {
	case 0:
		q.r.Cancel()
	case 1:
		q.r.Expire()
	case 2:
		q.r.IOError()
	case 3:
		q.r.ShutDown()
	default:
		q.r.RespondFail(code)
	}
	q.ret(o, true)
}
func (q *reqRun) setTimeout(d time.Duration) {
	o := q.call("settimeout", "", "", 0)
	q.r.SetTimeout(d)
	q.ret(o, true)
	atomic.StoreInt32(&q.armedAt, 1)
}

// end makes the request complete, if it is not, and records what is left of it.
func (q *reqRun) end() {
	j := q.j
	if !j.Join() {
		return
	}
	if atomic.LoadInt32(&q.armedAt) != 0 {
		ok := j.Until(hangLimit, func() bool {
			return atomic.LoadInt32(&q.deliv) > 0 || atomic.LoadInt32(&q.timedOut) > 0
		})
		if !ok {
			j.Hang("timeout")
		}
		time.Sleep(200 * time.Microsecond)
	}
	/* interceptors take completions back a limited number of times */
	for i := 0; i < 12 && atomic.LoadInt32(&q.deliv) == 0; i++ {
		q.fail(4 + 5*i)
	}
	/* late completions change nothing */
	for i := j.n(3); i > 0; i-- {
		switch j.n(4) {
		case 0:
			q.respond(uint32(0x2000+i), true)
		case 1:
			q.fail(j.n(5))
		case 2:
			q.chain(q.newMark())
		case 3:
			q.setPending()
			q.setInFly()
		}
	}
	res, _ := q.res.Load().(*iproto.Response)
	if res == nil {
		res = &iproto.Response{}
	}
	j.E("end", "performed", q.r.Performed(), "c", hex(uint32(res.Code)), "b", string(res.Body), "id", hex(res.Id), "msg", hex(uint32(res.Msg)))
}

func (q *reqRun) randMark() *mark {
	b := q.newMark()
	if q.j.p(25) {
		b.retry = 1 + q.j.n(2)
		b.kind = []string{"resetp", "resetn"}[q.j.n(2)]
		b.fly = q.j.p(40)
		b.next = q.j.p(70)
	}
	return b
}

// anything random, with all parameters decided beforehand
func (q *reqRun) randOp() func() {
	j := q.j
	switch j.n(12) {
	case 0, 1:
		return func() { q.setPending() }
	case 2:
		return func() { q.setInFly() }
	case 3:
		b := q.randMark()
		return func() { q.setInFlyB(b) }
	case 4, 5:
		b := q.randMark()
		return func() { q.chain(b) }
	case 6, 7, 8:
		c, d := []uint32{0, 1, 2, 0xfc02}[j.n(4)], j.p(70)
		return func() { q.respond(c, d) }
	case 9, 10:
		n := j.n(20)
		return func() { q.fail(n) }
	default:
		d := time.Duration(500+j.n(2500)) * time.Microsecond
		return func() {
			if atomic.CompareAndSwapInt32(&q.armedAt, 0, 2) {
				q.setTimeout(d)
			}
		}
	}
}

func scnRequest(j *J) {
	q := newReqRun(j)
	for i := j.n(3); i > 0; i-- {
		q.chain(q.randMark())
	}
	if j.p(30) {
		atomic.StoreInt32(&q.armedAt, 2)
		q.setTimeout(time.Duration(300+j.n(2000)) * time.Microsecond)
	}
	if j.p(80) {
		q.setPending()
		if j.p(40) {
			q.chain(q.randMark())
		}
		switch j.n(4) {
		case 0:
			q.setInFly()
		case 1:
			q.setInFlyB(q.randMark())
		}
	}
	for g := 2 + j.n(3); g > 0; g-- {
		var ops []func()
		for i := 1 + j.n(2); i > 0; i-- {
			ops = append(ops, q.randOp())
		}
		j.Go(func() {
			for _, op := range ops {
				op()
			}
		})
	}
	again := j.p(60)
	c := uint32(j.n(4))
	b := q.randMark()
	stop := make(chan bool)
	j.Go(func() {
		for {
			select {
			case <-q.retried:
				if again {
					q.setPending()
					q.setInFlyB(b)
					q.respond(c, true)
					again = false
				}
			case <-stop:
				return
			}
		}
	})
	j.Go(func() { time.Sleep(300 * time.Microsecond); close(stop) })
	q.end()
}

// completers and takers race on one request
func scnRequestRace(j *J) {
	q := newReqRun(j)
	for i := j.n(2); i > 0; i-- {
		q.chain(q.newMark())
	}
	q.setPending()
	start := make(chan bool)
	send := j.p(30) /* several that send */
	fly := !send && j.p(50)
	if fly {
		q.setInFly()
	}
	for i := 0; i < 2+j.n(2); i++ {
		k := j.n(3)
		if send && i < 2 {
			k = 1 + j.n(2)
		}
		n, c := j.n(20), uint32(i+1)
		b := q.newMark()
		j.Go(func() {
			<-start
			switch k {
			case 0:
				q.fail(n)
			case 1:
				if q.setInFlyB(b) {
					q.respond(c, true)
				}
			case 2:
				if fly || q.setInFly() {
					q.respond(c, true)
				}
			}
		})
	}
	if j.p(20) {
		atomic.StoreInt32(&q.armedAt, 2)
		q.setTimeout(500 * time.Microsecond)
	}
	close(start)
	q.end()
}

// sequences of operations, one after another
func scnRequestSeq(j *J) {
	for n := 0; n < 10; n++ {
		q := newReqRun(j)
		for i := 3 + j.n(8); i > 0; i-- {
			q.randOp()()
			if len(q.retried) > 0 {
				<-q.retried
			}
		}
		q.end()
		j.mu.Lock()
		j.more = append(j.more, j.ev)
		j.ev = nil
		j.mu.Unlock()
		if j.hang {
			return
		}
	}
}

// interceptors that retry, with and without timeout
func scnRequestRetry(j *J) {
	q := newReqRun(j)
	n := 1 + j.n(3)
	who := j.n(n)
	for i := 0; i < n; i++ {
		b := q.newMark()
		if i == who {
			b.retry, b.kind, b.fly, b.next = 1+j.n(2), []string{"resetp", "resetn"}[j.n(2)], j.p(30), true
		}
		if i == 1 && q.r.State() == iproto.RsNew {
			q.setPending()
		}
		q.chain(b)
	}
	if j.p(60) {
		atomic.StoreInt32(&q.armedAt, 2)
		q.setTimeout(time.Duration(1000+j.n(3000)) * time.Microsecond)
	}
	q.setPending()
	q.setInFly()
	late := j.newMarks(q, 2)
	resp := j.p(50)
	c := uint32(j.n(4))
	f := j.n(20)
	j.Go(func() {
		if resp {
			q.respond(c, true)
		} else {
			q.fail(f)
		}
	})
	sched := j.n(3)
	j.Go(func() {
		select {
		case <-q.retried:
			q.setPending()
			q.chain(late[0])
			if sched != 0 {
				q.setInFlyB(late[1])
			}
			if sched == 2 {
				q.respond(c+1, false)
			}
		case <-time.After(3 * time.Millisecond):
		}
	})
	q.end()
}

func (j *J) newMarks(q *reqRun, n int) (res []*mark) {
	for ; n > 0; n-- {
		res = append(res, q.newMark())
	}
	return
}
