package main

import (
	"encoding/binary"
	encoding_hex "encoding/hex"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func init() {
	reg(Scenario{Name: "svc.parallel", Files: []string{"parallel_service.go", "request.go", "service.go", "buffer.go"}, Spec: "TraceService", Props: []string{"S01"}, Run: func(j *J) { scnService(j, false) }, Explore: true, First: 16, Weight: 3})
	reg(Scenario{Name: "svc.many", Files: []string{"parallel_service.go", "request.go", "service.go", "buffer.go"}, Spec: "TraceService", Props: []string{"S01"}, Run: scnServiceMany, Explore: true, First: 4, Weight: 1, Max: 500})
	reg(Scenario{Name: "svc.stop", Files: []string{"parallel_service.go", "request.go", "service.go", "buffer.go"}, Spec: "TraceService", Props: []string{"S02"}, Run: func(j *J) { scnService(j, true) }, Explore: true, First: 16, Weight: 4})
	reg(Scenario{Name: "svc.stopidle", Files: []string{"parallel_service.go", "request.go", "service.go", "buffer.go"}, Spec: "TraceService", Props: []string{"S02"}, Run: scnServiceStopIdle, Explore: true, First: 8, Weight: 3})
	reg(Scenario{Name: "svc.overflow", Files: []string{"parallel_service.go", "request.go", "service.go", "buffer.go"}, Spec: "TraceService", Props: []string{"S02"}, Run: scnServiceOverflow, Explore: true, First: 8, Weight: 1, Par: 4})
	reg(Scenario{Name: "svc.cancelqueued", Files: []string{"parallel_service.go", "request.go", "service.go", "buffer.go"}, Spec: "TraceService", Props: []string{"R03"}, Run: scnCancelQueued, Explore: true, First: 16, Weight: 3})
	reg(Scenario{Name: "svc.sf", Files: []string{"parallel_service.go", "request.go", "service.go", "buffer.go"}, Spec: "TraceService", Props: []string{"R03"}, Run: scnSF, Explore: true, First: 16, Weight: 3})
	reg(Scenario{Name: "svc.overflowcancel", Files: []string{"parallel_service.go", "request.go", "service.go", "buffer.go"}, Spec: "TraceService", Props: []string{"R03"}, Run: scnOverflowCancel, Explore: true, First: 4, Max: 120, Par: 4})
}

const (
	hRet = iota
	hVal
	hPanic
	hGate
	hGatePanic
	hCtx
	hSleep
	hExit
	hLong /* waits for the gate, whatever happens to the context */
)

type svReq struct {
	v       *svRun
	n       int
	req     *iproto.Request
	policy  int
	code    iproto.RetCode
	gate    chan bool
	del     int32
	started int32
	ended   int32
	doomed  bool /* will be cancelled or expired */
}

type svRun struct {
	j    *J
	serv iproto.Service
	mu   sync.Mutex
	reqs []*svReq
	nop  int32
	to   bool
}

func bodyHex(b []byte) string { return encoding_hex.EncodeToString(b) }

func (v *svRun) newReq(policy int) *svReq {
	v.mu.Lock()
	q := &svReq{v: v, n: len(v.reqs) + 1, policy: policy, gate: make(chan bool)}
	v.reqs = append(v.reqs, q)
	v.mu.Unlock()
	q.code = iproto.RetCode(q.n << 4)
	if q.n%5 == 2 {
		q.code = []iproto.RetCode{iproto.RcTimeout, iproto.RcCanceled, iproto.RcIOError, iproto.RcOK}[v.j.Seed&3]
	}
	q.req = &iproto.Request{Id: uint32(q.n), Msg: 7, Body: iproto.Body(fmt.Sprintf("q%d", q.n)), Responder: q}
	v.j.E("new", "r", q.n)
	return q
}

func (q *svReq) Respond(res *iproto.Response) {
	q.v.j.E("del", "r", q.n, "c", hex(uint32(res.Code)), "b", bodyHex(res.Body))
	atomic.AddInt32(&q.del, 1)
}

func (q *svReq) done() bool { return atomic.LoadInt32(&q.del) > 0 }
func (q *svReq) send() {
	q.v.j.E("send", "r", q.n, "to", q.v.to)
	q.v.serv.Send(q.req)
	q.v.j.E("sent", "r", q.n)
}

func (q *svReq) fail(n int) {
	o := atomic.AddInt32(&q.v.nop, 1)
	code := []iproto.RetCode{iproto.RcCanceled, iproto.RcTimeout, iproto.RcIOError, 0x1234}[n]
	q.v.j.E("fail", "o", o, "r", q.n, "c", hex(uint32(code)))
	switch n {
	case 0:
		q.req.Cancel()
	case 1:
		q.req.Expire()
	default:
		q.req.RespondFail(code)
	}
	q.v.j.E("failret", "o", o)
}

func (v *svRun) get(n int) *svReq {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.reqs[n-1]
}

func (v *svRun) handle(ctx *iproto.Context, req *iproto.Request) (iproto.RetCode, interface{}) {
	q := v.get(int(req.Id))
	j := v.j
	j.E("hs", "r", q.n)
	atomic.AddInt32(&q.started, 1)
	switch q.policy {
	case hGate, hGatePanic, hLong:
		<-q.gate
	case hCtx:
		if !j.Until(hangLimit, func() bool { return !ctx.Alive() }) {
			j.Hang("ctx")
		}
	case hSleep:
		time.Sleep(200 * time.Microsecond)
	}
	j.E("hc", "r", q.n)
	alive, timeout := ctx.Alive(), ctx.Timeout()
	code := q.code
	var val interface{} = iproto.Body(fmt.Sprintf("r%d", q.n))
	body := []byte(fmt.Sprintf("r%d", q.n))
	if q.policy == hVal {
		val = uint32(q.n)
		body = make([]byte, 4)
		binary.LittleEndian.PutUint32(body, uint32(q.n))
	}
	switch q.policy {
	case hPanic, hGatePanic, hExit:
		j.E("he", "r", q.n, "c", "panic", "b", "", "alive", alive, "timeout", timeout)
		atomic.AddInt32(&q.ended, 1)
		if q.policy == hExit {
			runtime.Goexit()
		}
		panic("handler")
	}
	j.E("he", "r", q.n, "c", hex(uint32(code)), "b", bodyHex(body), "alive", alive, "timeout", timeout)
	atomic.AddInt32(&q.ended, 1)
	return code, val
}

func (q *svReq) open() {
	defer func() { recover() }()
	close(q.gate)
}

func (v *svRun) allDone() bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	for _, q := range v.reqs {
		if !q.done() {
			return false
		}
	}
	return true
}

// finish opens all gates and waits for all answers.
func (v *svRun) finish() bool {
	v.mu.Lock()
	for _, q := range v.reqs {
		q.open()
	}
	v.mu.Unlock()
	if !v.j.Join() {
		return false
	}
	return v.j.Quiesce("answers", v.allDone)
}

// probe sees whether as many handlers as the width can run at once.
func (v *svRun) probe(w int) bool {
	var qs []*svReq
	for i := 0; i < w; i++ {
		q := v.newReq(hLong)
		q.send()
		qs = append(qs, q)
	}
	to := v.to
	ok := v.j.Quiesce("width", func() bool {
		for _, q := range qs {
			if atomic.LoadInt32(&q.started) == 0 && !(to && q.done()) {
				return false
			}
		}
		return true
	})
	for _, q := range qs {
		q.open()
	}
	return ok
}

func scnService(j *J, stop bool) {
	w := []int{0, 1, 1, 2, 2, 3, 4}[j.n(7)]
	v := &svRun{j: j}
	bf := iproto.BF{N: w}
	if w == 0 {
		w = 1
	}
	if j.p(25) {
		v.to = true
		bf.Timeout = time.Duration(500+j.n(2000)) * time.Microsecond
	}
	j.E("cfg", "w", w)
	serv := bf.New(v.handle)
	v.serv = serv
	nreq := 2 + j.n(2*w+3)
	var qs []*svReq
	for i := 0; i < nreq; i++ {
		q := v.newReq(j.n(hLong + 1))
		if q.policy == hCtx {
			q.doomed = true
		} else {
			q.doomed = j.p(35)
		}
		qs = append(qs, q)
	}
	senders := 1 + j.n(2)
	for s := 0; s < senders; s++ {
		s := s
		j.Go(func() {
			for i := s; i < nreq; i += senders {
				qs[i].send()
			}
		})
	}
	/* those who cancel */
	for _, q := range qs {
		if !q.doomed {
			continue
		}
		q := q
		kind := 0
		if j.p(50) {
			kind = j.n(4)
		}
		if q.policy == hCtx && kind > 1 {
			kind = 0
		}
		when := j.n(4)
		j.Go(func() {
			switch when {
			case 0:
			case 1:
				time.Sleep(100 * time.Microsecond)
			default:
				p := time.Now()
				for atomic.LoadInt32(&q.started) == 0 && !q.done() && time.Since(p) < 2*time.Millisecond {
					time.Sleep(30 * time.Microsecond)
				}
			}
			q.fail(kind)
			if q.policy == hCtx && kind == 1 && !q.done() {
				/* the first could come before it was taken */
				q.fail(0)
			}
		})
	}
	order := j.R.Perm(nreq)
	j.Go(func() {
		for _, i := range order {
			time.Sleep(100 * time.Microsecond)
			qs[i].open()
		}
	})
	if stop {
		d := time.Duration(j.n(8)) * 60 * time.Microsecond
		twice := j.p(20)
		lateN := j.n(3)
		var lates []*svReq
		for i := 0; i < lateN; i++ {
			lates = append(lates, v.newReq(hRet))
		}
		j.Go(func() {
			time.Sleep(d)
			j.E("stop")
			serv.Stop()
			if twice {
				serv.Stop()
			}
			j.E("stopped")
			for _, q := range lates {
				q.send()
			}
		})
	}
	if !v.finish() {
		return
	}
	if !stop {
		if !v.probe(w) || !v.finish() {
			return
		}
	}
	j.E("quiet")
}

// more requests in a row than there are slots, with panics, sequentially and in bursts
func scnServiceMany(j *J) {
	w := 1 + j.n(4)
	v := &svRun{j: j}
	j.E("cfg", "w", w)
	v.serv = iproto.BF{N: w}.New(v.handle)
	pol := []int{hRet, hPanic, hVal, hExit, hSleep}
	for round := 0; round < 3; round++ {
		only := pol[j.n(len(pol))]
		mixed := j.p(50)
		for i := 0; i < w+1+j.n(6); i++ {
			p := only
			if mixed {
				p = pol[j.n(len(pol))]
			}
			q := v.newReq(p)
			q.send()
			if j.p(20) {
				q.fail(j.n(3))
			}
		}
		if j.p(50) && !v.finish() {
			return
		}
	}
	if !v.probe(w) || !v.finish() {
		return
	}
	j.E("quiet")
}

func scnServiceStopIdle(j *J) {
	w := 1 + j.n(3)
	v := &svRun{j: j}
	j.E("cfg", "w", w)
	serv := iproto.BF{N: w}.New(v.handle)
	v.serv = serv
	busy := j.n(w + 1)
	var qs []*svReq
	for i := 0; i < busy; i++ {
		q := v.newReq(hLong)
		q.send()
		qs = append(qs, q)
	}
	if j.p(50) {
		j.Quiesce("start", func() bool {
			for _, q := range qs {
				if atomic.LoadInt32(&q.started) == 0 {
					return false
				}
			}
			return true
		})
	}
	n := j.n(3)
	for i := 0; i < n; i++ {
		q := v.newReq([]int{hRet, hLong}[j.n(2)])
		j.Go(func() { q.send() })
	}
	after := v.newReq(hRet)
	j.Go(func() {
		j.E("stop")
		serv.Stop()
		j.E("stopped")
		after.send()
	})
	if j.p(30) {
		j.Go(func() {
			j.E("stop")
			serv.Stop()
			j.E("stopped")
		})
	}
	if !v.finish() {
		return
	}
	v.newReq(hRet).send()
	if !v.finish() {
		return
	}
	j.E("quiet")
}

func scnServiceOverflow(j *J) {
	w := 1 + j.n(3)
	j.E("cfg", "w", w)
	gate := make(chan bool)
	var shut, served, other, more, started int32
	serv := iproto.BF{N: w}.New(func(ctx *iproto.Context, req *iproto.Request) (iproto.RetCode, interface{}) {
		atomic.AddInt32(&started, 1)
		<-gate
		return 0x20, iproto.Body("x")
	})
	total := 16*1024 + []int{-5, 1, 5, 900, 1500, 3000}[j.n(6)]
	reqs := make([]iproto.Request, total)
	cnt := make([]int32, total)
	var answered int32
	senders := 1 + j.n(2)
	var sent int32
	stopAt := int32(total)
	if j.p(60) {
		stopAt = int32(16*1024 + j.n(1500) - 200)
		if stopAt > int32(total) {
			stopAt = int32(total)
		}
	}
	for s := 0; s < senders; s++ {
		s := s
		j.Go(func() {
			for i := s; i < total; i += senders {
				i := i
				r := &reqs[i]
				r.Id = uint32(i)
				r.Responder = iproto.Callback(func(res *iproto.Response) {
					if atomic.AddInt32(&cnt[i], 1) > 1 {
						atomic.AddInt32(&more, 1)
						return
					}
					switch res.Code {
					case iproto.RcShutdown:
						atomic.AddInt32(&shut, 1)
					case 0x20:
						atomic.AddInt32(&served, 1)
					default:
						atomic.AddInt32(&other, 1)
					}
					atomic.AddInt32(&answered, 1)
				})
				serv.Send(r)
				atomic.AddInt32(&sent, 1)
			}
		})
	}
	j.Go(func() {
		for atomic.LoadInt32(&sent) < stopAt {
			time.Sleep(20 * time.Microsecond)
		}
		serv.Stop()
		if j.p(50) {
			time.Sleep(300 * time.Microsecond)
		}
		close(gate)
	})
	if !j.Join() || !j.Quiesce("answers", func() bool { return int(atomic.LoadInt32(&answered)) == total }) {
		return
	}
	j.E("bulk", "sent", total, "shut", shut, "served", served, "other", other, "more", more, "started", started)
	j.E("quiet")
}

// all slots are busy, requests wait in the queue and are completed there
func scnCancelQueued(j *J) {
	w := 1 + j.n(2)
	v := &svRun{j: j}
	j.E("cfg", "w", w)
	v.serv = iproto.BF{N: w}.New(v.handle)
	var busy []*svReq
	for i := 0; i < w; i++ {
		q := v.newReq(hLong)
		q.send()
		busy = append(busy, q)
	}
	j.Quiesce("start", func() bool {
		for _, q := range busy {
			if atomic.LoadInt32(&q.started) == 0 {
				return false
			}
		}
		return true
	})
	n := 1 + j.n(4)
	var qs []*svReq
	for i := 0; i < n; i++ {
		q := v.newReq(hRet)
		if j.p(20) {
			q.fail(j.n(4))
		}
		if j.p(15) {
			v.j.E("arm", "r", q.n)
			q.req.SetTimeout(time.Duration(1+j.n(300)) * time.Microsecond)
		}
		qs = append(qs, q)
	}
	for _, q := range qs {
		q := q
		q.send()
		if j.p(60) {
			k := j.n(4)
			if j.p(60) {
				q.fail(k)
			} else {
				j.Go(func() { q.fail(k) })
			}
		}
	}
	if j.p(50) {
		for _, q := range busy {
			q := q
			j.Go(func() { q.open() })
		}
	}
	if !v.finish() {
		return
	}
	/* what was completed is ignored when sent (again) */
	time.Sleep(100 * time.Microsecond)
	j.E("quiet")
}

// function services
func scnSF(j *J) {
	v := &svRun{j: j}
	j.E("cfg", "w", 1000)
	route := j.p(30)
	f := func(r *iproto.Request) {
		q := v.get(int(r.Id))
		j.E("hs", "r", q.n)
		if route && !(r.SetPending() && r.SetInFly(nil)) {
			return
		}
		j.E("he", "r", q.n, "c", hex(uint32(q.code)), "b", bodyHex([]byte("sf")), "alive", true, "timeout", false)
		r.Respond(q.code, iproto.Body("sf"))
	}
	if route {
		v.serv = iproto.Route(f)
	} else {
		v.serv = iproto.SF(f)
	}
	if j.p(40) {
		v.serv = iproto.StatWrap(v.serv, func(*iproto.Request, time.Duration) {})
	}
	for i := 0; i < 3; i++ {
		q := v.newReq(hRet)
		k := j.n(4)
		switch {
		case j.p(30):
			q.fail(k)
			q.send()
		case route:
			/* a router may get a request that is completed meanwhile, a worker may not */
			q.send()
			q.fail(k)
		default:
			j.Go(func() { q.fail(k) })
			j.Go(func() { q.send() })
			if j.p(30) {
				/* two services compete for the same request: one of them gets it */
				j.Go(func() { q.send() })
			}
		}
	}
	if !v.finish() {
		return
	}
	j.E("quiet")
}

// requests completed while they wait in the overflow of the queue are never handed to the worker
func scnOverflowCancel(j *J) {
	v := &svRun{j: j}
	j.E("cfg", "w", 1)
	gate := make(chan bool)
	base := 16*1024 + 2
	var fillers int32
	v.serv = iproto.BF{N: 1}.New(func(ctx *iproto.Context, req *iproto.Request) (iproto.RetCode, interface{}) {
		if req.Msg == 1 {
			<-gate
			return 0, nil
		}
		return v.handle(ctx, req)
	})
	fill := make([]iproto.Request, base)
	for i := range fill {
		fill[i].Msg = 1
		fill[i].Responder = iproto.Callback(func(*iproto.Response) { atomic.AddInt32(&fillers, 1) })
		v.serv.Send(&fill[i])
	}
	var qs []*svReq
	for i := 0; i < 6; i++ {
		q := v.newReq(hRet)
		q.send()
		qs = append(qs, q)
	}
	for _, q := range qs {
		q := q
		switch j.n(3) {
		case 0:
			q.fail(j.n(3))
		case 1:
			k := j.n(3)
			j.Go(func() { q.fail(k) })
		}
	}
	j.Go(func() { close(gate) })
	if !v.finish() {
		return
	}
	j.Quiesce("fill", func() bool { return int(atomic.LoadInt32(&fillers)) == base })
	j.E("quiet")
}
