package main

import (
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/verifsched"
)

func init() {
	reg(Scenario{Name: "queue.small", Files: []string{"buffer.go", "service.go"}, Spec: "TraceQueue", Props: []string{"Q01"}, Run: func(j *J) { scnQueue(j, 0) }, Explore: true, First: 16, Weight: 2})
	reg(Scenario{Name: "queue.over", Files: []string{"buffer.go", "service.go"}, Spec: "TraceQueue", Props: []string{"Q01"}, Run: func(j *J) { scnQueue(j, 1) }, Explore: true, First: 40, Weight: 6})
	reg(Scenario{Name: "queue.again", Files: []string{"buffer.go", "service.go"}, Spec: "TraceQueue", Props: []string{"Q01"}, Run: func(j *J) { scnQueue(j, 2) }, Explore: true, First: 12, Weight: 1})
	reg(Scenario{Name: "queue.serial", Files: []string{"buffer.go", "service.go"}, Spec: "TraceQueue", Props: []string{"Q01"}, Run: func(j *J) { scnQueue(j, 3) }, Explore: true, First: 12, Weight: 1})
	reg(Scenario{Name: "queue.rows", Files: []string{"buffer.go", "service.go"}, Spec: "TraceQueue", Props: []string{"Q01"}, Run: func(j *J) { scnQueueRows(j) }, Explore: true, First: 16, Weight: 2})
}

const chanDepth = 16 * 1024

// quPoint is a service whose workers are under the control of the run.
type quPoint struct {
	iproto.SimplePoint
	x *quRun
}

func (p *quPoint) Loop() {
	<-p.ExitChan()
}

type quReq struct {
	s, n int
	req  *iproto.Request
}
type quRun struct {
	j        *J
	serv     iproto.EndPoint
	mu       sync.Mutex
	next     [9]int
	bulkTo   [9]int /* received numbers up to this one make intervals */
	runA     [9]int
	runB     [9]int
	dead     map[[2]int]bool
	top      int
	answered int32
	all      []*quReq
}

func (x *quRun) Respond(res *iproto.Response) { atomic.AddInt32(&x.answered, 1) }

func (x *quRun) mk(s int) *quReq {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.next[s]++
	q := &quReq{s: s, n: x.next[s]}
	q.req = &iproto.Request{Id: uint32(s)<<24 | uint32(q.n), Msg: 1, Responder: x}
	x.all = append(x.all, q)
	return q
}

func (x *quRun) send(s int) *quReq {
	q := x.mk(s)
	x.j.E("snd", "s", s, "a", q.n, "b", q.n)
	x.serv.Send(q.req)
	x.j.E("sent", "s", s, "b", q.n)
	return q
}

// fill sends many.
func (x *quRun) fill(s, n int) {
	a := x.next[s]
	x.j.E("snd", "s", s, "a", a+1, "b", a+n)
	x.mu.Lock()
	x.bulkTo[s] = a + n - 30
	x.mu.Unlock()
	for k := 0; k < n; k++ {
		x.serv.Send(x.mk(s).req)
	}
	x.j.E("sent", "s", s, "b", a+n)
}

func (x *quRun) flush(w, s int) {
	if x.runA[s] > 0 {
		x.j.E("bulk", "w", w, "s", s, "a", x.runA[s], "b", x.runB[s])
		x.runA[s] = 0
	}
}

// recv: worker w has the request.
func (x *quRun) recv(w int, r *iproto.Request) {
	s, n := int(r.Id>>24), int(r.Id&0xffffff)
	x.mu.Lock()
	if n <= x.bulkTo[s] {
		if x.runA[s] > 0 && n == x.runB[s]+1 {
			x.runB[s] = n
		} else {
			x.flush(w, s)
			x.runA[s], x.runB[s] = n, n
		}
		if n == x.bulkTo[s] {
			x.flush(w, s)
		}
	} else {
		x.flush(w, s)
		x.j.E("rcv", "w", w, "s", s, "n", n)
	}
	if s == 1 {
		x.top = n
	}
	x.mu.Unlock()
}

func (x *quRun) kill(q *quReq, how int) {
	x.j.E("dead", "s", q.s, "n", q.n)
	switch how {
	case 0:
		q.req.Cancel()
	case 1:
		q.req.Expire()
	case 2:
		q.req.RespondFail(0x1234)
	}
}

func scnQueue(j *J, size int) {
	x := &quRun{j: j, dead: map[[2]int]bool{}}
	serial := size == 3
	gate := make(chan bool)
	if serial {
		bf := iproto.BF{N: 1}.New(func(c *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
			<-gate
			x.recv(1, r)
			return iproto.RcOK, nil
		})
		x.serv = bf
	} else {
		p := &quPoint{x: x}
		p.SimplePoint.Init(p)
		p.Run(nil)
		x.serv = p
	}
	rounds := 1
	if size == 2 {
		rounds = 2
	}
	var opened bool
	stop := make(chan bool)
	var workers sync.WaitGroup
	napTill := int64(0)
	take := func(w int) {
		p := x.serv.(*quPoint)
		for {
			select {
			case r := <-p.ReceiveChan():
				x.recv(w, r)
				if r.SetInFly(nil) {
					r.RespondBytes(iproto.RcOK, nil)
				}
				if k := atomic.LoadInt64(&napTill); k > 0 && r.Id&0xffffff > uint32(k) {
					time.Sleep(20 * time.Microsecond)
				}
			case <-stop:
				return
			}
		}
	}
	nw := 1
	open := func() {
		if opened {
			return
		}
		opened = true
		close(gate)
		if !serial {
			workers.Add(1)
			go func() { defer workers.Done(); take(1) }()
		}
	}
	for round := 0; round < rounds; round++ {
		if size > 0 {
			n := chanDepth + []int{-6, -2, -1, 0, 1, 2, 5, 40, 1019, 1022, 1023, 1024, 1025, 2047, 2049, 2060, 3100}[j.n(17)]
			if opened {
				/* the worker empties it meanwhile */
				atomic.StoreInt64(&napTill, int64(x.next[1]+10))
			}
			x.fill(1, n)
			atomic.StoreInt64(&napTill, 0)
			verifsched.Start(j.P, 0, 0)
		}
		/* some of the queued ones are completed */
		var cand []*quReq
		if size > 0 && j.p(60) {
			base := len(x.all)
			for k := j.n(6); k >= 0; k-- {
				q := x.all[base-1-j.n(60)]
				if q.n != x.bulkTo[1] && !x.dead[[2]int{q.s, q.n}] {
					x.dead[[2]int{q.s, q.n}] = true
					cand = append(cand, q)
				}
			}
		}
		when := j.n(4) /* workers open: before, with, after the senders; with two workers at the end */
		ns := 1 + j.n(3)
		nm := 1 + j.n(10)
		naps := make([]int, 64)
		for k := range naps {
			naps[k] = j.n(6) * j.n(30)
		}
		kills := make([]int, 64)
		for k := range kills {
			kills[k] = j.n(12)
		}
		if when == 0 {
			open()
		}
		for s := 1; s <= ns; s++ {
			s := s
			j.Go(func() {
				for k := 0; k < nm; k++ {
					q := x.send(s)
					if h := kills[(s*17+k)%64]; h < 3 {
						x.kill(q, h)
					}
					if d := naps[(s*13+k)%64]; d > 0 && size != 2 {
						time.Sleep(time.Duration(d) * time.Microsecond)
					}
				}
			})
		}
		if len(cand) > 0 {
			j.Go(func() {
				for k, q := range cand {
					x.kill(q, k%3)
					time.Sleep(time.Duration(naps[k]) * time.Microsecond)
				}
			})
		}
		if when == 1 {
			open()
		}
		if when >= 2 && !opened {
			/* senders do not wait for workers */
			if !j.Join() {
				return
			}
		}
		open()
		if j.p(40) && !serial && round == rounds-1 &&
			/* another worker, once the many are gone */
			j.Until(500*time.Millisecond, func() bool { x.mu.Lock(); defer x.mu.Unlock(); return x.top >= x.bulkTo[1] }) {
			nw++
			w := nw
			workers.Add(1)
			go func() { defer workers.Done(); take(w) }()
		}
		if !j.Join() {
			return
		}
		/* everything is answered in the end */
		n := int32(len(x.all))
		if !j.Until(hangLimit, func() bool { return atomic.LoadInt32(&x.answered) >= n }) {
			break
		}
	}
	time.Sleep(300 * time.Microsecond)
	close(stop)
	workers.Wait()
	x.mu.Lock()
	for s := range x.runA {
		x.flush(1, s)
	}
	x.mu.Unlock()
	j.E("quiet")
	x.serv.Stop()
}

// scnQueueRows: several senders go through rows of the elastic part while it is emptied.
func scnQueueRows(j *J) {
	x := &quRun{j: j, dead: map[[2]int]bool{}}
	p := &quPoint{x: x}
	p.SimplePoint.Init(p)
	p.Run(nil)
	x.serv = p
	x.fill(1, chanDepth+[]int{0, 1, 500, 1020, 1023, 1024, 2040}[j.n(7)])
	verifsched.Start(j.P, 0, 0)
	stop := make(chan bool)
	var worker sync.WaitGroup
	open := func() {
		worker.Add(1)
		go func() {
			defer worker.Done()
			for {
				select {
				case r := <-p.ReceiveChan():
					x.recv(1, r)
					if r.SetInFly(nil) {
						r.RespondBytes(iproto.RcOK, nil)
					}
				case <-stop:
					return
				}
			}
		}()
	}
	early := j.p(60)
	if early {
		open()
	}
	for s := 2; s <= 2+j.n(3); s++ {
		s, n, few := s, 1000+j.n(2200), j.n(8)
		j.Go(func() {
			for k := 0; k < few; k++ {
				x.send(s)
			}
			x.fill(s, n)
			for k := 0; k < few; k++ {
				x.send(s)
			}
		})
	}
	few := 1 + j.n(6)
	j.Go(func() {
		for k := 0; k < few; k++ {
			x.send(1)
		}
	})
	if !j.Join() {
		return
	}
	if !early {
		open()
	}
	n := int32(len(x.all))
	j.Until(hangLimit, func() bool { return atomic.LoadInt32(&x.answered) >= n })
	time.Sleep(300 * time.Microsecond)
	close(stop)
	worker.Wait()
	x.mu.Lock()
	for s := range x.runA {
		x.flush(1, s)
	}
	x.mu.Unlock()
	j.E("quiet")
	x.serv.Stop()
}
