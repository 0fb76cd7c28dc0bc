package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
)

func init() {
	reg(Scenario{Name: "route.balancer", Spec: "TraceRoute", Props: []string{"A01"}, Files: []string{"balancer.go", "service.go"}, Run: scnBalancer, Explore: true, First: 32, Weight: 4})
	reg(Scenario{Name: "route.stat", Spec: "TraceRoute", Props: []string{"A01"}, Files: []string{"stat.go", "request.go", "service.go"}, Run: scnStat, Explore: true, First: 24, Weight: 3})
	reg(Scenario{Name: "route.auto", Spec: "TraceRoute", Props: []string{"A01"}, Files: []string{"net/client/auto.go"}, Run: scnAuto, Explore: true, First: 24, Weight: 3})
}

type roRun struct {
	j    *J
	mu   sync.Mutex
	reqs []*roReq
	serv iproto.Service
	nDel int32
	R    []int /* prepared random numbers */
	ri   int32
}
type roReq struct {
	x    *roRun
	n    int
	req  *iproto.Request
	sent time.Time
}

func (x *roRun) rnd(n int) int {
	return x.R[int(atomic.AddInt32(&x.ri, 1))%len(x.R)] % n
}
func newRo(j *J) *roRun {
	x := &roRun{j: j}
	for k := 0; k < 256; k++ {
		x.R = append(x.R, j.n(1<<20))
	}
	return x
}
func (q *roReq) Respond(res *iproto.Response) {
	q.x.j.E("del", "r", q.n, "c", hex(uint32(res.Code)), "b", bodyHex(res.Body))
	atomic.AddInt32(&q.x.nDel, 1)
}
func (x *roRun) newReq() *roReq {
	x.mu.Lock()
	defer x.mu.Unlock()
	q := &roReq{x: x, n: len(x.reqs) + 1}
	q.req = &iproto.Request{Id: uint32(q.n), Msg: 3, Body: iproto.Body(fmt.Sprintf("q%d", q.n)), Responder: q}
	x.reqs = append(x.reqs, q)
	return q
}
func (x *roRun) send() *roReq {
	q := x.newReq()
	x.j.E("snd", "r", q.n, "early", false)
	x.serv.Send(q.req)
	return q
}
func (x *roRun) try(n int, c uint32, b []byte) {
	x.j.E("try", "r", n, "c", hex(c), "b", bodyHex(b))
}
func (x *roRun) answer(r *iproto.Request) {
	c, b := uint32(r.Id)<<4, []byte(fmt.Sprintf("a%d", r.Id))
	switch x.rnd(6) {
	case 0:
		c = uint32(iproto.RcTimeout)
		x.try(int(r.Id), c, nil)
		r.Expire()
		return
	case 1:
		b = nil
	}
	x.try(int(r.Id), c, b)
	r.RespondBytes(iproto.RetCode(c), b)
}

// roKid is a child of a balancer.
type roKid struct {
	iproto.SimplePoint
	x    *roRun
	k    int
	gate chan bool
	left int32
}

func (c *roKid) Loop() {
	for {
		select {
		case <-c.ExitChan():
			atomic.StoreInt32(&c.left, 1)
			return
		case r := <-c.ReceiveChan():
			if r.SetInFly(nil) {
				c.x.j.E("take", "k", c.k, "r", int(r.Id))
				if c.gate != nil {
					<-c.gate
				}
				if d := c.x.rnd(5); d == 0 {
					go c.x.answer(r)
				} else {
					if d == 1 {
						time.Sleep(100 * time.Microsecond)
					}
					c.x.answer(r)
				}
			}
		}
	}
}

func scnBalancer(j *J) {
	x := newRo(j)
	b := &iproto.BalancerPoint{}
	b.Init()
	nk := 1 + j.n(4)
	var kids []*roKid
	mk := func() *roKid {
		c := &roKid{x: x, k: len(kids) + 1}
		c.SimplePoint.Init(c)
		kids = append(kids, c)
		return c
	}
	add := func(c *roKid) {
		j.E("kid", "k", c.k)
		b.AddChild(c)
	}
	for k := 0; k < nk; k++ {
		mk()
	}
	/* a child that got stuck does not stop others */
	var stuck *roKid
	if nk > 1 && j.p(30) {
		stuck = kids[j.n(nk)]
		stuck.gate = make(chan bool)
	}
	early := 0
	if j.p(80) {
		early = j.n(nk + 1)
	}
	if early == 0 && (stuck != nil || j.p(50)) {
		early = 1
	}
	for _, c := range kids[:early] {
		add(c)
	}
	x.serv = b
	iproto.Run(b)
	stopping := j.p(50)
	nr := 1 + j.n(8)
	ns := 1 + j.n(3)
	for s := 0; s < ns; s++ {
		j.Go(func() {
			for k := 0; k < nr; k++ {
				x.send()
				if x.rnd(4) == 0 {
					time.Sleep(time.Duration(x.rnd(200)) * time.Microsecond)
				}
			}
		})
	}
	if early < nk {
		late := append([]*roKid{}, kids[early:]...)
		j.Go(func() {
			for _, c := range late {
				time.Sleep(time.Duration(x.rnd(200)) * time.Microsecond)
				add(c)
			}
		})
	}
	/* one of them stops, while at least one goes on */
	if early > 1 && j.p(40) {
		c := kids[j.n(early)]
		ok := false
		for _, o := range kids[:early] {
			if o != c && o != stuck {
				ok = true
			}
		}
		if ok {
			j.Go(func() {
				time.Sleep(time.Duration(x.rnd(200)) * time.Microsecond)
				j.E("stopkid", "k", c.k)
				c.Stop()
			})
		}
	} else if stuck != nil && early == 1 && kids[0] == stuck {
		/* somebody has to work */
		c := mk()
		add(c)
	}
	if stopping {
		j.Go(func() {
			time.Sleep(time.Duration(x.rnd(400)) * time.Microsecond)
			j.E("stop")
			b.Stop()
			j.E("stopped")
			if x.rnd(2) == 0 {
				x.send()
			}
		})
	}
	if !j.Join() {
		return
	}
	all := func(d int32) func() bool {
		return func() bool { return atomic.LoadInt32(&x.nDel)+d >= int32(len(x.reqs)) }
	}
	if stuck != nil {
		/* all but at most one */
		j.Until(hangLimit, all(1))
		close(stuck.gate)
	}
	j.Until(hangLimit, all(0))
	j.E("quiet")
	if !stopping {
		b.Stop()
	}
}

func scnStat(j *J) {
	x := newRo(j)
	j.E("wrap")
	var inner iproto.Service
	switch kind := j.n(5); kind {
	case 0:
		inner = iproto.SF(func(r *iproto.Request) {
			j.E("take", "k", 0, "r", int(r.Id))
			x.answer(r)
		})
	case 1:
		inner = iproto.SF(func(r *iproto.Request) {
			j.E("take", "k", 0, "r", int(r.Id))
			go x.answer(r)
		})
	case 2, 3:
		inner = iproto.BF{N: kind - 1}.New(func(c *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
			j.E("take", "k", 0, "r", int(r.Id))
			b := iproto.Body(fmt.Sprintf("a%d", r.Id))
			if x.rnd(6) == 0 {
				x.try(int(r.Id), uint32(iproto.RcInternalError), nil)
				if x.rnd(2) == 0 {
					panic("x")
				}
				runtime.Goexit()
			}
			x.try(int(r.Id), r.Id<<4, b)
			return iproto.RetCode(r.Id << 4), b
		})
	case 4:
		inner = iproto.Route(func(r *iproto.Request) {
			if r.SetPending() && r.SetInFly(nil) {
				j.E("take", "k", 0, "r", int(r.Id))
				x.answer(r)
			}
		})
	}
	x.serv = iproto.StatWrap(inner, func(r *iproto.Request, d time.Duration) {
		n := 0
		if r != nil {
			n = int(r.Id)
		}
		j.E("stat", "r", n, "d", int64(d/time.Microsecond))
	})
	if x.serv.DefaultTimeout() != inner.DefaultTimeout() || x.serv.Runned() != inner.Runned() {
		j.Hang("wrapper is not transparent")
	}
	nr, ns := 1+j.n(6), 1+j.n(3)
	for s := 0; s < ns; s++ {
		j.Go(func() {
			for k := 0; k < nr; k++ {
				q := x.newReq()
				fate := x.rnd(8)
				j.E("snd", "r", q.n, "early", fate == 0)
				switch fate {
				case 0: /* completed meanwhile, perhaps before it is sent */
					done := make(chan bool)
					go func() {
						x.try(q.n, uint32(iproto.RcCanceled), nil)
						q.req.Cancel()
						close(done)
					}()
					if x.rnd(2) == 0 {
						time.Sleep(50 * time.Microsecond)
					}
					x.serv.Send(q.req)
					<-done
				case 1:
					x.serv.Send(q.req)
					x.try(q.n, uint32(iproto.RcIOError), nil)
					q.req.IOError()
				default:
					x.serv.Send(q.req)
				}
			}
		})
	}
	if !j.Join() {
		return
	}
	j.Until(hangLimit, func() bool { return atomic.LoadInt32(&x.nDel) >= int32(len(x.reqs)) })
	j.E("quiet")
}

func scnAuto(j *J) {
	dir, err := os.MkdirTemp("", "a")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	na := 1 + j.n(6)
	var servs []*server.Server
	live := j.p(60)
	for a := 0; a < na && live; a++ {
		a := a
		conf := server.Config{Network: "unix", Address: filepath.Join(dir, fmt.Sprint(a)), EndPoint: iproto.SF(func(r *iproto.Request) {
			r.Respond(iproto.RcOK, uint32(a))
		})}
		s := conf.NewServer()
		if err := s.Run(); err != nil {
			panic(err)
		}
		servs = append(servs, s)
	}
	auto := &client.Auto{Config: &client.ServerConfig{Network: "unix", Connections: 1, Timeout: 5 * time.Second}}
	ids := map[*client.Server]int{}
	var mu sync.Mutex
	id := func(s *client.Server) int {
		mu.Lock()
		defer mu.Unlock()
		if s == nil {
			return 0
		}
		if ids[s] == 0 {
			ids[s] = len(ids) + 1
		}
		return ids[s]
	}
	var no int32
	rounds := 1 + j.n(2)
	for round := 0; round < rounds; round++ {
		np := 2 + j.n(4)
		for p := 0; p < np; p++ {
			var as []int
			for k := 0; k <= j.n(3); k++ {
				as = append(as, j.n(na))
			}
			ask := live && j.p(50)
			j.Go(func() {
				for _, a := range as {
					o := int(atomic.AddInt32(&no, 1))
					j.E("get", "o", o, "a", a)
					s := auto.Get(filepath.Join(dir, fmt.Sprint(a)))
					j.E("got", "o", o, "a", a, "s", id(s))
					if ask {
						r := iproto.CallMsgBody(s, 1, iproto.Body("x"))
						if r.Code == iproto.RcOK {
							var n uint32
							r.Body.Read(&n)
							j.E("reached", "a", a, "n", int(n))
						}
					}
				}
			})
		}
		if !j.Join() {
			return
		}
		auto.Stop()
		j.E("forget")
	}
	for _, s := range servs {
		s.Stop()
	}
}
