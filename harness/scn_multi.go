package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func init() {
	reg(Scenario{Name: "multi", Files: []string{"wait_group.go"}, Spec: "TraceMulti", Props: []string{"M01"}, Run: func(j *J) { scnMulti(j, 0) }, Explore: true, First: 32, Weight: 4})
	reg(Scenario{Name: "multi.small", Files: []string{"wait_group.go"}, Spec: "TraceMulti", Props: []string{"M01"}, Run: func(j *J) { scnMulti(j, 1) }, Explore: true, First: 32, Weight: 5})
	reg(Scenario{Name: "multi.many", Files: []string{"wait_group.go"}, Spec: "TraceMulti", Props: []string{"M01"}, Run: func(j *J) { scnMulti(j, 2) }, Explore: true, First: 8, Weight: 1})
}

type muRun struct {
	j      *J
	R      sync.Mutex
	mu     sync.Mutex
	reqs   []*iproto.Request
	nop    int32
	killed int32
}

func (x *muRun) rnd(n int) int { x.R.Lock(); defer x.R.Unlock(); return x.j.R.Intn(n) }
func (x *muRun) nap() {
	if d := []int{0, 0, 20, 100, 300}[x.rnd(5)]; d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
}
func (x *muRun) try(p int, c iproto.RetCode, b string) {
	x.j.E("try", "p", p, "c", hex(uint32(c)), "b", b)
}

func (x *muRun) fail(p int, r *iproto.Request) {
	switch x.rnd(3) {
	case 0:
		x.try(p, iproto.RcTimeout, "")
		r.Expire()
	case 1:
		x.try(p, iproto.RcIOError, "")
		r.IOError()
	case 2:
		x.try(p, iproto.RcCanceled, "")
		r.Cancel()
	}
}

func scnMulti(j *J, size int) {
	x := &muRun{j: j}
	n := 0
	switch size {
	case 0:
		n = j.n(8)
	case 1:
		n = 1 + j.n(2)
	case 2:
		n = []int{15, 16, 17, 18, 31, 32, 33, 40, 70}[j.n(9)]
	}
	/* how it is created and ended */
	var mr *iproto.MultiRequest
	cx := &iproto.Context{}
	inctx := j.p(50)
	if inctx {
		mr = cx.NewMulti()
	} else {
		mr = &iproto.MultiRequest{}
	}
	nkill := 0
	if j.p(55) {
		nkill = 1 + j.n(2)
	}
	armed := j.p(15)
	if armed {
		j.E("arm")
		d := time.Duration(100+j.n(900)) * time.Microsecond
		if j.p(50) {
			mr.SetTimeout(d)
		} else {
			mr.TimeoutFrom(iproto.BF{Timeout: d}.New(nil))
		}
	}
	mayHold := nkill > 0 || armed
	/* 0 at once, 1 later, 2 service, 3 failed before it is sent, 4 failed when in flight, 5 never, 6 not sent and failed later */
	var bf *iproto.ParallelService
	codes := map[uint32]int{}
	bf = iproto.BF{N: 2}.New(func(c *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		x.mu.Lock()
		p := codes[uint32(r.Msg)]
		x.mu.Unlock()
		j.E("hs", "p", p)
		b := fmt.Sprintf("b%d", p)
		x.try(p, iproto.RetCode(p<<8), b)
		return iproto.RetCode(p << 8), iproto.Body(b)
	})
	codes[0] = 0
	for p := 0; p < n; p++ {
		codes[uint32(p)] = p
	}
	mode := j.n(4)
	fates := make([]int, n)
	for p := range fates {
		switch mode {
		case 0:
			fates[p] = 1
		case 1:
			fates[p] = j.n(2)
		default:
			fates[p] = j.n(7)
		}
		if fates[p] == 5 && !mayHold {
			fates[p] = 1
		}
	}
	kill := func(kind int) {
		o := atomic.AddInt32(&x.nop, 1)
		k := "c"
		if kind == 1 {
			k = "t"
		}
		via := "m"
		if kind >= 2 {
			via = "x"
		}
		j.E("kill", "o", o, "k", k, "via", via)
		switch kind {
		case 0:
			mr.Cancel()
		case 1:
			mr.Expire()
		case 2:
			cx.Cancel()
		case 3:
			cx.Expire()
		}
		un := []int{}
		x.mu.Lock()
		for p, r := range x.reqs {
			if !r.Performed() {
				un = append(un, p)
			}
		}
		j.E("killed", "o", o, "un", un)
		x.mu.Unlock()
		atomic.AddInt32(&x.killed, 1)
	}
	for i := 0; i < nkill; i++ {
		kind := j.n(2)
		if inctx {
			kind = j.n(4)
		}
		at := j.n(3)
		d := time.Duration(j.n(10)) * 30 * time.Microsecond
		_ = at
		j.Go(func() {
			time.Sleep(d)
			kill(kind)
		})
	}
	collected := int32(0)
	stream := j.p(50)
	naps := j.p(50)
	j.Go(func() {
		for p := 0; p < n; p++ {
			p := p
			code := iproto.RetCode(p << 8)
			f := fates[p]
			sf := iproto.SF(func(r *iproto.Request) {
				j.E("hs", "p", p)
				switch f {
				case 0:
					x.try(p, code, "s")
					r.Respond(code, iproto.Body("s"))
				case 1:
					j.Go(func() {
						x.nap()
						x.try(p, code, "l")
						r.Respond(code, iproto.Body("l"))
					})
				case 4:
					j.Go(func() { x.nap(); x.fail(p, r) })
				}
			})
			var serv iproto.Service = sf
			if f == 2 {
				serv = bf
			}
			j.E("issue")
			r := mr.Request(iproto.RequestType(p), iproto.Body("x"))
			x.mu.Lock()
			j.E("issued", "p", p, "id", r.Id, "ans", r.Performed(), "svc", f == 2)
			x.reqs = append(x.reqs, r)
			x.mu.Unlock()
			switch f {
			case 3:
				x.fail(p, r)
				sf.Send(r)
			case 6:
				j.Go(func() { x.nap(); x.fail(p, r) })
			default:
				serv.Send(r)
			}
			if naps {
				x.nap()
			}
		}
		x.nap()
		got := func(r *iproto.Response) {
			j.E("got", "p", r.Id, "c", hex(uint32(r.Code)), "b", string(r.Body))
		}
		if stream {
			j.E("collect", "how", "stream")
			for r := range mr.Each() {
				got(r)
			}
		} else {
			j.E("collect", "how", "list")
			for _, r := range mr.Results() {
				got(r)
			}
		}
		j.E("over")
		atomic.StoreInt32(&collected, 1)
	})
	if !j.Join() {
		return
	}
	if inctx {
		/* nothing of it is left in the context */
		j.Go(func() { cx.WaitAll() })
		if !j.Join() {
			return
		}
	}
	j.E("quiet")
}
