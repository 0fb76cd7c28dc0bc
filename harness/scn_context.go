package main

import (
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func init() {
	both := []string{"C01", "C02"}
	reg(Scenario{Name: "ctx.tree", Files: []string{"context.go", "request.go"}, Spec: "TraceContext", Props: both, Run: func(j *J) { scnContext(j, false) }, Explore: true, First: 24, Weight: 4})
	reg(Scenario{Name: "ctx.served", Files: []string{"context.go", "request.go"}, Spec: "TraceContext", Props: both, Run: func(j *J) { scnContext(j, true) }, Explore: true, First: 12, Weight: 2})
	reg(Scenario{Name: "ctx.race", Files: []string{"context.go", "request.go"}, Spec: "TraceContext", Props: both, Run: scnContextRace, Explore: true, First: 24, Weight: 3})
	reg(Scenario{Name: "ctx.waiters", Files: []string{"context.go", "request.go"}, Spec: "TraceContext", Props: []string{"C02"}, Run: scnContextWaiters, Explore: true, First: 12, Weight: 3})
}

const (
	fSF    = iota /* answered at once */
	fLater        /* answered by another goroutine */
	fBF           /* answered by a parallel service */
	fFail         /* failed by another goroutine */
	fHeld         /* in flight till it is cancelled */
	fNew          /* never sent */
	fMax
)

type cxNode struct {
	id     int
	c      *iproto.Context
	par    *cxNode
	known  bool
	killed bool
	svc    *iproto.Request /* of the service the context belongs to */
	reqs   []*cxReq        /* of this context, for the owner */
	rs     []int           /* logged things, under the lock of the run */
	cs     []int
	ms     []int
}

type cxReq struct {
	n    int
	cx   *cxNode
	fate int
	code iproto.RetCode
	req  *iproto.Request
	res  <-chan *iproto.Response
	o    int
}

type cxRun struct {
	j      *J
	mu     sync.Mutex
	R      sync.Mutex
	nid    int
	reqs   map[int]*cxReq /* by body */
	made   []*cxReq
	nodes  []*cxNode
	bf     *iproto.ParallelService
	held   bool
	closed bool
	soft   map[int]bool /* tasks that may not run */
	ops    int
}

func (x *cxRun) rnd(n int) int { x.R.Lock(); defer x.R.Unlock(); return x.j.R.Intn(n) }
func (x *cxRun) pct(n int) bool {
	return x.rnd(100) < n
}
func (x *cxRun) id() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.nid++
	return x.nid
}

func newCxRun(j *J) *cxRun {
	x := &cxRun{j: j, reqs: map[int]*cxReq{}, soft: map[int]bool{}}
	x.bf = iproto.BF{N: 2}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		q := x.find(r)
		x.hs(q)
		x.try(q, q.code, "b")
		return q.code, iproto.Body("b")
	})
	return x
}

func (x *cxRun) find(r *iproto.Request) *cxReq {
	n, _ := strconv.Atoi(string(r.Body))
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.reqs[n]
}
func (x *cxRun) hs(q *cxReq) {
	if q.o != 0 {
		x.j.E("hs", "r", q.n, "o", q.o)
	} else {
		x.j.E("hs", "r", q.n)
	}
}
func (x *cxRun) try(q *cxReq, c iproto.RetCode, b string) {
	x.j.E("try", "r", q.n, "c", hex(uint32(c)), "b", b)
}

// serve is what happens to a request that is sent
func (x *cxRun) serve(q *cxReq) iproto.Service {
	if q.fate == fBF {
		return x.bf
	}
	return iproto.SF(func(r *iproto.Request) {
		x.hs(q)
		switch q.fate {
		case fSF:
			x.try(q, q.code, "s")
			r.Respond(q.code, iproto.Body("s"))
		case fLater:
			x.j.Go(func() {
				x.nap()
				x.try(q, q.code, "l")
				r.Respond(q.code, iproto.Body("l"))
			})
		case fFail:
			x.j.Go(func() {
				x.nap()
				x.fail(q, r)
			})
		}
	})
}

func (x *cxRun) fail(q *cxReq, r *iproto.Request) {
	switch x.rnd(3) {
	case 0:
		x.try(q, iproto.RcTimeout, "")
		r.Expire()
	case 1:
		x.try(q, iproto.RcIOError, "")
		r.IOError()
	case 2:
		x.try(q, iproto.RcCanceled, "")
		r.Cancel()
	}
}

func (x *cxRun) nap() {
	switch x.rnd(4) {
	case 0:
	case 1:
		time.Sleep(20 * time.Microsecond)
	case 2:
		time.Sleep(100 * time.Microsecond)
	case 3:
		time.Sleep(400 * time.Microsecond)
	}
}

func (x *cxRun) node(c *iproto.Context, par *cxNode) *cxNode {
	n := &cxNode{id: x.id(), c: c, par: par}
	x.mu.Lock()
	x.nodes = append(x.nodes, n)
	x.mu.Unlock()
	return n
}

func (x *cxRun) request(n *cxNode) *cxReq {
	max := fMax
	if !x.held {
		max = fHeld
	}
	q := &cxReq{n: x.id(), cx: n, fate: x.rnd(max)}
	q.code = iproto.RetCode(q.n << 8)
	x.mu.Lock()
	x.reqs[q.n] = q
	x.mu.Unlock()
	body := iproto.Body(strconv.Itoa(q.n))
	o := x.id()
	x.j.E("begin", "o", o, "c", n.id)
	how := x.rnd(5)
	if how >= 3 && (q.fate == fNew || q.fate == fHeld || how == 4 && q.fate == fBF) {
		how = 0
	}
	switch how {
	default:
		q.req, q.res = n.c.NewRequest(5, body)
	case 2:
		q.o = o
		q.req, q.res = n.c.SendMsgBody(x.serve(q), 5, body)
	case 3, 4:
		q.o = o
		res := n.c.CallMsgBody(x.serve(q), 5, body)
		x.j.E("called", "o", o, "r", q.n, "c", n.id, "code", hex(uint32(res.Code)), "b", string(res.Body))
		return q
	}
	x.mu.Lock()
	x.j.E("req", "o", o, "r", q.n, "c", n.id, "ans", len(q.res) > 0, "sent", how == 2)
	n.rs = append(n.rs, q.n)
	x.made = append(x.made, q)
	x.mu.Unlock()
	n.reqs = append(n.reqs, q)
	if how < 2 && q.fate != fNew {
		if x.pct(20) {
			x.nap()
		}
		x.serve(q).Send(q.req)
	}
	return q
}

func (x *cxRun) look(n *cxNode) {
	o := x.id()
	x.j.E("look", "o", o, "c", n.id)
	timeout := false
	alive := n.c.Alive()
	if !alive {
		timeout = n.c.Timeout()
	}
	x.j.E("seen", "o", o, "c", n.id, "alive", alive, "timeout", timeout)
}

func (x *cxRun) kill(n *cxNode, k int) {
	o := x.id()
	x.mu.Lock()
	n.killed = true
	x.j.E("kill", "o", o, "c", n.id, "k", []string{"c", "t"}[k])
	x.mu.Unlock()
	switch {
	case n.svc != nil && k == 0:
		n.svc.Cancel()
	case n.svc != nil:
		n.svc.Expire()
	case k == 0:
		n.c.Cancel()
	default:
		n.c.Expire()
	}
	un := []int{}
	x.mu.Lock()
	for _, q := range x.made {
		if len(q.res) == 0 {
			un = append(un, q.n)
		}
	}
	x.j.E("killed", "o", o, "un", un)
	x.mu.Unlock()
}

func (x *cxRun) waitAll(n *cxNode) {
	o := x.id()
	x.mu.Lock()
	x.j.E("wait", "o", o, "c", n.id, "rs", append([]int{}, n.rs...), "cs", append([]int{}, n.cs...), "ms", append([]int{}, n.ms...))
	x.mu.Unlock()
	n.c.WaitAll()
	x.j.E("waited", "o", o)
}

func (x *cxRun) multi(n *cxNode) {
	o, m := x.id(), x.id()
	x.j.E("begin", "o", o, "c", n.id)
	mr := n.c.NewMulti()
	x.mu.Lock()
	x.j.E("multi", "o", o, "m", m, "c", n.id)
	n.ms = append(n.ms, m)
	x.mu.Unlock()
	k := x.rnd(4)
	for i := 0; i < k; i++ {
		later := x.pct(60)
		mr.SendMsgBody(iproto.SF(func(r *iproto.Request) {
			x.j.E("mran", "m", m)
			if later {
				x.j.Go(func() { x.nap(); r.Respond(0, nil) })
			} else {
				r.Respond(0, nil)
			}
		}), 5, iproto.Body("0"))
	}
	x.nap()
	x.j.E("collect", "m", m)
	codes := []string{}
	if x.pct(50) {
		for _, res := range mr.Results() {
			codes = append(codes, hex(uint32(res.Code)))
		}
	} else {
		for res := range mr.Each() {
			codes = append(codes, hex(uint32(res.Code)))
		}
	}
	x.j.E("mgot", "m", m, "codes", codes)
}

// finish leaves nothing unanswered behind
func (x *cxRun) finish(n *cxNode) {
	for _, q := range n.reqs {
		if (q.fate == fHeld || q.fate == fNew) && len(q.res) == 0 {
			if n.par != nil && x.pct(40) {
				x.kill(n, x.rnd(2))
				return
			}
			x.try(q, iproto.RcCanceled, "")
			q.req.Cancel()
		}
	}
}

func (x *cxRun) actor(n *cxNode, depth int) {
	j := x.j
	for k := 1 + x.rnd(5); k > 0; k-- {
		x.mu.Lock()
		x.ops++
		much := x.ops > 40
		x.mu.Unlock()
		if much {
			break
		}
		switch op := x.rnd(100); {
		case op < 35:
			x.request(n)
		case op < 40:
			for i := 17; i > 0; i-- {
				x.request(n)
			}
		case op < 52 && depth < 3:
			o := x.id()
			j.E("begin", "o", o, "c", n.id)
			c, ok := n.c.Child()
			ch := x.node(c, n)
			x.mu.Lock()
			j.E("child", "o", o, "c", ch.id, "p", n.id, "ok", ok)
			ch.known = true
			n.cs = append(n.cs, ch.id)
			x.mu.Unlock()
			j.Go(func() {
				x.actor(ch, depth+1)
				x.nap()
				x.finish(ch)
				j.E("fin", "c", ch.id)
				ch.c.Done()
			})
		case op < 75 && depth < 3:
			x.task(n, depth)
		case op < 80:
			x.multi(n)
		case op < 90:
			x.look(n)
		case op < 95:
			j.Go(func() { x.waitAll(n) })
		default:
			x.nap()
		}
	}
	if x.pct(30) {
		x.nap()
		x.look(n)
	}
}

func (x *cxRun) task(n *cxNode, depth int) {
	j := x.j
	o := x.id()
	ch := x.node(nil, n)
	kind, leave := x.rnd(4), x.pct(8)
	f := func(c *iproto.Context) {
		x.mu.Lock()
		ch.c = c
		if x.closed {
			/* the trace is over, and this was started in a context being cancelled */
			x.mu.Unlock()
			if kind >= 2 {
				c.Done()
			}
			return
		}
		j.E("ts", "k", o, "c", ch.id, "p", n.id)
		x.mu.Unlock()
		x.actor(ch, depth+1)
		x.finish(ch)
		j.E("te", "k", o)
		if kind >= 2 {
			c.Done()
		} else if leave {
			runtime.Goexit()
		}
	}
	fi := func(c *iproto.Context, i interface{}) {
		if i.(int) != o {
			j.E("wrong")
		}
		f(c)
	}
	j.E("begin", "o", o, "c", n.id)
	var c *iproto.Context
	switch kind {
	case 0:
		c = n.c.Go(f)
	case 1:
		c = n.c.GoInt(fi, o)
	case 2:
		c = n.c.GoAsync(f)
	case 3:
		c = n.c.GoIntAsync(fi, o)
	}
	x.mu.Lock()
	ch.c = c
	for p := n; p != nil; p = p.par {
		if p.killed {
			x.soft[o] = true
		}
	}
	j.E("task", "k", o, "c", ch.id, "p", n.id)
	ch.known = true
	n.cs = append(n.cs, ch.id)
	x.mu.Unlock()
}

// quiet collects all answers
func (x *cxRun) quiet() bool {
	j := x.j
	if !j.Join() {
		return false
	}
	ok := j.Quiesce("answers", func() bool {
		x.mu.Lock()
		defer x.mu.Unlock()
		for _, q := range x.made {
			if len(q.res) == 0 {
				return false
			}
		}
		return true
	})
	if !ok {
		return false
	}
	for _, q := range x.made {
		res := <-q.res
		j.E("got", "r", q.n, "c", hex(uint32(res.Code)), "b", string(res.Body))
	}
	time.Sleep(50 * time.Microsecond)
	for _, q := range x.made {
		if len(q.res) != 0 {
			res := <-q.res
			j.E("got", "r", q.n, "c", hex(uint32(res.Code)), "b", string(res.Body))
		}
	}
	j.E("quiet")
	return true
}

func scnContext(j *J, served bool) {
	x := newCxRun(j)
	x.held = j.p(60)
	nkill := j.n(3)
	if x.held && nkill == 0 {
		nkill = 1
	}
	var root *cxNode
	ready := make(chan bool)
	var finish func()
	var killers int32 = int32(nkill)
	if served {
		req := &iproto.Request{Msg: 9, Responder: iproto.Callback(func(*iproto.Response) {})}
		serv := iproto.BF{N: 1}.New(func(c *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
			root = x.node(c, nil)
			root.svc = req
			j.E("root", "c", root.id)
			close(ready)
			x.actor(root, 0)
			j.Until(hangLimit, func() bool { return atomic.LoadInt32(&killers) <= 0 })
			x.finish(root)
			finish()
			return 0, nil
		})
		over := make(chan bool)
		finish = func() { close(over) }
		j.Go(func() { <-over })
		serv.Send(req)
		<-ready
	} else {
		root = x.node(&iproto.Context{}, nil)
		j.E("root", "c", root.id)
		j.Go(func() {
			x.actor(root, 0)
			j.Until(hangLimit, func() bool { return atomic.LoadInt32(&killers) <= 0 })
			x.finish(root)
		})
		close(ready)
	}
	for i := 0; i < nkill; i++ {
		k := x.rnd(2)
		d := time.Duration(x.rnd(6)) * 60 * time.Microsecond
		j.Go(func() {
			time.Sleep(d)
			n := root
			if x.pct(40) {
				r := x.rnd(1 << 20)
				x.mu.Lock()
				if c := x.nodes[r%len(x.nodes)]; c.known {
					n = c
				}
				x.mu.Unlock()
			}
			x.kill(n, k)
			if x.pct(50) {
				x.look(n)
			}
			atomic.AddInt32(&killers, -1)
		})
	}
	if !x.tasksOver() {
		return
	}
	j.Go(func() { x.waitAll(root) })
	x.quiet()
}

// tasksOver waits for the tree to be finished
func (x *cxRun) tasksOver() bool {
	if !x.j.Join() {
		return false
	}
	grace := wait(3 * time.Millisecond)
	seen := -1
	over := func() bool {
		if atomic.LoadInt64(&x.j.open) != 0 {
			return false
		}
		x.mu.Lock()
		defer x.mu.Unlock()
		x.j.mu.Lock()
		defer x.j.mu.Unlock()
		/* nothing may have happened between the looks at goroutines and at tasks */
		same := len(x.j.ev) == seen && atomic.LoadInt64(&x.j.open) == 0
		seen = len(x.j.ev)
		state := map[int]int{}
		soft, hard := 0, 0
		for _, e := range x.j.ev {
			switch e["e"] {
			case "task":
				if k := e["k"].(int); state[k] == 0 {
					state[k] = 1
				}
			case "ts":
				state[e["k"].(int)] = 2
			case "te":
				state[e["k"].(int)] = 3
			}
		}
		for k, s := range state {
			if s == 1 && x.soft[k] {
				soft++
			} else if s < 3 {
				hard++
			}
		}
		if same && hard == 0 && (soft == 0 || grace.over()) {
			x.closed = true
			return true
		}
		return false
	}
	if !x.j.Quiesce("tasks", over) {
		return false
	}
	return true
}

// creation races with killing
func scnContextRace(j *J) {
	x := newCxRun(j)
	x.held = true
	root := x.node(&iproto.Context{}, nil)
	j.E("root", "c", root.id)
	n := root
	if j.p(50) {
		o := x.id()
		j.E("begin", "o", o, "c", root.id)
		c, ok := root.c.Child()
		n = x.node(c, root)
		j.E("child", "o", o, "c", n.id, "p", root.id, "ok", ok)
		root.cs = append(root.cs, n.id)
	}
	kind := j.n(4)
	var killers int32 = 1
	if j.p(40) {
		for i := j.n(4); i > 0; i-- {
			x.request(n)
		}
	}
	j.Go(func() {
		switch kind {
		case 0, 1:
			x.request(n)
		case 2:
			x.task(n, 3)
		case 3:
			x.multi(n)
		}
		if j.p(30) {
			x.request(n)
		}
		if n != root {
			if x.pct(50) {
				j.Until(hangLimit, func() bool { return !n.c.Alive() })
			}
			x.finish(n)
			j.E("fin", "c", n.id)
			n.c.Done()
		} else {
			j.Until(hangLimit, func() bool { return atomic.LoadInt32(&killers) <= 0 })
			x.finish(n)
		}
	})
	two := j.p(30)
	k := j.n(2)
	j.Go(func() {
		x.kill(root, k)
		x.look(root)
		x.look(n)
		atomic.AddInt32(&killers, -1)
	})
	if two {
		j.Go(func() { x.kill(n, 1-k); x.look(n) })
	}
	if j.p(30) {
		j.Go(func() { x.waitAll(root) })
	}
	if !x.tasksOver() {
		return
	}
	x.quiet()
}

// several goroutines wait for the same context
func scnContextWaiters(j *J) {
	x := newCxRun(j)
	root := x.node(&iproto.Context{}, nil)
	j.E("root", "c", root.id)
	for i := j.n(5); i > 0; i-- {
		x.request(root)
	}
	for i := j.n(3); i > 0; i-- {
		x.task(root, 3)
	}
	if j.p(30) {
		j.Go(func() { x.multi(root) })
	}
	for i := 1 + j.n(3); i > 0; i-- {
		j.Go(func() { x.nap(); x.waitAll(root) })
	}
	if j.p(30) {
		x.kill(root, j.n(2))
	}
	if !x.tasksOver() {
		return
	}
	x.quiet()
}
