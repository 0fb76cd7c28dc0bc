package main

import (
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func init() {
	reg(Scenario{Name: "timer.one", Files: []string{"custom_timer.go"}, Spec: "TraceTimer", Props: []string{"T01"}, Run: func(j *J) { scnTimer(j, 0) }, Explore: true, First: 32, Weight: 4})
	reg(Scenario{Name: "timer.few", Files: []string{"custom_timer.go"}, Spec: "TraceTimer", Props: []string{"T01"}, Run: func(j *J) { scnTimer(j, 1) }, Explore: true, First: 24, Weight: 4})
	reg(Scenario{Name: "timer.heap", Files: []string{"custom_timer.go"}, Spec: "TraceTimer", Props: []string{"T01"}, Run: func(j *J) { scnTimer(j, 2) }, First: 10, Weight: 3})
	reg(Scenario{Name: "timer.quiet", Files: []string{"custom_timer.go"}, Spec: "TraceTimer", Props: []string{"T01"}, Run: scnTimerQuiet, Explore: true, First: 10, Weight: 2})
	reg(Scenario{Name: "timer.req", Files: []string{"custom_timer.go"}, Spec: "TraceTimer", Props: []string{"T01"}, Run: scnTimerReq, Explore: true, First: 24, Weight: 3})
}

// lagMeter measures how long the machine did not let a sleeper run.
type lagMeter struct {
	start time.Time
	last  int64
	max   int64
	stop  int32
}

func newLag() *lagMeter {
	l := &lagMeter{start: time.Now().Round(0)}
	go func() {
		for atomic.LoadInt32(&l.stop) == 0 {
			time.Sleep(time.Millisecond)
			n := l.now()
			if g := n - atomic.LoadInt64(&l.last); g > atomic.LoadInt64(&l.max) {
				atomic.StoreInt64(&l.max, g)
			}
			atomic.StoreInt64(&l.last, n)
		}
	}()
	return l
}

/* microseconds by the wall clock, as the timers see it */
func (l *lagMeter) now() int64 { return int64(time.Now().Round(0).Sub(l.start) / time.Microsecond) }
func (l *lagMeter) lag() int64 {
	a, b := l.now()-atomic.LoadInt64(&l.last), atomic.LoadInt64(&l.max)
	if a > b {
		return a
	}
	return b
}

// tm is a timer under observation; events of one timer are recorded in the order they happen.
type tm struct {
	x     *tmRun
	t     iproto.Timer
	mu    sync.Mutex
	ev    []Ev
	fires int
	plan  []tmStep
	at    int
	inF   func() /* what to do within Expire */
	must  int32
}
type tmStep struct {
	d    time.Duration
	stop time.Duration /* after that, if >= 0 */
	rest time.Duration
}
type tmRun struct {
	j   *J
	lag *lagMeter
	all []*tm

	mu     sync.Mutex
	closed bool
}

func (m *tm) Timer() *iproto.Timer { return &m.t }
func (m *tm) Expire() {
	now, lag := m.x.lag.now(), m.x.lag.lag()
	m.mu.Lock()
	m.ev = append(m.ev, Ev{"e": "fire", "t": now, "lag": lag})
	m.fires++
	f := m.inF
	m.inF = nil
	m.mu.Unlock()
	if f != nil {
		f()
	}
}
func (m *tm) e(e Ev) {
	m.mu.Lock()
	m.ev = append(m.ev, e)
	m.mu.Unlock()
}
func (m *tm) count() int { m.mu.Lock(); defer m.mu.Unlock(); return m.fires }

/* the bounds are rounded so that they stay bounds: arm at the microsecond begun, deadline is not before at+d */
func (m *tm) arm(d time.Duration) {
	m.e(Ev{"e": "arm", "t": m.x.lag.now(), "d": int64(d / time.Microsecond)})
	m.t.After(d, m)
	m.e(Ev{"e": "armed", "t": m.x.lag.now()})
}
func (m *tm) stopIt() {
	m.t.Stop()
	m.e(Ev{"e": "stopped", "t": m.x.lag.now() + 1})
}

// run goes through the plan: arm, then stop or wait for the firing, then again.
func (m *tm) run(nested func()) {
	for _, s := range m.plan {
		before := m.count()
		m.mu.Lock()
		m.inF = nested
		m.mu.Unlock()
		t0 := m.x.lag.now()
		m.arm(s.d)
		if s.stop >= 0 {
			time.Sleep(s.stop)
			m.stopIt()
			/* a late firing is not to be mixed up with the next: is it stopped or has it fired for sure? */
			if m.x.lag.now() >= t0+int64(s.d/time.Microsecond) && m.count() == before {
				time.Sleep(3 * time.Millisecond)
				if m.count() == before {
					return
				}
			}
		} else if !m.x.j.Until(hangLimit, func() bool { return m.count() > before }) {
			return
		}
		if s.rest > 0 {
			time.Sleep(s.rest)
		}
	}
}

func (x *tmRun) add() *tm {
	m := &tm{x: x}
	x.all = append(x.all, m)
	return m
}
func (x *tmRun) finish() {
	atomic.StoreInt32(&x.lag.stop, 1)
	for k, m := range x.all {
		m.mu.Lock()
		for _, e := range m.ev {
			e["k"] = k
		}
		x.j.ev = append(x.j.ev, m.ev...)
		m.mu.Unlock()
		x.j.E("next", "k", k)
	}
}

func (x *tmRun) plan(n int, spread int) (p []tmStep) {
	j := x.j
	for ; n > 0; n-- {
		d := time.Duration(j.n(spread)) * time.Microsecond
		s := tmStep{d: d, stop: -1}
		switch j.n(10) {
		case 0:
			s.d = time.Duration(j.n(3)-1) * time.Nanosecond
			if s.d < 0 {
				s.d = 0
			}
		case 1, 2: /* long before the deadline */
			s.d = time.Duration(20000+j.n(500000)) * time.Microsecond
			s.stop = time.Duration(j.n(3000)) * time.Microsecond
		case 3: /* about at the deadline */
			s.stop = d + time.Duration(j.n(200)-100)*time.Microsecond
		case 4:
			s.stop = time.Duration(j.n(spread)) * time.Microsecond
		}
		if s.stop < -1 {
			s.stop = 0
		}
		if j.p(30) {
			s.rest = time.Duration(j.n(1000)) * time.Microsecond
		}
		p = append(p, s)
	}
	return
}

func scnTimer(j *J, size int) {
	x := &tmRun{j: j, lag: newLag()}
	n, steps, spread := 1, 1+j.n(4), 3000
	switch size {
	case 1:
		n, steps = 2+j.n(4), 1+j.n(3)
	case 2:
		n, steps, spread = []int{6, 12, 40, 150, 300}[j.n(5)], 1+j.n(2), []int{2000, 20000, 60000}[j.n(3)]
	}
	/* timers armed within the firing of others */
	var nested []*tm
	for k := 0; k < n; k++ {
		m := x.add()
		m.plan = x.plan(steps, spread)
	}
	list := append([]*tm{}, x.all...)
	hs := make([]func(), len(list))
	for k := range list {
		if j.p(15) {
			m := x.add()
			nested = append(nested, m)
			d := time.Duration(j.n(spread)) * time.Microsecond
			var once int32
			hs[k] = func() {
				x.mu.Lock()
				ok := !x.closed && once == 0
				once++
				if ok {
					atomic.StoreInt32(&m.must, 1)
				}
				x.mu.Unlock()
				if ok {
					m.arm(d)
				}
			}
		}
	}
	if size == 2 && j.p(60) {
		/* one goroutine arms all and stops many, in random orders */
		till := make([]int64, len(list))
		for _, k := range j.R.Perm(len(list)) {
			m := list[k]
			d := 5000 + j.n(spread)
			till[k] = x.lag.now() + int64(d)
			m.arm(time.Duration(d) * time.Microsecond)
		}
		left := []*tm{}
		for _, k := range j.R.Perm(len(list)) {
			if j.p(50) {
				list[k].stopIt()
				/* stopped in time for sure, so that the next firing is of the next arming */
				if j.p(50) && x.lag.now() < till[k] {
					list[k].arm(time.Duration(j.n(spread)) * time.Microsecond)
					left = append(left, list[k])
				}
			} else {
				left = append(left, list[k])
			}
		}
		j.Until(hangLimit, func() bool {
			for _, m := range left {
				if m.count() == 0 {
					return false
				}
			}
			return true
		})
	} else {
		for k, m := range list {
			m, f := m, hs[k]
			j.Go(func() { m.run(f) })
		}
		j.Join()
		x.mu.Lock()
		x.closed = true
		x.mu.Unlock()
		j.Until(hangLimit, func() bool {
			for _, m := range nested {
				if atomic.LoadInt32(&m.must) == 1 && m.count() == 0 {
					return false
				}
			}
			return true
		})
	}
	time.Sleep(2 * time.Millisecond)
	x.finish()
}

// scnTimerQuiet: nothing else happens for long, so that a lost wake-up stays lost.
func scnTimerQuiet(j *J) {
	x := &tmRun{j: j, lag: newLag()}
	n := 1 + j.n(4)
	for k := 0; k < n; k++ {
		x.add()
	}
	/* deadlines in rising, falling or mixed order; both heaps */
	base := time.Duration(500+j.n(3000)) * time.Microsecond
	step := time.Duration(j.n(400)) * time.Microsecond
	order := j.n(3)
	for k, m := range x.all {
		d := base
		switch order {
		case 0:
			d += time.Duration(k) * step
		case 1:
			d += time.Duration(n-k) * step
		case 2:
			d += time.Duration(j.n(n)) * step
		}
		m := m
		f := func() { m.arm(d) }
		if j.p(50) {
			j.Go(f)
		} else {
			f()
		}
	}
	/* the first is stopped: the loop wakes for nothing and has to go on */
	if n > 1 && j.p(50) {
		m := x.add()
		m.arm(200 * time.Microsecond)
		m.stopIt()
	}
	j.Join()
	j.Until(hangLimit, func() bool {
		for _, m := range x.all[:n] {
			if m.count() == 0 {
				return false
			}
		}
		return true
	})
	time.Sleep(2 * time.Millisecond)
	x.finish()
}

// tmReq observes the timeout of a request.
type tmReq struct {
	m   *tm
	req *iproto.Request
	n   int32
}

func (q *tmReq) Respond(res *iproto.Response) {
	now, lag := q.m.x.lag.now(), q.m.x.lag.lag()
	if res.Code == iproto.RcTimeout {
		q.m.e(Ev{"e": "fire", "t": now, "lag": lag})
	} else {
		q.m.e(Ev{"e": "stopped", "t": now - 1<<20})
	}
	atomic.AddInt32(&q.n, 1)
}

// scnTimerReq: timeouts of requests and of services.
func scnTimerReq(j *J) {
	x := &tmRun{j: j, lag: newLag()}
	d := time.Duration(j.n(4000)) * time.Microsecond
	hold := holdLoop{}
	hold.SimplePoint.Timeout = d
	hold.SimplePoint.Init(&hold)
	hold.SimplePoint.Run(nil)
	n := 1 + j.n(4)
	var qs []*tmReq
	for k := 0; k < n; k++ {
		m := x.add()
		q := &tmReq{m: m, req: &iproto.Request{Msg: 1, Id: uint32(k)}}
		q.req.Responder = q
		qs = append(qs, q)
		own := j.p(50)
		od := time.Duration(j.n(4000)) * time.Microsecond
		ans := -1
		if j.p(40) {
			ans = j.n(4000)
		}
		if d == 0 && !own {
			own, od = true, time.Millisecond
		}
		if own && od == 0 {
			od = time.Millisecond
		}
		j.Go(func() {
			l := d
			if own {
				l = od
			}
			m.e(Ev{"e": "arm", "t": x.lag.now(), "d": int64(l / time.Microsecond)})
			if own {
				q.req.SetTimeout(od)
			}
			hold.Send(q.req)
			m.e(Ev{"e": "armed", "t": x.lag.now()})
			if ans >= 0 {
				time.Sleep(time.Duration(ans) * time.Microsecond)
				if q.req.SetInFly(nil) {
					q.req.RespondBytes(iproto.RcOK, nil)
				}
			}
		})
	}
	j.Join()
	j.Until(hangLimit, func() bool {
		for _, q := range qs {
			if atomic.LoadInt32(&q.n) == 0 {
				return false
			}
		}
		return true
	})
	hold.Stop()
	x.finish()
}

// holdLoop is a service that takes nothing.
type holdLoop struct{ iproto.SimplePoint }

func (h *holdLoop) Loop() { <-h.ExitChan() }
