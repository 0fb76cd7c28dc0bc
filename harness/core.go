package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/funny-falcon/go-iproto/verifsched"
)

// Ev is one event of a trace.
type Ev map[string]interface{}

// Pause suspends the goroutine that comes to the site for the k-th time.
type Pause = verifsched.Pause

// Job is everything that determines a run, as far as it can be determined.
type Job struct {
	S    string          `json:"s"`
	Seed int64           `json:"seed"`
	P    []Pause         `json:"p,omitempty"`
	Tier string          `json:"tier,omitempty"`
	Arg  json.RawMessage `json:"arg,omitempty"`
}

// Result of a job.
type Result struct {
	Ev   []Ev           `json:"ev"`
	Hits map[int]uint32 `json:"hits,omitempty"`
	Hang bool           `json:"hang,omitempty"`
	Skip bool           `json:"skip,omitempty"`
	Dur  float64        `json:"dur"`
	More [][]Ev         `json:"more,omitempty"`
	Note map[string]int `json:"note,omitempty"`
}

// J is a running job.
type J struct {
	Job
	R    *rand.Rand
	mu   sync.Mutex
	ev   []Ev
	more [][]Ev
	note map[string]int
	hang bool
	skip bool
	open int64 /* goroutines */
	lag  int64 /* the longest stall of the machine seen, ns */
}

// Scenario produces a trace of the real code.
type Scenario struct {
	Name    string
	Props   []string
	Spec    string /* trace specification that judges the traces */
	Run     func(j *J)
	Weight  int  /* share of jobs, 1 by default */
	Explore bool /* pauses make sense */
	NoSeed  bool /* the same for every seed */
	Limit   time.Duration
	Par     int      /* at most that many at the same time */
	One     bool     /* mostly on one processor */
	Max     int      /* at most that many jobs (quick tier) */
	First   int      /* so many plain runs first */
	Files   []string /* pauses in these files come first */
}

var scenarios = map[string]*Scenario{}
var order []string

func reg(s Scenario) {
	if s.Weight == 0 {
		s.Weight = 1
	}
	if s.Limit == 0 {
		s.Limit = 12 * time.Second
	}
	scenarios[s.Name] = &s
	order = append(order, s.Name)
}

func scenariosOf(prop string) (res []*Scenario) {
	for _, n := range order {
		for _, p := range scenarios[n].Props {
			if p == prop {
				res = append(res, scenarios[n])
			}
		}
	}
	return
}

// E records an event.
func (j *J) E(kind string, kv ...interface{}) {
	e := make(Ev, len(kv)/2+1)
	e["e"] = kind
	for i := 0; i+1 < len(kv); i += 2 {
		e[kv[i].(string)] = kv[i+1]
	}
	j.mu.Lock()
	j.ev = append(j.ev, e)
	j.mu.Unlock()
	verifsched.Act()
}

// Lock runs f while no event can be recorded.
func (j *J) Note(k string, n int) {
	j.mu.Lock()
	if j.note == nil {
		j.note = map[string]int{}
	}
	j.note[k] += n
	j.mu.Unlock()
}

// Go starts a goroutine the job waits for.
func (j *J) Go(f func()) {
	atomic.AddInt64(&j.open, 1)
	go func() {
		defer atomic.AddInt64(&j.open, -1)
		f()
	}()
}

const hangLimit = 8 * time.Second

// ticks counts small sleeps, so that a stall of the machine is not taken for a hang.
var ticks int64

func init() {
	go func() {
		for {
			time.Sleep(2 * time.Millisecond)
			atomic.AddInt64(&ticks, 1)
		}
	}()
}

// patience tells when the time for something has passed for sure.
type patience struct {
	start time.Time
	d     time.Duration
	t     int64
}

func wait(d time.Duration) *patience {
	return &patience{time.Now(), d, atomic.LoadInt64(&ticks)}
}
func (p *patience) over() bool {
	return time.Since(p.start) > p.d && atomic.LoadInt64(&ticks)-p.t > int64(p.d/(10*time.Millisecond))
}

// Until waits till cond holds; gives false when it does not in time.
func (j *J) Until(d time.Duration, cond func() bool) bool {
	p := wait(d)
	n := 0
	for !cond() {
		if p.over() {
			return cond()
		}
		if n++; n < 50 {
			time.Sleep(20 * time.Microsecond)
		} else if n < 500 {
			time.Sleep(200 * time.Microsecond)
		} else {
			time.Sleep(2 * time.Millisecond)
		}
	}
	return true
}

// Quiesce waits till everything that has to happen has happened; otherwise records a hang.
func (j *J) Quiesce(what string, cond func() bool) bool {
	if j.Until(hangLimit, cond) {
		return true
	}
	j.Hang(what)
	return false
}

func (j *J) Hang(what string) {
	j.E("hang", "what", what)
	j.hang = true
}

// Join waits for goroutines started by Go.
func (j *J) Join() bool {
	if j.Until(hangLimit, func() bool { return atomic.LoadInt64(&j.open) == 0 }) {
		return true
	}
	j.Hang("join")
	return false
}

// Emit adds a separate trace.
func (j *J) Emit(ev []Ev) {
	j.mu.Lock()
	j.more = append(j.more, ev)
	j.mu.Unlock()
}

func (j *J) n(n int) int    { return j.R.Intn(n) }
func (j *J) p(pct int) bool { return j.R.Intn(100) < pct }
func (j *J) thorough() bool { return j.Tier == "thorough" }

func runJob(job Job) (res Result) {
	s := scenarios[job.S]
	if s == nil {
		panic("no scenario " + job.S)
	}
	j := &J{Job: job, R: rand.New(rand.NewSource(job.Seed))}
	start := time.Now()
	if s.One {
		/* what a pool is given is seen by those on the same processor only */
		n := 1
		if job.Seed%4 == 0 {
			n = runtime.NumCPU()
		}
		runtime.GOMAXPROCS(n)
		defer runtime.GOMAXPROCS(runtime.NumCPU())
	}
	verifsched.Start(job.P, 0, 0)
	done := make(chan struct{})
	go func() { s.Run(j); close(done) }()
	p := wait(s.Limit)
	tm := time.NewTicker(100 * time.Millisecond)
	defer tm.Stop()
Loop:
	for {
		select {
		case <-done:
			break Loop
		case <-tm.C:
			if p.over() {
				j.Hang("job")
				break Loop
			}
		}
	}
	res.Hits = verifsched.Stop()
	j.mu.Lock()
	res.Ev, res.Hang, res.Skip, res.More, res.Note = j.ev, j.hang, j.skip, j.more, j.note
	j.mu.Unlock()
	res.Dur = time.Since(start).Seconds()
	return
}

func hex(v uint32) string { return fmt.Sprintf("%x", v) }

func keys(m map[int]uint32) (res []int) {
	for k := range m {
		res = append(res, k)
	}
	sort.Ints(res)
	return
}

var loopbacks uint32

// loopback is an address of the loopback network no other trace uses: a port
// that is given up here can be taken by the next listener.
func loopback() string {
	n := atomic.AddUint32(&loopbacks, 1) + uint32(os.Getpid())*40503
	return fmt.Sprintf("127.%d.%d.%d:0", 1+n>>16%250, n>>8&0xff, n&0xff)
}
