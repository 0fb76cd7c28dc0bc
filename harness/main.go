package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		worker()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		replay(os.Args[2:])
		return
	}
	master()
}

func quietLog() { log.SetOutput(io.Discard) }

func worker() {
	quietLog()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var job Job
		if err := json.Unmarshal(line, &job); err != nil {
			panic(err)
		}
		res := runJob(job)
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
		if res.Hang {
			os.Exit(0)
		}
	}
}

func replay(args []string) {
	quietLog()
	var job Job
	if err := json.Unmarshal([]byte(args[0]), &job); err != nil {
		panic(err)
	}
	res := runJob(job)
	for _, e := range res.Ev {
		b, _ := json.Marshal(e)
		fmt.Println(string(b))
	}
	for _, t := range res.More {
		fmt.Println("--")
		for _, e := range t {
			b, _ := json.Marshal(e)
			fmt.Println(string(b))
		}
	}
	fmt.Println("hang", res.Hang, "dur", res.Dur, "hits", len(res.Hits), "note", res.Note)
}

type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	err  *bytes.Buffer
	jobs int
}

func newProc() *proc {
	cmd := exec.Command(os.Args[0], "worker")
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	p := &proc{cmd: cmd, err: &bytes.Buffer{}}
	p.in, _ = cmd.StdinPipe()
	o, _ := cmd.StdoutPipe()
	p.out = bufio.NewReaderSize(o, 1<<20)
	cmd.Stderr = &limited{b: p.err}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return p
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// run gives ok=false when the worker died; msg is then its last words.
func (p *proc) run(job Job) (res Result, ok bool, msg string) {
	b, _ := json.Marshal(job)
	p.jobs++
	p.in.Write(append(b, '\n'))
	type rd struct {
		line []byte
		err  error
	}
	ch := make(chan rd, 1)
	go func() {
		line, err := p.out.ReadBytes('\n')
		ch <- rd{line, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			p.in.Close()
			p.cmd.Wait()
			return res, false, p.err.String()
		}
		if err := json.Unmarshal(r.line, &res); err != nil {
			return res, false, err.Error()
		}
		return res, true, ""
	case <-time.After(120 * time.Second):
		p.kill()
		return res, false, "timeout"
	}
}

type sink struct {
	traces, jobs *bufio.Writer
	n            int
}

type master_ struct {
	mu      sync.Mutex
	dir     string
	sinks   map[string]*sink
	seen    map[string]bool
	traces  int
	runs    int
	events  int
	bad     int
	crashes int
	hangs   int
	errors  []string
	sites   map[int]bool
	perScn  map[string]int
	note    map[string]int
	max     int
}

func (m *master_) add(job Job, ev []Ev) {
	if ev == nil {
		ev = []Ev{}
	}
	b, _ := json.Marshal(ev)
	spec := scenarios[job.S].Spec
	k := spec + string(b)
	if m.seen[k] {
		return
	}
	s := m.sinks[spec]
	if s == nil {
		f1, err := os.Create(m.dir + "/" + spec + ".traces")
		if err != nil {
			panic(err)
		}
		f2, _ := os.Create(m.dir + "/" + spec + ".jobs")
		s = &sink{traces: bufio.NewWriterSize(f1, 1<<20), jobs: bufio.NewWriterSize(f2, 1<<20)}
		m.sinks[spec] = s
	}
	if s.n >= m.max && ev[len(ev)-1]["e"] != "hang" && ev[len(ev)-1]["e"] != "crash" {
		return
	}
	s.n++
	m.seen[k] = true
	m.traces++
	m.events += len(ev)
	fmt.Fprintf(s.traces, `{"ev":%s}`+"\n", b)
	jb, _ := json.Marshal(job)
	s.jobs.Write(append(jb, '\n'))
}

/* every scenario has a queue: plain runs, then pauses at every place the plain runs came to, then random ones */
type profile struct {
	seed int64
	hits map[int]uint32
	keys []int
	near []int /* sites in the files of interest */
}
type queue struct {
	s       *Scenario
	first   int
	plan    []Job
	prof    []profile
	n       int
	running int
}

func master() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	budget := flag.Duration("budget", 8*time.Second, "")
	dir := flag.String("dir", ".", "")
	nw := flag.Int("workers", 16, "")
	only := flag.String("only", "", "")
	maxTr := flag.Int("max", 4000, "")
	sitesF := flag.String("sites", "", "")
	flag.Parse()
	var siteNames []string
	if b, err := os.ReadFile(*sitesF); err == nil {
		json.Unmarshal(b, &siteNames)
	}
	isNear := func(s *Scenario, site int) bool {
		if len(s.Files) == 0 || site >= len(siteNames) {
			return true
		}
		for _, f := range s.Files {
			if strings.HasPrefix(siteNames[site], f) {
				return true
			}
		}
		return false
	}
	scns := scenariosOf(*prop)
	if *only != "" {
		scns = nil
		for _, n := range strings.Split(*only, ",") {
			scns = append(scns, scenarios[n])
		}
	}
	if len(scns) == 0 {
		fmt.Fprintln(os.Stderr, "no scenarios for", *prop)
		os.Exit(2)
	}
	m := &master_{dir: *dir, sinks: map[string]*sink{}, seen: map[string]bool{},
		sites: map[int]bool{}, perScn: map[string]int{}, note: map[string]int{}, max: *maxTr}
	rng := rand.New(rand.NewSource(*seed))
	var qs []*queue
	for _, s := range scns {
		q := &queue{s: s, first: s.First}
		if q.first == 0 {
			q.first = 4
		}
		qs = append(qs, q)
	}
	deadline := time.Now().Add(*budget)
	newSeed := func() int64 { return rng.Int63n(1 << 30) }
	next := func() (job Job, q *queue, plain, ok bool) {
		if m.bad >= 6 {
			return
		}
		late := time.Now().After(deadline)
		/* the least served scenario by weight */
		for _, c := range qs {
			if late && c.n >= c.first {
				continue
			}
			if c.s.Max > 0 && c.n >= c.s.Max && (*tier == "quick" || c.n >= 10*c.s.Max) {
				continue
			}
			if c.s.Par > 0 && c.running >= c.s.Par {
				continue
			}
			if q == nil || float64(c.n)/float64(c.s.Weight) < float64(q.n)/float64(q.s.Weight) {
				q = c
			}
		}
		if q == nil {
			return
		}
		q.n++
		q.running++
		ok = true
		job = Job{S: q.s.Name, Tier: *tier}
		if !q.s.Explore || q.n <= q.first || len(q.prof) == 0 || (q.n%8 == 0) {
			job.Seed = newSeed()
			return job, q, true, true
		}
		if len(q.plan) > 0 {
			job = q.plan[len(q.plan)-1]
			q.plan = q.plan[:len(q.plan)-1]
			return job, q, false, true
		}
		pr := q.prof[rng.Intn(len(q.prof))]
		np := 2
		if rng.Intn(3) == 0 {
			np = 3
		}
		job.Seed = pr.seed
		for ; np > 0 && len(pr.keys) > 0; np-- {
			ks := pr.keys
			if len(pr.near) > 0 && rng.Intn(4) > 0 {
				ks = pr.near
			}
			s := ks[rng.Intn(len(ks))]
			job.P = append(job.P, Pause{Site: s, K: uint32(rng.Intn(min(int(pr.hits[s]), 40))) + 1, Skip: rng.Intn(6) == 0})
		}
		return job, q, false, true
	}
	idle := func() bool {
		/* nothing to do now, but perhaps later */
		if m.bad >= 6 || time.Now().After(deadline) {
			for _, q := range qs {
				if q.n < q.first && m.bad < 6 {
					return true
				}
			}
			return false
		}
		for _, q := range qs {
			if q.s.Par > 0 && q.running >= q.s.Par {
				return true
			}
		}
		return false
	}
	var wg sync.WaitGroup
	for w := 0; w < *nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := newProc()
			defer func() { p.kill() }()
			for {
				m.mu.Lock()
				job, q, plain, ok := next()
				again := !ok && idle()
				m.mu.Unlock()
				if again {
					time.Sleep(20 * time.Millisecond)
					continue
				}
				if !ok {
					return
				}
				res, alive, msg := p.run(job)
				m.mu.Lock()
				q.running--
				m.runs++
				m.perScn[job.S]++
				if !alive {
					if strings.Contains(msg, "panic") || strings.Contains(msg, "fatal error") {
						m.crashes++
						m.bad++
						where := "unknown"
						for _, l := range strings.Split(msg, "\n") {
							if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
								where = l
								break
							}
						}
						if len(where) > 200 {
							where = where[:200]
						}
						m.add(job, []Ev{{"e": "crash", "what": where, "job": job.S}})
						if len(m.errors) < 3 {
							m.errors = append(m.errors, "crash: "+tail(msg, 3000))
						}
					} else {
						m.errors = append(m.errors, "worker died: "+tail(msg, 2000))
						m.bad++
					}
					m.mu.Unlock()
					p.kill()
					p = newProc()
					continue
				}
				for k := range res.Hits {
					m.sites[k] = true
				}
				for k, v := range res.Note {
					m.note[k] += v
				}
				if res.Skip {
					m.note["skipped"]++
				} else {
					if len(res.Ev) > 0 {
						m.add(job, res.Ev)
					}
					for _, t := range res.More {
						m.add(job, t)
					}
				}
				if res.Hang {
					m.hangs++
					m.bad++
				}
				if plain && q.s.Explore && len(q.prof) < 400 {
					pr := profile{job.Seed, res.Hits, keys(res.Hits), nil}
					for _, k := range pr.keys {
						if isNear(q.s, k) {
							pr.near = append(pr.near, k)
						}
					}
					q.prof = append(q.prof, pr)
					if len(q.prof) <= q.first {
						kmax := uint32(4)
						if *tier == "thorough" {
							kmax = 12
						}
						for _, s := range keys(res.Hits) {
							h := res.Hits[s]
							for k := uint32(1); k <= h && k <= kmax; k++ {
								q.plan = append(q.plan, Job{S: job.S, Seed: job.Seed, Tier: *tier, P: []Pause{{Site: s, K: k}}})
							}
						}
						rng.Shuffle(len(q.plan), func(a, b int) { q.plan[a], q.plan[b] = q.plan[b], q.plan[a] })
						if len(q.s.Files) > 0 {
							/* taken from the end */
							sort.SliceStable(q.plan, func(a, b int) bool {
								return !isNear(q.s, q.plan[a].P[0].Site) && isNear(q.s, q.plan[b].P[0].Site)
							})
						}
					}
				}
				m.mu.Unlock()
				if res.Hang || p.jobs > 300 {
					p.kill()
					p = newProc()
				}
			}
		}()
	}
	wg.Wait()
	specs := map[string]int{}
	for n, s := range m.sinks {
		s.traces.Flush()
		s.jobs.Flush()
		specs[n] = s.n
	}
	plan := 0
	for _, q := range qs {
		plan += len(q.plan)
	}
	b, _ := json.Marshal(map[string]interface{}{"runs": m.runs, "traces": m.traces, "events": m.events, "crashes": m.crashes,
		"hangs": m.hangs, "errors": m.errors, "sites": len(m.sites), "scenarios": m.perScn, "note": m.note, "unexplored": plan, "specs": specs})
	os.WriteFile(*dir+"/sum.json", b, 0644)
	fmt.Println(string(b))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
