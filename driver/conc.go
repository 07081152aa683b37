package main

import (
	"sync"
	"sync/atomic"
	"time"

	"github.com/sp301415/ringo-snark/math/bignum"
)

// A schedule lets one process run at a time and switches at gates: the operations of the gated fields.
type scheduler struct {
	on       atomic.Bool
	counting atomic.Bool
	left     atomic.Int64 // gates until the next switch
	total    atomic.Int64 // gates passed
	switches atomic.Int64
	mu       sync.Mutex
	cur      int
	next     int
	plan     []Slice
	cyc      bool
	scale    []int64
	passed   []int64
	done     []bool
	wake     []chan struct{}
	quota    int64
}

// Slice lets process P pass G gates, or reach F millionths of all its gates.
type Slice struct {
	P int   `json:"p"`
	G int64 `json:"g"`
	F int64 `json:"f"`
}

type Sched struct {
	Cyc    bool    `json:"cyc"`
	Slices []Slice `json:"slices"`
}

var sched scheduler

// gate is where a process may be paused.
func gate() {
	if !sched.on.Load() {
		if sched.counting.Load() {
			sched.total.Add(1)
		}
		return
	}
	sched.total.Add(1)
	if sched.left.Add(-1) == 0 {
		sched.turn(false)
	}
}

// turn hands over to the next process of the plan. Called by the running process.
func (s *scheduler) turn(finished bool) {
	s.mu.Lock()
	if !s.on.Load() {
		s.mu.Unlock()
		return
	}
	me := s.cur
	s.passed[me] += s.quota
	if finished {
		s.done[me] = true
	}
	to, quota := -1, int64(0)
	for tries := 0; to < 0; tries++ {
		if s.next >= len(s.plan) {
			if !s.cyc || tries > 2*len(s.plan) {
				break
			}
			s.next = 0
		}
		sl := s.plan[s.next]
		s.next++
		if s.done[sl.P] {
			continue
		}
		quota = sl.G
		if sl.F > 0 {
			quota = s.scale[sl.P]*sl.F/1000000 - s.passed[sl.P]
		}
		if quota > 0 {
			to = sl.P
		}
	}
	if to < 0 { // run out the others one by one
		quota = 1 << 60
		for p := range s.done {
			if !s.done[p] {
				to = p
				break
			}
		}
	}
	if to < 0 {
		s.mu.Unlock()
		return
	}
	s.quota = quota
	s.left.Store(quota)
	s.cur = to
	if to == me {
		s.mu.Unlock()
		return
	}
	s.switches.Add(1)
	s.mu.Unlock()
	s.wake[to] <- struct{}{}
	if !finished {
		<-s.wake[me]
	}
}

// run plays the processes under a plan; nil: all at once.
func (s *scheduler) run(plan *Sched, scale []int64, procs []func()) (hung bool) {
	var wg sync.WaitGroup
	if plan == nil {
		start := make(chan struct{})
		for p := range procs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				procs[p]()
			}()
		}
		close(start)
		wg.Wait()
		return false
	}
	s.plan, s.cyc, s.next, s.scale = plan.Slices, plan.Cyc, 0, scale
	s.passed, s.done, s.wake = make([]int64, len(procs)), make([]bool, len(procs)), make([]chan struct{}, len(procs))
	for p := range procs {
		s.wake[p] = make(chan struct{}, 4)
	}
	s.switches.Store(0)
	s.cur, s.quota = 0, 1
	s.left.Store(1)
	s.on.Store(true)
	for p := range procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-s.wake[p]
			procs[p]()
			s.turn(true)
		}()
	}
	stop := make(chan struct{})
	go func() { // a process that waits for a paused one: let all go
		last := int64(-1)
		for {
			select {
			case <-stop:
				return
			case <-time.After(3 * time.Second):
			}
			if t := s.total.Load(); t != last {
				last = t
				continue
			}
			hung = true
			s.on.Store(false)
			for p := range s.wake {
				select {
				case s.wake[p] <- struct{}{}:
				default:
				}
			}
			return
		}
	}()
	s.wake[0] <- struct{}{}
	wg.Wait()
	close(stop)
	s.on.Store(false)
	return hung
}

type ConcItem struct {
	Id      int        `json:"id"`
	Kind    string     `json:"kind"` // pair, pcs, ring
	Free    int        `json:"free"` // times to run all at once
	Scheds  []Sched    `json:"scheds"`
	Session *Scenario  `json:"session"`
	Pcs     *PcsCase   `json:"pcs"`
	Rings   []RingProg `json:"rings"`
	Par     [][]int    `json:"par"` // acts (from 1) of each process
}

type ConcRun struct {
	Sched    int            `json:"sched"` // 0: one after another, -1: all at once
	Switches int64          `json:"switches"`
	Gates    int64          `json:"gates"`
	Freed    bool           `json:"freed"`
	Session  *SessionRecord `json:"session,omitempty"`
	Pcs      *PcsCase       `json:"pcs,omitempty"`
	Rings    []RingProg     `json:"rings,omitempty"`
}

type ConcRecord struct {
	Id   int       `json:"id"`
	Kind string    `json:"kind"`
	Runs []ConcRun `json:"runs"`
}

// phases splits n acts into those before, in and after the concurrent part.
func phases(n int, par [][]int) (before, after []int) {
	in := map[int]bool{}
	first := n
	for _, p := range par {
		for _, i := range p {
			in[i-1] = true
			first = min(first, i-1)
		}
	}
	for i := range n {
		if in[i] {
			continue
		}
		if i < first {
			before = append(before, i)
		} else {
			after = append(after, i)
		}
	}
	return
}

func playConc(it *ConcItem, one func(run func([]func()) (bool, []int64)) ConcRun) any {
	rec := ConcRecord{Id: it.Id, Kind: it.Kind}
	var scale []int64
	// one after another first
	seq := func(procs []func()) (bool, []int64) {
		scale = nil
		sched.counting.Store(true)
		for _, f := range procs {
			sched.total.Store(0)
			f()
			scale = append(scale, sched.total.Load())
		}
		sched.counting.Store(false)
		return false, scale
	}
	add := func(k int, run func([]func()) (bool, []int64)) {
		sched.total.Store(0)
		sched.switches.Store(0)
		r := one(run)
		r.Sched, r.Switches, r.Gates = k, sched.switches.Load(), sched.total.Load()
		rec.Runs = append(rec.Runs, r)
	}
	if len(it.Scheds) > 0 {
		add(0, seq)
	}
	for k := range it.Scheds {
		add(k+1, func(procs []func()) (bool, []int64) { return sched.run(&it.Scheds[k], scale, procs), scale })
	}
	for range it.Free {
		add(-1, func(procs []func()) (bool, []int64) { return sched.run(nil, nil, procs), nil })
	}
	return rec
}

func concPair[E bignum.Uint[E]](it *ConcItem) any {
	return playConc(it, func(run func([]func()) (bool, []int64)) ConcRun {
		s := it.Session
		w := newWorld[E](s)
		w.apart = true
		rec := &SessionRecord{Id: it.Id, Field: s.Field, Circs: s.Circs, Asgs: s.Asgs, Ev: make([]Event, len(s.Acts))}
		before, after := phases(len(s.Acts), it.Par)
		for _, i := range before {
			rec.Ev[i] = w.do(i)
			if s.Acts[i].Op == "compile" && rec.Ev[i].Res != "ok" {
				rec.Ev = rec.Ev[:i+1]
				return ConcRun{Session: rec}
			}
		}
		var procs []func()
		for _, p := range it.Par {
			procs = append(procs, func() {
				for _, i := range p {
					rec.Ev[i-1] = w.do(i - 1)
				}
			})
		}
		freed, _ := run(procs)
		for _, i := range after {
			rec.Ev[i] = w.do(i)
		}
		return ConcRun{Session: rec, Freed: freed}
	})
}

func concPcs[E bignum.Uint[E]](it *ConcItem) any {
	return playConc(it, func(run func([]func()) (bool, []int64)) ConcRun {
		t := *it.Pcs
		w := newShelf[E](&t)
		t.Ev = make([]PcsEv, len(t.Acts))
		before, after := phases(len(t.Acts), it.Par)
		for _, i := range before {
			t.Ev[i] = w.do(i)
		}
		var procs []func()
		for _, p := range it.Par {
			procs = append(procs, func() {
				for _, i := range p {
					t.Ev[i-1] = w.do(i - 1)
				}
			})
		}
		freed, _ := run(procs)
		for _, i := range after {
			t.Ev[i] = w.do(i)
		}
		t.Id, t.Acts = it.Id, nil
		return ConcRun{Pcs: &t, Freed: freed}
	})
}

func concRing[E bignum.Uint[E]](it *ConcItem) any {
	return playConc(it, func(run func([]func()) (bool, []int64)) ConcRun {
		ev := newEval[E](&it.Rings[0])
		rs := make([]RingProg, len(it.Rings))
		var procs []func()
		for i := range rs {
			rs[i] = it.Rings[i]
			rs[i].Prog = append([]RingOp{}, rs[i].Prog...)
			procs = append(procs, func() { playRing(ev, &rs[i]) })
		}
		freed, _ := run(procs)
		return ConcRun{Rings: rs, Freed: freed}
	})
}
