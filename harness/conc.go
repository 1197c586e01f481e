package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// concScript lets several clients send requests at once. The storage operations of the clients are
// scheduled one at a time, except in free runs.
type concScript struct {
	Name    string  `json:"name"`
	Backend string  `json:"backend"`
	Setup   []obj   `json:"setup"`
	Clients [][]obj `json:"clients"`
	Final   []obj   `json:"final"`
	// Plans lists schedules: each is a sequence of [client, storage operations]; what remains is run
	// client by client. A plan with a seed is random.
	Plans []plan `json:"plans"`
	Free  int    `json:"free"` // number of runs without a schedule
}

type plan struct {
	Seed  int64    `json:"seed"`
	Turns [][2]int `json:"turns"`
	// Sweep repeats the plan with 0, 1, 2, ... operations in its first turn
	Sweep bool `json:"sweep"`
}

func goid() int {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := bytes.Fields(buf[:n])
	id, _ := strconv.Atoi(string(f[1]))
	return id
}

const (
	atStart = iota // about to send its next request
	atGate         // about to access the storage
	running        // working, or waiting for another client
	ended
)

type scheduler struct {
	mu     sync.Mutex
	byGo   map[int]int
	state  []int
	grant  []chan struct{}
	events chan int // a client changed its state
	off    bool
}

func newScheduler(n int) *scheduler {
	s := &scheduler{byGo: map[int]int{}, state: make([]int, n), events: make(chan int, 1024)}
	for i := 0; i < n; i++ {
		s.grant = append(s.grant, make(chan struct{}, 1))
		s.state[i] = running
	}
	return s
}

func (s *scheduler) set(c, st int) {
	s.mu.Lock()
	s.state[c] = st
	s.mu.Unlock()
	s.events <- c
}

func (s *scheduler) get(c int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.state[c]
}

// wait is called by client c when it may be interrupted
func (s *scheduler) wait(c, st int) {
	s.mu.Lock()
	off := s.off
	s.mu.Unlock()
	if off {
		return
	}
	s.set(c, st)
	<-s.grant[c]
}

func (s *scheduler) gate(string) {
	s.mu.Lock()
	c, ok := s.byGo[goid()]
	s.mu.Unlock()
	if ok {
		s.wait(c, atGate)
	}
}

// step lets client c go on until it stops again. It returns false if the client neither stops nor ends soon.
func (s *scheduler) step(c int, patience time.Duration) bool {
	s.mu.Lock()
	s.state[c] = running
	s.mu.Unlock()
	s.grant[c] <- struct{}{}
	return s.settle(c, patience)
}

func (s *scheduler) settle(c int, patience time.Duration) bool {
	t := time.NewTimer(patience)
	defer t.Stop()
	for s.get(c) == running {
		select {
		case <-s.events:
		case <-t.C:
			return s.get(c) != running
		}
	}
	return true
}

// drive schedules the clients until all have ended. It returns false if they hang.
// hit tells whether the first turn was used up.
func (s *scheduler) drive(p plan, first int, patience, hang time.Duration) (ok, hit bool) {
	n := len(s.state)
	ready := func(c int) bool { st := s.get(c); return st == atStart || st == atGate }
	allEnded := func() bool {
		for c := 0; c < n; c++ {
			if s.get(c) != ended {
				return false
			}
		}
		return true
	}
	for c := 0; c < n; c++ {
		s.settle(c, hang)
	}
	// anyReady waits until some client can go on
	anyReady := func() bool {
		deadline := time.Now().Add(hang)
		for {
			for c := 0; c < n; c++ {
				if ready(c) {
					return true
				}
			}
			if allEnded() {
				return true
			}
			if time.Now().After(deadline) {
				return false
			}
			select {
			case <-s.events:
			case <-time.After(5 * time.Millisecond):
			}
		}
	}
	var rnd *rand.Rand
	if p.Seed != 0 {
		rnd = rand.New(rand.NewSource(p.Seed))
	}
	turn := 0
	left := 0
	cur := -1
	next := func() {
		if turn < len(p.Turns) {
			cur, left = p.Turns[turn][0], p.Turns[turn][1]
			if turn == 0 && p.Sweep {
				left = first
			}
			turn++
			return
		}
		cur, left = -1, 1<<30
	}
	next()
	for !allEnded() {
		if !anyReady() {
			return false, hit
		}
		if allEnded() {
			break
		}
		c := -1
		if rnd != nil {
			var cs []int
			for i := 0; i < n; i++ {
				if ready(i) {
					cs = append(cs, i)
				}
			}
			c = cs[rnd.Intn(len(cs))]
		} else {
			for cur >= 0 && (left <= 0 || !ready(cur)) {
				if left <= 0 && turn == 1 && s.get(cur) != ended {
					hit = true
				}
				if left > 0 && s.get(cur) == running {
					// waits for another client: its turn ends here
				}
				next()
			}
			c = cur
			if c < 0 {
				for i := 0; i < n; i++ {
					if ready(i) {
						c = i
						break
					}
				}
			}
			left--
		}
		s.step(c, patience)
	}
	return true, hit
}

type concTrace struct {
	Script int    `json:"script"`
	K      int    `json:"k"`
	J      int    `json:"j"`
	Events []obj  `json:"events"`
	Infra  string `json:"infra,omitempty"`
}

func (s *concScript) run(idx, pi, first int) (concTrace, bool) {
	t := concTrace{Script: idx, K: pi, J: first}
	e, err := newEnv(s.Backend, filepath.Join(scratchRoot, fmt.Sprintf("c%d_%d_%d", idx, pi, first)), opTimeout, false)
	if err != nil {
		t.Infra = err.Error()
		return t, false
	}
	defer e.close()
	e.concurrent = true
	var mu sync.Mutex
	log := func(o obj) {
		mu.Lock()
		t.Events = append(t.Events, o)
		mu.Unlock()
	}
	request := func(c int, step obj) {
		call := obj{"k": "call", "c": c + 1, "q": step}
		log(call)
		resp := e.guarded(step)
		mu.Lock()
		call["resp"] = resp
		t.Events = append(t.Events, obj{"k": "ret", "c": c + 1})
		if resp["r"] == "infra" {
			t.Infra = fmt.Sprint(resp["msg"])
		}
		mu.Unlock()
	}
	hanging := func() concTrace {
		mu.Lock()
		defer mu.Unlock()
		out := concTrace{Script: idx, K: pi, J: first, Infra: t.Infra}
		for _, ev := range t.Events {
			c := obj{}
			for k, v := range ev {
				c[k] = v
			}
			if c["k"] == "call" && c["resp"] == nil {
				c["resp"] = obj{"r": "hang"}
			}
			out.Events = append(out.Events, c)
		}
		out.Events = append(out.Events, obj{"k": "hang", "c": 0})
		return out
	}
	timed := func(f func()) bool {
		done := make(chan struct{})
		go func() { f(); close(done) }()
		select {
		case <-done:
			return true
		case <-time.After(opTimeout):
			return false
		}
	}
	for _, st := range s.Setup {
		if !timed(func() { request(0, st) }) {
			return hanging(), false
		}
	}
	n := len(s.Clients)
	free := pi < 0
	var sched *scheduler
	if !free {
		sched = newScheduler(n)
		e.kv.gate = sched.gate
	}
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for c := range s.Clients {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			if sched != nil {
				sched.mu.Lock()
				sched.byGo[goid()] = c
				sched.mu.Unlock()
			} else {
				<-begin
			}
			for _, st := range s.Clients[c] {
				if sched != nil {
					sched.wait(c, atStart)
				}
				request(c, st)
			}
			if sched != nil {
				sched.set(c, ended)
			}
		}(c)
	}
	ok, hit := true, false
	if sched != nil {
		ok, hit = sched.drive(s.Plans[pi], first, 1500*time.Microsecond, opTimeout)
	} else {
		close(begin)
	}
	if ok {
		ok = timed(wg.Wait)
	}
	if !ok {
		return hanging(), hit
	}
	if e.kv != nil {
		e.kv.gate = nil
	}
	for _, st := range s.Final {
		if !timed(func() { request(0, st) }) {
			return hanging(), hit
		}
	}
	return t, hit
}

type concOutput struct {
	Strs   map[string][]obj `json:"strs"`
	Traces []concTrace      `json:"traces"`
}

func runConcurrent(in, out string, workers int) {
	var scripts []concScript
	readJSON(in, &scripts)
	results := make([][]concTrace, len(scripts))
	jobs := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range jobs {
				s := &scripts[i]
				for pi, p := range s.Plans {
					for k := 0; k < 200; k++ {
						t, hit := s.run(i, pi, k)
						results[i] = append(results[i], t)
						if !p.Sweep || !hit {
							break
						}
					}
				}
				for k := 0; k < s.Free; k++ {
					t, _ := s.run(i, -1, k)
					results[i] = append(results[i], t)
				}
			}
		}()
	}
	for i := range scripts {
		jobs <- i
	}
	close(jobs)
	wg.Wait()
	o := concOutput{Strs: map[string][]obj{"": {}}, Traces: []concTrace{}}
	for i, s := range scripts {
		for _, st := range s.Setup {
			texts(st, o.Strs)
		}
		for _, st := range s.Final {
			texts(st, o.Strs)
		}
		for _, c := range s.Clients {
			for _, st := range c {
				texts(st, o.Strs)
			}
		}
		o.Traces = append(o.Traces, results[i]...)
	}
	writeJSON(out, o)
}

// parScript lets clients run at full speed. Either they only read what setup wrote, and the distinct answers are
// recorded as if they had been asked for one after the other, or each has a policy of its own which nobody else
// uses, and each repetition of what it does is recorded as if it had been alone.
type parScript struct {
	Name    string  `json:"name"`
	Backend string  `json:"backend"`
	Setup   []obj   `json:"setup"`
	Clients [][]obj `json:"clients"`
	Final   []obj   `json:"final"`
	Repeat  int     `json:"repeat"`
	Own     bool    `json:"own"`
}

func (s *parScript) run(idx int) []concTrace {
	failed := func(msg string) []concTrace { return []concTrace{{Script: idx, Infra: msg}} }
	e, err := newEnv(s.Backend, filepath.Join(scratchRoot, fmt.Sprintf("p%d", idx)), opTimeout, false)
	if err != nil {
		return failed(err.Error())
	}
	defer e.close()
	e.concurrent = true
	event := func(step, resp obj) obj {
		ev := obj{}
		for k, v := range step {
			ev[k] = v
		}
		ev["fault"], ev["j"], ev["now"], ev["resp"] = "", "all", 0, resp
		return ev
	}
	var setup, final []obj
	sequential := func(steps []obj, to *[]obj) {
		for _, st := range steps {
			if st["op"] == "Reopen" {
				resp := obj{"r": "ok"}
				if err := e.reopen(); err != nil {
					resp = obj{"r": "infra", "msg": err.Error()}
				}
				*to = append(*to, event(st, resp))
				continue
			}
			*to = append(*to, event(st, e.guarded(st)))
		}
	}
	sequential(s.Setup, &setup)
	// the connections exist before the clients begin
	for _, c := range s.Clients {
		for _, st := range c {
			if st["via"] == "grpc" || st["via"] == "grpc2" {
				if _, _, err := e.client(1); err != nil {
					return failed(err.Error())
				}
			}
		}
	}
	var mu sync.Mutex
	seen := map[string]bool{}
	var kept [][]obj // of each client or repetition
	now := make([]obj, len(s.Clients))
	keep := func(key string, evs []obj) {
		mu.Lock()
		if !seen[key] {
			seen[key] = true
			kept = append(kept, evs)
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for c := range s.Clients {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			<-begin
			mine := map[string]bool{}
			for k := 0; k < s.Repeat; k++ {
				var evs []obj
				for j := range s.Clients[c] {
					st := s.Clients[c][j]
					if !s.Own {
						// clients begin at different places
						st = s.Clients[c][(j+c*7+k)%len(s.Clients[c])]
					}
					mu.Lock()
					now[c] = st
					mu.Unlock()
					ev := event(st, e.guarded(st))
					if s.Own {
						evs = append(evs, ev)
						continue
					}
					b, _ := json.Marshal(ev)
					if !mine[string(b)] {
						mine[string(b)] = true
						keep(string(b), []obj{ev})
					}
				}
				if s.Own {
					b, _ := json.Marshal(evs)
					keep(string(b), evs)
				}
			}
			mu.Lock()
			now[c] = nil
			mu.Unlock()
		}(c)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	close(begin)
	select {
	case <-done:
	case <-time.After(opTimeout):
		mu.Lock()
		defer mu.Unlock()
		for c := range now {
			if now[c] != nil {
				return []concTrace{{Script: idx, Events: append(setup, event(now[c], obj{"r": "hang"}))}}
			}
		}
		return failed("clients end too late")
	}
	sequential(s.Final, &final)
	var out []concTrace
	if s.Own {
		for k, evs := range kept {
			out = append(out, concTrace{Script: idx, K: k, Events: evs})
		}
	} else {
		t := concTrace{Script: idx, Events: setup}
		for _, evs := range kept {
			t.Events = append(t.Events, evs...)
		}
		t.Events = append(t.Events, final...)
		out = append(out, t)
	}
	for _, t := range out {
		for _, ev := range t.Events {
			if resp := ev["resp"].(obj); resp["r"] == "infra" {
				return failed(fmt.Sprint(resp["msg"]))
			}
		}
	}
	return out
}

func runParallel(in, out string) {
	var scripts []parScript
	readJSON(in, &scripts)
	o := concOutput{Strs: map[string][]obj{"": {}}, Traces: []concTrace{}}
	for i := range scripts {
		s := &scripts[i]
		for _, part := range append([][]obj{s.Setup, s.Final}, s.Clients...) {
			for _, st := range part {
				texts(st, o.Strs)
			}
		}
		o.Traces = append(o.Traces, s.run(i)...)
	}
	writeJSON(out, o)
}
