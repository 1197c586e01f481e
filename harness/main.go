// Command harness runs scripts of requests against the real service and records what it did,
// in the form the specification in /verif/spec reads.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// script is a sequence of requests to one instance of the service
type script struct {
	Name    string `json:"name"`
	Backend string `json:"backend"`
	Steps   []obj  `json:"steps"`
	Verbose bool   `json:"verbose"` // with a logger which formats its messages
	// Sweep repeats the script with a fault at every operation of one of the steps
	Sweep *sweep `json:"sweep"`
}

type sweep struct {
	Step  int    `json:"step"`
	Kind  string `json:"kind"`
	Scope string `json:"scope"`
	Stick bool   `json:"stick"`
	Max   int    `json:"max"`
}

type trace struct {
	Script int    `json:"script"`
	K      int    `json:"k"`
	Events []obj  `json:"events"`
	Infra  string `json:"infra,omitempty"`
}

var (
	scratchRoot string
	opTimeout   time.Duration
	progress    string
)

func (e *env) guarded(step obj) (resp obj) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(badRequest); ok {
				resp = obj{"r": "infra", "msg": b.msg}
				return
			}
			resp = obj{"r": "panic", "msg": enc(fmt.Sprint(r))}
		}
	}()
	return e.do(step)
}

// run executes the steps of a script. k is the operation to fail, if not zero.
// The last result is whether the fault happened.
func (s *script) run(idx, k int) (trace, bool) {
	t := trace{Script: idx, K: k}
	dir := filepath.Join(scratchRoot, fmt.Sprintf("s%d_%d", idx, k))
	if progress != "" {
		os.WriteFile(progress, []byte(fmt.Sprintf("%d 0", k)), 0o644)
	}
	e, err := newEnv(s.Backend, dir, opTimeout, s.Verbose)
	var refused notStarted
	if errors.As(err, &refused) && len(s.Steps) > 0 {
		ev := obj{}
		for key, val := range s.Steps[0] {
			ev[key] = val
		}
		ev["fault"], ev["j"], ev["resp"] = "", "all", obj{"r": "dead"}
		t.Events = append(t.Events, ev)
		return t, false
	}
	if err != nil {
		t.Infra = err.Error()
		return t, false
	}
	defer e.close()
	e.starts = []time.Time{}
	fired := false
	for i, step := range s.Steps {
		if progress != "" {
			os.WriteFile(progress, []byte(fmt.Sprintf("%d %d", k, i)), 0o644)
		}
		ev := obj{}
		for key, val := range step {
			ev[key] = val
		}
		ev["fault"] = ""
		if _, ok := ev["j"]; !ok {
			ev["j"] = "all"
		}
		if step["op"] == "Reopen" {
			now := time.Now()
			e.starts, e.ends = append(e.starts, now), append(e.ends, now)
			if err := e.reopen(); err == errUnstable {
				t.Infra = err.Error()
				return t, fired
			} else if err != nil {
				ev["resp"] = obj{"r": "err", "msg": enc(err.Error())}
			} else {
				ev["resp"] = obj{"r": "ok"}
			}
			t.Events = append(t.Events, ev)
			continue
		}
		inject := s.Sweep != nil && k > 0 && s.Sweep.Step == i
		var crashed <-chan struct{}
		if inject {
			plan := &faultPlan{kind: s.Sweep.Kind, scope: s.Sweep.Scope, at: k, stick: s.Sweep.Stick}
			if s.Sweep.Kind == "cancel" {
				// the caller gives up: before the request, or at one of its operations
				e.ctx, plan.give = context.WithCancel(context.Background())
				if plan.at--; k == 1 {
					plan.give()
				}
			}
			e.kv.arm(plan)
			if s.Sweep.Kind == "crash" {
				crashed = e.kv.stop
			}
		}
		if us, ok := step["kill"].(float64); ok {
			// the server process ends during the request
			killer := make(chan struct{})
			crashed = killer
			go func() {
				time.Sleep(time.Duration(us) * time.Microsecond)
				e.killDaemon()
				close(killer)
			}()
		}
		start := time.Now()
		for len(e.ends) > 0 && !start.After(e.ends[len(e.ends)-1]) {
			start = time.Now()
		}
		e.starts = append(e.starts, start)
		done := make(chan obj, 1)
		go func() { done <- e.guarded(step) }()
		timer := time.NewTimer(opTimeout)
		var resp obj
		kill := step["kill"] != nil
		select {
		case resp = <-done:
			if kill {
				<-crashed
				resp = obj{"r": "crash"}
			}
		case <-crashed:
			resp = obj{"r": "crash"}
		case <-timer.C:
			resp = obj{"r": "hang"}
		}
		timer.Stop()
		if inject && e.ctx != nil {
			if via, _ := step["via"].(string); strings.HasPrefix(via, "grpc") && k > 1 {
				e.kv.settle() // the server may still be busy
			}
			e.ctx = nil
		}
		e.ends = append(e.ends, time.Now())
		ev["resp"] = resp
		if kill {
			ev["fault"] = "crash"
			if err := e.reopen(); err != nil {
				t.Infra = err.Error()
				return t, fired
			}
		}
		if inject {
			if resp["r"] == "crash" {
				fired = true
				ev["fault"] = "crash"
				if err := e.reopen(); err != nil {
					t.Infra = err.Error()
					return t, fired
				}
			} else if e.kv.disarm() {
				fired = true
				ev["fault"] = "err"
			}
			if s.Sweep.Kind == "cancel" && (k == 1 || fired) {
				fired = true
				ev["fault"] = "cancel"
			}
		}
		if resp["r"] == "infra" {
			t.Infra = resp["msg"].(string)
			return t, fired
		}
		t.Events = append(t.Events, ev)
		if resp["r"] == "hang" {
			break
		}
	}
	return t, fired
}

type output struct {
	Strs   map[string][]obj `json:"strs"`
	Traces []trace          `json:"traces"`
}

// texts adds the characters of all expression and type texts of a definition
func texts(step obj, strs map[string][]obj) {
	add := func(v any) {
		s, ok := v.(string)
		if !ok {
			return
		}
		if _, ok := strs[s]; !ok {
			strs[s] = charTable(dec(s))
		}
	}
	d, ok := step["def"].(obj)
	if !ok {
		return
	}
	var resources []any
	if p, ok := d["p"].(obj); ok {
		resources = arr(p["resources"])
	}
	if y, ok := d["doc"].(obj); ok {
		resources = append(resources, arr(y["resources"])...)
	}
	for _, r := range resources {
		for _, q := range arr(r.(obj)["relations"]) {
			rel := q.(obj)
			switch x := rel["expr"].(type) {
			case obj:
				add(x["s"])
			case string:
				add(x)
			}
			for _, t := range arr(rel["types"]) {
				add(t)
			}
		}
	}
}

func readJSON(path string, v any) {
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, v)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func writeJSON(path string, v any) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func main() {
	mode := "run"
	args := os.Args[1:]
	if len(args) > 0 && args[0][0] != '-' {
		mode, args = args[0], args[1:]
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	in := fs.String("in", "", "scripts")
	out := fs.String("out", "", "traces")
	fs.StringVar(&scratchRoot, "scratch", "", "scratch directory")
	workers := fs.Int("workers", 8, "scripts run at once")
	timeout := fs.Float64("timeout", 30, "seconds until a request counts as hanging")
	fs.StringVar(&cliPath, "cli", "", "the command line client")
	fs.StringVar(&daemonPath, "daemon", "", "the server program")
	fs.StringVar(&progress, "progress", "", "file to note progress in")
	fs.Parse(args)
	opTimeout = time.Duration(*timeout * float64(time.Second))
	debug.SetMaxStack(512 << 20)

	switch mode {
	case "run":
		runScripts(*in, *out, *workers)
	case "texts":
		var scripts []script
		readJSON(*in, &scripts)
		o := output{Strs: map[string][]obj{"": {}}, Traces: []trace{}}
		for _, s := range scripts {
			for _, st := range s.Steps {
				texts(st, o.Strs)
			}
		}
		writeJSON(*out, o)
	case "conc":
		runConcurrent(*in, *out, *workers)
	case "par":
		runParallel(*in, *out)
	default:
		fmt.Fprintln(os.Stderr, "harness: mode", mode)
		os.Exit(3)
	}
}

func runScripts(in, out string, workers int) {
	var scripts []script
	readJSON(in, &scripts)
	results := make([][]trace, len(scripts))
	jobs := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range jobs {
				s := &scripts[i]
				if s.Sweep == nil {
					t, _ := s.run(i, 0)
					results[i] = []trace{t}
					continue
				}
				for k := 1; k <= s.Sweep.Max; k++ {
					t, fired := s.run(i, k)
					results[i] = append(results[i], t)
					if !fired {
						break
					}
				}
			}
		}()
	}
	for i := range scripts {
		jobs <- i
	}
	close(jobs)
	wg.Wait()
	o := output{Strs: map[string][]obj{"": {}}, Traces: []trace{}}
	for i, s := range scripts {
		for _, st := range s.Steps {
			texts(st, o.Strs)
		}
		o.Traces = append(o.Traces, results[i]...)
		for _, t := range results[i] {
			for _, ev := range t.Events {
				if text, ok := ev["resp"].(obj)["text"].(string); ok {
					o.Strs[text] = charTable(dec(text))
				}
			}
		}
	}
	writeJSON(out, o)
}
