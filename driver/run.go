package main

import (
	"bufio"
	"encoding/json"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

type scenario struct {
	Sid     string   `json:"sid"`
	Mod     string   `json:"mod"`
	Backend string   `json:"backend"`
	Crypto  string   `json:"crypto"`
	Steps   []step   `json:"steps"`
	Base    list     `json:"base"`
	Plugins []string `json:"plugins"`
	F2L     obj      `json:"f2l"`
}

func runScenarios(in, outName, scratch string) {
	initProcess(scratch)
	f, err := os.Open(in)
	if err != nil {
		die("%v", err)
	}
	rec := newRecorder(outName)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var s scenario
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			die("scenario: %v", err)
		}
		runScenario(rec, &s, scratch)
	}
	rec.emit(obj{"done": true})
}

// guard ends the process if a request takes far too long.
func guard(rec *recorder) func() {
	t := time.AfterFunc(20*time.Second, func() {
		rec.w.Flush()
		os.Exit(7)
	})
	return func() { t.Stop() }
}

// module executes the requests of one part of the system.
type module interface {
	exec(st step, line obj)
	close()
}

var modules = map[string]func(s *scenario, scratch string) module{}

func runModule(rec *recorder, s *scenario, scratch string) {
	f, ok := modules[s.Mod]
	if !ok {
		die("unknown module %q", s.Mod)
	}
	m := f(s, scratch)
	defer m.close()
	rec.emit(obj{"op": "Reset", "sid": s.Sid, "mod": s.Mod, "backend": s.Backend})
	for i, st := range s.Steps {
		rec.emit(obj{"begin": i, "sid": s.Sid, "step": st})
		g := guard(rec)
		line := obj{}
		for k, v := range st {
			line[k] = v
		}
		m.exec(st, line)
		g()
		rec.emit(line)
	}
}

func runScenario(rec *recorder, s *scenario, scratch string) {
	if s.Mod != "" && s.Backend != "netauthd" {
		runModule(rec, s, scratch)
		return
	}
	if s.Backend == "netauthd" {
		s.Crypto = "bcrypt"
	}
	if s.Backend == "" {
		s.Backend = "memory"
	}
	if s.Crypto == "" {
		s.Crypto = "nocrypto"
	}
	e := newEnv(s.Backend, s.Crypto, scratch)
	e.sc = s
	defer func() {
		e.stop()
		os.RemoveAll(e.home)
	}()
	if s.Base == nil {
		s.Base = list{}
	}
	reset := obj{"op": "Reset", "sid": s.Sid, "base": s.Base}
	if s.Mod != "" {
		reset["mod"], reset["plugins"] = s.Mod, s.Plugins
		if s.F2L != nil {
			reset["f2l"] = s.F2L
		}
	}
	rec.emit(reset)
	for i, st := range s.Steps {
		// announced first, so that a crash can be attributed
		rec.emit(obj{"begin": i, "sid": s.Sid, "step": st})
		g := guard(rec)
		line := obj{}
		for k, v := range st {
			line[k] = v
		}
		e.exec(st, line)
		g()
		rec.emit(line)
		if atomic.LoadInt32(&e.hung) != 0 {
			// whatever is stuck in this process stays stuck
			e.stopReal(true)
			rec.w.Flush()
			os.Exit(8)
		}
	}
}

func (e *env) note(st step) {
	if v := st.str("sec"); st.str("op") == "EntityCreate" || st.str("op") == "AuthChangeSecret" {
		e.plain[v] = true
	}
}

func (e *env) exec(st step, line obj) {
	if e.backend == "netauthd" {
		e.realExec(st, line)
		return
	}
	e.execEnv(st, line)
}

func (e *env) execEnv(st step, line obj) {
	switch st.str("op") {
	case "Restart":
		e.stop()
		err := e.start(st.boolean("ro"), st.str("bid"), st.str("bsec"))
		if err != nil {
			line["res"] = "FAILED"
			line["err"] = err.Error()
			line["de"], line["xe"], line["dg"], line["xg"] = list{}, list{}, list{}, list{}
			return
		}
		line["res"] = "OK"
		e.delta(line)
	case "Probe":
		line["res"] = "OK"
		for k, v := range e.probe(st) {
			line[k] = v
		}
		e.delta(line)
	case "Fault":
		call := st.sub("call")
		e.note(call)
		e.ctl.arm()
		e.ctl.mu.Lock()
		e.ctl.faultN, e.ctl.faultKind, e.ctl.late = st.num("n"), st.str("kind"), st.boolean("late")
		e.ctl.mu.Unlock()
		code, out, raw := e.do(call)
		line["hit"] = e.ctl.faultHit
		e.ctl.arm()
		line["res"], line["out"], line["leak"] = code, out, e.secretsIn(raw)
		e.delta(line)
	case "Crash":
		call := st.sub("call")
		e.note(call)
		e.ctl.arm()
		e.ctl.mu.Lock()
		e.ctl.crashN, e.ctl.crashAfter = st.num("n"), st.boolean("after")
		e.ctl.mu.Unlock()
		code, out, raw := e.do(call)
		hit := e.ctl.crashHit
		if hit {
			atomic.StoreInt32(&e.hung, 0)
		}
		line["hit"] = hit
		line["leak"] = e.secretsIn(raw)
		e.stop()
		if err := e.start(st.boolean("ro"), "", ""); err != nil {
			line["res"] = "FAILED"
			line["err"] = err.Error()
			line["out"] = list{}
			line["de"], line["xe"], line["dg"], line["xg"] = list{}, list{}, list{}, list{}
			return
		}
		line["res"], line["out"] = code, out
		if hit {
			line["res"], line["out"] = "DIED", list{}
		}
		e.delta(line)
	case "Par":
		e.par(st, line)
	default:
		e.note(st)
		code, out, raw := e.do(st)
		line["res"], line["out"], line["leak"] = code, out, e.secretsIn(raw)
		if st.str("via") == "lib" && st.str("op") == "GroupInfo" && code == "OK" {
			line["subs"], line["plain"] = e.subs, plainName(st.str("g"))
		}
		e.delta(line)
	}
}

// par runs several sequences of requests concurrently under a scheduler.
func (e *env) par(st step, line obj) {
	var seq int64
	var wg sync.WaitGroup
	var mu sync.Mutex
	hist := list{}
	branches := st.list("branches")
	for _, b := range branches {
		for _, c := range step(obj{"x": b}).steps("x") {
			e.note(c)
		}
	}
	var s *scheduler
	if st.str("strategy") != "free" {
		s = newScheduler(int64(st.num("seed")), st.str("strategy"))
		s.rets = st.boolean("rets")
		e.ctl.mu.Lock()
		e.ctl.sched = s
		e.ctl.mu.Unlock()
	}
	for _, b := range branches {
		calls := step(obj{"x": b}).steps("x")
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, c := range calls {
				a := atomic.AddInt64(&seq, 1)
				code, out, _ := e.do(c)
				z := atomic.AddInt64(&seq, 1)
				mu.Lock()
				hist = append(hist, obj{"c": c, "res": code, "out": out, "s": a, "e": z})
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if s != nil {
		e.ctl.mu.Lock()
		e.ctl.sched = nil
		e.ctl.mu.Unlock()
		s.finish()
		line["sched"] = len(s.log)
	}
	line["hist"] = hist
	if r := races(); len(r) > 0 {
		line["races"] = r
	}
	line["res"] = "OK"
	delete(line, "branches")
	e.delta(line)
}
