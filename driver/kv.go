package main

import (
	"errors"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
)

var errInjected = errors.New("injected storage failure")

// control decides what happens at each storage access of the server.
type control struct {
	mu sync.Mutex

	// dead: the server was "killed"; nothing reaches the store any more.
	dead bool

	// fault: fail the n-th access (1-based) from now on, counted over
	// accesses of the given kind ("" = any); only until the first
	// completed change, so that it hits the request itself and not the
	// event processing which follows it; unless late.
	faultN    int
	late      bool
	faultKind string
	faultHit  bool
	// crash: die at the n-th access; after: let that access complete first
	crashN     int
	crashAfter bool
	crashHit   bool
	// changes completed since arming
	changed int

	// sched: pause every access and let a scheduler choose.
	sched *scheduler
}

func (c *control) arm() {
	c.mu.Lock()
	c.faultN, c.faultKind, c.faultHit = 0, "", false
	c.crashN, c.crashAfter, c.crashHit = 0, false, false
	c.changed, c.late = 0, false
	c.mu.Unlock()
}

// before is called ahead of every access.  It returns an error if the access
// must fail, and whether the server dies right after the access.
func (c *control) before(kind, key string) (error, bool) {
	c.mu.Lock()
	s := c.sched
	c.mu.Unlock()
	if s != nil {
		s.wait(kind, key)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.dead {
		return errInjected, false
	}
	if c.faultN > 0 && (c.changed == 0 || c.late) && (c.faultKind == "" || c.faultKind == kind) {
		c.faultN--
		if c.faultN == 0 {
			c.faultHit = true
			return errInjected, false
		}
	}
	if c.crashN > 0 {
		c.crashN--
		if c.crashN == 0 {
			c.crashHit = true
			if !c.crashAfter {
				c.dead = true
				return errInjected, false
			}
			return nil, true
		}
	}
	return nil, false
}

func (c *control) after(die bool, change bool) {
	c.mu.Lock()
	if die {
		c.dead = true
	}
	if change {
		c.changed++
	}
	c.mu.Unlock()
}

// ret is called when an access is over.
func (c *control) ret(key string) {
	c.mu.Lock()
	s := c.sched
	c.mu.Unlock()
	if s != nil && s.rets {
		s.wait("Ret", key)
	}
}

// vkv wraps a real storage backend.
type vkv struct {
	inner db.KVStore
	ctl   *control
	ef    func(db.Event)
}

func (v *vkv) SetEventFunc(f func(db.Event)) {
	v.ef = f
	v.inner.SetEventFunc(func(e db.Event) {
		v.ctl.after(false, true)
		v.ctl.mu.Lock()
		dead := v.ctl.dead
		v.ctl.mu.Unlock()
		if !dead {
			f(e)
		}
	})
}

func (v *vkv) Put(k string, b []byte) error {
	err, die := v.ctl.before("Put", k)
	if err != nil {
		return err
	}
	if die {
		v.inner.SetEventFunc(func(db.Event) {})
	}
	err = v.inner.Put(k, append([]byte(nil), b...))
	v.ctl.after(die, err == nil)
	v.ctl.ret(k)
	if die {
		return errInjected
	}
	return err
}

func (v *vkv) Get(k string) ([]byte, error) {
	err, die := v.ctl.before("Get", k)
	if err != nil {
		return nil, err
	}
	b, err := v.inner.Get(k)
	v.ctl.after(die, false)
	v.ctl.ret(k)
	if die {
		return nil, errInjected
	}
	if b != nil {
		b = append([]byte(nil), b...)
	}
	return b, err
}

func (v *vkv) Del(k string) error {
	err, die := v.ctl.before("Del", k)
	if err != nil {
		return err
	}
	if die {
		v.inner.SetEventFunc(func(db.Event) {})
	}
	err = v.inner.Del(k)
	v.ctl.after(die, err == nil)
	v.ctl.ret(k)
	if die {
		return errInjected
	}
	return err
}

func (v *vkv) Keys(f string) ([]string, error) {
	err, die := v.ctl.before("Keys", f)
	if err != nil {
		return nil, err
	}
	out, err := v.inner.Keys(f)
	v.ctl.after(die, false)
	v.ctl.ret(f)
	if die {
		return nil, errInjected
	}
	return out, err
}

func (v *vkv) Close() error                    { return v.inner.Close() }
func (v *vkv) Capabilities() []db.KVCapability { return v.inner.Capabilities() }

// The store the next db.New("verif") returns.
var (
	nextInner db.KVStore
	nextCtl   *control
)

func registerKV() {
	db.RegisterKV("verif", func(hclog.Logger) (db.KVStore, error) {
		return &vkv{inner: nextInner, ctl: nextCtl}, nil
	})
}

// scheduler releases paused storage accesses one at a time.
type scheduler struct {
	mu       sync.Mutex
	waiting  []*waiter
	arrival  time.Time
	rets     bool // pause after accesses, too
	rng      *rand.Rand
	strategy string
	stop     chan struct{}
	done     chan struct{}
	log      []string
	n        int          // arrivals so far
	held     map[int]bool // which of them go last
}

type waiter struct {
	kind, key string
	n         int
	ch        chan struct{}
}

const quiet = 250 * time.Microsecond

func newScheduler(seed int64, strategy string) *scheduler {
	s := &scheduler{
		rng:      rand.New(rand.NewSource(seed)),
		strategy: strategy,
		stop:     make(chan struct{}),
		done:     make(chan struct{}),
		arrival:  time.Now(),
	}
	// one or two accesses are kept waiting until nothing else can go on
	s.held = map[int]bool{}
	if strategy == "hold" || strategy == "hold2" {
		s.held[s.rng.Intn(7)] = true
	}
	if strategy == "hold2" {
		s.held[s.rng.Intn(10)] = true
	}
	go s.loop()
	return s
}

func (s *scheduler) wait(kind, key string) {
	w := &waiter{kind, key, 0, make(chan struct{})}
	s.mu.Lock()
	select {
	case <-s.stop:
		s.mu.Unlock()
		return
	default:
	}
	w.n = s.n
	s.n++
	s.waiting = append(s.waiting, w)
	s.arrival = time.Now()
	s.mu.Unlock()
	<-w.ch
}

func (s *scheduler) loop() {
	defer close(s.done)
	for {
		select {
		case <-s.stop:
			s.mu.Lock()
			for _, w := range s.waiting {
				close(w.ch)
			}
			s.waiting = nil
			s.mu.Unlock()
			return
		default:
		}
		time.Sleep(50 * time.Microsecond)
		s.mu.Lock()
		if len(s.waiting) == 0 || time.Since(s.arrival) < quiet {
			s.mu.Unlock()
			continue
		}
		i := s.pick()
		w := s.waiting[i]
		s.waiting = append(s.waiting[:i:i], s.waiting[i+1:]...)
		s.arrival = time.Now()
		s.log = append(s.log, w.kind+" "+w.key)
		s.mu.Unlock()
		close(w.ch)
	}
}

func (s *scheduler) pick() int {
	cand := []int{}
	want := func(w *waiter) bool { return true }
	switch s.strategy {
	case "readsfirst":
		want = func(w *waiter) bool { return w.kind == "Get" || w.kind == "Keys" }
	case "writesfirst":
		want = func(w *waiter) bool { return w.kind == "Put" || w.kind == "Del" }
	case "hold", "hold2":
		want = func(w *waiter) bool { return !s.held[w.n] }
	case "groupslast":
		want = func(w *waiter) bool { return !strings.HasPrefix(w.key, "/groups") }
	}
	for i, w := range s.waiting {
		if want(w) {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return s.rng.Intn(len(s.waiting))
	}
	return cand[s.rng.Intn(len(cand))]
}

func (s *scheduler) finish() {
	s.mu.Lock()
	close(s.stop)
	s.mu.Unlock()
	<-s.done
}
