package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/db"
)

// The storage backends by themselves: sequences of store operations, also in
// a child process that is killed, or whose system calls fail, at a chosen
// point.

func init() {
	modules["store"] = newStoreMod
	modes["store-child"] = storeChild
	// the traced thread of a child process is the one that works
	if len(os.Args) > 1 && os.Args[1] == "store-child" {
		runtime.LockOSThread()
	}
}

// valBytes turns a label "name:length" into bytes, and back by memory.
func valBytes(label string) []byte {
	n := 0
	if i := strings.LastIndex(label, ":"); i >= 0 {
		n, _ = strconv.Atoi(label[i+1:])
	}
	h := fnv.New64a()
	h.Write([]byte(label))
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	b := make([]byte, n)
	r.Read(b)
	return append(b, []byte("\x00"+label)...)
}

func valLabel(b []byte) string {
	i := bytes.LastIndexByte(b, 0)
	if i < 0 {
		return fmt.Sprintf("?torn%d", len(b))
	}
	l := string(b[i+1:])
	if !bytes.Equal(valBytes(l), b) {
		return fmt.Sprintf("?torn%d", len(b))
	}
	return l
}

func keyOf(st step) string {
	k := st.strs("k")
	return "/" + k[0] + "/" + k[1]
}

func splitKey(k string) list {
	p := strings.SplitN(k, "/", 3)
	if len(p) != 3 || p[0] != "" {
		return list{"?", k}
	}
	return list{p[1], p[2]}
}

var evNames = map[db.EventType]string{
	db.EventEntityCreate: "EntityCreate", db.EventEntityUpdate: "EntityUpdate", db.EventEntityDestroy: "EntityDestroy",
	db.EventGroupCreate: "GroupCreate", db.EventGroupUpdate: "GroupUpdate", db.EventGroupDestroy: "GroupDestroy",
}

func storeErr(err error) string {
	switch err {
	case nil:
		return "OK"
	case db.ErrNoValue:
		return "NOVALUE"
	}
	return "ERR"
}

type storeMod struct {
	backend, home string
	kv            db.KVStore
	mu            sync.Mutex
	ev            list
}

func newStoreMod(s *scenario, scratch string) module {
	envCount++
	m := &storeMod{backend: s.Backend, home: filepath.Join(scratch, fmt.Sprintf("store%d", envCount))}
	os.MkdirAll(m.home, 0755)
	if err := m.open(); err != nil {
		die("store: %v", err)
	}
	return m
}

func (m *storeMod) open() error {
	viper.Set("core.home", m.home)
	kv, err := db.NewKV(m.backend, hclog.NewNullLogger())
	if err != nil {
		return err
	}
	m.kv = kv
	kv.SetEventFunc(func(e db.Event) {
		dir := "groups"
		if strings.HasPrefix(evNames[e.Type], "Entity") {
			dir = "entities"
		}
		b, err := m.kv.Get("/" + dir + "/" + e.PK)
		seen := storeErr(err)
		if err == nil {
			seen = valLabel(b)
		}
		m.mu.Lock()
		m.ev = append(m.ev, list{evNames[e.Type], e.PK, seen})
		m.mu.Unlock()
	})
	return nil
}

func (m *storeMod) shut() {
	if m.kv != nil {
		m.kv.Close()
		m.kv = nil
	}
}

func (m *storeMod) close() {
	m.shut()
	os.RemoveAll(m.home)
}

func (m *storeMod) state(line obj, field string) {
	ks, err := m.kv.Keys("/*/*")
	if err != nil {
		line[field+"err"] = "Keys: " + err.Error()
		line[field] = list{}
		return
	}
	sort.Strings(ks)
	out := list{}
	for _, k := range ks {
		b, err := m.kv.Get(k)
		v := "?" + storeErr(err)
		if err == nil {
			v = valLabel(b)
		}
		sk := splitKey(k)
		out = append(out, list{sk[0], sk[1], v})
	}
	line[field] = out
}

func (m *storeMod) call(st step, line obj) {
	switch st.str("op") {
	case "Put":
		line["res"] = storeErr(m.kv.Put(keyOf(st), valBytes(st.str("v"))))
	case "Get":
		b, err := m.kv.Get(keyOf(st))
		line["res"], line["val"] = storeErr(err), ""
		if err == nil {
			line["val"] = valLabel(b)
		}
	case "Del":
		line["res"] = storeErr(m.kv.Del(keyOf(st)))
	case "Keys":
		p := "/" + st.str("dir") + "/" + st.str("pre")
		if st.boolean("star") {
			p += "*"
		}
		ks, err := m.kv.Keys(p)
		out := list{}
		for _, k := range ks {
			out = append(out, splitKey(k))
		}
		line["res"], line["out"] = storeErr(err), out
	default:
		die("store: unknown op %q", st.str("op"))
	}
}

func (m *storeMod) exec(st step, line obj) {
	m.ev = list{}
	switch st.str("op") {
	case "Reopen":
		line["res"] = "OK"
		if m.backend == "memory" {
			break
		}
		m.shut()
		if err := m.open(); err != nil {
			line["res"], line["err"] = "FAILED", err.Error()
			line["st"] = list{}
			return
		}
	case "KillRun":
		m.killRun(st, line)
		if m.kv == nil {
			line["st"] = list{}
			return
		}
	case "Par":
		var wg sync.WaitGroup
		bs := st.list("branches")
		res := make(list, len(bs))
		for i, b := range bs {
			wg.Add(1)
			go func(i int, calls []step) {
				defer wg.Done()
				out := list{}
				for _, c := range calls {
					l := obj{}
					for k, v := range c {
						l[k] = v
					}
					m.call(c, l)
					out = append(out, l)
				}
				res[i] = out
			}(i, step(obj{"x": b}).steps("x"))
		}
		wg.Wait()
		line["branches"], line["res"] = res, "OK"
	default:
		m.call(st, line)
	}
	line["ev"] = m.ev
	m.state(line, "st")
}

// killRun lets a child process perform the calls on the same files.
func (m *storeMod) killRun(st step, line obj) {
	if st.boolean("close") {
		m.shut()
	} else if m.kv != nil {
		// given up without closing, like a killed process: the files
		// are used through a copy
		old := m.home
		envCount++
		m.home = filepath.Join(filepath.Dir(old), fmt.Sprintf("store%d", envCount))
		if b, err := exec.Command("cp", "-a", old, m.home).CombinedOutput(); err != nil {
			die("copy: %v %s", err, b)
		}
		m.shut()
		os.RemoveAll(old)
	}
	steps := filepath.Join(m.home, "child.steps")
	outN := filepath.Join(m.home, "child.out")
	b, _ := json.Marshal(st.list("steps"))
	os.WriteFile(steps, b, 0644)
	os.Remove(outN)
	self, _ := os.Executable()
	args := []string{"-o", filepath.Join(m.home, "child.strace"), "-e", "trace=" + st.str("calls")}
	if in := st.str("inject"); in != "" {
		// counted from the start of the child's own work
		n0 := m.offset(st)
		in = strings.Replace(in, "NTH", strconv.Itoa(n0+st.num("n")), 1)
		args = append(args, "-e", "inject="+st.str("calls")+":"+in)
	}
	args = append(args, self, "store-child", m.backend, m.home, steps, outN)
	cmd := exec.Command("strace", args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=off")
	cmd.Dir = m.home
	eb, err := cmd.CombinedOutput()
	line["died"] = err != nil
	acks := list{}
	line["cst"], line["cdone"], line["opened"] = list{}, false, false
	line["cres"] = "OK"
	if f, err := os.Open(outN); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			o := obj{}
			if json.Unmarshal(sc.Bytes(), &o) != nil {
				break
			}
			switch {
			case o["start"] != nil:
			case o["opened"] != nil:
				line["opened"] = true
			case o["failed"] != nil:
				line["cres"] = "FAILED"
				line["err"] = o["failed"]
			case o["cst"] != nil:
				line["cst"], line["cdone"] = o["cst"], true
				if e, ok := o["csterr"]; ok {
					line["csterr"] = e
				}
			case o["closed"] != nil:
			default:
				acks = append(acks, o)
			}
		}
		f.Close()
	}
	if len(acks) == 0 && err != nil && len(eb) > 0 {
		line["childerr"] = fmt.Sprintf("%.400s", eb)
	}
	line["acks"] = acks
	for _, f := range []string{steps, outN, filepath.Join(m.home, "child.strace")} {
		os.Remove(f)
	}
	line["res"] = "OK"
	if err := m.open(); err != nil {
		line["res"], line["err"] = "FAILED", err.Error()
		m.kv = nil
	}
}

var offsets = map[string]int{}

// offset counts the matching system calls before the child's own work: before
// it opens the store or, for failing calls, before the first operation.
func (m *storeMod) offset(st step) int {
	calls := st.str("calls")
	mark, home, backend := "start", m.home, "memory"
	if st.str("mode") == "error" {
		mark, backend = "opened", m.backend
		home = m.home + ".cal"
		if b, err := exec.Command("cp", "-a", m.home, home).CombinedOutput(); err != nil {
			die("copy: %v %s", err, b)
		}
		defer os.RemoveAll(home)
	} else if n, ok := offsets[calls]; ok {
		return n
	}
	self, _ := os.Executable()
	lf := filepath.Join(home, "cal.strace")
	outN := filepath.Join(home, "cal.out")
	cmd := exec.Command("strace", "-o", lf, "-e", "trace=write,"+calls, self, "store-child", backend, home, "", outN)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=off")
	cmd.Dir = home
	if b, err := cmd.CombinedOutput(); err != nil {
		die("calibration: %v %s", err, b)
	}
	b, _ := os.ReadFile(lf)
	n := 0
	found := false
	want := map[string]bool{}
	for _, c := range strings.Split(calls, ",") {
		want[c] = true
	}
	for _, l := range strings.Split(string(b), "\n") {
		i := strings.IndexByte(l, '(')
		if i < 0 {
			continue
		}
		if want[l[:i]] {
			n++
		}
		if strings.HasPrefix(l, "write(") && strings.Contains(l, mark) {
			found = true
			break
		}
	}
	if !found {
		die("calibration: no start mark")
	}
	os.Remove(lf)
	os.Remove(outN)
	if mark == "start" {
		offsets[calls] = n
	}
	return n
}

// storeChild BACKEND HOME STEPS OUT
func storeChild(a []string) {
	registerBackends()
	f, err := os.OpenFile(a[3], os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		os.Exit(9)
	}
	var cs []step
	if a[2] != "" {
		b, err := os.ReadFile(a[2])
		if err != nil {
			os.Exit(9)
		}
		var raw list
		if json.Unmarshal(b, &raw) != nil {
			os.Exit(9)
		}
		cs = step(obj{"x": raw}).steps("x")
	}
	say := func(o obj) {
		b, _ := json.Marshal(o)
		if _, err := f.Write(append(b, '\n')); err != nil {
			os.Exit(9)
		}
	}
	say(obj{"start": 1})
	m := &storeMod{backend: a[0], home: a[1]}
	if err := m.open(); err != nil {
		say(obj{"failed": err.Error()})
		os.Exit(0)
	}
	say(obj{"opened": 1})
	for _, c := range cs {
		if c.str("op") == "Close" {
			m.kv.Close()
			say(obj{"closed": 1})
			os.Exit(0)
		}
		m.ev = list{}
		l := obj{"op": c.str("op")}
		m.call(c, l)
		l["ev"] = m.ev
		say(l)
	}
	l := obj{}
	m.state(l, "cst")
	say(l)
	os.Exit(0)
}
