package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Parts that keep their state in package variables run in a process of their
// own, one for each scenario.

var childModules = map[string]func(s *scenario, scratch string) module{}

func init() { modes["child"] = runChild }

// inChild makes the module m run in child processes.
func inChild(name string, f func(s *scenario, scratch string) module) {
	childModules[name] = f
	modules[name] = newChildMod
}

type childMod struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Scanner
	scratch string
	errf    string
	dead    bool
}

func newChildMod(s *scenario, scratch string) module {
	envCount++
	c := &childMod{scratch: filepath.Join(scratch, fmt.Sprintf("child%d", envCount))}
	os.MkdirAll(c.scratch, 0755)
	self, _ := os.Executable()
	h := *s
	h.Steps = nil
	b, _ := json.Marshal(h)
	c.cmd = exec.Command(self, "child", c.scratch, string(b))
	c.errf = filepath.Join(c.scratch, "stderr")
	ef, err := os.Create(c.errf)
	if err != nil {
		die("%v", err)
	}
	defer ef.Close()
	c.cmd.Stderr = ef
	c.in, _ = c.cmd.StdinPipe()
	r, _ := c.cmd.StdoutPipe()
	c.out = bufio.NewScanner(r)
	c.out.Buffer(make([]byte, 1<<20), 1<<27)
	if err := c.cmd.Start(); err != nil {
		die("child: %v", err)
	}
	return c
}

func (c *childMod) exec(st step, line obj) {
	if c.dead {
		line["res"] = "DEAD"
		return
	}
	b, _ := json.Marshal(st)
	c.in.Write(append(b, '\n'))
	done := make(chan bool, 1)
	t := time.AfterFunc(18*time.Second, func() { c.cmd.Process.Kill() })
	go func() { done <- c.out.Scan() }()
	ok := <-done
	hung := !t.Stop()
	if ok {
		o := obj{}
		if json.Unmarshal(c.out.Bytes(), &o) == nil {
			for k, v := range o {
				line[k] = v
			}
			return
		}
	}
	c.dead = true
	err := c.cmd.Wait()
	e, _ := os.ReadFile(c.errf)
	if strings.Contains(string(e), "driver: ") {
		die("child: %s", e)
	}
	line["op"], line["during"], line["res"] = "CRASH", st.str("op"), "CRASH"
	if hung {
		line["res"] = "HANG"
	}
	line["why"] = fmt.Sprint(err) + " " + tail(string(e), 600)
}

func tail(s string, n int) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > n {
		s = s[:n]
	}
	return s
}

func (c *childMod) close() {
	c.in.Close()
	if !c.dead {
		t := time.AfterFunc(5*time.Second, func() { c.cmd.Process.Kill() })
		c.cmd.Wait()
		t.Stop()
	}
	os.RemoveAll(c.scratch)
}

func runChild(args []string) {
	s := scenario{}
	if err := json.Unmarshal([]byte(args[1]), &s); err != nil {
		die("child: %v", err)
	}
	m := childModules[s.Mod](&s, args[0])
	defer m.close()
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<27)
	out := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		st := step{}
		if err := json.Unmarshal(sc.Bytes(), &st); err != nil {
			die("child: %v", err)
		}
		line := obj{}
		m.exec(st, line)
		b, err := json.Marshal(line)
		if err != nil {
			die("child: %v", err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
