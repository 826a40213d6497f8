package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc"

	"github.com/netauth/netauth/internal/db"
	plugin "github.com/netauth/netauth/pkg/plugin/tree"
	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// real runs requests against a netauthd process, possibly with plugins.

type real struct {
	cmd  *exec.Cmd
	addr string
	dead chan struct{}
	seen int64 // how much of the plugins' log was read
}

var realCount int

// realAddr is an address that no other driver process uses.
func realAddr() (string, int) {
	p := os.Getpid()
	addr := fmt.Sprintf("127.%d.%d.%d", 1+(p>>16)&127, (p>>8)&255, p&255)
	for {
		realCount++
		port := 10000 + realCount%20000
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", addr, port))
		if err == nil {
			l.Close()
			return addr, port
		}
	}
}

func (e *env) pluginSetup() {
	dir := filepath.Join(e.home, "plugins")
	os.MkdirAll(dir, 0755)
	self, _ := os.Executable()
	for _, p := range e.sc.Plugins {
		script := ""
		switch p {
		case "!exit":
			p, script = "broken", "exit 1"
		case "!noexec":
			p, script = "broken", ""
		case "!garbage":
			p, script = "broken", "echo hello; sleep 600"
		case "fail2lock":
			script = fmt.Sprintf("cd '%s' && exec '%s'", e.home, bin("fail2lock"))
		default:
			script = fmt.Sprintf("exec '%s' plugin '%s' '%s'", self, p, e.home)
		}
		mode := os.FileMode(0755)
		if script == "" {
			mode = 0644
		}
		ioutil.WriteFile(filepath.Join(dir, p+".treeplugin"), []byte("#!/bin/sh\n"+script+"\n"), mode)
	}
}

func (e *env) startReal(ro bool, bid, bsec string) error {
	os.MkdirAll(e.home, 0755)
	viper.Set("core.home", e.home)
	if e.store == nil {
		// a second view of the files, to look behind the server's back
		kv, err := db.NewKV("filesystem", hclog.NewNullLogger())
		if err != nil {
			return err
		}
		e.store = kv
	}
	e.ctl = &control{}
	e.pluginSetup()
	addr, port := realAddr()
	conf := obj{
		"core":   obj{"home": e.home, "conf": viper.GetString("core.conf")},
		"db":     obj{"backend": "filesystem"},
		"crypto": obj{"backend": "bcrypt", "bcrypt": obj{"cost": 4}},
		"token":  obj{"backend": "jwt-rsa", "lifetime": "1h", "jwt": obj{"generate": true, "bits": 1024}},
		"server": obj{"bind": addr, "port": port, "readonly": ro},
	}
	pc := obj{"enabled": len(e.sc.Plugins) > 0, "path": "plugins"}
	if e.sc.F2L != nil {
		pc["fail2lock"] = e.sc.F2L
	}
	conf["plugin"] = pc
	b, _ := json.Marshal(conf)
	ioutil.WriteFile(filepath.Join(e.home, "config.json"), b, 0644)
	r := &real{addr: fmt.Sprintf("%s:%d", addr, port), dead: make(chan struct{})}
	args := []string{"--tls.PWN_ME"}
	if bid != "" {
		e.plain[bsec] = true
		args = append(args, "--server.bootstrap", bid+":"+bsec)
	}
	r.cmd = exec.Command(bin("netauthd"), args...)
	r.cmd.Dir = e.home
	r.cmd.Env = append(os.Environ(), "NETAUTH_LOGLEVEL=ERROR", "HOME="+e.home)
	errf, err := os.OpenFile(filepath.Join(e.home, "netauthd.log"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		return err
	}
	defer errf.Close()
	r.cmd.Stdout, r.cmd.Stderr = errf, errf
	r.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := r.cmd.Start(); err != nil {
		return err
	}
	e.real = r
	go func() { r.cmd.Wait(); close(r.dead) }()
	deadline := time.Now().Add(15 * time.Second)
	for {
		c, err := net.DialTimeout("tcp", r.addr, time.Second)
		if err == nil {
			c.Close()
			break
		}
		select {
		case <-r.dead:
			l, _ := ioutil.ReadFile(filepath.Join(e.home, "netauthd.log"))
			return fmt.Errorf("netauthd ended: %s", tail(string(l), 600))
		default:
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("netauthd does not listen")
		}
		time.Sleep(3 * time.Millisecond)
	}
	e.libc = nil
	conn, err := grpc.Dial(r.addr, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(64<<20)))
	if err != nil {
		return err
	}
	e.conn = conn
	e.cl = pb.NewNetAuth2Client(conn)
	e.ts = processTokens
	return nil
}

func (r *real) alive() bool {
	select {
	case <-r.dead:
		return false
	default:
		return true
	}
}

// stopReal ends the server: politely, or with a kill.
func (e *env) stopReal(kill bool) {
	r := e.real
	if r == nil {
		return
	}
	if !kill {
		r.cmd.Process.Signal(syscall.SIGTERM)
		select {
		case <-r.dead:
		case <-time.After(5 * time.Second):
		}
	}
	syscall.Kill(-r.cmd.Process.Pid, syscall.SIGKILL)
	<-r.dead
	e.real = nil
}

// ---- the test plugin -----------------------------------------------------

func init() { modes["plugin"] = runPlugin }

type testPlugin struct {
	name, dir string
	mu        sync.Mutex
}

func runPlugin(args []string) {
	go func() {
		for os.Getppid() != 1 {
			time.Sleep(200 * time.Millisecond)
		}
		os.Exit(0)
	}()
	plugin.PluginMain(&testPlugin{name: args[0], dir: args[1]})
}

// seen records a call and says what to do about it.
func (p *testPlugin) seen(a, id string, rec, data interface{}) string {
	b, _ := json.Marshal(obj{"p": p.name, "a": a, "id": id, "rec": rec, "data": data})
	f, err := os.OpenFile(filepath.Join(p.dir, "calls"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err == nil {
		f.Write(append(b, '\n'))
		f.Close()
	}
	d, _ := ioutil.ReadFile(filepath.Join(p.dir, "do."+p.name+"."+a))
	do := string(d)
	if do == "die" {
		os.Exit(9)
	}
	return do
}

type vetoed struct{}

func (vetoed) Error() string { return "vetoed" }

func (p *testPlugin) entity(a string, e types.Entity, de *types.Entity) (types.Entity, error) {
	d := list{}
	if de != nil {
		d = list{de.GetID(), de.GetSecret()}
	}
	v := &env{}
	rec := v.projE(&e, false)
	switch p.seen(a, e.GetID(), rec, d) {
	case "veto":
		return e, vetoed{}
	case "amend":
		if e.Meta == nil {
			e.Meta = &types.EntityMeta{}
		}
		e.Meta.UntypedMeta = plugin.PatchKeyValueSlice(e.Meta.UntypedMeta, "UPSERT", "by-"+p.name, a)
	case "lock":
		if e.Meta == nil {
			e.Meta = &types.EntityMeta{}
		}
		t := true
		e.Meta.Locked = &t
	}
	return e, nil
}

func (p *testPlugin) group(a string, g types.Group) (types.Group, error) {
	v := &env{}
	switch p.seen(a, g.GetName(), v.projG(&g), list{}) {
	case "veto":
		return g, vetoed{}
	case "amend":
		g.UntypedMeta = plugin.PatchKeyValueSlice(g.UntypedMeta, "UPSERT", "by-"+p.name, a)
	}
	return g, nil
}

func (p *testPlugin) EntityCreate(e, de types.Entity) (types.Entity, error) {
	return p.entity("EntityCreate", e, &de)
}
func (p *testPlugin) EntityUpdate(e types.Entity) (types.Entity, error) {
	return p.entity("EntityUpdate", e, nil)
}
func (p *testPlugin) EntityLock(e types.Entity) (types.Entity, error) {
	return p.entity("EntityLock", e, nil)
}
func (p *testPlugin) EntityUnlock(e types.Entity) (types.Entity, error) {
	return p.entity("EntityUnlock", e, nil)
}
func (p *testPlugin) EntityDestroy(e types.Entity) (types.Entity, error) {
	return p.entity("EntityDestroy", e, nil)
}
func (p *testPlugin) GroupCreate(g types.Group) (types.Group, error) {
	return p.group("GroupCreate", g)
}
func (p *testPlugin) GroupUpdate(g types.Group) (types.Group, error) {
	return p.group("GroupUpdate", g)
}
func (p *testPlugin) GroupDestroy(g types.Group) (types.Group, error) {
	return p.group("GroupDestroy", g)
}
func (p *testPlugin) PreSecretChange(e, de types.Entity) (types.Entity, error) {
	return p.entity("PreSecretChange", e, &de)
}
func (p *testPlugin) PostSecretChange(e, de types.Entity) (types.Entity, error) {
	return p.entity("PostSecretChange", e, &de)
}
func (p *testPlugin) PreAuthCheck(e, de types.Entity) (types.Entity, error) {
	return p.entity("PreAuthCheck", e, &de)
}
func (p *testPlugin) PostAuthCheck(e, de types.Entity) (types.Entity, error) {
	return p.entity("PostAuthCheck", e, &de)
}

// calls returns what the plugins were asked since the last time.
func (e *env) pluginCalls() list {
	out := list{}
	f, err := os.Open(filepath.Join(e.home, "calls"))
	if err != nil {
		return out
	}
	defer f.Close()
	f.Seek(e.plugSeen, 0)
	rd := bufio.NewReader(f)
	for {
		l, err := rd.ReadBytes('\n')
		if err != nil {
			return out
		}
		e.plugSeen += int64(len(l))
		o := obj{}
		json.Unmarshal(l, &o)
		out = append(out, o)
	}
}

// plug sets what a plugin does when asked for an action.
func (e *env) plug(st step) {
	name := filepath.Join(e.home, "do."+st.str("p")+"."+st.str("a"))
	os.Remove(name)
	if d := st.str("do"); d != "pass" {
		ioutil.WriteFile(name, []byte(d), 0644)
	}
}

// realExec adds what concerns netauthd and its plugins to a line.
func (e *env) realExec(st step, line obj) {
	t0 := time.Now()
	switch st.str("op") {
	case "Plug":
		e.plug(st)
		line["res"], line["asked"] = "OK", list{}
		line["de"], line["xe"], line["dg"], line["xg"] = list{}, list{}, list{}, list{}
		return
	case "Wait":
		time.Sleep(time.Duration(st.num("ms")) * time.Millisecond)
		line["res"], line["asked"] = "OK", list{}
		line["de"], line["xe"], line["dg"], line["xg"] = list{}, list{}, list{}, list{}
		return
	}
	if st.str("op") == "Crash" {
		e.killDuring(st, line)
	} else {
		e.execEnv(st, line)
	}
	if e.sc.Mod != "" {
		line["asked"] = e.pluginCalls()
		line["t0"] = int(t0.Sub(processStart) / time.Millisecond)
		line["t1"] = int(time.Since(processStart)/time.Millisecond) + 1
	}
	if e.real != nil && line["res"] == "HANG" {
		select {
		case <-e.real.dead:
			line["res"] = "CRASH"
			l, _ := ioutil.ReadFile(filepath.Join(e.home, "netauthd.log"))
			s := string(l)
			if i := strings.LastIndex(s, "panic:"); i >= 0 {
				s = s[i:]
			}
			line["why"] = tail(s, 500)
		case <-time.After(200 * time.Millisecond):
		}
	}
}

var processStart = time.Now()

// killDuring kills the server some time into a request, and starts another.
func (e *env) killDuring(st step, line obj) {
	call := st.sub("call")
	e.note(call)
	pid := e.real.cmd.Process.Pid
	t := time.AfterFunc(time.Duration(st.num("us"))*time.Microsecond, func() { syscall.Kill(-pid, syscall.SIGKILL) })
	code, out, raw := e.do(call)
	t.Stop()
	atomic.StoreInt32(&e.hung, 0)
	line["leak"] = e.secretsIn(raw)
	e.conn.Close()
	e.conn = nil
	e.stopReal(true)
	if err := e.start(st.boolean("ro"), "", ""); err != nil {
		line["res"], line["err"] = "FAILED", err.Error()
		line["out"] = list{}
		line["de"], line["xe"], line["dg"], line["xg"] = list{}, list{}, list{}, list{}
		return
	}
	line["res"], line["out"] = code, out
	if code == "HANG" {
		line["res"], line["out"] = "DIED", list{}
	}
	line["hit"] = true
	e.delta(line)
}
