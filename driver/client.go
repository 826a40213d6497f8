package main

import (
	"context"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/pkg/netauth"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// The client library against servers that record what it asks for.

func init() { inChild("client", newClientMod) }

type clientMod struct {
	f *fakes
	c *netauth.Client
}

func newClientMod(s *scenario, scratch string) module {
	m := &clientMod{f: newFakes()}
	conf := filepath.Join(scratch, "conf")
	os.MkdirAll(conf, 0755)
	viper.Set("core.conf", conf)
	viper.Set("core.port", m.f.port)
	viper.Set("core.server", "127.0.0.1")
	switch s.Backend {
	case "split":
		viper.Set("core.master", "127.0.0.2")
	case "same":
		viper.Set("core.master", "127.0.0.1")
	}
	viper.Set("tls.pwn_me", true)
	viper.Set("client.ID", "the-client")
	c, err := netauth.NewWithLog(hclog.NewNullLogger())
	if err != nil {
		die("client: %v", err)
	}
	c.SetServiceName("the-service")
	m.c = c
	return m
}

func (m *clientMod) close() { m.f.close() }

func kvList(m map[string][]string) list {
	l := list{}
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		vs := list{}
		for _, v := range m[k] {
			vs = append(vs, v)
		}
		if len(vs) > 0 {
			l = append(l, list{k, vs})
		}
	}
	return l
}

func entIDs(es []*types.Entity) list {
	l := list{}
	for _, e := range es {
		l = append(l, e.GetID())
	}
	return l
}

func grpIDs(gs []*types.Group) list {
	l := list{}
	for _, g := range gs {
		l = append(l, g.GetName())
	}
	return l
}

// reply is what a call of the client library returned.
type reply struct {
	err  error
	es   []*types.Entity
	gs   []*types.Group
	subs []*types.Group
	kv   map[string][]string
	tok  string
	st   *pb.ServerStatus
}

// clientCall makes one call of the client library.
func clientCall(c *netauth.Client, ctx context.Context, s step) (r reply) {
	id, key, act := s.str("id"), s.str("key"), s.str("act")
	switch s.str("op") {
	case "AuthEntity":
		r.err = c.AuthEntity(ctx, id, s.str("sec"))
	case "AuthGetToken":
		r.tok, r.err = c.AuthGetToken(ctx, id, s.str("sec"))
	case "AuthValidateToken":
		r.err = c.AuthValidateToken(ctx, s.str("val"))
	case "AuthChangeSecret":
		r.err = c.AuthChangeSecret(ctx, id, s.str("sec"), s.str("old"))
	case "EntityCreate":
		r.err = c.EntityCreate(ctx, id, s.str("sec"), s.num("num"))
	case "EntityUpdate":
		r.err = c.EntityUpdate(ctx, id, mkMeta(s.list("meta")))
	case "EntityInfo":
		var e types.Entity
		e, r.err = c.EntityInfo(ctx, id)
		if r.err == nil {
			r.es = []*types.Entity{&e}
		}
	case "EntitySearch":
		r.es, r.err = c.EntitySearch(ctx, s.str("expr"))
	case "EntityUM":
		r.kv, r.err = c.EntityUM(ctx, id, act, key, s.str("val"))
	case "EntityKVGet":
		r.kv, r.err = c.EntityKVGet(ctx, id, key)
	case "EntityKVAdd":
		r.err = c.EntityKVAdd(ctx, id, key, s.strs("vals"))
	case "EntityKVDel":
		r.err = c.EntityKVDel(ctx, id, key)
	case "EntityKVReplace":
		r.err = c.EntityKVReplace(ctx, id, key, s.strs("vals"))
	case "EntityKeys":
		r.kv, r.err = c.EntityKeys(ctx, id, act, key, s.str("val"))
	case "EntityDestroy":
		r.err = c.EntityDestroy(ctx, id)
	case "EntityLock":
		r.err = c.EntityLock(ctx, id)
	case "EntityUnlock":
		r.err = c.EntityUnlock(ctx, id)
	case "EntityGroups":
		r.gs, r.err = c.EntityGroups(ctx, id)
	case "GroupCreate":
		r.err = c.GroupCreate(ctx, id, s.str("dn"), s.str("mb"), s.num("num"))
	case "GroupUpdate":
		g := grpRef(id)
		if s.has("dn") {
			v := s.str("dn")
			g.DisplayName = &v
		}
		if s.has("mb") {
			v := s.str("mb")
			g.ManagedBy = &v
		}
		r.err = c.GroupUpdate(ctx, g)
	case "GroupInfo":
		var g *types.Group
		g, r.subs, r.err = c.GroupInfo(ctx, id)
		if r.err == nil {
			r.gs = []*types.Group{g}
		}
	case "GroupUM":
		r.kv, r.err = c.GroupUM(ctx, id, act, key, s.str("val"))
	case "GroupKVGet":
		r.kv, r.err = c.GroupKVGet(ctx, id, key)
	case "GroupKVAdd":
		r.err = c.GroupKVAdd(ctx, id, key, s.strs("vals"))
	case "GroupKVDel":
		r.err = c.GroupKVDel(ctx, id, key)
	case "GroupKVReplace":
		r.err = c.GroupKVReplace(ctx, id, key, s.strs("vals"))
	case "GroupUpdateRules":
		r.err = c.GroupUpdateRules(ctx, id, act, s.str("tgt"))
	case "GroupAddMember":
		r.err = c.GroupAddMember(ctx, s.str("tgt"), id)
	case "GroupDelMember":
		r.err = c.GroupDelMember(ctx, s.str("tgt"), id)
	case "GroupDestroy":
		r.err = c.GroupDestroy(ctx, id)
	case "GroupMembers":
		r.es, r.err = c.GroupMembers(ctx, id)
	case "GroupSearch":
		r.gs, r.err = c.GroupSearch(ctx, s.str("expr"))
	case "SystemCapabilities":
		r.err = c.SystemCapabilities(ctx, id, act, s.str("cap"), s.boolean("direct"))
	case "SystemPing":
		r.err = c.SystemPing(ctx)
	case "SystemStatus":
		r.st, r.err = c.SystemStatus(ctx)
	default:
		die("unknown call %v", s)
	}
	return
}

func (m *clientMod) exec(st step, line obj) {
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	if t := st.str("tok"); t != "" {
		ctx = netauth.Authorize(ctx, t)
	}
	m.f.expect(st)
	r := clientCall(m.c, ctx, st)
	line["res"] = codeName(r.err)
	ids := append(entIDs(r.es), grpIDs(r.gs)...)
	for _, x := range r.st.GetSubSystems() {
		ids = append(ids, x.GetName())
	}
	line["oids"], line["osubs"], line["okv"], line["otok"] = ids, grpIDs(r.subs), kvList(r.kv), r.tok
	line["reqs"] = m.f.seen()
}

// ---- the client library against the real server -----------------------

// plainName says that a search for the name finds it
func plainName(n string) bool { return plainRE.MatchString(n) }

var plainRE = regexp.MustCompile(`^[a-z]+[0-9]+$`)

// lib returns a client library that is connected to the server of e.
func (e *env) lib() *netauth.Client {
	if e.libc != nil {
		return e.libc
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		die("listen: %v", err)
	}
	go e.srv.Serve(l)
	viper.Set("core.port", l.Addr().(*net.TCPAddr).Port)
	viper.Set("core.server", "127.0.0.1")
	viper.Set("core.master", "127.0.0.1")
	viper.Set("tls.pwn_me", true)
	c, err := netauth.NewWithLog(hclog.NewNullLogger())
	if err != nil {
		die("client: %v", err)
	}
	e.libc = c
	return c
}

// libDo executes a request with the client library.
func (e *env) libDo(s step) (code string, out interface{}, raw []byte) {
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	if t := s.str("tok"); t != "" {
		ctx = netauth.Authorize(ctx, e.token(t))
	}
	op := s.str("op")
	c := step{}
	for k, v := range s {
		c[k] = v
	}
	if strings.HasPrefix(op, "Group") && op != "GroupAddMember" && op != "GroupDelMember" {
		c["id"] = s.str("g")
	}
	switch op {
	case "AuthValidateToken":
		c["val"] = ""
		if s.str("tok") != "" {
			c["val"] = e.token(s.str("tok"))
		}
	case "EntityKeys":
		c["key"], c["val"] = s.str("typ"), s.str("key")
	case "GroupAddMember", "GroupDelMember":
		c["tgt"] = s.strs("gs")[0]
	case "SystemCapabilities":
		c["id"] = s.str("tgt")
	}
	if s.has("vals") {
		l := list{}
		for _, v := range s.list("vals") {
			l = append(l, v.(list)[0])
		}
		c["vals"] = l
	}
	r := clientCall(e.lib(), ctx, c)
	code = codeName(r.err)
	if r.err != nil {
		return code, list{}, []byte(r.err.Error())
	}
	raw = []byte(fmt.Sprint(r.es, r.gs, r.subs, r.kv))
	l := list{}
	out = l
	switch op {
	case "AuthGetToken":
		cl, verr := e.ts.Validate(r.tok)
		out = obj{"id": "!invalid", "caps": list{}}
		if verr == nil {
			out = obj{"id": cl.EntityID, "caps": capSet(cl.Capabilities)}
		}
		if as := s.str("as"); as != "" {
			e.mu.Lock()
			e.toks[as] = r.tok
			e.mu.Unlock()
		}
	case "EntityInfo", "EntitySearch":
		for _, x := range r.es {
			l = append(l, e.projE(x, false))
		}
		out = l
	case "GroupInfo", "GroupSearch":
		for _, x := range r.gs {
			l = append(l, e.projG(x))
		}
		out = l
		e.subs = list{}
		for _, g := range r.subs {
			e.subs = append(e.subs, g.GetName())
		}
	case "EntityGroups", "GroupMembers":
		n := []string{}
		for _, x := range append(grpIDs(r.gs), entIDs(r.es)...) {
			n = append(n, x.(string))
		}
		out = strSet(n)
	case "EntityKVGet", "GroupKVGet":
		ds := []*types.KVData{}
		for k, vs := range r.kv {
			p := list{}
			for i, v := range vs {
				p = append(p, list{v, float64(i)})
			}
			ds = append(ds, mkKV(step{"key": k, "vals": p}))
		}
		out = kvSet(ds)
	case "EntityKeys":
		n := []string{}
		for k, vs := range r.kv {
			for _, v := range vs {
				n = append(n, k+":"+v)
			}
		}
		out = pairSet(n)
	}
	return code, out, raw
}
