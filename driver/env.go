package main

import (
	"context"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"golang.org/x/crypto/bcrypt"
	"google.golang.org/grpc"
	"google.golang.org/grpc/test/bufconn"

	"github.com/netauth/netauth/internal/crypto"
	_ "github.com/netauth/netauth/internal/crypto/bcrypt"
	_ "github.com/netauth/netauth/internal/crypto/nocrypto"
	"github.com/netauth/netauth/internal/db"
	_ "github.com/netauth/netauth/internal/db/bitcask"
	_ "github.com/netauth/netauth/internal/db/filesystem"
	_ "github.com/netauth/netauth/internal/db/memory"
	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/token"
	_ "github.com/netauth/netauth/internal/token/jwt"
	"github.com/netauth/netauth/internal/tree"
	_ "github.com/netauth/netauth/internal/tree/hooks"
	"github.com/netauth/netauth/pkg/netauth"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

type obj = map[string]interface{}
type list = []interface{}

var startOnce sync.Once
var processTokens token.Service

func registerBackends() {
	startup.DoCallbacks()
	registerKV()
}

func initProcess(scratch string) {
	startOnce.Do(func() {
		conf := filepath.Join(scratch, "conf")
		os.MkdirAll(conf, 0755)
		viper.Set("core.conf", conf)
		viper.Set("core.home", filepath.Join(scratch, "home"))
		viper.Set("token.jwt.generate", true)
		viper.Set("token.jwt.bits", 1024)
		viper.Set("crypto.bcrypt.cost", 4)
		registerBackends()
		// Generate the signing keys once.
		ts, err := token.New("jwt-rsa")
		if err != nil {
			die("token service: %v", err)
		}
		processTokens = ts
	})
}

// env is one server with its store.
type env struct {
	backend string
	crypto  string
	home    string

	store db.KVStore // inner store, survives restarts (reopened if durable)
	ctl   *control

	lis  *bufconn.Listener
	srv  *grpc.Server
	conn *grpc.ClientConn
	cl   pb.NetAuth2Client
	ts   token.Service
	libc *netauth.Client
	subs list

	hung int32 // a request got no answer

	mu     sync.Mutex
	toks   map[string]string
	plain  map[string]bool   // every secret ever presented to be stored
	hashes map[string]string // stored form -> plain

	prevE, prevG map[string]string // last dumped bytes

	sc       *scenario
	real     *real
	plugSeen int64
}

var envCount int

func newEnv(backend, crypt, scratch string) *env {
	envCount++
	return &env{
		backend: backend,
		crypto:  crypt,
		home:    filepath.Join(scratch, fmt.Sprintf("home%d", envCount)),
		toks:    map[string]string{},
		plain:   map[string]bool{},
		hashes:  map[string]string{},
		prevE:   map[string]string{},
		prevG:   map[string]string{},
	}
}

func (e *env) openStore() error {
	if e.backend == "memory" && e.store != nil {
		return nil // the process "disk"
	}
	os.MkdirAll(e.home, 0755)
	viper.Set("core.home", e.home)
	kv, err := db.NewKV(e.backend, hclog.NewNullLogger())
	if err != nil {
		return err
	}
	e.store = kv
	return nil
}

func (e *env) closeStore() {
	if e.store != nil && e.backend != "memory" {
		e.store.Close()
		e.store = nil
	}
}

// start mirrors the startup sequence of cmd/netauthd.
func (e *env) start(ro bool, bid, bsec string) error {
	if e.backend == "netauthd" {
		return e.startReal(ro, bid, bsec)
	}
	if err := e.openStore(); err != nil {
		return err
	}
	e.ctl = &control{}
	nextInner, nextCtl = e.store, e.ctl
	viper.Set("server.readonly", ro)
	log := hclog.NewNullLogger()

	dbi, err := db.New("verif")
	if err != nil {
		return err
	}
	ci, err := crypto.New(e.crypto)
	if err != nil {
		return err
	}
	t, err := tree.New(dbi, ci, log)
	if err != nil {
		return err
	}
	if err := dbi.EventUpdateAll(); err != nil {
		return err
	}
	if bid != "" {
		e.plain[bsec] = true
		t.Bootstrap(bid, bsec)
	}
	t.DisableBootstrap()
	token.SetLifetime(time.Hour)
	ts, err := token.New("jwt-rsa")
	if err != nil {
		return err
	}
	e.ts = ts
	e.srv = grpc.NewServer()
	pb.RegisterNetAuth2Server(e.srv, rpc2.New(rpc2.Refs{TokenService: ts, Tree: t}, log))
	e.lis = bufconn.Listen(1 << 20)
	go e.srv.Serve(e.lis)
	conn, err := grpc.Dial("bufnet", grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) {
		return e.lis.Dial()
	}), grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(64<<20)))
	if err != nil {
		return err
	}
	e.conn = conn
	e.cl = pb.NewNetAuth2Client(conn)
	return nil
}

func (e *env) stop() {
	if e.conn != nil {
		e.conn.Close()
		if e.srv != nil {
			e.srv.Stop()
		}
		e.conn = nil
	}
	e.stopReal(false)
	e.libc = nil
	e.closeStore()
}

// ---- projection of stored records -------------------------------------

func (e *env) unhash(stored string) string {
	if e.crypto != "bcrypt" {
		return stored
	}
	if p, ok := e.hashes[stored]; ok {
		return p
	}
	// Bcrypt itself confuses some secrets, and what it is given may be
	// made from the secret: the engine decides where it is not plain.
	var plain, known []string
	eng, err := crypto.New("bcrypt")
	for p := range e.plain {
		if bcrypt.CompareHashAndPassword([]byte(stored), []byte(p)) == nil {
			plain = append(plain, p)
		}
		if err == nil && eng.VerifySecret(p, stored) == nil {
			known = append(known, p)
		}
	}
	if len(plain) != 1 && len(known) > 0 {
		plain = known
	}
	if len(plain) > 0 {
		sort.Strings(plain)
		e.hashes[stored] = plain[0]
		return plain[0]
	}
	return "?unknown"
}

func dupMark(l list, n int) list {
	if n > 0 {
		l = append(l, "!dup"+fmt.Sprint(n))
	}
	return l
}

func strSet(in []string) list {
	seen := map[string]bool{}
	d := 0
	out := list{}
	for _, s := range in {
		if seen[s] {
			d++
			continue
		}
		seen[s] = true
		out = append(out, s)
	}
	return dupMark(out, d)
}

func capSet(in []types.Capability) list {
	s := make([]string, len(in))
	for i := range in {
		s[i] = in[i].String()
	}
	return strSet(s)
}

func pairSet(in []string) list {
	seen := map[string]bool{}
	d := 0
	out := list{}
	for _, s := range in {
		if seen[s] {
			d++
			continue
		}
		seen[s] = true
		p := strings.SplitN(s, ":", 2)
		if len(p) == 1 {
			p = append(p, "!nosep")
		}
		out = append(out, list{p[0], p[1]})
	}
	if d > 0 {
		out = append(out, list{"!dup", fmt.Sprint(d)})
	}
	return out
}

func kvItem(k *types.KVData) list {
	vs := list{}
	for _, v := range k.GetValues() {
		vs = append(vs, list{v.GetValue(), int(v.GetIndex())})
	}
	return list{k.GetKey(), vs}
}

func kvSet(in []*types.KVData) list {
	out := list{}
	seen := map[string]int{}
	for _, k := range in {
		it := kvItem(k)
		n := seen[k.GetKey()]
		seen[k.GetKey()] = n + 1
		if n > 0 {
			it[0] = fmt.Sprintf("!dup%d:%s", n, k.GetKey())
		}
		out = append(out, it)
	}
	return out
}

func metaMap(m *types.EntityMeta) list {
	out := list{}
	put := func(n, v string) {
		if v != "" {
			out = append(out, list{n, v})
		}
	}
	put("PrimaryGroup", m.GetPrimaryGroup())
	put("GECOS", m.GetGECOS())
	put("LegalName", m.GetLegalName())
	put("DisplayName", m.GetDisplayName())
	put("Home", m.GetHome())
	put("Shell", m.GetShell())
	put("GraphicalShell", m.GetGraphicalShell())
	put("BadgeNumber", m.GetBadgeNumber())
	return out
}

func (e *env) projE(x *types.Entity, stored bool) obj {
	m := x.GetMeta()
	o := obj{
		"id": x.GetID(), "num": int(x.GetNumber()), "lk": m.GetLocked(),
		"caps": capSet(m.GetCapabilities()), "gr": strSet(m.GetGroups()),
		"keys": pairSet(m.GetKeys()), "um": pairSet(m.GetUntypedMeta()),
		"kv": kvSet(m.GetKV()), "meta": metaMap(m), "sec": "",
	}
	if stored {
		o["sec"] = e.unhash(x.GetSecret())
	}
	return o
}

func (e *env) projG(x *types.Group) obj {
	return obj{
		"id": x.GetName(), "num": int(x.GetNumber()), "dn": x.GetDisplayName(), "mb": x.GetManagedBy(),
		"caps": capSet(x.GetCapabilities()), "rules": pairSet(x.GetExpansions()),
		"um": pairSet(x.GetUntypedMeta()), "kv": kvSet(x.GetKV()),
	}
}

// dump reads the whole store behind the server's back.
func (e *env) dump() (map[string]string, map[string]string, error) {
	read := func(pat, pre string) (map[string]string, error) {
		m := map[string]string{}
		ks, err := e.store.Keys(pat)
		if err != nil {
			return nil, err
		}
		for _, k := range ks {
			b, err := e.store.Get(k)
			if err != nil {
				return nil, fmt.Errorf("listed key %q: %v", k, err)
			}
			m[strings.TrimPrefix(k, pre)] = string(b)
		}
		return m, nil
	}
	es, err := read("/entities/*", "/entities/")
	if err != nil {
		return nil, nil, err
	}
	gs, err := read("/groups/*", "/groups/")
	return es, gs, err
}

// delta adds what changed in the store since the last call.
func (e *env) delta(line obj) {
	es, gs, err := e.dump()
	if err != nil {
		line["broken"] = err.Error()
		line["de"], line["xe"], line["dg"], line["xg"] = list{}, list{}, list{}, list{}
		return
	}
	if e.crypto == "bcrypt" {
		// secrets that are stored in the clear
		clear := list{}
		for p := range e.plain {
			if len(p) < 6 {
				continue
			}
			for _, k := range sorted(es) {
				if strings.Contains(es[k], p) {
					clear = append(clear, k)
				}
			}
			for _, k := range sorted(gs) {
				if strings.Contains(gs[k], p) {
					clear = append(clear, k)
				}
			}
		}
		if len(clear) > 0 {
			line["clear"] = clear
		}
	}
	de, xe, dg, xg := list{}, list{}, list{}, list{}
	for _, k := range sorted(es) {
		if p, ok := e.prevE[k]; !ok || p != es[k] {
			x := &types.Entity{}
			if err := proto.Unmarshal([]byte(es[k]), x); err != nil {
				line["broken"] = "unreadable entity " + k
				continue
			}
			de = append(de, list{k, e.projE(x, true)})
		}
	}
	for _, k := range sorted(e.prevE) {
		if _, ok := es[k]; !ok {
			xe = append(xe, k)
		}
	}
	for _, k := range sorted(gs) {
		if p, ok := e.prevG[k]; !ok || p != gs[k] {
			x := &types.Group{}
			if err := proto.Unmarshal([]byte(gs[k]), x); err != nil {
				line["broken"] = "unreadable group " + k
				continue
			}
			dg = append(dg, list{k, e.projG(x)})
		}
	}
	for _, k := range sorted(e.prevG) {
		if _, ok := gs[k]; !ok {
			xg = append(xg, k)
		}
	}
	line["de"], line["xe"], line["dg"], line["xg"] = de, xe, dg, xg
	e.prevE, e.prevG = es, gs
}

func sorted(m map[string]string) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
