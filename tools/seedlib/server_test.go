package zzdemo

import (
	"context"
	"net"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/test/bufconn"

	"github.com/golang/protobuf/proto"
	"github.com/netauth/netauth/internal/crypto"
	_ "github.com/netauth/netauth/internal/crypto/bcrypt"
	_ "github.com/netauth/netauth/internal/crypto/nocrypto"
	"github.com/netauth/netauth/internal/db"
	_ "github.com/netauth/netauth/internal/db/bitcask"
	_ "github.com/netauth/netauth/internal/db/filesystem"
	_ "github.com/netauth/netauth/internal/db/memory"
	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/token"
	_ "github.com/netauth/netauth/internal/token/jwt"
	"github.com/netauth/netauth/internal/tree"
	_ "github.com/netauth/netauth/internal/tree/hooks"
	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

var once sync.Once

var (
	_ = proto.String
	_ = types.Capability_GLOBAL_ROOT
)

// wrapped lets a demonstration stand between the server and its store.
var wrap func(db.KVStore) db.KVStore

func scratch(t *testing.T) string {
	d := os.Getenv("DEMO_SCRATCH")
	if d == "" {
		t.Fatal("run through demo.sh")
	}
	return d
}

// srv is a complete server, reached over its RPC interface.
type srv struct {
	pb.NetAuth2Client
	t    *testing.T
	tree *tree.Manager
	ts   token.Service
	kv   db.KVStore
	stop func()
}

// start runs a server over the store; root/root has been bootstrapped.
func start(t *testing.T, backend, home string, ro bool) *srv {
	once.Do(func() {
		conf := filepath.Join(scratch(t), "conf")
		os.MkdirAll(conf, 0755)
		viper.Set("core.conf", conf)
		viper.Set("token.jwt.generate", true)
		viper.Set("token.jwt.bits", 1024)
		startup.DoCallbacks()
		db.RegisterKV("demo", func(l hclog.Logger) (db.KVStore, error) {
			kv, err := db.NewKV(viper.GetString("demo.backend"), l)
			if err == nil && wrap != nil {
				kv = wrap(kv)
			}
			last = kv
			return kv, err
		})
	})
	home = filepath.Join(scratch(t), home)
	os.MkdirAll(home, 0755)
	viper.Set("core.home", home)
	viper.Set("demo.backend", backend)
	viper.Set("server.readonly", ro)
	d, err := db.New("demo")
	if err != nil {
		t.Fatal(err)
	}
	c, err := crypto.New("nocrypto")
	if err != nil {
		t.Fatal(err)
	}
	m, err := tree.New(d, c, hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	if err := d.EventUpdateAll(); err != nil {
		t.Fatal(err)
	}
	if !ro {
		m.Bootstrap("root", "root")
	}
	m.DisableBootstrap()
	token.SetLifetime(time.Hour)
	ts, err := token.New("jwt-rsa")
	if err != nil {
		t.Fatal(err)
	}
	g := grpc.NewServer()
	pb.RegisterNetAuth2Server(g, rpc2.New(rpc2.Refs{TokenService: ts, Tree: m}, hclog.NewNullLogger()))
	lis := bufconn.Listen(1 << 20)
	go g.Serve(lis)
	conn, err := grpc.Dial("x", grpc.WithInsecure(), grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return lis.Dial() }))
	if err != nil {
		t.Fatal(err)
	}
	return &srv{pb.NewNetAuth2Client(conn), t, m, ts, last, func() { conn.Close(); g.Stop(); last.Close() }}
}

var last db.KVStore

// as gives the context of a request made by id.
func (s *srv) as(id, secret string) context.Context {
	r, err := s.AuthGetToken(context.Background(), &pb.AuthRequest{Entity: &types.Entity{ID: &id}, Secret: &secret})
	if err != nil {
		s.t.Fatalf("token for %s: %v", id, err)
	}
	return metadata.AppendToOutgoingContext(context.Background(), "authorization", r.GetToken())
}

func (s *srv) root() context.Context { return s.as("root", "root") }

func (s *srv) ok(err error) {
	s.t.Helper()
	if err != nil {
		s.t.Fatalf("unexpected failure: %v", err)
	}
}

func (s *srv) entity(ids ...string) {
	for _, id := range ids {
		_, err := s.EntityCreate(s.root(), &pb.EntityRequest{Entity: &types.Entity{ID: proto.String(id), Number: proto.Int32(-1), Secret: proto.String("s")}})
		s.ok(err)
	}
}

func (s *srv) group(ns ...string) {
	for _, n := range ns {
		_, err := s.GroupCreate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String(n), Number: proto.Int32(-1)}})
		s.ok(err)
	}
}

func (s *srv) rule(g, tgt string, a pb.RuleAction) error {
	_, err := s.GroupUpdateRules(s.root(), &pb.GroupRulesRequest{Group: &types.Group{Name: &g}, Target: &types.Group{Name: &tgt}, RuleAction: &a})
	return err
}

func (s *srv) add(e, g string) {
	_, err := s.GroupAddMember(s.root(), &pb.EntityRequest{Entity: &types.Entity{ID: &e, Meta: &types.EntityMeta{Groups: []string{g}}}})
	s.ok(err)
}

func (s *srv) info(id string) (*types.Entity, error) {
	r, err := s.EntityInfo(context.Background(), &pb.EntityRequest{Entity: &types.Entity{ID: &id}})
	if err != nil {
		return nil, err
	}
	return r.GetEntities()[0], nil
}

// member tells whether both membership queries say so.
func (s *srv) member(e, g string) bool {
	a, b := false, false
	r, err := s.EntityGroups(context.Background(), &pb.EntityRequest{Entity: &types.Entity{ID: &e}})
	s.ok(err)
	for _, x := range r.GetGroups() {
		a = a || x.GetName() == g
	}
	q, err := s.GroupMembers(context.Background(), &pb.GroupRequest{Group: &types.Group{Name: &g}})
	s.ok(err)
	for _, x := range q.GetEntities() {
		b = b || x.GetID() == e
	}
	if a != b {
		s.t.Errorf("membership of %s in %s: %v by entity, %v by group", e, g, a, b)
	}
	return a
}
