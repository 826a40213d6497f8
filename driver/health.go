package main

import (
	"context"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc"
	"google.golang.org/grpc/test/bufconn"

	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/token"

	pb "github.com/netauth/protocol/v2"
)

// The status of the system, in a process of its own since the registered
// checks are never forgotten.

func init() { inChild("health", newHealthMod) }

type healthMod struct {
	conf string
	now  map[string]health.SubsystemStatus
	srv  *grpc.Server
	conn *grpc.ClientConn
	cl   pb.NetAuth2Client
}

func newHealthMod(s *scenario, scratch string) module {
	m := &healthMod{conf: filepath.Join(scratch, "conf"), now: map[string]health.SubsystemStatus{}}
	os.MkdirAll(filepath.Join(m.conf, "keys"), 0755)
	viper.Set("core.conf", m.conf)
	viper.Set("token.jwt.bits", 1024)
	startup.DoCallbacks()
	m.srv = grpc.NewServer()
	pb.RegisterNetAuth2Server(m.srv, rpc2.New(rpc2.Refs{}, hclog.NewNullLogger()))
	lis := bufconn.Listen(1 << 20)
	go m.srv.Serve(lis)
	conn, err := grpc.Dial("bufnet", grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return lis.Dial() }), grpc.WithInsecure())
	if err != nil {
		die("%v", err)
	}
	m.conn, m.cl = conn, pb.NewNetAuth2Client(conn)
	return m
}

func (m *healthMod) close() {
	m.conn.Close()
	m.srv.Stop()
}

func sub(ok bool, name, status string) list { return list{ok, name, status} }

func (m *healthMod) exec(st step, line obj) {
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	line["res"] = "OK"
	switch st.str("op") {
	case "Register":
		chk := st.str("chk")
		health.RegisterCheck(st.str("name"), func() health.SubsystemStatus { return m.now[chk] })
	case "Set":
		v := st.list("v")
		m.now[st.str("chk")] = health.SubsystemStatus{OK: v[0].(bool), Name: v[1].(string), Status: v[2].(string)}
	case "Jwt":
		// the token service registers a check of its own
		viper.Set("token.jwt.generate", true)
		if _, err := token.New("jwt-rsa"); err != nil {
			line["res"] = "FAILED"
		}
	case "Mode":
		p := filepath.Join(m.conf, "keys", st.str("file"))
		if st.num("mode") < 0 {
			os.Remove(p)
		} else {
			if _, err := os.Stat(p); err != nil {
				os.WriteFile(p, []byte{}, 0600)
			}
			os.Chmod(p, os.FileMode(st.num("mode")))
		}
	case "Ping":
		_, err := m.cl.SystemPing(ctx, &pb.Empty{})
		line["res"] = codeName(err)
	case "Status":
		r, err := m.cl.SystemStatus(ctx, &pb.Empty{})
		line["res"] = codeName(err)
		subs, first := list{}, list{}
		for _, x := range r.GetSubSystems() {
			subs = append(subs, sub(x.GetOK(), x.GetName(), x.GetFaultMessage()))
		}
		if f := r.GetFirstFailure(); f != nil {
			first = append(first, sub(f.GetOK(), f.GetName(), f.GetFaultMessage()))
		}
		line["ok"], line["subs"], line["first"] = r.GetSystemOK(), subs, first
	case "Local":
		// the same, as the server itself sees it
		s := health.Check()
		subs, first := list{}, list{}
		for _, x := range s.Subsystems {
			subs = append(subs, sub(x.OK, x.Name, x.Status))
		}
		if s.FirstFailure != (health.SubsystemStatus{}) {
			f := s.FirstFailure
			first = append(first, sub(f.OK, f.Name, f.Status))
		}
		line["ok"], line["subs"], line["first"] = s.OK, subs, first
		line["text"] = strings.Split(strings.TrimSpace(s.String()), "\n")
	}
}
