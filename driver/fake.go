package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// fakes is a pair of servers, one of them the master, that answer every
// request as they are told and remember it.
type fakes struct {
	port int
	srvs []*grpc.Server

	mu    sync.Mutex
	reply step
	token func(step) string
	reqs  list
}

// newFakes listens on one port of two loopback addresses.
func newFakes() *fakes {
	for try := 0; try < 50; try++ {
		a, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			die("listen: %v", err)
		}
		port := a.Addr().(*net.TCPAddr).Port
		b, err := net.Listen("tcp", fmt.Sprintf("127.0.0.2:%d", port))
		if err != nil {
			a.Close()
			continue
		}
		f := &fakes{port: port}
		f.serve(a, "server")
		f.serve(b, "master")
		return f
	}
	die("no port")
	return nil
}

func (f *fakes) serve(l net.Listener, name string) {
	s := grpc.NewServer(grpc.UnaryInterceptor(func(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, _ grpc.UnaryHandler) (interface{}, error) {
		return f.answer(ctx, name, path.Base(info.FullMethod), req.(proto.Message))
	}))
	pb.RegisterNetAuth2Server(s, struct{ pb.NetAuth2Server }{})
	f.srvs = append(f.srvs, s)
	go s.Serve(l)
}

func (f *fakes) close() {
	for _, s := range f.srvs {
		s.Stop()
	}
}

// expect sets the reply to the following requests.
func (f *fakes) expect(r step) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.reply, f.reqs = r, list{}
}

func (f *fakes) seen() list {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.reqs
}

func codeOf(name string) codes.Code {
	for c := codes.OK; c <= codes.Unauthenticated; c++ {
		if c.String() == name {
			return c
		}
	}
	return codes.OK
}

func (f *fakes) answer(ctx context.Context, at, rpc string, req proto.Message) (proto.Message, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	md, _ := metadata.FromIncomingContext(ctx)
	one := func(k string) list {
		l := list{}
		for _, v := range md.Get(k) {
			l = append(l, v)
		}
		return l
	}
	f.reqs = append(f.reqs, obj{"rpc": rpc, "at": at, "fields": flatten(req), "cn": one("client-name"), "sn": one("service-name"), "auth": one("authorization")})
	code, ids := "code", "ids"
	if rpc == "GroupSearch" && f.reply.str("op") == "GroupInfo" {
		code, ids = "code2", "subs"
	}
	if rpc == "AuthGetToken" && f.reply.has("tcode") {
		code = "tcode"
	}
	if c := codeOf(f.reply.str(code)); c != codes.OK {
		return nil, status.Error(c, "told to")
	}
	switch rpc {
	case "EntityInfo", "EntitySearch", "GroupMembers":
		r := &pb.ListOfEntities{}
		for _, x := range f.reply.steps("ents") {
			r.Entities = append(r.Entities, mkEnt(x))
		}
		for _, id := range f.reply.strs(ids) {
			r.Entities = append(r.Entities, entRef(id))
		}
		return r, nil
	case "EntityGroups", "GroupInfo", "GroupSearch":
		r := &pb.ListOfGroups{}
		if ids == "ids" {
			for _, x := range f.reply.steps("grps") {
				r.Groups = append(r.Groups, mkGrp(x))
			}
		}
		if ids == "subs" {
			for _, x := range f.reply.list("subs") {
				p := x.(list)
				g := grpRef(p[0].(string))
				g.ManagedBy = proto.String(p[1].(string))
				r.Groups = append(r.Groups, g)
			}
			return r, nil
		}
		for _, id := range f.reply.strs(ids) {
			r.Groups = append(r.Groups, grpRef(id))
		}
		return r, nil
	case "EntityUM", "GroupUM", "EntityKeys":
		r := &pb.ListOfStrings{}
		for _, x := range f.reply.list("strs") {
			p := x.(list)
			k := p[0].(string)
			if i := int(p[1].(float64)); i >= 0 {
				k += fmt.Sprintf("{%d}", i)
			}
			r.Strings = append(r.Strings, k+":"+p[2].(string))
		}
		return r, nil
	case "EntityKVGet", "GroupKVGet":
		r := &pb.ListOfKVData{}
		for _, x := range f.reply.list("kvs") {
			p := x.(list)
			d := &types.KVData{Key: proto.String(p[0].(string))}
			for _, v := range p[1].(list) {
				q := v.(list)
				d.Values = append(d.Values, &types.KVValue{Value: proto.String(q[0].(string)), Index: proto.Int32(int32(q[1].(float64)))})
			}
			r.KVData = append(r.KVData, d)
		}
		return r, nil
	case "AuthGetToken":
		t := f.reply.str("token")
		if f.token != nil {
			t = f.token(f.reply)
		}
		return &pb.AuthResult{Token: &t}, nil
	case "SystemStatus":
		r := &pb.ServerStatus{SystemOK: proto.Bool(len(f.reply.strs("ids")) == 0)}
		for i, n := range f.reply.strs("ids") {
			s := &pb.SubSystemStatus{Name: proto.String(n), OK: proto.Bool(i > 0), FaultMessage: proto.String("")}
			if i == 0 {
				s.FaultMessage = proto.String("broken")
				r.FirstFailure = s
			}
			r.SubSystems = append(r.SubSystems, s)
		}
		return r, nil
	}
	return &pb.Empty{}, nil
}

// flatten lists the fields that are set in a message, with their values.
func flatten(m proto.Message) list {
	b, err := (&jsonpb.Marshaler{OrigName: true}).MarshalToString(m)
	if err != nil {
		die("flatten: %v", err)
	}
	var v interface{}
	d := json.NewDecoder(bytes.NewReader([]byte(b)))
	d.UseNumber()
	d.Decode(&v)
	out := map[string]string{}
	var walk func(p string, v interface{})
	walk = func(p string, v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			for k, y := range x {
				walk(p+"."+k, y)
			}
		case []interface{}:
			for i, y := range x {
				walk(p+"["+strconv.Itoa(i)+"]", y)
			}
		default:
			out[strings.TrimPrefix(p, ".")] = fmt.Sprint(x)
		}
	}
	walk("", v)
	ks := []string{}
	for k := range out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	l := list{}
	for _, k := range ks {
		l = append(l, list{k, out[k]})
	}
	return l
}
