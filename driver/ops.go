package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// step is one request as written by the generator.
type step obj

func (s step) str(k string) string {
	v, ok := s[k].(string)
	if !ok {
		return ""
	}
	return v
}

func (s step) has(k string) bool { _, ok := s[k]; return ok }

func (s step) num(k string) int {
	switch v := s[k].(type) {
	case float64:
		return int(v)
	case int:
		return v
	}
	return 0
}

func (s step) boolean(k string) bool { v, _ := s[k].(bool); return v }

func (s step) list(k string) list { v, _ := s[k].([]interface{}); return v }

func (s step) strs(k string) []string {
	out := []string{}
	for _, v := range s.list(k) {
		out = append(out, fmt.Sprint(v))
	}
	return out
}

func (s step) steps(k string) []step {
	out := []step{}
	for _, v := range s.list(k) {
		if m, ok := v.(map[string]interface{}); ok {
			out = append(out, step(m))
		}
	}
	return out
}

func (s step) sub(k string) step {
	m, _ := s[k].(map[string]interface{})
	return step(m)
}

func codeName(err error) string {
	if err == nil {
		return "OK"
	}
	c := status.Code(err)
	if c == codes.Unavailable || c == codes.Canceled || c == codes.DeadlineExceeded {
		return "HANG"
	}
	return c.String()
}

// authority puts the credentials named by tok into the request.
func (e *env) authority(ctx context.Context, tok string) context.Context {
	switch {
	case tok == "":
		return ctx
	case tok == "!empty":
		return metadata.AppendToOutgoingContext(ctx, "authorization", "")
	case strings.HasPrefix(tok, "!dup:"):
		t := e.token(tok[5:])
		return metadata.AppendToOutgoingContext(ctx, "authorization", t, "authorization", t)
	case strings.HasPrefix(tok, "!mix:"):
		return metadata.AppendToOutgoingContext(ctx, "authorization", e.token(tok[5:]), "authorization", "garbage")
	case strings.HasPrefix(tok, "!xim:"):
		return metadata.AppendToOutgoingContext(ctx, "authorization", "garbage", "authorization", e.token(tok[5:]))
	case tok == "!garbage":
		return metadata.AppendToOutgoingContext(ctx, "authorization", "garbage")
	default:
		return metadata.AppendToOutgoingContext(ctx, "authorization", e.token(tok))
	}
}

func (e *env) token(name string) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	if t, ok := e.toks[name]; ok {
		return t
	}
	return "unknown-token"
}

func entRef(id string) *types.Entity { return &types.Entity{ID: &id} }
func grpRef(n string) *types.Group   { return &types.Group{Name: &n} }

func mkMeta(m list) *types.EntityMeta {
	x := &types.EntityMeta{}
	for _, kv := range m {
		p, ok := kv.([]interface{})
		if !ok || len(p) != 2 {
			continue
		}
		k := fmt.Sprint(p[0])
		s := proto.String(fmt.Sprint(p[1]))
		switch k {
		case "PrimaryGroup":
			x.PrimaryGroup = s
		case "GECOS":
			x.GECOS = s
		case "LegalName":
			x.LegalName = s
		case "DisplayName":
			x.DisplayName = s
		case "Home":
			x.Home = s
		case "Shell":
			x.Shell = s
		case "GraphicalShell":
			x.GraphicalShell = s
		case "BadgeNumber":
			x.BadgeNumber = s
		}
	}
	return x
}

func mkKV(s step) *types.KVData {
	d := &types.KVData{Key: proto.String(s.str("key"))}
	for _, v := range s.list("vals") {
		p, ok := v.([]interface{})
		if !ok || len(p) != 2 {
			continue
		}
		i := int32(p[1].(float64))
		d.Values = append(d.Values, &types.KVValue{Value: proto.String(fmt.Sprint(p[0])), Index: &i})
	}
	return d
}

// hostile fills every protected field of an update.
func hostileMeta(m *types.EntityMeta) {
	m.Locked = proto.Bool(false)
	m.Groups = []string{"evil-group"}
	m.Capabilities = []types.Capability{types.Capability_GLOBAL_ROOT, types.Capability_LOCK_ENTITY}
	m.Keys = []string{"SSH:evil"}
	m.UntypedMeta = []string{"evil:evil"}
	m.KV = []*types.KVData{{Key: proto.String("evil"), Values: []*types.KVValue{{Value: proto.String("evil")}}}}
}

// do executes one request; out is the projected reply.
func (e *env) do(s step) (code string, out interface{}, raw []byte) {
	if s.str("via") == "lib" {
		return e.libDo(s)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	ctx = e.authority(ctx, s.str("tok"))
	var rep proto.Message
	var err error
	fin := func() (string, interface{}, []byte) {
		if rep != nil && err == nil {
			raw, _ = proto.Marshal(rep)
		} else if err != nil {
			raw = []byte(err.Error())
		}
		if out == nil {
			out = list{}
		}
		c := codeName(err)
		if c == "HANG" {
			atomic.StoreInt32(&e.hung, 1)
		}
		return c, out, raw
	}
	id, g, key, act := s.str("id"), s.str("g"), s.str("key"), s.str("act")
	action := func() *pb.Action {
		if v, ok := pb.Action_value[act]; ok {
			return pb.Action(v).Enum()
		}
		return nil
	}
	strOut := func(r *pb.ListOfStrings) {
		if err == nil {
			out = pairSet(r.GetStrings())
		}
	}
	kvOut := func(r *pb.ListOfKVData) {
		if err == nil {
			out = kvSet(r.GetKVData())
		}
	}
	switch s.str("op") {
	case "AuthEntity":
		rep, err = e.cl.AuthEntity(ctx, &pb.AuthRequest{Entity: entRef(id), Secret: proto.String(s.str("sec"))})
	case "AuthGetToken":
		var r *pb.AuthResult
		r, err = e.cl.AuthGetToken(ctx, &pb.AuthRequest{Entity: entRef(id), Secret: proto.String(s.str("sec"))})
		if err == nil {
			c, verr := e.ts.Validate(r.GetToken())
			if verr != nil {
				out = obj{"id": "!invalid", "caps": list{}}
			} else {
				out = obj{"id": c.EntityID, "caps": capSet(c.Capabilities)}
			}
			if as := s.str("as"); as != "" {
				e.mu.Lock()
				e.toks[as] = r.GetToken()
				e.mu.Unlock()
			}
			// the token itself is not scanned for secrets bytewise
			rep = nil
			raw = []byte(r.GetToken())
			for _, p := range strings.Split(r.GetToken(), ".") {
				b, _ := b64.DecodeString(p)
				raw = append(append(raw, ' '), b...)
			}
			return codeName(err), out, raw
		}
	case "AuthValidateToken":
		t := ""
		if s.str("tok") != "" {
			t = e.token(s.str("tok"))
		}
		rep, err = e.cl.AuthValidateToken(ctx, &pb.AuthRequest{Token: &t})
	case "AuthChangeSecret":
		ent := entRef(id)
		ent.Secret = proto.String(s.str("old"))
		rep, err = e.cl.AuthChangeSecret(ctx, &pb.AuthRequest{Entity: ent, Secret: proto.String(s.str("sec"))})
	case "EntityCreate":
		ent := entRef(id)
		ent.Number = proto.Int32(int32(s.num("num")))
		ent.Secret = proto.String(s.str("sec"))
		if s.boolean("hostile") {
			ent.Meta = &types.EntityMeta{}
			hostileMeta(ent.Meta)
		}
		rep, err = e.cl.EntityCreate(ctx, &pb.EntityRequest{Entity: ent})
	case "EntityUpdate":
		ent := entRef(id)
		ent.Meta = mkMeta(s.list("meta"))
		if s.boolean("hostile") {
			ent.Number = proto.Int32(31337)
			ent.Secret = proto.String("evilsecret-31337")
			hostileMeta(ent.Meta)
		}
		rep, err = e.cl.EntityUpdate(ctx, &pb.EntityRequest{Data: ent})
	case "EntityInfo":
		var r *pb.ListOfEntities
		r, err = e.cl.EntityInfo(ctx, &pb.EntityRequest{Entity: entRef(id)})
		rep = r
		if err == nil {
			l := list{}
			for _, x := range r.GetEntities() {
				l = append(l, e.projE(x, false))
			}
			out = l
		}
	case "EntitySearch":
		var r *pb.ListOfEntities
		r, err = e.cl.EntitySearch(ctx, &pb.SearchRequest{Expression: proto.String(s.str("expr"))})
		rep = r
		if err == nil {
			l := list{}
			for _, x := range r.GetEntities() {
				l = append(l, e.projE(x, false))
			}
			out = l
		}
	case "EntityUM":
		var r *pb.ListOfStrings
		r, err = e.cl.EntityUM(ctx, &pb.KVRequest{Target: &id, Action: action(), Key: &key, Value: proto.String(s.str("val"))})
		rep = r
		strOut(r)
	case "EntityKVGet":
		var r *pb.ListOfKVData
		r, err = e.cl.EntityKVGet(ctx, &pb.KV2Request{Target: &id, Data: &types.KVData{Key: &key}})
		rep = r
		kvOut(r)
	case "EntityKVAdd":
		rep, err = e.cl.EntityKVAdd(ctx, &pb.KV2Request{Target: &id, Data: mkKV(s)})
	case "EntityKVDel":
		rep, err = e.cl.EntityKVDel(ctx, &pb.KV2Request{Target: &id, Data: &types.KVData{Key: &key}})
	case "EntityKVReplace":
		rep, err = e.cl.EntityKVReplace(ctx, &pb.KV2Request{Target: &id, Data: mkKV(s)})
	case "EntityKeys":
		var r *pb.ListOfStrings
		r, err = e.cl.EntityKeys(ctx, &pb.KVRequest{Target: &id, Action: action(), Key: proto.String(s.str("typ")), Value: &key})
		rep = r
		strOut(r)
	case "EntityDestroy":
		rep, err = e.cl.EntityDestroy(ctx, &pb.EntityRequest{Entity: entRef(id)})
	case "EntityLock":
		rep, err = e.cl.EntityLock(ctx, &pb.EntityRequest{Entity: entRef(id)})
	case "EntityUnlock":
		rep, err = e.cl.EntityUnlock(ctx, &pb.EntityRequest{Entity: entRef(id)})
	case "EntityGroups":
		var r *pb.ListOfGroups
		r, err = e.cl.EntityGroups(ctx, &pb.EntityRequest{Entity: entRef(id)})
		rep = r
		if err == nil {
			l := []string{}
			for _, x := range r.GetGroups() {
				l = append(l, x.GetName())
			}
			out = strSet(l)
		}
	case "GroupCreate":
		grp := grpRef(g)
		grp.Number = proto.Int32(int32(s.num("num")))
		grp.DisplayName = proto.String(s.str("dn"))
		grp.ManagedBy = proto.String(s.str("mb"))
		if s.boolean("hostile") {
			hostileGroup(grp)
		}
		rep, err = e.cl.GroupCreate(ctx, &pb.GroupRequest{Group: grp})
	case "GroupUpdate":
		grp := grpRef(g)
		if s.has("dn") {
			grp.DisplayName = proto.String(s.str("dn"))
		}
		if s.has("mb") {
			grp.ManagedBy = proto.String(s.str("mb"))
		}
		if s.boolean("hostile") {
			grp.Number = proto.Int32(31337)
			hostileGroup(grp)
		}
		rep, err = e.cl.GroupUpdate(ctx, &pb.GroupRequest{Group: grp})
	case "GroupInfo":
		var r *pb.ListOfGroups
		r, err = e.cl.GroupInfo(ctx, &pb.GroupRequest{Group: grpRef(g)})
		rep = r
		if err == nil {
			l := list{}
			for _, x := range r.GetGroups() {
				l = append(l, e.projG(x))
			}
			out = l
		}
	case "GroupSearch":
		var r *pb.ListOfGroups
		r, err = e.cl.GroupSearch(ctx, &pb.SearchRequest{Expression: proto.String(s.str("expr"))})
		rep = r
		if err == nil {
			l := list{}
			for _, x := range r.GetGroups() {
				l = append(l, e.projG(x))
			}
			out = l
		}
	case "GroupUM":
		var r *pb.ListOfStrings
		r, err = e.cl.GroupUM(ctx, &pb.KVRequest{Target: &g, Action: action(), Key: &key, Value: proto.String(s.str("val"))})
		rep = r
		strOut(r)
	case "GroupKVGet":
		var r *pb.ListOfKVData
		r, err = e.cl.GroupKVGet(ctx, &pb.KV2Request{Target: &g, Data: &types.KVData{Key: &key}})
		rep = r
		kvOut(r)
	case "GroupKVAdd":
		rep, err = e.cl.GroupKVAdd(ctx, &pb.KV2Request{Target: &g, Data: mkKV(s)})
	case "GroupKVDel":
		rep, err = e.cl.GroupKVDel(ctx, &pb.KV2Request{Target: &g, Data: &types.KVData{Key: &key}})
	case "GroupKVReplace":
		rep, err = e.cl.GroupKVReplace(ctx, &pb.KV2Request{Target: &g, Data: mkKV(s)})
	case "GroupUpdateRules":
		r := &pb.GroupRulesRequest{Group: grpRef(g), Target: grpRef(s.str("tgt"))}
		if v, ok := pb.RuleAction_value[act]; ok {
			r.RuleAction = pb.RuleAction(v).Enum()
		}
		rep, err = e.cl.GroupUpdateRules(ctx, r)
	case "GroupAddMember", "GroupDelMember":
		ent := entRef(id)
		ent.Meta = &types.EntityMeta{Groups: s.strs("gs")}
		if s.str("op") == "GroupAddMember" {
			rep, err = e.cl.GroupAddMember(ctx, &pb.EntityRequest{Entity: ent})
		} else {
			rep, err = e.cl.GroupDelMember(ctx, &pb.EntityRequest{Entity: ent})
		}
	case "GroupDestroy":
		rep, err = e.cl.GroupDestroy(ctx, &pb.GroupRequest{Group: grpRef(g)})
	case "GroupMembers":
		var r *pb.ListOfEntities
		r, err = e.cl.GroupMembers(ctx, &pb.GroupRequest{Group: grpRef(g)})
		rep = r
		if err == nil {
			l := []string{}
			for _, x := range r.GetEntities() {
				l = append(l, x.GetID())
			}
			out = strSet(l)
		}
	case "SystemCapabilities":
		r := &pb.CapabilityRequest{Direct: proto.Bool(s.boolean("direct")), Target: proto.String(s.str("tgt")), Action: action()}
		if v, ok := types.Capability_value[s.str("cap")]; ok {
			r.Capability = types.Capability(v).Enum()
		}
		rep, err = e.cl.SystemCapabilities(ctx, r)
	case "SystemPing":
		rep, err = e.cl.SystemPing(ctx, &pb.Empty{})
	case "SystemStatus":
		var r *pb.ServerStatus
		r, err = e.cl.SystemStatus(ctx, &pb.Empty{})
		rep = r
		if err == nil {
			bad := list{}
			for _, x := range r.GetSubSystems() {
				if !x.GetOK() {
					bad = append(bad, x.GetName())
				}
			}
			out = obj{"ok": r.GetSystemOK(), "bad": bad}
		}
	case "Malformed":
		if m, ok := s["msg"]; ok {
			rep, err = e.arbitrary(ctx, s.str("rpc"), m)
		} else {
			rep, err = e.malformed(ctx, s.str("rpc"), s.num("variant"))
		}
	default:
		die("unknown op %v", s)
	}
	return fin()
}

func hostileGroup(g *types.Group) {
	g.Capabilities = []types.Capability{types.Capability_GLOBAL_ROOT}
	g.Expansions = []string{"INCLUDE:evil-group"}
	g.UntypedMeta = []string{"evil:evil"}
	g.KV = []*types.KVData{{Key: proto.String("evil"), Values: []*types.KVValue{{Value: proto.String("evil")}}}}
}

// secretsIn lists the secrets (plain or stored form) that occur in b.
func (e *env) secretsIn(b []byte) list {
	out := list{}
	seen := map[string]bool{}
	chk := func(s string) {
		if len(s) >= 6 && !seen[s] && bytes.Contains(b, []byte(s)) {
			seen[s] = true
			out = append(out, s)
		}
	}
	for p := range e.plain {
		chk(p)
	}
	for h := range e.hashes {
		chk(h)
	}
	for _, v := range e.prevE {
		x := &types.Entity{}
		if proto.Unmarshal([]byte(v), x) == nil {
			chk(x.GetSecret())
		}
	}
	return out
}

// probe asks the membership and info questions about everything.
func (e *env) probe(s step) obj {
	ids := map[string]bool{}
	gs := map[string]bool{}
	for k := range e.prevE {
		ids[k] = true
	}
	for k := range e.prevG {
		gs[k] = true
	}
	for _, k := range s.strs("ids") {
		ids[k] = true
	}
	for _, k := range s.strs("gs") {
		gs[k] = true
	}
	for _, v := range e.prevE {
		x := &types.Entity{}
		if proto.Unmarshal([]byte(v), x) == nil {
			for _, g := range x.GetMeta().GetGroups() {
				gs[g] = true
			}
		}
	}
	eg, gm, ei, gi := list{}, list{}, list{}, list{}
	leak := list{}
	for _, id := range keysOf(ids) {
		if atomic.LoadInt32(&e.hung) != 0 {
			break
		}
		c, o, raw := e.do(step{"op": "EntityGroups", "id": id})
		leak = append(leak, e.secretsIn(raw)...)
		eg = append(eg, list{id, c, o})
		c, o, raw = e.do(step{"op": "EntityInfo", "id": id})
		leak = append(leak, e.secretsIn(raw)...)
		ei = append(ei, list{id, c, o})
	}
	for _, g := range keysOf(gs) {
		if atomic.LoadInt32(&e.hung) != 0 {
			break
		}
		c, o, raw := e.do(step{"op": "GroupMembers", "g": g})
		leak = append(leak, e.secretsIn(raw)...)
		gm = append(gm, list{g, c, o})
		c, o, raw = e.do(step{"op": "GroupInfo", "g": g})
		leak = append(leak, e.secretsIn(raw)...)
		gi = append(gi, list{g, c, o})
	}
	return obj{"eg": eg, "gm": gm, "ei": ei, "gi": gi, "leak": leak}
}

func keysOf(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// arbitrary sends a request given as the JSON form of its message.
func (e *env) arbitrary(ctx context.Context, rpc string, m interface{}) (proto.Message, error) {
	var in, out proto.Message
	switch rpc {
	case "EntityCreate", "EntityUpdate", "EntityDestroy", "EntityLock", "EntityUnlock", "GroupAddMember", "GroupDelMember":
		in, out = &pb.EntityRequest{}, &pb.Empty{}
	case "EntityInfo":
		in, out = &pb.EntityRequest{}, &pb.ListOfEntities{}
	case "EntityGroups":
		in, out = &pb.EntityRequest{}, &pb.ListOfGroups{}
	case "GroupCreate", "GroupUpdate", "GroupDestroy":
		in, out = &pb.GroupRequest{}, &pb.Empty{}
	case "GroupInfo":
		in, out = &pb.GroupRequest{}, &pb.ListOfGroups{}
	case "GroupMembers":
		in, out = &pb.GroupRequest{}, &pb.ListOfEntities{}
	case "EntityUM", "EntityKeys", "GroupUM":
		in, out = &pb.KVRequest{}, &pb.ListOfStrings{}
	case "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "GroupKVAdd", "GroupKVDel", "GroupKVReplace":
		in, out = &pb.KV2Request{}, &pb.Empty{}
	case "EntityKVGet", "GroupKVGet":
		in, out = &pb.KV2Request{}, &pb.ListOfKVData{}
	case "AuthEntity", "AuthValidateToken", "AuthChangeSecret":
		in, out = &pb.AuthRequest{}, &pb.Empty{}
	case "AuthGetToken":
		in, out = &pb.AuthRequest{}, &pb.AuthResult{}
	case "EntitySearch":
		in, out = &pb.SearchRequest{}, &pb.ListOfEntities{}
	case "GroupSearch":
		in, out = &pb.SearchRequest{}, &pb.ListOfGroups{}
	case "SystemCapabilities":
		in, out = &pb.CapabilityRequest{}, &pb.Empty{}
	case "GroupUpdateRules":
		in, out = &pb.GroupRulesRequest{}, &pb.Empty{}
	default:
		die("unknown rpc %s", rpc)
	}
	b, err := json.Marshal(m)
	if err != nil {
		die("%v", err)
	}
	if err := jsonpb.UnmarshalString(string(b), in); err != nil {
		die("message for %s: %v: %s", rpc, err, b)
	}
	return out, e.conn.Invoke(ctx, "/netauth.v2.NetAuth2/"+rpc, in, out)
}

// malformed sends requests with missing parts.
func (e *env) malformed(ctx context.Context, rpc string, v int) (proto.Message, error) {
	s := ""
	entity := []*pb.EntityRequest{nil, {}, {Entity: &types.Entity{}}, {Data: &types.Entity{}},
		{Entity: &types.Entity{ID: &s}, Data: &types.Entity{ID: &s, Meta: &types.EntityMeta{}}},
		{Entity: &types.Entity{Meta: &types.EntityMeta{Groups: []string{""}}}}}
	group := []*pb.GroupRequest{nil, {}, {Group: &types.Group{}}, {Data: &types.Group{}},
		{Group: &types.Group{Name: &s}}, {Group: &types.Group{Name: &s}, Data: &types.Group{Name: &s}}}
	kv := []*pb.KVRequest{nil, {}, {Target: &s}, {Action: pb.Action_UPSERT.Enum()}, {Action: pb.Action(77).Enum(), Target: &s},
		{Action: pb.Action_CLEARFUZZY.Enum(), Key: &s}}
	kv2 := []*pb.KV2Request{nil, {}, {Target: &s}, {Data: &types.KVData{Key: &s}}, {Target: &s, Data: &types.KVData{Key: &s}},
		{Target: proto.String("nobody")}}
	auth := []*pb.AuthRequest{nil, {}, {Entity: &types.Entity{}}, {Secret: &s}, {Token: &s}, {Entity: &types.Entity{ID: &s, Secret: &s}}}
	caps := []*pb.CapabilityRequest{nil, {}, {Target: &s}, {Target: proto.String("nobody")},
		{Target: proto.String("nobody"), Direct: proto.Bool(true)}, {Target: proto.String("nobody"), Direct: proto.Bool(true), Capability: types.Capability(999).Enum()}}
	rules := []*pb.GroupRulesRequest{nil, {}, {Group: &types.Group{}}, {Target: &types.Group{}}, {Group: &types.Group{Name: &s}, Target: &types.Group{Name: &s}},
		{RuleAction: pb.RuleAction(55).Enum()}}
	search := []*pb.SearchRequest{nil, {}, {Expression: &s}, {Expression: proto.String("((")}, {Expression: proto.String("a:")}, {Expression: proto.String("\"")}}
	i := v % 6
	fixE := func(r *pb.EntityRequest) *pb.EntityRequest {
		if r == nil {
			return &pb.EntityRequest{}
		}
		return r
	}
	_ = fixE
	switch rpc {
	case "EntityCreate":
		return e.cl.EntityCreate(ctx, fixE(entity[i]))
	case "EntityUpdate":
		return e.cl.EntityUpdate(ctx, fixE(entity[i]))
	case "EntityInfo":
		return e.cl.EntityInfo(ctx, fixE(entity[i]))
	case "EntityDestroy":
		return e.cl.EntityDestroy(ctx, fixE(entity[i]))
	case "EntityLock":
		return e.cl.EntityLock(ctx, fixE(entity[i]))
	case "EntityUnlock":
		return e.cl.EntityUnlock(ctx, fixE(entity[i]))
	case "EntityGroups":
		return e.cl.EntityGroups(ctx, fixE(entity[i]))
	case "GroupAddMember":
		return e.cl.GroupAddMember(ctx, fixE(entity[i]))
	case "GroupDelMember":
		return e.cl.GroupDelMember(ctx, fixE(entity[i]))
	}
	g := group[i]
	if g == nil {
		g = &pb.GroupRequest{}
	}
	switch rpc {
	case "GroupCreate":
		return e.cl.GroupCreate(ctx, g)
	case "GroupUpdate":
		return e.cl.GroupUpdate(ctx, g)
	case "GroupInfo":
		return e.cl.GroupInfo(ctx, g)
	case "GroupDestroy":
		return e.cl.GroupDestroy(ctx, g)
	case "GroupMembers":
		return e.cl.GroupMembers(ctx, g)
	}
	k := kv[i]
	if k == nil {
		k = &pb.KVRequest{}
	}
	switch rpc {
	case "EntityUM":
		return e.cl.EntityUM(ctx, k)
	case "EntityKeys":
		return e.cl.EntityKeys(ctx, k)
	case "GroupUM":
		return e.cl.GroupUM(ctx, k)
	}
	k2 := kv2[i]
	if k2 == nil {
		k2 = &pb.KV2Request{}
	}
	switch rpc {
	case "EntityKVAdd":
		return e.cl.EntityKVAdd(ctx, k2)
	case "EntityKVGet":
		return e.cl.EntityKVGet(ctx, k2)
	case "EntityKVDel":
		return e.cl.EntityKVDel(ctx, k2)
	case "EntityKVReplace":
		return e.cl.EntityKVReplace(ctx, k2)
	case "GroupKVAdd":
		return e.cl.GroupKVAdd(ctx, k2)
	case "GroupKVGet":
		return e.cl.GroupKVGet(ctx, k2)
	case "GroupKVDel":
		return e.cl.GroupKVDel(ctx, k2)
	case "GroupKVReplace":
		return e.cl.GroupKVReplace(ctx, k2)
	}
	a := auth[i]
	if a == nil {
		a = &pb.AuthRequest{}
	}
	switch rpc {
	case "AuthEntity":
		return e.cl.AuthEntity(ctx, a)
	case "AuthGetToken":
		return e.cl.AuthGetToken(ctx, a)
	case "AuthValidateToken":
		return e.cl.AuthValidateToken(ctx, a)
	case "AuthChangeSecret":
		return e.cl.AuthChangeSecret(ctx, a)
	}
	se := search[i]
	if se == nil {
		se = &pb.SearchRequest{}
	}
	switch rpc {
	case "EntitySearch":
		return e.cl.EntitySearch(ctx, se)
	case "GroupSearch":
		return e.cl.GroupSearch(ctx, se)
	}
	c := caps[i]
	if c == nil {
		c = &pb.CapabilityRequest{}
	}
	r := rules[i]
	if r == nil {
		r = &pb.GroupRulesRequest{}
	}
	switch rpc {
	case "SystemCapabilities":
		return e.cl.SystemCapabilities(ctx, c)
	case "GroupUpdateRules":
		return e.cl.GroupUpdateRules(ctx, r)
	}
	die("unknown rpc %s", rpc)
	return nil, nil
}
