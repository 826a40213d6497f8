package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/token"

	types "github.com/netauth/protocol"
)

// The real command line tool against servers that record what it asks for.

func init() { modules["cli"] = newCliMod }

type cliMod struct {
	f      *fakes
	home   string
	conf   string
	ts     token.Service
	labels map[string]string
}

func newCliMod(s *scenario, scratch string) module {
	initProcess(scratch)
	envCount++
	m := &cliMod{f: newFakes(), home: filepath.Join(scratch, fmt.Sprintf("cli%d", envCount)), labels: map[string]string{}}
	os.MkdirAll(filepath.Join(m.home, "keys"), 0755)
	os.MkdirAll(filepath.Join(m.home, "tmp"), 0755)
	pem, err := os.ReadFile(filepath.Join(viper.GetString("core.conf"), "keys", "token.pem"))
	if err != nil {
		die("public key: %v", err)
	}
	os.WriteFile(filepath.Join(m.home, "keys", "token.pem"), pem, 0644)
	m.conf = filepath.Join(m.home, "config.toml")
	c := fmt.Sprintf("[core]\nserver = \"127.0.0.1\"\nport = %d\n", m.f.port)
	if s.Backend == "split" {
		c += "master = \"127.0.0.2\"\n"
	}
	c += "[tls]\npwn_me = true\n[client]\nID = \"the-client\"\n"
	os.WriteFile(m.conf, []byte(c), 0644)
	m.ts, err = token.New("jwt-rsa")
	if err != nil {
		die("token service: %v", err)
	}
	base := time.Now()
	m.f.token = func(st step) string {
		// unlike any other
		at := base.Add(-time.Duration(len(m.labels)) * time.Second)
		cfg := token.Config{Lifetime: 6 * time.Hour, Issuer: "verif", IssuedAt: at, NotBefore: at}
		if st.str("life") != "long" {
			cfg.Lifetime = -time.Hour
		}
		t, err := m.ts.Generate(token.Claims{EntityID: st.str("who"), Capabilities: []types.Capability{types.Capability(0)}}, cfg)
		if err != nil {
			die("token: %v", err)
		}
		m.labels[t] = st.str("new")
		return t
	}
	return m
}

func (m *cliMod) close() {
	m.f.close()
	os.RemoveAll(m.home)
}

var metaFlag = map[string]string{"PrimaryGroup": "primary-group", "GECOS": "GECOS", "LegalName": "legalName", "DisplayName": "displayName",
	"Home": "homedir", "Shell": "shell", "GraphicalShell": "graphicalShell", "BadgeNumber": "badgeNumber"}

// argv spells the command for a step.
func argv(s step) []string {
	id, act := s.str("id"), s.str("act")
	kind := "entity"
	if strings.HasPrefix(s.str("op"), "Group") {
		kind = "group"
	}
	fields := func(a ...string) []string {
		if f := s.strs("fields"); len(f) > 0 {
			a = append(a, "--fields", strings.Join(f, ","))
		}
		return append(a, "--", id)
	}
	switch s.str("op") {
	case "Bad":
		return s.strs("argv")
	case "GetToken":
		return []string{"auth", "get-token"}
	case "DestroyToken":
		return []string{"auth", "destroy-token"}
	case "InspectToken":
		return []string{"auth", "inspect-token"}
	case "AuthEntity":
		return []string{"auth", "check"}
	case "AuthValidateToken":
		return []string{"auth", "validate-token"}
	case "AuthChangeSecret":
		a := []string{"auth", "change-secret", "--csSecret", s.str("nsec")}
		if s.str("id") != "" {
			a = append(a, "--csEntity", id)
		}
		return a
	case "EntityCreate":
		a := []string{"entity", "create", "--initial-secret", s.str("nsec")}
		if n := s.num("num"); n != -1 {
			a = append(a, "--number", strconv.Itoa(n))
		}
		return append(a, "--", id)
	case "EntityUpdate":
		a := []string{"entity", "update"}
		for _, kv := range s.list("meta") {
			p := kv.(list)
			a = append(a, "--"+metaFlag[p[0].(string)]+"="+p[1].(string))
		}
		return append(a, "--", id)
	case "EntityInfo", "GroupInfo":
		return fields(kind, "info")
	case "EntitySearch", "GroupSearch":
		id = s.str("expr")
		return fields(kind, "search")
	case "EntityGroups":
		return fields("entity", "memberships")
	case "GroupMembers":
		return fields("group", "members")
	case "EntityUM", "GroupUM":
		a := []string{kind, "kv", "--", id, act, s.str("key")}
		if s.str("can") == "UPSERT" {
			a = append(a, s.str("val"))
		}
		return a
	case "EntityKeys":
		a := []string{"entity", "key"}
		if id != "" {
			a = append(a, "--entityID", id)
		}
		a = append(a, "--", act)
		switch s.str("can") {
		case "ADD":
			a = append(a, s.str("key"), s.str("val"))
		case "DROP":
			a = append(a, s.str("val"))
		case "READ":
			if s.str("key") != "" {
				a = append(a, s.str("key"))
			}
		}
		return a
	case "EntityKVGet", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "GroupKVGet", "GroupKVAdd", "GroupKVDel", "GroupKVReplace":
		sub := strings.ToLower(s.str("op")[strings.Index(s.str("op"), "KV")+2:])
		return append([]string{"kv2", sub, "--", kind, id, s.str("key")}, s.strs("vals")...)
	case "EntityDestroy", "GroupDestroy":
		return []string{kind, "destroy", "--", id}
	case "EntityLock":
		return []string{kind, "lock", "--", id}
	case "EntityUnlock":
		return []string{kind, "unlock", "--", id}
	case "GroupCreate":
		a := []string{"group", "create"}
		if s.str("dn") != "" {
			a = append(a, "--display-name="+s.str("dn"))
		}
		if s.str("mb") != "" {
			a = append(a, "--managed-by="+s.str("mb"))
		}
		if n := s.num("num"); n != -1 {
			a = append(a, "--number", strconv.Itoa(n))
		}
		return append(a, "--", id)
	case "GroupUpdate":
		a := []string{"group", "update"}
		if s.has("dn") {
			a = append(a, "--display-name="+s.str("dn"))
		}
		if s.has("mb") {
			a = append(a, "--managed-by="+s.str("mb"))
		}
		return append(a, "--", id)
	case "GroupUpdateRules":
		return []string{"group", "rule", "--", id, act, s.str("tgt")}
	case "GroupAddMember":
		return []string{"entity", "membership", "--", id, act, s.str("tgt")}
	case "GroupDelMember":
		return []string{"entity", "membership", "--", id, act, s.str("tgt")}
	case "SystemCapabilities":
		a := []string{"system", "capability"}
		if s.boolean("direct") {
			a = append(a, "--direct")
		}
		return append(a, "--", id, act, s.str("cap"))
	case "SystemPing":
		return []string{"system", "ping"}
	case "SystemStatus":
		return []string{"system", "status"}
	}
	die("no command for %v", s)
	return nil
}

var (
	valueLine = regexp.MustCompile(`^[^:]*: (.*)$`)
	itemLine  = regexp.MustCompile(`^  - (.*)$`)
)

func (m *cliMod) exec(st step, line obj) {
	m.f.expect(st)
	ctx, cancel := context.WithTimeout(context.Background(), 15*time.Second)
	defer cancel()
	args := []string{"--config", m.conf}
	env := []string{"HOME=" + m.home, "TMPDIR=" + filepath.Join(m.home, "tmp"), "PATH=/nonexistent"}
	if st.boolean("env") {
		env = append(env, "NETAUTH_ENTITY="+st.str("who"), "NETAUTH_SECRET="+st.str("sec"))
	} else {
		args = append(args, "--entity", st.str("who"), "--secret", st.str("sec"))
	}
	cmd := exec.CommandContext(ctx, bin("netauth"), append(args, argv(st)...)...)
	cmd.Dir = m.home
	cmd.Env = env
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	if cmd.ProcessState == nil {
		die("netauth: %v", err)
	}
	line["res"] = "OK"
	if code := cmd.ProcessState.ExitCode(); code != 0 {
		line["res"] = "FAILED"
		if ctx.Err() != nil || strings.Contains(errs.String(), "goroutine ") {
			line["res"] = "CRASHED"
			line["stderr"] = errs.String()
		}
	}
	reqs := m.f.seen()
	for _, q := range reqs {
		a := q.(obj)["auth"].(list)
		for i := range a {
			a[i] = m.label(a[i].(string))
		}
		for _, p := range q.(obj)["fields"].(list) {
			if p.(list)[0] == "Token" {
				p.(list)[1] = m.label(p.(list)[1].(string))
			}
		}
	}
	line["reqs"] = reqs
	vals, blocks := list{}, list{}
	for _, l := range strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n") {
		if x := valueLine.FindStringSubmatch(l); x != nil {
			vals = append(vals, x[1])
		} else if x := itemLine.FindStringSubmatch(l); x != nil {
			vals = append(vals, x[1])
		}
		if strings.HasPrefix(l, "  ") && len(blocks) > 0 {
			b := blocks[len(blocks)-1].(list)
			b[1] = append(b[1].(list), l[2:])
		} else if l != "" {
			blocks = append(blocks, list{strings.TrimSuffix(l, ":"), list{}})
		}
	}
	line["shown"] = vals
	kv := list{}
	for _, b := range blocks {
		if len(b.(list)[1].(list)) > 0 {
			kv = append(kv, b)
		}
	}
	line["okv"] = kv
}

func (m *cliMod) label(t string) string {
	if l, ok := m.labels[t]; ok {
		return l
	}
	return "?" + t
}

func mkEnt(o step) *types.Entity {
	e := entRef(o.str("id"))
	e.Number = proto.Int32(int32(o.num("num")))
	if len(o.list("meta"))+len(o.list("caps")) > 0 {
		e.Meta = mkMeta(o.list("meta"))
		for _, c := range o.strs("caps") {
			e.Meta.Capabilities = append(e.Meta.Capabilities, types.Capability(types.Capability_value[c]))
		}
	}
	return e
}

func mkGrp(o step) *types.Group {
	g := grpRef(o.str("id"))
	g.Number = proto.Int32(int32(o.num("num")))
	g.DisplayName, g.ManagedBy = proto.String(o.str("dn")), proto.String(o.str("mb"))
	g.Expansions = o.strs("rules")
	for _, c := range o.strs("caps") {
		g.Capabilities = append(g.Capabilities, types.Capability(types.Capability_value[c]))
	}
	return g
}
