package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Copying stores with the real nsutil program.

func init() { modules["copy"] = newCopyMod }

type copyMod struct {
	home, conf string
	st         map[string]*storeMod
}

func bin(name string) string {
	p := filepath.Join(os.Getenv("VERIF_BINS"), name)
	if _, err := os.Stat(p); err != nil {
		die("binary: %v", err)
	}
	return p
}

func newCopyMod(s *scenario, scratch string) module {
	envCount++
	home := filepath.Join(scratch, fmt.Sprintf("copy%d", envCount))
	os.MkdirAll(home, 0755)
	m := &copyMod{home: home, conf: filepath.Join(home, "config.toml"), st: map[string]*storeMod{}}
	os.MkdirAll(filepath.Join(home, "data"), 0755)
	os.WriteFile(m.conf, []byte(fmt.Sprintf("[core]\nhome = %q\n", filepath.Join(home, "data"))), 0644)
	for _, b := range []string{"filesystem", "bitcask"} {
		m.st[b] = &storeMod{backend: b, home: filepath.Join(home, "data")}
	}
	return m
}

func (m *copyMod) close() { os.RemoveAll(m.home) }

func (m *copyMod) dump(line obj) {
	for _, b := range []string{"filesystem", "bitcask"} {
		s := m.st[b]
		if err := s.open(); err != nil {
			line["sterr"] = err.Error()
			line[b] = list{}
			continue
		}
		s.state(line, b)
		s.shut()
	}
}

func (m *copyMod) exec(st step, line obj) {
	switch st.str("op") {
	case "Put", "Del":
		s := m.st[st.str("b")]
		if err := s.open(); err != nil {
			line["res"] = "ERR"
		} else {
			s.call(st, line)
			s.shut()
		}
	case "Copy":
		args := []string{"--config", m.conf, "copy", st.str("src"), st.str("dst")}
		if st.boolean("trunc") {
			args = append(args, "--truncate")
		}
		if !st.boolean("dry") {
			args = append(args, "--no-dry-run")
		}
		cmd := exec.Command(bin("nsutil"), args...)
		if in := st.str("inject"); in != "" {
			sa := []string{"-f", "-o", m.home + ".strace", "-e", "trace=" + st.str("calls"), "-e", "inject=" + st.str("calls") + ":" + in}
			if st.boolean("kv") {
				// only what touches the files of the filesystem store
				sa = append(sa, "-P", filepath.Join(m.home, "data", "kv"))
				filepath.Walk(filepath.Join(m.home, "data", "kv"), func(p string, fi os.FileInfo, err error) error {
					if err == nil {
						sa = append(sa, "-P", p)
					}
					return nil
				})
			}
			cmd = exec.Command("strace", append(append(sa, bin("nsutil")), args...)...)
		}
		var eb, ob bytes.Buffer
		cmd.Stderr, cmd.Stdout = &eb, &ob
		cmd.Dir = m.home
		err := cmd.Run()
		line["res"] = "OK"
		if err != nil {
			line["res"] = "ERR"
		}
		if st.str("inject") != "" {
			// counted for each thread, so there may be several
			b, _ := os.ReadFile(m.home + ".strace")
			os.Remove(m.home + ".strace")
			line["hits"] = strings.Count(string(b), "(INJECTED)")
		}
		line["said"] = strings.TrimSpace(eb.String()) != ""
		if eb.Len() > 0 {
			line["err"] = tail(eb.String(), 300)
		}
	default:
		die("copy: unknown step %v", st)
	}
	m.dump(line)
}
