package main

import (
	"os"
	"path/filepath"
	"sync"

	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/fs"
	_ "github.com/netauth/netauth/pkg/netauth/cache/memory"
)

// The token caches of the client library.

func init() { inChild("cache", newCacheMod) }

type cacheMod struct {
	name    string
	scratch string
	tmp     string
	inst    map[int]cache.TokenCache
}

func newCacheMod(s *scenario, scratch string) module {
	m := &cacheMod{name: s.Backend, scratch: filepath.Join(scratch, "c"), inst: map[int]cache.TokenCache{}}
	// deep enough for names that try to climb out
	m.tmp = filepath.Join(m.scratch, "1/2/3/4/5/6/tmp")
	os.MkdirAll(m.tmp, 0755)
	os.Setenv("TMPDIR", m.tmp)
	return m
}

func (m *cacheMod) close() {}

func (m *cacheMod) get(i int) cache.TokenCache {
	if c, ok := m.inst[i]; ok {
		return c
	}
	c, err := cache.NewTokenCache(m.name)
	if err != nil {
		die("cache: %v", err)
	}
	m.inst[i] = c
	return c
}

func (m *cacheMod) do(st step) obj {
	o := obj{"res": "OK", "val": ""}
	c := m.get(st.num("inst"))
	var err error
	switch st.str("op") {
	case "Put":
		err = c.PutToken(st.str("o"), string(valBytes(st.str("t"))))
	case "Get":
		var v string
		v, err = c.GetToken(st.str("o"))
		if err == nil {
			o["val"] = valLabel([]byte(v))
		}
	case "Del":
		err = c.DelToken(st.str("o"))
	}
	switch err {
	case nil:
	case cache.ErrNoCachedToken:
		o["res"] = "NOTOKEN"
	default:
		o["res"], o["err"] = "ERR", err.Error()
	}
	return o
}

func (m *cacheMod) exec(st step, line obj) {
	line["res"] = "OK"
	switch st.str("op") {
	case "New":
		delete(m.inst, st.num("inst"))
		m.get(st.num("inst"))
	case "Loosen":
		filepath.Walk(m.tmp, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() {
				os.Chmod(p, 0666)
			}
			return nil
		})
	case "Par":
		var wg sync.WaitGroup
		var mu sync.Mutex
		outs := make([]list, len(st.list("branches")))
		m.get(1)
		for i, b := range st.list("branches") {
			calls := step(obj{"x": b}).steps("x")
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, c := range calls {
					r := m.do(c)
					for k, v := range c {
						r[k] = v
					}
					mu.Lock()
					outs[i] = append(outs[i], r)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		l := list{}
		for _, o := range outs {
			l = append(l, o)
		}
		line["branches"] = l
	default:
		for k, v := range m.do(st) {
			line[k] = v
		}
	}
	loose, outside := 0, 0
	filepath.Walk(m.scratch, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		if filepath.Dir(p) != m.tmp {
			outside++
		}
		if fi.Mode().Perm()&077 != 0 {
			loose++
		}
		return nil
	})
	line["loose"], line["outside"] = loose, outside
}
