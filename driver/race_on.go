//go:build race
// +build race

package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"regexp"
	"runtime"
	"strings"
)

var (
	raceCount int
	raceSeen  int
	raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(\)\n      (\S+):(\d+)`)
)

// races returns the new reports of unsynchronised accesses in NetAuth's own
// code.
func races() list {
	n := runtime.RaceErrors()
	if n == raceCount {
		return list{}
	}
	raceCount = n
	out := list{}
	b, _ := ioutil.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("VERIF_RACELOG"), os.Getpid()))
	t := string(b[raceSeen:])
	raceSeen = len(b)
	for _, r := range strings.Split(t, "WARNING: DATA RACE")[1:] {
		at := []string{}
		for _, p := range strings.Split(r, "\n\n") {
			if strings.Contains(p, "created at") {
				continue
			}
			for _, m := range raceFrame.FindAllStringSubmatch(p, -1) {
				f := m[1]
				if strings.Contains(f, "/verifdrv.") || strings.HasPrefix(f, "main.") {
					break
				}
				if strings.Contains(f, "github.com/netauth/netauth/") {
					at = append(at, f)
					break
				}
				if strings.Contains(f, "bleve") || strings.Contains(f, "bitcask") || strings.Contains(f, "grpc") {
					break // their own business
				}
			}
		}
		if len(at) >= 1 {
			out = append(out, strings.Join(at, " / "))
		}
	}
	return out
}
