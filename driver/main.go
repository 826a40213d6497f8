// Package main is the conformance driver: it plays request sequences into
// the real NetAuth server and records what happened, for validation against
// the TLA+ specification.  It is compiled into the NetAuth module through
// "go build -overlay" and never part of the repository.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver: "+f+"\n", a...)
	os.Exit(3)
}

// out writes one JSON line and flushes it.
type recorder struct {
	f *os.File
	w *bufio.Writer
}

func newRecorder(name string) *recorder {
	f, err := os.Create(name)
	if err != nil {
		die("%v", err)
	}
	return &recorder{f, bufio.NewWriterSize(f, 1<<16)}
}

func (r *recorder) emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		die("marshal: %v", err)
	}
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.w.Flush()
}

func main() {
	debug.SetMaxStack(64 << 20)
	if len(os.Args) < 2 {
		die("usage: driver MODE ...")
	}
	switch os.Args[1] {
	case "run":
		// run SCENARIOS OUT SCRATCH
		runScenarios(os.Args[2], os.Args[3], os.Args[4])
	default:
		m, ok := modes[os.Args[1]]
		if !ok {
			die("unknown mode %s", os.Args[1])
		}
		m(os.Args[2:])
	}
}

var modes = map[string]func([]string){}
