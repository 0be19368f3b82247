package main

import (
	"sort"
	"strings"
	"sync"
	_ "unsafe" // for the logger of the standard library
)

// The standard library reports every variable, file and directory that is
// looked at to a logger, which go test uses to know what a test depends on.
// The monitors use it to learn what operations look at apart from their
// arguments, so that just this is varied. No verdict depends on it.

//go:linkname testlogSetLogger internal/testlog.SetLogger
func testlogSetLogger(impl interface {
	Getenv(key string)
	Stat(file string)
	Open(file string)
	Chdir(dir string)
})

type readLog struct {
	mu   sync.Mutex
	on   bool
	seen map[string]bool
}

var reads = &readLog{}

func (l *readLog) note(kind, s string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.on && len(l.seen) < 200 {
		l.seen[kind+" "+s] = true
	}
}

func (l *readLog) Getenv(key string) { l.note("env", key) }
func (l *readLog) Stat(f string)     { l.note("file", f) }
func (l *readLog) Open(f string)     { l.note("file", f) }
func (l *readLog) Chdir(f string)    { l.note("file", f) }

// listen starts to report what is looked at.
func (l *readLog) listen() {
	l.mu.Lock()
	l.on, l.seen = true, map[string]bool{}
	l.mu.Unlock()
}

// stop returns what was looked at.
func (l *readLog) stop() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.on = false
	var out []string
	for s := range l.seen {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// meantToBeRead are the variables an operation is documented to look at.
func meantToBeRead(name string) bool {
	l := strings.ToLower(name)
	return strings.Contains(l, "proxy") || strings.HasPrefix(name, "DRONE_CONVERT_YAML_")
}
