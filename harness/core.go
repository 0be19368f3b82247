package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// repoPath is what frames of the code under test look like in a stack trace.
const repoPath = "github.com/drone/drone-yaml"

// Section is a family of cases of one property.
type Section struct {
	Name     string
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier
	Serial   bool
	Run      func(t *T)
}

// Prop is a property: how its cases are made and what has to be observed
// for a silent run to mean anything.
type Prop struct {
	ID       string
	Rule     string
	Sections []Section
	// Need lists observation counters that have to be positive.
	Need []string
	// Assume lists what the verdict rests on.
	Assume []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// T is one case: a source of random choices plus the observations made.
type T struct {
	*rand.Rand
	w      *worker
	prop   string
	sec    string
	idx    int
	tier   string
	inputs [][2]string
	warp   func(*N) *N // applied to a document before it is written
}

func (t *T) warped(n *N) *N {
	if t.warp != nil {
		return t.warp(n)
	}
	return n
}

type worker struct {
	id       int
	evals    int
	counters map[string]int
	sets     map[string]map[uint64]struct{}
	nontriv  map[uint64]struct{}
	samples  []map[string]string
	known    map[string]string
	viol     []*Violation
	current  atomic.Value // string
	started  atomic.Int64
}

// Violation is one observed violation.
type Violation struct {
	Prop    string      `json:"property"`
	Section string      `json:"section"`
	Case    int         `json:"case"`
	Seed    int64       `json:"seed"`
	Tier    string      `json:"tier"`
	What    string      `json:"what"`
	Inputs  [][2]string `json:"inputs"`
	Stack   string      `json:"stack,omitempty"`
}

// Result is what a run hands to its supervisor.
type Result struct {
	Evals    int                 `json:"evals"`
	Distinct int                 `json:"distinct"`
	Counters map[string]int      `json:"counters"`
	Sets     map[string]int      `json:"sets"`
	Sections map[string]int      `json:"sections"`
	Samples  []map[string]string `json:"samples"`
	Known    map[string]string   `json:"known"`
	Viol     []*Violation        `json:"violations"`
	Broken   string              `json:"broken"` // harness failure
	Missing  []string            `json:"missing"`
}

type caseEnd struct{}
type caseSkip struct{}

// Input records an input of the case for the replay file and the samples.
func (t *T) Input(k, v string) { t.inputs = append(t.inputs, [2]string{k, v}) }

// Fail records a violation and ends the case.
func (t *T) Fail(format string, args ...interface{}) {
	v := &Violation{Prop: t.prop, Section: t.sec, Case: t.idx, Seed: seedFlag, Tier: t.tier,
		What: fmt.Sprintf(format, args...), Inputs: t.inputs}
	t.w.viol = append(t.w.viol, v)
	panic(caseEnd{})
}

// FailKnown is Fail, unless the failure is a listed known finding.
func (t *T) FailKnown(id, format string, args ...interface{}) {
	if k, ok := knownFindings[t.prop+"/"+id]; ok {
		t.w.known[id] = k
		panic(caseEnd{})
	}
	t.Fail(format, args...)
}

// Broken reports that the harness itself misbehaved.
func (t *T) Broken(format string, args ...interface{}) {
	panic("harness: " + fmt.Sprintf(format, args...))
}

// Skip ends a case that turned out not to apply.
func (t *T) Skip(reason string) {
	t.Obs("skipped:"+reason, 1)
	panic(caseSkip{})
}

// Obs counts observed events.
func (t *T) Obs(name string, n int) { t.w.counters[name] += n }

// Seen records a distinct observed state.
func (t *T) Seen(set, key string) {
	m := t.w.sets[set]
	if m == nil {
		m = map[uint64]struct{}{}
		t.w.sets[set] = m
	}
	m[hash64(key)] = struct{}{}
}

// NonTrivial records the case as non-trivial, identified by key.
func (t *T) NonTrivial(key string) { t.w.nontriv[hash64(key)] = struct{}{} }

func (t *T) Bool() bool         { return t.IntN(2) == 0 }
func (t *T) P(pct int) bool     { return t.IntN(100) < pct }
func (t *T) Range(a, b int) int { return a + t.IntN(b-a+1) }
func (t *T) Pick(ss ...string) string {
	return ss[t.IntN(len(ss))]
}

// Thorough reports whether the thorough tier is running.
func (t *T) Thorough() bool { return t.tier == "thorough" }

func hash64(s string) uint64 {
	h := sha256.Sum256([]byte(s))
	return binary.LittleEndian.Uint64(h[:8])
}

func caseRand(seed int64, prop, sec string, idx int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%s|%d", seed, prop, sec, idx)))
	return rand.New(rand.NewPCG(binary.LittleEndian.Uint64(h[:8]), binary.LittleEndian.Uint64(h[8:16])))
}

var (
	seedFlag      int64
	knownFindings = map[string]string{}
	maxViol       = 5
	caseTimeout   = 150 * time.Second
	maxHeap       = uint64(10 << 30)
)

func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		var e struct{ Status, Property, ID, What string }
		if json.Unmarshal([]byte(line), &e) != nil || e.Status != "known" {
			continue
		}
		knownFindings[e.Property+"/"+e.ID] = e.What
	}
}

// panicText turns a recovered panic into text and says whether the code
// under test is to blame (it has a frame between the panic and the case).
func panicText(r interface{}) (text, stack string, blame bool) {
	stack = string(debug.Stack())
	text = fmt.Sprint(r)
	if strings.HasPrefix(text, "harness: ") {
		return text, stack, false
	}
	// frames above the harness' first own frame
	seen := false
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "panic(") {
			seen = true
			continue
		}
		if !seen {
			continue
		}
		if strings.HasPrefix(line, repoPath+"/") || strings.HasPrefix(line, repoPath+".") {
			return text, stack, true
		}
		if strings.HasPrefix(line, "main.") {
			return text, stack, false
		}
	}
	return text, stack, false
}

func runCase(w *worker, p *Prop, s *Section, idx int, tier string) (t *T, broken string) {
	t = &T{Rand: caseRand(seedFlag, p.ID, s.Name, idx), w: w, prop: p.ID, sec: s.Name, idx: idx, tier: tier}
	w.current.Store(fmt.Sprintf("%s:%d", s.Name, idx))
	w.started.Store(time.Now().UnixNano())
	defer w.started.Store(0)
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case caseEnd, caseSkip:
				return
			}
			text, stack, blame := panicText(r)
			if blame {
				w.viol = append(w.viol, &Violation{Prop: p.ID, Section: s.Name, Case: idx, Seed: seedFlag, Tier: tier,
					What: "panic: " + text, Inputs: t.inputs, Stack: stack})
				return
			}
			if re, ok := r.(runtime.Error); ok {
				// what came back is not even of the expected shape
				w.viol = append(w.viol, &Violation{Prop: p.ID, Section: s.Name, Case: idx, Seed: seedFlag, Tier: tier,
					What: "the observation does not have the expected shape: " + re.Error(), Inputs: t.inputs, Stack: stack})
				return
			}
			broken = text + "\n" + stack
		}
	}()
	w.evals++
	s.Run(t)
	return
}

func newWorker(id int) *worker {
	return &worker{id: id, counters: map[string]int{}, sets: map[string]map[uint64]struct{}{}, nontriv: map[uint64]struct{}{}, known: map[string]string{}}
}

// runProp runs a property (or, with only set, a single case of it).
func runProp(p *Prop, tier, only string, hang func(what string)) *Result {
	res := &Result{Counters: map[string]int{}, Sets: map[string]int{}, Sections: map[string]int{}, Known: map[string]string{}}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	workers := make([]*worker, nw)
	for i := range workers {
		workers[i] = newWorker(i)
	}
	stop := make(chan struct{})
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
			metrics.Read(heap)
			for _, w := range workers {
				if s := w.started.Load(); s != 0 && time.Since(time.Unix(0, s)) > caseTimeout {
					hang(fmt.Sprint(w.current.Load(), " did not return within ", caseTimeout))
				}
				if s := w.started.Load(); s != 0 && heap[0].Value.Uint64() > maxHeap && time.Since(time.Unix(0, s)) > 3*time.Second {
					hang(fmt.Sprint(w.current.Load(), " takes more than ", maxHeap>>30, " GB of memory"))
				}
			}
		}
	}()
	var nviol atomic.Int64
	var mu sync.Mutex
	for si := range p.Sections {
		s := &p.Sections[si]
		n := s.Quick
		if tier == "thorough" && s.Thorough > 0 {
			n = s.Thorough
		}
		lo := 0
		if only != "" {
			var name string
			var k int
			i := strings.LastIndex(only, ":")
			name = only[:i]
			fmt.Sscan(only[i+1:], &k)
			if name != s.Name {
				continue
			}
			lo, n = k, k+1
		}
		var next atomic.Int64
		next.Store(int64(lo))
		k := nw
		if s.Serial {
			k = 1
		}
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			w := workers[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1)) - 1
					if i >= n || int(nviol.Load()) >= maxViol {
						return
					}
					before := len(w.viol)
					nt := len(w.nontriv)
					t, broken := runCase(w, p, s, i, tier)
					if len(w.viol) > before {
						nviol.Add(1)
					}
					if broken != "" {
						mu.Lock()
						if res.Broken == "" {
							res.Broken = fmt.Sprintf("case %s:%d: %s", s.Name, i, broken)
						}
						mu.Unlock()
						nviol.Add(1000)
						return
					}
					if len(w.samples) < 1 && len(w.nontriv) > nt && len(t.inputs) > 0 {
						m := map[string]string{"case": fmt.Sprintf("%s:%d", s.Name, i)}
						for _, kv := range t.inputs {
							v := kv[1]
							if len(v) > 700 {
								v = v[:700] + "…"
							}
							m[kv[0]] = v
						}
						w.samples = append(w.samples, m)
					}
				}
			}()
		}
		wg.Wait()
		done := int(next.Load()) - lo
		if done > n-lo {
			done = n - lo
		}
		if done < 0 {
			done = 0
		}
		res.Sections[s.Name] = done
	}
	close(stop)
	nt := map[uint64]struct{}{}
	sets := map[string]map[uint64]struct{}{}
	for _, w := range workers {
		res.Evals += w.evals
		for k, v := range w.counters {
			res.Counters[k] += v
		}
		for k, v := range w.known {
			res.Known[k] = v
		}
		for k := range w.nontriv {
			nt[k] = struct{}{}
		}
		for name, m := range w.sets {
			if sets[name] == nil {
				sets[name] = map[uint64]struct{}{}
			}
			for k := range m {
				sets[name][k] = struct{}{}
			}
		}
		if len(res.Samples) < 4 {
			res.Samples = append(res.Samples, w.samples...)
		}
		res.Viol = append(res.Viol, w.viol...)
	}
	for k, m := range sets {
		res.Sets[k] = len(m)
	}
	res.Distinct = len(nt)
	sort.Slice(res.Viol, func(i, j int) bool {
		if res.Viol[i].Section != res.Viol[j].Section {
			return res.Viol[i].Section < res.Viol[j].Section
		}
		return res.Viol[i].Case < res.Viol[j].Case
	})
	if only == "" {
		for _, k := range p.Need {
			if res.Counters[k] == 0 {
				res.Missing = append(res.Missing, k)
			}
		}
	}
	return res
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	return os.WriteFile(path, append(b, '\n'), 0644)
}
