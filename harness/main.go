// Command harness runs the monitors of one property against drone-yaml.
//
//	harness PROPERTY            supervise a run (what run.sh starts)
//	harness child PROPERTY      the run itself
//	harness replay FILE         repeat the case of a replay file
//	harness list                the properties
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

var (
	verifDir = envOr("VERIF_DIR", "/verif")
	scratch  = os.Getenv("VERIF_SCRATCH")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	seedFlag, _ = strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	tier := envOr("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	loadKnown(filepath.Join(verifDir, "known_findings.jsonl"))
	if len(os.Args) < 2 {
		fmt.Println("usage: harness PROPERTY")
		os.Exit(2)
	}
	if os.Args[1] == "mine" {
		fmt.Print(writeMined(mine(os.Args[2])))
		return
	}
	loadDict(envOr("VERIF_REPO", "/repo"), filepath.Join(verifDir, "harness", "literals.txt"))
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "nest":
		nest()
	case "around":
		around(os.Args[2:])
	case "child":
		child(os.Args[2], tier, "")
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		v := new(Violation)
		if err := json.Unmarshal(b, v); err != nil || v.Section == "" {
			fmt.Println("this replay file holds no single case:", err)
			os.Exit(2)
		}
		seedFlag = v.Seed
		child(v.Prop, v.Tier, fmt.Sprintf("%s:%d", v.Section, v.Case))
	default:
		supervise(os.Args[1], tier)
	}
}

func child(id, tier, only string) {
	p := props[id]
	if p == nil {
		fmt.Println("no such property", id)
		os.Exit(2)
	}
	if v := os.Getenv("VERIF_CASE"); v != "" && only == "" {
		only = v
	}
	hang := func(what string) {
		if only == "" {
			os.WriteFile(filepath.Join(scratch, "hang"), []byte(what), 0644)
		}
		fmt.Fprintln(os.Stderr, "HANG in case", what)
		pp, _ := os.FindProcess(os.Getpid())
		pp.Signal(syscall.SIGQUIT) // dumps every goroutine
		time.Sleep(5 * time.Second)
		os.Exit(4)
	}
	res := runProp(p, tier, only, hang)
	if only != "" {
		b, _ := json.MarshalIndent(res, "", " ")
		fmt.Println(string(b))
		for _, v := range res.Viol {
			fmt.Printf("---- %s:%d: %s\n", v.Section, v.Case, v.What)
			for _, kv := range v.Inputs {
				fmt.Printf("-- %s:\n%s\n", kv[0], kv[1])
			}
			fmt.Println(v.Stack)
		}
		if len(res.Viol) > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	}
	if err := writeJSON(filepath.Join(scratch, "result.json"), res); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
}

type evidence struct {
	Property   string                 `json:"property"`
	Tier       string                 `json:"tier"`
	Seed       int64                  `json:"seed"`
	Level      string                 `json:"level"`
	Coverage   map[string]interface{} `json:"coverage"`
	Assume     []string               `json:"assumptions,omitempty"`
	Wall       float64                `json:"wall_s"`
	Violations int                    `json:"violations"`
}

func supervise(id, tier string) {
	start := time.Now()
	p := props[id]
	if p == nil {
		fmt.Println("no such property", id)
		os.Exit(2)
	}
	if scratch == "" {
		fmt.Println("VERIF_SCRATCH is not set")
		os.Exit(2)
	}
	evDir := filepath.Join(verifDir, "evidence")
	repDir := filepath.Join(evDir, "replay")
	os.MkdirAll(repDir, 0755)
	old, _ := filepath.Glob(filepath.Join(repDir, id+"-*"))
	for _, f := range old {
		os.Remove(f)
	}
	bin := envOr("VERIF_CHILD", os.Args[0])
	cov := filepath.Join(scratch, "cov")
	os.MkdirAll(cov, 0755)
	limit := 820 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	var stderr bytes.Buffer
	cmd := exec.Command(bin, "child", id)
	cmd.Env = append(os.Environ(), "GOCOVERDIR="+cov, "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=66 history_size=3")
	cmd.Stdout = os.Stderr
	cmd.Stderr = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	timer := time.AfterFunc(limit, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	timedOut := !timer.Stop()

	res := new(Result)
	b, rerr := os.ReadFile(filepath.Join(scratch, "result.json"))
	if rerr == nil {
		rerr = json.Unmarshal(b, res)
	}
	if res.Counters == nil {
		res.Counters = map[string]int{}
	}
	var lines []string // VIOLATION lines
	violate := func(v *Violation) {
		path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", id, len(lines)))
		writeJSON(path, v)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, path))
		what := v.What
		if len(what) > 1500 {
			what = what[:1500] + "…"
		}
		fmt.Printf("case %s:%d: %s\n", v.Section, v.Case, what)
	}
	for _, v := range res.Viol {
		violate(v)
	}
	inconclusive := ""
	se := stderr.String()
	races := raceReports(se)
	repoRaces := 0
	for _, r := range races {
		if strings.Contains(r, repoPath+"/") {
			repoRaces++
			if repoRaces <= 3 {
				violate(&Violation{Prop: id, Seed: seedFlag, Tier: tier, What: "data race reported by the race detector:\n" + r, Stack: r})
			}
		} else {
			inconclusive = "data race inside the harness:\n" + r
		}
	}
	hang, _ := os.ReadFile(filepath.Join(scratch, "hang"))
	switch {
	case timedOut:
		inconclusive = "the run exceeded its time limit"
	case len(hang) > 0:
		if repoFrames(se) {
			violate(&Violation{Prop: id, Seed: seedFlag, Tier: tier, What: "case " + string(hang), Stack: tail(se, 20000)})
		} else {
			inconclusive = "a case did not return: " + string(hang)
		}
	case rerr != nil:
		// the child died without a result: a crash that cannot be recovered
		if repoFrames(crashGoroutine(se)) {
			violate(&Violation{Prop: id, Seed: seedFlag, Tier: tier, What: "the process crashed in the code under test: " + firstLine(se), Stack: tail(se, 20000)})
		} else {
			inconclusive = fmt.Sprintf("the run died without a result (%v)\n%s", err, tail(se, 4000))
		}
	case res.Broken != "":
		inconclusive = res.Broken
	case err != nil && len(races) == 0:
		inconclusive = fmt.Sprintf("the run ended with %v\n%s", err, tail(se, 4000))
	case len(res.Missing) > 0 && len(lines) == 0:
		inconclusive = "nothing observed for: " + strings.Join(res.Missing, ", ")
	}
	ev := &evidence{Property: id, Tier: tier, Seed: seedFlag, Level: "exploration", Assume: p.Assume, Violations: len(lines)}
	ev.Coverage = map[string]interface{}{
		"evaluations":         res.Evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                p.Rule,
		"samples":             res.Samples,
		"observed_events":     res.Counters,
		"distinct_states":     res.Sets,
		"cases_per_section":   res.Sections,
		"known_findings_seen": keysOf(res.Known),
	}
	if res.Samples == nil {
		ev.Coverage["samples"] = []string{}
	}
	if inconclusive != "" {
		ev.Coverage["inconclusive"] = tail(inconclusive, 2000)
	}
	if pc := repoCoverage(cov); len(pc) > 0 {
		ev.Coverage["repo_statement_coverage"] = pc
	}
	ev.Wall = time.Since(start).Seconds()
	writeJSON(filepath.Join(evDir, id+".json"), ev)

	for _, k := range keysOf(res.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, res.Known[k])
	}
	if len(lines) > 0 {
		for _, l := range lines {
			fmt.Println(l)
		}
		os.Exit(1)
	}
	if inconclusive != "" {
		fmt.Println("INCONCLUSIVE property=" + id + ": " + inconclusive)
		os.Exit(3)
	}
	fmt.Printf("OK property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs\n", id, tier, seedFlag, res.Evals, res.Distinct, ev.Wall)
}

func keysOf(m map[string]string) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func raceReports(s string) []string {
	var out []string
	for _, part := range strings.Split(s, "==================\n") {
		if strings.Contains(part, "WARNING: DATA RACE") {
			out = append(out, part)
		}
	}
	return out
}

func repoFrames(s string) bool { return strings.Contains(s, repoPath+"/") }

// crashGoroutine returns the first goroutine of a Go crash dump.
func crashGoroutine(s string) string {
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 {
		return s
	}
	j := strings.Index(s[i+1:], "\n\n")
	if j < 0 {
		return s[i:]
	}
	return s[i : i+1+j]
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n…\n" + s[len(s)-n/2:]
	}
	return s
}

// repoCoverage reports which part of drone-yaml's statements the run executed.
func repoCoverage(dir string) map[string]string {
	out, err := exec.Command("go", "tool", "covdata", "percent", "-i="+dir).Output()
	if err != nil {
		return nil
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && strings.HasPrefix(f[0], repoPath) {
			m[strings.TrimPrefix(f[0], repoPath+"/")] = f[2]
		}
	}
	return m
}
