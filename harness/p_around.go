package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/pretty"
)

// outcome is what a process of its own observed: the result of every
// operation, and what the operations left behind.
type outcome struct {
	Case    int
	Text    string
	Foreign [][2]string
	Names   []string
	Results []string
	Left    string
	Reads   []string // what was looked at, apart from the arguments
	Differs string   // a result that depends on what was looked at
	Skipped bool
	Panic   string
}

// inner is the work of one case, which needs nothing but its number.
func inner(t *T, dir string) *outcome {
	s := newShared(t)
	o := &outcome{Text: string(s.text), Foreign: s.foreign}
	add := func(name string, f func() string) { s.jobs = append(s.jobs, job{name, f}) }
	for i := 0; i < 3; i++ {
		var f [2]string
		switch t.IntN(8) {
		case 2: // more combinations than are converted
			f = [2]string{".drone.yml", manyCombinations(t)}
		case 3, 4:
			f = [2]string{t.Pick(".drone.yml", ".gitlab-ci.yml", "bitbucket-pipelines.yml", "x.yml", ".travis.yml"), oddText(t, string(s.text))}
		case 0:
			f = [2]string{".gitlab-ci.yml", glGen(t).text(t)}
		case 1:
			f = [2]string{"bitbucket-pipelines.yml", bbGen(t).text(t)}
		default:
			g := &oldOpt{o: &gopt{plainText: t.P(50)}}
			f = [2]string{".drone.yml", oldText(t, g.config(t), t.P(30))}
		}
		m := converter.Metadata{Filename: f[0], URL: remotes[t.IntN(len(remotes))], Ref: t.Pick("", "refs/heads/master", "refs/tags/v1.0", "refs/heads/feature/x")}
		add(fmt.Sprintf("convert %d", len(o.Foreign)), func() string {
			x, err := converter.Convert([]byte(f[1]), m)
			return string(x) + errText(err)
		})
		add(fmt.Sprintf("convert text %d", len(o.Foreign)), func() string {
			x, err := converter.ConvertString(f[1], m)
			return x + errText(err)
		})
		o.Foreign = append(o.Foreign, f)
	}
	add("format to a broken writer", func() string { pretty.Print(&brokenWriter{}, s.manifest); return "" })
	add("parse a broken reader", func() string {
		_, err := yaml.Parse(&brokenReader{data: s.text})
		return errText(err)
	})
	if dir != "" {
		bad := filepath.Join(dir, "b.yml")
		damaged := t.Pick("- [", "a: b\n", "kind: pipeline\nsteps: x\n", "\x00", "kind: [\n---\n", "kind: pipeline\n---\n\t: {\n")
		if t.P(50) {
			damaged = string(s.text) + "\n---\n" + damaged
		}
		if err := os.WriteFile(bad, []byte(damaged), 0644); err != nil {
			t.Broken("%v", err)
		}
		add("parse bad file", func() string { x, err := yaml.ParseFile(bad); return canon(x, canonOpt{}) + errText(err) })
		add("parse raw bad file", func() string { x, err := yaml.ParseRawFile(bad); return canon(x, canonOpt{}) + errText(err) })
		add("parse directory", func() string { _, err := yaml.ParseFile(dir); return strings.ReplaceAll(errText(err), dir, "") })
		add("parse raw directory", func() string {
			_, err := yaml.ParseRawFile(dir)
			return strings.ReplaceAll(errText(err), dir, "")
		})
		p := filepath.Join(dir, "a.yml")
		if err := os.WriteFile(p, s.text, 0644); err != nil {
			t.Broken("%v", err)
		}
		strip := func(err error) string { return strings.ReplaceAll(errText(err), dir, "") }
		add("parse file", func() string { x, err := yaml.ParseFile(p); return canon(x, canonOpt{}) + strip(err) })
		add("parse raw file", func() string { x, err := yaml.ParseRawFile(p); return canon(x, canonOpt{}) + strip(err) })
		add("parse missing file", func() string {
			_, err := yaml.ParseFile(filepath.Join(dir, "missing.yml"))
			return strip(err)
		})
	}
	reads.listen()
	defer reads.stop()
	for _, j := range s.jobs {
		o.Names = append(o.Names, j.name)
		o.Results = append(o.Results, j.run())
	}
	for _, r := range reads.stop() {
		if kind, name, _ := strings.Cut(r, " "); kind == "env" && !meantToBeRead(name) || kind == "file" && (dir == "" || !strings.HasPrefix(name, dir)) {
			o.Reads = append(o.Reads, r)
		}
	}
	if len(vary) > 0 {
		for _, v := range valuesOf(o) {
			for _, r := range vary {
				kind, name, _ := strings.Cut(r, " ")
				switch {
				case kind == "env" && mayBeSet(name):
					os.Setenv(name, v)
				case kind == "file" && !filepath.IsAbs(name) && !strings.Contains(name, ".."):
					os.MkdirAll(filepath.Dir(name), 0755)
					os.WriteFile(name, []byte(v), 0644)
				}
			}
			for i, j := range s.jobs {
				if x := j.run(); x != o.Results[i] && o.Differs == "" {
					o.Differs = fmt.Sprintf("%s with %q as %q: %s", j.name, vary, v, canonDiff(o.Results[i], x))
				}
			}
		}
	}
	return o
}

// vary is what was looked at and takes other values in this process.
var vary []string

func mayBeSet(name string) bool {
	return name != "PATH" && !strings.HasPrefix(name, "VERIF_") && !strings.HasPrefix(name, "GO")
}

// valuesOf are texts of a case and usual values of settings.
func valuesOf(o *outcome) []string {
	vals := []string{"true", "1", "false", "around", "linux", "", "0"}
	seen := map[string]bool{}
	for _, w := range wordsOf.FindAllString(o.Text+"\n"+fmt.Sprint(o.Foreign), -1) {
		if !seen[w] && len(w) < 60 && len(vals) < 120 {
			seen[w] = true
			vals = append(vals, w)
		}
	}
	return vals
}

// brokenWriter accepts nothing or a little.
type brokenWriter struct{ n int }

func (w *brokenWriter) Write(p []byte) (int, error) { return 0, fmt.Errorf("broken") }

// brokenReader fails at the end.
type brokenReader struct {
	data []byte
	n    int
}

func (r *brokenReader) Read(p []byte) (int, error) {
	if r.n >= len(r.data) {
		return 0, fmt.Errorf("broken")
	}
	k := copy(p, r.data[r.n:])
	r.n += k
	return k, nil
}

// manyCombinations is an old configuration with a large matrix.
func manyCombinations(t *T) string {
	var b strings.Builder
	b.WriteString("pipeline:\n  build:\n    image: golang:${A0}\n    commands: [go build]\nmatrix:\n")
	for i, n := 0, t.Range(1, 12); i < n; i++ {
		fmt.Fprintf(&b, "  A%d: [", i)
		for k, m := 0, t.Range(1, 5); k < m; k++ {
			fmt.Fprintf(&b, "%s%d,", t.word(), k)
		}
		b.WriteString("]\n")
	}
	return b.String()
}

// oddText is a file as editors and people leave it behind.
func oddText(t *T, s string) string {
	switch t.IntN(9) {
	case 0:
		return t.Pick("", "\n", " ", "\n\n", "#", "# nothing\n", "---", "---\n", "...\n", "~", "null\n", "{}", "[]", "a")
	case 1:
		return "\ufeff" + s
	case 2:
		return strings.ReplaceAll(s, "\n", "\r\n")
	case 3:
		return strings.TrimRight(s, "\n")
	case 4:
		return s + t.Pick("\n\n\n", " ", "\t", "\r\n", "# end", "\x00", "\u2028")
	case 5:
		return t.Pick("\n", "\n\n", "# begin\n", "%YAML 1.1\n---\n", "\t", " ") + s
	case 6:
		i := t.IntN(len(s) + 1)
		for i > 0 && i < len(s) && s[i]&0xc0 == 0x80 {
			i--
		}
		return s[:i]
	case 7:
		return strings.ReplaceAll(s, "\n", "\r")
	}
	return s
}

func openFiles() int {
	l, _ := os.ReadDir("/proc/self/fd")
	return len(l)
}

// surroundings is the state of the process that operations must leave alone.
func surroundings() string {
	env := os.Environ()
	sort.Strings(env)
	wd, _ := os.Getwd()
	return wd + "\n" + strings.Join(env, "\n")
}

// around is a process that works on some cases: around SEED FROM N DIR.
func around(args []string) {
	out := os.NewFile(3, "results")
	testlogSetLogger(reads)
	seedFlag, _ = strconv.ParseInt(args[0], 10, 64)
	from, _ := strconv.Atoi(args[1])
	n, _ := strconv.Atoi(args[2])
	if len(args) > 4 {
		b, err := os.ReadFile(args[4])
		if err != nil {
			panic(err)
		}
		vary = strings.Split(string(b), "\n")
	}
	enc := json.NewEncoder(out)
	w := newWorker(0)
	one := func(idx int, dir string) (o *outcome) {
		o = &outcome{}
		defer func() {
			o.Case = idx
			if r := recover(); r != nil {
				switch r.(type) {
				case caseEnd, caseSkip:
					o.Skipped = true
				default:
					o.Panic = fmt.Sprint(r) + "\n" + string(debug.Stack())
				}
			}
		}()
		t := &T{Rand: caseRand(seedFlag, "C31", "inner", idx), w: w, prop: "C31", sec: "inner", idx: idx, tier: "quick"}
		return inner(t, dir)
	}
	if vary == nil {
		one(from, args[3]) // everything is open that stays open
	}
	debug.SetGCPercent(-1)
	for i := from; i < from+n; i++ {
		before, files, routines := surroundings(), openFiles(), runtime.NumGoroutine()
		o := one(i, args[3])
		if vary != nil {
			enc.Encode(o)
			continue
		}
		if f := openFiles(); f > files {
			o.Left += fmt.Sprintf("%d files are open that were not before; ", f-files)
		}
		for k := 0; k < 50 && runtime.NumGoroutine() > routines; k++ {
			time.Sleep(10 * time.Millisecond)
		}
		if g := runtime.NumGoroutine(); g > routines {
			o.Left += fmt.Sprintf("%d goroutines run that did not before; ", g-routines)
		}
		if now := surroundings(); now != before {
			o.Left += "the environment or the directory of the process changed: " + canonDiff(before, now)
		}
		enc.Encode(o)
		runtime.GC()
	}
}

var envName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

var envNames = []string{"DRONE", "CI", "DRONE_BRANCH", "DRONE_COMMIT_BRANCH", "DRONE_COMMIT_REF", "DRONE_COMMIT_SHA", "DRONE_REPO", "DRONE_REPO_NAME", "DRONE_BUILD_EVENT", "DRONE_BUILD_NUMBER", "DRONE_TAG", "DRONE_DEPLOY_TO", "DRONE_SERVER", "DRONE_TOKEN",
	"DRONE_DEBUG", "DRONE_TRACE", "DRONE_LOGS_DEBUG", "DRONE_YAML", "DRONE_YAML_ENDPOINT", "DRONE_YAML_DEBUG", "DRONE_NETRC_MACHINE", "DRONE_NETRC_USERNAME", "DRONE_NETRC_PASSWORD", "DRONE_RUNNER_VOLUMES", "DRONE_RUNNER_NETWORKS", "DRONE_RUNNER_ENVIRON", "DRONE_RUNNER_LABELS",
	"DRONE_RUNNER_PRIVILEGED_IMAGES", "DRONE_RUNNER_CLONE_IMAGE", "DRONE_RUNNER_OS", "DRONE_RUNNER_ARCH", "DRONE_PLATFORM_OS", "DRONE_STAGE_OS", "DRONE_WORKSPACE", "DRONE_WORKSPACE_BASE", "DRONE_MEMORY_LIMIT", "DRONE_LIMIT_MEM_SIZE", "DRONE_CPU_SET", "DRONE_SECRET", "DRONE_TRUSTED", "DRONE_PRIVILEGED",
	"DRONE_CONVERT", "DRONE_CONVERT_PLUGIN_ENDPOINT", "DRONE_LINT_DISABLE", "DRONE_DOCKER_CONFIG", "DRONE_REGISTRY_ENDPOINT", "DRONE_GIT_USERNAME", "DRONE_GIT_PASSWORD", "DRONE_SKIP_VERIFY", "DRONE_SYSTEM_HOST", "DRONE_REMOTE_URL",
	"DEBUG", "TRACE", "VERBOSE", "NO_COLOR", "FORCE_COLOR", "DOCKER_HOST", "DOCKER_CONFIG", "DOCKER_REGISTRY", "REGISTRY", "NETRC", "WORKSPACE", "GOPATH", "SHELL", "USER", "LOGNAME", "HOSTNAME", "TERM", "COLUMNS", "LINES", "EDITOR", "KUBERNETES_SERVICE_HOST", "PLUGIN_REPO", "GITLAB_CI", "BITBUCKET_COMMIT", "CI_COMMIT_REF_NAME", "OS", "ARCH", "COMSPEC", "TZ_OFFSET"}

var lyingAround = []string{".drone.yml", ".drone.yaml", "drone.yml", "drone.yaml", ".drone.yml.sig", ".drone.sec", ".drone.star", ".drone.jsonnet", ".drone.sh", ".env", ".netrc", "_netrc", ".gitlab-ci.yml", "bitbucket-pipelines.yml", "template.yml", "secrets.yml", "config.yml", ".docker/config.json", "config.json", ".droneignore", ".git/config", ".git/HEAD", "go", "a.yml", "missing.yml"}

// place is where a process runs.
type place struct {
	dir, files, stdin string
	env               []string
}

// bare is an empty place.
func bare(t *T, dir string) *place {
	p := &place{dir: filepath.Join(dir, "work"), files: filepath.Join(dir, "files"), stdin: "/dev/null"}
	for _, d := range []string{p.dir, p.files} {
		if err := os.MkdirAll(d, 0755); err != nil {
			t.Broken("%v", err)
		}
	}
	p.env = []string{"PATH=/usr/bin:/bin", "TZ=UTC"}
	return p
}

// crowded is a place in which everything is set that might be looked at.
func crowded(t *T, dir string) *place {
	p := bare(t, dir)
	p.stdin = filepath.Join(dir, "stdin")
	home := filepath.Join(dir, "home")
	write := func(dir, name string) {
		s := t.Pick("kind: pipeline\nname: around\nsteps:\n- name: x\n  image: around\n", "", "machine github.com login a password b\n", "- [", "A=around\n", "pipeline:\n  x:\n    image: around\n", `{"auths":{"docker.io":{"auth":"YTpi"}}}`)
		f := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(f), 0755)
		if err := os.WriteFile(f, []byte(s), 0644); err != nil && dir != home {
			t.Skip("no such file name")
		}
	}
	write(dir, "stdin")
	for _, n := range lyingAround {
		if t.P(70) {
			write(p.dir, n)
		}
		if t.P(70) {
			write(home, n)
		}
	}
	names := append([]string{}, envNames...)
	for _, l := range dict.newStrs {
		if envName.MatchString(l) {
			names = append(names, l)
		}
		if !strings.ContainsAny(l, "/\x00\n") && len(l) < 100 && l != "." && l != ".." && t.P(50) {
			write(p.dir, l)
			write(home, l)
			t.Obs("new literals as files", 1)
		}
	}
	p.env = []string{"PATH=" + t.Pick("/usr/bin:/bin", "", p.dir), "HOME=" + home, "TMPDIR=" + filepath.Join(dir, "tmp"), "PWD=" + t.Pick(p.dir, "/", "/nowhere"),
		"LANG=" + t.Pick("tr_TR.UTF-8", "C", "de_DE@euro", "ja_JP.EUC-JP"), "LC_ALL=" + t.Pick("tr_TR.UTF-8", "C", "POSIX", ""), "TZ=" + t.Pick("Asia/Kathmandu", "America/St_Johns", "UTC", "", ":/nowhere"),
		"GOMAXPROCS=" + t.Pick("1", "2", "8"), "GOGC=" + t.Pick("20", "100", "400"), "XDG_CONFIG_HOME=" + home}
	os.MkdirAll(filepath.Join(dir, "tmp"), 0755)
	for _, n := range names {
		if meantToBeRead(n) || strings.HasPrefix(n, "VERIF_") || strings.HasPrefix(n, "GO") && n != "GOPATH" || n == "PATH" || n == "HOME" || n == "LD_PRELOAD" {
			continue // these are meant to be looked at
		}
		if t.P(60) {
			p.env = append(p.env, n+"="+t.Pick("true", "1", "false", "around", "/around", "linux", "windows", "arm64", "0", "", "2", "a,b", "a:b", "master"))
			t.Obs("variables set", 1)
		}
	}
	return p
}

// listing is everything in a directory.
func listing(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil {
			b := []byte{}
			if i.Mode().IsRegular() {
				b, _ = os.ReadFile(p)
			}
			l = append(l, fmt.Sprintf("%s %v %q", strings.TrimPrefix(p, dir), i.Mode(), b))
		}
		return nil
	})
	return strings.Join(l, "\n")
}

// at runs a program in a place.
func (p *place) at(t *T, bin string, verif bool, args ...string) (results, out, errOut string, code int) {
	cmd := exec.Command(bin, args...)
	cmd.Dir = p.dir
	cmd.Env = append([]string{}, p.env...)
	if verif {
		cmd.Env = append(cmd.Env, "VERIF_DIR="+verifDir, "VERIF_REPO="+envOr("VERIF_REPO", "/repo"), "VERIF_SCRATCH="+scratch, "VERIF_SEED="+fmt.Sprint(seedFlag), "VERIF_AROUND=1")
	}
	if d := os.Getenv("GOCOVERDIR"); d != "" {
		cmd.Env = append(cmd.Env, "GOCOVERDIR="+d)
	}
	in, err := os.Open(p.stdin)
	if err != nil {
		t.Broken("%v", err)
	}
	defer in.Close()
	res, err := os.CreateTemp(scratch, "around")
	if err != nil {
		t.Broken("%v", err)
	}
	defer os.Remove(res.Name())
	defer res.Close()
	var o, e bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = in, &o, &e
	cmd.ExtraFiles = []*os.File{res}
	if err := cmd.Start(); err != nil {
		t.Broken("cannot start the process: %v", err)
	}
	timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	if !timer.Stop() {
		t.Fail("the process does not end: %q", args)
	}
	if at, err := in.Seek(0, 1); p.stdin != "/dev/null" && (err != nil || at != 0) {
		t.Fail("the standard input was read (%d bytes)", at)
	}
	b, err := os.ReadFile(res.Name())
	if err != nil {
		t.Broken("%v", err)
	}
	return string(b), o.String(), e.String(), cmd.ProcessState.ExitCode()
}

// work has a process of its own work on some cases in the place.
func (p *place) work(t *T, bin, root string, from, n int, vary ...string) (l []*outcome) {
	before := listing(filepath.Dir(p.dir))
	res, out, errOut, code := p.at(t, bin, true, append([]string{"around", fmt.Sprint(seedFlag), fmt.Sprint(from), fmt.Sprint(n), p.files}, vary...)...)
	if code == 3 {
		t.Broken("%s", tail(errOut, 2000))
	}
	if code != 0 {
		if repoFrames(crashGoroutine(errOut)) {
			t.Fail("the process crashes: %s", tail(errOut, 3000))
		}
		t.Broken("the process ended with %d: %s", code, tail(errOut, 2000))
	}
	if out+errOut != "" {
		t.Fail("something is printed: %s", clip(out+errOut, 1000))
	}
	os.Remove(filepath.Join(p.files, "a.yml"))
	os.Remove(filepath.Join(p.files, "b.yml"))
	if now := listing(filepath.Dir(p.dir)); now != before && len(vary) == 0 {
		t.Fail("a file was written: %s", canonDiff(before, now))
	}
	d := json.NewDecoder(strings.NewReader(res))
	for d.More() {
		o := new(outcome)
		if err := d.Decode(o); err != nil {
			t.Broken("%v", err)
		}
		if o.Panic != "" {
			t.Fail("panic: %s", clip(o.Panic, 3000))
		}
		if o.Left != "" {
			t.Input("text", o.Text)
			t.Fail("something is left behind: %s", o.Left)
		}
		l = append(l, o)
	}
	if len(l) != n {
		t.Broken("%d outcomes of %d", len(l), n)
	}
	return
}

var wordsOf = regexp.MustCompile(`[\pL\pN_./:@-]+`)

// focused has processes work on one case, in places in which the variables
// and files it looked at hold texts of the case itself.
func (p *place) focused(t *T, x *outcome, dir string) {
	z := bare(t, filepath.Join(dir, fmt.Sprint(x.Case)))
	if err := os.WriteFile(filepath.Join(dir, "vary"), []byte(strings.Join(x.Reads, "\n")), 0644); err != nil {
		t.Broken("%v", err)
	}
	if d := z.work(t, selfExe(t), dir, x.Case, 1, filepath.Join(dir, "vary"))[0].Differs; d != "" {
		t.Input("text", x.Text)
		t.Fail("another result in other surroundings: %s", d)
	}
	vals := valuesOf(x)
	for i := 0; i < 6; i++ {
		q := bare(t, filepath.Join(dir, fmt.Sprint(x.Case, "-", i)))
		for _, r := range x.Reads {
			kind, name, _ := strings.Cut(r, " ")
			v := vals[t.IntN(len(vals))]
			switch {
			case kind == "env" && mayBeSet(name):
				q.env = append(q.env, name+"="+v)
			case kind == "file" && !filepath.IsAbs(name) && !strings.Contains(name, ".."):
				f := filepath.Join(q.dir, name)
				os.MkdirAll(filepath.Dir(f), 0755)
				os.WriteFile(f, []byte(t.Pick(v, v+"\n", v+"="+v+"\n", v+": "+v+"\n", "kind: pipeline\nname: "+v+"\n")), 0644)
			}
		}
		y := q.work(t, selfExe(t), dir, x.Case, 1)[0]
		for j, name := range x.Names {
			if x.Results[j] != y.Results[j] {
				t.Input("text", x.Text)
				t.Input("environment", strings.Join(q.env, "\n"))
				t.Fail("%s: another result in other surroundings: %s", name, canonDiff(x.Results[j], y.Results[j]))
			}
		}
	}
}

var looked struct {
	sync.Mutex
	all  int
	like map[string]int
}

// worthwhile bounds how often the same is varied.
func worthwhile(reads []string) bool {
	looked.Lock()
	defer looked.Unlock()
	if looked.like == nil {
		looked.like = map[string]int{}
	}
	k := strings.Join(reads, "\n")
	looked.all++
	looked.like[k]++
	return looked.all <= 400 && looked.like[k] <= 60
}

func selfExe(t *T) string {
	p, err := os.Executable()
	if err != nil {
		t.Broken("%v", err)
	}
	return p
}

func scratchDir(t *T) string {
	d, err := os.MkdirTemp(scratch, "around")
	if err != nil {
		t.Broken("%v", err)
	}
	return d
}

// toolCommands are commands of the tool on a file in the directory it runs in.
func toolCommands(t *T, o *outcome, p *place, bin string) (l []string) {
	f := o.Foreign[len(o.Foreign)-1]
	write := func() string {
		for _, x := range [][2]string{{"in.yml", o.Text}, {f[0], f[1]}} {
			os.WriteFile(filepath.Join(p.dir, x[0]), []byte(x[1]), 0644)
		}
		return listing(filepath.Dir(p.dir))
	}
	before := write()
	key := "correct-horse-batter-staple-and-more"
	for _, args := range [][]string{{"fmt", "in.yml"}, {"lint", "in.yml"}, {"lint", "--privileged", "in.yml"}, {"sign", key, "in.yml"}, {"verify", key, "in.yml"}, {"convert", f[0]}, {"convert", "in.yml"}, {"compile", "in.yml"},
		{"fmt", "--save", "in.yml"}, {"sign", "--save", key, "in.yml"}, {"verify", key, "in.yml"}, {"convert", "--save", f[0]}} {
		_, out, errOut, code := p.at(t, bin, false, args...)
		if args[0] == "compile" && code == 0 {
			out = asOutput(t, []byte(out))
		}
		l = append(l, fmt.Sprintf("%q: status %d\n%s\n%s", args, code, out, errOut))
		t.Obs("commands run", 1)
	}
	for _, n := range []string{"in.yml", f[0]} {
		b, _ := os.ReadFile(filepath.Join(p.dir, n))
		l = append(l, fmt.Sprintf("%s: %q", n, b))
	}
	if now := write(); now != before {
		t.Fail("another file was written: %s", canonDiff(before, now))
	}
	return
}

func init() {
	register(&Prop{
		ID: "C31",
		Rule: "two processes work on the same random cases (all operations of the library on random manifests and foreign configurations), one in an empty place, the other with many variables, another locale, time zone and number of processors, files lying around in its working and home directory and something on its standard input; every result is compared, and nothing may be printed, written, read from the standard input or left behind (open files, goroutines, variables); " +
			"the built tool likewise; non-trivial always",
		Need:   []string{"compared", "files parsed", "converted", "variables set", "commands run"},
		Assume: []string{"the proxy variables (WithProxy) and the three DRONE_CONVERT_YAML_ variables are meant to be looked at and not varied"},
		Sections: []Section{
			{Name: "surroundings", Quick: 400, Thorough: 3000, Run: func(t *T) {
				dir := scratchDir(t)
				defer os.RemoveAll(dir)
				n := 8
				a := bare(t, filepath.Join(dir, "a")).work(t, selfExe(t), dir, t.idx*n, n)
				p := crowded(t, filepath.Join(dir, "b"))
				t.Input("environment", strings.Join(p.env, "\n"))
				b := p.work(t, selfExe(t), dir, t.idx*n, n)
				// what was looked at is varied
				for _, x := range a {
					if len(x.Reads) > 0 {
						t.Obs("cases that look at something else", 1)
					}
					if len(x.Reads) > 0 && worthwhile(x.Reads) {
						p.focused(t, x, filepath.Join(dir, "c"))
					}
				}
				for i := range a {
					x, y := a[i], b[i]
					if x.Skipped != y.Skipped || x.Text != y.Text || fmt.Sprint(x.Names) != fmt.Sprint(y.Names) {
						t.Broken("the processes did not work on the same case (%d)", x.Case)
					}
					for j, name := range x.Names {
						if x.Results[j] != y.Results[j] {
							t.Input("text", x.Text)
							t.Input("foreign", fmt.Sprint(x.Foreign))
							t.Fail("%s: another result in other surroundings: %s", name, canonDiff(x.Results[j], y.Results[j]))
						}
						t.Obs("compared", 1)
						if strings.HasPrefix(name, "parse file") && strings.HasSuffix(x.Results[j], "ok") {
							t.Obs("files parsed", 1)
						}
						if strings.HasPrefix(name, "convert") && strings.HasSuffix(x.Results[j], "ok") {
							t.Obs("converted", 1)
						}
					}
					t.Seen("cases", x.Text)
				}
				t.NonTrivial(fmt.Sprint(t.idx))
			}},
			{Name: "tool", Quick: 40, Thorough: 1500, Run: func(t *T) {
				if os.Getenv("VERIF_CLI") == "" {
					t.Broken("VERIF_CLI is not set")
				}
				dir := scratchDir(t)
				defer os.RemoveAll(dir)
				tt := &T{Rand: caseRand(seedFlag, "C31", "tool inner", t.idx), w: t.w, prop: t.prop, sec: t.sec, idx: t.idx, tier: t.tier}
				o := inner(tt, "")
				t.Input("text", o.Text)
				pa, pb := bare(t, filepath.Join(dir, "a")), crowded(t, filepath.Join(dir, "b"))
				t.Input("environment", strings.Join(pb.env, "\n"))
				a, b := toolCommands(t, o, pa, os.Getenv("VERIF_CLI")), toolCommands(t, o, pb, os.Getenv("VERIF_CLI"))
				for i := range a {
					if a[i] != b[i] {
						t.Fail("another result in other surroundings: %s", canonDiff(a[i], b[i]))
					}
					t.Seen("commands", a[i])
				}
				t.NonTrivial(o.Text)
			}},
		},
	})
	register(&Prop{
		ID: "C32",
		Rule: "a process of the harness built with the tag oss works on random cases (all operations of the library on random manifests and foreign configurations), as does one of the ordinary build: converting has to give the configuration itself and no error, everything else the same in both; " +
			"the tool built with the tag likewise; non-trivial always",
		Need: []string{"compared", "unconverted", "really converted otherwise", "commands run"},
		Sections: []Section{
			{Name: "library", Quick: 300, Thorough: 2000, Run: func(t *T) {
				if os.Getenv("VERIF_OSS") == "" {
					t.Broken("VERIF_OSS is not set")
				}
				dir := scratchDir(t)
				defer os.RemoveAll(dir)
				n := 8
				p := bare(t, filepath.Join(dir, "a"))
				a, b := p.work(t, selfExe(t), dir, t.idx*n, n), p.work(t, os.Getenv("VERIF_OSS"), dir, t.idx*n, n)
				for i := range a {
					x, y := a[i], b[i]
					if x.Skipped != y.Skipped || x.Text != y.Text || fmt.Sprint(x.Names) != fmt.Sprint(y.Names) {
						t.Broken("the processes did not work on the same case (%d)", x.Case)
					}
					for j, name := range x.Names {
						if strings.HasPrefix(name, "convert ") {
							k, _ := strconv.Atoi(name[strings.LastIndex(name, " ")+1:])
							if want := x.Foreign[k][1] + "ok"; y.Results[j] != want {
								t.Input("configuration", x.Foreign[k][1])
								t.Fail("%s: the open source build does not leave the configuration alone: %s", name, canonDiff(want, y.Results[j]))
							}
							t.Obs("unconverted", 1)
							if x.Results[j] != y.Results[j] {
								t.Obs("really converted otherwise", 1)
							}
							continue
						}
						if x.Results[j] != y.Results[j] {
							t.Input("text", x.Text)
							t.Fail("%s: another result in the open source build: %s", name, canonDiff(x.Results[j], y.Results[j]))
						}
						t.Obs("compared", 1)
					}
					t.Seen("cases", x.Text)
				}
				t.NonTrivial(fmt.Sprint(t.idx))
			}},
			{Name: "tool", Quick: 40, Thorough: 1500, Run: func(t *T) {
				if os.Getenv("VERIF_CLI") == "" || os.Getenv("VERIF_CLI_OSS") == "" {
					t.Broken("VERIF_CLI is not set")
				}
				dir := scratchDir(t)
				defer os.RemoveAll(dir)
				tt := &T{Rand: caseRand(seedFlag, "C32", "tool inner", t.idx), w: t.w, prop: t.prop, sec: t.sec, idx: t.idx, tier: t.tier}
				o := inner(tt, "")
				t.Input("text", o.Text)
				f := o.Foreign[len(o.Foreign)-1]
				a, b := toolCommands(t, o, bare(t, filepath.Join(dir, "a")), os.Getenv("VERIF_CLI")), toolCommands(t, o, bare(t, filepath.Join(dir, "b")), os.Getenv("VERIF_CLI_OSS"))
				for i := range a {
					switch {
					case strings.HasPrefix(a[i], `["convert" "`+f[0]):
						if want := fmt.Sprintf("%q: status 0\n\n%s", []string{"convert", f[0]}, f[1]); b[i] != want {
							t.Fail("the open source build does not leave the configuration alone: %s", canonDiff(want, b[i]))
						}
					case strings.HasPrefix(a[i], `["convert" "--save"`):
						if want := fmt.Sprintf("%q: status 0\n\n", []string{"convert", "--save", f[0]}); b[i] != want {
							t.Fail("the open source build: %s", canonDiff(want, b[i]))
						}
					case strings.HasPrefix(a[i], f[0]+":"):
						if want := fmt.Sprintf("%s: %q", f[0], f[1]); b[i] != want {
							t.Fail("the open source build does not leave the file alone: %s", canonDiff(want, b[i]))
						}
					case a[i] != b[i]:
						t.Fail("another result of the open source build: %s", canonDiff(a[i], b[i]))
					}
					t.Seen("commands", a[i])
				}
				t.NonTrivial(o.Text)
			}},
		},
	})
}
