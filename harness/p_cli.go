package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
)

// cli is a directory in which the tool is run.
type cli struct {
	t   *T
	dir string
	log []string
	env []string
}

type ran struct {
	code        int
	out, errOut string
}

func newCLI(t *T) *cli {
	if os.Getenv("VERIF_CLI") == "" {
		t.Broken("VERIF_CLI is not set")
	}
	dir, err := os.MkdirTemp(scratch, "cli")
	if err != nil {
		t.Broken("%v", err)
	}
	c := &cli{t: t, dir: dir}
	for _, e := range os.Environ() {
		k := strings.ToLower(strings.SplitN(e, "=", 2)[0])
		if strings.HasPrefix(k, "drone") || strings.Contains(k, "proxy") && k != "goproxy" || k == "gocoverdir" {
			continue
		}
		c.env = append(c.env, e)
	}
	return c
}

func (c *cli) close() { os.RemoveAll(c.dir) }

func (c *cli) write(name, s string) {
	p := filepath.Join(c.dir, name)
	os.MkdirAll(filepath.Dir(p), 0755)
	if err := os.WriteFile(p, []byte(s), 0644); err != nil {
		c.t.Broken("%v", err)
	}
}

// files reads everything there is.
func (c *cli) files() string {
	var l []string
	filepath.Walk(c.dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			l = append(l, fmt.Sprintf("%s: %q", strings.TrimPrefix(p, c.dir), b))
		} else if err == nil && !i.IsDir() {
			l = append(l, p+": not a file")
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (c *cli) run(stdout *os.File, args ...string) *ran {
	t := c.t
	bin := os.Getenv("VERIF_CLI")
	env := c.env
	if cov := os.Getenv("VERIF_CLI_COV"); cov != "" && t.P(3) {
		bin = cov
		env = append(env, "GOCOVERDIR="+os.Getenv("GOCOVERDIR"))
	}
	for _, a := range append(args[:len(args):len(args)], env...) {
		if strings.Contains(a, "\x00") {
			t.Skip("an argument that the system cannot pass")
		}
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = c.dir
	cmd.Env = env
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if stdout != nil {
		cmd.Stdout, cmd.Stderr = stdout, stdout
	}
	if err := cmd.Start(); err != nil {
		t.Broken("cannot start the tool: %v", err)
	}
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !timer.Stop() {
		t.Fail("%q does not end", args)
	}
	r := &ran{out: o.String(), errOut: e.String()}
	var x *exec.ExitError
	if errors.As(err, &x) {
		r.code = x.ExitCode()
	} else if err != nil {
		t.Broken("%v", err)
	}
	if strings.Contains(r.errOut, "goroutine ") && strings.Contains(r.errOut, "panic") || r.code < 0 || r.code == 2 && strings.Contains(r.errOut, "fatal error") {
		t.Fail("%q crashes: %s", args, tail(r.errOut, 1500))
	}
	c.log = append(c.log, fmt.Sprintf("%q -> %d", args, r.code))
	t.Obs("commands run", 1)
	t.Seen("commands", args[0]+fmt.Sprint(len(args), r.code))
	return r
}

// ok checks that a command succeeds.
func (c *cli) ok(r *ran, what string) {
	if r.code != 0 {
		c.t.Fail("%s fails with status %d: %s", what, r.code, tail(r.errOut, 500))
	}
	c.t.Obs("succeeded", 1)
}

// refused checks that a command fails as it should.
func (c *cli) refused(r *ran, what, before string) {
	if r.code == 0 {
		c.t.Fail("%s: the exit status is 0", what)
	}
	if strings.TrimSpace(r.errOut) == "" {
		c.t.Fail("%s: nothing is reported", what)
	}
	if now := c.files(); now != before {
		c.t.Fail("%s: the files are changed: %s", what, canonDiff(before, now))
	}
	c.t.Obs("failed loudly", 1)
}

// source makes a file: current, foreign, or not even parsable.
func source(t *T) string {
	switch t.IntN(10) {
	case 0:
		return disturbText(t, document(t))
	case 1:
		t.warp = misfit(t)
		defer func() { t.warp = nil }()
		return document(t)
	case 2:
		return document(t)
	}
	if t.P(50) {
		return render(t, []yaml.Resource{linted(t)})
	}
	o := &gopt{maxSteps: 3, plainText: t.P(50)}
	return render(t, o.resourcesOrNone(t, 3))
}

var cliNames = []string{".drone.yml", ".drone.yml", ".drone.yml", "x.yml", "sub/dir.yml", "with space.yml", ".gitlab-ci.yml", "bitbucket-pipelines.yml", "./.gitlab-ci.yml"}

// argFor is how the file is named on the command line.
func (c *cli) argFor(name string) []string {
	if name == ".drone.yml" && c.t.P(40) {
		return nil // the default
	}
	if c.t.P(15) {
		return []string{filepath.Join(c.dir, name)}
	}
	return []string{name}
}

func (t *T) cliKey() string {
	for {
		k := t.key()
		if t.P(6) {
			k = t.keyOf(t.Range(1, 12)) // too short perhaps
		}
		if k[0] != '-' && k[0] != '@' {
			return k
		}
	}
}

func libFormat(s string) (string, error) {
	m, err := yaml.ParseString(s)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	pretty.Print(&b, m)
	return b.String(), nil
}

func libLint(s string, priv bool) error {
	m, err := yaml.ParseString(s)
	if err != nil {
		return err
	}
	for _, r := range m.Resources {
		if err := linter.Lint(r, priv); err != nil {
			return err
		}
	}
	return nil
}

// step runs one command against a file holding s and returns what the file
// has to hold afterwards.
func (c *cli) step(name, s, key string) string {
	t := c.t
	before := c.files()
	arg := c.argFor(name)
	save := t.P(60)
	args := func(l ...string) []string {
		if save {
			l = append(l, t.Pick("--save", "-s"))
		}
		return append(l, arg...)
	}
	printed := func(r *ran, what, want string) {
		c.ok(r, what)
		if save {
			if r.out+r.errOut != "" {
				t.Fail("%s prints %q", what, tail(r.out+r.errOut, 300))
			}
			t.Obs("saved", 1)
			return
		}
		if r.out+r.errOut != want {
			t.Fail("%s prints something else: %s", what, canonDiff(want, r.out+r.errOut))
		}
		t.Obs("printed", 1)
		if now := c.files(); now != before {
			t.Fail("%s without --save changes the files: %s", what, canonDiff(before, now))
		}
	}
	result := func(what, want string, err error, l ...string) string {
		a := args(l...)
		r := c.run(nil, a...)
		what = what + " " + fmt.Sprint(a)
		if err != nil {
			c.refused(r, fmt.Sprintf("%s (%v)", what, err), before)
			return s
		}
		printed(r, what, want)
		if !save {
			return s
		}
		if b, _ := os.ReadFile(filepath.Join(c.dir, name)); string(b) != want {
			t.Fail("%s leaves something else: %s", what, canonDiff(want, string(b)))
		}
		c.write(name, s)
		if now := c.files(); now != before {
			t.Fail("%s changes other files too: %s", what, canonDiff(before, now))
		}
		c.write(name, want)
		return want
	}
	verify := func(k string) {
		ok, err := signer.Verify([]byte(s), signer.KeyString(k))
		r := c.run(nil, append([]string{"verify", k}, arg...)...)
		if err != nil || !ok {
			c.refused(r, fmt.Sprintf("verify (%v %v)", ok, err), before)
			t.Obs("verify refused", 1)
			return
		}
		c.ok(r, "verify")
		if now := c.files(); now != before {
			t.Fail("verify changes the files")
		}
		t.Obs("verify accepted", 1)
	}
	switch t.IntN(9) {
	case 0, 1:
		want, err := libFormat(s)
		cmd := []string{"fmt"}
		if t.P(20) {
			cmd = append(cmd, "-p")
		}
		t.Obs("fmt", 1)
		return result("fmt", want, err, cmd...)
	case 2:
		file := name
		if len(arg) > 0 {
			file = arg[0]
		}
		cmd, addr := []string{"convert"}, ""
		if t.P(50) {
			addr = remotes[t.IntN(len(remotes))]
			cmd = append(cmd, "--addr="+addr)
		}
		want, err := converter.ConvertString(s, converter.Metadata{Filename: file, URL: addr})
		t.Obs("convert", 1)
		if err == nil && want != s {
			t.Obs("really converted", 1)
		}
		return result("convert", want, err, cmd...)
	case 3, 4:
		priv := t.Bool()
		err := libLint(s, priv)
		cmd := []string{"lint"}
		if priv {
			cmd = append(cmd, t.Pick("-p", "--privileged"))
		}
		r := c.run(nil, append(cmd, arg...)...)
		if err != nil {
			c.refused(r, fmt.Sprintf("lint (%v)", err), before)
			t.Obs("lint refused", 1)
			return s
		}
		c.ok(r, "lint")
		if now := c.files(); now != before {
			t.Fail("lint changes the files")
		}
		t.Obs("lint accepted", 1)
	case 5, 6:
		t.Obs("sign", 1)
		k := signer.KeyString(key)
		if save {
			want, err := signer.SignUpdate([]byte(s), k)
			out := result("sign", string(want), err, "sign", key)
			if err == nil {
				// it verifies with this key and no other
				if r := c.run(nil, append([]string{"verify", key}, arg...)...); r.code != 0 {
					t.Fail("the signed file does not verify: %s", r.errOut)
				}
				if r := c.run(nil, append([]string{"verify", key + "x"}, arg...)...); r.code == 0 {
					t.Fail("the signed file verifies with another key")
				}
				t.Obs("signed and verified", 1)
			}
			return out
		}
		want, err := signer.Sign([]byte(s), k)
		return result("sign", want+"\n", err, "sign", key)
	case 7:
		verify(key)
	case 8:
		k := t.cliKey()
		if t.Bool() {
			k = key + t.Pick("a", " ", "0")
		}
		verify(k)
	}
	return s
}

// oneCondition is met or not by one of the values.
func oneCondition(t *T, m compiler.SkipData) (w yaml.Conditions) {
	c := func(v string) (c yaml.Condition) {
		l := []string{v}
		if v == "" || strings.ContainsAny(v, "*?[]{}\\!") || t.P(25) {
			l = []string{t.Pick("*", "no-such-value", "nothing/**")}
		}
		if t.P(30) {
			c.Exclude = l
		} else {
			c.Include = l
		}
		return
	}
	switch t.IntN(7) {
	case 0:
		w.Branch = c(m.Branch)
	case 1:
		w.Cron = c(m.Cron)
	case 2:
		w.Event = c(m.Event)
	case 3:
		w.Instance = c(m.Instance)
	case 4:
		w.Ref = c(m.Ref)
	case 5:
		w.Repo = c(m.Repo)
	default:
		w.Target = c(m.Target)
	}
	return
}

// compileArgs is a set of options and the compiler they stand for.
func compileArgs(t *T) (args []string, comp *compiler.Compiler, clone bool, meta compiler.SkipData) {
	meta = metaFor(t)
	meta.Action = ""
	env := map[string]string{}
	def := map[string]string{"DRONE_COMMIT_BRANCH": "", "DRONE_COMMIT_SHA": "", "DRONE_COMMIT_REF": "", "DRONE_REMOTE_URL": "", "DRONE_BUILD_EVENT": ""}
	add := func(f, v string) {
		if t.Bool() {
			args = append(args, "--"+f+"="+v)
		} else if strings.HasPrefix(v, "-") || strings.HasPrefix(v, "@") {
			args = append(args, "--"+f+"="+v)
		} else {
			args = append(args, "--"+f, v)
		}
	}
	opt := func(f string, v *string, envs ...string) {
		if t.P(40) || *v == "" {
			*v = ""
			return
		}
		add(f, *v)
		t.Obs("option "+f, 1)
		for _, e := range envs {
			def[e] = *v
		}
	}
	switch meta.Event {
	case "push", "pull_request", "tag", "deployment":
	default:
		meta.Event = t.Pick("push", "pull_request", "tag", "deployment")
	}
	sha, remote := "7fd1a60b01f91b314f59955a4e4d4e80d8edf11d", t.Pick(remotes...)
	opt("git-branch", &meta.Branch, "DRONE_COMMIT_BRANCH")
	opt("cron", &meta.Cron)
	opt("event", &meta.Event, "DRONE_BUILD_EVENT")
	opt("instance", &meta.Instance)
	opt("git-ref", &meta.Ref, "DRONE_COMMIT_REF")
	opt("repo", &meta.Repo)
	opt("deploy-to", &meta.Target)
	opt("git-sha", &sha, "DRONE_COMMIT_SHA")
	opt("git-remote", &remote, "DRONE_REMOTE_URL")
	if strings.HasPrefix(meta.Ref, "refs/tags/") {
		def["DRONE_TAG"] = meta.Ref[len("refs/tags/"):]
	}
	smap := func(f string, key func() string, val func() string) map[string]string {
		m := map[string]string{}
		for i := 0; i < 3 && t.P(40); i++ {
			k, v := key(), val()
			if _, ok := m[k]; ok {
				continue
			}
			m[k] = v
			add(f, k+t.Pick("=", ":")+v)
			t.Obs("option "+f, 1)
		}
		return m
	}
	o := &gopt{plainText: t.Bool()}
	text := func() string {
		for {
			s := o.s(t)
			if !strings.Contains(s, "\x00") {
				return s
			}
		}
	}
	env = smap("env", func() string { return "CLI_" + strings.ToUpper(t.ident()) }, text)
	labels := smap("label", t.ident, text)
	vols := smap("volume", func() string { return "/" + t.ident() }, func() string { return "/mnt/" + t.ident() })
	secrets := smap("secret", t.ident, text)
	var nets, dind []string
	for i := 0; i < 2 && t.P(40); i++ {
		n := t.ident()
		nets = append(nets, n)
		add("network", n)
		t.Obs("option network", 1)
	}
	for i := 0; i < 2 && t.P(40); i++ {
		n := t.Pick("plugins/docker", "plugins/gcr", "octocat/hello-world", o.image(t))
		dind = append(dind, n)
		add("dind", n)
		t.Obs("option dind", 1)
	}
	if dind == nil {
		dind = []string{"plugins/docker"}
	}
	var auths []*engine.DockerAuth
	for i := 0; i < 2 && t.P(30); i++ {
		a := &engine.DockerAuth{Address: t.Pick("docker.io", "gcr.io", "registry.company.com:5000"), Username: t.ident(), Password: t.ident()}
		auths = append(auths, a)
		add("registry", "https://"+a.Username+":"+a.Password+"@"+a.Address)
		t.Obs("option registry", 1)
	}
	var creds []byte
	for i := 0; i < 2 && t.P(30); i++ {
		u := "https://" + t.ident() + ":" + t.ident() + "@" + t.Pick("github.com", "gitlab.com")
		creds = append(creds, u+"\n"...)
		add("git-creds", u)
		t.Obs("option git-creds", 1)
	}
	machine, user, pass := t.Pick("github.com", ""), t.ident(), t.ident()
	opt("netrc-machine", &machine)
	opt("netrc-username", &user)
	opt("netrc-password", &pass)
	var mem int64
	if t.P(40) {
		k := t.IntN(4)
		n := t.Range(1, 900)
		mem = int64(n) << (10 * k)
		add("mem-limit", fmt.Sprint(n)+[]string{"B", "KB", "MB", "GB"}[k])
		t.Obs("option mem-limit", 1)
	}
	if t.P(30) {
		args = append(args, "--trusted")
	}
	if t.P(50) {
		clone = true
		args = append(args, "--clone")
		t.Obs("option clone", 1)
	}
	comp = &compiler.Compiler{
		GitCredentialsFunc: func() []byte { return creds },
		PrivilegedFunc:     compiler.DindFunc(dind),
		SkipFunc:           compiler.SkipFunc(meta),
		TransformFunc: transform.Combine(transform.WithAuths(auths), transform.WithEnviron(env), transform.WithEnviron(def), transform.WithLables(labels), transform.WithLimits(mem, 0),
			transform.WithNetrc(machine, user, pass), transform.WithNetworks(nets), transform.WithProxy(), transform.WithSecrets(secrets), transform.WithVolumes(vols)),
	}
	return
}

// asOutput is a compiled pipeline as it is read from the output.
func asOutput(t *T, b []byte) string {
	s := new(engine.Spec)
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(s); err != nil {
		t.Fail("the output is not a compiled pipeline: %v\n%s", err, tail(string(b), 500))
	}
	if d.More() {
		t.Fail("there is more than one compiled pipeline in the output")
	}
	return plain(s)
}

func init() {
	register(&Prop{
		ID:   "C28",
		Rule: "the built tool is run in scratch directories on generated, foreign, mutated and missing files: sequences of fmt, convert, lint, sign and verify with and without --save, where exit status, output and every file have to be what the library gives for the bytes in the file; compile with random option sets, whose output has to be what the library compiles for those options; failures (bad input, bad key, bad options, full output) have to be non-zero, reported, and leave the files alone; non-trivial when a command succeeds",
		Need: []string{"commands run", "succeeded", "failed loudly", "fmt", "convert", "really converted", "lint accepted", "lint refused", "sign", "signed and verified", "verify accepted", "verify refused", "saved", "printed", "compiled", "named pipeline", "compile refused", "full output", "usage errors",
			"option git-branch", "option cron", "option event", "option instance", "option git-ref", "option repo", "option deploy-to", "option git-sha", "option git-remote", "option env", "option label", "option volume", "option secret", "option network", "option dind", "option registry", "option git-creds", "option netrc-machine", "option netrc-username", "option netrc-password", "option mem-limit", "option clone"},
		Assume: []string{"results may be printed to either output stream", "keys on the command line do not start with - or @", "the reference for compile is the library with the options translated as their help texts say"},
		Sections: []Section{
			{Name: "sequences", Quick: 6000, Thorough: 60000, Run: func(t *T) {
				c := newCLI(t)
				defer c.close()
				name := cliNames[t.IntN(len(cliNames))]
				s := source(t)
				switch {
				case strings.Contains(name, "gitlab") && t.P(80):
					s = glGen(t).text(t)
				case strings.Contains(name, "bitbucket") && t.P(80):
					s = bbGen(t).text(t)
				}
				t.Input("file", s)
				t.Input("name", name)
				c.write(name, s)
				if t.P(30) {
					c.write("other.yml", "kind: pipeline\nname: other\n")
				}
				key := t.cliKey()
				t.Input("key", key)
				i := len(t.inputs)
				t.Input("history", "")
				for k := t.Range(1, 5); k > 0; k-- {
					if t.P(15) && len(s) > 0 { // someone edits the file
						s = t.Pick(disturbText(t, s), disturbText(t, s), source(t), "---\n"+s)
						c.write(name, s)
						c.log = append(c.log, fmt.Sprintf("edit: %q", s))
					}
					func() {
						defer func() { t.inputs[i][1] = strings.Join(c.log, "\n") }()
						s = c.step(name, s, key)
					}()
				}
				t.NonTrivial(s + strings.Join(c.log, ""))
			}},
			{Name: "compile", Quick: 6000, Thorough: 100000, Run: func(t *T) {
				c := newCLI(t)
				defer c.close()
				o := &gopt{maxSteps: 3, plainText: t.P(60)}
				var rs []yaml.Resource
				var ps []*yaml.Pipeline
				for i, n := 0, t.Range(0, 3); i < n; i++ {
					var p *yaml.Pipeline
					if t.P(50) {
						p = linted(t)
					} else {
						p = compilable(t, o)
					}
					if t.P(80) {
						p.Name = t.ident()
						if len(ps) > 0 && t.P(25) { // a similar name
							if n := ps[t.IntN(len(ps))].Name; n != "" {
								if t.Bool() {
									n = strings.ToUpper(n)
								} else {
									n += t.Pick("0", " ", "-x")
								}
								p.Name = n
							}
						}
					}
					ps = append(ps, p)
					if t.P(30) {
						if r := o.resource(t); r.GetKind() != "pipeline" {
							rs = append(rs, r)
						}
					}
					rs = append(rs, p)
				}
				if len(rs) == 0 {
					rs = append(rs, o.secret(t))
				}
				// steps that depend on a single option each
				args, comp, clone, meta := compileArgs(t)
				for i, n := 0, t.some(50, 3); i < n && len(ps) > 0; i++ {
					p := ps[t.IntN(len(ps))]
					if len(p.Steps) == 0 {
						continue
					}
					p.Steps[t.IntN(len(p.Steps))].When = oneCondition(t, meta)
					t.Obs("one condition", 1)
				}
				s := render(t, rs)
				t.Input("file", s)
				c.write(".drone.yml", s)
				before := c.files()
				if t.P(20) {
					c.env = append(c.env, "HTTP_PROXY=") // an empty one
				}
				var want *yaml.Pipeline
				if len(ps) > 0 {
					want = ps[0]
				}
				if t.P(60) {
					name := t.ident()
					if len(ps) > 0 && t.P(85) {
						name = ps[t.IntN(len(ps))].Name
					}
					if name != "" && !strings.Contains(name, "\x00") {
						args = append(args, "--name="+name)
						want = nil
						for i := len(ps) - 1; i >= 0; i-- {
							if ps[i].Name == name {
								want = ps[i]
							}
						}
						t.Obs("named pipeline", 1)
					}
				}
				args = append([]string{"compile"}, args...)
				if t.P(50) {
					args = append(args, ".drone.yml")
				}
				t.Input("arguments", fmt.Sprintf("%q", args))
				if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil && want != nil && t.P(3) {
					r := c.run(f, args...)
					f.Close()
					if r.code == 0 {
						t.Fail("the output cannot be written, but the exit status is 0")
					}
					t.Obs("full output", 1)
					return
				}
				r := c.run(nil, args...)
				if now := c.files(); now != before {
					t.Fail("compile changes the files: %s", canonDiff(before, now))
				}
				if want == nil {
					c.refused(r, "compile of a pipeline that is not there", before)
					t.Obs("compile refused", 1)
					return
				}
				c.ok(r, "compile")
				if !clone {
					want.Clone.Disable = true
				}
				m, err := yaml.ParseString(renderCanonical([]yaml.Resource{want}))
				if err != nil {
					t.Broken("%v", err)
				}
				spec := comp.Compile(m.Resources[0].(*yaml.Pipeline))
				lib, err := json.Marshal(spec)
				if err != nil {
					t.Broken("%v", err)
				}
				w, g := asOutput(t, lib), asOutput(t, []byte(r.out))
				if w != g {
					t.Fail("compiled to something else than the options say: %s", canonDiff(w, g))
				}
				t.Obs("compiled", 1)
				t.NonTrivial(w)
			}},
			{Name: "failures", Quick: 1000, Thorough: 5000, Run: func(t *T) {
				c := newCLI(t)
				defer c.close()
				good := render(t, []yaml.Resource{linted(t)})
				key := t.cliKey()
				cmd := t.Pick("fmt", "convert", "lint", "sign", "verify", "compile")
				args := []string{cmd}
				if cmd == "sign" || cmd == "verify" {
					args = append(args, key)
				}
				if t.Bool() && (cmd == "fmt" || cmd == "convert" || cmd == "sign") {
					args = append(args, "--save")
				}
				what := ""
				switch t.IntN(6) {
				case 0: // no such file
					what = "a missing file"
					if t.Bool() {
						args = append(args, "none/x.yml")
					}
				case 1: // a directory
					what = "a directory"
					os.Mkdir(filepath.Join(c.dir, "d"), 0755)
					args = append(args, "d")
				case 2: // malformed
					what = "a malformed file"
					s := t.Pick("kind: pipeline\nname: [", "name: x\n", "kind: pipeline\nsteps: 5\n", "- a\n", "\x00\x01", "kind: pipeline\n---\nkind: [\n", "kind: secret\ndata: {a: b}\n", "kind: pipeline\nx: *a\n")
					if cmd == "sign" && (s == "name: x\n" || s == "kind: pipeline\nsteps: 5\n" || s == "kind: secret\ndata: {a: b}\n") {
						s = "- a\n" // no need to look into the values
					}
					if cmd == "convert" {
						s = "pipeline: [\n"
					}
					if t.P(30) && cmd != "convert" {
						s = s + "---\n" + strings.TrimPrefix(good, "---\n")
					}
					c.write(".drone.yml", s)
				case 3: // options that do not exist
					what = "a wrong option"
					c.write(".drone.yml", good)
					args = append(args, t.Pick("--nothing", "-z", "--save=maybe", "--event=merge", "--mem-limit=lots", "--label=x", "a.yml", "--registry=https://docker.io", "--registry=https://a@docker.io"))
					if last := args[len(args)-1]; last == "--save=maybe" || cmd != "compile" && strings.HasPrefix(last, "--") {
						// all others know none of them
					} else if cmd == "compile" && (last == "--nothing" || last == "-z") {
					}
					t.Obs("usage errors", 1)
				case 4: // no output
					what = "an output that is full"
					if args[len(args)-1] == "--save" {
						args = args[:len(args)-1]
					}
					if cmd == "lint" {
						t.Skip("lint prints nothing")
					}
					if cmd == "verify" {
						b, err := signer.SignUpdate([]byte(good), signer.KeyString(key))
						if err != nil {
							t.Skip("a bad key")
						}
						good = string(b)
					}
					c.write(".drone.yml", good)
					f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
					if err != nil {
						t.Broken("%v", err)
					}
					defer f.Close()
					t.Input("arguments", fmt.Sprintf("%q", args))
					if r := c.run(f, args...); r.code == 0 {
						t.Fail("%s cannot write its result, but the exit status is 0", cmd)
					}
					t.Obs("full output", 1)
					return
				case 5: // no or unknown command, missing key
					what = "wrong usage"
					c.write(".drone.yml", good)
					switch t.IntN(3) {
					case 0:
						args = nil
					case 1:
						args = []string{"format"}
					default:
						args = []string{t.Pick("sign", "verify")}
					}
					if len(args) == 0 {
						args = []string{"--nothing"}
					}
					t.Obs("usage errors", 1)
				}
				t.Input("arguments", fmt.Sprintf("%q", args))
				before := c.files()
				t.Input("files", before)
				c.refused(c.run(nil, args...), what, before)
				t.NonTrivial(fmt.Sprint(args) + before)
			}},
		},
	})
}
