package main

import (
	"fmt"
	"path"
	"regexp"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
)

// ---- GitLab ----

type glImage struct {
	name       string
	alias      string
	entrypoint []string
	command    []string
}

type glJob struct {
	name                  string
	stage                 string
	image                 glImage
	before, script, after []string
	allow                 bool
	noise                 map[string]*N // attributes that mean nothing here
}

type glConfig struct {
	image         glImage
	stages        []string
	services      []glImage
	before, after []string
	jobs          []*glJob
	others        map[string]*N // global settings and hidden jobs
}

var glReserved = map[string]bool{"image": true, "stages": true, "services": true, "variables": true, "before_script": true, "after_script": true, "cache": true, "default": true, "include": true, "workflow": true, "pages": true}

func glKey(t *T, o *gopt) string {
	for {
		s := t.word()
		switch t.IntN(4) {
		case 0:
			s = "job " + t.ident()
		case 1:
			s = t.ident()
		case 2:
			s = o.s(t)
		}
		if s != "" && !resolves(s) && !glReserved[s] && !strings.HasPrefix(s, ".") {
			return s
		}
	}
}

func glScript(t *T, o *gopt, pct int) []string {
	if !t.P(pct) {
		return nil
	}
	var l []string
	for i, n := 0, t.count(3); i < n; i++ {
		l = append(l, o.s(t))
	}
	return l
}

func glImg(t *T, o *gopt, service bool) glImage {
	i := glImage{name: o.image(t)}
	if isNullText(i.name) {
		i.name = "ruby"
	}
	if t.P(12) { // in a registry of its own
		i.name = t.Pick("registry.example.com", "quay.io", "gcr.io", "r.io") + t.Pick("", ":5000") + "/" + t.Pick("a", "my-org", "x_y") + "/" + t.Pick("db", "b/c", "z.1/q") + t.Pick("", ":1.0", ":latest")
	}
	if t.P(30) {
		i.entrypoint = o.list(t, 60, 2)
		if service || t.P(30) {
			i.command = o.list(t, 60, 2)
		}
		if service {
			i.alias = t.Pick("", t.ident())
		}
	}
	for _, l := range [][]string{i.entrypoint, i.command} {
		for k := range l {
			if isNullText(l[k]) {
				l[k] = "x"
			}
		}
	}
	return i
}

func glGen(t *T) *glConfig {
	o := &gopt{plainText: t.P(40)}
	c := &glConfig{others: map[string]*N{}}
	if t.P(60) {
		c.image = glImg(t, o, false)
	}
	var stages []string
	seen := map[string]bool{}
	for i, n := 0, t.Range(1, 4); i < n; i++ {
		s := t.Pick("build", "test", "deploy", "review", "stage "+t.word(), o.s(t))
		if !seen[s] && s != "" {
			seen[s] = true
			stages = append(stages, s)
		}
	}
	listed := t.P(65)
	if listed {
		c.stages = stages
	}
	if t.P(40) {
		used := map[string]bool{}
		for i, n := 0, t.Range(1, 3); i < n; i++ {
			s := glImg(t, o, true)
			k := s.name + s.alias
			if !used[k] {
				used[k] = true
				c.services = append(c.services, s)
			}
		}
	}
	c.before = glScript(t, o, 35)
	c.after = glScript(t, o, 25)
	seen = map[string]bool{}
	for i, n := 0, t.count(6); i < n; i++ {
		j := &glJob{name: glKey(t, o), noise: map[string]*N{}}
		if seen[j.name] {
			continue
		}
		seen[j.name] = true
		if listed {
			j.stage = stages[t.IntN(len(stages))]
			for _, s := range stages {
				if s == "test" && t.P(30) {
					j.stage = "" // the default
				}
			}
		}
		if t.P(50) {
			j.image = glImg(t, o, false)
		}
		j.before = glScript(t, o, 25)
		j.script = glScript(t, o, 100)
		j.after = glScript(t, o, 25)
		j.allow = t.P(30)
		for _, k := range []string{"tags", "only", "except", "variables", "cache", "artifacts", "when", "retry", "coverage"} {
			if !t.P(8) {
				continue
			}
			switch k {
			case "variables":
				j.noise[k] = mapN().set("A", text("x"))
			case "tags":
				j.noise[k] = strs([]string{"docker"})
			case "cache":
				j.noise[k] = mapN().set("paths", strs([]string{"vendor/"}))
			case "artifacts":
				j.noise[k] = mapN().set("paths", strs([]string{"out"}))
			case "retry":
				j.noise[k] = num(2)
			case "when":
				j.noise[k] = text(t.Pick("manual", "on_failure", "always"))
			case "coverage":
				j.noise[k] = str(`/\d+%/`)
			default:
				j.noise[k] = strs([]string{"master", "tags"})
			}
		}
		c.jobs = append(c.jobs, j)
	}
	if t.P(25) {
		c.others["cache"] = mapN().set("paths", strs([]string{"vendor/", "node_modules"}))
	}
	if t.P(20) {
		c.others["variables"] = mapN().set("DB", text("postgres")).set("N", num(3))
	}
	if t.P(20) {
		c.others[".template"] = mapN().set("image", text("ruby")).set("script", strs([]string{"hidden"}))
	}
	return c
}

func glImgN(t *T, i glImage) *N {
	if i.alias == "" && len(i.entrypoint)+len(i.command) == 0 && t.P(70) {
		return textN(i.name)
	}
	n := mapN().set("name", textN(i.name))
	w := &noter{t: t}
	list := func(k string, l []string) {
		if len(l) == 1 && t.P(40) {
			n.set(k, textN(l[0]))
			return
		}
		w.putList(n, k, l)
	}
	list("entrypoint", i.entrypoint)
	list("command", i.command)
	if i.alias != "" {
		n.set("alias", textN(i.alias))
	}
	n.shuffle(t)
	return n
}

func scriptN(t *T, n *N, k string, l []string) {
	if len(l) == 1 && t.P(50) {
		n.set(k, textN(l[0]))
		return
	}
	if len(l) > 0 {
		n.set(k, textSeq(l))
	}
}

// anchored says some of a mapping in terms of templates that stand before the
// document: a value, or some attributes that are merged back and that the
// mapping may override. Templates are the lines of its result.
func anchored(t *T, n *N, name func() string, other func(k string) *N) string {
	e := &emitter{t: t, st: Style{Canonical: true}}
	if len(n.keys) == 0 || !t.P(30) {
		return ""
	}
	if t.P(30) {
		i := t.IntN(len(n.keys))
		at := name()
		l := at + ": {" + n.keys[i] + ": &" + strings.TrimLeft(at, ".") + " " + e.flow(n.vals[i]) + "}\n"
		n.vals[i] = raw("*" + strings.TrimLeft(at, "."))
		t.Obs("values shared by anchors", 1)
		return l
	}
	base, rest := mapN(), mapN()
	for i, k := range n.keys {
		switch {
		case t.P(40):
			base.set(k, n.vals[i])
		case t.P(60): // overridden
			x := other(k)
			if x == nil {
				x = n.vals[i].clone()
			}
			base.set(k, x)
			rest.set(k, n.vals[i])
			t.Obs("merged attributes overridden", 1)
		default:
			rest.set(k, n.vals[i])
		}
	}
	if len(base.keys) == 0 {
		return ""
	}
	at := name()
	*n = *mapN().setRaw("<<", raw("*"+strings.TrimLeft(at, ".")))
	n.keys = append(n.keys, rest.keys...)
	n.vals = append(n.vals, rest.vals...)
	t.Obs("templates merged", 1)
	return at + ": &" + strings.TrimLeft(at, ".") + " " + e.flow(base) + "\n"
}

func (c *glConfig) text(t *T) string {
	w := &noter{t: t}
	templates, tn := "", 0
	name := func() string { tn++; return fmt.Sprintf(".tpl%d", tn) }
	other := func(k string) *N {
		switch k {
		case "image":
			return glImgN(t, glImg(t, &gopt{plainText: true}, false))
		case "script", "before_script", "after_script":
			if t.Bool() {
				return text("not this")
			}
			return strs([]string{"not this", "nor this", "nor that"})
		case "stage":
			return text(t.Pick("test", "build", "elsewhere"))
		case "allow_failure":
			return boolN(t.Bool())
		}
		return nil
	}
	n := mapN()
	if c.image.name != "" {
		n.set("image", glImgN(t, c.image))
	}
	if len(c.stages) > 0 {
		n.set("stages", textSeq(c.stages))
	}
	if len(c.services) > 0 {
		x := seq()
		for _, s := range c.services {
			x.items = append(x.items, glImgN(t, s))
		}
		n.set("services", x)
	}
	scriptN(t, n, "before_script", c.before)
	scriptN(t, n, "after_script", c.after)
	for _, k := range []string{"cache", "variables", ".template"} {
		if c.others[k] != nil {
			n.set(k, c.others[k])
		}
	}
	var globals, jobs []string
	gv := map[string]*N{}
	for i, k := range n.keys {
		globals = append(globals, k)
		gv[k] = n.vals[i]
	}
	for _, j := range c.jobs {
		x := mapN()
		if j.stage != "" {
			x.set("stage", textN(j.stage))
		}
		if j.image.name != "" {
			x.set("image", glImgN(t, j.image))
		}
		scriptN(t, x, "before_script", j.before)
		scriptN(t, x, "script", j.script)
		scriptN(t, x, "after_script", j.after)
		w.putBool(x, "allow_failure", j.allow)
		for _, k := range []string{"tags", "only", "except", "variables", "cache", "artifacts", "when", "retry", "coverage"} {
			if j.noise[k] != nil {
				x.set(k, j.noise[k])
			}
		}
		perm := t.Perm(len(x.keys))
		y := mapN()
		for _, i := range perm {
			y.set(x.keys[i], x.vals[i])
		}
		templates += anchored(t, y, name, other)
		gv["job:"+j.name] = y
		jobs = append(jobs, j.name)
	}
	// the globals go anywhere between the jobs
	doc := mapN()
	t.Shuffle(len(globals), func(i, j int) { globals[i], globals[j] = globals[j], globals[i] })
	for len(globals)+len(jobs) > 0 {
		if len(jobs) == 0 || len(globals) > 0 && t.P(60) {
			doc.set(globals[0], gv[globals[0]])
			globals = globals[1:]
			continue
		}
		doc.set(jobs[0], gv["job:"+jobs[0]])
		jobs = jobs[1:]
	}
	e := &emitter{t: t, st: Style{CRLF: false}}
	e.block(t.warped(doc), 0, false)
	return templates + e.b.String()
}

var plainImage = regexp.MustCompile(`^[A-Za-z0-9][A-Za-z0-9./_-]*(:[0-9]+/[A-Za-z0-9./_-]+)?$`)

func slug(image string) string {
	// the name without the tag or digest
	if i := strings.Index(image, "@"); i >= 0 {
		image = image[:i]
	}
	if i := strings.LastIndex(image, ":"); i > strings.LastIndex(image, "/") {
		image = image[:i]
	}
	return image
}

// expect is the list of pipelines the configuration stands for.
func (c *glConfig) expect() []*yaml.Pipeline {
	stages := c.stages
	if len(stages) == 0 {
		for _, j := range c.jobs {
			stages = append(stages, j.name)
		}
	}
	var ps []*yaml.Pipeline
	for i, s := range stages {
		p := &yaml.Pipeline{Kind: "pipeline", Name: s}
		p.Platform.OS, p.Platform.Arch = "linux", "amd64"
		if i > 0 {
			p.DependsOn = []string{stages[i-1]}
		}
		for _, j := range c.jobs {
			in := j.stage
			if len(c.stages) == 0 {
				in = j.name
			} else if in == "" {
				in = "test"
			}
			if in != s {
				continue
			}
			x := &yaml.Container{Name: j.name, Image: j.image.name, Entrypoint: j.image.entrypoint, Command: j.image.command}
			if x.Image == "" {
				x.Image = c.image.name
			}
			for _, l := range [][]string{c.before, j.before, j.script, j.after, c.after} {
				x.Commands = append(x.Commands, l...)
			}
			if j.allow {
				x.Failure = "ignore"
			}
			p.Steps = append(p.Steps, x)
		}
		for _, s := range c.services {
			p.Services = append(p.Services, &yaml.Container{Name: s.alias, Image: s.name, Entrypoint: s.entrypoint, Command: s.command})
		}
		ps = append(ps, p)
	}
	return ps
}

// ---- Bitbucket ----

type bbStep struct {
	name, image string
	script      []string
	noise       bool
}

type bbSection struct {
	pattern string
	steps   []*bbStep
	groups  []int // lengths of runs of parallel steps, 0 for a single one
}

type bbConfig struct {
	image    string
	depth    int
	def      *bbSection
	tags     []*bbSection
	branches []*bbSection
	services map[string]string
	uid      int
}

func (c *bbConfig) section(t *T, o *gopt, pattern string) *bbSection {
	s := &bbSection{pattern: pattern}
	for i, n := 0, t.Range(0, 4); i < n || len(s.steps) == 0 && t.P(90); i++ {
		k := 0
		if t.P(15) {
			k = t.Range(1, 3)
		}
		s.groups = append(s.groups, k)
		if k == 0 {
			k = 1
		}
		for ; k > 0; k-- {
			c.uid++
			st := &bbStep{script: []string{fmt.Sprintf("step %d", c.uid)}, noise: t.P(25)}
			for j := 0; j < 2 && t.P(50); j++ {
				st.script = append(st.script, o.s(t))
			}
			if t.P(60) {
				st.name = fmt.Sprintf("%s %d", t.word(), c.uid)
				switch t.IntN(8) {
				case 0:
					st.name = fmt.Sprintf("step_%d", len(s.steps)+t.Range(-1, 2))
				case 1:
					st.name = o.s(t) + fmt.Sprint(c.uid)
				}
				for _, x := range s.steps {
					if x.name == st.name {
						st.name = fmt.Sprintf("other name %d", c.uid)
					}
				}
			}
			if t.P(50) {
				st.image = o.image(t)
				if isNullText(st.image) {
					st.image = "node"
				}
			}
			s.steps = append(s.steps, st)
		}
	}
	return s
}

func (s *bbSection) note(t *T, sharedBy func(n *N)) *N {
	l := seq()
	one := func(st *bbStep) *N {
		n := mapN()
		if st.name != "" {
			n.set("name", textN(st.name))
		}
		if st.image != "" {
			n.set("image", textN(st.image))
		}
		if len(st.script) > 0 {
			n.set("script", textSeq(st.script))
		}
		if st.noise {
			n.set("caches", strs([]string{"node"}))
			n.set("artifacts", strs([]string{"dist/**"}))
			n.set("services", strs([]string{"postgres"}))
			if t.Bool() {
				n.set("deployment", text("test"))
				n.set("max-time", num(10))
			}
		}
		n.shuffle(t)
		sharedBy(n)
		return mapN().set("step", n)
	}
	at := 0
	for _, k := range s.groups {
		if k == 0 {
			l.items = append(l.items, one(s.steps[at]))
			at++
			continue
		}
		p := seq()
		for ; k > 0; k-- {
			p.items = append(p.items, one(s.steps[at]))
			at++
		}
		l.items = append(l.items, mapN().set("parallel", p))
	}
	return l
}

var bbPatterns = []string{"master", "develop", "feature/*", "feature/x", "*", "v*", "v1.*", "release-?", "hotfix/*", "v1.0", "*-rc", "feature/[a-m]*", "*/*"}

func bbGen(t *T) *bbConfig {
	o := &gopt{plainText: t.P(40)}
	c := &bbConfig{}
	if t.P(70) {
		c.image = o.image(t)
		if isNullText(c.image) {
			c.image = "node"
		}
	}
	if t.P(40) {
		c.depth = t.Range(1, 100)
	}
	if t.P(85) {
		c.def = c.section(t, o, "")
	}
	pick := func() (l []*bbSection) {
		if !t.P(65) {
			return nil
		}
		perm := t.Perm(len(bbPatterns))
		for i, n := 0, t.Range(1, 4); i < n; i++ {
			l = append(l, c.section(t, o, bbPatterns[perm[i]]))
		}
		return
	}
	c.tags, c.branches = pick(), pick()
	if t.P(50) {
		c.services = map[string]string{}
		for i, n := 0, t.Range(1, 4); i < n; i++ {
			k := oldKey(t)
			c.services[k] = o.image(t)
			if isNullText(c.services[k]) {
				c.services[k] = "postgres"
			}
		}
	}
	return c
}

func (c *bbConfig) text(t *T) string {
	n := mapN()
	templates, tn := "", 0
	sharedBy := func(n *N) {
		templates += anchored(t, n, func() string { tn++; return fmt.Sprintf("x-tpl%d", tn) }, func(k string) *N {
			switch k {
			case "name", "image":
				return text("not-this")
			case "script":
				return strs([]string{"not this", "nor this", "nor that"})
			}
			return nil
		})
	}
	if c.image != "" {
		n.set("image", textN(c.image))
	}
	if c.depth > 0 {
		n.set("clone", mapN().set("depth", num(c.depth)))
	}
	ps := mapN()
	if c.def != nil {
		ps.set("default", c.def.note(t, sharedBy))
	}
	sections := func(k string, l []*bbSection) {
		if len(l) == 0 {
			return
		}
		x := mapN()
		for _, s := range l {
			x.set(s.pattern, s.note(t, sharedBy))
		}
		ps.set(k, x)
	}
	sections("tags", c.tags)
	sections("branches", c.branches)
	if t.P(12) { // the default pipeline of a template, overridden or not
		body := seq(mapN().set("step", mapN().set("script", strs([]string{"not this"}))))
		if c.def != nil && t.Bool() {
			body = ps.get("default")
			ps.del("default")
		}
		if c.def != nil {
			e := &emitter{t: t, st: Style{Canonical: true}}
			templates += "x-pipelines: &pipelines {default: " + e.flow(body) + "}\n"
			m := mapN().setRaw("<<", raw("*pipelines"))
			m.keys = append(m.keys, ps.keys...)
			m.vals = append(m.vals, ps.vals...)
			ps = m
			t.Obs("default pipelines merged", 1)
		}
	}
	n.set("pipelines", ps)
	if len(c.services) > 0 {
		x := mapN()
		for _, k := range sortedKeys(c.services) {
			s := mapN().set("image", textN(c.services[k]))
			if t.P(30) {
				s.set("variables", mapN().set("DB", text("x")))
			}
			if t.P(10) { // means nothing here
				s.set(t.Pick("name", "memory", "type", "alias", "title"), text(t.word()))
			}
			s.shuffle(t)
			x.set(k, s)
		}
		d := mapN().set("services", x)
		if t.P(30) {
			d.set("caches", mapN().set("node", text("node_modules")))
		}
		n.set("definitions", d)
	}
	m := mapN()
	for _, i := range t.Perm(len(n.keys)) {
		m.set(n.keys[i], n.vals[i])
	}
	e := &emitter{t: t, st: Style{}}
	e.block(t.warped(m), 0, false)
	return templates + e.b.String()
}

// candidates are the sections that may be selected: exactly one, unless
// several patterns match.
func (c *bbConfig) candidates(ref string) []*bbSection {
	match := func(l []*bbSection, name string) (out []*bbSection) {
		for _, s := range l {
			if ok, err := path.Match(s.pattern, name); ok && err == nil {
				out = append(out, s)
			}
		}
		return
	}
	const tags, heads = "refs/tags/", "refs/heads/"
	if !strings.HasPrefix(ref, heads) {
		if l := match(c.tags, strings.TrimPrefix(ref, tags)); len(l) > 0 {
			return l
		}
	}
	if !strings.HasPrefix(ref, tags) {
		if l := match(c.branches, strings.TrimPrefix(ref, heads)); len(l) > 0 {
			return l
		}
	}
	if c.def != nil {
		return []*bbSection{c.def}
	}
	return []*bbSection{{}}
}

func (c *bbConfig) expect(s *bbSection) *yaml.Pipeline {
	p := &yaml.Pipeline{Kind: "pipeline", Name: "default"}
	p.Platform.OS, p.Platform.Arch = "linux", "amd64"
	p.Clone.Depth = c.depth
	for _, st := range s.steps {
		x := &yaml.Container{Name: st.name, Image: st.image, Commands: st.script}
		if x.Image == "" {
			x.Image = c.image
		}
		p.Steps = append(p.Steps, x)
	}
	for _, k := range sortedKeys(c.services) {
		p.Services = append(p.Services, &yaml.Container{Name: k, Image: c.services[k]})
	}
	return p
}

// ---- files that need no conversion ----

const oddBytes = " \n\r\t:-#'\"abpipeline{}[]&*!|>%@"

var ownNames = []string{".drone.yml", ".drone.yaml", "", "x.yml", "README.md", ".travis.yml", "circle.yml", ".circleci/config.yml", ".gitlab-ci.yaml", "gitlab-ci.yml",
	"bitbucket-pipelines.yaml", "bitbucket-pipelines.yml.bak", ".GITLAB-CI.YML", " .gitlab-ci.yml",
	"docs/.gitlab-ci.yml", "./.gitlab-ci.yml", "/.gitlab-ci.yml", "sub/bitbucket-pipelines.yml", "sub/dir/.gitlab-ci.yml", "./bitbucket-pipelines.yml", "a/.circleci/config.yml", "x.gitlab-ci.yml", "my-bitbucket-pipelines.yml", ".gitlab-ci.yml/", "bitbucket-pipelines.yml/x.yml", ".gitlab-ci.yml.yml", "C:\\x\\.gitlab-ci.yml", "..gitlab-ci.yml", "gitlab-ci.yml ", "bitbucket-pipelines", ".gitlab-ci"}

func init() {
	register(&Prop{
		ID:     "C22",
		Rule:   "random GitLab configurations (stages or none, jobs between global settings, hidden jobs, all notations) are converted and parsed back; pipelines, their order, dependencies, steps, commands, images, failure mode and services are compared with an independent model, several times over; non-trivial always",
		Need:   []string{"pipelines", "steps", "services", "stages listed", "stages implied", "failures ignored", "default stage", "global settings", "repeated conversions", "wrong kinds refused", "templates merged", "merged attributes overridden", "values shared by anchors"},
		Assume: []string{"only, except, variables, when and services of a job are not carried over (documented in the code as to do)"},
		Sections: []Section{{Name: "wrong kinds", Quick: 3000, Thorough: 60000, Run: glWrong}, {Name: "convert", Quick: 8000, Thorough: 400000, Run: func(t *T) {
			c := glGen(t)
			s := c.text(t)
			t.Input("config", s)
			m := converter.Metadata{Filename: ".gitlab-ci.yml", Ref: t.Pick("", "refs/heads/master"), URL: t.Pick("", "https://github.com/octocat/x")}
			out := mustConvert(t, s, m)
			ps, ss := converted(t, out)
			if len(ss) > 0 {
				t.Fail("unexpected secrets")
			}
			want := c.expect()
			for _, p := range ps {
				for i, svc := range p.Services {
					if i < len(c.services) && c.services[i].alias == "" {
						// named after the image, however exactly
						first := slug(c.services[i].name)
						if svc.Name == "" || plainImage.MatchString(first) && !strings.Contains(svc.Name, path.Base(first)) && !strings.Contains(strings.Replace(svc.Name, "__", "/", -1), path.Base(first)) {
							t.Fail("the service with image %q is named %q", c.services[i].name, svc.Name)
						}
						// what the image is called in GitLab, where a host name has no slash
						if plainImage.MatchString(first) && (strings.Contains(svc.Name, "/") || strings.HasPrefix(first, "quay.io/") && svc.Name != strings.Replace(first, "/", "__", -1)) {
							t.Fail("the service with image %q is named %q", c.services[i].name, svc.Name)
						}
						svc.Name = ""
					}
				}
			}
			if w, g := canon(want, canonOpt{}), canon(ps, canonOpt{}); w != g {
				t.Fail("the converted pipelines differ: %s", canonDiff(w, g))
			}
			observeOld(t, ps)
			if len(c.stages) > 0 {
				t.Obs("stages listed", 1)
			} else {
				t.Obs("stages implied", 1)
			}
			for _, j := range c.jobs {
				if j.allow {
					t.Obs("failures ignored", 1)
				}
				if j.stage == "" && len(c.stages) > 0 {
					t.Obs("default stage", 1)
				}
			}
			if len(c.others) > 0 {
				t.Obs("global settings", 1)
			}
			t.Seen("configurations", out)
			checkAgain(t, s, out, m, 3)
			t.NonTrivial(s)
		}}},
	})
	register(&Prop{
		ID:     "C23",
		Rule:   "random Bitbucket configurations are converted for branch, tag and other refs and parsed back; the steps have to be those of the selected section, in order, with their images, names and scripts, and clone depth and services have to be carried over; repeated conversions have to agree; non-trivial always",
		Need:   []string{"pipelines", "steps", "services", "tag sections", "branch sections", "defaults", "several match", "generated names", "parallel", "repeated conversions", "wrong kinds refused"},
		Assume: []string{"patterns are those of path.Match; where several match any of them may be selected, as long as it is always the same"},
		Sections: []Section{{Name: "wrong kinds", Quick: 3000, Thorough: 60000, Run: bbWrong}, {Name: "convert", Quick: 8000, Thorough: 400000, Run: func(t *T) {
			c := bbGen(t)
			s := c.text(t)
			t.Input("config", s)
			ref := t.Pick("refs/heads/", "refs/tags/", "refs/heads/", "refs/tags/", "", "refs/pull/1/") + t.Pick("master", "develop", "feature/x", "feature/login", "v1.0", "v1.1", "v2.0-rc", "release-1", "hotfix/a", "other", "a/b/c", branchPool[t.IntN(len(branchPool))])
			if t.P(4) {
				ref = ""
			}
			t.Input("ref", ref)
			m := converter.Metadata{Filename: "bitbucket-pipelines.yml", Ref: ref}
			out := mustConvert(t, s, m)
			ps, ss := converted(t, out)
			if len(ps) != 1 || len(ss) != 0 {
				t.Fail("%d pipelines and %d secrets, want one pipeline", len(ps), len(ss))
			}
			p := ps[0]
			sortContainers(p.Services)
			cand := c.candidates(ref)
			first := ""
			ok := false
			for _, sec := range cand {
				want := c.expect(sec)
				sortContainers(want.Services)
				bad := ""
				if len(want.Steps) == len(p.Steps) {
					names := map[string]bool{}
					for i, x := range want.Steps {
						if x.Name == "" {
							x.Name = p.Steps[i].Name // checked below
						}
						if (names[x.Name] || x.Name == "") && bad == "" {
							bad = fmt.Sprintf("a step has no name, or one that is taken: %q", x.Name)
						}
						names[x.Name] = true
						if sec.steps[i].name == "" {
							t.Obs("generated names", 1)
						}
					}
				}
				w, g := canon(want, canonOpt{}), canon(p, canonOpt{})
				if w == g && bad != "" {
					if first == "" {
						first = bad
					}
				} else if w == g {
					ok = true
					if len(sec.groups) != len(sec.steps) {
						t.Obs("parallel", 1)
					}
					switch {
					case sec == c.def:
						t.Obs("defaults", 1)
					case inSections(c.tags, sec):
						t.Obs("tag sections", 1)
					case inSections(c.branches, sec):
						t.Obs("branch sections", 1)
					}
					t.Seen("selected", ref+" by "+sec.pattern)
				} else if first == "" {
					first = canonDiff(w, g)
				}
			}
			if !ok {
				t.Fail("for the ref %q the converted pipeline differs: %s", ref, first)
			}
			if len(cand) > 1 {
				t.Obs("several match", 1)
			}
			observeOld(t, ps)
			checkAgain(t, s, out, m, 4)
			t.NonTrivial(s + ref)
		}}},
	})
	register(&Prop{
		ID:   "C19",
		Rule: "current configurations, arbitrary bytes and texts that mention a pipeline section in nested, quoted, commented or block content are converted under names of no foreign format and have to come back byte for byte; the string variant has to agree with the byte variant for every format; converting a converted result changes nothing; a top-level pipeline section in any notation is recognised; non-trivial when the text mentions a pipeline section",
		Need: []string{"passed through", "arbitrary bytes", "mentions", "recognised", "converted again", "string variant"},
		Sections: []Section{
			{Name: "current", Quick: 5000, Thorough: 200000, Run: func(t *T) {
				o := &gopt{}
				rs := o.resources(t, 4)
				s := render(t, rs)
				if t.P(30) {
					s = renderAny(t, rs)
				}
				passes(t, s)
			}},
			{Name: "mentions", Quick: 5000, Thorough: 100000, Run: func(t *T) {
				o := &gopt{plainText: true, maxSteps: 2}
				rs := o.resources(t, 2)
				s := render(t, rs)
				lines := []string{"  pipeline:\n    x:", " pipeline:", "# pipeline:", "#pipeline:", "- pipeline:", "x-pipeline:", "pipelines:", "pipeline-x:", "pipelinex: {}", "kind: pipeline", "name: \"pipeline:\"", "'pipeline': x", "\tpipeline:"}
				var add string
				switch t.IntN(6) {
				case 0:
					add = "description: |\n  pipeline:\n    build:\n      image: golang\n"
				case 1:
					add = "x-note: >-\n " + t.Pick("pipeline:", "pipeline: ", " pipeline:") + "\n\n pipeline:\n"
				case 2:
					add = "x-old:\n  pipeline:\n    build: {image: golang}\n"
				case 3:
					add = "x-list:\n- pipeline:\n- \"pipeline:\"\n"
				case 4:
					add = "x-q: \"a\\npipeline:\\n\"\n"
				default:
					add = lines[t.IntN(6)] + "\n"
					if strings.HasPrefix(add, " ") {
						add = "x-nest:\n" + add
					}
					if strings.HasPrefix(add, "-") {
						add = "x-seq:\n" + add
					}
				}
				if t.Bool() {
					s = add + s
					if !strings.HasPrefix(add, "#") && strings.Contains(s, "\n---") || strings.HasPrefix(s, add+"---") {
						s = add + strings.TrimPrefix(s[len(add):], "---\n")
					}
				} else {
					s += add
				}
				if t.P(15) {
					s = strings.Replace(s, "\n", "\r\n", -1)
				}
				t.Obs("mentions", 1)
				passes(t, s)
				t.NonTrivial(s)
			}},
			{Name: "bytes", Quick: 8000, Thorough: 300000, Run: func(t *T) {
				n := t.IntN(200)
				if t.P(3) {
					n = t.IntN(200000)
				}
				b := make([]byte, n)
				for i := range b {
					switch t.IntN(3) {
					case 0:
						b[i] = byte(t.IntN(256))
					default:
						b[i] = oddBytes[t.IntN(len(oddBytes))]
					}
				}
				s := string(b)
				for i := 0; i < 3 && t.P(40); i++ {
					at := t.IntN(len(s) + 1)
					s = s[:at] + t.Pick(" pipeline:", "x pipeline:", "#pipeline:", "pipeline", ".pipeline:\n", "\x00pipeline:") + s[at:]
				}
				if mentionsPipeline(s) {
					t.Skip("a line starts with a pipeline section")
				}
				t.Obs("arbitrary bytes", 1)
				passes(t, s)
				if strings.Contains(s, "pipeline") {
					t.NonTrivial(s)
				}
			}},
			{Name: "recognised", Quick: 2000, Thorough: 40000, Run: func(t *T) {
				g := &oldOpt{o: &gopt{plainText: true}}
				c := g.config(t)
				s := oldText(t, c, false)
				if t.P(30) {
					s = strings.Replace(s, "\n", "\r\n", -1)
				}
				for _, k := range []string{"pipeline:", "\"pipeline\":", "'pipeline':"} {
					if i := strings.Index(s, k+"\n"); i == 0 || i > 0 && s[i-1] == '\n' {
						s = s[:i] + t.Pick(k, k+" ", k+"  \t", k+" # the steps", k+" &all", k+" !!map") + s[i+len(k):]
						break
					}
				}
				t.Input("config", s)
				name := ownNames[t.IntN(len(ownNames))]
				t.Input("name", name)
				out := mustConvert(t, s, converter.Metadata{Filename: name})
				if out == s {
					t.Fail("a pre-1.0 configuration is not recognised under the name %q", name)
				}
				ps, _ := converted(t, out)
				if len(ps) == 0 {
					t.Fail("the converted configuration has no pipeline")
				}
				t.Obs("recognised", 1)
				// converting the result once more
				again := mustConvert(t, out, converter.Metadata{Filename: name})
				if again != out {
					t.Fail("converting the converted configuration changes it: %s", canonDiff(out, again))
				}
				t.Obs("converted again", 1)
				t.NonTrivial(s)
			}},
			{Name: "formats", Quick: 2000, Thorough: 40000, Run: func(t *T) {
				// a foreign file is converted by its name alone; the result
				// is in the current format, whatever the texts in it
				var s, name string
				if t.Bool() {
					c := glGen(t)
					c.others["variables"] = mapN().set("x", str("pipeline:\npipeline:"))
					s, name = c.text(t), ".gitlab-ci.yml"
				} else {
					s, name = bbGen(t).text(t), "bitbucket-pipelines.yml"
				}
				t.Input("config", s)
				m := converter.Metadata{Filename: name, Ref: "refs/heads/master"}
				out := mustConvert(t, s, m)
				if s2, err := converter.ConvertString(s, m); err != nil || s2 != out {
					t.Fail("the string variant gives another result: %v %s", err, canonDiff(out, s2))
				}
				t.Obs("string variant", 1)
				converted(t, out)
				again := mustConvert(t, out, converter.Metadata{Filename: ".drone.yml"})
				if again != out {
					t.Fail("converting the converted configuration changes it: %s", canonDiff(out, again))
				}
				t.Obs("converted again", 1)
				t.NonTrivial(s)
			}},
		},
	})
}

func inSections(l []*bbSection, s *bbSection) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func sortContainers(l []*yaml.Container) {
	for i := range l {
		for j := i; j > 0 && l[j].Name < l[j-1].Name; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// mentionsPipeline: some line might begin a pipeline section.
func mentionsPipeline(s string) bool {
	for _, l := range strings.FieldsFunc(s, func(r rune) bool { return r == '\n' || r == '\r' }) {
		l = strings.TrimLeft(l, "\ufeff\"'")
		if strings.HasPrefix(l, "pipeline") {
			return true
		}
	}
	return false
}

// passes checks that a text comes back as it is, under every own name.
func passes(t *T, s string) {
	if t.P(10) {
		s = t.Pick("\ufeff", "\n", " \n", "\n\n---\n", "# first\n", "%YAML 1.1\n---\n", "\x00", "\xff\xfe") + s
	}
	switch t.IntN(12) {
	case 0:
		s = strings.TrimRight(s, "\r\n")
	case 1:
		s += t.Pick("\n", " ", "\n\n\n", "\t\n", "...\n", "---\n", "\x00", "\r", "\x1a")
	}
	t.Input("config", s)
	if mentionsPipeline(s) {
		t.Skip("a line starts with a pipeline section")
	}
	for i := 0; i < 3; i++ {
		m := converter.Metadata{Filename: ownNames[t.IntN(len(ownNames))], URL: remotes[t.IntN(len(remotes))], Ref: t.Pick("", "refs/heads/master", "refs/tags/v1")}
		in := []byte(s)
		out, err := converter.Convert(in, m)
		if err != nil {
			t.Fail("under the name %q: %v", m.Filename, err)
		}
		if string(out) != s {
			t.Fail("under the name %q the file is changed: %s", m.Filename, canonDiff(s, string(out)))
		}
		if string(in) != s {
			t.Fail("the input is changed")
		}
		s2, err := converter.ConvertString(s, m)
		if err != nil || s2 != s {
			t.Fail("under the name %q the string variant changes the file (%v): %s", m.Filename, err, canonDiff(s, s2))
		}
		t.Obs("passed through", 1)
	}
}
