package main

import (
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/converter"
	"github.com/drone/drone-yaml/yaml/linter"
)

// distinct notes names and tells whether one occurs twice.
type distinct map[string]bool

func (d distinct) twice(names ...string) bool {
	for _, n := range names {
		if n == "" || d[n] {
			return true
		}
		d[n] = true
	}
	return false
}

// foreignUsable is a foreign configuration in which every container has an
// image and nothing has the name of something else.
func foreignUsable(t *T) (s, name, ref string) {
	ref = t.Pick("", "refs/heads/master", "refs/tags/v1.0", "refs/heads/feature/x", "refs/pull/1/head")
	switch t.IntN(3) {
	case 0:
		c := glGen(t)
		d := distinct{"clone": true}
		if c.image.name == "" {
			c.image.name = "golang"
		}
		for _, j := range c.jobs {
			if d.twice(j.name) {
				t.Skip("two containers of the same name")
			}
		}
		for i := range c.services {
			v := &c.services[i]
			if v.name == "" {
				v.name = "redis"
			}
			n := v.alias
			if n == "" { // called after the image
				n = strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(slug(v.name), "index."), "docker.io/"), "library/")
				n = strings.Replace(n, "/", "__", -1)
			}
			if d.twice(n) {
				t.Skip("two containers of the same name")
			}
		}
		return c.text(t), ".gitlab-ci.yml", ref
	case 1:
		c := bbGen(t)
		if c.image == "" {
			c.image = "golang"
		}
		d := distinct{"clone": true}
		for n, img := range c.services {
			if img == "" || d.twice(n) || strings.HasPrefix(n, "step_") {
				t.Skip("a service like a step")
			}
		}
		sections := append(append([]*bbSection{}, c.tags...), c.branches...)
		if c.def != nil {
			sections = append(sections, c.def)
		}
		for _, sec := range sections {
			steps := distinct{}
			for n := range d {
				steps[n] = true
			}
			for _, x := range sec.steps {
				if x.name != "" && steps.twice(x.name) {
					t.Skip("two containers of the same name")
				}
			}
		}
		return c.text(t), "bitbucket-pipelines.yml", ref
	}
	g := &oldOpt{o: &gopt{plainText: t.P(50)}}
	c := g.config(t)
	d := distinct{}
	for _, l := range [][]*oldContainer{c.services, c.clone, c.pipeline} {
		for _, x := range l {
			if x.image == "" {
				x.image = "golang"
			}
			if d.twice(x.name) || x.name == "clone" {
				t.Skip("two containers of the same name") // services are not renamed
			}
		}
	}
	if t.P(30) {
		c.matrix = true
		c.axes = []oldAxis{{"GO", []string{"1.10", "1.11", "tip"}[:t.Range(1, 3)]}, {"OS", []string{"linux", "darwin"}[:t.Range(1, 2)]}}
		for _, x := range c.pipeline {
			if t.P(20) {
				x.whenMatrix = map[string]string{"GO": t.Pick("1.10", "tip")}
			}
		}
		t.Obs("matrices", 1)
	}
	return oldText(t, c, t.P(30)), t.Pick(".drone.yml", ".drone.yml", "", "x.yml"), ref
}

func init() {
	register(&Prop{
		ID: "C30",
		Rule: "random pre-1.0 configurations (with and without a matrix), GitLab and Bitbucket configurations in which every container has an image and a name of its own are converted; the result is linted resource by resource and as a whole, formatted, compiled and executed by a model of the runtime, whose log is checked; " +
			"non-trivial with a step",
		Need:   []string{"from .gitlab-ci.yml", "from bitbucket-pipelines.yml", "from pre-1.0", "matrices", "executed", "starts"},
		Assume: []string{"a job, step or service without an image, or named like another one, cannot be converted to something the linter accepts", "a service without alias is called after its image", "the model of the runtime is that of C12"},
		Sections: []Section{
			{Name: "usable", Quick: 8000, Thorough: 300000, Run: func(t *T) {
				s, name, ref := foreignUsable(t)
				t.Input("config", s)
				out := mustConvert(t, s, converter.Metadata{Filename: name, Ref: ref, URL: remotes[t.IntN(len(remotes))]})
				if strings.HasSuffix(name, "pipelines.yml") || strings.HasPrefix(name, ".git") {
					t.Obs("from "+name, 1)
				} else {
					t.Obs("from pre-1.0", 1)
				}
				ps, ss := converted(t, out)
				if len(ps) == 0 {
					t.Fail("no pipeline is left of the configuration")
				}
				if f := formatted(t, out); f != out {
					t.Fail("the result is not formatted: %s", canonDiff(f, out))
				}
				m := parse(t, out)
				if err := linter.Manifest(m, true); err != nil {
					t.Fail("the linter refuses the converted configuration: %v", err)
				}
				for _, x := range ss {
					if err := linter.Lint(x, false); err != nil {
						t.Fail("the linter refuses the converted secret %q: %v", x.Name, err)
					}
				}
				for _, p := range ps {
					if err := linter.Lint(p, true); err != nil {
						t.Fail("the linter refuses the converted pipeline %q: %v", p.Name, err)
					}
					hosts := false
					for _, v := range p.Volumes {
						hosts = hosts || v.HostPath != nil
					}
					priv := false
					eachContainer(p, func(kind string, i int, c *yaml.Container) {
						priv = priv || c.Privileged || len(c.DNS)+len(c.DNSSearch)+len(c.ExtraHosts)+len(c.Devices) > 0 || c.Network != ""
						for _, port := range c.Ports {
							priv = priv || port.Host != 0
						}
					})
					if err := linter.Lint(p, false); (err == nil) == (hosts || priv) {
						t.Fail("the untrusted pipeline %q has privileged features: %v, the linter says: %v", p.Name, hosts || priv, err)
					}
					spec := compileWith(&compiler.Compiler{}, p)
					failPct := 0
					if t.P(30) {
						failPct = 30
					}
					log, stuck := runLog(t, spec, failPct)
					if stuck != "" {
						t.Fail("the compiled pipeline %q does not come to its end: %s", p.Name, stuck)
					}
					checkLog(t, p, spec, log, p.Name)
					t.Obs("executed", 1)
					if len(p.Steps) > 0 {
						t.NonTrivial(s)
					}
				}
			}},
		},
	})
}
