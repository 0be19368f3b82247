package main

import (
	"fmt"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/linter"
)

// ---- reference rules ----

var reservedVolumes = []string{"workspace", "_workspace", "_docker_socket"}

func reserved(s string) bool {
	return s == "workspace" || s == "_workspace" || s == "_docker_socket"
}

func eachContainer(p *yaml.Pipeline, f func(kind string, i int, c *yaml.Container)) {
	for i, c := range p.Steps {
		f("step", i, c)
	}
	for i, c := range p.Services {
		f("service", i, c)
	}
}

// privilegedUse lists what an untrusted repository must not ask for.
func privilegedUse(p *yaml.Pipeline) (uses []string) {
	add := func(yes bool, format string, args ...interface{}) {
		if yes {
			uses = append(uses, fmt.Sprintf(format, args...))
		}
	}
	eachContainer(p, func(kind string, i int, c *yaml.Container) {
		if c == nil {
			return
		}
		add(c.Privileged, "%s %d: privileged", kind, i)
		add(len(c.Devices) != 0, "%s %d: devices", kind, i)
		add(len(c.DNS) != 0, "%s %d: dns", kind, i)
		add(len(c.DNSSearch) != 0, "%s %d: dns search", kind, i)
		add(len(c.ExtraHosts) != 0, "%s %d: extra hosts", kind, i)
		add(c.Network != "", "%s %d: network mode", kind, i)
		for j, port := range c.Ports {
			add(port != nil && port.Host != 0, "%s %d: host port %d", kind, i, j)
		}
	})
	for i, v := range p.Volumes {
		if v == nil {
			continue
		}
		add(v.HostPath != nil, "volume %d: host path", i)
		add(v.EmptyDir != nil && v.EmptyDir.Medium == "memory", "volume %d: in memory", i)
	}
	return uses
}

// reservedUse lists uses of reserved volume names.
func reservedUse(p *yaml.Pipeline) (uses []string) {
	for i, v := range p.Volumes {
		if v != nil && reserved(v.Name) {
			uses = append(uses, fmt.Sprintf("volume %d: %s", i, v.Name))
		}
	}
	eachContainer(p, func(kind string, i int, c *yaml.Container) {
		if c == nil {
			return
		}
		for j, m := range c.Volumes {
			if m != nil && reserved(m.Name) {
				uses = append(uses, fmt.Sprintf("%s %d: mount %d: %s", kind, i, j, m.Name))
			}
		}
	})
	return uses
}

func oneOf(s string, l ...string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

// faultsOf lists what makes a pipeline no well-formed graph of steps.
func faultsOf(p *yaml.Pipeline) (faults []string) {
	add := func(format string, args ...interface{}) { faults = append(faults, fmt.Sprintf(format, args...)) }
	if !oneOf(p.Platform.OS, "", "linux", "windows") {
		add("os %q", p.Platform.OS)
	}
	if !oneOf(p.Platform.Arch, "", "arm", "arm64", "amd64", "ppc64le", "s390x") {
		add("arch %q", p.Platform.Arch)
	}
	seen := map[string]bool{}
	if !p.Clone.Disable {
		seen["clone"] = true
	}
	eachContainer(p, func(kind string, i int, c *yaml.Container) {
		if c == nil {
			add("%s %d: null", kind, i)
			return
		}
		if c.Name == "" {
			add("%s %d: no name", kind, i)
		}
		if c.Build == nil && c.Image == "" {
			add("%s %d: no image", kind, i)
		}
		if c.Build != nil && c.Build.Image == "" {
			add("%s %d: no build image", kind, i)
		}
		if seen[c.Name] {
			add("%s %d: name %q not unique", kind, i, c.Name)
		}
		for _, d := range c.DependsOn {
			if !seen[d] || d == c.Name {
				add("%s %d: depends on %q", kind, i, d)
			}
		}
		seen[c.Name] = true
	})
	return faults
}

// graphSound is a second opinion on an accepted pipeline: a topological
// sort of the declared graph must succeed.
func graphSound(p *yaml.Pipeline) string {
	deps := map[string][]string{}
	var order []string
	if !p.Clone.Disable {
		deps["clone"] = nil
		order = append(order, "clone")
	}
	bad := ""
	eachContainer(p, func(kind string, i int, c *yaml.Container) {
		if _, dup := deps[c.Name]; dup {
			bad = "two steps are called " + c.Name
		}
		deps[c.Name] = c.DependsOn
		order = append(order, c.Name)
	})
	if bad != "" {
		return bad
	}
	return topo(order, deps)
}

func topo(order []string, deps map[string][]string) string {
	done := map[string]bool{}
	for len(done) < len(order) {
		progress := false
		for _, n := range order {
			if done[n] {
				continue
			}
			ready := true
			for _, d := range deps[n] {
				if _, ok := deps[d]; !ok {
					return fmt.Sprintf("%q depends on %q, which does not exist", n, d)
				}
				if !done[d] {
					ready = false
				}
			}
			if ready {
				done[n] = true
				progress = true
			}
		}
		if !progress {
			return "the graph has a cycle"
		}
	}
	return ""
}

func describe(p *yaml.Pipeline) string { return renderCanonical([]yaml.Resource{p}) }

// viaText sends a pipeline through its text, as a user's would be.
func viaText(t *T, p *yaml.Pipeline) *yaml.Pipeline {
	s := render(t, []yaml.Resource{p})
	t.Input("text", s)
	m := parse(t, s)
	if len(m.Resources) != 1 {
		t.Skip("misparsed (C01)")
	}
	q, ok := m.Resources[0].(*yaml.Pipeline)
	if !ok || !same(p, q) {
		t.Skip("misparsed (C02)")
	}
	return q
}

// wellFormed makes a pipeline every repository may use.
func wellFormed(t *T, max int) *yaml.Pipeline {
	o := &gopt{lintable: true, maxSteps: max, plainText: t.P(50)}
	p := o.pipeline(t)
	for _, v := range p.Volumes {
		if v.EmptyDir != nil && strings.EqualFold(v.EmptyDir.Medium, "memory") {
			v.EmptyDir.Medium = ""
		}
	}
	for i, c := range p.Services {
		if n := len(p.Steps); n > 0 && t.P(20) {
			c.DependsOn = append(c.DependsOn, p.Steps[t.IntN(n)].Name)
		} else if i > 0 && t.P(20) {
			c.DependsOn = append(c.DependsOn, p.Services[t.IntN(i)].Name)
		} else if !p.Clone.Disable && t.P(10) {
			c.DependsOn = append(c.DependsOn, "clone")
		}
	}
	if t.P(4) && p.Clone.Disable && len(p.Steps) > 0 {
		c := p.Steps[len(p.Steps)-1]
		c.Name = "clone"
		fixDeps(p)
	}
	return p
}

// fixDeps removes dependencies that name nothing earlier.
func fixDeps(p *yaml.Pipeline) {
	seen := map[string]bool{"clone": !p.Clone.Disable}
	eachContainer(p, func(kind string, i int, c *yaml.Container) {
		var keep []string
		for _, d := range c.DependsOn {
			if seen[d] {
				keep = append(keep, d)
			}
		}
		c.DependsOn = keep
		seen[c.Name] = true
	})
}

var privilegedKinds = []string{"privileged", "devices", "dns", "dns_search", "extra_hosts", "network", "port", "hostpath", "memory"}

// usePrivileged makes p use a privileged feature somewhere.
func usePrivileged(t *T, p *yaml.Pipeline, what string) {
	o := &gopt{plainText: t.P(70)}
	if what == "hostpath" || what == "memory" {
		v := &yaml.Volume{Name: o.volume(t)}
		if what == "hostpath" {
			v.HostPath = &yaml.VolumeHostPath{Path: t.Pick("/", "/var/run/docker.sock", "/tmp", "", "C:\\", o.s(t))}
			if t.P(10) {
				v.EmptyDir = &yaml.VolumeEmptyDir{}
			}
		} else {
			v.EmptyDir = &yaml.VolumeEmptyDir{Medium: "memory", SizeLimit: o.size(t)}
		}
		i := t.IntN(len(p.Volumes) + 1)
		p.Volumes = append(p.Volumes[:i:i], append([]*yaml.Volume{v}, p.Volumes[i:]...)...)
		return
	}
	n := len(p.Steps) + len(p.Services)
	if n == 0 {
		p.Steps = append(p.Steps, o.container(t, "only"))
		p.Steps[0].Build = nil
		p.Steps[0].Image = "golang"
		n = 1
	}
	i := t.IntN(n)
	var c *yaml.Container
	if i < len(p.Steps) {
		c = p.Steps[i]
	} else {
		c = p.Services[i-len(p.Steps)]
	}
	switch what {
	case "privileged":
		c.Privileged = true
	case "devices":
		c.Devices = []*yaml.VolumeDevice{{Name: o.s(t), DevicePath: "/dev/" + t.word()}}
		if t.P(10) {
			c.Devices[0].DevicePath = ""
		}
	case "dns":
		c.DNS = []string{t.Pick("8.8.8.8", "1.1.1.1", o.s(t))}
	case "dns_search":
		c.DNSSearch = []string{o.s(t)}
	case "extra_hosts":
		c.ExtraHosts = []string{t.Pick("a:1.2.3.4", "localhost:10.0.0.1", o.s(t))}
	case "network":
		c.Network = t.Pick("host", "bridge", "none", "container:x", "default", o.s(t))
	case "port":
		port := &yaml.Port{Port: t.Range(1, 65535), Host: t.Range(1, 65535)}
		if t.P(20) {
			port.Host = t.Range(1, 3)
		}
		if t.P(20) {
			port.Host = port.Port
		}
		if t.P(30) {
			port.Protocol = t.Pick("udp", "tcp")
		}
		i := t.IntN(len(c.Ports) + 1)
		c.Ports = append(c.Ports[:i:i], append([]*yaml.Port{port}, c.Ports[i:]...)...)
	}
}

func useReserved(t *T, p *yaml.Pipeline) {
	name := t.Pick(reservedVolumes...)
	n := len(p.Steps) + len(p.Services)
	if n == 0 || t.P(35) {
		v := &yaml.Volume{Name: name}
		if t.P(60) {
			v.EmptyDir = &yaml.VolumeEmptyDir{}
		}
		i := t.IntN(len(p.Volumes) + 1)
		p.Volumes = append(p.Volumes[:i:i], append([]*yaml.Volume{v}, p.Volumes[i:]...)...)
		return
	}
	k := t.IntN(n)
	eachContainer(p, func(kind string, i int, c *yaml.Container) {
		if kind == "service" {
			i += len(p.Steps)
		}
		if i == k {
			m := &yaml.VolumeMount{Name: name, MountPath: t.Pick("/x", "", "/drone")}
			j := t.IntN(len(c.Volumes) + 1)
			c.Volumes = append(c.Volumes[:j:j], append([]*yaml.VolumeMount{m}, c.Volumes[j:]...)...)
		}
	})
}

var structuralKinds = []string{"noname", "dup", "clonename", "noimage", "nobuildimage", "os", "arch", "later", "self", "unknown", "ondisabled", "null", "ok"}

// disturb changes the structure of a pipeline, not necessarily for worse.
func disturb(t *T, p *yaml.Pipeline) string {
	kind := structuralKinds[t.IntN(len(structuralKinds))]
	var all []*yaml.Container
	all = append(append(all, p.Steps...), p.Services...)
	if len(all) == 0 && kind != "os" && kind != "arch" {
		kind = t.Pick("os", "arch")
	}
	pick := func() *yaml.Container {
		for {
			if c := all[t.IntN(len(all))]; c != nil {
				return c
			}
		}
	}
	if len(all) > 0 {
		ok := false
		for _, c := range all {
			ok = ok || c != nil
		}
		if !ok {
			return "ok"
		}
	}
	dep := func(c *yaml.Container, d string) {
		i := t.IntN(len(c.DependsOn) + 1)
		c.DependsOn = append(c.DependsOn[:i:i], append([]string{d}, c.DependsOn[i:]...)...)
	}
	switch kind {
	case "noname":
		pick().Name = ""
	case "dup":
		pick().Name = pick().Name
	case "clonename":
		pick().Name = t.Pick("clone", "clone", "Clone", "clone ")
	case "noimage":
		c := pick()
		c.Image = ""
	case "nobuildimage":
		c := pick()
		c.Build = &yaml.Build{Context: "."}
		c.Image = t.Pick("", "golang")
	case "os":
		p.Platform.OS = t.Pick("darwin", "Linux", "linux ", "freebsd", "solaris", "WINDOWS", "any", "linux", "windows", "lin", "amd64")
	case "arch":
		p.Platform.Arch = t.Pick("386", "AMD64", "arm64 ", "arm/v7", "x86_64", "aarch64", "mips", "riscv64", "arm", "arm64", "amd64", "ppc64le", "s390x", "ppc64", "linux")
	case "later":
		c := pick()
		for i, x := range all {
			if x == c && i+1 < len(all) {
				if d := all[i+1+t.IntN(len(all)-i-1)]; d != nil {
					dep(c, d.Name)
				}
			}
		}
	case "self":
		c := pick()
		dep(c, c.Name)
	case "unknown":
		c := pick()
		dep(c, t.Pick("nothing", "", "clone ", "CLONE", strings.ToUpper(pick().Name), pick().Name+"x", pick().Image))
	case "ondisabled":
		p.Clone.Disable = t.P(70)
		dep(pick(), "clone")
	case "null":
		if i := t.IntN(len(all)); i < len(p.Steps) {
			p.Steps[i] = nil
		} else {
			p.Services[i-len(p.Steps)] = nil
		}
	}
	return kind
}

func init() {
	register(&Prop{
		ID: "C06",
		Rule: "well-formed pipelines with privileged features and reserved volume names put into random places, most sent through their text, linted as untrusted and as trusted and compared with a reference reading of the rules; " +
			"the grid section puts each feature into each position of pipelines of up to 4 steps and 2 services; non-trivial when a feature or reserved name is used",
		Need: []string{"accepted untrusted", "accepted trusted only", "rejected reserved", "uses", "grid"},
		Sections: []Section{
			{Name: "random", Quick: 40000, Thorough: 1200000, Run: func(t *T) {
				p := wellFormed(t, 5)
				if t.P(70) {
					for i, n := 0, t.Range(1, 2); i < n; i++ {
						usePrivileged(t, p, privilegedKinds[t.IntN(len(privilegedKinds))])
					}
				}
				if t.P(15) {
					useReserved(t, p)
				}
				if t.P(60) {
					p = viaText(t, p)
				} else {
					t.Input("pipeline", describe(p))
				}
				checkTrust(t, p)
			}},
			{Name: "grid", Quick: len(privilegedKinds) * 6 * 3, Thorough: len(privilegedKinds) * 6 * 3, Run: func(t *T) {
				kind := privilegedKinds[t.idx%len(privilegedKinds)]
				pos := t.idx / len(privilegedKinds) % 6
				style := t.idx / len(privilegedKinds) / 6
				p := &yaml.Pipeline{Kind: "pipeline", Name: "x"}
				if style == 1 {
					p.Type = "docker"
				}
				for i := 0; i < 4; i++ {
					c := &yaml.Container{Name: fmt.Sprint("s", i), Image: "golang", Commands: []string{"go test"}, Detach: style == 2}
					p.Steps = append(p.Steps, c)
				}
				for i := 0; i < 2; i++ {
					p.Services = append(p.Services, &yaml.Container{Name: fmt.Sprint("v", i), Image: "redis"})
				}
				for i := 0; i < 3; i++ {
					p.Volumes = append(p.Volumes, &yaml.Volume{Name: fmt.Sprint("vol", i), EmptyDir: &yaml.VolumeEmptyDir{}})
				}
				q := &yaml.Pipeline{}
				var c *yaml.Container
				if pos < 4 {
					c = p.Steps[pos]
					q.Steps = []*yaml.Container{c}
				} else {
					c = p.Services[pos-4]
					q.Services = []*yaml.Container{c}
				}
				if style == 2 && pos < 4 {
					c.Build, c.Image = &yaml.Build{Image: "a/b"}, ""
				}
				if kind == "hostpath" || kind == "memory" {
					v := p.Volumes[pos%3]
					if kind == "memory" {
						v.EmptyDir.Medium = "memory"
					} else {
						v.EmptyDir, v.HostPath = nil, &yaml.VolumeHostPath{Path: "/tmp"}
					}
				} else {
					usePrivileged(t, q, kind)
				}
				p = viaText(t, p)
				if len(privilegedUse(p)) != 1 {
					t.Broken("the grid has %v", privilegedUse(p))
				}
				checkTrust(t, p)
				t.Obs("grid", 1)
				// the same with each reserved name in this position
				for _, name := range reservedVolumes {
					for _, trusted := range []bool{true, false} {
						r := viaText(t, p)
						eachContainer(r, func(k string, i int, c *yaml.Container) {
							if k == "service" {
								i += 4
							}
							if i == pos {
								c.Volumes = append(c.Volumes, &yaml.VolumeMount{Name: name, MountPath: "/m"})
							}
						})
						if linter.Lint(r, trusted) == nil {
							t.Fail("a mount of %s is accepted (trusted %v)", name, trusted)
						}
						r = viaText(t, p)
						r.Volumes[pos%3].Name = name
						if linter.Lint(r, trusted) == nil {
							t.Fail("a volume called %s is accepted (trusted %v)", name, trusted)
						}
					}
				}
			}},
		},
	})

	register(&Prop{
		ID: "C07",
		Rule: "well-formed pipelines disturbed in up to two places (names, images, platform, dependencies, null entries), most sent through their text, linted and compared with a reference reading of the rules plus a topological sort of every accepted graph; " +
			"secrets, crons, registries and signatures with any subset of their data; non-trivial when disturbed or with dependencies",
		Need: []string{"accepted", "rejected", "graphs", "dependencies", "other accepted", "other rejected"},
		Sections: []Section{
			{Name: "graph", Quick: 40000, Thorough: 1200000, Run: func(t *T) {
				p := wellFormed(t, 5)
				var what []string
				if t.P(75) {
					for i, n := 0, t.Range(1, 2); i < n; i++ {
						what = append(what, disturb(t, p))
					}
				}
				null := false
				eachContainer(p, func(k string, i int, c *yaml.Container) { null = null || c == nil })
				if !null && t.P(60) {
					p = viaText(t, p)
				} else if !null {
					t.Input("pipeline", describe(p))
				} else {
					t.Input("pipeline with null entries", fmt.Sprintf("%d steps, %d services", len(p.Steps), len(p.Services)))
				}
				faults := faultsOf(p)
				trusted := t.Bool()
				err := linter.Lint(p, trusted)
				if len(faults) > 0 && err == nil {
					t.Fail("the linter accepts a malformed pipeline: %v", faults)
				}
				if len(faults) == 0 && err != nil {
					t.Fail("the linter rejects a well-formed pipeline: %v", err)
				}
				if err == nil {
					t.Obs("accepted", 1)
					if bad := graphSound(p); bad != "" {
						t.Fail("the linter accepts a graph that cannot run: %s", bad)
					}
					t.Obs("graphs", 1)
				} else {
					t.Obs("rejected", 1)
					for _, f := range faults {
						t.Seen("faults", f)
					}
				}
				n := 0
				if !null {
					eachContainer(p, func(k string, i int, c *yaml.Container) { n += len(c.DependsOn) })
				}
				t.Obs("dependencies", n)
				if len(what) > 0 || n > 0 {
					t.NonTrivial(fmt.Sprint(what, faults, describeNames(p)))
				}
			}},
			{Name: "graphs", Quick: 30000, Thorough: 600000, Run: func(t *T) {
				// dense dependency graphs over few names
				p := &yaml.Pipeline{Kind: "pipeline", Name: "x", Clone: yaml.Clone{Disable: t.P(40)}}
				names := []string{"a", "b", "c", "d", "e", "clone"}
				t.Shuffle(5, func(i, j int) { names[i], names[j] = names[j], names[i] })
				for i, n := 0, t.Range(1, 5); i < n; i++ {
					c := &yaml.Container{Name: names[i], Image: "x"}
					if t.P(4) {
						c.Name = names[t.IntN(6)]
					}
					for j := 0; j < 2 && t.P(55); j++ {
						if t.P(92) && i > 0 {
							c.DependsOn = append(c.DependsOn, names[t.IntN(i)])
						} else {
							c.DependsOn = append(c.DependsOn, names[t.IntN(6)])
						}
					}
					if len(p.Services) > 0 || t.P(20) {
						p.Services = append(p.Services, c)
					} else {
						p.Steps = append(p.Steps, c)
					}
				}
				t.Input("pipeline", describe(p))
				faults := faultsOf(p)
				err := linter.Lint(p, t.Bool())
				if len(faults) > 0 && err == nil {
					t.Fail("the linter accepts a malformed pipeline: %v", faults)
				}
				if len(faults) == 0 && err != nil {
					t.Fail("the linter rejects a well-formed pipeline: %v", err)
				}
				if err == nil {
					if bad := graphSound(p); bad != "" {
						t.Fail("the linter accepts a graph that cannot run: %s", bad)
					}
					t.Obs("graphs", 1)
				}
				t.Seen("graphs", describeNames(p))
				t.NonTrivial(describeNames(p))
			}},
			{Name: "others", Quick: 4000, Thorough: 60000, Run: func(t *T) {
				o := &gopt{}
				var r yaml.Resource
				var ok bool
				switch t.IntN(4) {
				case 0:
					v := &yaml.Secret{Kind: "secret", Type: o.maybe(t, 20), Name: o.maybe(t, 50), Data: o.maybe(t, 35),
						Get: yaml.SecretGet{Path: o.maybe(t, 35), Name: o.maybe(t, 35), Key: o.maybe(t, 35)}}
					r, ok = v, v.Data != "" || v.Get.Path != "" || v.Get.Name != ""
				case 1:
					v := o.cron(t)
					v.Spec.Branch = o.maybe(t, 50)
					r, ok = v, v.Spec.Branch != ""
				case 2:
					v := o.registry(t)
					v.Data = o.strmap(t, 50, 3)
					r, ok = v, len(v.Data) > 0
				case 3:
					v := o.signature(t)
					if t.Bool() {
						v.Hmac = ""
					}
					r, ok = v, v.Hmac != ""
				}
				s := renderAny(t, []yaml.Resource{r})
				t.Input("text", s)
				m := parse(t, s)
				if len(m.Resources) != 1 || !same(m.Resources[0], r) {
					t.Skip("misparsed (C02)")
				}
				for _, trusted := range []bool{false, true} {
					err := linter.Lint(m.Resources[0], trusted)
					if ok && err != nil {
						t.Fail("a complete %s is rejected (trusted %v): %v", r.GetKind(), trusted, err)
					}
					if !ok && err == nil {
						t.Fail("a %s without its mandatory data is accepted (trusted %v)", r.GetKind(), trusted)
					}
				}
				if ok {
					t.Obs("other accepted", 1)
				} else {
					t.Obs("other rejected", 1)
				}
				t.NonTrivial(s)
			}},
		},
	})

	register(&Prop{
		ID: "C08",
		Rule: "manifests of up to 7 resources with small overlapping pipeline names, dependencies, platforms, kinds and types, parsed from their text, linted with and without trust and compared with a reference reading of the rules plus a topological sort of every accepted graph; " +
			"non-trivial with a dependency or a platform",
		Need: []string{"accepted", "rejected duplicate", "rejected dependency", "rejected platform", "platform ignored", "dependencies"},
		Sections: []Section{
			{Name: "manifest", Quick: 25000, Thorough: 700000, Run: func(t *T) {
				o := &gopt{plainText: true, lintable: true, maxSteps: 1}
				var rs []yaml.Resource
				names := []string{"a", "b", "c", "d", "e", "f", "g", "", "clone"}
				t.Shuffle(7, func(i, j int) { names[i], names[j] = names[j], names[i] })
				dup := t.P(25)
				var used []string
				for i, n := 0, t.Range(1, 7); i < n; i++ {
					if t.P(20) {
						switch t.IntN(4) {
						case 0:
							rs = append(rs, o.cron(t))
						case 1:
							rs = append(rs, o.secret(t))
						case 2:
							rs = append(rs, o.registry(t))
						case 3:
							rs = append(rs, o.signature(t))
						}
						switch v := rs[len(rs)-1].(type) { // names of other kinds are no pipeline names
						case *yaml.Cron:
							v.Name = names[t.IntN(7)]
						case *yaml.Secret:
							v.Name = names[t.IntN(7)]
						}
						continue
					}
					p := &yaml.Pipeline{Kind: "pipeline", Name: names[i]}
					if t.P(10) {
						p = o.pipeline(t)
						p.Name, p.DependsOn, p.Type = names[i], nil, ""
					}
					if dup && t.P(30) {
						p.Name = names[t.IntN(len(names))]
					} else if t.P(3) {
						p.Name = ""
					}
					if t.P(45) {
						p.Type = t.Pick("docker", "docker", "exec", "kubernetes", "ssh", "macstadium", "Docker")
					}
					if t.P(6) {
						p.Kind = t.Pick("custom", "template", "Pipeline")
						p.Name = fmt.Sprint("other-", i)
						p.DependsOn = nil
					} else if t.P(50) {
						for j, m := 0, t.Range(1, 3); j < m; j++ {
							if len(used) > 0 && t.P(85) {
								p.DependsOn = append(p.DependsOn, used[t.IntN(len(used))])
							} else if t.P(40) {
								p.DependsOn = append(p.DependsOn, names[t.IntN(len(names))])
							}
						}
					}
					if t.P(40) {
						p.Platform.OS = t.Pick("linux", "windows", "linux", "darwin", "Linux", "freebsd", "")
						p.Platform.Arch = t.Pick("amd64", "arm64", "arm", "ppc64le", "s390x", "amd64", "386", "ARM", "x86_64", "")
						if t.P(60) { // supported
							p.Platform.OS = t.Pick("linux", "windows", "")
							p.Platform.Arch = t.Pick("amd64", "arm64", "arm", "ppc64le", "s390x", "")
						}
					}
					if p.Kind == "pipeline" {
						used = append(used, p.Name)
					}
					rs = append(rs, p)
				}
				var faults []string
				seen := map[string]bool{}
				deps := map[string][]string{}
				var order []string
				ndeps := 0
				for i, r := range rs {
					p, ok := r.(*yaml.Pipeline)
					if !ok {
						continue
					}
					if seen[p.Name] {
						faults = append(faults, fmt.Sprintf("duplicate: %d %q", i, p.Name))
					}
					for _, d := range p.DependsOn {
						ndeps++
						if !seen[d] || d == p.Name {
							faults = append(faults, fmt.Sprintf("dependency: %d %q", i, d))
						}
					}
					seen[p.Name] = true
					deps[p.Name] = p.DependsOn
					order = append(order, p.Name)
					if !oneOf(p.Platform.OS, "", "linux", "windows") || !oneOf(p.Platform.Arch, "", "arm", "arm64", "amd64", "ppc64le", "s390x") {
						if p.Kind == "pipeline" && oneOf(p.Type, "", "docker") {
							faults = append(faults, fmt.Sprintf("platform: %d %v", i, p.Platform))
						} else {
							t.Obs("platform ignored", 1)
						}
					}
				}
				m := manifestOf(rs)
				s := renderAny(t, rs)
				t.Input("text", s)
				if t.P(70) {
					m = parse(t, s)
					if resCanon(m, canonOpt{}) != resCanon(manifestOf(rs), canonOpt{}) {
						t.Skip("misparsed (C02)")
					}
				} else {
					// what names no kind, as JSON allows, is a pipeline
					for _, r := range rs {
						if p, ok := r.(*yaml.Pipeline); ok && p.Kind == "pipeline" && t.P(25) {
							p.Kind = ""
							t.Obs("no kind", 1)
						}
					}
				}
				for _, trusted := range []bool{false, true} {
					err := linter.Manifest(m, trusted)
					if len(faults) > 0 && err == nil {
						t.Fail("the linter accepts the manifest (trusted %v): %v", trusted, faults)
					}
					if len(faults) == 0 && err != nil {
						t.Fail("the linter rejects the manifest (trusted %v): %v", trusted, err)
					}
					if err == nil {
						if bad := topo(order, deps); bad != "" {
							t.Fail("the linter accepts a graph of pipelines that cannot run: %s", bad)
						}
					}
				}
				t.Obs("dependencies", ndeps)
				if len(faults) == 0 {
					t.Obs("accepted", 1)
				}
				if len(faults) == 1 {
					t.Obs("rejected "+strings.SplitN(faults[0], ":", 2)[0], 1)
				}
				t.Seen("graphs", fmt.Sprint(order, deps))
				if ndeps > 0 || len(faults) > 0 {
					t.NonTrivial(s)
				}
			}},
		},
	})
}

func describeNames(p *yaml.Pipeline) string {
	var b strings.Builder
	fmt.Fprint(&b, p.Clone.Disable, p.Platform.OS, p.Platform.Arch)
	eachContainer(p, func(k string, i int, c *yaml.Container) {
		if c == nil {
			fmt.Fprint(&b, k, " null;")
			return
		}
		fmt.Fprint(&b, k, " ", c.Name, " ", c.DependsOn, ";")
	})
	return b.String()
}

func checkTrust(t *T, p *yaml.Pipeline) {
	if f := faultsOf(p); len(f) > 0 {
		t.Broken("generated pipeline is malformed: %v", f)
	}
	uses, res := privilegedUse(p), reservedUse(p)
	errU, errT := linter.Lint(p, false), linter.Lint(p, true)
	switch {
	case len(res) > 0:
		if errU == nil || errT == nil {
			t.Fail("a reserved volume name is accepted (untrusted: %v, trusted: %v): %v", errU, errT, res)
		}
		t.Obs("rejected reserved", 1)
	case len(uses) > 0:
		if errU == nil {
			t.Fail("an untrusted repository may use %v", uses)
		}
		if errT != nil {
			t.Fail("a trusted repository may not use %v: %v", uses, errT)
		}
		t.Obs("accepted trusted only", 1)
	default:
		if errU != nil || errT != nil {
			t.Fail("a pipeline that uses no privileged feature is rejected (untrusted: %v, trusted: %v)", errU, errT)
		}
		t.Obs("accepted untrusted", 1)
	}
	t.Obs("uses", len(uses))
	for _, u := range uses {
		t.Seen("uses", u)
	}
	if len(uses)+len(res) > 0 {
		t.NonTrivial(describe(p))
	}
}
