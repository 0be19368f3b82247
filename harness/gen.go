package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/drone/drone-yaml/yaml"
)

// ---- random strings ----

var words = []string{"build", "test", "deploy", "golang", "redis", "frontend", "backend", "go", "npm", "run", "lint",
	"cache", "publish", "octocat", "hello-world", "x86", "release", "a", "v1", "stage.2", "foo_bar", "Q"}

var hostileStrings = []string{
	"1", "0", "-1", "+1", "1.10", "1.0", "1e3", "1e+3", "0x1F", "0o17", "017", "0b101", "1_000", ".5", "5.", ".inf", "-.INF", ".nan", "12e03",
	"true", "false", "yes", "no", "on", "off", "y", "n", "True", "FALSE", "Null", "null", "~", "NULL", "=", "<<",
	"2019-01-01", "2001-12-14T21:59:43.10-05:00", "12:30:45", "190:20:30", "685_230.15",
	"- a", "-", "--", "---", "---x", "...", "...x", "- ", "? a", "?", "?x", ":", ": a", ":x", "a: b", "a:", "a :b", "a #b", "a# b", "#a", "# a",
	"&a", "& a", "*a", "* a", "!a", "! a", "!!str a", "|", "|-", ">", "> a", "%a", "@a", "`a`", "'a'", "\"a\"", "''", "\"",
	"[a]", "[", "]", "{a: b}", "{", "}", ",", ", a", "a, b", "a]b", "a}b",
	" a", "a ", "  ", " ", "\t", "a\tb", "\ta", "a\t", "a\nb", "a\n", "\na", "a\n\nb", "a\n  b\n c\n", "\n", "a\r\nb", "a\rb", "a\\", "a\\nb", "\\", "\\x41",
	"$HOME", "${FOO}", "$(date)", "`date`", "a$b", "%s %d %v %q", "%", "%!s(MISSING)", "100%",
	"/proc/self/cwd/x", "~/x", "./x", "/bin", "%USERPROFILE%", "${PWD}/x", "$0", "file:///etc/hosts",
	"héllo", "日本語", "Ω≈ç√", "😀 emoji", "\u00a0a", "a\u00a0", "a\u0085b", "a\u2028b", "a\u2029b", "\ufeffa", "a\ufeff", "\u200bzero", "\u007f", "\u0080", "\x1b[0m", "\x00", "\x07", "a\x01b", "\U0001f600", "\uffff", "\u3000", "\u3000a",
	"it's", "say \"hi\"", "a'b\"c", "key: 'v'", "a: 'b", "=a", "~a", "a~", "<a>", "\\\"", "%YAML 1.2", "null ", "nullx", "0 ", "a:\tb", "a\t#b", "a:b:c", "http://x.y/z?q=1#f", "a  b", "a   #b",
	"-a", "-1a", "- -", "--- a", "?a b", "!", "&", "*", "!!binary aGk=", "a&b", "a*b", "a!b", "a|b", "a>b", "a%b", "a@b",
}

// word is a harmless identifier.
func (t *T) word() string {
	if len(plainLits) > 0 && t.P(4) {
		return plainLits[t.IntN(len(plainLits))]
	}
	w := words[t.IntN(len(words))]
	switch t.IntN(5) {
	case 0:
		return w + "-" + strconv.Itoa(t.IntN(100))
	case 1:
		return w + "_" + words[t.IntN(len(words))]
	}
	return w
}

func (t *T) ident() string {
	return fmt.Sprintf("%s%d", t.word(), t.IntN(1000))
}

var fragments = []string{"a", "b", " ", "  ", "\n", ":", ": ", "#", " #", "-", "- ", "'", "\"", "\\", "{", "}", "[", "]", ",", "&", "*", "!", "|", ">", "%", "@", "`", "$", "0", "1", ".", "~", "é", "日", "\t", "=", "?", "? ", "<", "x", "true", "null", "\u0085", "\u2028", "\u00a0", "…", "\x1b", "\x7f", "\r"}

// anyString is any text a document can hold.
func (t *T) anyString() string {
	switch n := t.IntN(100); {
	case n < 4:
		return t.built()
	case n < 5:
		return t.long()
	case n < 5+t.litPct(2):
		return t.lit()
	}
	switch t.IntN(10) {
	case 0, 1, 2, 3:
		return t.word()
	case 4, 5, 6:
		return hostileStrings[t.IntN(len(hostileStrings))]
	case 7:
		return t.word() + " " + t.word() + " " + hostileStrings[t.IntN(len(hostileStrings))]
	case 8:
		var b strings.Builder
		for i, n := 0, t.Range(1, 8); i < n; i++ {
			b.WriteString(fragments[t.IntN(len(fragments))])
		}
		return b.String()
	}
	var b strings.Builder
	for i, n := 0, t.Range(1, 40); i < n; i++ {
		b.WriteString(t.word())
		b.WriteByte(' ')
	}
	return strings.TrimSpace(b.String())
}

// neString is any non-empty text that is not spelled like null (what a
// plain null denotes in a text attribute is not text).
func (t *T) neString() string {
	for {
		if s := t.anyString(); s != "" {
			return s
		}
	}
}

// gopt narrows what the generator makes.
type gopt struct {
	plainText bool // harmless texts only
	noSep     bool // no unicode line separators
	odd       bool // also what JSON cannot hold: NaN, non-string keys
	noEmpty   bool
	maxSteps  int
	lintable  bool // obeys the linter's rules for untrusted repositories
	noBuild   bool
}

// s never returns a text spelled like null: the YAML library does not call
// the unmarshalers of this repository for those, not even when quoted.
func (o *gopt) s(t *T) string {
	for {
		if s := o.any(t); s != "~" && s != "null" {
			return s
		}
	}
}

// any is a text for a place where the library reads it as one.
func (o *gopt) any(t *T) string {
	if o.plainText {
		return t.word()
	}
	for {
		s := t.neString()
		if !o.noSep || !strings.ContainsAny(s, "\u0085\u2028\u2029") {
			return s
		}
	}
}

// maybe returns a text or, more often, nothing.
func (o *gopt) maybe(t *T, pct int) string {
	if t.P(pct) {
		return o.s(t)
	}
	return ""
}

func (o *gopt) list(t *T, pct, max int) []string {
	if !t.P(pct) {
		return nil
	}
	var l []string
	for i, n := 0, t.count(max); i < n; i++ {
		if !o.plainText && t.P(4) {
			l = append(l, "")
			continue
		}
		l = append(l, o.any(t))
	}
	return l
}

func (o *gopt) strmap(t *T, pct, max int) map[string]string {
	if !t.P(pct) {
		return nil
	}
	m := map[string]string{}
	for i, n := 0, t.count(max); i < n; i++ {
		v := o.any(t)
		if !o.plainText && t.P(5) {
			v = ""
		}
		k := o.key(t)
		m[k] = v
		if t.P(12) {
			if k2 := otherCase(t, k); k2 != "" {
				m[k2] = o.any(t)
			}
		}
	}
	return m
}

// otherCase spells a text with one or all of its letters in another case.
func otherCase(t *T, k string) string {
	swap := func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z':
			return r - 32
		case r >= 'A' && r <= 'Z':
			return r + 32
		}
		return r
	}
	s := strings.Map(swap, k)
	if t.Bool() {
		b := []rune(k)
		if len(b) == 0 {
			return ""
		}
		i := t.IntN(len(b))
		b[i] = swap(b[i])
		s = string(b)
	}
	if s == k || s == "<<" {
		return ""
	}
	return s
}

// key is the key of a user-defined mapping.
func (o *gopt) key(t *T) string {
	if o.plainText || t.P(70) {
		return t.word()
	}
	for {
		k := o.any(t)
		if k != "<<" && len(k) < 200 { // the merge key is not an ordinary key
			return k
		}
	}
}

// value is a plugin setting.
func (o *gopt) value(t *T, depth int) interface{} { return o.valueAt(t, depth, true) }

func (o *gopt) valueAt(t *T, depth int, top bool) interface{} {
	n := 8
	if depth <= 0 {
		n = 6
	}
	switch t.IntN(n) {
	case 0, 1:
		if !o.plainText && t.P(5) {
			return ""
		}
		if !top {
			return o.any(t)
		}
		return o.s(t)
	case 2:
		return t.Bool()
	case 3:
		if t.P(10) {
			return t.litInt(1 << 40)
		}
		return t.IntN(100000) - 1000
	case 4:
		switch t.IntN(6) {
		case 0: // up to 17 digits
			return t.NormFloat64() * math.Pow10(t.Range(-12, 18))
		case 1:
			return []float64{0.30000000000000004, 1.7976931348623157e+308, 5e-324, 123456789.12345679, 0.1, 2.2250738585072014e-308, -1e-7, 1234567.5}[t.IntN(8)]
		}
		return float64(t.IntN(100000)-50000) / 64
	case 5:
		if o.odd && t.P(40) {
			switch t.IntN(5) {
			case 0:
				return math.NaN()
			case 1:
				return math.Inf(1)
			case 2:
				return math.Inf(-1)
			case 3:
				return uint64(1<<63) + uint64(t.IntN(1000))
			default:
				return float64(t.IntN(1000))
			}
		}
		switch t.IntN(6) {
		case 0:
			return 0
		case 1:
			return 1e21
		case 2:
			return 1.5e-9
		case 3:
			return 9007199254740993
		case 4:
			return 1000000
		}
		return t.IntN(10)
	case 6:
		l := []interface{}{}
		if t.P(3) { // a long one
			for i, n := 0, t.Range(8, 80); i < n; i++ {
				l = append(l, t.word())
			}
		}
		for i, n := 0, t.count(4)-1; i < n; i++ {
			if t.P(6) {
				l = append(l, nil)
				continue
			}
			l = append(l, o.valueAt(t, depth-1, false))
		}
		return l
	default:
		m := map[interface{}]interface{}{}
		if t.P(2) {
			for i, n := 0, t.Range(8, 40); i < n; i++ {
				m[t.ident()] = t.IntN(1000)
			}
		}
		for i, n := 0, t.count(4)-1; i < n; i++ {
			if t.P(6) {
				m[o.key(t)] = nil
				continue
			}
			var k interface{} = o.key(t)
			if o.odd && t.P(12) {
				switch t.IntN(3) {
				case 0:
					k = t.IntN(20)
				case 1:
					k = t.Bool()
				default:
					k = float64(t.IntN(9)) + 0.5
				}
			}
			m[k] = o.valueAt(t, depth-1, false)
		}
		return m
	}
}

// ---- random resources ----

func (o *gopt) condition(t *T, pct int, vals ...string) yaml.Condition {
	var c yaml.Condition
	if !t.P(pct) {
		return c
	}
	pick := func() []string {
		var l []string
		for i, n := 0, t.count(3); i < n; i++ {
			if len(vals) > 0 && t.P(80) {
				l = append(l, vals[t.IntN(len(vals))])
			} else {
				l = append(l, o.s(t))
			}
		}
		return l
	}
	if t.P(65) {
		c.Include = pick()
	}
	if len(c.Include) == 0 || t.P(35) {
		c.Exclude = pick()
	}
	return c
}

func (o *gopt) conditions(t *T, pct int) yaml.Conditions {
	var c yaml.Conditions
	if !t.P(pct) {
		return c
	}
	p := 18
	c.Action = o.condition(t, p, "opened", "closed", "created", "synchronized")
	c.Branch = o.condition(t, 30, "master", "feature/*", "release-*", "*", "**", "dev*", "m?ster", "[a-m]*", "{a,b}")
	c.Cron = o.condition(t, p, "nightly", "week*")
	c.Event = o.condition(t, 30, "push", "pull_request", "tag", "promote", "*")
	c.Instance = o.condition(t, p, "drone.company.com", "*.company.com")
	c.Paths = o.condition(t, p, "docs/**", "*.go")
	c.Ref = o.condition(t, p, "refs/heads/**", "refs/tags/v*", "refs/heads/master")
	c.Repo = o.condition(t, p, "octocat/*", "octocat/hello-world", "**/hello*")
	c.Status = o.condition(t, 25, "success", "failure", "*")
	c.Target = o.condition(t, p, "production", "prod*", "staging")
	if t.P(p) {
		c.Matrix = o.strmap(t, 100, 3)
	}
	return c
}

var imagePool = []string{"golang", "golang:1.11", "golang:latest", "library/golang:1.11", "docker.io/library/golang:1.11", "redis:5-alpine", "octocat/hello-world",
	"octocat/hello-world:1", "gcr.io/project/image:v2", "registry.company.com:5000/team/app:latest", "plugins/docker", "plugins/slack:1",
	"alpine@sha256:e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "index.docker.io/library/redis", "localhost:5000/x", "quay.io/a/b/c:1.2.3_x"}

func (o *gopt) image(t *T) string {
	if o.plainText || t.P(90) {
		return imagePool[t.IntN(len(imagePool))]
	}
	s := o.s(t)
	if i := strings.Index(s, "/"); i > 0 && strings.Contains(s[:i], "_") && strings.ContainsAny(s[:i], ".:") {
		return imagePool[t.IntN(len(imagePool))] // no host name, see C24
	}
	return s
}

// volume is the name of a user's volume.
func (o *gopt) volume(t *T) string {
	s := o.s(t)
	if reserved(s) {
		s += "-x"
	}
	return s
}

func (o *gopt) size(t *T) yaml.BytesSize {
	switch t.IntN(8) {
	case 0:
		return 0
	case 1:
		return yaml.BytesSize(1 << t.IntN(50))
	case 2:
		return yaml.BytesSize(int64(t.IntN(1000)) << 20)
	case 3:
		return yaml.BytesSize(int64(t.IntN(1000)) * 1000000)
	case 4:
		return yaml.BytesSize(t.IntN(2000))
	case 5:
		return yaml.BytesSize(t.Int64N(1 << 52))
	case 6:
		return yaml.BytesSize(t.IntN(1 << 30))
	}
	return yaml.BytesSize(1 << 30)
}

func (o *gopt) cpu(t *T) float64 {
	switch t.IntN(5) {
	case 0:
		return 0
	case 1:
		return float64(t.IntN(64))
	case 2:
		return float64(t.IntN(1000)) / 100
	case 3:
		return 0.1
	}
	return float64(t.IntN(1000)) / 8
}

func (o *gopt) resourceObject(t *T) *yaml.ResourceObject {
	if t.P(30) {
		return nil
	}
	return &yaml.ResourceObject{CPU: o.cpu(t), Memory: o.size(t)}
}

var reservedVar = regexp.MustCompile(`^(DRONE_|CI_|PLUGIN_|SHELL$|GIT_SSL_NO_VERIFY$)`)

// varKey is the name of a variable the compiler does not set itself.
func (o *gopt) varKey(t *T) string {
	k := o.key(t)
	if reservedVar.MatchString(k) {
		k = "X_" + k
	}
	return k
}

// container makes a step or service called name.
func (o *gopt) container(t *T, name string) *yaml.Container {
	c := &yaml.Container{Name: name}
	if !o.noBuild && t.P(10) {
		b := &yaml.Build{Image: o.image(t)}
		b.Args = o.strmap(t, 25, 3)
		b.CacheFrom = o.list(t, 25, 3)
		b.Context = o.maybe(t, 25)
		b.Dockerfile = o.maybe(t, 25)
		b.Labels = o.strmap(t, 20, 3)
		if !o.lintable && t.P(5) {
			b.Image = ""
		}
		c.Build = b
		if t.P(40) {
			c.Push = &yaml.Push{Image: o.image(t)}
		}
		if t.P(20) {
			c.Image = o.image(t)
		}
	} else if o.lintable || t.P(95) {
		c.Image = o.image(t)
	}
	c.Command = o.list(t, 15, 3)
	c.Commands = o.list(t, 50, 4)
	c.Detach = t.P(12)
	if !o.lintable {
		c.Devices = o.devices(t)
		c.DNS = o.list(t, 8, 2)
		c.DNSSearch = o.list(t, 8, 2)
		c.ExtraHosts = o.list(t, 8, 2)
		c.Network = o.maybe(t, 8)
		c.Privileged = t.P(8)
	}
	c.Entrypoint = o.list(t, 12, 3)
	if t.P(40) {
		c.Environment = map[string]*yaml.Variable{}
		for i, n := 0, t.count(4); i < n; i++ {
			v := &yaml.Variable{}
			switch {
			case o.odd && t.P(6):
				v = nil
			case t.P(30):
				v.Secret = o.s(t)
			case !o.plainText && t.P(8):
			default:
				v.Value = o.s(t)
			}
			c.Environment[o.varKey(t)] = v
		}
	}
	if t.P(15) {
		c.Failure = t.Pick("ignore", "always", "Ignore", "IGNORE", "fast")
	}
	for i, n := 0, t.some(20, 3); i < n; i++ {
		p := &yaml.Port{Port: t.Range(1, 65535)}
		if t.P(40) {
			p.Protocol = t.Pick("tcp", "udp", "TCP")
		}
		if !o.lintable && t.P(40) {
			p.Host = t.Range(1, 65535)
		}
		c.Ports = append(c.Ports, p)
	}
	if t.P(20) {
		c.Pull = t.Pick("always", "never", "if-not-exists", "Always", "default", "NEVER", "sometimes")
	}
	if t.P(15) {
		c.Resources = &yaml.Resources{Limits: o.resourceObject(t), Requests: o.resourceObject(t)}
	}
	if t.P(40) {
		c.Settings = map[string]*yaml.Parameter{}
		for i, n := 0, t.count(4); i < n; i++ {
			p := &yaml.Parameter{}
			if o.odd && t.P(5) {
				p = nil
			} else if t.P(20) {
				p.Secret = o.s(t)
			} else {
				p.Value = o.value(t, 2)
				if m, ok := p.Value.(map[interface{}]interface{}); ok {
					delete(m, "from_secret")
				}
			}
			k := o.key(t)
			for have := range c.Settings { // settings that differ in case only are one variable
				if strings.EqualFold(have, k) || strings.ToUpper(have) == strings.ToUpper(k) {
					delete(c.Settings, have)
				}
			}
			c.Settings[k] = p
		}
	}
	if t.P(10) {
		c.Shell = o.s(t)
	}
	if t.P(10) {
		c.User = o.s(t)
	}
	for i, n := 0, t.some(20, 3); i < n; i++ {
		m := &yaml.VolumeMount{Name: o.volume(t), MountPath: "/" + t.word()}
		if !o.plainText && t.P(30) {
			m.MountPath = o.s(t)
		}
		c.Volumes = append(c.Volumes, m)
	}
	c.When = o.conditions(t, 35)
	if t.P(10) {
		c.WorkingDir = o.s(t)
	}
	return c
}

func (o *gopt) devices(t *T) []*yaml.VolumeDevice {
	var l []*yaml.VolumeDevice
	for i := 0; t.P(8) && i < 2; i++ {
		l = append(l, &yaml.VolumeDevice{Name: o.s(t), DevicePath: o.s(t)})
	}
	return l
}

func (o *gopt) platform(t *T) yaml.Platform {
	var p yaml.Platform
	if !t.P(50) {
		return p
	}
	p.OS = t.Pick("", "linux", "windows", "linux")
	p.Arch = t.Pick("", "amd64", "arm", "arm64", "ppc64le", "s390x")
	if t.P(30) {
		p.Variant = t.Pick("v6", "v7", "7")
	}
	if p.OS == "windows" || t.P(10) {
		p.Version = t.Pick("", "1903", "1809", "1803", "1709", "10.0")
	}
	return p
}

func (o *gopt) pipeline(t *T) *yaml.Pipeline {
	max := o.maxSteps
	if max == 0 {
		max = 4
	}
	p := &yaml.Pipeline{Kind: "pipeline", Name: o.maybe(t, 85)}
	p.Version = o.maybe(t, 10)
	if t.P(50) {
		p.Type = t.Pick("docker", "kubernetes", "exec", "docker")
		if t.P(15) {
			p.Type = t.Pick("secret", "registry", "cron", "signature", "pipeline", "Docker", "ssh", o.s(t))
		}
	}
	if t.P(30) {
		p.Clone = yaml.Clone{Disable: t.P(40), Depth: t.IntN(60), SkipVerify: t.P(40)}
	}
	if t.P(15) {
		p.Concurrency.Limit = t.Range(1, 9)
	}
	p.DependsOn = o.list(t, 15, 3)
	p.Node = o.strmap(t, 12, 3)
	p.Platform = o.platform(t)
	p.PullSecrets = o.list(t, 12, 2)
	if t.P(15) {
		p.Workspace = yaml.Workspace{Base: o.maybe(t, 60), Path: o.maybe(t, 60)}
		if t.P(20) {
			p.Workspace.Base = t.Pick("/proc/self/cwd", "/bin", "/proc/self/cwd/x", "/tmp/..", "~", "$HOME", ".")
		}
	}
	p.Trigger = o.conditions(t, 25)
	for i, n := 0, t.some(25, 3); i < n; i++ {
		v := &yaml.Volume{Name: o.volume(t)}
		switch {
		case t.P(50):
			v.EmptyDir = &yaml.VolumeEmptyDir{}
			if t.P(50) {
				v.EmptyDir.SizeLimit = o.size(t)
			}
			if t.P(40) {
				v.EmptyDir.Medium = t.Pick("disk", "Memory", "ssd")
				if !o.lintable {
					v.EmptyDir.Medium = "memory"
				}
			}
		case !o.lintable:
			v.HostPath = &yaml.VolumeHostPath{Path: o.maybe(t, 90)}
		}
		p.Volumes = append(p.Volumes, v)
	}
	var names []string
	steps := t.IntN(max + 1)
	if t.P(2) && !t.Thorough() || t.P(4) && t.Thorough() {
		steps = t.count(max)
	}
	for i, n := 0, steps; i < n; i++ {
		name := fmt.Sprintf("step-%d-%s", i, o.s(t))
		if o.plainText {
			name = fmt.Sprintf("step-%d-%s", i, t.word())
		} else if !o.lintable && t.P(20) {
			name = o.maybe(t, 80)
		}
		c := o.container(t, name)
		if len(names) > 0 && t.P(25) {
			for j, m := 0, t.Range(1, 2); j < m; j++ {
				c.DependsOn = append(c.DependsOn, names[t.IntN(len(names))])
			}
		} else if !p.Clone.Disable && t.P(4) {
			c.DependsOn = []string{"clone"}
		}
		names = append(names, name)
		p.Steps = append(p.Steps, c)
	}
	for i, n := 0, t.IntN(max+1)/2; i < n; i++ {
		c := o.container(t, fmt.Sprintf("svc-%d-%s", i, t.word()))
		p.Services = append(p.Services, c)
	}
	return p
}

func (o *gopt) cron(t *T) *yaml.Cron {
	return &yaml.Cron{Version: o.maybe(t, 10), Kind: "cron", Type: o.maybe(t, 20), Name: o.maybe(t, 90),
		Spec: yaml.CronSpec{Schedule: t.Pick("1 * * * *", "@daily", "0 0 * * 1-5", "*/5 * * * *", ""), Branch: o.maybe(t, 90),
			Deploy: yaml.CronDeployment{Target: o.maybe(t, 30)}}}
}

func (o *gopt) base64(t *T) string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	n := t.Range(1, 70) * 4
	if t.P(40) { // any length, and near whole lines
		n = t.Range(1, 260)
		if t.P(50) {
			n = 60*t.Range(1, 5) + t.Range(-2, 2)
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = abc[t.IntN(len(abc))]
	}
	return string(b)
}

func (o *gopt) secret(t *T) *yaml.Secret {
	s := &yaml.Secret{Version: o.maybe(t, 10), Kind: "secret", Type: o.maybe(t, 30), Name: o.maybe(t, 90)}
	if t.P(50) {
		s.Data = o.base64(t)
		if !o.plainText && t.P(40) {
			s.Data = o.s(t)
		}
	}
	if s.Data == "" || t.P(20) {
		s.Get = yaml.SecretGet{Path: o.maybe(t, 80), Name: o.maybe(t, 60), Key: o.maybe(t, 30)}
	}
	return s
}

func (o *gopt) registry(t *T) *yaml.Registry {
	return &yaml.Registry{Version: o.maybe(t, 10), Kind: "registry", Type: o.maybe(t, 30), Data: o.strmap(t, 90, 3)}
}

func (o *gopt) signature(t *T) *yaml.Signature {
	h := fmt.Sprintf("%016x%016x%016x%016x", t.Uint64(), t.Uint64(), t.Uint64(), t.Uint64())
	if t.P(10) {
		h = o.maybe(t, 50)
	}
	return &yaml.Signature{Version: o.maybe(t, 10), Kind: "signature", Hmac: h}
}

func (o *gopt) resource(t *T) yaml.Resource {
	switch t.IntN(12) {
	case 0:
		return o.cron(t)
	case 1, 2:
		return o.secret(t)
	case 3:
		return o.registry(t)
	case 4:
		return o.signature(t)
	}
	return o.pipeline(t)
}

// ---- resources to document trees ----

// noter decides between equivalent notations.
type noter struct {
	t    *T
	long bool // always the long notation
}

func (w *noter) short(pct int) bool { return !w.long && w.t.P(pct) }

// put adds a text attribute, or sometimes spells out its absence.
func (w *noter) put(n *N, k, v string) {
	if v != "" {
		n.set(k, text(v))
		if isNullText(v) {
			n.vals[len(n.vals)-1] = str(v)
		}
	} else if w.short(3) {
		n.set(k, raw(w.t.Pick("~", "null", "", `""`, `''`)))
	}
}

func (w *noter) putList(n *N, k string, v []string) {
	if len(v) > 0 {
		n.set(k, textSeq(v))
	} else if w.short(3) {
		n.set(k, raw(w.t.Pick("[]", "~", "")))
	}
}

func textSeq(v []string) *N {
	s := strs(v)
	for _, x := range s.items {
		if isNullText(x.s) {
			x.k = kStr
		}
	}
	return s
}

func textN(v string) *N {
	if isNullText(v) {
		return str(v)
	}
	return text(v)
}

func (w *noter) putBool(n *N, k string, v bool) {
	if v {
		b := "true"
		if !w.long {
			b = w.t.Pick("true", "true", "True", "TRUE", "yes", "on", "y")
		}
		n.set(k, raw(b))
	} else if w.short(4) {
		n.set(k, raw(w.t.Pick("false", "no", "off", "~")))
	}
}

func (w *noter) putInt(n *N, k string, v int) {
	if v != 0 {
		n.set(k, num(v))
	} else if w.short(3) {
		n.set(k, num(0))
	}
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func (w *noter) putMap(n *N, k string, m map[string]string) {
	if len(m) == 0 {
		if w.short(3) {
			n.set(k, raw(w.t.Pick("{}", "~")))
		}
		return
	}
	x := mapN()
	for _, kk := range sortedKeys(m) {
		x.set(kk, textN(m[kk]))
	}
	n.set(k, x)
}

func (w *noter) size(b yaml.BytesSize) *N {
	v := int64(b)
	if w.long || w.t.P(30) {
		return raw(strconv.FormatInt(v, 10))
	}
	units := []struct {
		shift uint
		names []string
	}{{40, []string{"T", "TB", "TiB", "t", "tb", "tib"}}, {30, []string{"G", "GB", "GiB", "g", "gb", "gib"}},
		{20, []string{"M", "MB", "MiB", "m", "mb", "mib"}}, {10, []string{"K", "KB", "KiB", "k", "kb", "kib"}}}
	for _, u := range units {
		q := v >> u.shift
		if q > 0 && q<<u.shift == v && q < 100000 {
			s := strconv.FormatInt(q, 10)
			if w.t.P(20) {
				s += ".0"
			}
			if w.t.P(20) {
				s += " "
			}
			return text(s + u.names[w.t.IntN(len(u.names))])
		}
		if v>>u.shift > 0 && w.t.P(40) {
			// any decimal fraction that denotes exactly this many bytes
			for try := 0; try < 6; try++ {
				f := strconv.FormatFloat(float64(v)/float64(int64(1)<<u.shift), 'f', w.t.Range(1, 12), 64)
				if x, err := strconv.ParseFloat(f, 64); err == nil && int64(x*float64(int64(1)<<u.shift)) == v && strings.Contains(f, ".") {
					return text(f + w.t.Pick("", " ") + u.names[w.t.IntN(len(u.names))])
				}
			}
		}
		if h := v >> (u.shift - 1); h > 0 && h < 10000 && h<<(u.shift-1) == v && h%2 == 1 {
			return text(strconv.FormatInt(h/2, 10) + ".5" + u.names[w.t.IntN(len(u.names))])
		}
	}
	if w.t.P(30) {
		return text(strconv.FormatInt(v, 10) + w.t.Pick("b", "B", ""))
	}
	return raw(strconv.FormatInt(v, 10))
}

func (w *noter) condition(c yaml.Condition) *N {
	if len(c.Exclude) == 0 && len(c.Include) > 0 {
		if len(c.Include) == 1 && w.short(50) {
			return textN(c.Include[0])
		}
		if w.short(70) {
			return textSeq(c.Include)
		}
	}
	n := mapN()
	w.putList(n, "include", c.Include)
	w.putList(n, "exclude", c.Exclude)
	return n
}

func (w *noter) putConditions(n *N, key string, c yaml.Conditions) {
	x := mapN()
	put := func(k string, c yaml.Condition) {
		if len(c.Include)+len(c.Exclude) > 0 {
			x.set(k, w.condition(c))
		}
	}
	put("action", c.Action)
	put("branch", c.Branch)
	put("cron", c.Cron)
	put("event", c.Event)
	put("instance", c.Instance)
	put("paths", c.Paths)
	put("ref", c.Ref)
	put("repo", c.Repo)
	put("status", c.Status)
	put("target", c.Target)
	w.putMap(x, "matrix", c.Matrix)
	if len(x.keys) > 0 {
		n.set(key, x)
	}
}

// sortedOdd lists the keys that are no strings.
func sortedOdd(m map[interface{}]interface{}) []interface{} {
	var l []interface{}
	for k := range m {
		if _, ok := k.(string); !ok {
			l = append(l, k)
		}
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return l
}

func floatText(f float64) string {
	switch {
	case math.IsNaN(f):
		return ".nan"
	case math.IsInf(f, 1):
		return ".inf"
	case math.IsInf(f, -1):
		return "-.Inf"
	}
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if len(s) > 20 {
		s = strconv.FormatFloat(f, 'e', -1, 64)
		if !strings.Contains(s, ".") {
			s = strings.Replace(s, "e", ".0e", 1)
		}
		return s
	}
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

func valueN(v interface{}) *N {
	switch v := v.(type) {
	case nil:
		return raw("~")
	case string:
		return str(v)
	case bool:
		return boolN(v)
	case int:
		return num(v)
	case int64:
		return raw(strconv.FormatInt(v, 10))
	case uint64:
		return raw(strconv.FormatUint(v, 10))
	case float64:
		return raw(floatText(v))
	case []interface{}:
		n := seq()
		for _, x := range v {
			n.items = append(n.items, valueN(x))
		}
		return n
	case map[interface{}]interface{}:
		n := mapN()
		var ks []string
		for k := range v {
			if k, ok := k.(string); ok {
				ks = append(ks, k)
			}
		}
		sortStrings(ks)
		for _, k := range ks {
			n.set(k, valueN(v[k]))
		}
		for _, kv := range sortedOdd(v) {
			n.setRaw(valueN(kv).s, valueN(v[kv]))
		}
		return n
	}
	panic(fmt.Sprintf("harness: value of type %T", v))
}

func (w *noter) container(c *yaml.Container) *N {
	n := mapN()
	w.put(n, "name", c.Name)
	w.put(n, "image", c.Image)
	if b := c.Build; b != nil {
		if len(b.Args)+len(b.CacheFrom)+len(b.Context)+len(b.Dockerfile)+len(b.Labels) == 0 && w.short(60) && b.Image != "" {
			n.set("build", textN(b.Image))
		} else {
			x := mapN()
			w.put(x, "image", b.Image)
			w.putMap(x, "args", b.Args)
			w.putList(x, "cache_from", b.CacheFrom)
			w.put(x, "context", b.Context)
			w.put(x, "dockerfile", b.Dockerfile)
			w.putMap(x, "labels", b.Labels)
			n.set("build", x)
		}
	}
	if p := c.Push; p != nil {
		if w.short(60) {
			n.set("push", textN(p.Image))
		} else {
			n.set("push", mapN().set("image", textN(p.Image)))
		}
	}
	w.put(n, "pull", c.Pull)
	w.putBool(n, "detach", c.Detach)
	w.putBool(n, "privileged", c.Privileged)
	w.put(n, "user", c.User)
	w.put(n, "shell", c.Shell)
	w.put(n, "failure", c.Failure)
	w.put(n, "network_mode", c.Network)
	w.put(n, "working_dir", c.WorkingDir)
	w.putList(n, "command", c.Command)
	w.putList(n, "commands", c.Commands)
	w.putList(n, "entrypoint", c.Entrypoint)
	w.putList(n, "dns", c.DNS)
	w.putList(n, "dns_search", c.DNSSearch)
	w.putList(n, "extra_hosts", c.ExtraHosts)
	w.putList(n, "depends_on", c.DependsOn)
	if len(c.Devices) > 0 {
		x := seq()
		for _, d := range c.Devices {
			y := mapN()
			w.put(y, "name", d.Name)
			w.put(y, "path", d.DevicePath)
			x.items = append(x.items, y)
		}
		n.set("devices", x)
	}
	if len(c.Environment) > 0 {
		x := mapN()
		var ks []string
		for k := range c.Environment {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			v := c.Environment[k]
			switch {
			case v == nil:
				x.set(k, raw("~"))
			case v.Secret != "":
				x.set(k, mapN().set("from_secret", textN(v.Secret)))
			case w.short(80) || w.long:
				x.set(k, textN(v.Value))
			default:
				x.set(k, mapN().set("value", textN(v.Value)))
			}
		}
		n.set("environment", x)
	}
	if len(c.Settings) > 0 {
		x := mapN()
		var ks []string
		for k := range c.Settings {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			v := c.Settings[k]
			switch {
			case v == nil:
				x.set(k, raw("~"))
			case v.Secret != "":
				x.set(k, mapN().set("from_secret", textN(v.Secret)))
			default:
				x.set(k, valueN(v.Value))
			}
		}
		n.set("settings", x)
	}
	if len(c.Ports) > 0 {
		x := seq()
		for _, p := range c.Ports {
			if p.Host == 0 && p.Protocol == "" && w.short(70) {
				x.items = append(x.items, num(p.Port))
				continue
			}
			y := mapN()
			w.putInt(y, "port", p.Port)
			w.putInt(y, "host", p.Host)
			w.put(y, "protocol", p.Protocol)
			x.items = append(x.items, y)
		}
		n.set("ports", x)
	}
	if r := c.Resources; r != nil {
		x := mapN()
		obj := func(k string, o *yaml.ResourceObject) {
			if o == nil {
				return
			}
			y := mapN()
			if o.CPU != 0 || w.short(20) {
				if o.CPU == float64(int(o.CPU)) && w.short(70) {
					y.set("cpu", num(int(o.CPU)))
				} else {
					y.set("cpu", raw(floatText(o.CPU)))
				}
			}
			if o.Memory != 0 || w.short(20) {
				y.set("memory", w.size(o.Memory))
			}
			x.set(k, y)
		}
		obj("limits", r.Limits)
		obj("requests", r.Requests)
		n.set("resources", x)
	}
	if len(c.Volumes) > 0 {
		x := seq()
		for _, v := range c.Volumes {
			y := mapN()
			w.put(y, "name", v.Name)
			w.put(y, "path", v.MountPath)
			x.items = append(x.items, y)
		}
		n.set("volumes", x)
	}
	w.putConditions(n, "when", c.When)
	return n
}

func (w *noter) resource(r yaml.Resource) *N {
	n := mapN()
	switch v := r.(type) {
	case *yaml.Pipeline:
		w.put(n, "version", v.Version)
		w.put(n, "kind", v.Kind)
		w.put(n, "type", v.Type)
		w.put(n, "name", v.Name)
		if v.Clone != (yaml.Clone{}) {
			x := mapN()
			w.putBool(x, "disable", v.Clone.Disable)
			w.putInt(x, "depth", v.Clone.Depth)
			w.putBool(x, "skip_verify", v.Clone.SkipVerify)
			n.set("clone", x)
		}
		if v.Concurrency.Limit != 0 {
			n.set("concurrency", mapN().set("limit", num(v.Concurrency.Limit)))
		}
		w.putList(n, "depends_on", v.DependsOn)
		w.putMap(n, "node", v.Node)
		if v.Platform != (yaml.Platform{}) {
			x := mapN()
			w.put(x, "os", v.Platform.OS)
			w.put(x, "arch", v.Platform.Arch)
			w.put(x, "variant", v.Platform.Variant)
			w.put(x, "version", v.Platform.Version)
			n.set("platform", x)
		}
		w.putList(n, "image_pull_secrets", v.PullSecrets)
		if v.Workspace != (yaml.Workspace{}) {
			x := mapN()
			w.put(x, "base", v.Workspace.Base)
			w.put(x, "path", v.Workspace.Path)
			n.set("workspace", x)
		}
		if len(v.Services) > 0 {
			x := seq()
			for _, c := range v.Services {
				x.items = append(x.items, w.container(c))
			}
			n.set("services", x)
		}
		if len(v.Steps) > 0 {
			x := seq()
			for _, c := range v.Steps {
				x.items = append(x.items, w.container(c))
			}
			n.set("steps", x)
		}
		w.putConditions(n, "trigger", v.Trigger)
		if len(v.Volumes) > 0 {
			x := seq()
			for _, vol := range v.Volumes {
				y := mapN()
				w.put(y, "name", vol.Name)
				if e := vol.EmptyDir; e != nil {
					z := mapN()
					w.put(z, "medium", e.Medium)
					if e.SizeLimit != 0 {
						z.set("size_limit", w.size(e.SizeLimit))
					}
					y.set("temp", z)
				}
				if h := vol.HostPath; h != nil {
					z := mapN()
					w.put(z, "path", h.Path)
					y.set("host", z)
				}
				x.items = append(x.items, y)
			}
			n.set("volumes", x)
		}
	case *yaml.Cron:
		w.put(n, "version", v.Version)
		w.put(n, "kind", v.Kind)
		w.put(n, "type", v.Type)
		w.put(n, "name", v.Name)
		x := mapN()
		w.put(x, "schedule", v.Spec.Schedule)
		w.put(x, "branch", v.Spec.Branch)
		if v.Spec.Deploy.Target != "" {
			x.set("deployment", mapN().set("target", textN(v.Spec.Deploy.Target)))
		}
		n.set("spec", x)
	case *yaml.Secret:
		w.put(n, "version", v.Version)
		w.put(n, "kind", v.Kind)
		w.put(n, "type", v.Type)
		w.put(n, "name", v.Name)
		w.put(n, "data", v.Data)
		if v.Get != (yaml.SecretGet{}) {
			x := mapN()
			w.put(x, "path", v.Get.Path)
			w.put(x, "name", v.Get.Name)
			w.put(x, "key", v.Get.Key)
			n.set("get", x)
		}
	case *yaml.Registry:
		w.put(n, "version", v.Version)
		w.put(n, "kind", v.Kind)
		w.put(n, "type", v.Type)
		w.putMap(n, "data", v.Data)
	case *yaml.Signature:
		w.put(n, "version", v.Version)
		w.put(n, "kind", v.Kind)
		w.put(n, "hmac", v.Hmac)
	default:
		panic(fmt.Sprintf("harness: resource of type %T", r))
	}
	return n
}

// render writes resources as a document stream in a random style.
func render(t *T, rs []yaml.Resource) string {
	if len(rs) == 0 {
		return t.Pick("", "...\n", "...", "... # end\n", "...\nname: x\n---\nkind: pipeline\n", "...\n...\n")
	}
	var docs []string
	st := Style{}
	for _, r := range rs {
		n := (&noter{t: t}).resource(r)
		n.shuffle(t)
		docs = append(docs, emitDoc(t, t.warped(n), st))
	}
	return emitStream(t, docs, st)
}

// renderCanonical writes resources in one fixed plain way.
func renderCanonical(rs []yaml.Resource) string {
	var docs []string
	st := Style{Canonical: true}
	for _, r := range rs {
		docs = append(docs, emitDoc(nil, (&noter{long: true}).resource(r), st))
	}
	return emitStream(nil, docs, st)
}

func (o *gopt) resources(t *T, max int) []yaml.Resource {
	var rs []yaml.Resource
	for i, n := 0, t.Range(1, max); i < n; i++ {
		rs = append(rs, o.resource(t))
	}
	return rs
}

// resourcesOrNone may be the resources of an empty configuration.
func (o *gopt) resourcesOrNone(t *T, max int) []yaml.Resource {
	if t.P(1) {
		return nil
	}
	return o.resources(t, max)
}

func manifestOf(rs []yaml.Resource) *yaml.Manifest { return &yaml.Manifest{Resources: rs} }

// parse parses a text that has to parse.
func parse(t *T, s string) *yaml.Manifest {
	m, err := yaml.ParseString(s)
	if err != nil {
		t.Fail("a well-formed configuration was rejected: %v", err)
	}
	return m
}
