package main

import (
	"bytes"
	"fmt"
	"io"
	"regexp"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/pretty"
)

// printAll formats a manifest.
func printAll(m *yaml.Manifest) string {
	var b bytes.Buffer
	pretty.Print(&b, m)
	return b.String()
}

var base64Text = regexp.MustCompile(`^[A-Za-z0-9+/=\s]*$`)

// encrypted is the meaning of encrypted data: the layout does not count.
func encrypted(s string) string {
	if base64Text.MatchString(s) {
		return strings.NewReplacer(" ", "", "\n", "").Replace(s)
	}
	return s
}

// meaning is the canonical form of what a configuration denotes: what the
// format defines to be irrelevant is normalised.
func meaning(m *yaml.Manifest) string {
	var out []yaml.Resource
	for _, r := range m.Resources {
		switch v := r.(type) {
		case *yaml.Pipeline:
			c := *v
			if c.Platform == (yaml.Platform{}) {
				c.Platform = yaml.Platform{OS: "linux", Arch: "amd64"}
			}
			out = append(out, &c)
		case *yaml.Secret:
			c := *v
			c.Data = encrypted(c.Data)
			out = append(out, &c)
		case *yaml.Registry:
			c := *v
			c.Data = map[string]string{}
			for k, d := range v.Data {
				c.Data[k] = encrypted(d)
			}
			out = append(out, &c)
		default:
			out = append(out, r)
		}
	}
	return resCanon(manifestOf(out), canonOpt{looseNum: true})
}

// reparsed formats m and parses the result.
func reparsed(t *T, m *yaml.Manifest, what string) (string, *yaml.Manifest) {
	f := printAll(m)
	m2, err := yaml.ParseString(f)
	if err != nil {
		t.Fail("%s cannot be parsed: %v\n%s", what, err, clip(f, 3000))
	}
	return f, m2
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func checkMeaning(t *T, before string, m *yaml.Manifest, f, what string) {
	if after := meaning(m); before != after {
		t.Fail("%s means something else:\n%s\nformatted:\n%s", what, canonDiff(before, after), clip(f, 6000))
	}
}

// tricky builds a pipeline around one text in every place a text can be.
func trickyPipeline(s string) *yaml.Pipeline {
	return &yaml.Pipeline{Kind: "pipeline", Type: "docker", Name: s, DependsOn: []string{s, "x", s},
		Node: map[string]string{s: s, "k": s}, PullSecrets: []string{s}, Workspace: yaml.Workspace{Base: s, Path: s},
		Platform: yaml.Platform{OS: "linux", Variant: s, Version: s},
		Trigger:  yaml.Conditions{Branch: yaml.Condition{Include: []string{s}, Exclude: []string{s, s}}, Matrix: map[string]string{s: s}},
		Volumes:  []*yaml.Volume{{Name: s, HostPath: &yaml.VolumeHostPath{Path: s}}, {Name: "v", EmptyDir: &yaml.VolumeEmptyDir{Medium: s}}},
		Steps: []*yaml.Container{{Name: s, Image: s, Command: []string{s}, Commands: []string{s, s}, Entrypoint: []string{s}, DNS: []string{s},
			Environment: map[string]*yaml.Variable{s: {Value: s}, "sec": {Secret: s}},
			Settings: map[string]*yaml.Parameter{s: {Value: s}, "list": {Value: []interface{}{s, []interface{}{s}, map[interface{}]interface{}{s: s}}},
				"map": {Value: map[interface{}]interface{}{s: []interface{}{s}, "n": map[interface{}]interface{}{s: s}}}, "zsec": {Secret: s}},
			User: s, Shell: s, Network: s, WorkingDir: s, Pull: s, Failure: s,
			Volumes: []*yaml.VolumeMount{{Name: s, MountPath: s}}, Devices: []*yaml.VolumeDevice{{Name: s, DevicePath: s}},
			When: yaml.Conditions{Event: yaml.Condition{Include: []string{s, s}}, Status: yaml.Condition{Exclude: []string{s}}}},
			{Name: "b", Build: &yaml.Build{Image: s, Args: map[string]string{s: s}, CacheFrom: []string{s}, Context: s, Dockerfile: s, Labels: map[string]string{"l": s}}, Push: &yaml.Push{Image: s}},
			{Name: "c", Build: &yaml.Build{Image: s}}},
		Services: []*yaml.Container{{Name: s, Image: s, Environment: map[string]*yaml.Variable{"a": {Value: s}}}},
	}
}

func checkShape(t *T, f string, n int) {
	lines := strings.Split(f, "\n")
	if !strings.HasSuffix(f, "\n") || len(lines) < 2 || lines[len(lines)-2] != "..." {
		t.Fail("the output does not end with the end-of-stream marker: %q", clip(lastBytes(f, 100), 200))
	}
	seps, ends := 0, 0
	for i, l := range lines {
		switch {
		case l == "---":
			seps++
		case strings.HasPrefix(l, "---"):
			t.Fail("odd separator %q", l)
		case strings.HasPrefix(l, "..."):
			if l != "..." {
				t.Fail("odd end marker %q", l)
			}
			ends++
		}
		if i == 0 && n > 0 && l != "---" {
			t.Fail("the output starts with %q instead of a separator", l)
		}
		if l != strings.TrimRight(l, " \t") {
			t.Fail("trailing blanks in line %d: %q", i+1, clip(l, 200))
		}
		if strings.ContainsAny(l, "\t\r") {
			t.Fail("tab or carriage return in line %d: %q", i+1, clip(l, 200))
		}
	}
	if seps != n || ends != 1 {
		t.Fail("%d separators and %d end markers for %d resources", seps, ends, n)
	}
	t.Obs("output_lines", len(lines))
}

func lastBytes(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// chunkWriter fails the test if it is written to in a way io.Writer forbids.
type countWriter struct{ buf bytes.Buffer }

func (w *countWriter) Write(p []byte) (int, error) { return w.buf.Write(p) }

func allStrings() []string {
	seen := map[string]bool{}
	var l []string
	for _, s := range append(append([]string{}, hostileStrings...), fragments...) {
		if s == "" || s == "~" || s == "null" || seen[s] {
			continue
		}
		seen[s] = true
		l = append(l, s)
	}
	return l
}

func init() {
	tricky := allStrings()
	register(&Prop{
		ID: "C03",
		Rule: "random manifests of every kind with every attribute (plus one case per hostile text, put in every place that holds text, as key and as value), parsed, formatted, parsed again and compared as a whole, against the formatter's input and against the generated resources; " +
			"non-trivial when a step, service, secret, registry or condition is present",
		Assume: []string{"white space in encrypted (base64) data is layout, integers and floating point numbers of the same value are the same number",
			"mapping keys of more than 200 bytes are not generated (YAML limits implicit keys to 1024)",
			"texts spelled ~ or null are only generated where the YAML library can read them quoted"},
		Need: []string{"formatted", "tricky_texts", "resources", "registries", "secrets", "crons", "signatures", "steps"},
		Sections: []Section{
			{Name: "roundtrip", Quick: 8000, Thorough: 250000, Run: func(t *T) {
				o := &gopt{odd: t.P(50)}
				rs := o.resourcesOrNone(t, 4)
				s := renderAny(t, rs)
				t.Input("stream", s)
				m := parse(t, s)
				before := meaning(m)
				if ref := meaning(manifestOf(rs)); before != ref {
					t.Skip("misparsed (C02)")
				}
				f, m2 := reparsed(t, m, "the formatted configuration")
				if len(m2.Resources) != len(m.Resources) {
					t.Fail("%d resources formatted, %d parsed from the result:\n%s", len(m.Resources), len(m2.Resources), clip(f, 3000))
				}
				checkMeaning(t, before, m2, f, "the formatted configuration")
				t.Obs("formatted", 1)
				t.Obs("resources", len(rs))
				for _, r := range rs {
					switch v := r.(type) {
					case *yaml.Pipeline:
						t.Obs("steps", len(v.Steps)+len(v.Services))
						if len(v.Steps)+len(v.Services) > 0 {
							t.NonTrivial(s)
						}
					case *yaml.Registry:
						t.Obs("registries", 1)
						t.NonTrivial(s)
					case *yaml.Secret:
						t.Obs("secrets", 1)
						t.NonTrivial(s)
					case *yaml.Cron:
						t.Obs("crons", 1)
					case *yaml.Signature:
						t.Obs("signatures", 1)
					}
				}
				t.Seen("meanings", before)
			}},
			{Name: "texts", Quick: len(tricky), Thorough: len(tricky), Run: func(t *T) {
				s := tricky[t.idx]
				t.Input("text", fmt.Sprintf("%q", s))
				p := trickyPipeline(s)
				sec := &yaml.Secret{Kind: "secret", Type: s, Name: s, Data: s, Get: yaml.SecretGet{Path: s, Name: s, Key: s}}
				cr := &yaml.Cron{Kind: "cron", Type: s, Name: s, Spec: yaml.CronSpec{Schedule: s, Branch: s, Deploy: yaml.CronDeployment{Target: s}}}
				reg := &yaml.Registry{Kind: "registry", Type: s, Data: map[string]string{s: s, "x": s}}
				sig := &yaml.Signature{Kind: "signature", Hmac: s}
				if s == "<<" { // no ordinary key
					t.Skip("merge key")
				}
				rs := []yaml.Resource{p, sec, cr, reg, sig}
				m := manifestOf(rs)
				f, m2 := reparsed(t, m, "the formatted configuration")
				if len(m2.Resources) != len(rs) {
					t.Fail("%d resources formatted, %d parsed from the result:\n%s", len(rs), len(m2.Resources), clip(f, 3000))
				}
				checkMeaning(t, meaning(m), m2, f, "the formatted configuration")
				t.Obs("tricky_texts", 1)
				t.NonTrivial(s)
			}},
			{Name: "minimal", Quick: 2000, Thorough: 30000, Run: func(t *T) {
				// nearly empty resources: what is there only by its presence
				o := &gopt{}
				p := &yaml.Pipeline{Kind: "pipeline", Name: "a"}
				for i, n := 0, t.Range(1, 3); i < n; i++ {
					c := &yaml.Container{}
					switch t.IntN(14) {
					case 0:
						c.Build = &yaml.Build{}
					case 1:
						c.Build = &yaml.Build{Context: o.s(t)}
					case 2:
						c.Ports = []*yaml.Port{{}, {Port: 1}, {Host: 1}, {Protocol: "udp"}}[t.IntN(4):]
					case 3:
						c.Environment = map[string]*yaml.Variable{"A": {}, "B": nil, "C": {Value: "x"}}
					case 4:
						c.Settings = map[string]*yaml.Parameter{"a": {Value: ""}, "b": {Value: 0}, "c": {Value: false}, "d": {Value: []interface{}{}}, "e": {Value: map[interface{}]interface{}{}}, "f": nil, "g": {Value: 0.0}}
					case 5:
						c.Volumes = []*yaml.VolumeMount{{}, {Name: "a"}, {MountPath: "b"}}[t.IntN(3):]
					case 6:
						c.Devices = []*yaml.VolumeDevice{{}, {Name: "a"}, {DevicePath: "b"}}[t.IntN(3):]
					case 7:
						c.Name = o.s(t)
					case 8:
						c.When = o.conditions(t, 100)
					case 9:
						c.When.Matrix = map[string]string{"a": ""}
					case 10:
						c.Resources = &yaml.Resources{Limits: &yaml.ResourceObject{CPU: 0.5}}
					case 11:
						c.Commands = []string{""}
					case 12:
						c.Resources = &yaml.Resources{Requests: &yaml.ResourceObject{Memory: o.size(t)}}
					}
					if t.Bool() {
						p.Steps = append(p.Steps, c)
					} else {
						p.Services = append(p.Services, c)
					}
				}
				for i := 0; i < 3 && t.P(40); i++ {
					v := &yaml.Volume{}
					switch t.IntN(5) {
					case 0:
						v.EmptyDir = &yaml.VolumeEmptyDir{}
					case 1:
						v.HostPath = &yaml.VolumeHostPath{}
					case 2:
						v.EmptyDir = &yaml.VolumeEmptyDir{SizeLimit: o.size(t)}
					case 3:
						v.Name, v.HostPath = "x", &yaml.VolumeHostPath{Path: "/"}
					}
					p.Volumes = append(p.Volumes, v)
				}
				if t.P(30) {
					p.Trigger = o.conditions(t, 100)
				}
				rs := []yaml.Resource{p, &yaml.Secret{Kind: "secret", Name: t.Pick("", "a"), Data: t.Pick("", "", "QUJD", "QUJD\n", "QU JD"), Get: yaml.SecretGet{Key: t.Pick("", "k")}},
					&yaml.Registry{Kind: "registry"}, &yaml.Cron{Kind: "cron"}, &yaml.Signature{Kind: "signature"}}
				t.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
				s := render(t, rs)
				t.Input("stream", s)
				m := parse(t, s)
				before := meaning(m)
				f, m2 := reparsed(t, m, "the formatted configuration")
				if len(m2.Resources) != len(m.Resources) {
					t.Fail("%d resources formatted, %d parsed from the result:\n%s", len(m.Resources), len(m2.Resources), clip(f, 3000))
				}
				checkMeaning(t, before, m2, f, "the formatted configuration")
				t.Obs("formatted", 1)
				t.NonTrivial(s)
			}},
		},
	})

	register(&Prop{
		ID:   "C04",
		Rule: "random manifests, formatted twice, formatted after reparsing, and two independently styled renderings of the same resources formatted; the byte structure of every output is scanned; non-trivial with a pipeline that has steps",
		Need: []string{"formatted", "renderings_compared", "output_lines", "idempotent"},
		Sections: []Section{
			{Name: "stable", Quick: 2500, Thorough: 60000, Run: func(t *T) {
				o := &gopt{odd: t.P(50)}
				rs := o.resourcesOrNone(t, 4)
				a, b := renderAny(t, rs), renderAny(t, rs)
				t.Input("first text", a)
				t.Input("second text", b)
				ma, mb := parse(t, a), parse(t, b)
				fa := printAll(ma)
				checkShape(t, fa, len(rs))
				for i := 0; i < 3; i++ {
					if f := printAll(ma); f != fa {
						t.Fail("formatting the same configuration twice gives different texts:\n%s", canonDiff(fa, f))
					}
				}
				w := new(countWriter)
				pretty.Print(struct{ io.Writer }{w}, ma)
				if w.buf.String() != fa {
					t.Fail("the text depends on the writer")
				}
				t.Obs("formatted", 1)
				if fb := printAll(mb); fb != fa {
					t.Fail("two texts of the same configuration are formatted differently:\n%s", canonDiff(fa, fb))
				}
				t.Obs("renderings_compared", 1)
				again, err := yaml.ParseString(fa)
				if err != nil {
					t.Fail("the formatted configuration cannot be parsed: %v\n%s", err, clip(fa, 3000))
				}
				if f := printAll(again); f != fa {
					t.Fail("formatting is not stable:\n%s", canonDiff(fa, f))
				}
				t.Obs("idempotent", 1)
				t.Seen("outputs", fa)
				if strings.Contains(fa, "\nsteps:") {
					t.NonTrivial(fa)
				}
			}},
			{Name: "empty", Quick: 1, Thorough: 1, Run: func(t *T) {
				if f := printAll(&yaml.Manifest{}); f != "...\n" {
					t.Fail("an empty manifest is formatted as %q", f)
				}
			}},
		},
	})
}
