package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
	"github.com/drone/drone-yaml/yaml/linter"
	"github.com/drone/drone-yaml/yaml/pretty"
	"github.com/drone/drone-yaml/yaml/signer"
)

// verdicts is what the linter says about a manifest.
func verdicts(m *yaml.Manifest) string {
	var b strings.Builder
	for _, r := range m.Resources {
		if r.GetKind() == "signature" {
			continue
		}
		fmt.Fprintln(&b, r.GetKind(), errText(linter.Lint(r, false)), errText(linter.Lint(r, true)))
	}
	return b.String()
}

// manifestVerdict is what the linter says about the manifest as a whole.
// A signature is a resource of its own.
func manifestVerdict(m *yaml.Manifest) string { return errText(linter.Manifest(m, false)) }

// defaultPlatform is the platform that formatting makes explicit.
func defaultPlatform(m *yaml.Manifest) {
	for _, r := range m.Resources {
		if p, ok := r.(*yaml.Pipeline); ok && p.Platform == (yaml.Platform{}) {
			p.Platform.OS, p.Platform.Arch = "linux", "amd64"
		}
	}
}

// route is a way a configuration takes to where it is executed.
type route struct {
	name string
	go_  func(t *T, s string) *yaml.Manifest
}

var sameKey = signer.KeyString("correct-horse-batter-staple-and-more")

func formatted(t *T, s string) string {
	var b bytes.Buffer
	pretty.Print(&b, parse(t, s))
	return b.String()
}

var routes = []route{
	{"formatted", func(t *T, s string) *yaml.Manifest { return parse(t, formatted(t, s)) }},
	{"formatted twice", func(t *T, s string) *yaml.Manifest { return parse(t, formatted(t, formatted(t, s))) }},
	{"as json", func(t *T, s string) *yaml.Manifest {
		b, err := json.Marshal(parse(t, s))
		if err != nil {
			t.Fail("the manifest cannot be encoded as json: %v", err)
		}
		m := new(yaml.Manifest)
		if err := json.Unmarshal(b, m); err != nil {
			t.Fail("the json cannot be decoded: %v\n%s", err, clip(string(b), 2000))
		}
		return m
	}},
	{"as yaml", func(t *T, s string) *yaml.Manifest {
		b, err := parse(t, s).Encode()
		if err != nil {
			t.Fail("the manifest cannot be encoded as yaml: %v", err)
		}
		return parse(t, string(b))
	}},
	{"signed", func(t *T, s string) *yaml.Manifest {
		b, err := signer.SignUpdate([]byte(s), sameKey)
		if err != nil {
			t.Fail("the configuration cannot be signed: %v", err)
		}
		return parse(t, string(b))
	}},
	{"formatted and signed", func(t *T, s string) *yaml.Manifest {
		b, err := signer.SignUpdate([]byte(formatted(t, s)), sameKey)
		if err != nil {
			t.Fail("the configuration cannot be signed: %v", err)
		}
		return parse(t, string(b))
	}},
	{"signed and formatted", func(t *T, s string) *yaml.Manifest {
		b, err := signer.SignUpdate([]byte(s), sameKey)
		if err != nil {
			t.Fail("the configuration cannot be signed: %v", err)
		}
		return parse(t, formatted(t, string(b)))
	}},
}

func routeNames() (l []string) {
	for _, r := range routes {
		l = append(l, r.name)
	}
	return
}

func init() {
	register(&Prop{
		ID: "C29",
		Rule: "random configurations take a random route (formatted, formatted twice, through json, through yaml, signed, both in either order) and are parsed again; what the linter says about every resource and the whole, and what every pipeline compiles to with the same skip rules, privileged plugins and transforms (names, order, environment, secrets, mounts, policies) is compared with the configuration as written; " +
			"non-trivial always (the comparison covers lint verdicts of resources without a pipeline)",
		Need:   append([]string{"compared", "steps", "accepted", "refused"}, routeNames()...),
		Assume: []string{"formatting makes the default platform explicit, which both sides get", "the text of a float may change its notation, not its value"},
		Sections: []Section{
			{Name: "routes", Quick: 6000, Thorough: 200000, Run: func(t *T) {
				o := &gopt{maxSteps: 4, lintable: t.P(60), plainText: t.P(40)}
				var rs []yaml.Resource
				for i, n := 0, t.Range(1, 3); i < n; i++ {
					switch {
					case t.P(40):
						rs = append(rs, linted(t))
					case t.P(70):
						rs = append(rs, compilable(t, o))
					default:
						if r := o.resource(t); r.GetKind() != "signature" {
							rs = append(rs, r)
						}
					}
				}
				s := render(t, rs)
				t.Input("text", s)
				meta := metaFor(t)
				skip, priv := compiler.SkipFunc(meta), compiler.DindFunc([]string{"plugins/docker", "plugins/gcr"})
				tr := transform.Combine(transform.WithNetrc("github.com", "octocat", "pa55"), transform.WithSecretFunc(func(n string) *engine.Secret {
					return &engine.Secret{Metadata: engine.Metadata{Name: n}, Data: "data of " + n}
				}))
				run := func(m *yaml.Manifest) (l []string) {
					defaultPlatform(m)
					l = append(l, verdicts(m), manifestVerdict(m))
					for _, r := range m.Resources {
						if p, ok := r.(*yaml.Pipeline); ok {
							c := &compiler.Compiler{SkipFunc: skip, PrivilegedFunc: priv, TransformFunc: tr}
							l = append(l, plain(c.Compile(p)))
							t.Obs("steps", len(p.Steps))
						}
					}
					return
				}
				want := run(parse(t, s))
				r := routes[t.IntN(len(routes))]
				t.Input("route", r.name)
				got := run(r.go_(t, s))
				if len(got) != len(want) {
					t.Fail("%s: %d pipelines, want %d", r.name, len(got)-2, len(want)-2)
				}
				for i := range want {
					if !sameText(want[i], got[i]) {
						t.Fail("%s: %d: %s", r.name, i, canonDiff(want[i], got[i]))
					}
				}
				if want[1] == errText(nil) {
					t.Obs("accepted", 1)
				} else {
					t.Obs("refused", 1)
				}
				t.Obs(r.name, 1)
				t.Obs("compared", 1)
				t.NonTrivial(s)
			}},
		},
	})
}
