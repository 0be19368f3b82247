package main

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/drone/drone-runtime/engine"
	"github.com/drone/drone-yaml/yaml/compiler"
	"github.com/drone/drone-yaml/yaml/compiler/transform"
)

// deepCopy copies everything v refers to.
func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(deepCopy(v.Elem()))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type()).Elem()
		c.Set(deepCopy(v.Elem()))
		return c
	case reflect.Struct:
		c := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			c.Field(i).Set(deepCopy(v.Field(i)))
		}
		return c
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(deepCopy(v.Index(i)))
		}
		return c
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			c.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return c
	}
	return v
}

func copySpec(s *engine.Spec) *engine.Spec {
	return deepCopy(reflect.ValueOf(s)).Interface().(*engine.Spec)
}

// specText is a spec without what is random in it: identifiers, and the
// names of volumes added from outside, which are called after their host
// path. Mounts, volumes and secrets are in no particular order.
func specText(s *engine.Spec, declared map[string]bool) string {
	s = copySpec(s)
	names := map[string]string{}
	for _, v := range s.Docker.Volumes {
		v.Metadata.UID = ""
		if v.HostPath != nil && !declared[v.Metadata.Name] {
			names[v.Metadata.Name] = "host:" + v.HostPath.Path
			v.Metadata.Name = names[v.Metadata.Name]
		}
	}
	sort.Slice(s.Docker.Volumes, func(i, j int) bool {
		return canon(s.Docker.Volumes[i], canonOpt{}) < canon(s.Docker.Volumes[j], canonOpt{})
	})
	for _, st := range s.Steps {
		for _, m := range st.Volumes {
			if n, ok := names[m.Name]; ok {
				m.Name = n
			}
		}
		sort.Slice(st.Volumes, func(i, j int) bool {
			return st.Volumes[i].Name+"\x00"+st.Volumes[i].Path < st.Volumes[j].Name+"\x00"+st.Volumes[j].Path
		})
		sort.Strings(st.Docker.Networks)
	}
	for _, sec := range s.Secrets {
		sec.Metadata.UID = ""
	}
	sort.Slice(s.Secrets, func(i, j int) bool {
		return canon(s.Secrets[i], canonOpt{}) < canon(s.Secrets[j], canonOpt{})
	})
	return canon(s, canonOpt{})
}

// change is a transform and what it promises.
type change struct {
	name  string
	fn    func(*engine.Spec)
	ref   func(*engine.Spec)
	empty bool
	check func() string // arguments as they were?
}

func refEnv(m map[string]string) func(*engine.Spec) {
	return func(s *engine.Spec) {
		for _, st := range s.Steps {
			for k, v := range m {
				st.Envs[k] = v
			}
		}
	}
}

func refVolumes(l [][2]string) func(*engine.Spec) {
	return func(s *engine.Spec) {
		for i, hv := range l {
			name := fmt.Sprintf("ref-%d-%d", len(s.Docker.Volumes), i)
			s.Docker.Volumes = append(s.Docker.Volumes, &engine.Volume{
				Metadata: engine.Metadata{Name: name, Namespace: s.Metadata.Namespace},
				HostPath: &engine.VolumeHostPath{Path: hv[0]},
			})
			for _, st := range s.Steps {
				st.Volumes = append(st.Volumes, &engine.VolumeMount{Name: name, Path: hv[1]})
			}
		}
	}
}

func (t *T) smallMap(keys []string, o *gopt, pct int) map[string]string {
	if t.P(pct) {
		return nil
	}
	m := map[string]string{}
	for i, n := 0, t.Range(0, 4); i < n; i++ {
		k := keys[t.IntN(len(keys))]
		if t.P(30) {
			k = o.key(t)
		}
		m[k] = o.s(t)
	}
	return m
}

// anyChange draws a transform for spec s.
func anyChange(t *T, s *engine.Spec, o *gopt) *change {
	var stepNames []string
	for _, st := range s.Steps {
		stepNames = append(stepNames, st.Metadata.Name)
	}
	pick := func() []string {
		var l []string
		if t.P(15) {
			return l
		}
		for i, n := 0, t.Range(0, 3); i < n; i++ {
			switch {
			case len(stepNames) > 0 && t.P(75):
				l = append(l, stepNames[t.IntN(len(stepNames))])
			case t.P(30):
				l = append(l, "clone")
			default:
				l = append(l, t.Pick("nobody", "", "CLONE"))
			}
		}
		return l
	}
	unchanged := func(name string, v interface{}) func() string {
		before := canon(v, canonOpt{})
		return func() string {
			if canon(v, canonOpt{}) != before {
				return name + " changes its arguments"
			}
			return ""
		}
	}
	switch t.IntN(15) {
	case 0:
		m := t.smallMap([]string{"A", "GOPATH", "DRONE_WORKSPACE", "PLUGIN_DEPTH", "x"}, o, 10)
		return &change{"environ", transform.WithEnviron(m), refEnv(m), len(m) == 0, unchanged("WithEnviron", m)}
	case 1:
		m := t.smallMap([]string{"a", "io.drone.step.name", "io.drone.pipeline.name", "x"}, o, 10)
		return &change{"labels", transform.WithLables(m), func(s *engine.Spec) {
			put := func(meta *engine.Metadata) {
				for k, v := range m {
					if meta.Labels == nil {
						meta.Labels = map[string]string{}
					}
					meta.Labels[k] = v
				}
			}
			put(&s.Metadata)
			for _, v := range s.Docker.Volumes {
				put(&v.Metadata)
			}
			for _, st := range s.Steps {
				put(&st.Metadata)
			}
		}, len(m) == 0, unchanged("WithLables", m)}
	case 2:
		var l []string
		for i, n := 0, t.Range(0, 3); i < n; i++ {
			l = append(l, t.Pick("host", "bridge", "net-"+t.word()))
		}
		l = append(make([]string, 0, len(l)+t.IntN(3)), l...)
		return &change{"networks", transform.WithNetworks(l), func(s *engine.Spec) {
			for _, st := range s.Steps {
				st.Docker.Networks = append(append([]string{}, st.Docker.Networks...), l...)
			}
		}, len(l) == 0, unchanged("WithNetworks", l)}
	case 3:
		mem, cpu := int64(0), int64(0)
		if t.P(60) {
			mem = int64(t.IntN(1 << 30))
		}
		if t.P(60) {
			cpu = int64(t.IntN(1 << 14))
		}
		return &change{"limits", transform.WithLimits(mem, cpu), func(s *engine.Spec) {
			for _, st := range s.Steps {
				if mem == 0 && cpu == 0 {
					return
				}
				if st.Resources == nil {
					st.Resources = &engine.Resources{}
				}
				if st.Resources.Limits == nil {
					st.Resources.Limits = &engine.ResourceObject{}
				}
				if mem != 0 {
					st.Resources.Limits.Memory = mem
				}
				if cpu != 0 {
					st.Resources.Limits.CPU = cpu
				}
			}
		}, mem == 0 && cpu == 0, nil}
	case 4:
		a, b, c := t.Pick("github.com", "", "x"), t.Pick("octocat", "", o.s(t)), t.Pick("pa55", "", o.s(t))
		m := map[string]string{}
		if b != "" && c != "" {
			for _, pre := range []string{"CI_", "DRONE_"} {
				m[pre+"NETRC_MACHINE"], m[pre+"NETRC_USERNAME"], m[pre+"NETRC_PASSWORD"] = a, b, c
			}
		}
		return &change{"netrc", transform.WithNetrc(a, b, c), refEnv(m), len(m) == 0, nil}
	case 5, 6:
		var l []*engine.DockerAuth
		for i, n := 0, t.Range(0, 3); i < n; i++ {
			l = append(l, &engine.DockerAuth{Address: t.Pick("docker.io", "gcr.io"), Username: o.s(t), Password: o.s(t)})
		}
		l = append(make([]*engine.DockerAuth, 0, len(l)+t.IntN(3)), l...) // room behind the list is not the transform's
		ch := &change{"auths", transform.WithAuths(l), func(s *engine.Spec) {
			for _, a := range l {
				c := *a
				s.Docker.Auths = append(s.Docker.Auths, &c)
			}
		}, len(l) == 0, unchanged("WithAuths", l)}
		if t.Bool() {
			ch.name, ch.fn = "auths func", transform.WithAuthsFunc(func() []*engine.DockerAuth { return l })
		}
		return ch
	case 7:
		m := map[string]string{}
		var l [][2]string
		for i, n := 0, t.Range(0, 3); i < n; i++ {
			m[t.Pick("/var/lib", "/data", "C:\\x", "/"+t.word())] = t.Pick("/a", "/data", "C:\\y", "/"+t.word())
		}
		for k, v := range m {
			l = append(l, [2]string{k, v})
		}
		return &change{"volumes", transform.WithVolumes(m), refVolumes(l), len(l) == 0, unchanged("WithVolumes", m)}
	case 8:
		var l [][2]string
		var in []string
		seen := map[string]bool{}
		for i, n := 0, t.Range(0, 5); i < n; i++ {
			a, b := t.Pick("/var/lib", "/data", "/"+t.word()), t.Pick("/a", "/data", "/"+t.word())
			switch {
			case t.P(15):
				in = append(in, t.Pick(a, a+":"+b+":ro", "", "a:b:c:d"))
			default:
				in = append(in, a+":"+b)
				if !seen[a+":"+b] {
					l = append(l, [2]string{a, b})
				}
				seen[a+":"+b] = true
			}
		}
		return &change{"volume slice", transform.WithVolumeSlice(in), refVolumes(l), len(l) == 0, unchanged("WithVolumeSlice", in)}
	case 9:
		m := t.smallMap([]string{"a", "token", "password"}, o, 10)
		return &change{"secrets", transform.WithSecrets(m), func(s *engine.Spec) {
			for k, v := range m {
				s.Secrets = append(s.Secrets, &engine.Secret{Metadata: engine.Metadata{Name: k, Namespace: s.Metadata.Namespace}, Data: v})
			}
		}, len(m) == 0, unchanged("WithSecrets", m)}
	case 10:
		f := func(name string) *engine.Secret {
			if hash64(name)%3 == 0 {
				return nil
			}
			return &engine.Secret{Metadata: engine.Metadata{Name: name}, Data: "data of " + name}
		}
		return &change{"secret func", transform.WithSecretFunc(f), func(s *engine.Spec) {
			done := map[string]bool{}
			for _, st := range s.Steps {
				for _, v := range st.Secrets {
					if sec := f(v.Name); st.RunPolicy != engine.RunNever && sec != nil && !done[v.Name] {
						done[v.Name] = true
						sec.Metadata.Namespace = s.Metadata.Namespace
						s.Secrets = append(s.Secrets, sec)
					}
				}
			}
		}, false, nil}
	case 11, 12:
		l := pick()
		ch := &change{"include", transform.Include(l), nil, len(l) == 0, unchanged("Include", l)}
		ch.ref = func(s *engine.Spec) {
			for _, st := range s.Steps {
				if len(l) > 0 && st.Metadata.Name != "clone" && !oneOf(st.Metadata.Name, l...) {
					st.RunPolicy = engine.RunNever
				}
			}
		}
		return ch
	case 13:
		l := pick()
		return &change{"exclude", transform.Exclude(l), func(s *engine.Spec) {
			for _, st := range s.Steps {
				if st.Metadata.Name != "clone" && oneOf(st.Metadata.Name, l...) {
					st.RunPolicy = engine.RunNever
				}
			}
		}, len(l) == 0, unchanged("Exclude", l)}
	default:
		n := ""
		if l := pick(); len(l) > 0 {
			n = l[0]
		}
		return &change{"resume", transform.ResumeAt(n), func(s *engine.Spec) {
			for i := 0; n != "" && i < len(s.Steps) && s.Steps[i].Metadata.Name != n; i++ {
				if s.Steps[i].Metadata.Name != "clone" {
					s.Steps[i].RunPolicy = engine.RunNever
				}
			}
		}, n == "", nil}
	}
}

func init() {
	register(&Prop{
		ID: "C26",
		Rule: "random pipelines compiled and transformed by random sequences of transforms with random (also empty, overlapping and repeated) arguments, one by one, combined, and as part of the compilation; " +
			"the result is compared as a whole with a reference transformation of a copy, so that any lost, extra or misplaced change shows; non-trivial with a non-empty argument",
		Need: []string{"environ", "labels", "networks", "limits", "netrc", "auths", "auths func", "volumes", "volume slice", "secrets", "secret func", "include", "exclude", "resume", "empty", "combined", "added to two", "in compilation", "proxies"},
		Assume: []string{"a volume argument has exactly one colon; others are ignored, as the command line tool does", "resuming at an unknown step selects every step before it, that is all",
			"the order of added volumes and secrets does not matter"},
		Sections: []Section{
			{Name: "transforms", Quick: 12000, Thorough: 500000, Run: func(t *T) {
				o := &gopt{maxSteps: 4, lintable: t.P(50), plainText: t.P(50)}
				p := compilable(t, o)
				t.Input("pipeline", describe(p))
				comp := &compiler.Compiler{}
				if t.P(30) {
					comp.SkipFunc = compiler.SkipFunc(metaFor(t))
				}
				declared := map[string]bool{"_docker_socket": true}
				for _, v := range p.Volumes {
					declared[v.Name] = true
				}
				spec := compileWith(comp, p)
				var changes []*change
				var names []string
				for i, n := 0, t.Range(1, 5); i < n; i++ {
					c := anyChange(t, spec, o)
					changes = append(changes, c)
					names = append(names, c.name)
				}
				t.Input("transforms", strings.Join(names, ", "))
				want := copySpec(spec)
				other := copySpec(spec)
				step := copySpec(spec)
				var fns []func(*engine.Spec)
				for _, c := range changes {
					c.ref(want)
					fns = append(fns, c.fn)
					before := ""
					if c.empty {
						before = canon(step, canonOpt{})
					}
					c.fn(step)
					if c.empty {
						if d := canon(step, canonOpt{}); d != before {
							t.Fail("%s with an empty argument changes the pipeline: %s", c.name, canonDiff(before, d))
						}
						t.Obs("empty", 1)
					} else {
						t.NonTrivial(describe(p) + strings.Join(names, ","))
					}
					t.Obs(c.name, 1)
				}
				compare := func(how string, got *engine.Spec) {
					a, b := specText(want, declared), specText(got, declared)
					if a != b {
						t.Fail("%s %s: %s", how, strings.Join(names, ", "), canonDiff(a, b))
					}
				}
				compare("one by one", step)
				checkIdentifiers(t, step)
				// adding to one pipeline must not show in another
				transform.Combine(fns...)(other)
				compare("combined", other)
				compare("after another run", step)
				t.Obs("combined", 1)
				if t.P(50) { // more is added to both, and not the same
					plain, one, two := want, copySpec(want), copySpec(want)
					markWith(t, one, "one")
					markWith(t, two, "two")
					for i, s := range []*engine.Spec{step, other} {
						mark := []string{"one", "two"}[i]
						transform.Combine(transform.WithAuths([]*engine.DockerAuth{{Address: mark, Username: mark, Password: mark}}),
							transform.WithNetworks([]string{mark}), transform.WithEnviron(map[string]string{"MARK": mark}), transform.WithSecrets(map[string]string{mark: mark}),
							transform.WithLables(map[string]string{"mark": mark}), transform.WithVolumes(map[string]string{"/" + mark: "/" + mark}))(s)
					}
					want = one
					compare("before others are added to another pipeline,", step)
					want = two
					compare("after others are added to another pipeline,", other)
					want = plain
					t.Obs("added to two", 1)
				}
				if len(changes) > 1 && t.P(30) { // nested
					k := t.Range(1, len(fns)-1)
					nested := copySpec(spec)
					transform.Combine(transform.Combine(fns[:k]...), transform.Combine(), transform.Combine(fns[k:]...))(nested)
					compare("nested", nested)
				}
				if t.P(50) {
					comp.TransformFunc = transform.Combine(fns...)
					got := compileWith(comp, p)
					comp.TransformFunc = nil
					// everything random in the compilation but the transforms
					a, b := skeleton(want, declared), skeleton(got, declared)
					if a != b {
						t.Fail("in the compilation %s: %s", strings.Join(names, ", "), canonDiff(a, b))
					}
					t.Obs("in compilation", 1)
				}
				for _, c := range changes {
					if c.check != nil {
						if why := c.check(); why != "" {
							t.Fail("%s", why)
						}
					}
				}
			}},
			{Name: "proxy", Quick: 1500, Thorough: 20000, Serial: true, Run: func(t *T) {
				o := &gopt{maxSteps: 3, plainText: true}
				p := compilable(t, o)
				want := map[string]string{}
				var set []string
				vals := map[string]string{}
				for _, n := range []string{"http_proxy", "https_proxy", "no_proxy", "all_proxy"} {
					up, lo := "", ""
					if t.P(40) {
						up = t.Pick("http://proxy:80", "UP", " ", "a,b")
					}
					if t.P(40) {
						lo = t.Pick("http://proxy:81", "lo", "*")
					}
					v := up
					if v == "" {
						v = lo
					}
					vals[strings.ToUpper(n)], vals[n] = up, lo
					if v != "" && n != "all_proxy" {
						want[n], want[strings.ToUpper(n)] = v, v
					}
					set = append(set, fmt.Sprintf("%s=%q/%q", n, up, lo))
				}
				t.Input("pipeline", describe(p))
				t.Input("environment", strings.Join(set, " "))
				spec := compileWith(&compiler.Compiler{}, p)
				ref := copySpec(spec)
				for k, v := range vals {
					if v == "" {
						os.Unsetenv(k)
					} else {
						os.Setenv(k, v)
					}
				}
				fn := transform.WithProxy()
				for k := range vals {
					os.Unsetenv(k)
				}
				fn(spec)
				refEnv(want)(ref)
				if a, b := canon(ref, canonOpt{}), canon(spec, canonOpt{}); a != b {
					t.Fail("%s: %s", strings.Join(set, " "), canonDiff(a, b))
				}
				t.Obs("proxies", 1)
				if len(want) > 0 {
					t.NonTrivial(strings.Join(set, " ") + describe(p))
				}
			}},
		},
	})
}

// markWith adds what is called mark to everything that can be added to.
func markWith(t *T, s *engine.Spec, mark string) {
	s.Docker.Auths = append(s.Docker.Auths, &engine.DockerAuth{Address: mark, Username: mark, Password: mark})
	s.Secrets = append(s.Secrets, &engine.Secret{Metadata: engine.Metadata{Name: mark, Namespace: s.Metadata.Namespace}, Data: mark})
	for _, st := range s.Steps {
		st.Docker.Networks = append(st.Docker.Networks, mark)
	}
	refEnv(map[string]string{"MARK": mark})(s)
	put := func(m *engine.Metadata) {
		if m.Labels == nil {
			m.Labels = map[string]string{}
		}
		m.Labels["mark"] = mark
	}
	put(&s.Metadata)
	for _, v := range s.Docker.Volumes {
		put(&v.Metadata)
	}
	for _, st := range s.Steps {
		put(&st.Metadata)
	}
	refVolumes([][2]string{{"/" + mark, "/" + mark}})(s)
}

// skeleton is specText for specs of different compilations.
func skeleton(s *engine.Spec, declared map[string]bool) string {
	txt := specText(s, declared)
	rep := []string{}
	for id := range identifiers(s) {
		if len(id) >= 16 {
			rep = append(rep, id, "ID")
		}
	}
	for _, v := range s.Docker.Volumes {
		if len(v.Metadata.Name) == 32 && v.HostPath != nil && !declared[v.Metadata.Name] {
			rep = append(rep, v.Metadata.Name, "ID")
		}
	}
	return strings.NewReplacer(rep...).Replace(txt)
}
