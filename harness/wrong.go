package main

import (
	"fmt"
	"strings"

	"github.com/drone/drone-yaml/yaml/converter"
)

// A converter must not guess: what it cannot read is refused, since what is
// left out of the result is a step, a filter or a secret less.

// wrongNode is a node that is none of the kinds in ok: "s" a text, "l" a list
// of texts, "L" any list, "m" a mapping.
func wrongNode(t *T, ok string) *N {
	var l []*N
	if !strings.Contains(ok, "s") {
		l = append(l, text("some text"))
	}
	if !strings.ContainsAny(ok, "lL") {
		l = append(l, strs([]string{"one", "two"}))
		if strings.Contains(ok, "s") {
			l = append(l, seq(mapN().set("a", text("b"))))
		}
	}
	if !strings.Contains(ok, "m") {
		l = append(l, mapN().set("some", text("thing")).set("other", strs([]string{"x"})))
	}
	if ok == "sl" || ok == "l" || ok == "lm" { // lists of something else
		l = append(l, seq(strs([]string{"one", "two"})))
	}
	if ok == "sl" || ok == "l" {
		l = append(l, seq(text("one"), mapN().set("a", text("b"))))
	}
	return l[t.IntN(len(l))]
}

type wrongPlace struct {
	path []string // "*" is any key, "0" any item
	ok   string
}

// deface gives a value of the document, one that stands at one of the places,
// a wrong kind, and says where. Mappings on the way may be merged ones: the
// value is added, or overrides.
func deface(t *T, doc *N, places []wrongPlace) (*N, string) {
	for try := 0; try < 30; try++ {
		p := places[t.IntN(len(places))]
		d := doc.clone()
		at, where := d, ""
		for i, k := range p.path {
			if at.k == kSeq && k == "0" && len(at.items) > 0 {
				j := t.IntN(len(at.items))
				where += fmt.Sprintf("[%d]", j)
				if i == len(p.path)-1 {
					at.items[j] = wrongNode(t, p.ok)
					return d, where
				}
				at = at.items[j]
				continue
			}
			if at.k != kMap {
				break
			}
			if k == "*" {
				var ks []string
				for _, x := range at.keys {
					if !strings.HasPrefix(x, rawKey) && (len(p.path) > i+1 || i > 0) {
						ks = append(ks, x)
					}
				}
				if len(ks) == 0 {
					break
				}
				k = ks[t.IntN(len(ks))]
			}
			where += "." + k
			next := at.get(k)
			if i == len(p.path)-1 {
				w := wrongNode(t, p.ok)
				if next == nil {
					if t.P(70) { // rather an attribute that is there
						break
					}
					at.set(k, w)
				} else {
					for x := range at.keys {
						if at.keys[x] == k {
							at.vals[x] = w
						}
					}
				}
				return d, where
			}
			if next == nil {
				break
			}
			at = next
		}
	}
	return nil, ""
}

func notConverted(t *T, what, s string, m converter.Metadata) {
	t.Input("config", s)
	t.Input("wrong", what)
	out, err := converter.Convert([]byte(s), m)
	if err == nil {
		t.Fail("a configuration whose %s is of the wrong kind is converted: %q", what, out)
	}
	if s2, err := converter.ConvertString(s, m); err == nil {
		t.Fail("a configuration whose %s is of the wrong kind is converted: %q", what, s2)
	}
	t.Obs("wrong kinds refused", 1)
	t.NonTrivial(s)
}

// defaced renders with a wrong kind at one of the places.
func defaced(t *T, places []wrongPlace, render func() string) (s, where string) {
	t.warp = func(n *N) *N {
		d, w := deface(t, n, places)
		where = w
		if d == nil {
			return n
		}
		return d
	}
	s = render()
	t.warp = nil
	if where == "" {
		t.Skip("nothing to spoil")
	}
	return s, where
}

var glPlaces = []wrongPlace{
	{[]string{"image"}, "sm"}, {[]string{"image", "name"}, "s"}, {[]string{"image", "entrypoint"}, "sl"},
	{[]string{"stages"}, "l"}, {[]string{"services"}, "L"}, {[]string{"services", "0"}, "sm"}, {[]string{"services", "0", "command"}, "sl"}, {[]string{"services", "0", "alias"}, "s"},
	{[]string{"before_script"}, "sl"}, {[]string{"after_script"}, "sl"},
	{[]string{"JOB"}, "m"}, {[]string{"JOB", "script"}, "sl"}, {[]string{"JOB", "before_script"}, "sl"}, {[]string{"JOB", "after_script"}, "sl"},
	{[]string{"JOB", "stage"}, "s"}, {[]string{"JOB", "image"}, "sm"}, {[]string{"JOB", "image", "name"}, "s"}, {[]string{"JOB", "image", "entrypoint"}, "sl"}, {[]string{"JOB", "allow_failure"}, ""},
}

func glWrong(t *T) {
	c := glGen(t)
	if len(c.jobs) == 0 {
		t.Skip("no jobs")
	}
	var ps []wrongPlace
	for _, p := range glPlaces {
		p.path = append([]string(nil), p.path...)
		if p.path[0] == "JOB" {
			p.path[0] = c.jobs[t.IntN(len(c.jobs))].name
		}
		ps = append(ps, p)
	}
	s, where := defaced(t, ps, func() string { return c.text(t) })
	notConverted(t, where, s, converter.Metadata{Filename: ".gitlab-ci.yml"})
}

var bbPlaces = func() (ps []wrongPlace) {
	ps = []wrongPlace{{[]string{"image"}, "sm"}, {[]string{"clone"}, "m"}, {[]string{"clone", "depth"}, "s"}, {[]string{"pipelines"}, "m"},
		{[]string{"pipelines", "tags"}, "m"}, {[]string{"pipelines", "branches"}, "m"},
		{[]string{"definitions"}, "m"}, {[]string{"definitions", "services"}, "m"}, {[]string{"definitions", "services", "*"}, "m"}, {[]string{"definitions", "services", "*", "image"}, "sm"}}
	for _, l := range [][]string{{"pipelines", "default"}, {"pipelines", "tags", "*"}, {"pipelines", "branches", "*"}} {
		at := func(ok string, more ...string) {
			ps = append(ps, wrongPlace{append(append([]string(nil), l...), more...), ok})
		}
		at("l")
		at("m", "0")
		for _, in := range [][]string{{"0", "step"}, {"0", "parallel", "0", "step"}} {
			at("m", in...)
			at("l", append(append([]string(nil), in...), "script")...)
			at("sm", append(append([]string(nil), in...), "image")...)
			at("s", append(append([]string(nil), in...), "name")...)
		}
		at("lm", "0", "parallel")
	}
	return
}()

func bbWrong(t *T) {
	c := bbGen(t)
	s, where := defaced(t, bbPlaces, func() string { return c.text(t) })
	notConverted(t, where, s, converter.Metadata{Filename: "bitbucket-pipelines.yml", Ref: t.Pick("", "refs/heads/master", "refs/tags/v1", "refs/heads/other")})
}

var oldPlaces = func() (ps []wrongPlace) {
	ps = []wrongPlace{{[]string{"workspace"}, "m"}, {[]string{"workspace", "base"}, "s"}, {[]string{"workspace", "path"}, "s"}, {[]string{"pipeline"}, "m"}, {[]string{"services"}, "m"}, {[]string{"clone"}, "m"},
		{[]string{"branches"}, "slm"}, {[]string{"branches", "include"}, "sl"}, {[]string{"branches", "exclude"}, "sl"},
		{[]string{"secrets"}, "m"}, {[]string{"secrets", "*"}, "m"}, {[]string{"secrets", "*", "vault"}, "s"}}
	for _, k := range []string{"pipeline", "services", "clone"} {
		at := func(ok string, more ...string) {
			ps = append(ps, wrongPlace{append([]string{k, "*"}, more...), ok})
		}
		at("m")
		for _, x := range []string{"commands", "command", "entrypoint", "dns", "dns_search"} {
			at("sl", x)
		}
		for _, x := range []string{"volumes", "extra_hosts"} {
			at("l", x)
		}
		at("lm", "environment")
		at("lm", "secrets")
		at("s", "image")
		for _, x := range []string{"pull", "privileged", "detach"} {
			at("", x)
		}
		at("m", "when")
		at("m", "when", "matrix")
		for _, x := range []string{"branch", "event", "ref", "repo", "instance", "status"} {
			at("sl", "when", x, "include")
			at("sl", "when", x, "exclude")
			ps = append(ps, wrongPlace{[]string{k, "*", "when", x}, "slm"})
		}
	}
	return
}()

func oldWrong(t *T) {
	g := &oldOpt{o: &gopt{plainText: true}}
	c := g.config(t)
	var ps []wrongPlace
	for _, p := range oldPlaces {
		if p.ok != "slm" {
			ps = append(ps, p)
		}
	}
	s, where := defaced(t, ps, func() string { return oldText(t, c, false) })
	notConverted(t, where, s, converter.Metadata{})
}

func matrixWrong(t *T) {
	g := &oldOpt{o: &gopt{plainText: true}}
	c := g.config(t)
	c.matrix = true
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		a := oldAxis{name: fmt.Sprintf("AXIS%d", i)}
		for j, n := 0, t.Range(1, 3); j < n; j++ {
			a.values = append(a.values, fmt.Sprint(t.word(), j))
		}
		c.axes = append(c.axes, a)
	}
	if t.P(40) {
		for _, v := range c.axes[0].values {
			c.combos = append(c.combos, map[string]string{c.axes[0].name: v})
		}
	}
	ps := []wrongPlace{{[]string{"matrix"}, "m"}, {[]string{"matrix", "*"}, "L"}}
	if len(c.combos) == 0 {
		ps = append(ps, wrongPlace{[]string{"matrix", "*", "0"}, "s"})
	}
	s, where := defaced(t, ps, func() string { return oldText(t, c, false) })
	notConverted(t, where, s, converter.Metadata{})
}
