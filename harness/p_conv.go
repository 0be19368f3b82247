package main

import (
	"fmt"
	"os"
	"path"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/converter"
)

// ---- pre-1.0 configurations: a model and its notation ----

type oldSecret struct{ source, target string }
type oldMount struct {
	source, target string
	mode           string
}

type oldContainer struct {
	name       string
	image      string
	commands   []string
	command    []string
	entrypoint []string
	env        map[string]string
	secrets    []oldSecret
	settings   map[string]interface{}
	dns, dnss  []string
	hosts      []string
	privileged bool
	detach     bool
	pull       bool
	volumes    []oldMount
	when       map[string]yaml.Condition
	whenMatrix map[string]string
}

type oldExternal struct {
	name string
	path string // where it is kept
	key  string
	form string // vault, path or driver
}

type oldConfig struct {
	base, dir string
	clone     []*oldContainer
	pipeline  []*oldContainer
	services  []*oldContainer
	branches  yaml.Condition
	secrets   []oldExternal
	axes      []oldAxis           // a matrix by axes ...
	combos    []map[string]string // ... or by combinations
	matrix    bool
}

type oldAxis struct {
	name   string
	values []string
}

// oldKey is the key of a mapping the old format reads as a text.
func oldKey(t *T) string {
	for {
		k := t.word()
		if t.P(20) {
			k = t.ident()
		}
		if !resolves(k) {
			return k
		}
	}
}

var reservedOld = map[string]bool{"command": true, "commands": true, "detach": true, "devices": true, "allow_failure": true, "tmpfs": true, "dns": true,
	"dns_search": true, "entrypoint": true, "environment": true, "extra_hosts": true, "image": true, "name": true, "privileged": true, "pull": true,
	"shell": true, "volumes": true, "secrets": true, "when": true}

type oldOpt struct {
	o    *gopt
	vars []string // matrix variables to use in texts
}

func (g *oldOpt) s(t *T) string {
	s := g.o.s(t)
	if len(g.vars) > 0 && t.P(35) {
		v := "${" + g.vars[t.IntN(len(g.vars))] + "}"
		switch t.IntN(4) {
		case 0:
			return v
		case 1:
			return s + v
		case 2:
			return v + s
		default:
			return s + v + t.word() + v
		}
	}
	if t.P(4) {
		return t.Pick("${NO_AXIS}", "$GO_VERSION", "${", "${}", "$${X}", "${drone_branch}")
	}
	return s
}

func (g *oldOpt) list(t *T, pct, max int) []string {
	if !t.P(pct) {
		return nil
	}
	var l []string
	for i, n := 0, t.count(max); i < n; i++ {
		l = append(l, g.s(t))
	}
	return l
}

func (g *oldOpt) value(t *T, depth int) interface{} {
	v := g.o.value(t, depth)
	var walk func(v interface{}) interface{}
	walk = func(v interface{}) interface{} {
		switch x := v.(type) {
		case string:
			if len(g.vars) > 0 && t.P(40) {
				return g.s(t)
			}
		case []interface{}:
			for i := range x {
				x[i] = walk(x[i])
			}
		case map[interface{}]interface{}:
			m := map[interface{}]interface{}{}
			for _, k := range sortedIfaceKeys(x) {
				nk := k
				if s, ok := k.(string); ok && (resolves(s) || strings.Contains(s, "$")) {
					nk = "key-" + oldKey(t)
				}
				m[nk] = walk(x[k])
			}
			return m
		}
		return v
	}
	return walk(v)
}

func sortedIfaceKeys(m map[interface{}]interface{}) []interface{} {
	var l []interface{}
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return l
}

var oldConds = []string{"ref", "repo", "instance", "environment", "event", "branch", "status"}

func (g *oldOpt) container(t *T, name string) *oldContainer {
	c := &oldContainer{name: name}
	c.image = g.o.image(t)
	if len(g.vars) > 0 && t.P(50) {
		c.image = "golang:${" + g.vars[t.IntN(len(g.vars))] + "}"
	}
	c.commands = g.list(t, 60, 3)
	c.command = g.list(t, 15, 3)
	c.entrypoint = g.list(t, 15, 3)
	c.dns = g.list(t, 10, 2)
	c.dnss = g.list(t, 10, 2)
	c.hosts = g.list(t, 10, 2)
	c.privileged = t.P(15)
	c.detach = t.P(15)
	c.pull = t.P(30)
	if t.P(40) {
		c.env = map[string]string{}
		for i, n := 0, t.count(3); i < n; i++ {
			k := oldKey(t)
			if len(g.vars) > 0 && t.P(10) {
				k = "${" + g.vars[0] + "}_" + k
			}
			c.env[k] = g.s(t)
		}
	}
	if t.P(40) {
		used := map[string]bool{}
		for k := range c.env {
			used[strings.ToUpper(k)] = true
		}
		for i, n := 0, t.count(3); i < n; i++ {
			src := oldKey(t)
			tgt := src
			if t.P(40) {
				tgt = "plugin_" + oldKey(t)
			}
			if t.P(15) {
				src = g.s(t)
				if tgt == "" || src == "" {
					continue
				}
				if tgt != src {
					tgt = "x_" + oldKey(t)
				}
			}
			if used[strings.ToUpper(tgt)] {
				continue
			}
			used[strings.ToUpper(tgt)] = true
			c.secrets = append(c.secrets, oldSecret{src, tgt})
		}
	}
	if t.P(50) {
		c.settings = map[string]interface{}{}
		for i, n := 0, t.count(3); i < n; i++ {
			k := oldKey(t)
			if reservedOld[k] {
				continue
			}
			c.settings[k] = g.value(t, 2)
			if m, ok := c.settings[k].(map[interface{}]interface{}); ok {
				delete(m, "from_secret") // a reference in the new format
			}
		}
	}
	if t.P(30) {
		for i, n := 0, t.count(3); i < n; i++ {
			m := oldMount{source: t.Pick("/var/run/docker.sock", "/var/lib/cache", "/tmp/x", "/a b", "/ü", t.path(), t.path()), target: t.Pick("/var/run/docker.sock", "/cache", "/x", t.path()),
				mode: t.Pick("", "", ":ro", ":rw")}
			if len(g.vars) > 0 && t.P(25) {
				m.source += "/${" + g.vars[t.IntN(len(g.vars))] + "}"
			}
			c.volumes = append(c.volumes, m)
		}
	}
	if t.P(40) {
		c.when = map[string]yaml.Condition{}
		for _, k := range oldConds {
			if !t.P(30) {
				continue
			}
			vals := []string{"master", "feature/*", "success", "failure"}
			if t.P(20) {
				vals = append(vals, branchPool...)
			}
			if k == "event" {
				vals = []string{"push", "tag", "deployment", "deploy", "pull_request", "promote"}
			}
			cond := g.o.condition(t, 100, vals...)
			if len(g.vars) > 0 && t.P(25) && len(cond.Include) > 0 && k != "event" {
				cond.Include[0] = "${" + g.vars[t.IntN(len(g.vars))] + "}"
			}
			c.when[k] = cond
		}
	}
	return c
}

func (g *oldOpt) config(t *T) *oldConfig {
	c := &oldConfig{}
	if t.P(35) {
		c.base = t.Pick("", "/go", "/drone", "/work space")
		c.dir = t.Pick("", "src", "src/github.com/octocat/x", ".", "/abs")
	}
	names := func(n int, pre string) []string {
		var l []string
		for i := 0; i < n; i++ {
			s := fmt.Sprintf("%s%d-%s", pre, i, t.word())
			if t.P(15) {
				s = g.o.s(t)
				if resolves(s) || strings.Contains(s, "$") {
					s = "x" + s
				}
			}
			l = append(l, s)
		}
		return l
	}
	stepNames := names(t.count(5), "step")
	if t.P(25) {
		for _, n := range names(t.Range(1, 2), "clone") {
			if t.P(30) {
				n = stepNames[t.IntN(len(stepNames))] // the same name as a step
			}
			if len(c.clone) == 1 && c.clone[0].name == n {
				continue
			}
			c.clone = append(c.clone, g.container(t, n))
		}
	}
	seen := map[string]bool{}
	for _, n := range stepNames {
		if seen[n] {
			continue
		}
		seen[n] = true
		c.pipeline = append(c.pipeline, g.container(t, n))
	}
	// names that look like the ones duplicates are given
	if len(c.clone) > 0 && t.P(50) {
		n := c.clone[0].name + "_" + strconv.Itoa(t.Range(0, len(c.pipeline)+1))
		if !seen[n] {
			c.pipeline = append(c.pipeline, g.container(t, n))
		}
	}
	seen = map[string]bool{}
	if t.P(50) {
		for _, n := range names(t.Range(1, 3), "svc") {
			if !seen[n] {
				seen[n] = true
				c.services = append(c.services, g.container(t, n))
			}
		}
	}
	c.branches = g.o.condition(t, 35, append([]string{"master", "develop", "feature/*", "release-?", "master", "develop"}, branchPool...)...)
	seen = map[string]bool{}
	for i := 0; i < 3 && t.P(25); i++ {
		k := oldKey(t)
		if seen[k] {
			continue
		}
		seen[k] = true
		e := oldExternal{name: k, path: t.Pick("secret/"+t.word(), "secret/"+t.word(), strings.TrimPrefix(t.path(), "~")), form: t.Pick("vault", "path", "driver")}
		if e.form == "driver" && t.P(80) {
			e.key = t.word()
		}
		c.secrets = append(c.secrets, e)
	}
	return c
}

// oldNote writes the model down.
type oldNote struct {
	w *noter
	// base, if not nil, collects what goes into a merged mapping
	merge bool
	bases []string
}

func (w *oldNote) list(n *N, k string, l []string) {
	if len(l) == 1 && w.w.t.P(40) {
		n.set(k, textN(l[0]))
		return
	}
	w.w.putList(n, k, l)
}

func (w *oldNote) hostList(n *N, k string, l []string) {
	w.w.putList(n, k, l)
}

func (w *oldNote) container(c *oldContainer) *N {
	t := w.w.t
	n := mapN()
	w.w.put(n, "image", c.image)
	w.list(n, "commands", c.commands)
	w.list(n, "command", c.command)
	w.list(n, "entrypoint", c.entrypoint)
	w.list(n, "dns", c.dns)
	w.list(n, "dns_search", c.dnss)
	w.hostList(n, "extra_hosts", c.hosts)
	w.w.putBool(n, "privileged", c.privileged)
	w.w.putBool(n, "detach", c.detach)
	w.w.putBool(n, "pull", c.pull)
	if len(c.env) > 0 {
		asList := t.P(40)
		for k := range c.env {
			if strings.Contains(k, "=") {
				asList = false
			}
		}
		if asList {
			var l []string
			for _, k := range sortedKeys(c.env) {
				l = append(l, k+"="+c.env[k])
			}
			if t.P(15) { // 0.8 took no notice of entries without a value
				i := t.IntN(len(l) + 1)
				l = append(l[:i:i], append([]string{t.Pick("HOME", "NO_VALUE", "", "a b", "x:y")}, l[i:]...)...)
			}
			n.set("environment", textSeq(l))
		} else {
			x := mapN()
			for _, k := range sortedKeys(c.env) {
				v := c.env[k]
				if v == "true" || v == "false" || isCanonicalInt(v) {
					x.set(k, raw(v))
				} else {
					x.set(k, str(v))
				}
			}
			n.set("environment", x)
		}
	}
	if len(c.secrets) > 0 {
		short := true
		for _, s := range c.secrets {
			if s.source != s.target {
				short = false
			}
		}
		if short && t.P(60) {
			var l []string
			for _, s := range c.secrets {
				l = append(l, s.source)
			}
			n.set("secrets", textSeq(l))
		} else {
			x := seq()
			for _, s := range c.secrets {
				x.items = append(x.items, mapN().set("source", textN(s.source)).set("target", textN(s.target)))
			}
			n.set("secrets", x)
		}
	}
	if len(c.volumes) > 0 {
		x := seq()
		for _, v := range c.volumes {
			x.items = append(x.items, textN(v.source+":"+v.target+v.mode))
		}
		n.set("volumes", x)
	}
	if len(c.when)+len(c.whenMatrix) > 0 {
		x := mapN()
		for _, k := range oldConds {
			if cond, ok := c.when[k]; ok {
				x.set(k, w.w.condition(cond))
			}
		}
		if len(c.whenMatrix) > 0 {
			m := mapN()
			for _, k := range sortedKeys(c.whenMatrix) {
				m.set(k, str(c.whenMatrix[k]))
			}
			x.set("matrix", m)
		}
		n.set("when", x)
	}
	var ks []string
	for k := range c.settings {
		ks = append(ks, k)
	}
	sortStrings(ks)
	for _, k := range ks {
		n.set(k, valueN(c.settings[k]))
	}
	firm(n)
	n.shuffle(t)
	if w.merge && len(n.keys) > 1 && t.P(60) {
		w.moveToBase(n)
	}
	return n
}

// firm makes sure that texts are spelled as texts.
func firm(n *N) {
	if n.k == kText {
		n.k = kStr
	}
	for _, x := range n.items {
		firm(x)
	}
	for _, x := range n.vals {
		firm(x)
	}
}

func isCanonicalInt(s string) bool {
	n, err := strconv.Atoi(s)
	return err == nil && strconv.Itoa(n) == s
}

// moveToBase moves some attributes of a mapping to another one that is
// merged back with a merge key.
func (w *oldNote) moveToBase(n *N) {
	t := w.w.t
	base := mapN()
	rest := mapN()
	for i, k := range n.keys {
		if t.Bool() {
			base.set(k, n.vals[i])
			if t.P(25) { // overridden
				base.vals[len(base.vals)-1] = []*N{n.vals[i].clone(), str("not-this"), strs([]string{"not-this", "nor-that"}), mapN().set("not", text("this"))}[t.IntN(4)]
				t.Obs("merged attributes overridden", 1)
				rest.set(k, n.vals[i])
			}
		} else {
			rest.set(k, n.vals[i])
		}
	}
	if len(base.keys) == 0 {
		return
	}
	name := fmt.Sprintf("base%d", len(w.bases))
	e := &emitter{t: t, st: Style{Canonical: true}}
	w.bases = append(w.bases, "&"+name+" "+e.flow(base))
	*n = *mapN().setRaw("<<", raw("*"+name))
	n.keys = append(n.keys, rest.keys...)
	n.vals = append(n.vals, rest.vals...)
}

func (w *oldNote) section(cs []*oldContainer) *N {
	n := mapN()
	for _, c := range cs {
		n.set(c.name, w.container(c))
	}
	return n
}

func (w *oldNote) text(c *oldConfig) string {
	t := w.w.t
	n := mapN()
	if c.base != "" || c.dir != "" {
		x := mapN()
		w.w.put(x, "base", c.base)
		w.w.put(x, "path", c.dir)
		n.set("workspace", x)
	}
	if len(c.clone) > 0 {
		n.set("clone", w.section(c.clone))
	}
	n.set("pipeline", w.section(c.pipeline))
	if len(c.services) > 0 {
		n.set("services", w.section(c.services))
	}
	if len(c.branches.Include)+len(c.branches.Exclude) > 0 {
		n.set("branches", w.w.condition(c.branches))
	}
	if len(c.secrets) > 0 {
		x := mapN()
		for _, s := range c.secrets {
			m := mapN()
			switch s.form {
			case "vault":
				m.set("vault", text(s.path))
			case "path":
				m.set("path", text(s.path))
			default:
				o := mapN().set("path", text(s.path))
				if s.key != "" {
					o.set("key", text(s.key))
				}
				m.set("driver", text("vault")).set("driver_opts", o)
			}
			x.set(s.name, m)
		}
		n.set("secrets", x)
	}
	if c.matrix {
		x := mapN()
		if len(c.combos) > 0 {
			l := seq()
			for _, m := range c.combos {
				y := mapN()
				for _, k := range sortedKeys(m) {
					y.set(k, textN(m[k]))
				}
				y.shuffle(t)
				l.items = append(l.items, y)
			}
			x.set("include", l)
		} else {
			for _, a := range c.axes {
				x.set(a.name, textSeq(a.values))
			}
		}
		n.set("matrix", x)
	}
	if !w.w.long {
		// the order of the sections does not matter
		perm := t.Perm(len(n.keys))
		m := mapN()
		for _, i := range perm {
			m.set(n.keys[i], n.vals[i])
		}
		n = m
	}
	e := &emitter{t: t, st: Style{}}
	for i, b := range w.bases {
		e.b.WriteString(fmt.Sprintf("x-base%d: %s\n", i, b))
	}
	e.block(t.warped(n), 0, false)
	s := e.b.String()
	if t.P(15) {
		s = "---\n" + s
	}
	if t.P(15) {
		s = "# a comment\n\n" + s
	}
	return s
}

// oldText writes a configuration in some notation.
func oldText(t *T, c *oldConfig, merge bool) string {
	w := &oldNote{w: &noter{t: t}, merge: merge}
	return w.text(c)
}

// ---- what the configurations mean, in terms of the current format ----

type newMount struct{ host, target string }

// newContainer is what a container has to become.
type newContainer struct {
	c      *yaml.Container
	mounts []newMount
}

type newPipeline struct {
	p        *yaml.Pipeline
	steps    []*newContainer
	services []*newContainer
	hosts    []string // every host volume
}

func (c *oldContainer) expect() *newContainer {
	x := &yaml.Container{Name: c.name, Image: c.image, Commands: c.commands, Command: c.command, Entrypoint: c.entrypoint, DNS: c.dns, DNSSearch: c.dnss,
		ExtraHosts: c.hosts, Privileged: c.privileged, Detach: c.detach, Pull: "if-not-exists"}
	if c.pull {
		x.Pull = "always"
	}
	x.Environment = map[string]*yaml.Variable{}
	for k, v := range c.env {
		x.Environment[k] = &yaml.Variable{Value: v}
	}
	for _, s := range c.secrets {
		x.Environment[strings.ToUpper(s.target)] = &yaml.Variable{Secret: s.source}
	}
	x.Settings = map[string]*yaml.Parameter{}
	for k, v := range c.settings {
		x.Settings[k] = &yaml.Parameter{Value: v}
	}
	conv := func(k string) yaml.Condition {
		cond := c.when[k]
		out := yaml.Condition{Include: append([]string(nil), cond.Include...), Exclude: append([]string(nil), cond.Exclude...)}
		if k == "event" {
			for _, l := range [][]string{out.Include, out.Exclude} {
				for i := range l {
					if l[i] == "deploy" || l[i] == "deployment" {
						l[i] = "promote"
					}
				}
			}
		}
		return out
	}
	x.When = yaml.Conditions{Ref: conv("ref"), Repo: conv("repo"), Instance: conv("instance"), Target: conv("environment"), Event: conv("event"),
		Branch: conv("branch"), Status: conv("status"), Matrix: c.whenMatrix}
	n := &newContainer{c: x}
	for _, v := range c.volumes {
		n.mounts = append(n.mounts, newMount{v.source, v.target})
	}
	return n
}

// expect is the converted pipeline but for the combination of the matrix.
func (c *oldConfig) expect(remote string) *newPipeline {
	p := &yaml.Pipeline{Kind: "pipeline", Name: "default"}
	p.Platform.OS, p.Platform.Arch = "linux", "amd64"
	p.Workspace.Base, p.Workspace.Path = c.base, c.dir
	if c.dir == "." {
		p.Workspace.Path = ""
	}
	if remote != "" {
		if p.Workspace.Base == "" {
			p.Workspace.Base = "/drone"
		}
		if p.Workspace.Path == "" {
			p.Workspace.Path = remotePath(remote)
		}
	}
	n := &newPipeline{p: p}
	p.Clone.Disable = len(c.clone) > 0
	for _, l := range [][]*oldContainer{c.clone, c.pipeline} {
		for _, x := range l {
			n.steps = append(n.steps, x.expect())
		}
	}
	for _, x := range c.services {
		n.services = append(n.services, x.expect())
	}
	seen := map[string]bool{}
	for _, l := range [][]*newContainer{n.steps, n.services} {
		for _, x := range l {
			for _, m := range x.mounts {
				if !seen[m.host] {
					seen[m.host] = true
					n.hosts = append(n.hosts, m.host)
				}
			}
		}
	}
	if len(c.branches.Include) > 0 && len(c.branches.Exclude) == 0 {
		refs := []string{"refs/pull/**", "refs/pull-requests/**", "refs/merge-requests/**"}
		for _, b := range c.branches.Include {
			refs = append(refs, "refs/heads/"+b)
		}
		for _, s := range n.steps {
			for _, e := range s.c.When.Event.Include {
				if e == "tag" {
					refs = append(refs, "refs/tags/**")
				}
			}
		}
		p.Trigger.Ref.Include = sortedStrings(uniq(refs))
	} else {
		p.Trigger.Branch = c.branches
	}
	return n
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func remotePath(remote string) string {
	m := regexp.MustCompile(`^[a-z]+://(?:[^/@]*@)?([^/:]+)(?::[0-9]+)?/*(.*?)/?$`).FindStringSubmatch(remote)
	if m == nil {
		return "src"
	}
	return "src/" + m[1] + "/" + m[2]
}

// substitute replaces texts everywhere in a value.
func substitute(v reflect.Value, f func(string) string) reflect.Value {
	switch v.Kind() {
	case reflect.String:
		c := reflect.New(v.Type()).Elem()
		c.SetString(f(v.String()))
		return c
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(substitute(v.Elem(), f))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type()).Elem()
		c.Set(substitute(v.Elem(), f))
		return c
	case reflect.Struct:
		c := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			c.Field(i).Set(substitute(v.Field(i), f))
		}
		return c
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(substitute(v.Index(i), f))
		}
		return c
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			c.SetMapIndex(substitute(k, f), substitute(v.MapIndex(k), f))
		}
		return c
	}
	return v
}

// textual turns the scalars of a setting into texts.
func textual(v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case []interface{}:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = textual(x[i])
		}
		return l
	case map[interface{}]interface{}:
		m := map[interface{}]interface{}{}
		for k, e := range x {
			m[fmt.Sprint(k)] = textual(e)
		}
		return m
	}
	return fmt.Sprint(v)
}

// oldForm is everything about a converted pipeline that matters, as text: the
// names of volumes and the notation of settings (loose) do not.
func oldForm(p *yaml.Pipeline, loose bool) (string, error) {
	q := deepCopy(reflect.ValueOf(p)).Interface().(*yaml.Pipeline)
	var mounts strings.Builder
	vols := map[string]string{}
	var hosts []string
	for _, v := range q.Volumes {
		if v.HostPath == nil || v.EmptyDir != nil {
			return "", fmt.Errorf("the volume %q is not a host volume", v.Name)
		}
		if _, ok := vols[v.Name]; ok {
			return "", fmt.Errorf("the volume %q is declared twice", v.Name)
		}
		vols[v.Name] = v.HostPath.Path
		hosts = append(hosts, v.HostPath.Path)
	}
	q.Volumes = nil
	fmt.Fprintf(&mounts, "declared: %q\n", sortedStrings(hosts))
	var err error
	eachContainer(q, func(kind string, i int, c *yaml.Container) {
		for _, m := range c.Volumes {
			h, ok := vols[m.Name]
			if !ok {
				err = fmt.Errorf("%s %d mounts the undeclared volume %q", kind, i, m.Name)
			}
			fmt.Fprintf(&mounts, "%s %d: %q at %q\n", kind, i, h, m.MountPath)
		}
		c.Volumes = nil
		for _, s := range c.Settings {
			if s != nil && loose {
				s.Value = textual(s.Value)
			}
		}
	})
	sort.Strings(q.Trigger.Ref.Include)
	q.Trigger.Ref.Include = uniq(q.Trigger.Ref.Include)
	q.Name = ""
	return digitsOf.ReplaceAllString(canon(q, canonOpt{looseNum: true}), "") + "\n" + mounts.String(), err
}

// build makes the pipeline that is expected for the given combination.
func (n *newPipeline) build(combo map[string]string) *yaml.Pipeline {
	var steps, services []*newContainer
	pick := func(l []*newContainer) (out []*newContainer) {
		for _, x := range l {
			ok := true
			if combo != nil {
				for k, v := range x.c.When.Matrix {
					if got, has := combo[k]; !has || got != v {
						ok = false
					}
				}
			}
			if ok {
				out = append(out, x)
			}
		}
		return
	}
	steps, services = pick(n.steps), pick(n.services)
	p := *n.p
	names := map[string]string{}
	for i, h := range n.hosts {
		names[h] = fmt.Sprintf("volume%d", i)
		p.Volumes = append(p.Volumes, &yaml.Volume{Name: names[h], HostPath: &yaml.VolumeHostPath{Path: h}})
	}
	add := func(l []*newContainer) (out []*yaml.Container) {
		for _, x := range l {
			c := *x.c
			for _, m := range x.mounts {
				c.Volumes = append(c.Volumes, &yaml.VolumeMount{Name: names[m.host], MountPath: m.target})
			}
			out = append(out, &c)
		}
		return
	}
	p.Steps, p.Services = add(steps), add(services)
	if combo == nil {
		return &p
	}
	return substitute(reflect.ValueOf(&p), func(s string) string { return expandVars(s, combo) }).Interface().(*yaml.Pipeline)
}

// expandVars replaces ${name} from left to right.
func expandVars(s string, combo map[string]string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "${") {
			if j := strings.IndexByte(s[i:], '}'); j > 0 {
				if v, ok := combo[s[i+2:i+j]]; ok {
					b.WriteString(v)
					i += j + 1
					continue
				}
			}
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// settleNames checks the names of steps and takes over the ones duplicates
// were given.
func settleNames(t *T, n *newPipeline, got []*yaml.Container) {
	if len(got) != len(n.steps) {
		return
	}
	seen := map[string]bool{}
	want := map[string]int{}
	for _, s := range n.steps {
		want[s.c.Name]++
	}
	kept := map[string]int{}
	for _, g := range got {
		if seen[g.Name] {
			t.Fail("two steps are named %q", g.Name)
		}
		seen[g.Name] = true
		kept[g.Name]++
	}
	for i, s := range n.steps {
		if want[s.c.Name] > 1 {
			// one of the duplicates keeps the name
			if kept[s.c.Name] == 0 {
				t.Fail("no step is named %q any more", s.c.Name)
			}
			if got[i].Name != s.c.Name {
				t.Obs("renamed steps", 1)
			}
			s.c.Name = got[i].Name
		}
	}
}

func mustConvert(t *T, s string, m converter.Metadata) string {
	out, err := converter.Convert([]byte(s), m)
	if err != nil {
		t.Fail("the conversion fails: %v", err)
	}
	return string(out)
}

// converted parses a conversion's result.
func converted(t *T, out string) ([]*yaml.Pipeline, []*yaml.Secret) {
	t.Input("converted", out)
	m, err := yaml.ParseString(out)
	if err != nil {
		t.Fail("the converted configuration does not parse: %v", err)
	}
	var ps []*yaml.Pipeline
	var ss []*yaml.Secret
	for _, r := range m.Resources {
		switch r := r.(type) {
		case *yaml.Pipeline:
			ps = append(ps, r)
		case *yaml.Secret:
			ss = append(ss, r)
		default:
			t.Fail("the converted configuration has a %T", r)
		}
	}
	return ps, ss
}

func checkExternal(t *T, c *oldConfig, got []*yaml.Secret) {
	want := map[string]*yaml.Secret{}
	for _, e := range c.secrets {
		s := &yaml.Secret{Kind: "secret", Name: e.name}
		s.Get.Path, s.Get.Name = e.path, e.key
		want[e.name] = s
	}
	if len(got) != len(want) {
		t.Fail("%d external secrets, want %d", len(got), len(want))
	}
	for _, g := range got {
		w := want[g.Name]
		if w == nil {
			t.Fail("unexpected (or repeated) secret %q", g.Name)
		}
		if !same(w, g) {
			t.Fail("external secret: %s", canonDiff(canon(w, canonOpt{}), canon(g, canonOpt{})))
		}
		delete(want, g.Name)
		t.Obs("external secrets", 1)
	}
}

var remotes = []string{"", "", "https://github.com/octocat/hello-world", "https://github.com:8080/octocat/hello-world/", "http://git.company.com/a/b/c", "not a url", "https://token@github.com/octocat/x.git"}

func checkAgain(t *T, s, out string, m converter.Metadata, times int) {
	for i := 0; i < times; i++ {
		if again := mustConvert(t, s, m); again != out {
			t.Fail("another result for the same input: %s", canonDiff(out, again))
		}
		t.Obs("repeated conversions", 1)
	}
	if s2, err := converter.ConvertString(s, m); err != nil || s2 != out {
		t.Fail("the string variant gives another result (%v): %s", err, canonDiff(out, s2))
	}
}

func observeOld(t *T, ps []*yaml.Pipeline) {
	for _, p := range ps {
		t.Obs("pipelines", 1)
		t.Obs("steps", len(p.Steps))
		t.Obs("services", len(p.Services))
		t.Obs("volumes", len(p.Volumes))
		eachContainer(p, func(kind string, i int, c *yaml.Container) {
			t.Obs("settings", len(c.Settings))
			t.Obs("variables", len(c.Environment))
			if !isZeroText(canon(c.When, canonOpt{})) {
				t.Obs("conditions", 1)
			}
		})
		if len(p.Trigger.Ref.Include) > 0 {
			t.Obs("branch filters", 1)
		}
	}
}

func oldCase(t *T, c *oldConfig, s, remote string) {
	t.Input("config", s)
	t.Input("remote", remote)
	m := converter.Metadata{Filename: t.Pick(".drone.yml", "", "x.yml", ".travis.yml"), URL: remote, Ref: t.Pick("", "refs/heads/master")}
	out := mustConvert(t, s, m)
	ps, ss := converted(t, out)
	checkExternal(t, c, ss)
	if len(ps) != 1 {
		t.Fail("%d pipelines, want one", len(ps))
	}
	want := c.expect(remote)
	settleNames(t, want, ps[0].Steps)
	w, _ := oldForm(want.build(nil), false)
	g, err := oldForm(ps[0], false)
	if err != nil {
		t.Fail("%v", err)
	}
	if w != g {
		t.Fail("the converted pipeline differs: %s", canonDiff(w, g))
	}
	if ps[0].Name == "" {
		t.Fail("the pipeline has no name")
	}
	observeOld(t, ps)
	t.Seen("configurations", g)
	checkAgain(t, s, out, m, 1)
	t.NonTrivial(s)
}

func init() {
	register(&Prop{
		ID:     "C20",
		Rule:   "random pre-1.0 configurations, in all notations and with merge keys, are converted and parsed back; the result is compared with what an independent model of the old format expects: steps, services, volumes by the host path behind every mount, settings, secrets, conditions, triggers; non-trivial always",
		Assume: []string{"the old format reads scalars inside containers as typed YAML values; texts that resolve to something else are quoted in the input", "a step that is merged into a section under the name of another one is generated nowhere: the old format allows a name to be repeated"},
		Need:   []string{"pipelines", "steps", "services", "volumes", "settings", "variables", "conditions", "branch filters", "external secrets", "renamed steps", "repeated conversions", "merged", "switches", "wrong kinds refused"},
		Sections: []Section{
			{Name: "convert", Quick: 12000, Thorough: 600000, Run: func(t *T) {
				g := &oldOpt{o: &gopt{plainText: t.P(40)}}
				c := g.config(t)
				oldCase(t, c, oldText(t, c, false), remotes[t.IntN(len(remotes))])
			}},
			{Name: "merge", Quick: 4000, Thorough: 100000, Run: func(t *T) {
				g := &oldOpt{o: &gopt{plainText: t.P(40)}}
				c := g.config(t)
				w := &oldNote{w: &noter{t: t}, merge: true}
				s := w.text(c)
				if len(w.bases) > 0 {
					t.Obs("merged", len(w.bases))
				}
				oldCase(t, c, s, remotes[t.IntN(len(remotes))])
			}},
			{Name: "wrong kinds", Quick: 3000, Thorough: 60000, Run: oldWrong},
			{Name: "sections", Quick: 1500, Thorough: 20000, Run: func(t *T) {
				// steps and services merged from elsewhere as a whole
				g := &oldOpt{o: &gopt{plainText: true}}
				c := g.config(t)
				c.clone = nil
				w := &oldNote{w: &noter{t: t, long: true}}
				all := w.section(c.pipeline)
				k := t.Range(1, len(all.keys))
				base := &N{k: kMap, keys: all.keys[:k], vals: all.vals[:k]}
				e := &emitter{t: t, st: Style{Canonical: true}}
				merged := mapN().setRaw("<<", raw("*steps"))
				merged.keys = append(merged.keys, all.keys[k:]...)
				merged.vals = append(merged.vals, all.vals[k:]...)
				first := "x-steps: &steps " + e.flow(base) + "\n"
				c2 := *c
				c2.pipeline = nil
				rest := (&oldNote{w: &noter{t: t, long: true}}).text(&c2)
				e2 := &emitter{t: t, st: Style{Canonical: true}}
				e2.block(mapN().set("pipeline", merged), 0, false)
				text := e2.b.String()
				i := strings.Index(text, "\n")
				text = "pipeline:" + text[i:]
				rest = regexp.MustCompile(`(?m)^["']?pipeline["']?:.*\n`).ReplaceAllString(rest, "")
				rest = regexp.MustCompile(`(?m)^---\n`).ReplaceAllString(rest, "")
				t.Obs("merged", 1)
				oldCase(t, c, first+rest+text, "")
			}},
			{Name: "switches", Quick: 600, Thorough: 6000, Serial: true, Run: func(t *T) {
				g := &oldOpt{o: &gopt{plainText: true}}
				c := g.config(t)
				if t.P(70) {
					c.base = t.Pick("", "", "/go", "/drone", "/work space")
					c.dir = t.Pick("", "", "src", "src/github.com/octocat/x", ".", "/abs")
				}
				remote := remotes[t.IntN(len(remotes))]
				s := oldText(t, c, false)
				kube, cl, pull := t.Bool(), t.Bool(), t.Bool()
				set := func(on bool, k string) {
					if on {
						os.Setenv(k, "true")
					} else {
						os.Unsetenv(k)
					}
				}
				set(kube, "DRONE_CONVERT_YAML_LEGACY_TO_KUBERNETES")
				set(cl, "DRONE_CONVERT_YAML_LEGACY_CLONE")
				set(pull, "DRONE_CONVERT_YAML_DEFAULT_PULL_SECRETS")
				defer func() {
					set(false, "DRONE_CONVERT_YAML_LEGACY_TO_KUBERNETES")
					set(false, "DRONE_CONVERT_YAML_LEGACY_CLONE")
					set(false, "DRONE_CONVERT_YAML_DEFAULT_PULL_SECRETS")
				}()
				t.Input("config", s)
				t.Input("switches", fmt.Sprint(kube, cl, pull, remote))
				ps, ss := converted(t, mustConvert(t, s, converter.Metadata{URL: remote}))
				checkExternal(t, c, ss)
				if len(ps) != 1 {
					t.Fail("%d pipelines, want one", len(ps))
				}
				want := c.expect(remote)
				if kube {
					want.p.Type = "kubernetes"
					want.p.Workspace.Base = ""
					b, d := c.base, c.dir
					if d == "." {
						d = ""
						if c.base == "" {
							d = "" // the base itself
						}
					}
					if b == "" {
						b = "/drone"
					}
					if c.dir == "" {
						d = remotePath(remote)
					}
					want.p.Workspace.Path = path.Join(b, d)
				}
				if cl && len(c.clone) == 0 {
					want.p.Clone.Disable = true
					want.steps = append([]*newContainer{{c: &yaml.Container{Name: "clone", Image: "plugins/git", Pull: "if-not-exists"}}}, want.steps...)
				}
				if pull {
					want.p.PullSecrets = []string{".dockerconfigjson"}
				}
				settleNames(t, want, ps[0].Steps)
				w, _ := oldForm(want.build(nil), false)
				gf, err := oldForm(ps[0], false)
				if err != nil {
					t.Fail("%v", err)
				}
				if w != gf {
					t.Fail("the converted pipeline differs: %s", canonDiff(w, gf))
				}
				t.Obs("switches", 1)
				t.NonTrivial(s + fmt.Sprint(kube, cl, pull))
			}},
		},
	})
	register(&Prop{
		ID:     "C21",
		Rule:   "random pre-1.0 configurations with a matrix (axes or combinations) whose values are hostile texts used in images, commands, variables, settings and conditions; the converted pipelines, as a multiset, are compared with the model's for every combination; repeated conversions have to agree; non-trivial always",
		Need:   []string{"pipelines", "steps", "combinations", "restricted containers", "restricted by several", "substitutions", "repeated conversions", "explicit", "largest matrix", "many variables", "wrong kinds refused"},
		Assume: []string{"values do not contain variables themselves", "at most 10 axes and 25 combinations (the limits the converter documents)"},
		Sections: []Section{
			{Name: "matrix", Quick: 2000, Thorough: 100000, Run: func(t *T) { matrixCase(t) }},
			{Name: "wrong kinds", Quick: 1000, Thorough: 20000, Run: matrixWrong},
			{Name: "degenerate", Quick: 200, Thorough: 2000, Run: func(t *T) {
				// a matrix without any value is no matrix
				g := &oldOpt{o: &gopt{plainText: true}}
				c := g.config(t)
				s := oldText(t, c, false) + t.Pick("matrix: {}\n", "matrix:\n", "matrix: ~\n", "matrix: {GO: []}\n", "matrix: {include: []}\n", "matrix:\n  GO:\n")
				t.Obs("combinations", 1)
				oldCase(t, c, s, "")
			}},
			{Name: "emptyaxis", Quick: 200, Thorough: 2000, Run: func(t *T) {
				g := &oldOpt{o: &gopt{plainText: true}, vars: []string{"GO"}}
				c := g.config(t)
				c.matrix = true
				if len(c.clone) > 0 {
					c.clone[0].name = "own-clone"
					c.clone = c.clone[:1]
				}
				c.axes = []oldAxis{{"GO", []string{"1.10", "1.11"}[:t.Range(1, 2)]}, {"EMPTY", nil}}
				matrixCheck(t, c)
			}},
		},
	})
}

func matrixCase(t *T) {
	names := []string{"GO_VERSION", "REDIS", "OS", "X", "go", "A1", "NODE.VERSION", "B", "C_2", "zz"}
	t.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	val := func() string {
		for {
			var s string
			switch t.IntN(4) {
			case 0:
				s = t.Pick("1.10", "1.9", "1", "2", "true", "false", "1e3", "0x10", "010", "1_000", "2019-01-01", "no", "linux", "windows")
			case 1:
				s = t.word()
			case 2:
				if t.P(12) {
					return ""
				}
				s = t.anyString()
			default:
				s = t.neString()
			}
			if !strings.Contains(s, "${") && s != "~" && s != "null" {
				return s
			}
		}
	}
	c := &oldConfig{}
	var axes []oldAxis
	total := 1
	var sizes []int
	switch t.IntN(10) {
	case 0: // as many combinations as there may be
		sizes = [][]int{{25}, {5, 5}, {1, 25}, {24}, {2, 3, 4}, {6, 4}, {5, 1, 5}, {23}, {2, 12}}[t.IntN(9)]
		t.Obs("largest matrix", 1)
	case 1: // as many variables as there may be
		for i, n := 0, t.Range(5, 10); i < n; i++ {
			sizes = append(sizes, 1)
		}
		sizes[t.IntN(len(sizes))] = t.Range(1, 4)
		sizes[t.IntN(len(sizes))] = t.Range(1, 3)
		t.Obs("many variables", 1)
	default:
		for i, n := 0, t.Range(1, 4); i < n; i++ {
			sizes = append(sizes, t.Range(1, 4))
		}
	}
	for i, k := range sizes {
		a := oldAxis{name: names[i]}
		for j := 0; j < k && total*(j+1) <= 25; j++ {
			v := val()
			if k > 10 {
				v = fmt.Sprintf("%s.%d", v, j)
			}
			dup := false
			for _, x := range a.values {
				dup = dup || x == v
			}
			if !dup {
				a.values = append(a.values, v)
			}
		}
		if len(a.values) == 0 {
			break
		}
		total *= len(a.values)
		axes = append(axes, a)
	}
	var vars []string
	for _, a := range axes {
		vars = append(vars, a.name)
	}
	g := &oldOpt{o: &gopt{plainText: t.P(50)}, vars: vars}
	c = g.config(t)
	c.matrix = true
	c.axes = axes
	names2 := map[string]bool{}
	for _, x := range c.pipeline {
		names2[x.name] = true
	}
	for _, x := range c.clone {
		if names2[x.name] { // C20 covers the duplicates
			x.name = "own-" + x.name
		}
	}
	restrict := func(l []*oldContainer) {
		for _, x := range l {
			if !t.P(40) {
				continue
			}
			x.whenMatrix = map[string]string{}
			for _, a := range axes {
				if t.P(60) {
					x.whenMatrix[a.name] = a.values[t.IntN(len(a.values))]
				}
			}
			if t.P(8) {
				x.whenMatrix["NO_AXIS"] = "x"
			}
		}
	}
	restrict(c.clone)
	restrict(c.pipeline)
	restrict(c.services)
	if t.P(30) {
		// explicit combinations, not necessarily of all variables
		seen := map[string]bool{}
		for i, n := 0, t.Range(1, 6); i < n; i++ {
			m := map[string]string{}
			for _, a := range axes {
				if t.P(85) {
					m[a.name] = a.values[t.IntN(len(a.values))]
				}
			}
			k := fmt.Sprintf("%q", m)
			if len(m) > 0 && !seen[k] {
				seen[k] = true
				c.combos = append(c.combos, m)
			}
		}
		if len(c.combos) > 0 {
			t.Obs("explicit", 1)
		}
	}
	matrixCheck(t, c)
}

func matrixCheck(t *T, c *oldConfig) {
	s := oldText(t, c, t.P(20))
	t.Input("config", s)
	m := converter.Metadata{URL: remotes[t.IntN(len(remotes))]}
	out := mustConvert(t, s, m)
	ps, ss := converted(t, out)
	checkExternal(t, c, ss)
	combos := c.combos
	if len(combos) == 0 {
		combos = []map[string]string{{}}
		for _, a := range c.axes {
			if len(a.values) == 0 {
				continue
			}
			var next []map[string]string
			for _, m := range combos {
				for _, v := range a.values {
					n := map[string]string{a.name: v}
					for k, x := range m {
						n[k] = x
					}
					next = append(next, n)
				}
			}
			combos = next
		}
	}
	if len(ps) != len(combos) {
		t.Fail("%d pipelines for %d combinations", len(ps), len(combos))
	}
	names := map[string]bool{}
	var got []string
	for _, p := range ps {
		if p.Name == "" || names[p.Name] {
			t.Fail("the name %q is used for two pipelines", p.Name)
		}
		names[p.Name] = true
		g, err := oldForm(p, true)
		if err != nil {
			t.Fail("%v", err)
		}
		got = append(got, g)
	}
	base := c.expect(m.URL)
	for _, p := range ps {
		seen := map[string]bool{}
		for _, x := range p.Steps {
			if seen[x.Name] {
				t.Fail("two steps of %q are named %q", p.Name, x.Name)
			}
			seen[x.Name] = true
		}
	}
	var want []string
	subst := 0
	for _, combo := range combos {
		w, err := oldForm(base.build(combo), true)
		if err != nil {
			t.Broken("%v", err)
		}
		want = append(want, w)
		subst += strings.Count(w, "\n")
	}
	left := map[string]int{}
	for _, g := range got {
		left[g]++
	}
	for i, w := range want {
		if left[w] == 0 {
			t.Fail("no pipeline is right for the combination %q: %s", combos[i], closest(w, got))
		}
		left[w]--
	}
	for _, w := range want {
		t.Seen("combinations", w)
	}
	t.Obs("combinations", len(combos))
	if strings.Contains(s, "${") {
		t.Obs("substitutions", 1)
	}
	for _, l := range [][]*oldContainer{c.clone, c.pipeline, c.services} {
		for _, x := range l {
			if len(x.whenMatrix) > 0 {
				t.Obs("restricted containers", 1)
			}
			if len(x.whenMatrix) > 1 {
				t.Obs("restricted by several", 1)
			}
		}
	}
	observeOld(t, ps)
	checkAgain(t, s, out, m, 2)
	t.NonTrivial(s)
}

// closest shows how the expected differs from the most similar observed.
func closest(want string, got []string) string {
	best, diff := -1, ""
	for _, g := range got {
		a, b := strings.Split(want, "\n"), strings.Split(g, "\n")
		n := 0
		for n < len(a) && n < len(b) && a[n] == b[n] {
			n++
		}
		if n > best {
			best, diff = n, canonDiff(want, g)
		}
	}
	return diff
}
