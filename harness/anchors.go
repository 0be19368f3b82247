package main

import (
	"fmt"
	"strings"
)

// anchorer says parts of a document by reference: values, and attributes that
// are merged into a mapping, are written in templates of the document that no
// reader knows, and referred to where they belong.
type anchorer struct {
	t      *T
	names  map[string]string // by what they stand for
	lines  []string
	values []*N
	pct    int
}

var plainly = &emitter{st: Style{Canonical: true}}

func (a *anchorer) name(n *N, reuse bool) *N {
	s := plainly.flow(n)
	if at := a.names[s]; at != "" && reuse {
		a.t.Obs("anchors referred to again", 1)
		return raw("*" + at)
	}
	at := fmt.Sprintf("tpl%d", len(a.lines))
	a.names[s] = at
	a.lines = append(a.lines, "x-"+at)
	a.values = append(a.values, raw("&"+at+" "+s))
	return raw("*" + at)
}

func plainKeys(n *N) bool {
	seen := map[string]bool{}
	for _, k := range n.keys {
		if strings.HasPrefix(k, rawKey) || k == "<<" || seen[k] {
			return false
		}
		seen[k] = true
	}
	return true
}

// merge moves some attributes of a mapping to a template that is merged back.
// Attributes that are texts or lists may be overridden: what the decoder
// does with mappings in that case is its own affair.
func (a *anchorer) merge(n *N, key string) {
	t := a.t
	if len(n.keys) == 0 || !plainKeys(n) {
		return
	}
	base, rest := mapN(), mapN()
	for i, k := range n.keys {
		v := n.vals[i]
		switch {
		case t.P(40):
			base.set(k, v)
		case (key == "when" || key == "trigger") && k != "matrix" && t.P(60): // a condition in another form
			base.set(k, []*N{
				text("not-this"),
				strs([]string{"not-this", "nor-that"}),
				mapN().set("include", strs([]string{"not-this"})),
				mapN().set("exclude", strs([]string{"not-this", "nor-that"})),
				mapN().set("include", strs([]string{"not-this"})).set("exclude", strs([]string{"nor-that"})),
			}[t.IntN(5)])
			rest.set(k, v)
			t.Obs("merged conditions overridden", 1)
		case (v.k == kText || v.k == kStr) && t.P(40):
			x := v.clone()
			switch k {
			case "name", "image", "from_secret", "dockerfile", "path", "host":
				x = text("not-this")
			}
			base.set(k, x)
			rest.set(k, v)
			t.Obs("merged attributes overridden", 1)
		default:
			rest.set(k, v)
		}
	}
	if len(base.keys) == 0 {
		return
	}
	ref := a.name(base, true)
	*n = *mapN().setRaw("<<", ref)
	n.keys = append(n.keys, rest.keys...)
	n.vals = append(n.vals, rest.vals...)
	t.Obs("templates merged", 1)
}

func (a *anchorer) walk(n *N, key string, depth int) {
	t := a.t
	each := func(v *N, k string) *N {
		a.walk(v, k, depth+1)
		if depth == 0 && (k == "kind" || k == "type" || k == "version") {
			return v
		}
		if strings.HasPrefix(k, rawKey) || v.k == kRaw && (v.s == "" || strings.ContainsAny(v.s[:1], "&*!|>")) {
			return v
		}
		if v.k == kSeq && len(v.items) == 0 || v.k == kMap && len(v.keys) == 0 {
			return v
		}
		if a.names[plainly.flow(v)] != "" && t.P(60) || t.P(a.pct) {
			t.Obs("values by reference", 1)
			return a.name(v, true)
		}
		return v
	}
	for i, v := range n.vals {
		n.vals[i] = each(v, n.keys[i])
	}
	for i, v := range n.items {
		n.items[i] = each(v, "")
	}
	if n.k == kMap && depth > 0 && t.P(3*a.pct) {
		a.merge(n, key)
	}
}

// byReference is the same document with anchors, aliases and merge keys.
func byReference(t *T, n *N) *N {
	if n.k != kMap || !plainKeys(n) {
		return n
	}
	a := &anchorer{t: t, names: map[string]string{}, pct: t.Range(2, 10)}
	c := n.clone()
	a.walk(c, "", 0)
	if len(a.lines) == 0 {
		return n
	}
	d := mapN()
	for i, k := range a.lines {
		d.set(k, a.values[i])
	}
	d.keys = append(d.keys, c.keys...)
	d.vals = append(d.vals, c.vals...)
	t.Obs("documents with anchors", 1)
	return d
}
