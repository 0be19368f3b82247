package main

import (
	_ "crypto/sha512" // image digests of this kind are only known to programs that link it
	"fmt"
	"regexp"
	"strings"

	"github.com/drone/drone-yaml/yaml/compiler/image"
)

// ---- reference reading of image names ----

type refImg struct{ domain, path, tag, digest string }

var (
	reDomain   = regexp.MustCompile(`^(?:[a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9-]*[a-zA-Z0-9])(?:\.(?:[a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9-]*[a-zA-Z0-9]))*(?::[0-9]+)?$`)
	rePathComp = regexp.MustCompile(`^[a-z0-9]+(?:(?:[._]|__|-+)[a-z0-9]+)*$`)
	reTag      = regexp.MustCompile(`^[A-Za-z0-9_][A-Za-z0-9_.-]{0,127}$`)
	reHexID    = regexp.MustCompile(`^[a-f0-9]{64}$`)
	reDigest   = regexp.MustCompile(`^(sha256:[a-f0-9]{64}|sha384:[a-f0-9]{96}|sha512:[a-f0-9]{128})$`)
)

// refParse reads name as an image reference.
func refParse(name string) (r refImg, ok bool) {
	if reHexID.MatchString(name) || reDigest.MatchString(name) {
		return r, false // an identifier, not a name
	}
	rest := name
	if i := strings.IndexByte(rest, '@'); i >= 0 {
		r.digest = rest[i+1:]
		rest = rest[:i]
		if !reDigest.MatchString(r.digest) {
			return r, false
		}
	}
	r.domain = "docker.io"
	if i := strings.IndexByte(rest, '/'); i >= 0 {
		if d := rest[:i]; strings.ContainsAny(d, ".:") || d == "localhost" {
			r.domain, rest = d, rest[i+1:]
		}
	}
	if r.domain == "index.docker.io" {
		r.domain = "docker.io"
	}
	if i := strings.LastIndexByte(rest, ':'); i >= 0 {
		r.tag = rest[i+1:]
		rest = rest[:i]
		if !reTag.MatchString(r.tag) {
			return r, false
		}
	}
	if r.domain == "docker.io" && !strings.Contains(rest, "/") {
		rest = "library/" + rest
	}
	r.path = rest
	if !reDomain.MatchString(r.domain) {
		return r, false
	}
	for _, c := range strings.Split(r.path, "/") {
		if !rePathComp.MatchString(c) {
			return r, false
		}
	}
	if len(r.domain)+1+len(r.path) > 255 {
		return r, false
	}
	return r, true
}

func refExpand(name string) string {
	r, ok := refParse(name)
	if !ok {
		return name
	}
	s := r.domain + "/" + r.path
	if r.tag == "" && r.digest == "" {
		return s + ":latest"
	}
	if r.tag != "" {
		s += ":" + r.tag
	}
	if r.digest != "" {
		s += "@" + r.digest
	}
	return s
}

func refTrim(name string) string {
	r, ok := refParse(name)
	if !ok {
		return name
	}
	if r.domain != "docker.io" {
		return r.domain + "/" + r.path
	}
	if p := strings.TrimPrefix(r.path, "library/"); !strings.Contains(p, "/") {
		return p
	}
	return r.path
}

var imageParts = struct{ domains, paths, tags, digests []string }{
	[]string{"", "", "", "docker.io/", "index.docker.io/", "localhost/", "localhost:5000/", "gcr.io/", "quay.io/", "registry.company.com:5000/", "Registry.Company.com/", "my-host/", "a.b/", "10.0.0.1:80/", "registry-1.docker.io/", "docker.com/"},
	[]string{"golang", "library/golang", "octocat/hello-world", "a", "a/b/c/d", "foo_bar/baz__qux", "a.b/c", "x-y--z/w", "redis", "plugins/docker", "plugins/gcr", "library/a/b", "localhost", "library/library", "golang1", "go", "lang/golang", "library/redis"},
	[]string{"", "", ":latest", ":1", ":1.11", ":1.11-alpine", ":V2", ":_x", ":latest.1", ":" + strings.Repeat("t", 128)},
	[]string{"", "", "", "", "@sha256:e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "@sha256:" + strings.Repeat("0", 64), "@sha512:" + strings.Repeat("a", 128)},
}

var badImages = []string{"", ":", "/", "@", "Golang", "octocat/Hello", "golang:", "golang:/x", "golang@sha256:abc", "go lang", "golang:latest ", " golang", "a//b", "/a", "a/", "-a", "a-", "a/-b", "a..b/c", "http://x/y", "golang:1:2", "golang:-x", "${IMAGE}", "golang:${TAG}", "golang:" + strings.Repeat("t", 129), "golang@md5:d41d8cd98f00b204e9800998ecf8427e", "gol\nang", "日本", "library/", ":latest", "a___b", "_a", "docker.io/", "docker.io//a", "golang@", "golang@sha256:" + strings.Repeat("G", 64), "GCR.io/Foo", "foo/bar:baz:qux", "x:y/z", "a.b/C", "localhost:x/y", "host:5000", "sha256:" + strings.Repeat("a", 64), strings.Repeat("f", 64), strings.Repeat("a/", 130) + "b"}

// imageName is a name, mostly of a valid image.
func (t *T) imageName() string {
	if t.P(12) {
		return badImages[t.IntN(len(badImages))]
	}
	if t.P(6) { // random text over the alphabet of names
		const abc = "abAB01.:/@- golangdocker.io/library"
		b := make([]byte, t.Range(1, 14))
		for i := range b {
			b[i] = abc[t.IntN(len(abc))]
		}
		return string(b)
	}
	p := &imageParts
	pick := func(l []string) string { return l[t.IntN(len(l))] }
	return pick(p.domains) + pick(p.paths) + pick(p.tags) + pick(p.digests)
}

// respell writes the same image in another way.
func (t *T) respell(name string) string {
	r, ok := refParse(name)
	if !ok {
		return name
	}
	s := r.domain + "/" + r.path
	if r.domain == "docker.io" {
		s = t.Pick("docker.io/", "index.docker.io/") + r.path
		first := strings.SplitN(r.path, "/", 2)[0]
		if strings.Contains(r.path, "/") && !strings.ContainsAny(first, ".:") && first != "localhost" && t.P(50) {
			s = r.path
		}
		if p := strings.TrimPrefix(r.path, "library/"); p != r.path && !strings.Contains(p, "/") && !reHexID.MatchString(p) && t.P(50) {
			s = t.Pick(p, "docker.io/"+p, "index.docker.io/"+p)
		}
	}
	if r.tag == "latest" && r.digest == "" && t.P(50) {
		r.tag = ""
	} else if r.tag == "" && r.digest == "" && t.P(50) {
		r.tag = "latest"
	}
	if r.tag != "" {
		s += ":" + r.tag
	}
	if r.digest != "" {
		s += "@" + r.digest
	}
	return s
}

// nearly returns a name that differs a little, and may denote the same image
// or none at all.
func (t *T) nearly(name string) string {
	switch t.IntN(4) {
	case 0:
		return t.Pick("library/", "docker.io/", "docker.io/library/", "index.docker.io/", "localhost/", " ", "/") + name
	case 1:
		return name + t.Pick(":latest", ":1", ":", "@", "/", " ", "/x")
	case 2:
		if i := strings.LastIndexAny(name, ":@/"); i >= 0 {
			return t.Pick(name[:i], name[i+1:], name[:i]+":latest")
		}
		return strings.ToUpper(name)
	}
	return t.Pick(strings.ToUpper(name), strings.ToLower(name), strings.TrimSpace(name), strings.TrimPrefix(name, "library/"), strings.TrimPrefix(name, "docker.io/"))
}

func init() {
	register(&Prop{
		ID: "C24",
		Rule: "pairs and triples of image names (every combination of registries, paths, tags and digests, other spellings of the same image, malformed names, random text over the alphabet of names) compared with an independent reading of the reference grammar; " +
			"the grid section covers all combinations of the parts; non-trivial when both names of a pair are valid",
		Assume: []string{"host names with underscores, which no registry has, are not generated", "hexadecimal identifiers of 64 digits in the library namespace are not generated as paths"},
		Need:   []string{"expanded", "trimmed", "pairs matching", "pairs not matching", "pairs matching with tag", "hosts", "invalid names", "grid"},
		Sections: []Section{
			{Name: "pairs", Quick: 60000, Thorough: 1500000, Run: func(t *T) {
				a := t.imageName()
				b := t.imageName()
				if t.P(40) {
					b = t.respell(a)
				} else if t.P(15) { // what looks like another spelling
					b = t.nearly(a)
				}
				c := t.imageName()
				if t.P(40) {
					c = t.respell(b)
				}
				t.Input("names", fmt.Sprintf("%q %q %q", a, b, c))
				checkImages(t, a, b, c)
			}},
			{Name: "grid", Quick: 64, Thorough: 64, Run: func(t *T) {
				var all []string
				seen := map[string]bool{}
				for _, d := range imageParts.domains {
					for _, p := range imageParts.paths {
						for _, g := range imageParts.tags {
							for _, x := range imageParts.digests {
								if n := d + p + g + x; !seen[n] {
									seen[n] = true
									all = append(all, n)
								}
							}
						}
					}
				}
				all = append(all, badImages...)
				for i, n := range all {
					if i%64 != t.idx {
						continue
					}
					t.inputs = nil
					t.Input("name", n)
					checkImages(t, n, all[(i*7+13)%len(all)], all[(i*31+5)%len(all)])
					t.Obs("grid", 1)
				}
			}},
			{Name: "list", Quick: 5000, Thorough: 100000, Run: func(t *T) {
				a := t.imageName()
				var l []string
				want := false
				for i, n := 0, t.IntN(5); i < n; i++ {
					b := t.imageName()
					if t.P(20) {
						b = t.respell(a)
					}
					l = append(l, b)
					want = want || refTrim(b) == refTrim(a)
				}
				t.Input("names", fmt.Sprintf("%q %q", a, l))
				if got := image.Match(a, l...); got != want {
					t.Fail("%q matches one of %q: %v, want %v", a, l, got, want)
				}
			}},
		},
	})
}

func checkImages(t *T, a, b, c string) {
	valid := 0
	for _, n := range []string{a, b, c} {
		e, tr := image.Expand(n), image.Trim(n)
		if want := refExpand(n); e != want {
			t.Fail("%q is expanded to %q, want %q", n, e, want)
		}
		if want := refTrim(n); tr != want {
			t.Fail("%q is trimmed to %q, want %q", n, tr, want)
		}
		if x := image.Expand(e); x != e {
			t.Fail("expanding %q twice gives %q and then %q", n, e, x)
		}
		t.Obs("expanded", 1)
		t.Obs("trimmed", 1)
		r, ok := refParse(n)
		if ok {
			valid++
		} else {
			t.Obs("invalid names", 1)
		}
		for _, h := range []string{"docker.io", "index.docker.io", "gcr.io", "localhost:5000", "localhost", "registry.company.com:5000", r.domain, "", "registry-1.docker.io", "a.b", "docker.com", n} {
			want := ok && (r.domain == h || r.domain == "docker.io" && h == "index.docker.io")
			if got := image.MatchHostname(n, h); got != want {
				t.Fail("%q is served by %q: %v, want %v", n, h, got, want)
			}
			t.Obs("hosts", 1)
		}
		if !image.Match(n, n) || !image.MatchTag(n, n) {
			t.Fail("%q does not match itself", n)
		}
		if image.Match(n) {
			t.Fail("%q matches one of no images", n)
		}
	}
	for _, p := range [][2]string{{a, b}, {b, c}, {a, c}} {
		x, y := p[0], p[1]
		want := refTrim(x) == refTrim(y)
		if got := image.Match(x, y); got != want || image.Match(y, x) != want {
			t.Fail("%q and %q match: %v and %v, want %v", x, y, got, image.Match(y, x), want)
		}
		wantTag := refExpand(x) == refExpand(y)
		if got := image.MatchTag(x, y); got != wantTag || image.MatchTag(y, x) != wantTag {
			t.Fail("%q and %q match with tags: %v and %v, want %v", x, y, got, image.MatchTag(y, x), wantTag)
		}
		if want {
			t.Obs("pairs matching", 1)
		} else {
			t.Obs("pairs not matching", 1)
		}
		if wantTag {
			t.Obs("pairs matching with tag", 1)
		}
	}
	t.Seen("denoted", refExpand(a))
	if valid >= 2 {
		t.NonTrivial(a + "\x00" + b)
	}
}
