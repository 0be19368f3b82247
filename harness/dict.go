package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// The dictionary: literals mined from the sources under test, as fuzzers do,
// so that the workloads contain the texts and sizes the code knows about.
// Those which the committed list (literals.txt) has not in the same file are
// preferred. The dictionary only directs the workload; no verdict uses it.
var dict struct {
	strs, newStrs []string
	ints, newInts []int
}

type litKey struct{ file, kind, lit string }

func mine(root string) map[litKey]int {
	out := map[litKey]int{}
	filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); path != root && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				if x.Tag != nil {
					x.Tag = nil
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && s != "" && len(s) <= 60 {
						out[litKey{rel, "s", s}]++
					}
				case token.CHAR:
					if r, _, _, err := strconv.UnquoteChar(strings.Trim(x.Value, "'"), '\''); err == nil {
						out[litKey{rel, "s", string(r)}]++
					}
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil && v >= 2 && v <= 1<<40 {
						out[litKey{rel, "i", fmt.Sprint(v)}]++
					}
				}
			}
			return true
		})
		return nil
	})
	return out
}

func writeMined(m map[litKey]int) string {
	var l []string
	for k, n := range m {
		l = append(l, fmt.Sprintf("%s\t%s\t%d\t%q", k.file, k.kind, n, k.lit))
	}
	sort.Strings(l)
	return strings.Join(l, "\n") + "\n"
}

func readMined(s string) map[litKey]int {
	m := map[litKey]int{}
	for _, line := range strings.Split(s, "\n") {
		p := strings.SplitN(line, "\t", 4)
		if len(p) != 4 {
			continue
		}
		lit, err := strconv.Unquote(p[3])
		n, err2 := strconv.Atoi(p[2])
		if err == nil && err2 == nil {
			m[litKey{p[0], p[1], lit}] = n
		}
	}
	return m
}

func loadDict(src, list string) {
	if src == "" {
		return
	}
	have := mine(src)
	b, _ := os.ReadFile(list)
	was := readMined(string(b))
	var keys []litKey
	for k := range have {
		keys = append(keys, k)
	}
	for k := range was {
		if _, ok := have[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		if a.file != b.file {
			return a.file < b.file
		}
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		return a.lit < b.lit
	})
	seen := map[string]bool{}
	for _, k := range keys {
		fresh := len(was) > 0 && have[k] != was[k]
		id := k.kind + k.lit
		if seen[id+"*"] || seen[id] && !fresh {
			continue
		}
		if k.kind == "s" {
			if !seen[id] {
				dict.strs = append(dict.strs, k.lit)
			}
			if fresh {
				dict.newStrs = append(dict.newStrs, k.lit)
				if plainLit.MatchString(k.lit) && !isNullText(k.lit) && !looksTyped(k.lit) {
					plainLits = append(plainLits, k.lit)
				}
			}
		} else if v, err := strconv.Atoi(k.lit); err == nil {
			if !seen[id] {
				dict.ints = append(dict.ints, v)
			}
			if fresh {
				dict.newInts = append(dict.newInts, v)
			}
		}
		seen[id] = true
		if fresh {
			seen[id+"*"] = true
		}
	}
}

// plainLits are the new texts that are harmless identifiers.
var plainLits []string

var plainLit = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9._-]*$`)

// some is the number of optional elements, mostly none.
func (t *T) some(pct, max int) int {
	n := 0
	for n < max && t.P(pct) {
		n++
	}
	if n > 0 && t.P(8) {
		return t.count(max)
	}
	return n
}

// lit is a text of the dictionary, or one built around it.
func (t *T) lit() string {
	l := dict.strs
	if len(dict.newStrs) > 0 && t.P(70) {
		l = dict.newStrs
	}
	if len(l) == 0 {
		return t.word()
	}
	s := l[t.IntN(len(l))]
	switch t.IntN(9) {
	case 0, 1, 2:
		return s
	case 3:
		return s + t.word()
	case 4:
		return t.word() + s
	case 5:
		return t.word() + s + t.word()
	case 6:
		return s + s
	case 7:
		return t.Pick(strings.ToUpper(s), strings.ToLower(s), strings.TrimSpace(s))
	}
	return s + l[t.IntN(len(l))]
}

// litInt is a number near one of the dictionary, at most max.
func (t *T) litInt(max int) int {
	l := dict.ints
	if len(dict.newInts) > 0 && t.P(70) {
		l = dict.newInts
	}
	for try := 0; try < 4 && len(l) > 0; try++ {
		if v := l[t.IntN(len(l))] + t.Range(-1, 1); v <= max {
			return v
		}
	}
	return t.Range(1, max)
}

func (t *T) litPct(few int) int {
	if len(dict.newStrs) > 0 {
		return 3*few + 4
	}
	return few
}

// count is a number of elements: mostly up to max, sometimes many.
// Nested elements are counted with size, or the whole explodes.
func (t *T) count(max int) int {
	pct := 3
	if len(dict.newInts) > 0 {
		pct = 10
	}
	if t.P(pct) {
		if t.Bool() {
			return t.litInt(28)
		}
		if t.P(15) {
			return t.Range(14, 70)
		}
		return t.Range(max, 14)
	}
	return t.Range(1, max)
}

var decorations = []string{"/", "//", "./", "../", "refs/", "refs/heads/", "refs/tags/", ".", "-", "--", "_", ":", ",", "\n", " ", "=", "~", "@", "+", "*", "**", "v", "0", "00", "x-", "http://", "https://", ":latest", ":80", "index.docker.io/", "library/"}

// built is an ordinary text with something unusual at its ends or inside.
func (t *T) built() string {
	d := func() string { return decorations[t.IntN(len(decorations))] }
	w := t.word()
	switch t.IntN(7) {
	case 0:
		return d() + w
	case 1:
		return w + d()
	case 2:
		return w + d() + t.word()
	case 3:
		return d() + w + d()
	case 4:
		return "/" + w + "/" + t.word() + t.Pick("", "/", "/*", ".yml")
	case 5:
		return w + "/" + t.word() + "/" + t.word()
	}
	return strings.ToUpper(w[:1]) + w[1:]
}

// long is a text of an arbitrary or a known length.
func (t *T) long() string {
	n := t.Range(20, 300)
	if t.P(60) {
		n = t.litInt(5000)
	}
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(words[t.IntN(len(words))])
		if t.P(20) {
			b.WriteByte(' ')
		}
	}
	return strings.TrimSpace(b.String()[:n])
}

// looksTyped reports whether the plain text may be read as a boolean or null.
func looksTyped(s string) bool {
	switch strings.ToLower(s) {
	case "y", "n", "yes", "no", "on", "off", "true", "false", "null", "nan", "inf":
		return true
	}
	return false
}

// path is an absolute path, or one with something unusual about it. It has
// no colon and no variable.
func (t *T) path() string {
	p := "/" + t.word()
	for t.P(30) {
		p += "/" + t.word()
	}
	switch t.IntN(16) {
	case 0:
		p += "/"
	case 1:
		p = "/" + p
	case 2:
		p = strings.Replace(p, "/", "//", 1)
	case 3:
		p = p[1:]
	case 4:
		p = "." + p
	case 5:
		p = ".." + p
	case 6:
		p += "/.."
	case 7:
		p += "/."
	case 8:
		return t.Pick("/", "//", ".", "..", "./", "~/x", "/a/../b", "/a/./b", "/.", "/a b/", "/A", "/ü/", "/.x", "/a.b/", "/%s", "/$HOME")
	case 9:
		p = strings.ToUpper(p)
	case 10:
		if dict.newStrs != nil {
			if l := t.lit(); !strings.ContainsAny(l, ":\x00\n{") && l == strings.TrimSpace(l) && l != "" {
				p = t.Pick(l, p+l, l+p, p+"/"+l)
			}
		}
	}
	return p
}

var branchPool = []string{"refs/x", "refs/heads/master", "refs/tags/v1", "heads/x", "a/b/c", "Feature/X", "MASTER", "release/", "/x", "x/", "feature/**", "**/x", "v*", "*-x", "pull/1/head", "1.0", "#1", "-x", "x.y", "feature/*/x", "**", "[a-c]", "a,b"}
