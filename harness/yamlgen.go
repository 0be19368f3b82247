package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// An independent YAML emitter: a document tree and many ways to write it.

type kind int

const (
	kStr  kind = iota // a string value
	kText             // a string whose plain spelling is safe whatever it resolves to
	kRaw              // literal plain text: numbers, booleans, null
	kSeq
	kMap
)

// N is a node of a document.
type N struct {
	k     kind
	s     string
	items []*N
	keys  []string
	vals  []*N
}

const rawKey = "\x00raw:"

func (n *N) setRaw(k string, v *N) *N { return n.set(rawKey+k, v) }

func (n *N) keyN(i int) *N {
	if strings.HasPrefix(n.keys[i], rawKey) {
		return raw(n.keys[i][len(rawKey):])
	}
	return text(n.keys[i])
}

func str(s string) *N  { return &N{k: kStr, s: s} }
func text(s string) *N { return &N{k: kText, s: s} }
func raw(s string) *N  { return &N{k: kRaw, s: s} }
func seq(items ...*N) *N {
	return &N{k: kSeq, items: items}
}
func strs(ss []string) *N {
	n := &N{k: kSeq}
	for _, s := range ss {
		n.items = append(n.items, text(s))
	}
	return n
}
func num(i int) *N    { return raw(strconv.Itoa(i)) }
func boolN(b bool) *N { return raw(strconv.FormatBool(b)) }
func mapN() *N        { return &N{k: kMap} }

func (n *N) set(k string, v *N) *N {
	n.keys = append(n.keys, k)
	n.vals = append(n.vals, v)
	return n
}

func (n *N) get(k string) *N {
	for i := range n.keys {
		if n.keys[i] == k {
			return n.vals[i]
		}
	}
	return nil
}

func (n *N) del(k string) {
	for i := range n.keys {
		if n.keys[i] == k {
			n.keys = append(n.keys[:i:i], n.keys[i+1:]...)
			n.vals = append(n.vals[:i:i], n.vals[i+1:]...)
			return
		}
	}
}

func (n *N) clone() *N {
	c := *n
	c.items = nil
	for _, x := range n.items {
		c.items = append(c.items, x.clone())
	}
	c.keys = append([]string(nil), n.keys...)
	c.vals = nil
	for _, x := range n.vals {
		c.vals = append(c.vals, x.clone())
	}
	return &c
}

// shuffle permutes the keys of every mapping.
func (n *N) shuffle(t *T) {
	t.Shuffle(len(n.keys), func(i, j int) {
		n.keys[i], n.keys[j] = n.keys[j], n.keys[i]
		n.vals[i], n.vals[j] = n.vals[j], n.vals[i]
	})
	for _, v := range n.vals {
		v.shuffle(t)
	}
	for _, v := range n.items {
		v.shuffle(t)
	}
}

// Style selects how a document is written.
type Style struct {
	Canonical bool // block style, double quoted strings, source key order
	CRLF      bool
}

type emitter struct {
	t  *T
	st Style
	b  strings.Builder
}

var plainSafe = regexp.MustCompile(`^[A-Za-z/_][A-Za-z0-9_./@$+=()-]*([ :][A-Za-z0-9_./@$+=()-]+)*$`)
var plainText = regexp.MustCompile(`^(?:-?[A-Za-z0-9_/.+])[A-Za-z0-9_./@$+=()-]*([ :][A-Za-z0-9_./@$+=()-]+)*$`)

// resolves says whether a plain scalar would be something else than a string.
func resolves(s string) bool {
	switch strings.ToLower(s) {
	case "", "y", "n", "yes", "no", "on", "off", "true", "false", "null", "~", "<<", "=":
		return true
	}
	if _, err := strconv.ParseFloat(strings.Replace(s, "_", "", -1), 64); err == nil {
		return true
	}
	if _, err := strconv.ParseInt(strings.Replace(s, "_", "", -1), 0, 64); err == nil {
		return true
	}
	c := s[0]
	return c == '.' || c == '+' || c == '-' || (c >= '0' && c <= '9')
}

func isNullText(s string) bool {
	switch s {
	case "", "~", "null", "Null", "NULL":
		return true
	}
	return false
}

func dquote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"':
			b.WriteString(`\"`)
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\r':
			b.WriteString(`\r`)
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, `\x%02x`, r)
		case r == 0x85 || r == 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff || !unicode.IsPrint(r):
			if r > 0xffff {
				fmt.Fprintf(&b, `\U%08x`, r)
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func printable(s string) bool {
	for _, r := range s {
		if r == '\n' {
			continue
		}
		if r < 0x20 || r == 0x7f || (r >= 0x80 && (!unicode.IsPrint(r) || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xfeff || r == 0xa0)) || r == 0xfffd {
			return false
		}
	}
	return true
}

// literalSafe: can be written as a literal block scalar without an
// indentation indicator.
func literalSafe(s string) bool {
	if s == "" || !printable(s) || s[0] == ' ' || s[0] == '\n' {
		return false
	}
	return strings.Trim(s, "\n ") != "" && !strings.HasPrefix(s, "#")
}

func (e *emitter) scalar(n *N, flow bool, indent int, key bool) string {
	s := n.s
	if n.k == kRaw {
		return s
	}
	if e.st.Canonical {
		return dquote(s)
	}
	t := e.t
	re := plainSafe
	if n.k == kText {
		re = plainText
	}
	plain := re.MatchString(s) && (n.k == kText && !isNullText(s) || !resolves(s)) && !(strings.HasPrefix(s, "...") || strings.HasPrefix(s, "---"))
	if flow && strings.ContainsAny(s, ":,[]{}") {
		plain = false
	}
	if key && (resolves(s) || strings.ContainsAny(s, ":,[]{} ")) {
		plain = false
	}
	choice := t.IntN(10)
	if plain && choice < 6 {
		return s
	}
	if !flow && !key && !strings.HasSuffix(s, "\n\n") && literalSafe(s) && choice < 8 && (strings.Contains(s, "\n") || t.P(20)) {
		return e.literal(s, indent)
	}
	if choice%2 == 0 && printable(s) && !strings.Contains(s, "\n") {
		return "'" + strings.Replace(s, "'", "''", -1) + "'"
	}
	return dquote(s)
}

func (e *emitter) literal(s string, indent int) string {
	body := strings.TrimRight(s, "\n")
	nl := len(s) - len(body)
	head := "|"
	switch {
	case nl == 0:
		head = "|-"
	case nl > 1:
		head = "|+"
	}
	var b strings.Builder
	b.WriteString(head)
	pad := strings.Repeat(" ", indent)
	for _, l := range strings.Split(body, "\n") {
		b.WriteByte('\n')
		if l != "" {
			b.WriteString(pad + l)
		}
	}
	for i := 1; i < nl; i++ {
		b.WriteByte('\n')
	}
	return b.String()
}

func (n *N) small() bool {
	switch n.k {
	case kSeq:
		for _, x := range n.items {
			if !x.small() {
				return false
			}
		}
		return len(n.items) < 6
	case kMap:
		for _, x := range n.vals {
			if !x.small() {
				return false
			}
		}
		return len(n.vals) < 5
	}
	return !strings.Contains(n.s, "\n") && len(n.s) < 200
}

func (e *emitter) flow(n *N) string {
	sp := ""
	if e.t != nil && e.t.P(50) {
		sp = " "
	}
	switch n.k {
	case kSeq:
		var p []string
		for _, x := range n.items {
			p = append(p, e.flow(x))
		}
		return "[" + sp + strings.Join(p, ", ") + sp + "]"
	case kMap:
		var p []string
		for i, x := range n.vals {
			p = append(p, e.scalar(n.keyN(i), true, 0, true)+": "+e.flow(x))
		}
		return "{" + sp + strings.Join(p, ", ") + sp + "}"
	}
	return e.scalar(n, true, 0, false)
}

func (e *emitter) noise(indent int) {
	if e.st.Canonical {
		return
	}
	if e.t.P(3) {
		e.b.WriteString(strings.Repeat(" ", indent) + "# comment: with [odd] 'content\n")
	}
	if e.t.P(3) {
		e.b.WriteByte('\n')
	}
}

// block writes n at the given indentation; the cursor is at a line start,
// except that first says the first line's indentation is already written.
func (e *emitter) block(n *N, indent int, first bool) {
	pad := strings.Repeat(" ", indent)
	step := 2
	if !e.st.Canonical && e.t.P(15) {
		step = e.t.Range(1, 5)
	}
	switch n.k {
	case kMap:
		for i := range n.keys {
			if !first {
				e.noise(indent)
				e.b.WriteString(pad)
			}
			first = false
			e.b.WriteString(e.scalar(n.keyN(i), false, 0, true) + ":")
			e.value(n.vals[i], indent, step, false)
		}
	case kSeq:
		for _, x := range n.items {
			if !first {
				e.noise(indent)
				e.b.WriteString(pad)
			}
			first = false
			e.b.WriteString("-")
			e.value(x, indent, 2, true)
		}
	}
}

func (e *emitter) value(v *N, indent, step int, inSeq bool) {
	switch v.k {
	case kSeq, kMap:
		if len(v.items) == 0 && len(v.vals) == 0 || (!e.st.Canonical && v.small() && e.t.P(25)) {
			e.b.WriteString(" " + e.flow(v) + "\n")
			return
		}
		if inSeq {
			e.b.WriteString(" ")
			e.block(v, indent+2, true)
			return
		}
		e.b.WriteByte('\n')
		in := indent + step
		if v.k == kSeq && !e.st.Canonical && e.t.P(40) {
			in = indent // sequences may be as far left as their key
		}
		e.block(v, in, false)
	default:
		s := e.scalar(v, false, indent+step, false)
		if s == "" {
			e.b.WriteByte('\n')
			return
		}
		e.b.WriteString(" " + s)
		if !e.st.Canonical && v.k == kRaw && e.t.P(4) {
			e.b.WriteString("   # note")
		}
		e.b.WriteByte('\n')
	}
}

const anchorPct = 12

// emitDoc writes one document (without separators).
func emitDoc(t *T, n *N, st Style) string {
	if !st.Canonical && t.P(anchorPct) {
		n = byReference(t, n)
	}
	e := &emitter{t: t, st: st}
	if !st.Canonical && n.small() && t.P(10) {
		return e.flow(n) + "\n"
	}
	e.block(n, 0, false)
	return e.b.String()
}

// emitStream joins documents with separators.
func emitStream(t *T, docs []string, st Style) string {
	var b strings.Builder
	for i, d := range docs {
		switch {
		case st.Canonical:
			b.WriteString("---\n")
		case i > 0 || t.Bool():
			b.WriteString("---")
			if t.P(20) {
				b.WriteString(t.Pick(" ", "  ", " # next"))
			}
			b.WriteString("\n")
		}
		b.WriteString(d)
	}
	if st.Canonical || t.P(40) {
		b.WriteString("...")
		if !st.Canonical && t.P(20) {
			b.WriteString(t.Pick(" ", "\t", " # end", "  # ---", " #"))
		}
		b.WriteString("\n")
		if !st.Canonical && t.P(25) {
			b.WriteString(t.Pick("", "---\n", "# more\n---\n", "text\n"))
			b.WriteString("kind: pipeline\nname: behind-the-end\n")
		}
	}
	s := b.String()
	if st.CRLF {
		s = strings.Replace(s, "\n", "\r\n", -1)
	}
	return s
}
