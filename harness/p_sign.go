package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"

	"github.com/drone/drone-yaml/yaml"
	"github.com/drone/drone-yaml/yaml/signer"
)

const keyChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func (t *T) keyOf(n int) string {
	b := make([]byte, n)
	for i := range b {
		if t.P(90) {
			b[i] = keyChars[t.IntN(len(keyChars))]
		} else {
			b[i] = byte(t.Range(1, 255))
		}
	}
	return string(b)
}

func (t *T) key() string {
	n := 32
	if t.P(50) {
		n = []int{33, 40, 48, 63, 64, 65, 100, 200}[t.IntN(8)]
	}
	return t.keyOf(n)
}

// signable makes the resources of a configuration to sign.
func signable(t *T, sigs bool) []yaml.Resource {
	o := &gopt{plainText: t.P(30), maxSteps: 3}
	var rs []yaml.Resource
	for i, n := 0, t.Range(1, 4); i < n; i++ {
		r := o.resource(t)
		if r.GetKind() == "signature" {
			i--
			continue
		}
		rs = append(rs, r)
	}
	if t.P(4) { // large
		p := &yaml.Pipeline{Kind: "pipeline", Name: "large"}
		c := &yaml.Container{Name: "large", Image: "x"}
		for i, n := 0, t.Range(300, 3000); i < n; i++ {
			c.Commands = append(c.Commands, fmt.Sprintf("echo %d %s", i, t.word()))
		}
		if t.P(50) {
			c.Commands = append(c.Commands, strings.Repeat(t.word()+" ", t.Range(5000, 30000)))
		}
		p.Steps = append(p.Steps, c)
		i := t.IntN(len(rs) + 1)
		rs = append(rs[:i:i], append([]yaml.Resource{p}, rs[i:]...)...)
	}
	if t.P(15) { // text that looks like a signature but is none
		s := t.Pick("kind: signature\nhmac: 00\n", "---\nkind: signature\n", "# kind: signature", "\n# comment\n\n  indented\n", "...\n", "a\n\n\n\nb", "x #y", "signature")
		p := &yaml.Pipeline{Kind: "pipeline", Name: s, Steps: []*yaml.Container{{Name: s, Image: "x", Commands: []string{s, "a", s}}}}
		rs = append(rs, p)
		if t.P(30) {
			rs = append(rs, &yaml.Pipeline{Kind: t.Pick("signatures", "Signature", "sign", "SIGNATURE"), Name: "x"})
		}
	}
	unknownKinds(t, rs)
	if sigs {
		for i := 0; i < 2 && t.P(50); i++ {
			k := t.IntN(len(rs) + 1)
			rs = append(rs[:k:k], append([]yaml.Resource{o.signature(t)}, rs[k:]...)...)
		}
	}
	return rs
}

// unsigned is the meaning of everything but the signatures.
func unsigned(m *yaml.Manifest) (string, int) {
	var keep []yaml.Resource
	n := 0
	for _, r := range m.Resources {
		if _, ok := r.(*yaml.Signature); ok {
			n++
			continue
		}
		keep = append(keep, r)
	}
	return resCanon(manifestOf(keep), canonOpt{}), n
}

func rawUnsigned(s string) string {
	rs, err := yaml.ParseRawString(s)
	if err != nil {
		return "error " + err.Error()
	}
	var b strings.Builder
	for _, r := range rs {
		if r.Kind != "signature" {
			b.Write(r.Data)
		}
	}
	return b.String()
}

// concat is the text of the documents that are no signatures, without the
// boundaries between them: what two streams the recorded finding confuses
// have in common.
func concat(s string) string { return rawUnsigned(s) }

func mustVerify(t *T, text []byte, key, what string) {
	ok, err := signer.Verify(text, signer.KeyString(key))
	if err != nil {
		t.Fail("%s: verification fails with an error: %v\n%s", what, err, clip(string(text), 3000))
	}
	if !ok {
		t.Fail("%s does not verify:\n%s", what, clip(string(text), 3000))
	}
	t.Obs("verified", 1)
}

func refused(t *T, text []byte, key, what string) {
	ok, _ := signer.Verify(text, signer.KeyString(key))
	if ok {
		t.Fail("%s verifies:\n%s", what, clip(string(text), 3000))
	}
	t.Obs("refused", 1)
}

func hmacOf(t *T, text []byte) string {
	m, err := yaml.ParseBytes(text)
	if err != nil {
		t.Fail("the signed text cannot be parsed: %v\n%s", err, clip(string(text), 3000))
	}
	for _, r := range m.Resources {
		if s, ok := r.(*yaml.Signature); ok {
			return s.Hmac
		}
	}
	t.Fail("the signed text has no signature:\n%s", clip(string(text), 3000))
	return ""
}

// alter changes a text in one place.
func alter(t *T, s string) (string, string) {
	lines := strings.SplitAfter(s, "\n")
	pickLine := func() int {
		for k := 0; k < 20; k++ {
			if i := t.IntN(len(lines)); lines[i] != "" {
				return i
			}
		}
		return 0
	}
	join := func() string { return strings.Join(lines, "") }
	switch t.IntN(14) {
	case 11: // blanks that end a line
		i := pickLine()
		l := strings.TrimSuffix(lines[i], "\n")
		lines[i] = l + t.Pick(" ", "\t", "  ", "\r", " \t") + lines[i][len(l):]
		return join(), "blanks added at the end of a line"
	case 12:
		i := pickLine()
		l := strings.TrimSuffix(lines[i], "\n")
		lines[i] = strings.TrimRight(l, " \t\r") + lines[i][len(l):]
		return join(), "blanks removed from the end of a line"
	case 0:
		i := pickLine()
		lines[i] = ""
		return join(), "a line removed"
	case 1:
		i := pickLine()
		lines[i] += lines[i]
		return join(), "a line doubled"
	case 2:
		if i := pickLine(); i+1 < len(lines) {
			lines[i], lines[i+1] = lines[i+1], lines[i]
		}
		return join(), "two lines swapped"
	case 3:
		i := pickLine()
		lines[i] = " " + lines[i]
		return join(), "a line indented"
	case 4:
		i := pickLine()
		lines[i] = strings.TrimPrefix(lines[i], " ")
		return join(), "a line unindented"
	case 5:
		i := pickLine()
		lines[i] = "\n" + lines[i]
		return join(), "an empty line added"
	case 6: // another case
		for k := 0; k < 50; k++ {
			i := t.IntN(len(s))
			c := s[i]
			if c >= 'a' && c <= 'z' {
				return s[:i] + string(c-32) + s[i+1:], "a letter capitalised"
			}
			if c >= 'A' && c <= 'Z' {
				return s[:i] + string(c+32) + s[i+1:], "a letter uncapitalised"
			}
		}
		return s, "nothing"
	case 7:
		i := t.IntN(len(s) + 1)
		return s[:i] + t.Pick("x", "0", " ", "\n", "#", "\\", "'", "-", ",", "\t") + s[i:], "a character added"
	case 8:
		i := t.IntN(len(s))
		return s[:i] + s[i+1:], "a character removed"
	case 9:
		i := pickLine()
		k := t.IntN(len(lines[i]) + 1)
		for k > 0 && (k >= len(lines[i]) || lines[i][k] == '\n') {
			k--
		}
		lines[i] = lines[i][:k] + t.Pick("# x", " #", "a", " b") + lines[i][k:]
		return join(), "a text added to a line"
	case 10: // last lines, far end
		i := len(lines) - 1 - t.IntN(min(4, len(lines)))
		lines[i] = strings.Replace(lines[i], t.Pick("a", "e", "o", "1", "t"), "z", 1)
		return join(), "a letter changed near the end"
	}
	i := t.IntN(len(s))
	return s[:i] + string(s[i]^1) + s[i+1:], "a bit flipped"
}

func init() {
	register(&Prop{
		ID:   "C09",
		Rule: "random configurations with zero to two old signatures anywhere, any key of 32 to 200 bytes, signed, verified, signed again, signed after removing the old signatures, attached with the write helper; non-trivial with more than one resource or an old signature",
		Need: []string{"verified", "signed", "resigned", "old signatures", "written", "hmacs"},
		Sections: []Section{
			{Name: "sign", Quick: 5000, Thorough: 150000, Run: func(t *T) {
				rs := signable(t, true)
				key := t.key()
				s := renderAny(t, rs)
				t.Input("text", s)
				t.Input("key", fmt.Sprintf("%q", key))
				m := parse(t, s)
				before, old := unsigned(m)
				k := signer.KeyString(key)
				out, err := signer.SignUpdate([]byte(s), k)
				if err != nil {
					t.Fail("the configuration cannot be signed: %v", err)
				}
				t.Obs("signed", 1)
				t.Obs("old signatures", old)
				mustVerify(t, out, key, "the signed text")
				sm, err := yaml.ParseBytes(out)
				if err != nil {
					t.Fail("the signed text cannot be parsed: %v\n%s", err, clip(string(out), 3000))
				}
				after, n := unsigned(sm)
				if n != 1 {
					t.Fail("the signed text has %d signatures:\n%s", n, clip(string(out), 3000))
				}
				if after != before {
					t.Fail("signing altered the configuration:\n%s", canonDiff(before, after))
				}
				again, err := signer.SignUpdate(out, k)
				if err != nil || string(again) != string(out) {
					t.Fail("signing again changes the text (%v):\n%s", err, canonDiff(string(out), string(again)))
				}
				t.Obs("resigned", 1)
				alone, err := signer.Sign([]byte(s), k)
				if err != nil {
					t.Fail("the signature cannot be calculated: %v", err)
				}
				if added := hmacOf(t, out); added != alone {
					t.Fail("the signature is %s but %s was added to the text", alone, added)
				}
				wrote, err := signer.WriteTo([]byte(s), alone)
				if err != nil {
					t.Fail("the signature cannot be written: %v", err)
				}
				mustVerify(t, wrote, key, "the text with the signature attached")
				wm, err := yaml.ParseBytes(wrote)
				if err != nil {
					t.Fail("the text with the signature attached cannot be parsed: %v", err)
				}
				if after, n := unsigned(wm); after != before || n != 1 {
					t.Fail("attaching the signature altered the configuration (%d signatures):\n%s", n, canonDiff(before, after))
				}
				t.Obs("written", 1)
				// the same documents without or with other signatures
				docs := refSplit(s)
				raws, err := yaml.ParseRawString(s)
				if err != nil || len(docs) != len(raws) {
					t.Skip("misparsed (C01)")
				}
				// what was signed once verifies for ever
				mac := hmac.New(sha256.New, []byte(key))
				for i, d := range docs {
					if raws[i].Kind != "signature" {
						mac.Write([]byte(d.data))
					}
				}
				if want := hex.EncodeToString(mac.Sum(nil)); want != alone {
					t.Fail("the signature is %s, the HMAC-SHA256 of the documents' text is %s", alone, want)
				}
				t.Obs("hmacs", 1)
				var with, without string
				for i, d := range docs {
					if raws[i].Kind != "signature" {
						with += "---\n" + d.data
						without += "---\n" + d.data
					}
					if t.P(30) {
						with += "---\n" + t.Pick("kind: signature\nhmac: 0123\n", "hmac: abcdef\nkind: signature\n", "{kind: signature}\n", "'kind': \"signature\"\nhmac:\n\n# x\n")
					}
				}
				for _, v := range []string{with, without} {
					if h, err := signer.Sign([]byte(v), k); v != "" && (err != nil || h != alone) {
						t.Fail("the signature depends on old signatures: %s or %s (%v)\n%s", alone, h, err, clip(v, 3000))
					}
				}
				t.Seen("signatures", alone)
				if len(rs) > 1 || old > 0 {
					t.NonTrivial(s + key)
				}
			}},
			{Name: "key", Quick: 300, Thorough: 3000, Run: func(t *T) {
				rs := signable(t, false)
				s := renderAny(t, rs)
				t.Input("text", s)
				n := t.idx%170 + 32
				key := t.keyOf(n)
				out, err := signer.SignUpdate([]byte(s), signer.KeyString(key))
				if err != nil {
					t.Fail("a key of %d bytes is refused: %v", n, err)
				}
				mustVerify(t, out, key, "the signed text")
				h, err := signer.Sign([]byte(s), signer.Key(key))
				if err != nil || h != hmacOf(t, out) {
					t.Fail("a key of %d bytes gives two signatures (%v)", n, err)
				}
			}},
		},
	})

	register(&Prop{
		ID: "C10",
		Rule: "signed random configurations altered in one place (bytes, letters, lines, indentation, whole resources added, removed, exchanged or moved, document boundaries), with altered, truncated, exchanged or missing signatures and with other keys; a text that still verifies must hold the same resources; every key length below 32; " +
			"non-trivial when the alteration changes the meaning",
		Assume: []string{"two keys that HMAC cannot tell apart (padded with zero bytes, or hashed because longer than 64 bytes) are not generated"},
		Need:   []string{"refused", "meaning altered", "other keys", "short keys", "signatures altered", "resources altered", "boundaries altered", "malformed refused"},
		Sections: []Section{
			{Name: "alter", Quick: 1500, Thorough: 40000, Run: func(t *T) {
				rs := signable(t, false)
				key := t.key()
				s := renderCanonical(rs)
				if t.P(60) {
					s = renderAny(t, rs)
				}
				out, err := signer.SignUpdate([]byte(s), signer.KeyString(key))
				if err != nil {
					t.Skip("cannot be signed (C09)")
				}
				m, err := yaml.ParseBytes(out)
				if err != nil {
					t.Skip("cannot be parsed (C09)")
				}
				before, _ := unsigned(m)
				mustVerify(t, out, key, "the signed text")
				body := string(out)
				i := strings.LastIndex(body, "---\nkind: signature")
				if i < 0 {
					i = len(body)
				}
				tail := body[i:]
				body = body[:i]
				t.Input("signed text", string(out))
				t.Input("key", fmt.Sprintf("%q", key))
				for n := 0; n < 12; n++ {
					mut, what := alter(t, body)
					text := mut + tail
					mm, err := yaml.ParseString(text)
					var after string
					if err == nil {
						after, _ = unsigned(mm)
					}
					if err == nil && after == before {
						continue
					}
					ok, _ := signer.Verify([]byte(text), signer.KeyString(key))
					if ok {
						if concat(text) == concat(string(out)) {
							t.FailKnown("boundary", "moving a document boundary keeps the signature valid (%s)", what)
						}
						t.Fail("with %s the configuration is another one (%v), but it still verifies:\n%s", what, err, canonDiff(before, after))
					}
					t.Obs("refused", 1)
					if err == nil {
						t.Obs("meaning altered", 1)
					}
					t.NonTrivial(text)
				}
			}},
			{Name: "resources", Quick: 700, Thorough: 20000, Run: func(t *T) {
				rs := signable(t, false)
				for len(rs) < 2 {
					rs = append(rs, signable(t, false)...)
				}
				key := t.key()
				s := renderAny(t, rs)
				k := signer.KeyString(key)
				out, err := signer.SignUpdate([]byte(s), k)
				if err != nil {
					t.Skip("cannot be signed (C09)")
				}
				t.Input("signed text", string(out))
				sig := hmacOf(t, out)
				docs := []string{}
				for _, d := range refSplit(string(out)) {
					docs = append(docs, d.data)
				}
				docs = docs[:len(docs)-1]
				orig, err := yaml.ParseBytes(out)
				if err != nil {
					t.Skip("cannot be parsed (C09)")
				}
				before, _ := unsigned(orig)
				try := func(what string, docs []string, sigAt int) {
					var b strings.Builder
					for i, d := range docs {
						if i == sigAt {
							b.WriteString("---\nkind: signature\nhmac: " + sig + "\n")
						}
						b.WriteString("---\n" + d)
					}
					if sigAt >= len(docs) {
						b.WriteString("---\nkind: signature\nhmac: " + sig + "\n")
					}
					b.WriteString("...\n")
					text := b.String()
					m, err := yaml.ParseString(text)
					if err != nil {
						return
					}
					after, _ := unsigned(m)
					if after == before {
						return
					}
					ok, _ := signer.Verify([]byte(text), k)
					if ok {
						t.Fail("%s, but it still verifies:\n%s", what, clip(text, 4000))
					}
					t.Obs("resources altered", 1)
					t.Obs("refused", 1)
					t.NonTrivial(text)
				}
				at := func() int { return t.IntN(len(docs) + 2) }
				extra := renderCanonical([]yaml.Resource{(&gopt{}).pipeline(t)})
				if t.Bool() {
					extra = renderCanonical([]yaml.Resource{(&gopt{}).secret(t)})
				}
				extra = refSplit(extra)[0].data
				for i := range docs {
					try("a resource was removed", append(append([]string{}, docs[:i]...), docs[i+1:]...), at())
					try("a resource was exchanged", append(append(append([]string{}, docs[:i]...), extra), docs[i+1:]...), at())
					try("a resource was doubled", append(append(append([]string{}, docs[:i+1]...), docs[i]), docs[i+1:]...), at())
					sw := append([]string{}, docs...)
					j := t.IntN(len(docs))
					sw[i], sw[j] = sw[j], sw[i]
					try("two resources were exchanged", sw, at())
				}
				for i := 0; i <= len(docs); i++ {
					try("a resource was added", append(append(append([]string{}, docs[:i]...), extra), docs[i:]...), at())
				}
				try("a resource was added", append(append([]string{}, docs...), "kind: "+t.Pick("cron", "registry", "secret", "pipeline", "x")+"\n"), at())
			}},
			{Name: "boundary", Quick: 300, Thorough: 5000, Run: func(t *T) {
				// documents merged and split without touching another byte
				rs := signable(t, false)
				for len(rs) < 2 {
					rs = append(rs, signable(t, false)...)
				}
				key := t.key()
				out, err := signer.SignUpdate([]byte(renderCanonical(rs)), signer.KeyString(key))
				if err != nil {
					t.Skip("cannot be signed (C09)")
				}
				t.Input("signed text", string(out))
				sig := hmacOf(t, out)
				var docs []string
				for _, d := range refSplit(string(out)) {
					docs = append(docs, d.data)
				}
				docs = docs[:len(docs)-1]
				i := t.IntN(len(docs) - 1)
				docs[i] += docs[i+1]
				docs = append(docs[:i+1], docs[i+2:]...)
				text := "---\n" + strings.Join(docs, "---\n") + "---\nkind: signature\nhmac: " + sig + "\n"
				m, err := yaml.ParseString(text)
				if err != nil {
					t.Skip("merged documents do not parse")
				}
				a, _ := unsigned(parse(t, string(out)))
				if b, _ := unsigned(m); a == b {
					t.Skip("same meaning")
				}
				t.Obs("boundaries altered", 1)
				t.NonTrivial(text)
				if ok, _ := signer.Verify([]byte(text), signer.KeyString(key)); ok {
					if concat(text) == concat(string(out)) {
						t.FailKnown("boundary", "two documents became one by removing the separator between them, and the signature still verifies:\n%s", clip(text, 3000))
					}
					t.Fail("two documents became one, and the signature still verifies:\n%s", clip(text, 3000))
				}
			}},
			{Name: "signature", Quick: 500, Thorough: 12000, Run: func(t *T) {
				rs := signable(t, false)
				key := t.key()
				s := renderAny(t, rs)
				k := signer.KeyString(key)
				sig, err := signer.Sign([]byte(s), k)
				if err != nil {
					t.Skip("cannot be signed (C09)")
				}
				t.Input("text", s)
				t.Input("key", fmt.Sprintf("%q", key))
				// no signature at all, or one of another configuration
				refused(t, []byte(s), key, "a text without a signature")
				other, err := signer.Sign([]byte(renderAny(t, signable(t, false))), k)
				if err != nil {
					t.Skip("cannot be signed (C09)")
				}
				flip := []byte(sig)
				i := t.IntN(len(flip))
				flip[i] = "123456789abcdef0"[strings.IndexByte("0123456789abcdef", flip[i])]
				cut := t.IntN(len(sig))
				bad := []string{sig[:len(sig)-2], sig[:2], sig[:32], sig[:cut], sig[cut:], sig + "00", "00" + sig, sig + sig, string(flip), "", "~", "0", "00",
					strings.Repeat("00", 32), strings.Repeat("0", 64), "zz" + sig[2:], sig[:63], sig[:63] + "g", sig + "0", strings.Repeat("f", 64), "'" + sig + " '", "' '", "\"" + sig + "\\n\"", "x" + sig, "[]", "{}", "true"}
				if other != sig {
					bad = append(bad, other)
				}
				for _, h := range bad {
					if h == sig {
						continue
					}
					for _, doc := range []string{"---\nkind: signature\nhmac: " + h + "\n", "---\nhmac: " + h + "\nkind: signature\n"} {
						var text string
						if t.Bool() {
							text = strings.TrimSuffix(strings.TrimSuffix(s, "\r\n"), "\n") + "\n" + doc
							if strings.Contains(s, "\n...") || strings.HasPrefix(s, "...") {
								text = ""
							}
						}
						if text == "" {
							var b strings.Builder
							b.WriteString(doc)
							for _, d := range refSplit(s) {
								b.WriteString("---\n" + d.data)
							}
							text = b.String()
						}
						refused(t, []byte(text), key, "a text with the signature "+h+" instead of "+sig)
						t.Obs("signatures altered", 1)
					}
				}
				for _, doc := range []string{"---\nkind: signature\n", "---\nkind: signature\nhash: " + sig + "\n", "---\nkind: Signature\nhmac: " + sig + "\n", "---\nkind: signature\nspec:\n  hmac: " + sig + "\n"} {
					var b strings.Builder
					b.WriteString(doc)
					for _, d := range refSplit(s) {
						b.WriteString("---\n" + d.data)
					}
					refused(t, []byte(b.String()), key, "a text with a malformed signature")
				}
				t.NonTrivial(s)
			}},
			{Name: "malformed", Quick: 1500, Thorough: 20000, Run: func(t *T) {
				// what cannot be read is neither signed nor verified
				rs := signable(t, false)
				key := signer.KeyString(t.key())
				var docs []string
				for _, r := range rs {
					docs = append(docs, emitDoc(t, (&noter{t: t}).resource(r), Style{}))
				}
				if t.P(50) {
					docs = append(docs, "kind: signature\nhmac: "+t.Pick("", "abcdef", strings.Repeat("0f", 32))+"\n")
				}
				i := t.IntN(len(docs) + 1)
				docs = append(docs[:i:i], append([]string{malformed[t.IntN(len(malformed))]}, docs[i:]...)...)
				s := "---\n" + strings.Join(docs, "---\n")
				if _, err := yaml.ParseRawString(s); err == nil {
					t.Skip("well-formed as far as signing is concerned")
				}
				t.Input("text", s)
				if x, err := signer.Sign([]byte(s), key); err == nil {
					t.Fail("a malformed text is signed: %q", x)
				}
				if x, err := signer.SignUpdate([]byte(s), key); err == nil {
					t.Fail("a malformed text is signed: %q", x)
				}
				if x, err := signer.WriteTo([]byte(s), strings.Repeat("0f", 32)); err == nil {
					t.Fail("a malformed text gets a signature: %q", x)
				}
				if ok, err := signer.Verify([]byte(s), key); ok || err == nil {
					t.Fail("a malformed text is verified: %v, %v", ok, err)
				}
				t.Obs("malformed refused", 1)
				t.NonTrivial(s)
			}},
			{Name: "key", Quick: 400, Thorough: 8000, Run: func(t *T) {
				rs := signable(t, false)
				key := t.key()
				s := renderAny(t, rs)
				out, err := signer.SignUpdate([]byte(s), signer.KeyString(key))
				if err != nil {
					t.Skip("cannot be signed (C09)")
				}
				t.Input("signed text", string(out))
				t.Input("key", fmt.Sprintf("%q", key))
				others := []string{t.key(), t.keyOf(len(key)), key + "x", key + " ", key + "\n", " " + key, key + key}
				if len(key) > 32 {
					others = append(others, key[:32], key[:len(key)-1], key[1:], key[len(key)-32:])
				}
				for n := 0; n < 6; n++ {
					b := []byte(key)
					i := t.IntN(len(b))
					if n == 0 {
						i = len(b) - 1
					}
					if n == 1 {
						i = 0
					}
					b[i] ^= byte(1 << t.IntN(7))
					if b[len(b)-1] != 0 {
						others = append(others, string(b))
					}
				}
				others = append(others, strings.ToUpper(key), strings.ToLower(key))
				for _, k := range others {
					if k == key {
						continue
					}
					refused(t, out, k, fmt.Sprintf("a text signed with the key %q and verified with %q", key, k))
					t.Obs("other keys", 1)
				}
				for n := 0; n < 32; n++ {
					k := t.keyOf(n)
					if t.Bool() {
						k = key[:n]
					}
					if n == 0 && t.Bool() {
						if _, err := signer.Verify(out, nil); !errors.Is(err, signer.ErrInvalidKey) {
							t.Fail("verification without a key: %v", err)
						}
					}
					if h, err := signer.Sign([]byte(s), signer.KeyString(k)); !errors.Is(err, signer.ErrInvalidKey) {
						t.Fail("signing with a key of %d bytes: %q, %v", n, h, err)
					}
					if h, err := signer.SignUpdate([]byte(s), signer.KeyString(k)); !errors.Is(err, signer.ErrInvalidKey) {
						t.Fail("signing with a key of %d bytes: %q, %v", n, h, err)
					}
					if ok, err := signer.Verify(out, signer.KeyString(k)); ok || !errors.Is(err, signer.ErrInvalidKey) {
						t.Fail("verification with a key of %d bytes: %v, %v", n, ok, err)
					}
					t.Obs("short keys", 1)
				}
				t.NonTrivial(s)
			}},
		},
	})
}
