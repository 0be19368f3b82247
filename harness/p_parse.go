package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing/iotest"

	yamllib "github.com/buildkite/yaml"
	"github.com/drone/drone-yaml/yaml"
)

// refDoc is a document as the reference splitter sees it.
type refDoc struct{ data string }

// refSplit splits a stream into documents: an independent statement of what
// a document is (lines starting with --- separate, ... ends the stream).
func refSplit(s string) []refDoc {
	var docs []refDoc
	open := false
	for s != "" {
		var line string
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			line, s = s[:i], s[i+1:]
		} else {
			line, s = s, ""
		}
		line = strings.TrimSuffix(line, "\r")
		if strings.HasPrefix(line, "---") {
			docs = append(docs, refDoc{})
			open = true
			continue
		}
		if strings.HasPrefix(line, "...") {
			break
		}
		if !open {
			docs = append(docs, refDoc{})
			open = true
		}
		docs[len(docs)-1].data += line + "\n"
	}
	return docs
}

type chunkReader struct {
	t    *T
	data []byte
	err  error
	at   int // fail after this many bytes, -1 never
	n    int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.at >= 0 && r.n >= r.at {
		return 0, r.err
	}
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	k := r.t.Range(1, 200)
	if r.t.P(30) {
		k = 5000
	}
	if k > len(p) {
		k = len(p)
	}
	if k > len(r.data) {
		k = len(r.data)
	}
	if r.at >= 0 && r.n+k > r.at {
		k = r.at - r.n
	}
	copy(p, r.data[:k])
	r.data = r.data[k:]
	r.n += k
	if r.at >= 0 && r.n >= r.at && r.t.Bool() {
		return k, r.err // data and error together
	}
	return k, nil
}

var errReader = errors.New("verif: the reader failed")

func checkStream(t *T, s string, want []yaml.Resource, got *yaml.Manifest) {
	if len(got.Resources) != len(want) {
		t.Fail("%d resources parsed from %d documents", len(got.Resources), len(want))
	}
	for i := range want {
		if fmt.Sprintf("%T", want[i]) != fmt.Sprintf("%T", got.Resources[i]) || want[i].GetKind() != got.Resources[i].GetKind() || want[i].GetVersion() != got.Resources[i].GetVersion() {
			t.Fail("document %d is a %T of kind %q, parsed as %T of kind %q", i, want[i], want[i].GetKind(), got.Resources[i], got.Resources[i].GetKind())
		}
		a, b := canon(want[i], canonOpt{}), canon(got.Resources[i], canonOpt{})
		if a != b {
			t.Fail("document %d parsed to other values:\n%s", i, canonDiff(a, b))
		}
	}
	t.Obs("documents", len(want))
}

func checkRaw(t *T, s string, rs []*yaml.RawResource, err error, want []yaml.Resource) {
	if err != nil {
		t.Fail("raw parse rejects what the typed parse accepts: %v", err)
	}
	ref := refSplit(s)
	if len(rs) != len(ref) || (want != nil && len(rs) != len(want)) {
		t.Fail("raw parse found %d documents, the stream has %d", len(rs), len(ref))
	}
	for i, r := range rs {
		if string(r.Data) != ref[i].data {
			t.Fail("raw document %d: text changed\nwant %q\ngot  %q", i, ref[i].data, r.Data)
		}
		if want != nil && r.Kind != want[i].GetKind() {
			t.Fail("raw document %d has kind %q, want %q", i, r.Kind, want[i].GetKind())
		}
		if want != nil && r.Version != want[i].GetVersion() {
			t.Fail("raw document %d has version %q, want %q", i, r.Version, want[i].GetVersion())
		}
		if p, ok := wantPipeline(want, i); ok && r.Type != p.Type {
			t.Fail("raw document %d has type %q, want %q", i, r.Type, p.Type)
		}
	}
	t.Obs("raw_documents", len(rs))
}

func wantPipeline(want []yaml.Resource, i int) (*yaml.Pipeline, bool) {
	if want == nil {
		return nil, false
	}
	p, ok := want[i].(*yaml.Pipeline)
	return p, ok
}

// unknownKinds occasionally replaces a pipeline's kind by one nobody knows.
func unknownKinds(t *T, rs []yaml.Resource) {
	for _, r := range rs {
		if p, ok := r.(*yaml.Pipeline); ok && t.P(10) {
			p.Kind = t.Pick("Pipeline", "crons", "secrets", "x", "123", "template", "sign")
		}
	}
}

var malformed = []string{
	"kind: [pipeline\nname: x\n",
	"kind: pipeline\nname: \"unterminated\n",
	"kind: pipeline\n\tname: tab\n",
	"kind: pipeline\nname: a: b\n",
	"kind: pipeline\nsteps:\n- name: x\n image: y\n",
	"kind: pipeline\nname: *nowhere\n",
	"kind: pipeline\nsteps: {a: b\n",
	"kind: pipeline\nclone: {depth: many}\n",
	"kind: pipeline\nsteps: nothing\n",
	"kind: pipeline\nsteps:\n- just text\n",
	"kind: pipeline\nvolumes:\n- name: [a]\n",
	"kind: cron\nspec: [a]\n",
	"kind: secret\nget: [a]\n",
	"kind: registry\ndata: [a]\n",
	"kind: signature\nhmac: {a: b}\n",
	"kind: {a: b}\n",
	"kind: [pipeline]\n",
	"- kind: pipeline\n",
	"just text\n",
	"kind: pipeline\nname: 'a\n",
	"kind: pipeline\nname: \x01\n",
	"kind: pipeline\nname: \xff\xfe\n",
	"kind: pipeline\nsteps:\n- name: a\n  ports: [x]\n",
	"kind: pipeline\nsteps:\n- name: a\n  detach: maybe\n",
	"kind: pipeline\nsteps:\n- name: a\n  resources: {limits: {memory: much}}\n",
	"kind: pipeline\n  name: x\n",
	"kind: pipeline\nname: @x\n",
	"}\n",
	"kind: pipeline\n: :\n  - ]\n",
}

var kindless = []string{"", "\n", "name: x\n", "# only a comment\n", "kind:\n", "kind: ~\n", "kind: \"\"\n", "type: pipeline\nname: x\n",
	"spec:\n  kind: pipeline\n", "metadata: {kind: cron}\n", "kinds: pipeline\n", "name: \"kind: pipeline\"\n", "{}\n", "~\n", "steps:\n- kind: pipeline\n"}

func init() {
	register(&Prop{
		ID: "C01",
		Rule: "random streams of 1-8 documents of every kind, written by an independent emitter in random YAML styles, delivered through random readers (chunk sizes, failures), with long lines, CRLF, missing separators and text behind the end marker; " +
			"a case is non-trivial when the stream has more than one document, or the reader/line shape is hostile, or a defect was planted in one document",
		Assume: []string{"a document boundary is a line starting with ---, the end of the stream a line starting with ... (as in the code's documentation and tests)"},
		Need:   []string{"documents", "raw_documents", "reader_failures", "long_lines", "rejected_malformed", "rejected_kindless", "files"},
		Sections: []Section{
			{Name: "split", Quick: 6000, Thorough: 150000, Run: func(t *T) {
				o := &gopt{}
				rs := o.resourcesOrNone(t, 6)
				unknownKinds(t, rs)
				s := renderAny(t, rs)
				t.Input("stream", s)
				m := parse(t, s)
				checkStream(t, s, rs, m)
				raws, err := yaml.ParseRawString(s)
				checkRaw(t, s, raws, err, rs)
				raws, err = yaml.ParseRawBytes([]byte(s))
				checkRaw(t, s, raws, err, rs)
				m2, err := yaml.ParseBytes([]byte(s))
				if err != nil || resCanon(m2, canonOpt{}) != resCanon(m, canonOpt{}) {
					t.Fail("ParseBytes differs from ParseString (%v)", err)
				}
				if len(rs) > 1 {
					t.NonTrivial(s)
				}
				for _, r := range rs {
					t.Seen("resource_types", fmt.Sprintf("%T/%s", r, r.GetKind()))
				}
			}},
			{Name: "reader", Quick: 4000, Thorough: 80000, Run: func(t *T) {
				o := &gopt{}
				rs := o.resourcesOrNone(t, 5)
				s := renderAny(t, rs)
				t.Input("stream", s)
				var r io.Reader = strings.NewReader(s)
				mode := t.IntN(5)
				switch mode {
				case 0:
					r = iotest.OneByteReader(r)
				case 1:
					r = iotest.HalfReader(r)
				case 2:
					r = iotest.DataErrReader(r)
				default:
					r = &chunkReader{t: t, data: []byte(s), at: -1}
				}
				if t.Bool() {
					m, err := yaml.Parse(r)
					if err != nil {
						t.Fail("reader mode %d: %v", mode, err)
					}
					checkStream(t, s, rs, m)
				} else {
					raws, err := yaml.ParseRaw(r)
					checkRaw(t, s, raws, err, rs)
				}
				t.NonTrivial(fmt.Sprint(mode, s))
			}},
			{Name: "failing-reader", Quick: 4000, Thorough: 80000, Run: func(t *T) {
				o := &gopt{}
				rs := o.resources(t, 4)
				s := renderAny(t, rs)
				// a failure behind the end marker need not be noticed
				end := len(s)
				for i, l := 0, strings.SplitAfter(s, "\n"); i < len(l); i++ {
					if strings.HasPrefix(l[i], "...") {
						end = len(strings.Join(l[:i], ""))
						break
					}
				}
				at := t.IntN(end + 1)
				switch t.IntN(4) {
				case 0: // between two documents: what is there is well formed
					if k := strings.LastIndex(s[:end], "\n---"); k > 0 {
						at = k + 1
					}
				case 1:
					if at > 0 {
						if k := strings.LastIndex(s[:at], "\n"); k >= 0 {
							at = k + 1
						}
					}
				case 2:
					at = end
				}
				// a reader that yields nothing at all still failed
				t.Input("stream", s)
				t.Input("fails at", fmt.Sprint(at))
				e := errReader
				if t.P(20) {
					e = io.ErrUnexpectedEOF
				}
				var r io.Reader = &chunkReader{t: t, data: []byte(s), at: at, err: e}
				if t.P(10) {
					r = io.MultiReader(strings.NewReader(s[:at]), iotest.ErrReader(e))
				}
				if t.Bool() {
					m, err := yaml.Parse(r)
					if err == nil {
						t.Fail("the reader failed after %d of %d bytes, but the parse returned %d resources and no error", at, len(s), len(m.Resources))
					}
				} else {
					raws, err := yaml.ParseRaw(r)
					if err == nil {
						t.Fail("the reader failed after %d of %d bytes, but the raw parse returned %d documents and no error", at, len(s), len(raws))
					}
				}
				t.Obs("reader_failures", 1)
				t.NonTrivial(fmt.Sprint(at, s))
			}},
			{Name: "long-lines", Quick: 150, Thorough: 1500, Run: func(t *T) {
				o := &gopt{plainText: true}
				rs := o.resources(t, 4)
				n := []int{4095, 4096, 4097, 65535, 65536, 65537, 65520, 70000, 131072, 300000, 1 << 20}[t.IntN(11)] + t.IntN(64) - 32
				p := o.pipeline(t)
				c := o.container(t, "long")
				c.Image = "golang"
				c.Build = nil
				long := strings.Repeat("x", n)
				where := t.IntN(4)
				switch where {
				case 0:
					c.Commands = []string{"echo " + long}
				case 1:
					c.Environment = map[string]*yaml.Variable{"LONG": {Value: long}}
				case 2:
					c.Settings = map[string]*yaml.Parameter{"long": {Value: long}}
				case 3:
					p.Name = long
				}
				p.Steps = append(p.Steps, c)
				i := t.IntN(len(rs) + 1)
				rs = append(rs[:i:i], append([]yaml.Resource{p}, rs[i:]...)...)
				s := renderCanonical(rs)
				if t.P(50) { // a long comment
					s = strings.Replace(s, "---\n", "---\n# "+long+"\n", 1)
				}
				if t.P(30) {
					s = strings.Replace(s, "\n", "\r\n", -1)
				}
				if t.P(30) { // no newline at the end
					s = strings.TrimRight(strings.TrimSuffix(strings.TrimRight(s, "\r\n"), "..."), "\r\n")
				}
				t.Input("shape", fmt.Sprintf("line of %d bytes (place %d) in document %d of %d", n, where, i, len(rs)))
				m, err := yaml.ParseString(s)
				if err != nil {
					t.Fail("a configuration with a line of %d bytes is rejected: %v", n, err)
				}
				checkStream(t, s, rs, m)
				raws, err := yaml.ParseRaw(&chunkReader{t: t, data: []byte(s), at: -1})
				checkRaw(t, s, raws, err, rs)
				t.Obs("long_lines", 1)
				t.NonTrivial(fmt.Sprint(n, where, i, len(rs)))
			}},
			{Name: "malformed", Quick: 4000, Thorough: 60000, Run: func(t *T) {
				o := &gopt{}
				rs := o.resources(t, 4)
				i := t.IntN(len(rs))
				var docs []string
				for _, r := range rs {
					n := (&noter{t: t}).resource(r)
					n.shuffle(t)
					docs = append(docs, emitDoc(t, n, Style{}))
				}
				kl := t.Bool()
				if kl {
					docs[i] = kindless[t.IntN(len(kindless))]
				} else {
					docs[i] = malformed[t.IntN(len(malformed))]
				}
				s := "---\n" + strings.Join(docs, "---\n")
				if t.Bool() {
					s += "...\n"
					if t.P(40) { // nothing behind the end counts
						s += t.Pick("kind: secret\n", "---\nkind: cron\n", "name: [\n", "text\n", "...\n---\n", "{}\n---\n{}\n")
					}
				}
				t.Input("stream", s)
				m, err := yaml.ParseString(s)
				if err == nil {
					t.Fail("document %d of the stream is %q, but the parse returned %d resources and no error", i, docs[i], len(m.Resources))
				}
				if kl {
					t.Obs("rejected_kindless", 1)
					raws, err := yaml.ParseRawString(s)
					checkRaw(t, s, raws, err, nil) // nothing is wrong with the texts
				} else {
					t.Obs("rejected_malformed", 1)
				}
				t.NonTrivial(s)
			}},
			{Name: "hostile", Quick: 4000, Thorough: 100000, Run: func(t *T) {
				// arbitrary line soup: whatever is returned accounts for every document
				var b strings.Builder
				for i, n := 0, t.Range(1, 14); i < n; i++ {
					b.WriteString(t.Pick("---", "--- ", "---x", "--", " ---", "...", "... # x", "... ", "...\t", "...x", "....", " ...", "..", "kind: pipeline", "kind: cron", "kind: secret", "name: a", "", "# c", "---\t", "kind: signature", "data: |", "  ---", "  text", "steps: []"))
					b.WriteString(t.Pick("\n", "\n", "\n", "\r\n"))
				}
				s := b.String()
				if t.P(20) {
					s = strings.TrimRight(s, "\r\n")
				}
				t.Input("stream", s)
				raws, err := yaml.ParseRawString(s)
				m, merr := yaml.ParseString(s)
				well := true
				for _, d := range refSplit(s) {
					well = well && libAccepts(d.data)
				}
				if err != nil {
					if merr == nil {
						t.Fail("raw parse fails (%v), typed parse does not", err)
					}
					if well {
						t.Fail("raw parse fails (%v), but every document of the stream is well formed", err)
					}
					return
				}
				if !well {
					t.Fail("a document of the stream is no document, but the raw parse returned %d", len(raws))
				}
				checkRaw(t, s, raws, nil, nil)
				missing := false
				for _, r := range raws {
					if r.Kind == "" {
						missing = true
					}
				}
				if missing && merr == nil {
					t.Fail("a document without kind was accepted")
				}
				if merr == nil {
					if len(m.Resources) != len(raws) {
						t.Fail("%d resources from %d documents", len(m.Resources), len(raws))
					}
					for i, r := range m.Resources {
						if r.GetKind() != raws[i].Kind {
							t.Fail("kind of document %d: %q and %q", i, r.GetKind(), raws[i].Kind)
						}
						if kindType(raws[i].Kind) != fmt.Sprintf("%T", r) {
							t.Fail("document of kind %q became a %T", raws[i].Kind, r)
						}
					}
					t.NonTrivial(s)
				}
			}},
			{Name: "files", Quick: 120, Thorough: 600, Run: func(t *T) {
				o := &gopt{}
				rs := o.resources(t, 4)
				s := renderAny(t, rs)
				t.Input("stream", s)
				dir, err := os.MkdirTemp(scratch, "c01")
				if err != nil {
					t.Broken("%v", err)
				}
				defer os.RemoveAll(dir)
				f := filepath.Join(dir, ".drone.yml")
				if err := os.WriteFile(f, []byte(s), 0600); err != nil {
					t.Broken("%v", err)
				}
				m, err := yaml.ParseFile(f)
				if err != nil {
					t.Fail("ParseFile: %v", err)
				}
				checkStream(t, s, rs, m)
				raws, err := yaml.ParseRawFile(f)
				checkRaw(t, s, raws, err, rs)
				if m, err := yaml.ParseFile(filepath.Join(dir, "missing")); err == nil {
					t.Fail("ParseFile of a missing file returned %v", m)
				}
				if m, err := yaml.ParseRawFile(filepath.Join(dir, "missing")); err == nil {
					t.Fail("ParseRawFile of a missing file returned %v", m)
				}
				// a directory opens, but cannot be read
				if m, err := yaml.ParseFile(dir); err == nil {
					t.Fail("ParseFile of a directory returned %d resources and no error", len(m.Resources))
				}
				if m, err := yaml.ParseRawFile(dir); err == nil {
					t.Fail("ParseRawFile of a directory returned %d documents and no error", len(m))
				}
				t.Obs("files", 1)
				t.NonTrivial(s)
			}},
		},
	})

	register(&Prop{
		ID:   "C02",
		Rule: "random resources of every kind with every attribute, written by an independent emitter in random notation (short or long), style (block/flow, plain/single/double quoted/literal) and key order; non-trivial when the document sets at least five attributes",
		Assume: []string{"YAML 1.1 scalar rules as implemented by buildkite/yaml; text attributes are compared after writing them quoted or as a plain scalar whose spelling is the value",
			"a mapping (other than a condition) that overrides a merged mapping is joined with it by the YAML library; that is not generated"},
		Need: []string{"resources", "notations_compared", "documents with anchors", "templates merged", "merged conditions overridden", "shorthand_build", "shorthand_port", "condition_short", "sizes", "wrong types refused", "bad_values_rejected"},
		Sections: []Section{
			{Name: "fields", Quick: 12000, Thorough: 300000, Run: func(t *T) {
				o := &gopt{}
				r := o.resource(t)
				rs := []yaml.Resource{r}
				s := renderAny(t, rs)
				t.Input("document", s)
				m := parse(t, s)
				checkStream(t, s, rs, m)
				t.Obs("resources", 1)
				if strings.Count(s, ":") > 5 {
					t.NonTrivial(s)
				}
				t.Seen("documents", canon(r, canonOpt{}))
			}},
			{Name: "notation", Quick: 8000, Thorough: 150000, Run: func(t *T) {
				o := &gopt{maxSteps: 2}
				p := o.pipeline(t)
				// make sure the attributes with several notations occur
				c := &yaml.Container{Name: "notations", Image: "golang"}
				c.Build = &yaml.Build{Image: o.s(t)}
				if t.Bool() {
					c.Build.Context = o.s(t)
				}
				c.Push = &yaml.Push{Image: o.s(t)}
				c.Ports = []*yaml.Port{{Port: t.Range(1, 65535)}, {Port: t.Range(1, 65535), Protocol: o.maybe(t, 50), Host: t.IntN(3)}}
				c.Environment = map[string]*yaml.Variable{"A": {Value: o.s(t)}, "B": {Secret: o.s(t)}, "C": {}}
				c.Settings = map[string]*yaml.Parameter{"a": {Value: o.value(t, 3)}, "b": {Secret: o.s(t)}}
				if mm, ok := c.Settings["a"].Value.(map[interface{}]interface{}); ok {
					delete(mm, "from_secret")
				}
				c.When = o.conditions(t, 100)
				c.Resources = &yaml.Resources{Limits: &yaml.ResourceObject{CPU: o.cpu(t), Memory: o.size(t)}}
				p.Trigger = o.conditions(t, 100)
				p.Steps = append(p.Steps, c)
				rs := []yaml.Resource{p}
				a, b := render(t, rs), renderCanonical(rs)
				t.Input("document", a)
				ma, mb := parse(t, a), parse(t, b)
				x, y := resCanon(mb, canonOpt{}), resCanon(ma, canonOpt{})
				if x != y {
					t.Input("long notation", b)
					t.Fail("two notations of the same configuration parse to different values:\n%s", canonDiff(x, y))
				}
				checkStream(t, a, rs, ma)
				t.Obs("notations_compared", 1)
				if strings.Contains(a, "build: ") {
					t.Obs("shorthand_build", 1)
				}
				t.Obs("shorthand_port", 1)
				for _, cnd := range []yaml.Condition{c.When.Branch, c.When.Event, p.Trigger.Branch, p.Trigger.Status} {
					t.Seen("condition_shapes", fmt.Sprint(len(cnd.Include), len(cnd.Exclude)))
					if len(cnd.Exclude) == 0 && len(cnd.Include) > 0 {
						t.Obs("condition_short", 1)
					}
				}
				t.NonTrivial(a)
			}},
			{Name: "sizes", Quick: 3000, Thorough: 60000, Run: func(t *T) {
				w := &noter{t: t}
				o := &gopt{}
				v := o.size(t)
				n := w.size(v)
				doc := "kind: pipeline\nvolumes:\n- name: a\n  temp: {size_limit: " + n.s + "}\nsteps:\n- name: b\n  image: c\n  resources: {requests: {memory: " + n.s + "}, limits: {memory: '" + n.s + "'}}\n"
				t.Input("document", doc)
				m := parse(t, doc)
				p := m.Resources[0].(*yaml.Pipeline)
				for i, got := range []yaml.BytesSize{p.Volumes[0].EmptyDir.SizeLimit, p.Steps[0].Resources.Requests.Memory, p.Steps[0].Resources.Limits.Memory} {
					if got != v {
						t.Fail("size %q (%d bytes) parsed as %d (place %d)", n.s, int64(v), int64(got), i)
					}
				}
				t.Obs("sizes", 1)
				t.NonTrivial(n.s)
			}},
			{Name: "wrong-types", Quick: 3000, Thorough: 3000, Run: func(t *T) {
				l := misplaced()
				if t.idx >= len(l) {
					t.Skip("past the end of the grid")
				}
				doc := l[t.idx].doc
				t.Input("document", doc)
				if m, err := yaml.ParseString(doc); err == nil {
					t.Fail("the value of %s is lost: the document was accepted as %s", l[t.idx].where, canon(m.Resources[0], canonOpt{}))
				}
				t.Obs("wrong types refused", 1)
				t.NonTrivial(doc)
			}},
			{Name: "malformed-values", Quick: 300, Thorough: 3000, Run: func(t *T) {
				// a value that is no size, number or truth value is refused, not guessed
				bad := t.Pick("resources: {limits: {memory: lots}}", "resources: {limits: {memory: 5 apples}}", "resources: {limits: {memory: [1]}}", "ports: [http]", "ports: [{port: x}]",
					"detach: maybe", "privileged: [true]", "commands: {a: b}", "environment: [a]", "environment: {A: [b]}", "environment: {A: {from_secret: [x]}}", "settings: [a]", "volumes: a", "build: [a]", "push: [a]", "build: {args: [a]}", "image: [a]", "depends_on: {a: b}", "resources: {limits: {cpu: fast}}")
				doc := "kind: pipeline\nname: a\nsteps:\n- name: b\n  image: c\n  " + bad + "\n"
				t.Input("document", doc)
				if m, err := yaml.ParseString(doc); err == nil {
					t.Fail("%s was accepted as %s", bad, canon(m.Resources[0].(*yaml.Pipeline).Steps[0], canonOpt{}))
				}
				t.Obs("bad_values_rejected", 1)
				t.NonTrivial(bad)
			}},
		},
	})

	register(&Prop{
		ID:     "C05",
		Rule:   "random manifests of 1-6 resources of every kind are encoded as JSON and as YAML and decoded again; compared with the values before; non-trivial with at least two resources or a pipeline with steps",
		Assume: []string{"encoding/json and buildkite/yaml are trusted", "texts with the unicode line separators NEL, LS and PS are only round-tripped through JSON: the YAML library's emitter writes them raw in block scalars"},
		Need:   []string{"json_roundtrips", "yaml_roundtrips", "kinds", "kind_lists"},
		Sections: []Section{
			{Name: "roundtrip", Quick: 8000, Thorough: 150000, Run: func(t *T) {
				o := &gopt{noSep: !t.P(15)}
				rs := o.resourcesOrNone(t, 5)
				unknownKinds(t, rs)
				s := renderAny(t, rs)
				t.Input("stream", s)
				m := parse(t, s)
				before := resCanon(m, canonOpt{looseNum: true})
				b, err := json.Marshal(m)
				if err != nil {
					t.Fail("cannot encode the manifest as JSON: %v", err)
				}
				m2 := new(yaml.Manifest)
				if err := json.Unmarshal(b, m2); err != nil {
					t.Fail("cannot decode the manifest's own JSON: %v\n%s", err, b)
				}
				if got := resCanon(m2, canonOpt{looseNum: true}); before != got {
					t.Fail("JSON round trip changed the manifest:\n%s\nJSON: %s", canonDiff(before, got), b)
				}
				t.Obs("json_roundtrips", 1)
				if !o.noSep {
					return // the YAML library's own emitter breaks such texts
				}
				e, err := m.Encode()
				if err != nil {
					t.Fail("cannot encode the manifest as YAML: %v", err)
				}
				m3, err := yaml.ParseBytes(e)
				if err != nil {
					t.Fail("cannot parse the encoded manifest: %v\n%s", err, e)
				}
				want, got := resCanon(m, canonOpt{looseNum: true}), resCanon(m3, canonOpt{looseNum: true})
				if want != got {
					t.Fail("YAML encoding changed the manifest:\n%s\nencoded:\n%s", canonDiff(want, got), e)
				}
				t.Obs("yaml_roundtrips", 1)
				if len(rs) > 1 || strings.Contains(s, "steps") {
					t.NonTrivial(s)
				}
			}},
			{Name: "kinds", Quick: 500, Thorough: 3000, Run: func(t *T) {
				k := t.Pick("cron", "secret", "signature", "registry", "pipeline", "", "Cron", "other", "secrets", "pipe")
				name := t.word()
				m := new(yaml.Manifest)
				if err := json.Unmarshal([]byte(fmt.Sprintf(`[{"kind":"pipeline"},{"kind":%q,"name":%q},{"kind":"cron"}]`, k, name)), m); err != nil {
					t.Fail("%v", err)
				}
				if len(m.Resources) != 3 || fmt.Sprintf("%T", m.Resources[1]) != kindType(k) || m.Resources[1].GetKind() != k {
					t.Fail("kind %q decoded as %T from JSON", k, m.Resources[1])
				}
				if k != "" {
					y := parse(t, "kind: pipeline\n---\nkind: "+k+"\nname: "+name+"\n---\nkind: cron\n")
					if len(y.Resources) != 3 || fmt.Sprintf("%T", y.Resources[1]) != kindType(k) || y.Resources[1].GetKind() != k {
						t.Fail("kind %q parsed as %T", k, y.Resources[1])
					}
				}
				t.Obs("kinds", 1)
				t.NonTrivial(k)
			}},
			// each entry of a list is judged by its own keys alone.
			{Name: "kind-lists", Quick: 4000, Thorough: 60000, Run: func(t *T) {
				type want struct{ kind, name, version string }
				var ws []want
				var js, ys []string
				for i, n := 0, t.Range(1, 7); i < n; i++ {
					w := want{kind: t.Pick("cron", "secret", "signature", "registry", "pipeline", "", "", "Secret", "other", "-"), name: t.word()}
					var j []string
					y := ""
					if w.kind == "-" {
						w.kind = ""
					} else {
						j = append(j, fmt.Sprintf(`"kind":%q`, w.kind))
						y += fmt.Sprintf("kind: %q\n", w.kind)
					}
					if t.P(70) {
						j = append(j, fmt.Sprintf(`"name":%q`, w.name))
						y += fmt.Sprintf("name: %q\n", w.name)
					} else {
						w.name = ""
					}
					if t.P(30) {
						w.version = t.Pick("1", "v1", "2.0")
						j = append(j, fmt.Sprintf(`"version":%q`, w.version))
						y += fmt.Sprintf("version: %q\n", w.version)
					}
					if t.P(40) {
						ty := t.Pick("docker", "secret", "cron", "exec")
						j = append(j, fmt.Sprintf(`"type":%q`, ty))
						y += fmt.Sprintf("type: %q\n", ty)
					}
					t.Shuffle(len(j), func(a, b int) { j[a], j[b] = j[b], j[a] })
					if y == "" {
						y = "{}\n"
					}
					js, ys, ws = append(js, "{"+strings.Join(j, ",")+"}"), append(ys, y), append(ws, w)
				}
				jt, yt := "["+strings.Join(js, ",")+"]", strings.Join(ys, "---\n")
				t.Input("json", jt)
				t.Input("yaml", yt)
				m := new(yaml.Manifest)
				if err := json.Unmarshal([]byte(jt), m); err != nil {
					t.Fail("%v", err)
				}
				forms := map[string]*yaml.Manifest{"JSON": m}
				complete := true
				for _, w := range ws {
					complete = complete && w.kind != ""
				}
				if complete {
					forms["YAML"] = parse(t, yt)
				} else if _, err := yaml.ParseString(yt); err == nil {
					t.Fail("a YAML resource without a kind was accepted:\n%s", yt)
				}
				for form, m := range forms {
					if len(m.Resources) != len(ws) {
						t.Fail("%d resources decoded from a %s list of %d", len(m.Resources), form, len(ws))
					}
					for i, w := range ws {
						r := m.Resources[i]
						if got := fmt.Sprintf("%T", r); got != kindType(w.kind) || r.GetKind() != w.kind || r.GetVersion() != w.version {
							t.Fail("%s entry %d of kind %q, version %q decoded as %T of kind %q, version %q", form, i, w.kind, w.version, r, r.GetKind(), r.GetVersion())
						}
						if name, ok := nameOf(r); ok && name != w.name {
							t.Fail("%s entry %d of name %q has the name %q", form, i, w.name, name)
						}
					}
				}
				t.Obs("kind_lists", 1)
				t.NonTrivial(jt)
			}},
		},
	})
}

// libAccepts asks the YAML library about one document alone.
func libAccepts(doc string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	var head struct{ Version, Kind, Type string }
	return yamllib.Unmarshal([]byte(doc), &head) == nil
}

func nameOf(r yaml.Resource) (string, bool) {
	switch r := r.(type) {
	case *yaml.Pipeline:
		return r.Name, true
	case *yaml.Secret:
		return r.Name, true
	case *yaml.Registry:
		return "", false
	case *yaml.Cron:
		return r.Name, true
	}
	return "", false
}

func kindType(k string) string {
	switch k {
	case "cron":
		return "*yaml.Cron"
	case "secret":
		return "*yaml.Secret"
	case "signature":
		return "*yaml.Signature"
	case "registry":
		return "*yaml.Registry"
	}
	return "*yaml.Pipeline"
}

// renderAny is render, sometimes with CRLF line ends or no newline at the end.
func renderAny(t *T, rs []yaml.Resource) string {
	s := render(t, rs)
	if t.P(15) {
		s = strings.Replace(s, "\n", "\r\n", -1)
	}
	if t.P(10) && !strings.HasSuffix(s, "\n\n") && !strings.HasSuffix(s, "\n\r\n") {
		trimmed := strings.TrimRight(s, "\r\n")
		last := trimmed[strings.LastIndexByte(trimmed, '\n')+1:]
		if strings.HasPrefix(last, "...") || !strings.Contains(s, "|") {
			s = trimmed
		}
	}
	return s
}

var _ = bytes.NewReader

// wrongly is an attribute with a value of another type than its own.
type wrongly struct{ where, doc string }

// misplaced has such values for every attribute of every kind.
var misplaced = sync.OnceValue(func() (l []wrongly) {
	var walk func(typ reflect.Type, where string, wrap func(string) string)
	walk = func(typ reflect.Type, where string, wrap func(string) string) {
		bad := func(vs ...string) {
			for _, v := range vs {
				l = append(l, wrongly{where + " = " + v, wrap(v)})
			}
		}
		switch reflect.New(typ).Interface().(type) {
		case *yaml.Condition:
			bad("[[a]]", "[a, [b]]", "[{a: b}]", "{include: a}", "{exclude: a}", "{include: [a], exclude: b}", "{include: a, exclude: [b]}", "{include: {a: b}}", "{exclude: [[a]]}", "{exclude: [{a: b}], include: [c]}")
			return
		case *yaml.BytesSize:
			bad("lots", "5 apples", "[1]", "{a: 1}", "true", "1 2")
			return
		case *yaml.Variable:
			bad("[a]", "{from_secret: [a]}", "{from_secret: {a: b}}")
			return
		case *yaml.Parameter:
			return // takes everything
		case *yaml.Port:
			bad("http", "[80]", "{port: http}", "{port: [80]}", "{port: 80, host: x}", "{port: 80, protocol: [tcp]}")
			return
		case *yaml.Build:
			bad("[a]", "{image: [a]}", "{image: a, args: [b]}", "{image: a, args: b}", "{image: a, cache_from: {b: c}}", "{image: a, labels: [b]}", "{image: a, context: {b: c}}", "{image: a, dockerfile: [b]}")
			return
		case *yaml.Push:
			bad("[a]", "{image: [a]}", "{image: {a: b}}")
			return
		}
		switch typ.Kind() {
		case reflect.Ptr:
			walk(typ.Elem(), where, wrap)
		case reflect.String:
			bad("[a]", "{a: b}")
		case reflect.Bool:
			bad("maybe", "[true]", "{a: true}", "5")
		case reflect.Int, reflect.Int64:
			bad("many", "[1]", "{a: 1}", "true")
		case reflect.Float64:
			bad("fast", "[1]", "{a: 1}", "true")
		case reflect.Slice:
			bad("{a: b}", "a", "5")
			if typ.Elem().Kind() == reflect.String {
				bad("[[a]]", "[a, {b: c}]")
			}
			walk(typ.Elem(), where+"[]", func(v string) string { return wrap("[" + v + "]") })
		case reflect.Map:
			bad("[a]", "a", "5")
			walk(typ.Elem(), where+"{}", func(v string) string { return wrap("{A: " + v + "}") })
		case reflect.Struct:
			if where != "" {
				bad("[a]", "a", "5")
			}
			for i := 0; i < typ.NumField(); i++ {
				f := typ.Field(i)
				key := strings.Split(f.Tag.Get("yaml"), ",")[0]
				if key == "" {
					key = strings.ToLower(f.Name)
				}
				if where == "" && (key == "kind" || key == "-") {
					continue
				}
				walk(f.Type, where+"."+key, func(v string) string { return wrap("{" + key + ": " + v + "}") })
			}
		}
	}
	for kind, r := range map[string]interface{}{"pipeline": yaml.Pipeline{}, "cron": yaml.Cron{}, "secret": yaml.Secret{}, "registry": yaml.Registry{}, "signature": yaml.Signature{}} {
		walk(reflect.TypeOf(r), "", func(v string) string { return "{kind: " + kind + ", " + v[1:] + "\n" })
	}
	sort.Slice(l, func(i, j int) bool { return l[i].doc < l[j].doc })
	return
})
