From 5875a65676b02099d90a53ac8da4bb90160e0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 01/65] fix: parse lines of any length and report reader errors

ParseRaw used a bufio.Scanner with the default 64 kilobyte limit and
never looked at the scanner's error: a longer line or a failing reader
silently truncated the configuration.
---
 yaml/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yaml/parse.go b/yaml/parse.go
index 522ff79..92a3a50 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"errors"
 	"io"
+	"math"
 	"os"
 	"strings"
 
@@ -103,6 +104,9 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 	var resource *RawResource
 
 	scanner := bufio.NewScanner(r)
+	// the default limit ends the scan at the first line
+	// that exceeds 64 kilobytes.
+	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if isSeparator(line) {
@@ -130,6 +134,9 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 			newline,
 		)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	for _, resource := range resources {
 		err := yaml.Unmarshal(resource.Data, resource)
 		if err != nil {
-- 
2.43.0


From 763f395bb3b66979082c334ac6aad1988445b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 02/65] fix: keep the raw data of a null document

---
 yaml/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaml/parse.go b/yaml/parse.go
index 92a3a50..90119c5 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -138,10 +138,14 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 		return nil, err
 	}
 	for _, resource := range resources {
-		err := yaml.Unmarshal(resource.Data, resource)
+		// an empty (null) document resets the whole structure,
+		// the raw data has to survive it.
+		data := resource.Data
+		err := yaml.Unmarshal(data, resource)
 		if err != nil {
 			return nil, err
 		}
+		resource.Data = data
 	}
 	return resources, nil
 }
-- 
2.43.0


From ccb67e02b8c783ad9a78d1f8f9ede59247311685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 03/65] fix: encode empty variables and parameters as empty
 strings

An empty value was encoded as null, which decodes to a nil pointer:
the variable or parameter is lost.
---
 yaml/env.go   | 5 +----
 yaml/param.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/yaml/env.go b/yaml/env.go
index 9b8e002..c397786 100644
--- a/yaml/env.go
+++ b/yaml/env.go
@@ -50,8 +50,5 @@ func (v *Variable) MarshalYAML() (interface{}, error) {
 		m["from_secret"] = v.Secret
 		return m, nil
 	}
-	if v.Value != "" {
-		return v.Value, nil
-	}
-	return nil, nil
+	return v.Value, nil
 }
diff --git a/yaml/param.go b/yaml/param.go
index 33cfbdb..9167d6a 100644
--- a/yaml/param.go
+++ b/yaml/param.go
@@ -51,8 +51,5 @@ func (p *Parameter) MarshalYAML() (interface{}, error) {
 		m["from_secret"] = p.Secret
 		return m, nil
 	}
-	if p.Value != "" {
-		return p.Value, nil
-	}
-	return nil, nil
+	return p.Value, nil
 }
-- 
2.43.0


From 62b53f7bb74d8b9726637611cd7ec0ec014cc99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 04/65] fix: quote strings whose plain spelling is not that
 string

The formatter wrote strings such as "1.10", "true", "~", "&foo" or "-"
as plain scalars, which changes their type or value or makes the output
invalid. A string is now only written plain if it parses to itself.
---
 yaml/pretty/container.go |  6 ++-
 yaml/pretty/util.go      | 38 ++++++++++++++++++-
 yaml/pretty/writer.go    | 81 +++++++++++++++++++++++++++++++++++-----
 3 files changed, 113 insertions(+), 12 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index afcfd17..fab5e3e 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -194,8 +194,12 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 	for _, k := range keys {
 		v := v[k]
 		if v.Secret == "" {
+			value := v.Value
+			if s, ok := value.(string); ok {
+				value = text(s)
+			}
 			w.IncludeZero()
-			w.WriteTagValue(k, v.Value)
+			w.WriteTagValue(k, value)
 			w.ExcludeZero()
 		} else {
 			w.WriteTag(k)
diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 749543b..e20dd8e 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -18,11 +18,13 @@ import (
 	"strings"
 
 	"github.com/drone/drone-yaml/yaml"
+
+	buildkite "github.com/buildkite/yaml"
 )
 
 func isPrimative(v interface{}) bool {
 	switch v.(type) {
-	case bool, string, int, int64, float64:
+	case bool, string, text, int, int64, float64:
 		return true
 	case yaml.BytesSize:
 		return true
@@ -48,6 +50,8 @@ func isZero(v interface{}) bool {
 		return v == false
 	case string:
 		return len(v) == 0
+	case text:
+		return len(v) == 0
 	case int:
 		return v == 0
 	case float64:
@@ -131,6 +135,38 @@ func isQuoted(s string) bool {
 	return strings.HasSuffix(t, ":")
 }
 
+// helper function returns true if the plain (unquoted) value
+// is parsed to the string s where a string is expected.
+func isPlain(s string) bool {
+	var out []string
+	err := buildkite.Unmarshal([]byte("- "+s), &out)
+	return err == nil && len(out) == 1 && out[0] == s
+}
+
+// helper function returns true if the plain (unquoted) value
+// is parsed to the string s where any type is accepted.
+func isPlainText(s string) bool {
+	var out []interface{}
+	err := buildkite.Unmarshal([]byte("- "+s), &out)
+	return err == nil && len(out) == 1 && out[0] == s
+}
+
+// helper function returns true if the plain (unquoted) mapping
+// key is parsed to the string s where a string is expected.
+func isPlainKey(s string) bool {
+	var out map[string]string
+	err := buildkite.Unmarshal([]byte(s+": v"), &out)
+	return err == nil && len(out) == 1 && out[s] == "v"
+}
+
+// helper function returns true if the plain (unquoted) mapping
+// key is parsed to the string s where any type is accepted.
+func isPlainTextKey(s string) bool {
+	var out map[interface{}]interface{}
+	err := buildkite.Unmarshal([]byte(s+": v"), &out)
+	return err == nil && len(out) == 1 && out[s] == "v"
+}
+
 func chunk(s string, chunkSize int) []string {
 	if len(s) == 0 {
 		return []string{s}
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 3b38362..c20a3cd 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -105,7 +105,7 @@ func (w *baseWriter) ExcludeZero() {
 func (w *baseWriter) WriteTag(v interface{}) {
 	w.WriteByte('\n')
 	w.Indent()
-	writeValue(w, v)
+	writeKey(w, v)
 	w.WriteByte(':')
 }
 
@@ -159,7 +159,7 @@ func (w *indexWriter) WriteTag(v interface{}) {
 	} else {
 		w.Indent()
 	}
-	writeValue(w, v)
+	writeKey(w, v)
 	w.WriteByte(':')
 	w.index++
 }
@@ -232,7 +232,7 @@ func writeValue(w writer, v interface{}) {
 		return
 	}
 	switch v := v.(type) {
-	case bool, int, int64, float64, string:
+	case bool, int, int64, float64, string, text:
 		writeScalar(w, v)
 	case []interface{}:
 		writeSequence(w, v)
@@ -258,7 +258,9 @@ func writeScalar(w writer, v interface{}) {
 	case float64:
 		writeFloat(w, v)
 	case string:
-		writeEncode(w, v)
+		writeString(w, v)
+	case text:
+		writeText(w, string(v))
 	}
 }
 
@@ -276,7 +278,7 @@ func writeSequence(w writer, v []interface{}) {
 		w.WriteByte('-')
 		w.WriteByte(' ')
 		w.IndentIncrease()
-		writeValue(w, v)
+		writeAny(w, v)
 		w.IndentDecrease()
 	}
 }
@@ -294,7 +296,7 @@ func writeSequenceStr(w writer, v []string) {
 		}
 		w.WriteByte('-')
 		w.WriteByte(' ')
-		writeEncode(w, v)
+		writeString(w, v)
 	}
 }
 
@@ -316,11 +318,11 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeEncode(w, k)
+		writeTextKey(w, k)
 		w.WriteByte(':')
 		if v == nil || isPrimative(v) || isZero(v) {
 			w.WriteByte(' ')
-			writeValue(w, v)
+			writeAny(w, v)
 		} else {
 			slice := isSlice(v)
 			if !slice {
@@ -328,7 +330,7 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 			}
 			w.WriteByte('\n')
 			w.Indent()
-			writeValue(w, v)
+			writeAny(w, v)
 			if !slice {
 				w.IndentDecrease()
 			}
@@ -353,9 +355,68 @@ func writeMappingStr(w writer, v map[string]string) {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeEncode(w, k)
+		writeKey(w, k)
 		w.WriteByte(':')
 		w.WriteByte(' ')
+		writeString(w, v)
+	}
+}
+
+// text is a string stored where any type is accepted. It needs
+// to be quoted if its plain spelling is another type, such as
+// a number or boolean.
+type text string
+
+// helper function writes a value stored where any type is
+// accepted.
+func writeAny(w writer, v interface{}) {
+	if s, ok := v.(string); ok {
+		writeText(w, s)
+	} else {
+		writeValue(w, v)
+	}
+}
+
+// helper function writes a string that is stored where a
+// string is expected.
+func writeString(w writer, v string) {
+	if isPlain(v) {
+		writeEncode(w, v)
+	} else {
+		writeQuoted(w, v)
+	}
+}
+
+// helper function writes a string that is stored where any
+// type is accepted.
+func writeText(w writer, v string) {
+	if isPlainText(v) {
 		writeEncode(w, v)
+	} else {
+		writeQuoted(w, v)
+	}
+}
+
+// helper function writes a mapping key.
+func writeKey(w writer, v interface{}) {
+	if s, ok := v.(string); ok && !isPlainKey(s) {
+		writeQuoted(w, s)
+	} else {
+		writeValue(w, v)
 	}
 }
+
+// helper function writes a mapping key that is stored where
+// any type is accepted.
+func writeTextKey(w writer, v string) {
+	if isPlainTextKey(v) {
+		writeEncode(w, v)
+	} else {
+		writeQuoted(w, v)
+	}
+}
+
+// helper function writes a quoted string.
+func writeQuoted(w writer, v string) {
+	fmt.Fprintf(w, "%q", v)
+}
-- 
2.43.0


From 2d9989737b3a064358353c6c4b821cc4cc3779bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 05/65] fix: format registry resources

The formatter dropped registries; the expected format was already in
testdata/registry.yml.golden.
---
 yaml/pretty/pretty.go   |  2 ++
 yaml/pretty/registry.go | 50 +++++++++++++++++++++++++++++++++++++++++
 yaml/pretty/secret.go   |  6 ++---
 3 files changed, 55 insertions(+), 3 deletions(-)
 create mode 100644 yaml/pretty/registry.go

diff --git a/yaml/pretty/pretty.go b/yaml/pretty/pretty.go
index 1080c46..ff2390f 100644
--- a/yaml/pretty/pretty.go
+++ b/yaml/pretty/pretty.go
@@ -29,6 +29,8 @@ func Print(w io.Writer, v *yaml.Manifest) {
 			printCron(state, t)
 		case *yaml.Secret:
 			printSecret(state, t)
+		case *yaml.Registry:
+			printRegistry(state, t)
 		case *yaml.Signature:
 			printSignature(state, t)
 		case *yaml.Pipeline:
diff --git a/yaml/pretty/registry.go b/yaml/pretty/registry.go
new file mode 100644
index 0000000..9977504
--- /dev/null
+++ b/yaml/pretty/registry.go
@@ -0,0 +1,50 @@
+// Copyright 2019 Drone IO, Inc.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//      http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package pretty
+
+import (
+	"sort"
+
+	"github.com/drone/drone-yaml/yaml"
+)
+
+// helper function pretty prints the registry resource.
+func printRegistry(w writer, v *yaml.Registry) {
+	w.WriteString("---")
+	w.WriteTagValue("version", v.Version)
+	w.WriteTagValue("kind", v.Kind)
+	w.WriteTagValue("type", v.Type)
+	if len(v.Data) > 0 {
+		printRegistryData(w, v.Data)
+	}
+	w.WriteByte('\n')
+	w.WriteByte('\n')
+}
+
+// helper function pretty prints the registry data.
+func printRegistryData(w writer, v map[string]string) {
+	var keys []string
+	for k := range v {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
+	w.WriteTag("data")
+	w.IndentIncrease()
+	for _, k := range keys {
+		printData(w, k, v[k])
+	}
+	w.IndentDecrease()
+}
diff --git a/yaml/pretty/secret.go b/yaml/pretty/secret.go
index 5a6b63f..27201b3 100644
--- a/yaml/pretty/secret.go
+++ b/yaml/pretty/secret.go
@@ -32,7 +32,7 @@ func printSecret(w writer, v *yaml.Secret) {
 
 	if len(v.Data) > 0 {
 		w.WriteTagValue("name", v.Name)
-		printData(w, v.Data)
+		printData(w, "data", v.Data)
 	}
 	if isSecretGetEmpty(v.Get) == false {
 		w.WriteTagValue("name", v.Name)
@@ -74,8 +74,8 @@ func printExternalData(w writer, d map[string]yaml.ExternalData) {
 	w.IndentDecrease()
 }
 
-func printData(w writer, d string) {
-	w.WriteTag("data")
+func printData(w writer, k, d string) {
+	w.WriteTag(k)
 	w.WriteByte(' ')
 	w.WriteByte('>')
 	w.IndentIncrease()
-- 
2.43.0


From 7dd572e156187edd39e491685307b891fa25b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 06/65] fix: format the type of cron resources

---
 yaml/pretty/cron.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/pretty/cron.go b/yaml/pretty/cron.go
index 6a835d2..45e228d 100644
--- a/yaml/pretty/cron.go
+++ b/yaml/pretty/cron.go
@@ -21,6 +21,7 @@ func printCron(w writer, v *yaml.Cron) {
 	w.WriteString("---")
 	w.WriteTagValue("version", v.Version)
 	w.WriteTagValue("kind", v.Kind)
+	w.WriteTagValue("type", v.Type)
 	w.WriteTagValue("name", v.Name)
 	printSpec(w, v)
 	w.WriteByte('\n')
-- 
2.43.0


From c8de69bac9606e9fbbcf55e155d96a1eedc7e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 07/65] fix: format the name of a secret exactly once

The name was lost when a secret had neither data nor get, and written
twice when it had both.
---
 yaml/pretty/secret.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaml/pretty/secret.go b/yaml/pretty/secret.go
index 27201b3..6fd164b 100644
--- a/yaml/pretty/secret.go
+++ b/yaml/pretty/secret.go
@@ -30,12 +30,11 @@ func printSecret(w writer, v *yaml.Secret) {
 	w.WriteTagValue("kind", v.Kind)
 	w.WriteTagValue("type", v.Type)
 
+	w.WriteTagValue("name", v.Name)
 	if len(v.Data) > 0 {
-		w.WriteTagValue("name", v.Name)
 		printData(w, "data", v.Data)
 	}
 	if isSecretGetEmpty(v.Get) == false {
-		w.WriteTagValue("name", v.Name)
 		w.WriteByte('\n')
 		printGet(w, v.Get)
 	}
-- 
2.43.0


From 61671812add4ac2765022d4e36bf6cd2e8165c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 08/65] fix: keep secret data that is not base64 text

White space was removed from any data, and multi-byte characters could
be split across lines.
---
 yaml/pretty/secret.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/yaml/pretty/secret.go b/yaml/pretty/secret.go
index 6fd164b..f83b513 100644
--- a/yaml/pretty/secret.go
+++ b/yaml/pretty/secret.go
@@ -74,12 +74,20 @@ func printExternalData(w writer, d map[string]yaml.ExternalData) {
 }
 
 func printData(w writer, k, d string) {
+	// encrypted data is base64 text, which may be folded. Any
+	// other text is preserved as is.
+	folded := spaceReplacer.Replace(d)
+	if !isBase64(folded) {
+		w.IncludeZero()
+		w.WriteTagValue(k, d)
+		w.ExcludeZero()
+		return
+	}
 	w.WriteTag(k)
 	w.WriteByte(' ')
 	w.WriteByte('>')
 	w.IndentIncrease()
-	d = spaceReplacer.Replace(d)
-	for _, s := range chunk(d, 60) {
+	for _, s := range chunk(folded, 60) {
 		w.WriteByte('\n')
 		w.Indent()
 		w.WriteString(s)
@@ -97,3 +105,17 @@ func isSecretGetEmpty(v yaml.SecretGet) bool {
 		v.Name == "" &&
 		v.Path == ""
 }
+
+// helper function returns true if the string is non-empty and
+// consists of base64 characters.
+func isBase64(s string) bool {
+	for _, c := range s {
+		switch {
+		case c >= 'A' && c <= 'Z', c >= 'a' && c <= 'z', c >= '0' && c <= '9':
+		case c == '+', c == '/', c == '=':
+		default:
+			return false
+		}
+	}
+	return len(s) > 0
+}
-- 
2.43.0


From ccfe654e4c48e169853ee2435b666b8a7c456a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 09/65] fix: format matrix conditions

---
 yaml/pretty/pipeline.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaml/pretty/pipeline.go b/yaml/pretty/pipeline.go
index e6cafdb..e4c8d17 100644
--- a/yaml/pretty/pipeline.go
+++ b/yaml/pretty/pipeline.go
@@ -152,6 +152,7 @@ func printConditions(w writer, name string, v yaml.Conditions) {
 	if !isConditionEmpty(v.Target) {
 		printCondition(w, "target", v.Target)
 	}
+	w.WriteTagValue("matrix", v.Matrix)
 	w.IndentDecrease()
 }
 
@@ -288,7 +289,8 @@ func isConditionsEmpty(v yaml.Conditions) bool {
 		isConditionEmpty(v.Ref) &&
 		isConditionEmpty(v.Repo) &&
 		isConditionEmpty(v.Status) &&
-		isConditionEmpty(v.Target)
+		isConditionEmpty(v.Target) &&
+		len(v.Matrix) == 0
 }
 
 // helper function returns true if the condition
-- 
2.43.0


From d81676b6914559f1ea66cb3283706eddf48f6e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 10/65] fix: format sizes without rounding

---
 yaml/pretty/writer.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index c20a3cd..cf65359 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -21,6 +21,8 @@ import (
 	"strconv"
 
 	"github.com/drone/drone-yaml/yaml"
+
+	"github.com/docker/go-units"
 )
 
 // TODO rename WriteTag to WriteKey
@@ -243,7 +245,7 @@ func writeValue(w writer, v interface{}) {
 	case map[string]string:
 		writeMappingStr(w, v)
 	case yaml.BytesSize:
-		writeValue(w, v.String())
+		writeSize(w, v)
 	}
 }
 
@@ -416,6 +418,17 @@ func writeTextKey(w writer, v string) {
 	}
 }
 
+// helper function writes the size in human-readable notation
+// unless this rounds the size.
+func writeSize(w writer, v yaml.BytesSize) {
+	s := v.String()
+	if n, err := units.RAMInBytes(s); err == nil && n == int64(v) {
+		writeValue(w, s)
+	} else {
+		writeInt64(w, int64(v))
+	}
+}
+
 // helper function writes a quoted string.
 func writeQuoted(w writer, v string) {
 	fmt.Fprintf(w, "%q", v)
-- 
2.43.0


From d4d1e810441fc7c2153699cbfde54b62bb14d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 11/65] fix: format empty and null variables and parameters

An empty variable was dropped, a null variable or parameter caused a
nil pointer dereference.
---
 yaml/pretty/container.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index fab5e3e..15592b6 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -124,8 +124,13 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 	w.IndentIncrease()
 	for _, k := range keys {
 		v := v[k]
-		if v.Secret == "" {
+		if v == nil {
+			w.WriteTag(k)
+			w.WriteString(" ~")
+		} else if v.Secret == "" {
+			w.IncludeZero()
 			w.WriteTagValue(k, v.Value)
+			w.ExcludeZero()
 		} else {
 			w.WriteTag(k)
 			w.IndentIncrease()
@@ -193,7 +198,10 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 	w.IndentIncrease()
 	for _, k := range keys {
 		v := v[k]
-		if v.Secret == "" {
+		if v == nil || (v.Secret == "" && v.Value == nil) {
+			w.WriteTag(k)
+			w.WriteString(" ~")
+		} else if v.Secret == "" {
 			value := v.Value
 			if s, ok := value.(string); ok {
 				value = text(s)
-- 
2.43.0


From 54413fdd542e118189488c0225556b8d2a06654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 12/65] fix: format empty lists, mappings and sequence items

An empty setting was written in invalid syntax, an empty build, host
volume or sequence item was dropped.
---
 yaml/pretty/container.go |  7 ++++++-
 yaml/pretty/pipeline.go  | 11 ++++++++---
 yaml/pretty/writer.go    | 16 ++++++++++++++--
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index 15592b6..ad2f82b 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -79,7 +79,10 @@ func printContainer(w writer, v *yaml.Container) {
 
 // helper function pretty prints the build node.
 func printBuild(w writer, v *yaml.Build) {
-	if shortBuild(v) {
+	if shortBuild(v) && v.Image == "" {
+		w.WriteTag("build")
+		w.WriteString(" {}")
+	} else if shortBuild(v) {
 		w.WriteTagValue("build", v.Image)
 	} else {
 		w.WriteTag("build")
@@ -108,6 +111,7 @@ func printDeviceMounts(w writer, v []*yaml.VolumeDevice) {
 		s.IndentIncrease()
 		s.WriteTagValue("name", v.Name)
 		s.WriteTagValue("path", v.DevicePath)
+		writeEmptyItem(s)
 		s.IndentDecrease()
 	}
 }
@@ -228,6 +232,7 @@ func printVolumeMounts(w writer, v []*yaml.VolumeMount) {
 		s.IndentIncrease()
 		s.WriteTagValue("name", v.Name)
 		s.WriteTagValue("path", v.MountPath)
+		writeEmptyItem(s)
 		s.IndentDecrease()
 	}
 }
diff --git a/yaml/pretty/pipeline.go b/yaml/pretty/pipeline.go
index e4c8d17..e9a4527 100644
--- a/yaml/pretty/pipeline.go
+++ b/yaml/pretty/pipeline.go
@@ -229,11 +229,16 @@ func printVolumes(w writer, v []*yaml.Volume) {
 
 		if v := v.HostPath; v != nil {
 			s.WriteTag("host")
-			s.IndentIncrease()
-			s.WriteTagValue("path", v.Path)
-			s.IndentDecrease()
+			if v.Path == "" {
+				w.WriteString(" {}")
+			} else {
+				s.IndentIncrease()
+				s.WriteTagValue("path", v.Path)
+				s.IndentDecrease()
+			}
 		}
 
+		writeEmptyItem(s)
 		s.IndentDecrease()
 	}
 }
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index cf65359..16d7df6 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -116,7 +116,7 @@ func (w *baseWriter) WriteTagValue(k, v interface{}) {
 		return
 	}
 	w.WriteTag(k)
-	if isPrimative(v) {
+	if isPrimative(v) || isZero(v) {
 		w.WriteByte(' ')
 		writeValue(w, v)
 	} else if isSlice(v) {
@@ -171,7 +171,7 @@ func (w *indexWriter) WriteTagValue(k, v interface{}) {
 		return
 	}
 	w.WriteTag(k)
-	if isPrimative(v) {
+	if isPrimative(v) || isZero(v) {
 		w.WriteByte(' ')
 		writeValue(w, v)
 	} else if isSlice(v) {
@@ -429,6 +429,18 @@ func writeSize(w writer, v yaml.BytesSize) {
 	}
 }
 
+// helper function writes an empty mapping if the sequence item
+// has no attributes, otherwise the item would be lost.
+func writeEmptyItem(w *indexWriter) {
+	if w.index == 0 {
+		w.WriteByte('\n')
+		w.IndentDecrease()
+		w.Indent()
+		w.IndentIncrease()
+		w.WriteString("- {}")
+	}
+}
+
 // helper function writes a quoted string.
 func writeQuoted(w writer, v string) {
 	fmt.Fprintf(w, "%q", v)
-- 
2.43.0


From 0b71507c894cbb7bdaca182ff1e40753b55c589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 13/65] fix: format all types of nested setting values

Values of mappings with non-string keys were dropped, as were large
unsigned integers. Infinity and NaN were written as strings.
---
 yaml/pretty/pipeline.go |  2 ++
 yaml/pretty/util.go     |  2 +-
 yaml/pretty/writer.go   | 40 +++++++++++++++++++++++++++++++---------
 3 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/yaml/pretty/pipeline.go b/yaml/pretty/pipeline.go
index e9a4527..9ebd598 100644
--- a/yaml/pretty/pipeline.go
+++ b/yaml/pretty/pipeline.go
@@ -52,6 +52,7 @@ func printPipeline(w writer, v *yaml.Pipeline) {
 			seq.writer = w
 			seq.IndentIncrease()
 			printContainer(seq, step)
+			writeEmptyItem(seq)
 			seq.IndentDecrease()
 		}
 	}
@@ -66,6 +67,7 @@ func printPipeline(w writer, v *yaml.Pipeline) {
 			seq.writer = w
 			seq.IndentIncrease()
 			printContainer(seq, step)
+			writeEmptyItem(seq)
 			seq.IndentDecrease()
 		}
 	}
diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index e20dd8e..20c7833 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -24,7 +24,7 @@ import (
 
 func isPrimative(v interface{}) bool {
 	switch v.(type) {
-	case bool, string, text, int, int64, float64:
+	case bool, string, text, int, int64, uint64, float64:
 		return true
 	case yaml.BytesSize:
 		return true
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 16d7df6..d23dd24 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -17,6 +17,7 @@ package pretty
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 
@@ -198,6 +199,17 @@ func writeBool(w writer, v bool) {
 }
 
 func writeFloat(w writer, v float64) {
+	switch {
+	case math.IsNaN(v):
+		w.WriteString(".nan")
+		return
+	case math.IsInf(v, 1):
+		w.WriteString(".inf")
+		return
+	case math.IsInf(v, -1):
+		w.WriteString("-.inf")
+		return
+	}
 	w.WriteString(
 		strconv.FormatFloat(v, 'g', -1, 64),
 	)
@@ -234,7 +246,7 @@ func writeValue(w writer, v interface{}) {
 		return
 	}
 	switch v := v.(type) {
-	case bool, int, int64, float64, string, text:
+	case bool, int, int64, uint64, float64, string, text:
 		writeScalar(w, v)
 	case []interface{}:
 		writeSequence(w, v)
@@ -257,6 +269,8 @@ func writeScalar(w writer, v interface{}) {
 		writeInt(w, v)
 	case int64:
 		writeInt64(w, v)
+	case uint64:
+		w.WriteString(strconv.FormatUint(v, 10))
 	case float64:
 		writeFloat(w, v)
 	case string:
@@ -308,12 +322,17 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 		w.WriteByte('}')
 		return
 	}
-	var keys []string
+	var keys []interface{}
 	for k := range v {
-		s := fmt.Sprint(k)
-		keys = append(keys, s)
+		keys = append(keys, k)
 	}
-	sort.Strings(keys)
+	sort.Slice(keys, func(i, j int) bool {
+		a, b := fmt.Sprint(keys[i]), fmt.Sprint(keys[j])
+		if a != b {
+			return a < b
+		}
+		return fmt.Sprintf("%T", keys[i]) < fmt.Sprintf("%T", keys[j])
+	})
 	for i, k := range keys {
 		v := v[k]
 		if i != 0 {
@@ -410,11 +429,14 @@ func writeKey(w writer, v interface{}) {
 
 // helper function writes a mapping key that is stored where
 // any type is accepted.
-func writeTextKey(w writer, v string) {
-	if isPlainTextKey(v) {
-		writeEncode(w, v)
+func writeTextKey(w writer, v interface{}) {
+	s, ok := v.(string)
+	if !ok {
+		writeValue(w, v)
+	} else if isPlainTextKey(s) {
+		writeEncode(w, s)
 	} else {
-		writeQuoted(w, v)
+		writeQuoted(w, s)
 	}
 }
 
-- 
2.43.0


From fe540091ba4684d6e5b08613da09bb3dac17fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 14/65] fix: do not format empty resource limits

The empty keys disappeared when the output was formatted again.
---
 yaml/pretty/container.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index ad2f82b..ef5118f 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -62,7 +62,7 @@ func printContainer(w writer, v *yaml.Container) {
 	if len(v.Ports) > 0 {
 		printPorts(w, v.Ports)
 	}
-	if v.Resources != nil {
+	if !isResourcesEmpty(v.Resources) {
 		printResources(w, v.Resources)
 	}
 	if len(v.Volumes) > 0 {
@@ -173,14 +173,14 @@ func printResources(w writer, v *yaml.Resources) {
 	w.WriteTag("resources")
 	w.IndentIncrease()
 
-	if v.Limits != nil {
+	if !isResourceObjectEmpty(v.Limits) {
 		w.WriteTag("limits")
 		w.IndentIncrease()
 		w.WriteTagValue("cpu", v.Limits.CPU)
 		w.WriteTagValue("memory", v.Limits.Memory)
 		w.IndentDecrease()
 	}
-	if v.Requests != nil {
+	if !isResourceObjectEmpty(v.Requests) {
 		w.WriteTag("requests")
 		w.IndentIncrease()
 		w.WriteTagValue("cpu", v.Requests.CPU)
@@ -252,3 +252,14 @@ func shortBuild(b *yaml.Build) bool {
 func shortPort(p *yaml.Port) bool {
 	return p.Host == 0 && len(p.Protocol) == 0
 }
+
+// returns true if the resources have no limits or requests.
+func isResourcesEmpty(v *yaml.Resources) bool {
+	return v == nil ||
+		isResourceObjectEmpty(v.Limits) && isResourceObjectEmpty(v.Requests)
+}
+
+// returns true if the resource object has no values.
+func isResourceObjectEmpty(v *yaml.ResourceObject) bool {
+	return v == nil || v.CPU == 0 && v.Memory == 0
+}
-- 
2.43.0


From 46a2132f183ce09abefb4d1fe8349df3e3fd1cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 15/65] fix: quote strings with a byte order mark

---
 yaml/pretty/util.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 20c7833..9709a12 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -140,7 +140,7 @@ func isQuoted(s string) bool {
 func isPlain(s string) bool {
 	var out []string
 	err := buildkite.Unmarshal([]byte("- "+s), &out)
-	return err == nil && len(out) == 1 && out[0] == s
+	return err == nil && len(out) == 1 && out[0] == s && !hasByteOrderMark(s)
 }
 
 // helper function returns true if the plain (unquoted) value
@@ -148,7 +148,7 @@ func isPlain(s string) bool {
 func isPlainText(s string) bool {
 	var out []interface{}
 	err := buildkite.Unmarshal([]byte("- "+s), &out)
-	return err == nil && len(out) == 1 && out[0] == s
+	return err == nil && len(out) == 1 && out[0] == s && !hasByteOrderMark(s)
 }
 
 // helper function returns true if the plain (unquoted) mapping
@@ -156,7 +156,7 @@ func isPlainText(s string) bool {
 func isPlainKey(s string) bool {
 	var out map[string]string
 	err := buildkite.Unmarshal([]byte(s+": v"), &out)
-	return err == nil && len(out) == 1 && out[s] == "v"
+	return err == nil && len(out) == 1 && out[s] == "v" && !hasByteOrderMark(s)
 }
 
 // helper function returns true if the plain (unquoted) mapping
@@ -164,7 +164,13 @@ func isPlainKey(s string) bool {
 func isPlainTextKey(s string) bool {
 	var out map[interface{}]interface{}
 	err := buildkite.Unmarshal([]byte(s+": v"), &out)
-	return err == nil && len(out) == 1 && out[s] == "v"
+	return err == nil && len(out) == 1 && out[s] == "v" && !hasByteOrderMark(s)
+}
+
+// helper function returns true if the string has a byte order
+// mark, which the parser skips at the start of a line only.
+func hasByteOrderMark(s string) bool {
+	return strings.ContainsRune(s, '\ufeff')
 }
 
 func chunk(s string, chunkSize int) []string {
-- 
2.43.0


From fe0573e4af4cf1c8298f8c9acaf41e252479f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 16/65] fix: report documents the decoder panics on as
 malformed

---
 yaml/parse.go       | 16 ++++++++++++++--
 yaml/pretty/util.go | 20 ++++++++++++++++----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/yaml/parse.go b/yaml/parse.go
index 90119c5..2426a47 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -18,6 +18,7 @@ import (
 	"bufio"
 	"bytes"
 	"errors"
+	"fmt"
 	"io"
 	"math"
 	"os"
@@ -92,7 +93,7 @@ func parseRaw(r *RawResource) (Resource, error) {
 	default:
 		obj = new(Pipeline)
 	}
-	err := yaml.Unmarshal(r.Data, obj)
+	err := unmarshal(r.Data, obj)
 	return obj, err
 }
 
@@ -141,7 +142,7 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 		// an empty (null) document resets the whole structure,
 		// the raw data has to survive it.
 		data := resource.Data
-		err := yaml.Unmarshal(data, resource)
+		err := unmarshal(data, resource)
 		if err != nil {
 			return nil, err
 		}
@@ -177,6 +178,17 @@ func ParseRawFile(p string) ([]*RawResource, error) {
 	return ParseRaw(f)
 }
 
+// helper function decodes the document. The decoder panics on
+// some malformed documents.
+func unmarshal(b []byte, v interface{}) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("yaml: %v", r)
+		}
+	}()
+	return yaml.Unmarshal(b, v)
+}
+
 func isSeparator(s string) bool {
 	return strings.HasPrefix(s, "---")
 }
diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 9709a12..0dbd869 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -15,6 +15,7 @@
 package pretty
 
 import (
+	"fmt"
 	"strings"
 
 	"github.com/drone/drone-yaml/yaml"
@@ -139,7 +140,7 @@ func isQuoted(s string) bool {
 // is parsed to the string s where a string is expected.
 func isPlain(s string) bool {
 	var out []string
-	err := buildkite.Unmarshal([]byte("- "+s), &out)
+	err := decode([]byte("- "+s), &out)
 	return err == nil && len(out) == 1 && out[0] == s && !hasByteOrderMark(s)
 }
 
@@ -147,7 +148,7 @@ func isPlain(s string) bool {
 // is parsed to the string s where any type is accepted.
 func isPlainText(s string) bool {
 	var out []interface{}
-	err := buildkite.Unmarshal([]byte("- "+s), &out)
+	err := decode([]byte("- "+s), &out)
 	return err == nil && len(out) == 1 && out[0] == s && !hasByteOrderMark(s)
 }
 
@@ -155,7 +156,7 @@ func isPlainText(s string) bool {
 // key is parsed to the string s where a string is expected.
 func isPlainKey(s string) bool {
 	var out map[string]string
-	err := buildkite.Unmarshal([]byte(s+": v"), &out)
+	err := decode([]byte(s+": v"), &out)
 	return err == nil && len(out) == 1 && out[s] == "v" && !hasByteOrderMark(s)
 }
 
@@ -163,10 +164,21 @@ func isPlainKey(s string) bool {
 // key is parsed to the string s where any type is accepted.
 func isPlainTextKey(s string) bool {
 	var out map[interface{}]interface{}
-	err := buildkite.Unmarshal([]byte(s+": v"), &out)
+	err := decode([]byte(s+": v"), &out)
 	return err == nil && len(out) == 1 && out[s] == "v" && !hasByteOrderMark(s)
 }
 
+// helper function decodes the document. The decoder panics on
+// some malformed documents.
+func decode(b []byte, v interface{}) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("yaml: %v", r)
+		}
+	}()
+	return buildkite.Unmarshal(b, v)
+}
+
 // helper function returns true if the string has a byte order
 // mark, which the parser skips at the start of a line only.
 func hasByteOrderMark(s string) bool {
-- 
2.43.0


From 7496cb2225eb373b965d9d9f39438a1c84815196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 17/65] fix: lint configurations with null list entries

A null step, service, port, volume or mount caused a nil pointer
dereference. A null step or service is rejected, null entries of other
lists configure nothing.
---
 yaml/linter/linter.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/yaml/linter/linter.go b/yaml/linter/linter.go
index 27b35cb..e7b3ec2 100644
--- a/yaml/linter/linter.go
+++ b/yaml/linter/linter.go
@@ -47,6 +47,10 @@ var ErrMissingDependency = errors.New("linter: invalid or unknown step dependenc
 // infinite execution loop.
 var ErrCyclicalDependency = errors.New("linter: cyclical step dependency detected")
 
+// errMissingContainer is returned when an entry in the list of
+// steps or services is null.
+var errMissingContainer = errors.New("linter: invalid or missing step")
+
 // Lint performs lint operations for a resource.
 func Lint(resource yaml.Resource, trusted bool) error {
 	switch v := resource.(type) {
@@ -79,6 +83,9 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		names["clone"] = struct{}{}
 	}
 	for _, container := range pipeline.Steps {
+		if container == nil {
+			return errMissingContainer
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -96,6 +103,9 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		}
 	}
 	for _, container := range pipeline.Services {
+		if container == nil {
+			return errMissingContainer
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -159,6 +169,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 		return errors.New("linter: untrusted repositories cannot configure network_mode")
 	}
 	for _, mount := range container.Volumes {
+		if mount == nil {
+			continue
+		}
 		switch mount.Name {
 		case "workspace", "_workspace", "_docker_socket":
 			return fmt.Errorf("linter: invalid volume name: %s", mount.Name)
@@ -169,6 +182,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 
 func checkPorts(ports []*yaml.Port, trusted bool) error {
 	for _, port := range ports {
+		if port == nil {
+			continue
+		}
 		err := checkPort(port, trusted)
 		if err != nil {
 			return err
@@ -186,6 +202,9 @@ func checkPort(port *yaml.Port, trusted bool) error {
 
 func checkVolumes(pipeline *yaml.Pipeline, trusted bool) error {
 	for _, volume := range pipeline.Volumes {
+		if volume == nil {
+			continue
+		}
 		if volume.EmptyDir != nil {
 			err := checkEmptyDirVolume(volume.EmptyDir, trusted)
 			if err != nil {
-- 
2.43.0


From c63140d8238dd16df41dbb03ed152b0788c4eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 18/65] fix: lint the dependencies of services

A service could depend on an unknown step, on itself, or on a service
that depends on it, which results in a pipeline that cannot execute.
---
 yaml/linter/linter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaml/linter/linter.go b/yaml/linter/linter.go
index e7b3ec2..4c15335 100644
--- a/yaml/linter/linter.go
+++ b/yaml/linter/linter.go
@@ -116,6 +116,11 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		if err != nil {
 			return err
 		}
+
+		err = checkDeps(container, names)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From fb1763415b471385965618911eeafb9e7d4b6167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 19/65] fix: compile configurations with null list entries

---
 yaml/compiler/compiler.go | 11 ++++++++++-
 yaml/compiler/convert.go  |  3 +++
 yaml/compiler/step.go     |  3 +++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index b5884db..42857ef 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -73,7 +73,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 
 	isSerial := true
 	for _, step := range from.Steps {
-		if len(step.DependsOn) != 0 {
+		if step != nil && len(step.DependsOn) != 0 {
 			isSerial = false
 			break
 		}
@@ -115,6 +115,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// file, convert to a runtime volume and append to the
 	// specification.
 	for _, from := range from.Volumes {
+		if from == nil {
+			continue
+		}
 		to := &engine.Volume{
 			Metadata: engine.Metadata{
 				UID:       rand.String(),
@@ -157,6 +160,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// configuration file, convert to a runtime step
 	// and append to the specification.
 	for _, service := range from.Services {
+		if service == nil {
+			continue
+		}
 		step := createStep(spec, service)
 		// note that all services are automatically
 		// set to run in detached mode.
@@ -191,6 +197,9 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// configuration file, convert to a runtime step
 	// and append to the specification.
 	for _, container := range from.Steps {
+		if container == nil {
+			continue
+		}
 		var step *engine.Step
 		switch {
 		case container.Build != nil:
diff --git a/yaml/compiler/convert.go b/yaml/compiler/convert.go
index 245c81e..6d875e2 100644
--- a/yaml/compiler/convert.go
+++ b/yaml/compiler/convert.go
@@ -28,6 +28,9 @@ func toIgnoreErr(from *yaml.Container) bool {
 func toPorts(from *yaml.Container) []*engine.Port {
 	var ports []*engine.Port
 	for _, port := range from.Ports {
+		if port == nil {
+			continue
+		}
 		ports = append(ports, toPort(port))
 	}
 	return ports
diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index e454540..5502f97 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -71,6 +71,9 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the volumes to the container def.
 	for _, vol := range src.Volumes {
+		if vol == nil {
+			continue
+		}
 		// the user should never be able to directly
 		// mount the docker socket. This should be
 		// restricted by the linter, but we place this
-- 
2.43.0


From f7e06e39f42d845ce393b33218c2f406c31ed929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 20/65] fix: format configurations with null list entries

---
 yaml/pretty/container.go | 9 +++++++++
 yaml/pretty/pipeline.go  | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index ef5118f..69c9a82 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -106,6 +106,9 @@ func printDependsOn(w writer, v []string) {
 func printDeviceMounts(w writer, v []*yaml.VolumeDevice) {
 	w.WriteTag("devices")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
@@ -149,6 +152,9 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 func printPorts(w writer, v []*yaml.Port) {
 	w.WriteTag("ports")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		if shortPort(v) {
 			w.WriteByte('\n')
 			w.Indent()
@@ -227,6 +233,9 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 func printVolumeMounts(w writer, v []*yaml.VolumeMount) {
 	w.WriteTag("volumes")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
diff --git a/yaml/pretty/pipeline.go b/yaml/pretty/pipeline.go
index 9ebd598..a0f24cf 100644
--- a/yaml/pretty/pipeline.go
+++ b/yaml/pretty/pipeline.go
@@ -210,6 +210,9 @@ func printPlatformDefault(w writer) {
 func printVolumes(w writer, v []*yaml.Volume) {
 	w.WriteTag("volumes")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
-- 
2.43.0


From b705f89024fd3810adc693361b298f3190b9f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 21/65] fix: depend on the clone step if a service has
 dependencies

The runtime executes the pipeline as a graph as soon as any step has
dependencies. If only services had dependencies the steps did not depend
on the clone step and were started along with it.
---
 yaml/compiler/compiler.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index 42857ef..32e0742 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -71,13 +71,9 @@ type Compiler struct {
 func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	namespace := rand.String()
 
-	isSerial := true
-	for _, step := range from.Steps {
-		if step != nil && len(step.DependsOn) != 0 {
-			isSerial = false
-			break
-		}
-	}
+	// the runtime executes the steps as a graph if any step
+	// or service defines dependencies.
+	isSerial := !hasDependencies(from.Steps) && !hasDependencies(from.Services)
 
 	spec := &engine.Spec{
 		Metadata: engine.Metadata{
@@ -324,3 +320,14 @@ func (c *Compiler) setupWorkspaceMount(step *engine.Step, base, path, full strin
 	}
 	MountWorkspace(step, base, path, full)
 }
+
+// helper function returns true if any container in the list
+// defines dependencies.
+func hasDependencies(containers []*yaml.Container) bool {
+	for _, container := range containers {
+		if container != nil && len(container.DependsOn) != 0 {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 4233ac2292baf8fab2dc0c56217b2691028badfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 22/65] fix: do not share dependencies between configuration
 and output

Appending the clone step could write to the memory of the
configuration.
---
 yaml/compiler/step.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index 5502f97..38b68d0 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -34,7 +34,7 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 			},
 		},
 		Detach:    src.Detach,
-		DependsOn: src.DependsOn,
+		DependsOn: append([]string(nil), src.DependsOn...),
 		Devices:   nil,
 		Docker: &engine.DockerStep{
 			Args:       src.Command,
@@ -160,7 +160,7 @@ func createBuildStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 			},
 		},
 		Detach:    src.Detach,
-		DependsOn: src.DependsOn,
+		DependsOn: append([]string(nil), src.DependsOn...),
 		Devices:   nil,
 		Docker: &engine.DockerStep{
 			Args:       []string{"--build"},
-- 
2.43.0


From b9ccf8cbb41e4486e11c0a5ebfed8e669f7aa4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 23/65] fix: resolve image aliases by image reference

The aliases were stored by the spelling of the image. If an image was
built twice in different spellings the alias was chosen at random. The
images of the clone and build steps are not user-defined and are no
longer replaced.
---
 yaml/compiler/compiler.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index 32e0742..a8f0a53 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -152,6 +152,14 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		spec.Steps = append(spec.Steps, dst)
 	}
 
+	// rename will store a list of container names
+	// that should be mapped to their temporary alias.
+	rename := map[string]string{}
+
+	// users will store the steps that use a user-defined
+	// image, and may therefore use one of these aliases.
+	var users []*engine.Step
+
 	// for each pipeline service defined in the yaml
 	// configuration file, convert to a runtime step
 	// and append to the specification.
@@ -160,6 +168,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 			continue
 		}
 		step := createStep(spec, service)
+		users = append(users, step)
 		// note that all services are automatically
 		// set to run in detached mode.
 		step.Detach = true
@@ -185,10 +194,6 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		spec.Steps = append(spec.Steps, step)
 	}
 
-	// rename will store a list of container names
-	// that should be mapped to their temporary alias.
-	rename := map[string]string{}
-
 	// for each pipeline step defined in the yaml
 	// configuration file, convert to a runtime step
 	// and append to the specification.
@@ -200,9 +205,10 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		switch {
 		case container.Build != nil:
 			step = createBuildStep(spec, container)
-			rename[container.Build.Image] = step.Metadata.UID
+			rename[image.Expand(container.Build.Image)] = step.Metadata.UID
 		default:
 			step = createStep(spec, container)
+			users = append(users, step)
 		}
 		setupWorkingDir(container, step, workspace)
 		setupWorkspaceEnv(step, base, dir, workspace)
@@ -248,12 +254,10 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// images created during the pipeline are assigned a
 	// random alias. All references to the origin image
 	// name must be changed to the alias.
-	for _, step := range spec.Steps {
-		for k, v := range rename {
-			if image.MatchTag(step.Docker.Image, k) {
-				img := image.Trim(step.Docker.Image) + ":" + v
-				step.Docker.Image = image.Expand(img)
-			}
+	for _, step := range users {
+		if v, ok := rename[image.Expand(step.Docker.Image)]; ok {
+			img := image.Trim(step.Docker.Image) + ":" + v
+			step.Docker.Image = image.Expand(img)
 		}
 	}
 
-- 
2.43.0


From 762f06f2ad3d520fb5dce6615038f3c77ae00377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 24/65] fix: do not run the builder privileged because of the
 image it builds

---
 yaml/compiler/dind.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaml/compiler/dind.go b/yaml/compiler/dind.go
index 84f40eb..618dd95 100644
--- a/yaml/compiler/dind.go
+++ b/yaml/compiler/dind.go
@@ -37,6 +37,11 @@ func DindFunc(images []string) func(*yaml.Container) bool {
 		if len(container.Entrypoint) > 0 {
 			return false
 		}
+		// the image of a build step is the image it builds,
+		// and not the image of a plugin.
+		if container.Build != nil {
+			return false
+		}
 		// if the container image matches any image
 		// in the whitelist, return true.
 		for _, img := range images {
-- 
2.43.0


From a6311ed79ba84295607b9b405e54a0b8c3889c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 25/65] fix: do not run images built by the pipeline as
 privileged plugins

---
 yaml/compiler/compiler.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index a8f0a53..985bd05 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -158,7 +158,11 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 
 	// users will store the steps that use a user-defined
 	// image, and may therefore use one of these aliases.
-	var users []*engine.Step
+	type user struct {
+		step *engine.Step
+		from *yaml.Container
+	}
+	var users []user
 
 	// for each pipeline service defined in the yaml
 	// configuration file, convert to a runtime step
@@ -168,7 +172,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 			continue
 		}
 		step := createStep(spec, service)
-		users = append(users, step)
+		users = append(users, user{step, service})
 		// note that all services are automatically
 		// set to run in detached mode.
 		step.Detach = true
@@ -208,7 +212,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 			rename[image.Expand(container.Build.Image)] = step.Metadata.UID
 		default:
 			step = createStep(spec, container)
-			users = append(users, step)
+			users = append(users, user{step, container})
 		}
 		setupWorkingDir(container, step, workspace)
 		setupWorkspaceEnv(step, base, dir, workspace)
@@ -254,10 +258,15 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// images created during the pipeline are assigned a
 	// random alias. All references to the origin image
 	// name must be changed to the alias.
-	for _, step := range users {
+	for _, user := range users {
+		step := user.step
 		if v, ok := rename[image.Expand(step.Docker.Image)]; ok {
 			img := image.Trim(step.Docker.Image) + ":" + v
 			step.Docker.Image = image.Expand(img)
+			// an image that is created by the pipeline is not
+			// the plugin it is named after, and must not be
+			// privileged in its place.
+			step.Docker.Privileged = user.from.Privileged
 		}
 	}
 
-- 
2.43.0


From 336e77ed5f310c26bbde0e06b60e6bbc968a8989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 26/65] fix: complete the metadata of the host workspace volume

---
 yaml/compiler/workspace.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index 600f4af..41d87d4 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -118,8 +118,10 @@ func CreateHostWorkspace(workdir string) func(*engine.Spec) {
 			spec.Docker.Volumes,
 			&engine.Volume{
 				Metadata: engine.Metadata{
-					UID:  rand.String(),
-					Name: workspaceHostName,
+					UID:       rand.String(),
+					Name:      workspaceHostName,
+					Namespace: spec.Metadata.Namespace,
+					Labels:    map[string]string{},
 				},
 				HostPath: &engine.VolumeHostPath{
 					Path: workdir,
-- 
2.43.0


From 3571d42eec15cbb620da692fdab2f19050fa773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 27/65] fix: do not evaluate backticks when tracing a command

---
 yaml/compiler/script_posix.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/compiler/script_posix.go b/yaml/compiler/script_posix.go
index ea5b2ed..1628326 100644
--- a/yaml/compiler/script_posix.go
+++ b/yaml/compiler/script_posix.go
@@ -29,6 +29,7 @@ func setupScript(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = strings.Replace(escaped, "`", "\\`", -1)
 		buf.WriteString(fmt.Sprintf(
 			traceScript,
 			escaped,
-- 
2.43.0


From 966883729bf0197a947cce41c69bc98cd9041bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 28/65] fix: keep the working directory of services without
 commands

---
 yaml/compiler/workspace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index 41d87d4..257be19 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -37,8 +37,10 @@ func setupWorkingDir(src *yaml.Container, dst *engine.Step, path string) {
 	}
 	// if the user is running the container as a
 	// service (detached mode) with no commands, we
-	// should use the default working directory.
+	// should use the user-defined working directory,
+	// which may be empty.
 	if dst.Detach && len(src.Commands) == 0 {
+		dst.WorkingDir = src.WorkingDir
 		return
 	}
 	// else set the working directory.
-- 
2.43.0


From 3f8bcce24ba8e4ded99ac7700384cb65a95f16d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 29/65] fix: escape quotes when tracing a command on windows

---
 yaml/compiler/script_win.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/yaml/compiler/script_win.go b/yaml/compiler/script_win.go
index b69496c..73a2a6b 100644
--- a/yaml/compiler/script_win.go
+++ b/yaml/compiler/script_win.go
@@ -29,6 +29,7 @@ func setupScriptWin(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = quotesWin.Replace(escaped)
 		buf.WriteString(fmt.Sprintf(
 			traceScriptWin,
 			escaped,
@@ -45,6 +46,16 @@ func setupScriptWin(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	dst.Envs["SHELL"] = "powershell.exe"
 }
 
+// quotesWin escapes the characters that end a single-quoted
+// string in powershell, including typographic quotes.
+var quotesWin = strings.NewReplacer(
+	"'", "''",
+	"\u2018", "\u2018\u2018",
+	"\u2019", "\u2019\u2019",
+	"\u201a", "\u201a\u201a",
+	"\u201b", "\u201b\u201b",
+)
+
 // buildScriptWin is a helper script this is added to the build
 // to prepare the environment and execute the build commands.
 const buildScriptWin = `
-- 
2.43.0


From 9684e5ad8cba07203dd3bd4dd6c3a06f2a0ba068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 30/65] fix: keep the resource limits that are not overridden

---
 yaml/compiler/transform/limits.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/transform/limits.go b/yaml/compiler/transform/limits.go
index e5ad66c..43c32e9 100644
--- a/yaml/compiler/transform/limits.go
+++ b/yaml/compiler/transform/limits.go
@@ -33,8 +33,12 @@ func WithLimits(memlimit, cpulimit int64) func(*engine.Spec) {
 			if step.Resources.Limits == nil {
 				step.Resources.Limits = &engine.ResourceObject{}
 			}
-			step.Resources.Limits.Memory = memlimit
-			step.Resources.Limits.CPU = cpulimit
+			if memlimit != 0 {
+				step.Resources.Limits.Memory = memlimit
+			}
+			if cpulimit != 0 {
+				step.Resources.Limits.CPU = cpulimit
+			}
 		}
 	}
 }
-- 
2.43.0


From 472c1b91fc56df357f4583bebe8396b0df0ac4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 31/65] fix: compile variables and settings in a fixed order

---
 yaml/compiler/step.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index 38b68d0..df4b269 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -15,6 +15,7 @@
 package compiler
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -90,7 +91,13 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the environment variables to the
 	// container definition.
-	for key, value := range src.Environment {
+	var environ []string
+	for key := range src.Environment {
+		environ = append(environ, key)
+	}
+	sort.Strings(environ)
+	for _, key := range environ {
+		value := src.Environment[key]
 		// fix https://github.com/drone/drone-yaml/issues/13
 		if value == nil {
 			continue
@@ -108,7 +115,13 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the settings variables to the
 	// container definition.
-	for key, value := range src.Settings {
+	var settings []string
+	for key := range src.Settings {
+		settings = append(settings, key)
+	}
+	sort.Strings(settings)
+	for _, key := range settings {
+		value := src.Settings[key]
 		// fix https://github.com/drone/drone-yaml/issues/13
 		if value == nil {
 			continue
-- 
2.43.0


From 1f6b53756e1e27ff84533f1cdd09640b0b48aca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 32/65] fix: round the cpu limit to milli cores instead of
 truncating it

---
 yaml/compiler/convert.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/convert.go b/yaml/compiler/convert.go
index 6d875e2..4d2d7d3 100644
--- a/yaml/compiler/convert.go
+++ b/yaml/compiler/convert.go
@@ -15,6 +15,7 @@
 package compiler
 
 import (
+	"math"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -94,7 +95,8 @@ func toResourceObject(from *yaml.ResourceObject) *engine.ResourceObject {
 
 func toCPUMillis(f float64) int64 {
 	if f > 0 {
-		f *= 1000
+		// rounded: 8.03 * 1000 is slightly less than 8030.
+		f = math.Round(f * 1000)
 	}
 	return int64(f)
 }
-- 
2.43.0


From a985bd4d1e46c0661eb8e3036ae0363647dbd105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 33/65] fix: resolve secrets in a fixed order and leave them as
 they are

---
 yaml/compiler/transform/secret.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/yaml/compiler/transform/secret.go b/yaml/compiler/transform/secret.go
index 439dfb3..2057718 100644
--- a/yaml/compiler/transform/secret.go
+++ b/yaml/compiler/transform/secret.go
@@ -15,6 +15,8 @@
 package transform
 
 import (
+	"sort"
+
 	"github.com/drone/drone-runtime/engine"
 	"github.com/drone/drone-yaml/yaml/compiler/internal/rand"
 )
@@ -23,7 +25,12 @@ import (
 // of global secrets to the container.
 func WithSecrets(secrets map[string]string) func(*engine.Spec) {
 	return func(spec *engine.Spec) {
-		for key, value := range secrets {
+		var keys []string
+		for key := range secrets {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
 			spec.Secrets = append(spec.Secrets,
 				&engine.Secret{
 					Metadata: engine.Metadata{
@@ -31,7 +38,7 @@ func WithSecrets(secrets map[string]string) func(*engine.Spec) {
 						Name:      key,
 						Namespace: spec.Metadata.Namespace,
 					},
-					Data: value,
+					Data: secrets[key],
 				},
 			)
 		}
@@ -49,6 +56,7 @@ func WithSecretFunc(f SecretFunc) func(*engine.Spec) {
 	return func(spec *engine.Spec) {
 		// first we get a unique list of all secrets
 		// used by the specification.
+		var names []string
 		set := map[string]struct{}{}
 		for _, step := range spec.Steps {
 			// if we know the step is not going to run,
@@ -57,19 +65,26 @@ func WithSecretFunc(f SecretFunc) func(*engine.Spec) {
 				continue
 			}
 			for _, v := range step.Secrets {
+				if _, ok := set[v.Name]; ok {
+					continue
+				}
 				set[v.Name] = struct{}{}
+				names = append(names, v.Name)
 			}
 		}
 
 		// next we use the callback function to
 		// get the value for each secret, and append
 		// to the specification.
-		for name := range set {
-			secret := f(name)
-			if secret != nil {
+		for _, name := range names {
+			found := f(name)
+			if found != nil {
+				// the callback may return the same secret to
+				// another pipeline, so it is not modified.
+				secret := *found
 				secret.Metadata.UID = rand.String()
 				secret.Metadata.Namespace = spec.Metadata.Namespace
-				spec.Secrets = append(spec.Secrets, secret)
+				spec.Secrets = append(spec.Secrets, &secret)
 			}
 		}
 	}
-- 
2.43.0


From 8e3991d26de1a38ebc28749643c67e3732c9f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 34/65] fix: mount a host path to every place it is meant for

---
 yaml/compiler/transform/volume.go | 73 +++++++++++++++++++------------
 1 file changed, 44 insertions(+), 29 deletions(-)

diff --git a/yaml/compiler/transform/volume.go b/yaml/compiler/transform/volume.go
index 8268310..e3dbd81 100644
--- a/yaml/compiler/transform/volume.go
+++ b/yaml/compiler/transform/volume.go
@@ -15,6 +15,7 @@
 package transform
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -25,26 +26,13 @@ import (
 // of global volumes to the container.
 func WithVolumes(volumes map[string]string) func(*engine.Spec) {
 	return func(spec *engine.Spec) {
-		for key, value := range volumes {
-			volume := &engine.Volume{
-				Metadata: engine.Metadata{
-					UID:       rand.String(),
-					Name:      rand.String(),
-					Namespace: spec.Metadata.Name,
-					Labels:    map[string]string{},
-				},
-				HostPath: &engine.VolumeHostPath{
-					Path: key,
-				},
-			}
-			spec.Docker.Volumes = append(spec.Docker.Volumes, volume)
-			for _, step := range spec.Steps {
-				mount := &engine.VolumeMount{
-					Name: volume.Metadata.Name,
-					Path: value,
-				}
-				step.Volumes = append(step.Volumes, mount)
-			}
+		var keys []string
+		for key := range volumes {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
+			addVolume(spec, key, volumes[key])
 		}
 	}
 }
@@ -53,15 +41,42 @@ func WithVolumes(volumes map[string]string) func(*engine.Spec) {
 // of global volumes to the container that are defined in
 // --volume=host:container format.
 func WithVolumeSlice(volumes []string) func(*engine.Spec) {
-	to := map[string]string{}
-	for _, s := range volumes {
-		parts := strings.Split(s, ":")
-		if len(parts) != 2 {
-			continue
+	return func(spec *engine.Spec) {
+		set := map[string]struct{}{}
+		for _, s := range volumes {
+			parts := strings.Split(s, ":")
+			if len(parts) != 2 {
+				continue
+			}
+			if _, ok := set[s]; ok {
+				continue
+			}
+			set[s] = struct{}{}
+			addVolume(spec, parts[0], parts[1])
+		}
+	}
+}
+
+// helper function adds a global volume and mounts the volume
+// to every step.
+func addVolume(spec *engine.Spec, key, value string) {
+	volume := &engine.Volume{
+		Metadata: engine.Metadata{
+			UID:       rand.String(),
+			Name:      rand.String(),
+			Namespace: spec.Metadata.Name,
+			Labels:    map[string]string{},
+		},
+		HostPath: &engine.VolumeHostPath{
+			Path: key,
+		},
+	}
+	spec.Docker.Volumes = append(spec.Docker.Volumes, volume)
+	for _, step := range spec.Steps {
+		mount := &engine.VolumeMount{
+			Name: volume.Metadata.Name,
+			Path: value,
 		}
-		key := parts[0]
-		val := parts[1]
-		to[key] = val
+		step.Volumes = append(step.Volumes, mount)
 	}
-	return WithVolumes(to)
 }
-- 
2.43.0


From 43c5860c744b0e0e63007ccbf906230a67aff983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 35/65] fix: recognise allow_failure of gitlab jobs

---
 yaml/converter/gitlab/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/converter/gitlab/config.go b/yaml/converter/gitlab/config.go
index bab4c04..f97db3b 100644
--- a/yaml/converter/gitlab/config.go
+++ b/yaml/converter/gitlab/config.go
@@ -87,7 +87,7 @@ type (
 
 		// Allow job to fail. Failed job doesn’t contribute
 		// to commit status
-		AllowFailure bool
+		AllowFailure bool `yaml:"allow_failure"`
 
 		// Define when to run job. Can be on_success, on_failure,
 		// always or manual
-- 
2.43.0


From a2fdcd730868542d8acf6c2c36c7370e51f9ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 36/65] fix: convert gitlab jobs in the order of the file

---
 yaml/converter/gitlab/convert.go | 44 +++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 7a19938..54cd227 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -6,6 +6,8 @@ package gitlab
 
 import (
 	"bytes"
+	"fmt"
+	"sort"
 	"strings"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
@@ -23,14 +25,18 @@ func Convert(b []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	names, err := jobNames(b, config)
+	if err != nil {
+		return nil, err
+	}
 	manifest := &droneyaml.Manifest{}
 
 	// if no stages are defined, we create a single,
 	// default stage that will be used for all jobs.
 	if len(config.Stages) == 0 {
-		for name, job := range config.Jobs {
+		for _, name := range names {
 			config.Stages = append(config.Stages, name)
-			job.Stage = name
+			config.Jobs[name].Stage = name
 		}
 	}
 
@@ -41,7 +47,8 @@ func Convert(b []byte) ([]byte, error) {
 		pipeline.Name = stage
 		pipeline.Kind = droneyaml.KindPipeline
 		manifest.Resources = append(manifest.Resources, pipeline)
-		for name, job := range config.Jobs {
+		for _, name := range names {
+			job := config.Jobs[name]
 			if job.Stage != stage {
 				continue
 			}
@@ -99,6 +106,37 @@ func Convert(b []byte) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// helper function returns the job names in the order in
+// which the jobs are defined in the configuration file.
+func jobNames(b []byte, config *Config) ([]string, error) {
+	attrs := yaml.MapSlice{}
+	if err := yaml.Unmarshal(b, &attrs); err != nil {
+		return nil, err
+	}
+	var names []string
+	set := map[string]struct{}{}
+	for _, attr := range attrs {
+		name := fmt.Sprint(attr.Key)
+		if _, ok := config.Jobs[name]; !ok {
+			continue
+		}
+		if _, ok := set[name]; !ok {
+			set[name] = struct{}{}
+			names = append(names, name)
+		}
+	}
+	// jobs that cannot be found by name, for example
+	// because they are merged, come last.
+	var other []string
+	for name := range config.Jobs {
+		if _, ok := set[name]; !ok {
+			other = append(other, name)
+		}
+	}
+	sort.Strings(other)
+	return append(names, other...), nil
+}
+
 func serviceSlug(s string) string {
 	s = image.Trim(s)
 	s = strings.Replace(s, "/", "__", -1)
-- 
2.43.0


From 62fdfabb15a0f0f18aa8c3efe1df83a3e6e0f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 37/65] fix: convert gitlab jobs without a stage in the test
 stage

---
 yaml/converter/gitlab/convert.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 54cd227..de6325e 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -40,6 +40,14 @@ func Convert(b []byte) ([]byte, error) {
 		}
 	}
 
+	// a job that does not define its stage belongs
+	// to the test stage.
+	for _, name := range names {
+		if config.Jobs[name].Stage == "" {
+			config.Jobs[name].Stage = "test"
+		}
+	}
+
 	// create a new pipeline for each stage.
 	var prevstage string
 	for _, stage := range config.Stages {
-- 
2.43.0


From b707bbf83b38456622fa14b4ddd08f36138be16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 38/65] fix: ignore empty gitlab jobs and services

---
 yaml/converter/gitlab/convert.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index de6325e..1977539 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -25,6 +25,11 @@ func Convert(b []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	for name, job := range config.Jobs {
+		if job == nil {
+			delete(config.Jobs, name)
+		}
+	}
 	names, err := jobNames(b, config)
 	if err != nil {
 		return nil, err
@@ -91,6 +96,9 @@ func Convert(b []byte) ([]byte, error) {
 		}
 
 		for _, step := range config.Services {
+			if step == nil {
+				continue
+			}
 			step := &droneyaml.Container{
 				Name:       step.Alias,
 				Image:      step.Name,
-- 
2.43.0


From 15421de9b87eba1af9ac371c70daabc8078f81a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 39/65] fix: choose the bitbucket pipeline independently of the
 map order

---
 yaml/converter/bitbucket/config.go | 33 ++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index a27c25b..1a5df67 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -6,6 +6,7 @@ package bitbucket
 
 import (
 	"path"
+	"sort"
 	"strings"
 )
 
@@ -75,22 +76,38 @@ type (
 func (c *Config) Pipeline(ref string) Stage {
 	// match pipeline by tag name
 	tag := strings.TrimPrefix(ref, "refs/tags/")
-	for pattern, pipeline := range c.Pipelines.Tags {
-		if ok, _ := path.Match(pattern, tag); ok {
-			return pipeline
-		}
+	if stage, ok := match(c.Pipelines.Tags, tag); ok {
+		return stage
 	}
 	// match pipeline by branch name
 	branch := strings.TrimPrefix(ref, "refs/heads/")
-	for pattern, pipeline := range c.Pipelines.Branches {
-		if ok, _ := path.Match(pattern, branch); ok {
-			return pipeline
-		}
+	if stage, ok := match(c.Pipelines.Branches, branch); ok {
+		return stage
 	}
 	// use default
 	return c.Pipelines.Default
 }
 
+// helper function returns the stage with the given name, or
+// else the stage of the first pattern, in alphabetical order,
+// that matches the name.
+func match(stages map[string]Stage, name string) (Stage, bool) {
+	if stage, ok := stages[name]; ok {
+		return stage, true
+	}
+	var patterns []string
+	for pattern := range stages {
+		patterns = append(patterns, pattern)
+	}
+	sort.Strings(patterns)
+	for _, pattern := range patterns {
+		if ok, _ := path.Match(pattern, name); ok {
+			return stages[pattern], true
+		}
+	}
+	return Stage{}, false
+}
+
 // UnmarshalYAML implements custom parsing for the stage section of the yaml
 // to cleanup the structure a bit.
 func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
-- 
2.43.0


From 1470519eeb8abef74e87a2b42d38b44f8427fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 40/65] fix: do not match bitbucket branches with tags

---
 yaml/converter/bitbucket/config.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index 1a5df67..7dbe210 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -75,14 +75,18 @@ type (
 // or tag, the default pipeline is returned.
 func (c *Config) Pipeline(ref string) Stage {
 	// match pipeline by tag name
-	tag := strings.TrimPrefix(ref, "refs/tags/")
-	if stage, ok := match(c.Pipelines.Tags, tag); ok {
-		return stage
+	if !strings.HasPrefix(ref, "refs/heads/") {
+		tag := strings.TrimPrefix(ref, "refs/tags/")
+		if stage, ok := match(c.Pipelines.Tags, tag); ok {
+			return stage
+		}
 	}
 	// match pipeline by branch name
-	branch := strings.TrimPrefix(ref, "refs/heads/")
-	if stage, ok := match(c.Pipelines.Branches, branch); ok {
-		return stage
+	if !strings.HasPrefix(ref, "refs/tags/") {
+		branch := strings.TrimPrefix(ref, "refs/heads/")
+		if stage, ok := match(c.Pipelines.Branches, branch); ok {
+			return stage
+		}
 	}
 	// use default
 	return c.Pipelines.Default
-- 
2.43.0


From cc351f19ed4e04cf28ed7b8a90f5fcb9bda26f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 41/65] fix: convert bitbucket services in a fixed order

---
 yaml/converter/bitbucket/convert.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index a365ce1..e09b12b 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -7,6 +7,7 @@ package bitbucket
 import (
 	"bytes"
 	"fmt"
+	"sort"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
 	"github.com/drone/drone-yaml/yaml/pretty"
@@ -59,8 +60,13 @@ func Convert(b []byte, ref string) ([]byte, error) {
 	// services
 	//
 
-	for name, from := range config.Definitions.Services {
-		to := toContainer(from)
+	var names []string
+	for name := range config.Definitions.Services {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		to := toContainer(config.Definitions.Services[name])
 		to.Name = name
 		pipeline.Services = append(pipeline.Services, to)
 	}
-- 
2.43.0


From 7a7374f9c89adb7b5020faa8bc2fbaf4be5ea728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 42/65] fix: convert bitbucket parallel steps, ignore empty
 ones

---
 yaml/converter/bitbucket/config.go  | 8 ++++++--
 yaml/converter/bitbucket/convert.go | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index 7dbe210..2726345 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -116,14 +116,18 @@ func match(stages map[string]Stage, name string) (Stage, bool) {
 // to cleanup the structure a bit.
 func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	in := []struct {
-		Step *Step
+		Step     *Step
+		Parallel Stage
 	}{}
 	err := unmarshal(&in)
 	if err != nil {
 		return err
 	}
 	for _, step := range in {
-		s.Steps = append(s.Steps, step.Step)
+		if step.Step != nil {
+			s.Steps = append(s.Steps, step.Step)
+		}
+		s.Steps = append(s.Steps, step.Parallel.Steps...)
 	}
 	return nil
 }
diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index e09b12b..e91229f 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -61,8 +61,10 @@ func Convert(b []byte, ref string) ([]byte, error) {
 	//
 
 	var names []string
-	for name := range config.Definitions.Services {
-		names = append(names, name)
+	for name, from := range config.Definitions.Services {
+		if from != nil {
+			names = append(names, name)
+		}
 	}
 	sort.Strings(names)
 	for _, name := range names {
-- 
2.43.0


From 1999e83f3e2dd982293683c11374da5ed6c8589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 43/65] fix: name bitbucket steps without a name uniquely

---
 yaml/converter/bitbucket/convert.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index e91229f..5022660 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -43,6 +43,11 @@ func Convert(b []byte, ref string) ([]byte, error) {
 	// steps
 	//
 
+	taken := map[string]struct{}{}
+	for _, from := range stage.Steps {
+		taken[from.Name] = struct{}{}
+	}
+
 	for i, from := range stage.Steps {
 		to := toContainer(from)
 		// defaults to the global image if the
@@ -52,6 +57,10 @@ func Convert(b []byte, ref string) ([]byte, error) {
 		}
 		if to.Name == "" {
 			to.Name = fmt.Sprintf("step_%d", i)
+			for _, ok := taken[to.Name]; ok; _, ok = taken[to.Name] {
+				to.Name += "_"
+			}
+			taken[to.Name] = struct{}{}
 		}
 		pipeline.Steps = append(pipeline.Steps, to)
 	}
-- 
2.43.0


From 4544f7f0f2593722e58c8d1d3f783b4a307f64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 44/65] fix: recognise the legacy pipeline section with a
 comment or a value

---
 yaml/converter/legacy/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/match.go b/yaml/converter/legacy/match.go
index d851112..561f376 100644
--- a/yaml/converter/legacy/match.go
+++ b/yaml/converter/legacy/match.go
@@ -8,7 +8,7 @@ import (
 	"regexp"
 )
 
-var re = regexp.MustCompile(`(?m)^pipeline:(\s+)?$`)
+var re = regexp.MustCompile(`(?m)^["']?pipeline["']?\s*:(\s|$)`)
 
 // Match returns true if the yaml configuration file
 // is legacy and requires converstion.
-- 
2.43.0


From b1e42f449c4674283642a618788cf69cfc6521ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 45/65] fix: rename duplicate legacy steps to unused names

---
 yaml/converter/legacy/internal/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 0eed413..c4607f8 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -137,7 +137,7 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 	names := map[string]struct{}{}
 	for i, step := range pipeline.Steps {
-		if _, ok := names[step.Name]; ok {
+		for _, ok := names[step.Name]; ok; _, ok = names[step.Name] {
 			step.Name = fmt.Sprintf("%s_%d", step.Name, i)
 		}
 		names[step.Name] = struct{}{}
-- 
2.43.0


From c1aa0707097fd398ab835bee75234bf24b02a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 46/65] fix: add a legacy container once, if all of its matrix
 conditions match

---
 yaml/converter/legacy/internal/config.go | 27 +++++++++++++-----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index c4607f8..4abf49c 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -200,12 +200,8 @@ func Convert(d []byte, remote string) ([]byte, error) {
 					continue
 				}
 
-				for whenKey, whenValue := range service.When.Matrix {
-					for envKey, envValue := range environ {
-						if whenKey == envKey && whenValue == envValue {
-							services = append(services, service)
-						}
-					}
+				if matchAxis(service.When.Matrix, environ) {
+					services = append(services, service)
 				}
 			}
 			current.Services = services
@@ -217,12 +213,8 @@ func Convert(d []byte, remote string) ([]byte, error) {
 					continue
 				}
 
-				for whenKey, whenValue := range step.When.Matrix {
-					for envKey, envValue := range environ {
-						if whenKey == envKey && whenValue == envValue {
-							steps = append(steps, step)
-						}
-					}
+				if matchAxis(step.When.Matrix, environ) {
+					steps = append(steps, step)
 				}
 			}
 			current.Steps = steps
@@ -465,6 +457,17 @@ func toWorkspacePath(link string) string {
 	return "src/" + hostname + "/" + path
 }
 
+// helper function returns true if the axis has all of
+// the values.
+func matchAxis(values map[string]string, axis matrix.Axis) bool {
+	for key, value := range values {
+		if got, ok := axis[key]; !ok || got != value {
+			return false
+		}
+	}
+	return true
+}
+
 // helper function returns true if the slice the string.
 func sliceContains(match string, items []string) bool {
 	for _, item := range items {
-- 
2.43.0


From 63ff6b0d92cc353daaa6279e4a27d66c3ad1f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 47/65] fix: declare the volumes of legacy clone steps

---
 yaml/converter/legacy/internal/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 4abf49c..47e3316 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -421,6 +421,7 @@ func toVolumes(from *Config) []*droneyaml.Volume {
 	containers := []*Container{}
 	containers = append(containers, from.Pipeline.Containers...)
 	containers = append(containers, from.Services.Containers...)
+	containers = append(containers, from.Clone.Containers...)
 
 	for _, container := range containers {
 		for _, v := range container.Volumes {
-- 
2.43.0


From 6167c4b532143028c304cf97f14bb9932137f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 48/65] fix: ignore empty legacy volumes and secrets

---
 yaml/converter/legacy/internal/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 47e3316..6701c23 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -334,6 +334,9 @@ func toEnvironment(from *Container) map[string]*droneyaml.Variable {
 		}
 	}
 	for _, val := range from.Secrets.Secrets {
+		if val == nil {
+			continue
+		}
 		name := strings.ToUpper(val.Target)
 		envs[name] = &droneyaml.Variable{
 			Secret: val.Source,
@@ -404,6 +407,9 @@ func toSettings(from map[string]interface{}) map[string]*droneyaml.Parameter {
 func toVolumeMounts(from []*Volume) []*droneyaml.VolumeMount {
 	to := []*droneyaml.VolumeMount{}
 	for _, v := range from {
+		if v == nil {
+			continue
+		}
 		to = append(to, &droneyaml.VolumeMount{
 			Name:      fmt.Sprintf("%x", v.Source),
 			MountPath: v.Destination,
@@ -425,6 +431,9 @@ func toVolumes(from *Config) []*droneyaml.Volume {
 
 	for _, container := range containers {
 		for _, v := range container.Volumes {
+			if v == nil {
+				continue
+			}
 			name := fmt.Sprintf("%x", v.Source)
 			if _, ok := set[name]; ok {
 				continue
-- 
2.43.0


From e426ed3000808a077d9db434f9291b46c50ba60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 49/65] fix: convert the legacy matrix in a fixed order

---
 yaml/converter/legacy/matrix/matrix.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index 112dd1b..c84f310 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -5,6 +5,7 @@
 package matrix
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/buildkite/yaml"
@@ -69,6 +70,7 @@ func calc(matrix Matrix) []Axis {
 		}
 		tags = append(tags, k)
 	}
+	sort.Strings(tags)
 
 	// structure to hold the transformed result set
 	axisList := []Axis{}
-- 
2.43.0


From 670c156ad60d11fa0db835789fc676e6c32934bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 50/65] fix: convert a legacy matrix without values

---
 yaml/converter/legacy/internal/config.go | 5 ++++-
 yaml/converter/legacy/matrix/matrix.go   | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 6701c23..c364c3a 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -182,13 +182,16 @@ func Convert(d []byte, remote string) ([]byte, error) {
 		pipeline.PullSecrets = []string{".dockerconfigjson"}
 	}
 
+	var axes []matrix.Axis
 	if from.Matrix != nil {
-		axes, err := matrix.Parse(d)
+		axes, err = matrix.Parse(d)
 
 		if err != nil {
 			return nil, err
 		}
+	}
 
+	if len(axes) != 0 {
 		for index, environ := range axes {
 			current := pipeline
 			current.Name = fmt.Sprintf("matrix-%d", index+1)
diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index c84f310..6d95cd3 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -45,6 +45,13 @@ func Parse(data []byte) ([]Axis, error) {
 		return nil, err
 	}
 
+	// a tag without values does not contribute to the matrix.
+	for k, v := range matrix {
+		if len(v) == 0 {
+			delete(matrix, k)
+		}
+	}
+
 	// if not a matrix build return an array with just the single axis.
 	if len(matrix) == 0 {
 		return nil, nil
-- 
2.43.0


From de7418ed7b5a7b0ca6389d645097139b8cf5003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 51/65] fix: keep the order of merged legacy steps and services

---
 yaml/converter/legacy/internal/config.go    |  7 ----
 yaml/converter/legacy/internal/container.go | 42 ++++++++++++++++++---
 yaml/converter/legacy/internal/yaml.go      | 33 ----------------
 3 files changed, 37 insertions(+), 45 deletions(-)
 delete mode 100644 yaml/converter/legacy/internal/yaml.go

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index c364c3a..6a0d550 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -42,13 +42,6 @@ type Config struct {
 // Convert converts the yaml configuration file from
 // the legacy format to the 1.0+ format.
 func Convert(d []byte, remote string) ([]byte, error) {
-	// hack: this is a hack to support teams migrating
-	// from 0.8 to 1.0 that are using yaml merge keys.
-	// it can be removed in a future version.
-	if hasMergeKeys(d) {
-		d, _ = expandMergeKeys(d)
-	}
-
 	from := new(Config)
 	err := yaml.Unmarshal(d, from)
 
diff --git a/yaml/converter/legacy/internal/container.go b/yaml/converter/legacy/internal/container.go
index 460bf82..39880bb 100644
--- a/yaml/converter/legacy/internal/container.go
+++ b/yaml/converter/legacy/internal/container.go
@@ -6,6 +6,8 @@ package yaml
 
 import (
 	"fmt"
+	"sort"
+	"sync/atomic"
 
 	"github.com/buildkite/yaml"
 )
@@ -39,23 +41,53 @@ type (
 		Constraints Constraints            `yaml:"when,omitempty"`
 		Vargs       map[string]interface{} `yaml:",inline"`
 	}
+
+	// containerKey is the name of a container. It is used as
+	// the key of a map, which, unlike yaml.MapSlice, supports
+	// merge keys, and records the position of the container.
+	containerKey struct {
+		name  string
+		index int64
+	}
 )
 
+var containerIndex int64
+
+// UnmarshalYAML implements the Unmarshaller interface.
+func (k *containerKey) UnmarshalYAML(unmarshal func(interface{}) error) error {
+	var name interface{}
+	if err := unmarshal(&name); err != nil {
+		return err
+	}
+	k.name = fmt.Sprintf("%v", name)
+	k.index = atomic.AddInt64(&containerIndex, 1)
+	return nil
+}
+
 // UnmarshalYAML implements the Unmarshaller interface.
 func (c *Containers) UnmarshalYAML(unmarshal func(interface{}) error) error {
-	slice := yaml.MapSlice{}
-	if err := unmarshal(&slice); err != nil {
+	items := map[containerKey]interface{}{}
+	if err := unmarshal(&items); err != nil {
 		return err
 	}
 
-	for _, s := range slice {
+	// restore the order of the configuration file.
+	var keys []containerKey
+	for key := range items {
+		keys = append(keys, key)
+	}
+	sort.Slice(keys, func(i, j int) bool {
+		return keys[i].index < keys[j].index
+	})
+
+	for _, key := range keys {
 		container := Container{}
-		out, _ := yaml.Marshal(s.Value)
+		out, _ := yaml.Marshal(items[key])
 
 		if err := yaml.Unmarshal(out, &container); err != nil {
 			return err
 		}
-		container.Name = fmt.Sprintf("%v", s.Key)
+		container.Name = key.name
 		c.Containers = append(c.Containers, &container)
 	}
 	return nil
diff --git a/yaml/converter/legacy/internal/yaml.go b/yaml/converter/legacy/internal/yaml.go
deleted file mode 100644
index 0b1d33f..0000000
--- a/yaml/converter/legacy/internal/yaml.go
+++ /dev/null
@@ -1,33 +0,0 @@
-// Copyright 2019 Drone.IO Inc. All rights reserved.
-// Use of this source code is governed by the Drone Non-Commercial License
-// that can be found in the LICENSE file.
-
-package yaml
-
-import (
-	"bytes"
-
-	"github.com/vinzenz/yaml"
-)
-
-type temporary struct {
-	Attributes map[string]interface{} `yaml:",inline"`
-	Pipeline   yaml.MapSlice          `yaml:"pipeline"`
-}
-
-// this is a helper function that expands merge keys
-func expandMergeKeys(b []byte) ([]byte, error) {
-	v := new(temporary)
-	if err := yaml.Unmarshal(b, v); err != nil {
-		return b, err
-	}
-	o, err := yaml.Marshal(v)
-	if err != nil {
-		return b, err
-	}
-	return o, nil
-}
-
-func hasMergeKeys(b []byte) bool {
-	return bytes.Contains(b, []byte("<<:"))
-}
-- 
2.43.0


From dd936327abac309131bf78b2f5053531cd3d6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 52/65] fix: replace legacy matrix variables in the decoded
 pipeline

---
 yaml/converter/legacy/internal/config.go | 87 +++++++++++++++++++-----
 1 file changed, 70 insertions(+), 17 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 6a0d550..278a681 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
@@ -215,27 +216,12 @@ func Convert(d []byte, remote string) ([]byte, error) {
 			}
 			current.Steps = steps
 
-			marshaled, err := yaml.Marshal(&current)
-
+			transformed, err := expand(&current, environ)
 			if err != nil {
 				return nil, err
 			}
 
-			transformed := string(marshaled)
-
-			for key, value := range environ {
-				if strings.Contains(value, "\n") {
-					value = fmt.Sprintf("%q", value)
-				}
-
-				transformed = strings.Replace(transformed, fmt.Sprintf("${%s}", key), value, -1)
-			}
-
-			if err := yaml.Unmarshal([]byte(transformed), &current); err != nil {
-				return nil, err
-			}
-
-			manifest.Resources = append(manifest.Resources, &current)
+			manifest.Resources = append(manifest.Resources, transformed)
 		}
 	} else {
 		manifest.Resources = append(manifest.Resources, &pipeline)
@@ -474,6 +460,73 @@ func matchAxis(values map[string]string, axis matrix.Axis) bool {
 	return true
 }
 
+// helper function returns a copy of the pipeline with the
+// matrix variables replaced by the values of the axis.
+func expand(from *droneyaml.Pipeline, axis matrix.Axis) (*droneyaml.Pipeline, error) {
+	marshaled, err := yaml.Marshal(from)
+	if err != nil {
+		return nil, err
+	}
+	doc := yaml.MapSlice{}
+	if err := yaml.Unmarshal(marshaled, &doc); err != nil {
+		return nil, err
+	}
+
+	var oldnew []string
+	for key, value := range axis {
+		oldnew = append(oldnew, fmt.Sprintf("${%s}", key), value)
+	}
+	expanded := expandNode(doc, strings.NewReplacer(oldnew...))
+
+	marshaled, err = yaml.Marshal(expanded)
+	if err != nil {
+		return nil, err
+	}
+	to := new(droneyaml.Pipeline)
+	return to, yaml.Unmarshal(marshaled, to)
+}
+
+// helper function replaces the variables in all strings of
+// the document. It does not replace in the encoded document,
+// where a value could change the structure of the document.
+func expandNode(node interface{}, r *strings.Replacer) interface{} {
+	switch v := node.(type) {
+	case string:
+		return expandScalar(v, r)
+	case []interface{}:
+		for i := range v {
+			v[i] = expandNode(v[i], r)
+		}
+	case yaml.MapSlice:
+		for i := range v {
+			v[i].Key = expandNode(v[i].Key, r)
+			v[i].Value = expandNode(v[i].Value, r)
+		}
+	}
+	return node
+}
+
+// helper function replaces the variables in the string. The
+// result is a number or boolean if it reads as one.
+func expandScalar(s string, r *strings.Replacer) interface{} {
+	expanded := r.Replace(s)
+	if expanded == s {
+		return s
+	}
+	if expanded == "true" || expanded == "false" {
+		return expanded == "true"
+	}
+	if n, err := strconv.Atoi(expanded); err == nil && strconv.Itoa(n) == expanded {
+		return n
+	}
+	if n, err := strconv.ParseFloat(expanded, 64); err == nil &&
+		strings.Contains(expanded, ".") &&
+		strconv.FormatFloat(n, 'g', -1, 64) == expanded {
+		return n
+	}
+	return expanded
+}
+
 // helper function returns true if the slice the string.
 func sliceContains(match string, items []string) bool {
 	for _, item := range items {
-- 
2.43.0


From 7a959c93b771ad0fcef1034eff8dc8133e1e42c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 53/65] fix: return an error when the converted file cannot be
 decoded

---
 yaml/converter/convert.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/convert.go b/yaml/converter/convert.go
index d5b02a6..42836c7 100644
--- a/yaml/converter/convert.go
+++ b/yaml/converter/convert.go
@@ -7,6 +7,8 @@
 package converter
 
 import (
+	"fmt"
+
 	"github.com/drone/drone-yaml/yaml/converter/bitbucket"
 	"github.com/drone/drone-yaml/yaml/converter/gitlab"
 	"github.com/drone/drone-yaml/yaml/converter/legacy"
@@ -14,7 +16,13 @@ import (
 
 // Convert converts the yaml configuration file from
 // the legacy format to the 1.0+ format.
-func Convert(d []byte, m Metadata) ([]byte, error) {
+func Convert(d []byte, m Metadata) (out []byte, err error) {
+	// the yaml decoder panics on some malformed documents.
+	defer func() {
+		if r := recover(); r != nil {
+			out, err = nil, fmt.Errorf("yaml: %v", r)
+		}
+	}()
 	switch m.Filename {
 	case "bitbucket-pipelines.yml":
 		return bitbucket.Convert(d, m.Ref)
-- 
2.43.0


From e84695a794df2917254ed6d2bd698b0d2dbec3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 54/65] fix: save the converted file if asked to

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 9dd0627..3baad89 100644
--- a/main.go
+++ b/main.go
@@ -114,7 +114,7 @@ func runConvert() error {
 	if err != nil {
 		return err
 	}
-	if *formatSave {
+	if *convertSave {
 		return ioutil.WriteFile(f.Name(), b, 0644)
 	}
 	_, err = io.Copy(os.Stderr, bytes.NewReader(b))
-- 
2.43.0


From a53cc12f8ca3803f36d82fcf3420e5e8cad76fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 55/65] fix: do not convert hidden gitlab jobs and global
 settings to steps

---
 yaml/converter/gitlab/convert.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 1977539..33f59bf 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -25,8 +25,10 @@ func Convert(b []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	// hidden jobs are not processed. Other attributes that have
+	// no script are global settings, such as the cache.
 	for name, job := range config.Jobs {
-		if job == nil {
+		if job == nil || len(job.Script) == 0 || strings.HasPrefix(name, ".") {
 			delete(config.Jobs, name)
 		}
 	}
-- 
2.43.0


From b9a6a1d4436ebc4851f2ada2dcb71a2dff5cddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 56/65] fix: keep the names of legacy steps that are not
 duplicates

---
 yaml/converter/legacy/internal/config.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 278a681..a8dad84 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -129,12 +129,22 @@ func Convert(d []byte, remote string) ([]byte, error) {
 		)
 	}
 
+	taken := map[string]bool{}
+	for _, step := range pipeline.Steps {
+		taken[step.Name] = true
+	}
+
 	names := map[string]struct{}{}
 	for i, step := range pipeline.Steps {
-		for _, ok := names[step.Name]; ok; _, ok = names[step.Name] {
-			step.Name = fmt.Sprintf("%s_%d", step.Name, i)
+		name := step.Name
+		if _, ok := names[name]; ok {
+			for taken[name] {
+				name = fmt.Sprintf("%s_%d", name, i)
+			}
 		}
-		names[step.Name] = struct{}{}
+		step.Name = name
+		taken[name] = true
+		names[name] = struct{}{}
 	}
 
 	pipeline.Volumes = toVolumes(from)
-- 
2.43.0


From 4faf1154c94e05b16c80dce776ac2241532210df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 57/65] fix: report that the signature cannot be printed

---
 main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 3baad89..414e69c 100644
--- a/main.go
+++ b/main.go
@@ -157,8 +157,8 @@ func runSign() error {
 	if err != nil {
 		return err
 	}
-	fmt.Println(hmac)
-	return nil
+	_, err = fmt.Println(hmac)
+	return err
 }
 
 func runVerify() error {
@@ -176,8 +176,8 @@ func runVerify() error {
 		return errors.New("cannot verify yaml signature")
 	}
 
-	fmt.Println("success: yaml signature verified")
-	return nil
+	_, err = fmt.Println("success: yaml signature verified")
+	return err
 }
 
 var (
-- 
2.43.0


From a99d0aefb1aa19d591a15bf174ea517b2c989769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 58/65] fix: host workspace takes a volume name users may use

The linter does not reserve the name host, so that a volume of
that name and the host workspace could be mounted for one another.
---
 yaml/compiler/workspace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index 257be19..a6b7be5 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -26,7 +26,7 @@ import (
 const (
 	workspacePath     = "/drone/src"
 	workspaceName     = "workspace"
-	workspaceHostName = "host"
+	workspaceHostName = "_workspace"
 )
 
 func setupWorkingDir(src *yaml.Container, dst *engine.Step, path string) {
-- 
2.43.0


From dc6ad2689ec4cbc68e135510b99acae52f0e9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 59/65] fix: an end marker at the beginning is no document
 without a kind

---
 yaml/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaml/parse.go b/yaml/parse.go
index 2426a47..96505bc 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -113,7 +113,8 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 		if isSeparator(line) {
 			resource = nil
 		}
-		if resource == nil {
+		// the terminator is not the beginning of a document.
+		if resource == nil && !isTerminator(line) {
 			resource = &RawResource{}
 			resources = append(resources, resource)
 		}
-- 
2.43.0


From 451315f7f24bd22778217de19f9390765333c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 60/65] fix: keep integer parameters when decoding json

---
 yaml/param.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/yaml/param.go b/yaml/param.go
index 9167d6a..7a6f836 100644
--- a/yaml/param.go
+++ b/yaml/param.go
@@ -14,6 +14,12 @@
 
 package yaml
 
+import (
+	"bytes"
+	"encoding/json"
+	"strconv"
+)
+
 type (
 	// Parameter represents an configuration parameter that
 	// can be defined as a literal or as a reference
@@ -53,3 +59,45 @@ func (p *Parameter) MarshalYAML() (interface{}, error) {
 	}
 	return p.Value, nil
 }
+
+// UnmarshalJSON implements json unmarshalling. Integers are
+// decoded to integers, like they are when decoding yaml.
+func (p *Parameter) UnmarshalJSON(b []byte) error {
+	type plain Parameter
+	d := json.NewDecoder(bytes.NewReader(b))
+	d.UseNumber()
+	err := d.Decode((*plain)(p))
+	if err != nil {
+		return err
+	}
+	p.Value, err = convertNumbers(p.Value)
+	return err
+}
+
+// helper function replaces the json numbers in the decoded
+// value with integers or, if they are none, with floats.
+func convertNumbers(v interface{}) (_ interface{}, err error) {
+	switch v := v.(type) {
+	case json.Number:
+		if i, err := strconv.Atoi(v.String()); err == nil {
+			return i, nil
+		}
+		if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return u, nil
+		}
+		return v.Float64()
+	case []interface{}:
+		for i := range v {
+			if v[i], err = convertNumbers(v[i]); err != nil {
+				return nil, err
+			}
+		}
+	case map[string]interface{}:
+		for k := range v {
+			if v[k], err = convertNumbers(v[k]); err != nil {
+				return nil, err
+			}
+		}
+	}
+	return v, nil
+}
-- 
2.43.0


From 3cafc60d03346a944cdf2280d0a43c7716b40c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:38 +0000
Subject: [PATCH 61/65] fix: refuse conditions that are neither patterns nor
 include and exclude lists

---
 yaml/cond.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/yaml/cond.go b/yaml/cond.go
index f6716ed..a0cea1c 100644
--- a/yaml/cond.go
+++ b/yaml/cond.go
@@ -89,8 +89,14 @@ func (c *Condition) UnmarshalYAML(unmarshal func(interface{}) error) error {
 		return nil
 	}
 
-	unmarshal(&out2)
-	unmarshal(&out3)
+	// a list has no include and exclude attributes, and the
+	// attributes are no list. A condition that is neither is
+	// an error, or the patterns would be lost.
+	if err := unmarshal(&out2); err != nil {
+		if err := unmarshal(&out3); err != nil {
+			return err
+		}
+	}
 
 	c.Exclude = out3.Exclude
 	c.Include = append(
-- 
2.43.0


From 98271796d715aedcfa2e1ec26ea352402210adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:16 +0000
Subject: [PATCH 62/65] fix: an image that is a text replaces a merged gitlab
 image

---
 yaml/converter/gitlab/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/converter/gitlab/config.go b/yaml/converter/gitlab/config.go
index f97db3b..b496e5b 100644
--- a/yaml/converter/gitlab/config.go
+++ b/yaml/converter/gitlab/config.go
@@ -108,7 +108,7 @@ func (i *Image) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	var name string
 	err := unmarshal(&name)
 	if err == nil {
-		i.Name = name
+		*i = Image{Name: name}
 		return nil
 	}
 	data := struct {
-- 
2.43.0


From 12c286742fc69e7bad31b0f86e1bcaf521471c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:58 +0000
Subject: [PATCH 63/65] fix: a condition that is a text replaces a merged
 condition

---
 yaml/cond.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/cond.go b/yaml/cond.go
index a0cea1c..18deef3 100644
--- a/yaml/cond.go
+++ b/yaml/cond.go
@@ -85,7 +85,7 @@ func (c *Condition) UnmarshalYAML(unmarshal func(interface{}) error) error {
 
 	err := unmarshal(&out1)
 	if err == nil {
-		c.Include = []string{out1}
+		*c = Condition{Include: []string{out1}}
 		return nil
 	}
 
-- 
2.43.0


From 159bcfebf8b9a8da1653e28e071840bafb1fef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:11 +0000
Subject: [PATCH 64/65] fix: a bitbucket pipeline replaces a merged pipeline

---
 yaml/converter/bitbucket/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index 2726345..70fee69 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -123,6 +123,7 @@ func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	if err != nil {
 		return err
 	}
+	s.Steps = nil
 	for _, step := range in {
 		if step.Step != nil {
 			s.Steps = append(s.Steps, step.Step)
-- 
2.43.0


From c562c10db697ca84f7e46ea8beeba297116ea13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:15 +0000
Subject: [PATCH 65/65] fix: refuse legacy constraints that are neither
 patterns nor include and exclude lists

---
 yaml/converter/legacy/internal/constraint.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yaml/converter/legacy/internal/constraint.go b/yaml/converter/legacy/internal/constraint.go
index 518db2a..afc849f 100644
--- a/yaml/converter/legacy/internal/constraint.go
+++ b/yaml/converter/legacy/internal/constraint.go
@@ -39,8 +39,13 @@ func (c *Constraint) UnmarshalYAML(unmarshal func(interface{}) error) error {
 
 	var out2 StringSlice
 
-	unmarshal(&out1)
-	unmarshal(&out2)
+	// a constraint that is neither is an error, or the
+	// patterns would be lost.
+	if err := unmarshal(&out2); err != nil {
+		if err := unmarshal(&out1); err != nil {
+			return err
+		}
+	}
 
 	c.Exclude = out1.Exclude
 	c.Include = append(
-- 
2.43.0

