package main

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/drone/drone-yaml/yaml"
)

// canonOpt selects what counts as the same value.
type canonOpt struct {
	looseNum bool // 1 and 1.0 are the same (JSON)
}

// canon writes a value in a canonical form: absent, empty and nil lists and
// maps are the same, map order does not matter, scalars carry their type.
func canon(v interface{}, o canonOpt) string {
	var b strings.Builder
	canonTo(&b, reflect.ValueOf(v), o, "")
	return b.String()
}

func same(a, b interface{}) bool {
	return canon(a, canonOpt{}) == canon(b, canonOpt{})
}

func canonTo(b *strings.Builder, v reflect.Value, o canonOpt, ind string) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		canonTo(b, v.Elem(), o, ind)
	case reflect.Ptr:
		if v.IsNil() {
			// an absent value and an absent setting are the same
			switch v.Type() {
			case reflect.TypeOf((*yaml.Parameter)(nil)):
				canonTo(b, reflect.ValueOf(yaml.Parameter{}), o, ind)
				return
			}
			b.WriteString("nil")
			return
		}
		canonTo(b, v.Elem(), o, ind)
	case reflect.Struct:
		fmt.Fprintf(b, "%s{", v.Type().Name())
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			var s strings.Builder
			canonTo(&s, f, o, ind+"  ")
			txt := s.String()
			if txt == "nil" {
				continue
			}
			switch f.Kind() {
			case reflect.Interface:
			case reflect.Ptr:
				// asking for no resources and not asking are the same
				switch f.Type().Elem().Name() {
				case "Resources", "ResourceObject", "Push":
					if isZeroText(txt) {
						continue
					}
				}
				txt = "&" + txt
			default:
				if isZeroText(txt) {
					continue
				}
			}
			fmt.Fprintf(b, "\n%s  %s: %s", ind, v.Type().Field(i).Name, txt)
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "bytes(%q)", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			fmt.Fprintf(b, "\n%s  - ", ind)
			canonTo(b, v.Index(i), o, ind+"    ")
		}
		b.WriteString("]")
	case reflect.Map:
		type kv struct{ k, v string }
		var kvs []kv
		for _, k := range v.MapKeys() {
			var ks, vs strings.Builder
			canonTo(&ks, k, o, "")
			canonTo(&vs, v.MapIndex(k), o, ind+"  ")
			kvs = append(kvs, kv{ks.String(), vs.String()})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		b.WriteString("map[")
		for _, e := range kvs {
			fmt.Fprintf(b, "\n%s  %s: %s", ind, e.k, e.v)
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "bool(%v)", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if o.looseNum {
			canonTo(b, reflect.ValueOf(float64(v.Int())), canonOpt{}, ind)
			if i := v.Int(); i <= -1<<53 || i >= 1<<53 {
				fmt.Fprintf(b, "\x00%d\x00", i)
			}
			return
		}
		b.WriteString("num(" + strconv.FormatInt(v.Int(), 10) + ")")
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if o.looseNum {
			canonTo(b, reflect.ValueOf(float64(v.Uint())), canonOpt{}, ind)
			if i := v.Uint(); i >= 1<<53 {
				fmt.Fprintf(b, "\x00%d\x00", i)
			}
			return
		}
		b.WriteString("num(" + strconv.FormatUint(v.Uint(), 10) + ")")
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f == 0 || math.IsNaN(f) {
			b.WriteString("float(" + strconv.FormatFloat(math.Abs(f), 'g', -1, 64) + ")")
			return
		}
		b.WriteString("float(" + strconv.FormatFloat(f, 'g', -1, 64) + ")")
		if o.looseNum && math.Abs(f) >= 1<<53 && !math.IsInf(f, 0) { // the integer it would be written as
			b.WriteString("\x00" + strconv.FormatFloat(f, 'f', -1, 64) + "\x00")
		}
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}

// isZeroText recognises the canonical text of a zero field, which is the
// same as an absent one.
func isZeroText(s string) bool {
	switch s {
	case `""`, "bool(false)", "num(0)", "float(0)", "[]", "map[]", "nil":
		return true
	}
	return strings.HasSuffix(s, "{}") && !strings.Contains(s, "\n")
}

// digitsOf are the digits canon adds to large integers.
var digitsOf = regexp.MustCompile("\x00[^\x00]*\x00")

// canonDiff returns the first differing lines of two canonical forms.
func canonDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			ctx := ""
			for j := i - 3; j < i; j++ {
				if j >= 0 && j < len(la) {
					ctx += "   " + la[j] + "\n"
				}
			}
			return fmt.Sprintf("%s want: %s\n  got: %s", ctx, x, y)
		}
	}
	return ""
}

func resCanon(m *yaml.Manifest, o canonOpt) string {
	var b strings.Builder
	for _, r := range m.Resources {
		fmt.Fprintf(&b, "%T %s\n", r, canon(r, o))
	}
	return b.String()
}

var numberText = regexp.MustCompile(`[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?`)

// sameText compares texts in which a floating point number may be written
// in another notation.
func sameText(a, b string) bool {
	if a == b {
		return true
	}
	la, lb := numberText.FindAllStringIndex(a, -1), numberText.FindAllStringIndex(b, -1)
	if len(la) != len(lb) {
		return false
	}
	i, j := 0, 0
	for k := range la {
		if a[i:la[k][0]] != b[j:lb[k][0]] {
			return false
		}
		i, j = la[k][1], lb[k][1]
		x, y := a[la[k][0]:i], b[lb[k][0]:j]
		if x == y {
			continue
		}
		if !strings.ContainsAny(x+y, ".eE") {
			return false // two integers
		}
		f, err := strconv.ParseFloat(x, 64)
		g, err2 := strconv.ParseFloat(y, 64)
		if err != nil || err2 != nil || f != g {
			return false
		}
	}
	return a[i:] == b[j:]
}
