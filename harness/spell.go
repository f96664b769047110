package main

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strings"
)

var plainWord = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_ .;-]*[A-Za-z0-9_]$`)
var yamlDate = regexp.MustCompile(`^\d{4}-\d\d-\d\d$`)
var notPlain = map[string]bool{"true": true, "false": true, "null": true, "yes": true, "no": true, "on": true, "off": true, "y": true, "n": true}

// spell writes a value as flow YAML in one of the spellings that mean the same.
func spell(r *Rand, v any) string {
	switch x := v.(type) {
	case nil:
		return r.Pick("null", "~", "Null", "NULL")
	case bool:
		if x {
			return r.Pick("true", "True", "TRUE")
		}
		return r.Pick("false", "False", "FALSE")
	case string:
		if plainWord.MatchString(x) && !notPlain[strings.ToLower(x)] && r.P(60) {
			return x
		}
		if yamlDate.MatchString(x) && r.P(60) {
			return x
		}
		if !strings.ContainsAny(x, "\n\r") && printable(x) && r.P(50) {
			return "'" + strings.ReplaceAll(x, "'", "''") + "'"
		}
		return yq(x)
	case float64:
		if x != math.Trunc(x) || math.Abs(x) > 1e15 {
			return spellFloat(r, x)
		}
		n := int64(x)
		if x == 0 && math.Signbit(x) {
			return jsonText(v)
		}
		return spellInt(r, n)
	case int:
		return spellInt(r, int64(x))
	case int64:
		return spellInt(r, x)
	case map[string]any:
		var ps []string
		ks := sortedNames(x)
		for _, i := range r.Perm(len(ks)) {
			k := ks[i]
			q := yq(k)
			if plainWord.MatchString(k) && r.P(60) {
				q = k
			}
			ps = append(ps, q+": "+spell(r, x[k]))
		}
		return "{" + strings.Join(ps, ", ") + r.Pick("", "", " ") + "}"
	case []any:
		var ps []string
		for _, y := range x {
			ps = append(ps, spell(r, y))
		}
		return "[" + strings.Join(ps, r.Pick(", ", " , ", ",  ")) + "]"
	}
	return jsonText(v)
}

func printable(s string) bool {
	for _, c := range s {
		if c < 0x20 || c == 0x7f || c >= 0x80 && c < 0xa0 || c == 0xfeff || c == 0x2028 || c == 0x2029 || c == 0xfffd {
			return false
		}
	}
	return true
}

func spellInt(r *Rand, n int64) string {
	if n >= 0 {
		switch r.N(5) {
		case 0:
			return fmt.Sprintf("0x%X", n)
		case 1:
			return fmt.Sprintf("0o%o", n)
		case 2:
			return fmt.Sprintf("+%d", n)
		case 3:
			return fmt.Sprintf("0b%b", n)
		}
	}
	return fmt.Sprint(n)
}

func spellFloat(r *Rand, x float64) string {
	b, _ := json.Marshal(x)
	s := string(b)
	switch r.N(3) {
	case 0:
		return fmt.Sprintf("%.17e", x)
	case 1:
		if !strings.ContainsAny(s, "eE") && strings.Contains(s, ".") {
			return s + "00"
		}
	}
	return s
}

// blockScalar tells how a string can be written as a literal block.
func blockScalar(s string) string {
	if s == "" || s[0] == '{' || s[0] == ' ' || s[0] == '\n' || !printable(strings.ReplaceAll(s, "\n", "")) {
		return ""
	}
	t := strings.TrimSuffix(s, "\n")
	for _, l := range strings.Split(t, "\n") {
		if l == "" || strings.TrimSpace(l) == "" {
			return ""
		}
	}
	if t != s {
		return "|"
	}
	return "|-"
}

// valForm picks a form (see emitVal) for the value; key tells that the value is a map's member named value.
func valForm(r *Rand, v any) (form int, raw string) {
	forms := []int{0, 4, 5, 5, 6, 6, 6}
	switch x := v.(type) {
	case map[string]any:
		forms = append(forms, 1, 1, 2)
		if len(x) > 0 {
			forms = append(forms, 7, 7, 11)
		}
	case []any:
		forms = append(forms, 1, 1)
		if len(x) > 0 {
			forms = append(forms, 7, 7, 11)
		}
	case string:
		if blockScalar(x) != "" {
			forms = append(forms, 8, 8)
		}
		if !strings.HasPrefix(x, "{") {
			forms = append(forms, 9)
		}
	}
	form = forms[r.N(len(forms))]
	switch form {
	case 5:
		if r.P(50) {
			raw = spell(r, v)
		}
	case 6:
		raw = spell(r, v)
	case 7, 11:
		raw = strings.Repeat("x", r.N(4))
	case 8:
		raw = blockScalar(v.(string))
	}
	return
}

// respell rewrites how examples, defaults and annotation values are written.
func respell(r *Rand, x *Ex, deflt bool) {
	if m, ok := x.V.(map[string]any); ok && !deflt {
		if _, wrapped := m["value"]; wrapped {
			x.Form = 3
		}
	}
	if x.Form == 3 {
		x.Inner, x.Raw = valForm(r, x.V)
		return
	}
	x.Form, x.Raw = valForm(r, x.V)
}

// addBreak returns the value with a line break at the end of one of its strings.
func addBreak(r *Rand, v any) any {
	switch x := v.(type) {
	case string:
		return x + "\n"
	case map[string]any:
		y := map[string]any{}
		for n, e := range x {
			y[n] = e
		}
		if ns := sortedNames(x); len(ns) > 0 {
			n := ns[r.N(len(ns))]
			y[n] = addBreak(r, x[n])
		}
		return y
	case []any:
		y := append([]any{}, x...)
		if len(y) > 0 {
			i := r.N(len(y))
			y[i] = addBreak(r, y[i])
		}
		return y
	}
	return v
}
