package model

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Doc is a generated document and what it states.
type Doc struct {
	Text []byte
	Net  *Net // with positions, colours and info as the document states them
}

// ---------------------------------------------------------------- spelling

// Number spells a number in one of many ways that denote the same value.
func Number(t *rapid.T, v float64) string {
	if v == 0 {
		return rapid.SampledFrom([]string{"0", "0.0", "0.000", "0e0", "0E+5", ".0"}).Draw(t, "zero")
	}
	s := ""
	switch Intn(t, "spell", 0, 6) {
	case 0, 1:
		s = strconv.FormatFloat(v, 'g', -1, 64)
	case 2:
		s = strconv.FormatFloat(v, 'e', -1, 64)
	case 3:
		s = strconv.FormatFloat(v, 'E', -1, 64)
	case 4:
		s = strconv.FormatFloat(v, 'f', -1, 64)
		if strings.Contains(s, ".") {
			s += "00"
		} else {
			s += ".0"
		}
	case 5:
		s = strconv.FormatFloat(v, 'f', -1, 64)
		if strings.HasPrefix(s, "0.") {
			s = s[1:]
		}
	default:
		s = strconv.FormatFloat(v, 'f', -1, 64)
		if v > 0 {
			s = "+" + s
		}
	}
	return s
}

// plainYAML tells whether a string may be written without quotes (a conservative rule).
func plainYAML(s string) bool {
	if s == "" {
		return false
	}
	for i, r := range s {
		ok := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && (r >= '0' && r <= '9' || r == '_')
		if !ok {
			return false
		}
	}
	switch strings.ToLower(s) {
	case "true", "false", "yes", "no", "on", "off", "y", "n", "null", "nan", "inf", "t", "f":
		return false
	}
	return true
}

func yamlString(t *rapid.T, s string) string {
	k := Intn(t, "quote", 0, 2)
	if k == 0 && plainYAML(s) {
		return s
	}
	if k == 1 && !strings.ContainsAny(s, "\n\t\r") {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	b := strings.Builder{}
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString("\\n")
		case r == '\t':
			b.WriteString("\\t")
		case r < 32:
			fmt.Fprintf(&b, "\\x%02x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// GenYAML writes the network as a YAML document with varying formatting.
func GenYAML(t *rapid.T, n *Net) []byte {
	return GenYAMLWith(t, n, nil)
}

// GenYAMLWith is GenYAML with a logic expression instead of the table for some variables.
func GenYAMLWith(t *rapid.T, n *Net, logic map[int]string) []byte {
	st := func(s string) string { return yamlString(t, s) }
	comment := func() string {
		if Pct(t, "comment", 12) {
			return " # comment: [x, {"
		}
		return ""
	}
	list := func(indent string, xs []string) string {
		if len(xs) > 0 && Pct(t, "block", 35) {
			return "\n" + indent + "- " + strings.Join(xs, "\n"+indent+"- ")
		}
		sep := rapid.SampledFrom([]string{", ", ",", " , ", ",\n" + indent + "  "}).Draw(t, "sep")
		return " [" + strings.Join(xs, sep) + "]"
	}
	strs := func(xs []string) []string {
		r := make([]string, len(xs))
		for i, x := range xs {
			r[i] = st(x)
		}
		return r
	}
	ind := strings.Repeat(" ", Intn(t, "indent", 0, 4))

	vars := "variables:"
	if len(n.Vars) == 0 {
		vars += " []"
	}
	for i := range n.Vars {
		v := &n.Vars[i]
		in := ind + "  "
		fields := []string{
			"variable: " + st(v.Name) + comment(),
			"outcomes:" + list(in+"  ", strs(v.Outcomes)) + comment(),
		}
		if len(v.Parents) > 0 || Pct(t, "emptygiven", 15) {
			fields = append(fields, "given:"+list(in+"  ", strs(n.Names(v.Parents))))
		}
		if v.Kind != Chance || Pct(t, "type", 40) {
			fields = append(fields, "type: "+st(v.Kind.String()))
		}
		if v.Pos != [2]int{} || Pct(t, "pos", 40) {
			fields = append(fields, "position:"+list(in+"  ", []string{strconv.Itoa(v.Pos[0]), strconv.Itoa(v.Pos[1])}))
		}
		if v.Color != "" || Pct(t, "col", 10) {
			fields = append(fields, "color: "+st(v.Color))
		}
		if l, ok := logic[i]; ok {
			fields = append(fields, "logic: "+st(l))
		} else if len(v.Table) > 0 {
			rows := []string{}
			c := len(v.Outcomes)
			for k := 0; k < len(v.Table); k += c {
				cells := make([]string, c)
				for j := range cells {
					if len(v.Table) > 1000 {
						cells[j] = strconv.FormatFloat(v.Table[k+j], 'g', -1, 64)
					} else {
						cells[j] = Number(t, v.Table[k+j])
					}
				}
				rows = append(rows, "["+strings.Join(cells, ", ")+"]")
			}
			fields = append(fields, "table:"+list(in+"  ", rows))
		} else if Pct(t, "emptytable", 10) {
			fields = append(fields, "table: []")
		}
		for k, j := range Perm(t, "fields", len(fields)) {
			pre := in
			if k == 0 {
				pre = ind + "- "
			}
			vars += "\n" + pre + fields[j]
		}
		if Pct(t, "blank", 20) {
			vars += "\n"
		}
	}
	top := []string{"name: " + st(n.Name), vars}
	if n.Info != "" || Pct(t, "info", 10) {
		top = append(top, "info: "+yamlString(t, n.Info))
	}
	b := ""
	if Pct(t, "head", 20) {
		b += "# a comment\n---\n"
	}
	for _, j := range Perm(t, "top", len(top)) {
		b += top[j] + "\n"
	}
	if Pct(t, "end", 10) {
		b += "...\n"
	}
	if Pct(t, "crlf", 10) {
		b = strings.ReplaceAll(b, "\n", "\r\n")
	}
	return []byte(b)
}

func xmlText(t *rapid.T, s string) string {
	if Pct(t, "cdata", 10) && !strings.Contains(s, "]]>") {
		return "<![CDATA[" + s + "]]>"
	}
	b := bytes.Buffer{}
	if err := xml.EscapeText(&b, []byte(s)); err != nil {
		panic(err)
	}
	return b.String()
}

// GenXML writes the network as a BIF-XML document. Info and colours have no place there, and positions are
// given in pixels. It returns what the document states.
func GenXML(t *rapid.T, n *Net) Doc {
	m := n.Clone()
	m.Info = ""
	nl := rapid.SampledFrom([]string{"\n", "", "\n\t", "\r\n  "}).Draw(t, "nl")
	com := func() string {
		if Pct(t, "comment", 10) {
			return "<!-- a <b> c -->"
		}
		return nl
	}
	vars, defs := []string{}, []string{}
	for i := range m.Vars {
		v := &m.Vars[i]
		v.Color = ""
		b := ""
		b += "<VARIABLE"
		switch {
		case v.Kind != Chance:
			b += fmt.Sprintf(" TYPE=%q", v.Kind.String())
		case Pct(t, "type", 60):
			b += " TYPE='nature'"
		}
		b += ">" + com()
		parts := []string{"<NAME>" + xmlText(t, v.Name) + "</NAME>"}
		outs := ""
		for _, o := range v.Outcomes {
			outs += "<OUTCOME>" + xmlText(t, o) + "</OUTCOME>" + com()
		}
		parts = append(parts, outs)
		if v.Pos != [2]int{} || Pct(t, "pos", 30) {
			x, y := v.Pos[0]*2, v.Pos[1]*12
			if x >= 0 {
				x += Intn(t, "px", 0, 1)
			}
			if y >= 0 {
				y += Intn(t, "py", 0, 11)
			}
			f := rapid.SampledFrom([]string{"position = (%d, %d)", "position=(%d,%d)", " position =  ( %d , %d ) ", "position = (%d,%d)"}).Draw(t, "posf")
			parts = append(parts, "<PROPERTY>"+fmt.Sprintf(f, x, y)+"</PROPERTY>")
		}
		for k := 0; k < 4 && Pct(t, "prop", 20+20*k); k++ {
			parts = append(parts, "<PROPERTY>"+rapid.SampledFrom([]string{"color = red", "note", "a = b = c", "", "positions = (4, 48)", "(4, 48)", "=", "my position = (2, 24)"}).Draw(t, "prop")+"</PROPERTY>")
		}
		for _, j := range Perm(t, "parts", len(parts)) {
			b += parts[j] + com()
		}
		vars = append(vars, b+"</VARIABLE>"+com())

		if v.Kind == Decision && len(v.Parents) == 0 && Pct(t, "nodef", 50) {
			continue
		}
		d := "<DEFINITION>" + com()
		parts = []string{"<FOR>" + xmlText(t, v.Name) + "</FOR>"}
		giv := ""
		for _, p := range m.Names(v.Parents) {
			giv += "<GIVEN>" + xmlText(t, p) + "</GIVEN>" + com()
		}
		parts = append(parts, giv)
		if len(v.Table) > 0 {
			sep := rapid.SampledFrom([]string{" ", "\n", "\t", "  ", " <!-- c --> "})
			one := sep
			if len(v.Table) > 1000 {
				one = rapid.Just(sep.Draw(t, "ws"))
			}
			var all strings.Builder
			for k, x := range v.Table {
				if k > 0 {
					all.WriteString(one.Draw(t, "ws"))
				}
				if len(v.Table) > 1000 {
					all.WriteString(strconv.FormatFloat(x, 'g', -1, 64))
				} else {
					all.WriteString(Number(t, x))
				}
			}
			tab := all.String()
			if Pct(t, "pad", 30) {
				tab = "\n\t" + tab + "\n"
			}
			parts = append(parts, "<TABLE>"+tab+"</TABLE>")
		} else if Pct(t, "emptytable", 20) {
			parts = append(parts, "<TABLE></TABLE>")
		}
		for _, j := range Perm(t, "dparts", len(parts)) {
			d += parts[j] + com()
		}
		defs = append(defs, d+"</DEFINITION>"+com())
	}
	b := ""
	if Pct(t, "decl", 70) {
		b += `<?xml version="1.0" encoding="UTF-8"?>` + "\n"
	}
	if Pct(t, "doctype", 40) {
		b += "<!DOCTYPE BIF [\n<!ELEMENT BIF ( NETWORK )*>\n<!ATTLIST BIF VERSION CDATA #REQUIRED>\n]>\n"
	}
	b += rapid.SampledFrom([]string{"<BIF VERSION=\"0.3\">", "<BIF>"}).Draw(t, "bif") + nl + "<NETWORK>" + nl
	body := []string{"<NAME>" + xmlText(t, m.Name) + "</NAME>" + nl}
	// the order of variables counts, the place of definitions does not
	pd := Perm(t, "defs", len(defs))
	switch Intn(t, "arrange", 0, 2) {
	case 0:
		body = append(body, vars...)
		for _, j := range pd {
			body = append(body, defs[j])
		}
	case 1:
		for _, j := range pd {
			body = append(body, defs[j])
		}
		body = append(body, vars...)
	default:
		k := 0
		for _, v := range vars {
			body = append(body, v)
			if k < len(pd) && Pct(t, "mix", 70) {
				body = append(body, defs[pd[k]])
				k++
			}
		}
		for ; k < len(pd); k++ {
			body = append(body, defs[pd[k]])
		}
	}
	b += strings.Join(body, "") + "</NETWORK>" + nl + "</BIF>\n"
	return Doc{Text: []byte(b), Net: m}
}

// ExtremeFloats changes some table values to ones that are hard to write down.
func ExtremeFloats(t *rapid.T, n *Net) {
	for i := range n.Vars {
		v := &n.Vars[i]
		if i == n.Total {
			continue
		}
		for k := range v.Table {
			if !Pct(t, "extreme", 15) {
				continue
			}
			x := 0.0
			switch Intn(t, "xkind", 0, 5) {
			case 0:
				x = rapid.SampledFrom([]float64{0.1, 1.0 / 3, 2.0 / 3, 0.1 + 0.2, 1e-7, 1e21, 1e20, 123456789, 1e6, 100000000000000000000, 0.30000000000000004}).Draw(t, "x")
			case 1:
				x = rapid.SampledFrom([]float64{math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1e-300, 4.9406564584124654e-320}).Draw(t, "x")
			default:
				x = rapid.Float64Range(0, 1).Draw(t, "x")
			}
			if v.Kind == Utility && Pct(t, "neg", 40) {
				x = -x
			}
			if x == 0 {
				x = 0 // no negative zero
			}
			v.Table[k] = x
		}
	}
}
