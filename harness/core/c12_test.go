package core

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"pgregory.net/rapid"
)

func formatOpt() model.Opt {
	o := decOpt()
	o.MinDec, o.MaxDec = 0, 2
	o.MinUtil, o.MaxUtil = 0, 2
	o.MaxChance = 5
	o.MaxStates = 200
	o.Weird, o.Deco, o.OddColors = true, true, true
	return o
}

func formatNet(t *rapid.T) *model.Net {
	n := model.GenNet(t, formatOpt())
	model.ExtremeFloats(t, n)
	return n
}

func TestC12(t *testing.T) {
	dir := t.TempDir()
	hx.Run(t, "yaml", 700, func(t *rapid.T, c *hx.C) {
		n := formatNet(t)
		doc := model.GenYAML(t, n)
		c.Case(string(doc), edges(n) > 0)
		net, err := bbn.FromYAML(append([]byte{}, doc...))
		if err != nil {
			t.Fatalf("loading fails: %v\n%s", err, doc)
		}
		unchanged(t, n, net, "loading\n"+string(doc))
		if net.TotalUtilityIndex() != n.Total {
			t.Fatalf("total utility index %d, want %d\n%s", net.TotalUtilityIndex(), n.Total, doc)
		}
	})
	hx.Run(t, "xml", 700, func(t *rapid.T, c *hx.C) {
		n := formatNet(t)
		doc := model.GenXML(t, n)
		c.Case(string(doc.Text), edges(n) > 0)
		net, err := bbn.FromBIFXML(append([]byte{}, doc.Text...))
		if err != nil {
			t.Fatalf("loading fails: %v\n%s", err, doc.Text)
		}
		unchanged(t, doc.Net, net, "loading\n"+string(doc.Text))
		if net.TotalUtilityIndex() != n.Total {
			t.Fatalf("total utility index %d, want %d\n%s", net.TotalUtilityIndex(), n.Total, doc.Text)
		}
	})
	hx.Run(t, "large tables", 10, func(t *rapid.T, c *hx.C) {
		n := model.LargeTable(t, model.Intn(t, "cells", 1000, 6000))
		y, x := model.GenYAML(t, n), model.GenXML(t, n)
		c.Case(string(y), true)
		a, err := bbn.FromYAML(y)
		if err != nil {
			t.Fatalf("loading YAML fails: %v", err)
		}
		unchanged(t, n, a, "loading YAML")
		b, err := bbn.FromBIFXML(x.Text)
		if err != nil {
			t.Fatalf("loading XML fails: %v", err)
		}
		unchanged(t, x.Net, b, "loading XML")
		// files, with a comment in front that may be long
		pad := []int{0, 5000, 70000, 1100000, 2200000}[model.Intn(t, "pad", 0, 4)]
		y = append([]byte(strings.Repeat("# comment\n", pad/10)), y...)
		if !bytes.HasPrefix(x.Text, []byte("<?xml")) {
			x.Text = append([]byte("<!--"+strings.Repeat(" comment\n", pad/9)+"-->"), x.Text...)
		}
		for name, text := range map[string][]byte{"large.yml": y, "large.xml": x.Text} {
			path, want := filepath.Join(dir, name), n
			if name == "large.xml" {
				want = x.Net
			}
			if err := os.WriteFile(path, text, 0o644); err != nil {
				t.Fatalf("INFRA: %v", err)
			}
			net, err := bbn.FromFile(path)
			os.Remove(path)
			if err != nil {
				t.Fatalf("loading %s of %d bytes fails: %v", name, len(text), err)
			}
			unchanged(t, want, net, "loading a large file")
		}
	})
	hx.Run(t, "both", 500, func(t *rapid.T, c *hx.C) {
		n := model.GenNet(t, formatOpt())
		y, x := model.GenYAML(t, n), model.GenXML(t, n)
		c.Case(string(y)+"\n"+string(x.Text), edges(n) > 0)
		a, err1 := bbn.FromYAML(y)
		b, err2 := bbn.FromBIFXML(x.Text)
		if err1 != nil || err2 != nil {
			t.Fatalf("loading fails: %v, %v\n%s\n%s", err1, err2, y, x.Text)
		}
		non := n.NonUtility()
		ev := model.GenEvidence(t, n, non, 2)
		q := model.Subset(t, "q", model.Without(non, ev), 0, 3)
		for _, net := range []*bbn.Network{a, b} {
			eff := policies(t, n, solve(t, n, net))
			res, f, err := net.SolveQuery(n.Evidence(ev), n.Names(q), false)
			if err != nil {
				t.Fatalf("query fails: %v\n%s", err, n)
			}
			j := model.NewSem(n, eff).Joint(ev, q)
			checkMarginals(t, n, j, res, "loaded")
			checkFactor(t, n, net, f, j, "loaded")
		}
	})
	hx.Run(t, "files", 300, func(t *rapid.T, c *hx.C) {
		n := formatNet(t)
		x := model.GenXML(t, n)
		y := model.GenYAML(t, n)
		ext := rapid.SampledFrom([]string{".yml", ".xml", ".bifxml"}).Draw(t, "ext")
		spelled := []byte(ext)
		for i := range spelled {
			if spelled[i] != '.' && model.Pct(t, "upper", 40) {
				spelled[i] -= 'a' - 'A'
			}
		}
		base := rapid.SampledFrom([]string{"net", "a b", "x.xml", "y.yml", "é", "n.tar.gz", ".hidden"}).Draw(t, "base")
		path := filepath.Join(dir, base+string(spelled))
		text, want := y, n
		if ext != ".yml" {
			text, want = x.Text, x.Net
		}
		c.Case(path[len(dir):]+"\n"+string(text), edges(n) > 0)
		c.Label("%s", ext)
		if err := os.WriteFile(path, text, 0o644); err != nil {
			t.Fatalf("INFRA: %v", err)
		}
		defer os.Remove(path)
		net, err := bbn.FromFile(path)
		if err != nil {
			t.Fatalf("loading %q fails: %v\n%s", path, err, text)
		}
		unchanged(t, want, net, "loading "+path)
		after, err := os.ReadFile(path)
		if err != nil || string(after) != string(text) {
			t.Fatalf("loading changes the file %q: %v", path, err)
		}
		// a document of the other format, no or another extension
		other := filepath.Join(dir, base+rapid.SampledFrom([]string{"", ".txt", ".json", ".ym", ".xm", "yml", ".yml.bak", ".xml~"}).Draw(t, "other"))
		if other != path && filepath.Ext(other) != ".xml" && filepath.Ext(other) != ".yml" {
			if err := os.WriteFile(other, text, 0o644); err != nil {
				t.Fatalf("INFRA: %v", err)
			}
			defer os.Remove(other)
			if net, err := bbn.FromFile(other); err == nil || net != nil {
				t.Fatalf("unknown file type %q is loaded", other)
			}
		}
		if net, err := bbn.FromFile(filepath.Join(dir, "missing", base+string(spelled))); err == nil || net != nil {
			t.Fatalf("a missing file is loaded")
		}
	})
	hx.Run(t, "wrong-format", 100, func(t *rapid.T, c *hx.C) {
		n := formatNet(t)
		x, y := model.GenXML(t, n), model.GenYAML(t, n)
		c.Case(string(x.Text)+string(y), edges(n) > 0)
		if net, err := bbn.FromBIFXML(y); err == nil || net != nil {
			t.Fatalf("a YAML document is loaded as XML\n%s", y)
		}
		if net, err := bbn.FromYAML(x.Text); err == nil || net != nil {
			t.Fatalf("an XML document is loaded as YAML\n%s", x.Text)
		}
	})
}
