package core

import (
	"os"
	"path/filepath"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"pgregory.net/rapid"
)

func addSeeds(f *testing.F, xml bool) {
	root := os.Getenv("VX_REPO")
	fs, _ := filepath.Glob(filepath.Join(root, "_examples", "*", "*"))
	for _, p := range fs {
		if b, err := os.ReadFile(p); err == nil && len(b) < 5000 {
			f.Add(b)
		}
	}
	g := rapid.Custom(func(t *rapid.T) []byte {
		n := model.GenNet(t, formatOpt())
		if xml {
			return model.GenXML(t, n).Text
		}
		return model.GenYAMLWith(t, n, junkLogic(t, n))
	})
	for k := 0; k < 40; k++ {
		if b := g.Example(k); len(b) < 3000 {
			f.Add(b)
		}
	}
}

// fuzzLoad loads arbitrary bytes and uses what is accepted. For coverage-guided fuzzing (thorough tier).
func fuzzLoad(f *testing.F, load func([]byte) (*bbn.Network, error)) {
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) > 6000 {
			return
		}
		net, err := load(b)
		if (net == nil) == (err == nil) {
			t.Fatalf("network and error, or neither")
		}
		if err == nil {
			usableUpTo(t, &hx.C{}, net, string(b), 2000)
		}
	})
}

func FuzzYAML(f *testing.F) {
	addSeeds(f, false)
	fuzzLoad(f, bbn.FromYAML)
}

func FuzzXML(f *testing.F) {
	addSeeds(f, true)
	fuzzLoad(f, bbn.FromBIFXML)
}
