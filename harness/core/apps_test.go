package core

import (
	"bytes"
	"context"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
	"time"

	"verif/model"

	"pgregory.net/rapid"
)

// runTool runs a program in a directory of its own. A crash or a run-away process is a violation.
func runTool(t *rapid.T, dir, env string, args ...string) (stdout, stderr string, code int) {
	bin := os.Getenv(env)
	if bin == "" {
		t.Fatalf("INFRA: %s is not set", env)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		t.Fatalf("%q does not end", args)
	case errors.As(err, &ee):
		code = ee.ExitCode()
	case err != nil:
		t.Fatalf("INFRA: %v", err)
	}
	if code != 0 && code != 1 {
		t.Fatalf("%q crashes with exit code %d:\n%s\n%s", args, code, clip(so.String()), clip(se.String()))
	}
	return so.String(), se.String(), code
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

// scratch gives an empty directory and a function that removes it.
func scratch(t *rapid.T) (string, func()) {
	dir, err := os.MkdirTemp("", "case")
	if err != nil {
		t.Fatalf("INFRA: %v", err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func write(t *rapid.T, dir, name string, data []byte) string {
	p := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		t.Fatalf("INFRA: %v", err)
	}
	if err := os.WriteFile(p, data, 0o644); err != nil {
		t.Fatalf("INFRA: %v", err)
	}
	return p
}

// netFile writes the network in a random format; it returns the network as the file states it.
func netFile(t *rapid.T, dir string, n *model.Net) (string, []byte, *model.Net) {
	base := rapid.SampledFrom([]string{"net", "a b", "net-save", "x.y", "é", "sub.d/net", "net.yml", "x.xml.d/net.xml", "../" + filepath.Base(dir) + "/net"}).Draw(t, "file")
	if model.Pct(t, "xml", 30) {
		d := model.GenXML(t, n)
		name := base + rapid.SampledFrom([]string{".xml", ".bifxml", ".XML"}).Draw(t, "ext")
		write(t, dir, name, d.Text)
		return name, d.Text, d.Net
	}
	y := model.GenYAML(t, n)
	name := base + rapid.SampledFrom([]string{".yml", ".YML"}).Draw(t, "ext")
	write(t, dir, name, y)
	return name, y, n
}

func sameFile(t *rapid.T, dir, name string, want []byte) {
	b, err := os.ReadFile(filepath.Join(dir, name))
	if err != nil || !bytes.Equal(b, want) {
		t.Fatalf("the input file %q was changed (%v)", name, err)
	}
}

func needTool(t *testing.T, env string) {
	if os.Getenv(env) == "" {
		t.Skip(env + " is not set")
	}
}

// evidencePool lists the variables that can be given as evidence on the command line.
func evidencePool(n *model.Net) []int {
	var pool []int
	for _, i := range n.NonUtility() {
		if usableInEvidence(&n.Vars[i]) {
			pool = append(pool, i)
		}
	}
	return pool
}
