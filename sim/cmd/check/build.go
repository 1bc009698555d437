package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// builder makes the worker programs from the code under test.
type builder struct {
	sim   string // the simulator's module
	repo  string // the code under test
	dir   string // scratch
	ready bool
	bins  map[string]string
}

func (b *builder) run(name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = b.sim
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	var e bytes.Buffer
	c.Stdout, c.Stderr = &e, &e
	if err := c.Run(); err != nil {
		return fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, e.String())
	}
	return nil
}

func (b *builder) prepare() error {
	if b.ready {
		return nil
	}
	mod, err := os.ReadFile(filepath.Join(b.sim, "go.mod"))
	if err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(b.sim, "go.sum"))
	if err != nil {
		return err
	}
	m := strings.Replace(string(mod), "=> /repo", "=> "+b.repo, 1)
	if err := os.WriteFile(filepath.Join(b.dir, "go.mod"), []byte(m), 0o644); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(b.dir, "go.sum"), sum, 0o644); err != nil {
		return err
	}
	instr := filepath.Join(b.dir, "instr")
	if err := b.run("go", "build", "-modfile", filepath.Join(b.dir, "go.mod"), "-o", instr, "./cmd/instr"); err != nil {
		return err
	}
	ov := filepath.Join(b.dir, "ov")
	if err := os.MkdirAll(ov, 0o755); err != nil {
		return err
	}
	if err := b.run(instr, "-repo", b.repo, "-out", ov); err != nil {
		return err
	}
	b.bins = map[string]string{}
	b.ready = true
	return nil
}

func (b *builder) dict() string { return filepath.Join(b.dir, "ov", "dict.json") }

// bin builds a variant: normal, race or os.
func (b *builder) bin(variant string) (string, error) {
	if err := b.prepare(); err != nil {
		return "", err
	}
	if p := b.bins[variant]; p != "" {
		return p, nil
	}
	p := filepath.Join(b.dir, "sim-"+variant)
	args := []string{"build", "-modfile", filepath.Join(b.dir, "go.mod"), "-o", p}
	ov := filepath.Join(b.dir, "ov", "overlay.json")
	switch variant {
	case "race":
		args = append(args, "-race")
	case "os":
		ov = filepath.Join(b.dir, "ov", "overlay_os.json")
		args = append(args, "-tags", "oshook")
	}
	err := b.run("go", append(args, "-overlay", ov, "./cmd/sim")...)
	if err != nil && variant == "os" {
		// without the program's main package, which may not be importable
		ov = filepath.Join(b.dir, "ov", "overlay_os_nomain.json")
		err = b.run("go", append(args, "-overlay", ov, "./cmd/sim")...)
	}
	if err != nil {
		return "", err
	}
	b.bins[variant] = p
	return p, nil
}
