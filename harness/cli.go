package main

// Runs of the fizzbee binary built from /repo's current tree, in a scratch directory that is removed afterwards.

import (
	"context"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	ast "fizz/proto"

	"google.golang.org/protobuf/encoding/protojson"
)

type CLI struct {
	Dir, Out string // scratch directory, standard output and error
	Code     int
}

func (r *CLI) close() { os.RemoveAll(r.Dir) }

// outFile: the content of a file of the output directory ("" if there is none)
func (r *CLI) outFile(name string) string {
	b, _ := os.ReadFile(filepath.Join(r.Dir, "o", name))
	return string(b)
}

// runCLI writes the files (specifications as *ast.File, others as text) to a scratch directory and runs the binary on
// spec.json there, with the output in o/ unless args say otherwise.
func runCLI(c *Case, files map[string]any, args ...string) *CLI {
	dir, err := os.MkdirTemp("", "verif-cli")
	if err != nil {
		panic(err)
	}
	for n, f := range files {
		var b []byte
		switch x := f.(type) {
		case *ast.File:
			if b, err = (protojson.MarshalOptions{}).Marshal(x); err != nil {
				panic(err)
			}
		case string:
			b = []byte(x)
		}
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
			panic(err)
		}
	}
	exe, _ := os.Executable()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	a := append([]string{"--output-dir", "o"}, args...)
	cmd := exec.CommandContext(ctx, filepath.Join(filepath.Dir(exe), "fizzbee"), append(a, "spec.json")...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	r := &CLI{Dir: dir, Out: string(out)}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			panic(err)
		}
		r.Code = ee.ExitCode()
	}
	if ctx.Err() != nil {
		r.close()
		if t := cmd.ProcessState.UserTime(); t > 20*time.Second {
			// (however busy the machine is)
			c.Fail("%v did not end after %v of processor time on a specification with few states\n%.2000s", a, t.Round(time.Second), r.Out)
		}
		c.Discard("command-line run too long")
	}
	return r
}

// verdictLines: the lines that state a verdict, before the replay of a trace (if any)
func (r *CLI) verdictLines() (v []string) {
	for _, l := range strings.Split(r.Out, "\n") {
		if strings.HasPrefix(l, "=== Replaying") {
			break
		}
		if strings.Contains(l, "FAILED:") || strings.Contains(l, "PASSED:") {
			v = append(v, l)
		}
	}
	return
}

// short: the interesting part of the output
func (r *CLI) short() string {
	s := r.Out
	if len(s) > 3000 {
		s = s[:1500] + "\n...\n" + s[len(s)-1400:]
	}
	return s
}

func setFrontMatter(f *ast.File, yaml string) { f.FrontMatter = &ast.FrontMatter{Yaml: yaml} }
