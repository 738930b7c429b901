// simbuild generates, from the working tree of /repo, the overlay with which
// the deterministic simulator is built, and builds it.  Nothing is written in
// /repo: every changed or added file is presented to the go command through
// -overlay.
//
//	(1) the standard library gets the seams of stdpatch.go (clock, signals,
//	    disk, map iteration order, goroutine identity);
//	(2) every non-test Go file of the repository's packages gets a scheduling
//	    point in front of every statement (instrument.go);
//	(3) the simulator runtime and the harness are added as packages
//	    github.com/corywalker/expreduce/verifsim/{simrt,harness};
//	(4) with -repl, the program of the repository's root becomes package
//	    verifsim/repl, with stand-ins for the terminal and the profiling server;
//	(5) the missing package expreduce/rubi_snapshot is replaced by a stub.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simbuild: "+f+"\n", a...)
	os.Exit(2)
}

func writeIfChanged(path string, data []byte) {
	old, err := os.ReadFile(path)
	if err == nil && string(old) == string(data) {
		return
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	tmp := fmt.Sprintf("%s.tmp%d", path, os.Getpid())
	if err := os.WriteFile(tmp, data, 0o644); err != nil {
		die("%v", err)
	}
	if err := os.Rename(tmp, path); err != nil {
		die("%v", err)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "repository working tree")
	verif := flag.String("verif", "/verif", "verification tree")
	out := flag.String("out", "/verif/.build", "output directory")
	race := flag.Bool("race", false, "build with the race detector")
	repl := flag.Bool("repl", false, "include the interactive program")
	bin := flag.String("bin", "", "binary to write")
	flag.Parse()

	goroot := strings.TrimSpace(run("go", "env", "GOROOT"))
	ov := map[string]string{}
	dir := filepath.Join(*out, "overlay")
	t0 := time.Now()

	genStd(goroot, dir, ov)
	nSites := genRepo(*repo, dir, ov, *repl)
	if *repl {
		for name, src := range replStubs {
			dst := filepath.Join(dir, "stub", name, "stub.go")
			writeIfChanged(dst, []byte(src))
			ov[filepath.Join(*repo, "verifsim", "stub", name, "stub.go")] = dst
		}
	}

	// Simulator runtime and harness.
	for _, sub := range []string{"simrt", "harness"} {
		ents, err := os.ReadDir(filepath.Join(*verif, "sim", sub))
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), ".jsonl") {
				ov[filepath.Join(*repo, "verifsim", sub, e.Name())] = filepath.Join(*verif, "sim", sub, e.Name())
			}
		}
	}
	keys := []string{}
	for k := range ov {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	js, _ := json.MarshalIndent(map[string]any{"Replace": ov}, "", " ")
	ovf := filepath.Join(*out, "overlay.json")
	writeIfChanged(ovf, js)
	tGen := time.Since(t0)

	if *bin == "" {
		return
	}
	args := []string{"build", "-overlay", ovf, "-trimpath=false", "-buildvcs=false", "-o", *bin}
	if *race {
		args = append(args, "-race")
	}
	if *repl {
		args = append(args, "-tags", "repl")
	}
	args = append(args, "./verifsim/harness")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stdout = os.Stderr
	cmd.Stderr = os.Stderr
	t1 := time.Now()
	if err := cmd.Run(); err != nil {
		die("go %s: %v", strings.Join(args, " "), err)
	}
	fmt.Fprintf(os.Stderr, "simbuild: %d scheduling points, overlay %.1fs, build %.1fs\n", nSites, tGen.Seconds(), time.Since(t1).Seconds())
}

func run(name string, args ...string) string {
	b, err := exec.Command(name, args...).Output()
	if err != nil {
		die("%s %v: %v", name, args, err)
	}
	return string(b)
}
