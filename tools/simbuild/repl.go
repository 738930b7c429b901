package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const stubPath = "github.com/corywalker/expreduce/verifsim/stub/"

// replaced are the packages the program gets stand-ins for, with their names.
var replaced = map[string][2]string{
	"net/http":                   {"http", "http"},
	"net/http/pprof":             {"httppprof", "pprof"},
	"gopkg.in/readline.v1":       {"readline", "readline"},
	"github.com/chzyer/readline": {"readline", "readline"},
}

var replStubs = map[string]string{
	"http": `// Package http stands in for net/http: the simulated program has no network.
package http

import "errors"

type Handler interface{}

func ListenAndServe(addr string, h Handler) error { return errors.New("no network") }
`,
	"httppprof": `package pprof
`,
	"readline": `// Package readline stands in for the terminal.
package readline

import "errors"

var ErrInterrupt = errors.New("Interrupt")

type Config struct {
	Prompt                 string
	HistoryFile            string
	HistoryLimit           int
	DisableAutoSaveHistory bool
	HistorySearchFold      bool
	AutoComplete           any
	Listener               any
	Painter                any
	VimMode                bool
	InterruptPrompt        string
	EOFPrompt              string
	ForceUseInteractive    bool
	UniqueEditLine         bool
}

// Line is set by the simulator: it shows the prompt and returns what is entered.
var Line func(prompt string) (string, error)

type Instance struct {
	Config *Config
	prompt string
}

func NewEx(c *Config) (*Instance, error)      { return &Instance{Config: c, prompt: c.Prompt}, nil }
func New(prompt string) (*Instance, error)    { return NewEx(&Config{Prompt: prompt}) }
func (i *Instance) SetPrompt(s string)        { i.prompt = s }
func (i *Instance) Readline() (string, error) { return Line(i.prompt) }
func (i *Instance) ReadSlice() ([]byte, error) {
	s, err := Line(i.prompt)
	return []byte(s), err
}
func (i *Instance) SaveHistory(s string) error { return nil }
func (i *Instance) Refresh()                   {}
func (i *Instance) Clean()                     {}
func (i *Instance) Close() error               { return nil }
`,
}

// genRepl makes a package of the program in the repository's root.
func genRepl(repo, dir string, ov map[string]string, sites *[]site) {
	files, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	sort.Strings(files)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			die("%v", err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, b, parser.ParseComments)
		if err != nil {
			die("cannot parse %s: %v", f, err)
		}
		if af.Name.Name != "main" {
			continue
		}
		type edit struct {
			from, to int
			txt      string
		}
		var eds []edit
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		eds = append(eds, edit{off(af.Name.Pos()), off(af.Name.End()), "repl"})
		for _, im := range af.Imports {
			path := strings.Trim(im.Path.Value, `"`)
			r, ok := replaced[path]
			if !ok {
				continue
			}
			txt := `"` + stubPath + r[0] + `"`
			if im.Name == nil {
				txt = r[1] + " " + txt
			}
			eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), txt})
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				eds = append(eds, edit{off(fd.Name.Pos()), off(fd.Name.End()), "Main"})
			}
		}
		sort.Slice(eds, func(i, j int) bool { return eds[i].from < eds[j].from })
		var s strings.Builder
		last := 0
		for _, e := range eds {
			s.Write(b[last:e.from])
			s.WriteString(e.txt)
			last = e.to
		}
		s.Write(b[last:])
		rel, _ := filepath.Rel(repo, f)
		out, ok := instrument(rel, f, []byte(s.String()), sites)
		if !ok {
			out = []byte(s.String())
		}
		dst := filepath.Join(dir, "repl", rel)
		writeIfChanged(dst, out)
		ov[filepath.Join(repo, "verifsim", "repl", rel)] = dst
	}
}
