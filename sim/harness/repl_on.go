//go:build repl

package main

import (
	"github.com/corywalker/expreduce/verifsim/repl"
	"github.com/corywalker/expreduce/verifsim/stub/readline"
)

func init() {
	replMain = repl.Main
	replLine = func(f func(prompt string) (string, error)) { readline.Line = f }
}
