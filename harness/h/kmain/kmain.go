// Package kmain checks the kagome program (C25).
package kmain

import (
	"context"
	"os"
	"strings"

	"kvh/gen/kagome"
	"kvh/h/cli"
	"kvh/sym"

	"github.com/ikawaha/kagome/v2/cmd/lattice"
	"github.com/ikawaha/kagome/v2/cmd/sentence"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/cmd/tokenize"
)

func Setup() { cli.Setup() }

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

var names = []string{"tokenize", "lattice", "sentence", "server", "version"}

// C25: which subcommand runs, with which arguments.
func C25() {
	var args []string
	first := sym.Choose(len(names) + 3)
	switch {
	case first < len(names):
		args = append(args, names[first])
	case first == len(names): // none
	case first == len(names)+1: // nearly the name of one
		args = append(args, cli.Near(names))
	default: // anything
		args = append(args, sym.String(sym.Choose(sym.Param("len", 2)+1)))
	}
	rest := [][]string{nil, {"-simple"}, {"-mode", "search"}, {"-udict", sym.File([]byte("ab,a b,エー ビー,名詞\n"))}, {"ab"}, {"-http", "x"}, {"-x"}, {"tokenize"}, {"-h"}, {""}, {"-dict", "none"}}
	args = append(args, rest[sym.Choose(len(rest))]...)
	if sym.Param("more", 0) == 1 {
		args = append(args, rest[sym.Choose(len(rest))]...)
	}
	text := []byte("ab。a\n" + string(sym.Bytes(sym.Param("n", 1))))

	run := ""
	opts := args
	for _, n := range names {
		if len(args) > 0 && args[0] == n {
			run, opts = n, args[1:]
		}
	}
	if run == "server" && server.OptionCheck(opts) == nil {
		sym.Assume(false) // it would go on serving (C22)
	}

	sym.SetStdin(text)
	stdout, stderr, code := sym.Process(func() {
		os.Args = append([]string{"kagome"}, args...)
		kagome.Main()
	})
	sym.Observe("code", code)
	sym.Observe("stdout", plain(stdout))

	// what the subcommand does by itself
	sym.SetStdin(text)
	out, diag := &sink{}, &sink{}
	tokenize.Stdout, lattice.Stdout, sentence.Stdout = out, out, out
	tokenize.Stderr, lattice.Stderr, sentence.Stderr, server.Stderr = diag, diag, diag, diag
	var err error
	shown := true
	switch run {
	case "tokenize":
		err = tokenize.Run(context.Background(), opts)
	case "lattice":
		err = lattice.Run(context.Background(), opts)
	case "sentence":
		err = sentence.Run(context.Background(), opts)
	case "server":
		err = server.Run(context.Background(), opts)
	case "version":
		sym.Assert(stderr != "", "no version is shown")
	default:
		if err = tokenize.OptionCheck(opts); err == nil {
			err = tokenize.Run(context.Background(), opts)
			sym.Reach("default")
		} else {
			shown = false
			sym.Reach("usage")
			sym.Assert(strings.Contains(stderr, "usage:"), "wrong usage, and the usage is not shown")
		}
	}
	want := string(out.b)
	sym.Assert(plain(stdout) == plain(want), "the program prints something else than the subcommand")
	sym.Assert((code == 0) == (err == nil), "the exit status does not say whether the subcommand failed")
	if err != nil && shown {
		sym.Assert(strings.Contains(stderr, err.Error()), "the error is not shown")
		sym.Reach("error")
	}
	if run != "" && err == nil {
		sym.Reach(run)
	}
}

// plain replaces the node addresses of a graph.
func plain(s string) string { return cli.Plain(s) }
