package cli

import (
	"context"
	"strings"

	"kvh/sym"

	"github.com/ikawaha/kagome/v2/cmd/lattice"
	"github.com/ikawaha/kagome/v2/cmd/sentence"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/cmd/tokenize"
)

// C35: commands close what they open, whether they succeed or fail.
// Parameter cmd: the command; those of input.
func C35() {
	cmd := sym.Param("cmd", 0)
	run := []func(context.Context, []string) error{tokenize.Run, sentence.Run, lattice.Run}[cmd]
	sym.SetStdin([]byte("b"))
	var args []string
	if cmd != 1 && sym.Choose(2) == 1 {
		args = append(args, "-udict", sym.File([]byte(append([]string{userCSV}, badUser...)[sym.Choose(1+len(badUser))])))
	}
	mode, long := sym.Choose(3), long
	if cmd == 0 && mode == 2 { // what is cut into sentences first is never too long
		long = 200
	}
	switch cmd {
	case 0:
		args = append(args, [][]string{{}, {"-mode", "extended", "-json"}, {"-split", "-mode", "search"}}[mode]...)
	case 1:
		sym.Assume(mode == 0)
	case 2:
		args = append(args, [][]string{{}, {"-mode", "extended", "-v"}, {"-dict", "uni"}}[mode]...)
	}
	if cmd < 2 {
		switch sym.Choose(5) {
		case 0:
		case 1:
			args = append(args, "-file", sym.File([]byte(input())))
		case 2:
			args = append(args, "-file", sym.Dir())
		case 3:
			args = append(args, "-file", sym.File([]byte("b\n"+strings.Repeat("b", long)+sym.String(1))))
		case 4:
			args = append(args, "-file", sym.OutFile())
		}
	} else {
		switch sym.Choose(5) {
		case 0:
		case 1:
			args = append(args, "-output", sym.OutFile())
		case 2:
			args = append(args, "-output", sym.File([]byte("old")))
		case 3:
			args = append(args, "-output", "/dev/full")
		case 4:
			args = append(args, "-output", sym.Dir())
		}
		args = append(args, "--", sym.String(1))
	}
	both()
	if sym.Choose(2) == 1 { // writing fails
		w := &narrow{room: 1}
		tokenize.Stdout, sentence.Stdout, lattice.Stdout = w, w, w
	}
	n := sym.OpenFiles()
	err := run(context.Background(), args)
	sym.Observe("failed", err != nil)
	sym.Assert(sym.OpenFiles() == n, "the command leaves a file open")
	if err != nil {
		sym.Reach("fails")
	} else {
		sym.Reach("works")
	}
}

// flags are the options of the subcommands.
var flags = [][]string{
	{"file", "dict", "udict", "sysdict", "simple", "mode", "split", "json"},
	{"udict", "dict", "mode", "output", "v"},
	{"file"},
	{"http", "userdict", "dict"},
}

// C36: a command that rejects its arguments shows how it is used, and does
// nothing else.
func C36() {
	k := sym.Choose(len(commands))
	c := commands[k]
	old := "old contents\n"
	file := sym.File([]byte(old))
	var args []string
	switch sym.Choose(7) {
	case 0:
		args = []string{[]string{"-h", "-help", "--help", "--h"}[sym.Choose(4)]}
	case 1: // no such option
		args = []string{"-" + Near(flags[k])}
	case 2: // a value is missing
		args = []string{"-" + flags[k][0]}
	case 3: // a value that is none
		sym.Assume(c.mode)
		args = []string{"-mode", Near([]string{"normal"})}
	case 4:
		sym.Assume(c.dict != "")
		args = []string{"-" + c.dict, Near([]string{"ipa"})}
	case 5: // an argument too many, or none
		args = []string{"--", sym.String(1)}
		if c.words {
			args = nil
		}
	case 6: // not a truth value
		sym.Assume(k < 2)
		args = []string{[]string{"-json=", "-v="}[k] + sym.String(1)}
	}
	out := ""
	if c.words && sym.Choose(2) == 1 {
		out = sym.OutFile()
		if sym.Choose(2) == 1 {
			out = file
		}
		args = append([]string{"-output", out}, args...)
	}
	if !c.words && k < 3 && sym.Choose(2) == 1 {
		args = append([]string{"-file", file}, args...)
	}
	sym.Assume(c.check(args) != nil)
	got, log := &sink{}, &sink{}
	sym.SetStdin([]byte("b"))
	tokenize.Stdout, tokenize.Stderr = got, log
	lattice.Stdout, lattice.Stderr = got, log
	sentence.Stdout, sentence.Stderr = got, log
	server.Stderr = log
	err := c.run(context.Background(), args)
	sym.Assert(err != nil, "a command that rejects its arguments does not fail")
	sym.Assert(len(got.b) == 0, "a command that rejects its arguments prints something")
	if out != "" {
		b, ok := sym.ReadFile(out)
		sym.Assert(ok == (out == file) && (!ok || b == old), "a command that rejects its arguments touches its output file")
		sym.Reach("output")
	}
	u := string(log.b)
	sym.Assert(strings.Contains(u, c.name), "the usage of the command is not shown")
	for _, f := range flags[k] {
		sym.Assert(strings.Contains(u, "  -"+f), "an option of the command is not shown: "+f)
	}
	sym.Reach(c.name)
}
