package cli

import (
	"context"
	"errors"
	"strings"

	"kvh/sym"

	"github.com/ikawaha/kagome/v2/cmd/lattice"
	"github.com/ikawaha/kagome/v2/cmd/sentence"
	"github.com/ikawaha/kagome/v2/cmd/tokenize"
)

// long is longer than what a scanner takes.
const long = 64 * 1024

// badUser is the contents of user dictionaries that are malformed.
var badUser = []string{"a,b c\n", "a,b c,d,x\n", "ab,a b,エー ビー,名詞\nab,a b,エー ビー,名詞\n", "a\n", ",,,\nx", "a,a,b,c,d\n"}

func both() (out, diag *sink) {
	out, diag = &sink{}, &sink{}
	tokenize.Stdout, tokenize.Stderr = out, diag
	sentence.Stdout, sentence.Stderr = out, diag
	lattice.Stdout, lattice.Stderr = out, diag
	return
}

// C27: commands that cannot read everything they are to read.
func C27() {
	kind := sym.Choose(6)
	if k := sym.Param("kind", -1); k >= 0 {
		sym.Assume(kind == k)
	}
	cmd := sym.Choose(3)
	run := []func(context.Context, []string) error{tokenize.Run, sentence.Run, lattice.Run}[cmd]
	var args []string
	if cmd == 0 {
		args = append(args, [][]string{{}, {"-json"}, {"-split"}}[sym.Choose(3)]...)
	}
	sym.SetStdin([]byte("b"))
	before := "" // what is read
	switch kind {
	case 0: // no such file
		sym.Assume(cmd < 2)
		args = append(args, "-file", sym.OutFile())
	case 1: // a directory
		sym.Assume(cmd < 2)
		args = append(args, "-file", sym.Dir())
	case 2: // reading fails
		sym.Assume(cmd < 2)
		before = input()
		sym.SetStdinFail([]byte(before))
	case 3: // a line or sentence that is too long
		sym.Assume(cmd < 2)
		before = "a\n"
		text := before + strings.Repeat("b", long) + sym.String(1)
		if cmd == 1 || len(args) > 0 && args[0] == "-split" {
			before = "a。"
			text = before + "b" + strings.Repeat("\n ", long/2) + sym.String(1)
		}
		if sym.Choose(2) == 1 {
			args = append(args, "-file", sym.File([]byte(text)))
		} else {
			sym.SetStdin([]byte(text))
		}
	case 4: // a user dictionary that is not there, or malformed
		sym.Assume(cmd != 1)
		ud := ""
		if k := sym.Choose(len(badUser) + 2); k < len(badUser) {
			ud = sym.File([]byte(badUser[k]))
		} else if k == len(badUser) {
			ud = sym.OutFile()
		} else {
			ud = sym.Dir()
		}
		args = append(args, "-udict", ud)
	case 5: // an output file, or a dictionary, that is not there
		sym.Assume(cmd != 1)
		if cmd == 0 {
			args = append(args, "-dict", []string{sym.OutFile(), sym.Dir(), sym.File([]byte("no zip"))}[sym.Choose(3)])
			if sym.Choose(2) == 1 {
				args = append(args, "-simple")
			}
		} else {
			args = append(args, "-output", sym.Dir())
		}
	}
	if kind >= 4 {
		switch k := sym.Choose(5); {
		case k == 0:
		case cmd == 0:
			args = append(args, [][]string{{"-mode", "search"}, {"-sysdict", "uni"}, {"-mode", "extended", "-simple"}, {"-file", sym.File([]byte("a"))}}[k-1]...)
		default:
			args = append(args, [][]string{{"-mode", "search"}, {"-dict", "uni"}, {"-v", "-mode", "extended"}, {"-v"}}[k-1]...)
		}
	}
	if cmd == 2 {
		args = append(args, "a")
	}
	out, _ := both()
	err := run(context.Background(), args)
	got := string(out.b)
	if kind != 3 {
		sym.Observe("out", got)
	}
	sym.Assert(err != nil, "a command that cannot read everything does not fail")
	if kind != 2 && kind != 3 {
		sym.Assert(got == "", "something is printed")
		sym.Reach("nothing")
		return
	}
	sym.SetStdin([]byte(before))
	out, _ = both()
	for i, a := range args {
		if a == "-file" {
			args = args[:i]
			break
		}
	}
	err = run(context.Background(), args)
	sym.Assert(err == nil, "the command fails")
	sym.Assert(got == string(out.b), "what is read is not what is printed")
	sym.Reach("part")
}

// narrow takes only so much.
type narrow struct {
	sink
	room int
}

func (n *narrow) Write(p []byte) (int, error) {
	if k := n.room - len(n.b); len(p) > k {
		n.sink.Write(p[:k])
		return k, errors.New("no room")
	}
	return n.sink.Write(p)
}

// C31: commands that cannot write their output.
func C31() {
	cmd := sym.Choose(3)
	if c := sym.Param("cmd", -1); c >= 0 {
		sym.Assume(cmd == c)
	}
	run := []func(context.Context, []string) error{tokenize.Run, sentence.Run, lattice.Run}[cmd]
	var args []string
	text := input()
	switch cmd {
	case 0:
		args = append(args, [][]string{{}, {"-json"}, {"-split"}}[sym.Choose(3)]...)
	case 2:
		args = append(args, "--", text)
	}
	sym.SetStdin([]byte(text))
	out, _ := both()
	err := run(context.Background(), args)
	sym.Assert(err == nil, "the command fails")
	if cmd == 2 && sym.Choose(2) == 1 {
		both()
		err = run(context.Background(), append([]string{"-output", "/dev/full"}, args...))
		sym.Assert(err != nil, "a command that cannot write to its output file does not fail")
		sym.Reach("file")
		return
	}
	sym.Assume(len(out.b) > 0)
	w := &narrow{room: sym.Choose(min(len(out.b), 200))}
	if len(out.b) > 200 && sym.Choose(2) == 1 {
		w.room += len(out.b) - 200
	}
	both()
	tokenize.Stdout, sentence.Stdout, lattice.Stdout = w, w, w
	sym.SetStdin([]byte(text))
	err = run(context.Background(), args)
	// That the others report success is a known finding (KF31).
	sym.Assert(err != nil || cmd < 2, "a command that cannot write its output does not fail")
	got := string(w.b)
	if cmd == 2 {
		got = Plain(got)
		sym.Assert(strings.HasPrefix(Plain(string(out.b)), got) || len(w.b) == w.room, "other output than without the failure")
		return
	}
	sym.Assert(strings.HasPrefix(string(out.b), got), "other output than without the failure")
	sym.Reach("fails")
}

// KF31 fails as long as the known findings of C31 are there.
func KF31() {
	run := []func(context.Context, []string) error{tokenize.Run, sentence.Run}[sym.Param("cmd", 0)]
	var args []string
	if sym.Param("json", 0) == 1 {
		args = append(args, "-json")
	}
	sym.SetStdin([]byte("b"))
	both()
	w := &narrow{room: 1}
	tokenize.Stdout, sentence.Stdout = w, w
	err := run(context.Background(), args)
	sym.Assert(err != nil, "a command that cannot write its output does not fail")
}
