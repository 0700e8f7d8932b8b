package cli

import (
	"context"
	"strconv"
	"strings"

	"kvh/h/world"
	"kvh/sym"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/cmd/lattice"
	"github.com/ikawaha/kagome/v2/cmd/sentence"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/cmd/tokenize"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

type command struct {
	name  string
	check func([]string) error
	run   func(context.Context, []string) error
	mode  bool   // has -mode
	dict  string // name of the option for the dictionary
	words bool   // takes arguments
}

var commands = []command{
	{"tokenize", tokenize.OptionCheck, tokenize.Run, true, "sysdict", false},
	{"lattice", lattice.OptionCheck, lattice.Run, true, "dict", true},
	{"sentence", sentence.OptionCheck, sentence.Run, false, "", false},
	{"server", server.OptionCheck, server.Run, false, "dict", false},
}

func oneOf(s string, of ...string) bool {
	for _, x := range of {
		if s == x {
			return true
		}
	}
	return false
}

// option is an option with its value, written in one of the ways to write it.
func option(name, value string) []string {
	switch sym.Choose(4) {
	case 0:
		return []string{"-" + name, value}
	case 1:
		return []string{"-" + name + "=" + value}
	case 2:
		return []string{"--" + name, value}
	}
	return []string{"--" + name + "=" + value}
}

// value is an arbitrary string, or one close to the given ones.
func value(names ...string) string {
	if sym.Param("near", 0) == 1 && len(names) > 0 {
		return Near(names)
	}
	return sym.String(sym.Choose(sym.Param("n", 8) + 1))
}

// Near is a string close to one of the given ones: with another byte, one more
// or one less, cut, repeated, or with letters in the other case.
func Near(names []string) string {
	b := []byte(names[sym.Choose(len(names))])
	i := sym.Choose(len(b) + 1)
	switch sym.Choose(6) {
	case 0:
		sym.Assume(i < len(b))
		b[i] = sym.Byte()
	case 1:
		b = append(append(append([]byte{}, b[:i]...), sym.Byte()), b[i:]...)
	case 2:
		sym.Assume(i < len(b))
		b = append(append([]byte{}, b[:i]...), b[i+1:]...)
	case 3:
		b = b[:i]
	case 4:
		b = append(b, b[:i]...)
	default:
		sym.Assume(i == 0)
		for j, c := range b {
			d := sym.Byte()
			sym.Assume(sym.Or(d == c, d == c-('a'-'A')))
			b[j] = d
		}
	}
	return string(b)
}

// execute runs a command on an empty input. The server is stopped before it
// starts by a user dictionary that is not there.
func execute(c command, args []string) (string, error) {
	out, log := &sink{}, &sink{}
	sym.SetStdin(nil)
	tokenize.Stdout, tokenize.Stderr = out, log
	lattice.Stdout, lattice.Stderr = out, log
	sentence.Stdout, sentence.Stderr = out, log
	server.Stderr = log
	err := c.run(context.Background(), args)
	return string(out.b), err
}

// C19: options.
func C19() {
	c := commands[sym.Choose(len(commands))]
	if k := sym.Param("cmd", 0); k > 0 && c.name != commands[k-1].name {
		sym.Assume(false)
	}
	var args []string
	valid := true
	switch kind := sym.Choose(5); kind {
	case 0: // a mode
		if !c.mode {
			return
		}
		v := value("normal", "search", "extended")
		args = option("mode", v)
		valid = oneOf(v, "", "normal", "search", "extended")
	case 1: // a dictionary
		if c.dict == "" {
			return
		}
		v := value("ipa", "uni")
		args = option(c.dict, v)
		valid = oneOf(v, "", "ipa", "uni")
	case 2: // an argument
		if c.words {
			return
		}
		v := value()
		if sym.Choose(2) == 0 {
			sym.Assume(v == "" || v == "-" || v[0] != '-')
			args = []string{v}
		} else {
			args = []string{"--", v}
		}
		if c.mode && sym.Choose(2) == 1 {
			args = append([]string{"-mode", "normal"}, args...)
		}
		valid = false
	case 3: // two options
		if !c.mode {
			return
		}
		v, w := []string{"normal", "search", "extended", "x", ""}[sym.Choose(5)], []string{"ipa", "uni", "", "normal"}[sym.Choose(4)]
		args = append(option("mode", v), option(c.dict, w)...)
		valid = v != "x" && w != "normal"
	case 4: // help, or no such option
		args = []string{"-" + []string{"h", "help", "-h", "-help", "x", "-version", "Mode", "="}[sym.Choose(8)]}
		valid = false
	}
	if c.words {
		if sym.Choose(2) == 0 {
			args = append(args, "a")
		} else {
			valid = false // nothing to show
		}
	}
	sym.Observe("args", args)
	sym.Observe("valid", valid)
	err := c.check(args)
	if valid {
		sym.Reach("valid")
		sym.Assert(err == nil, "a documented value is rejected: "+c.name)
	} else {
		sym.Reach("invalid")
		sym.Assert(err != nil, "an undocumented value or a stray argument is accepted: "+c.name)
	}
	if c.name == "server" {
		// as far as it goes without a listener
		args = append([]string{"-userdict", sym.OutFile()}, args...)
		_, rerr := execute(c, args)
		sym.Assert(rerr != nil, "the server starts without its user dictionary")
		if valid {
			_, def := execute(c, []string{"-userdict", args[1]})
			sym.Assert(def != nil && rerr.Error() == def.Error(), "the server rejects options that the option check accepts")
		}
		return
	}
	out, rerr := execute(c, args)
	sym.Assert((rerr == nil) == valid, "the option check and the run disagree: "+c.name)
	sym.Assert(valid || out == "", "the command works in spite of wrong options: "+c.name)
}

// C26: what the lattice command shows.
func C26() {
	few := sym.Param("few", 0) == 1 // of the options
	mode := 3
	if !few {
		mode = sym.Choose(5)
	}
	var args []string
	if mode > 0 {
		args = option("mode", []string{"", "normal", "search", "extended"}[mode-1])
	}
	m := []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Normal, tokenizer.Normal, tokenizer.Search, tokenizer.Extended}[mode]
	k := sym.Choose(sym.Param("dicts", 4))
	d := []*dict.Dict{world.Full(), world.Full(), world.Full(), other}[k]
	args = append(args, [][]string{{}, {"-dict", ""}, {"-dict", "ipa"}, {"-dict", "uni"}}[k]...)
	var opts []tokenizer.Option
	if few || sym.Choose(2) == 1 {
		args = append(args, "-udict", sym.File([]byte(userCSV)))
		opts = append(opts, tokenizer.UserDict(world.UserDict()))
	}
	verbose := sym.Choose(2) == 1
	if verbose {
		args = append(args, "-v")
	}
	file := ""
	if k := sym.Choose(3); k > 0 {
		sym.Assume(!few)
		if file = sym.OutFile(); k == 2 { // there already
			file = sym.File([]byte(strings.Repeat("old contents\n", 1000)))
		}
		args = append(args, "-output", file)
	}
	var text string
	kind := 4
	switch sym.Param("text", -1) { // 2: many arguments
	case 0:
		kind = sym.Choose(3)
	case 1:
		kind = 3
	}
	switch kind {
	case 0:
		text = "〇〡〇z"
		args = append(args, text)
	case 1:
		text = "a ba"
		args = append(args, "a", "ba")
	case 2:
		text = "-1 zz -v"
		args = append(args, "--", "-1", "zz", "-v")
	case 4:
		args = append(args, "--")
		for i, n := 0, sym.Param("words", 6); i < n; i++ {
			w := []string{"ab", "", "〇", "z z"}[i%4]
			if i == n-1 {
				w = sym.String(1)
			}
			args = append(args, w)
			if i > 0 {
				text += " "
			}
			text += w
		}
	default:
		text = world.Text()
		args = append(args, "--", text)
	}
	got, log := &sink{}, &sink{}
	lattice.Stdout, lattice.Stderr = got, log
	err := lattice.Run(context.Background(), args)
	sym.Assert(err == nil, "the lattice command fails")
	g := string(got.b)
	if file != "" {
		f, ok := sym.ReadFile(file)
		sym.Assert(ok && g == "", "the graph is not in the output file")
		g = f
		sym.Reach("file")
	}
	t, err := tokenizer.New(d, opts...)
	if err != nil {
		panic(err)
	}
	want := &sink{}
	toks := t.AnalyzeGraph(want, text, m)
	g = Plain(g)
	sym.Observe("graph", g)
	sym.Assert(g == Plain(string(want.b)), "the graph shown is not that of the analysis in the mode asked for")
	if !verbose {
		sym.Assert(len(log.b) == 0, "tokens are shown without being asked for")
		return
	}
	var w []byte
	for _, k := range toks[1:] {
		w = append(w, k.Surface...)
		if k.Class != tokenizer.DUMMY {
			w = append(w, '\t')
			for i, f := range k.Features() {
				if i > 0 {
					w = append(w, ',')
				}
				w = append(w, f...)
			}
		}
		w = append(w, '\n')
	}
	sym.Assert(string(log.b) == string(w), "the tokens shown are not those of the analysis in the mode asked for")
}

// Plain is a graph with the names of its nodes numbered as they come.
func Plain(g string) string {
	var b []byte
	names := map[string]int{}
	for i := 0; i < len(g); i++ {
		if len(g)-i < 3 || g[i:i+3] != "\"0x" {
			b = append(b, g[i])
			continue
		}
		j := i + 1
		for j < len(g) && g[j] != '"' {
			j++
		}
		k, ok := names[g[i:j]]
		if !ok {
			k = len(names)
			names[g[i:j]] = k
		}
		b = append(b, '"', 'n')
		b = append(b, strconv.Itoa(k)...)
		i = j - 1
	}
	return string(b)
}
