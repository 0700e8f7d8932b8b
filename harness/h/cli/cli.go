// Package cli checks the subcommands (C18, C19).
package cli

import (
	"bufio"
	"context"
	"strings"

	"kvh/h/acc"
	"kvh/h/js"
	"kvh/h/world"
	"kvh/sym"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome-dict/uni"
	"github.com/ikawaha/kagome/v2/cmd/sentence"
	"github.com/ikawaha/kagome/v2/cmd/tokenize"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

var other, otherShrunk *dict.Dict

func Setup() {
	world.Setup()
	other = world.Other()
	s := *other
	s.Contents = nil
	s.POSTable.POSs = append([]dict.POS{}, s.POSTable.POSs...)
	s.POSTable.POSs[1] = nil // a word without any feature
	otherShrunk = &s
	ipa.Full, ipa.Shrunk = world.Full(), world.Shrunk()
	uni.Full, uni.Shrunk = other, otherShrunk
}

// sink collects what is written.
type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

// lines are the lines of a text.
func lines(s string) []string {
	var r []string
	b := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) && b == i || i < len(s) && s[i] != '\n' {
			continue
		}
		l := s[b:i]
		if len(l) > 0 && l[len(l)-1] == '\r' {
			l = l[:len(l)-1]
		}
		r = append(r, l)
		b = i + 1
	}
	return r
}

// input is an arbitrary text of several kinds of pieces.
func input() string {
	n := sym.Param("n", 2)
	if sym.Param("shape", 0) != 9 {
		return world.Text()
	}
	var b []byte
	for i := sym.Param("lines", 0); i > 0; i-- { // a fixed beginning
		b = append(b, []string{"aabz\n", "〇〡〇。b1!\n", "\n", "zzzzzzzzz ab? \n"}[i%4]...)
	}
	for k := sym.Choose(n + 1); k > 0; k-- {
		switch sym.Choose(6) {
		case 0:
			b = append(b, '\n')
		case 1:
			b = append(b, '\r')
		case 2:
			b = append(b, "。"...)
		case 3:
			c := sym.Byte()
			sym.Assume(c < 0x80)
			b = append(b, c)
		case 4:
			c := sym.Byte()
			sym.Assume(c >= 0x80)
			b = append(b, c)
		default:
			b = append(b, "〇〡〇"...)
		}
	}
	return string(b)
}

const userCSV = "# user words\nb1,b 1,ビ イチ,ユーザ\nba,ba,バ,ユーザ\nbab,b a b,ビ ア ビ,ユーザ\n〡,〡,タテ,カスタム\n"

// C18: what the tokenize command prints.
func C18() {
	mode := sym.Choose(5)
	args := [][]string{{}, {"-mode", "normal"}, {"-mode=search"}, {"-mode", "extended"}, {"-mode", ""}}[mode]
	m := []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Normal, tokenizer.Search, tokenizer.Extended, tokenizer.Normal}[mode]
	if only := sym.Param("mode", 0); only > 0 && mode != only {
		sym.Assume(false)
	}
	d, ud := world.Full(), false
	switch sym.Choose(sym.Param("dicts", 7)) {
	case 1:
		args, ud = append(args, "-udict", sym.File([]byte(userCSV))), true
		sym.Reach("udict")
	case 2:
		args, d = append(args, "-simple"), world.Shrunk()
	case 3:
		args, d = append(args, "-sysdict", "uni"), other
		sym.Reach("uni")
	case 4:
		args, d = append(args, "-sysdict=uni", "-simple=true"), otherShrunk
	case 5:
		args = append(args, "-sysdict", "")
	case 6:
		args = append(args, "-sysdict", "ipa", "-simple=false")
	}
	var text string
	if sym.Param("fixed", 0) == 1 {
		text = "〇〡〇z\n" // analysed differently in each mode
	} else {
		text = input()
	}
	var pieces []string
	if split := sym.Param("split", 2); split == 1 || split == 2 && sym.Choose(2) == 1 {
		args = append(args, "-split")
		s := bufio.NewScanner(strings.NewReader(text))
		s.Split(filter.ScanSentences)
		for s.Scan() {
			pieces = append(pieces, s.Text())
		}
		sym.Reach("split")
	} else {
		pieces = lines(text)
	}
	asJSON := sym.Choose(2) == 1
	if asJSON {
		args = append(args, "-json")
	}
	if sym.Param("file", 0) == 1 {
		args = append(args, "-file", sym.File([]byte(text)))
		sym.SetStdin([]byte("z\n"))
	} else {
		sym.SetStdin([]byte(text))
	}
	out := &sink{}
	tokenize.Stdout, tokenize.Stderr = out, &sink{}
	err := tokenize.Run(context.Background(), args)
	got := string(out.b)
	sym.Observe("out", got)
	sym.Assert(err == nil, "the command fails")

	var opts []tokenizer.Option
	if ud {
		opts = append(opts, tokenizer.UserDict(world.UserDict()))
	}
	t, err := tokenizer.New(d, opts...)
	if err != nil {
		panic(err)
	}
	var want []byte
	for _, p := range pieces {
		toks := t.Analyze(p, m)
		sym.Assert(len(toks) >= 2, "an analysis without BOS and EOS")
		toks = toks[1 : len(toks)-1]
		if asJSON {
			v, rest, ok := js.Prefix(got)
			sym.Assert(ok && v.Kind == js.List, "a line is not printed as a JSON array")
			got = rest
			sym.Assert(len(v.Items) == len(toks), "another number of tokens printed")
			for i := range toks {
				if toks[i].Class == tokenizer.DUMMY {
					sym.Reach("dummy")
				}
				sym.Assert(acc.Shown(v.Items[i], tokenizer.NewTokenData(toks[i])), "another token printed")
			}
			continue
		}
		for _, k := range toks {
			want = append(want, k.Surface...)
			switch k.Class {
			case tokenizer.DUMMY:
				sym.Reach("dummy text")
			case tokenizer.USER:
				sym.Reach("user")
				fallthrough
			default:
				want = append(want, '\t')
				for i, f := range k.Features() {
					if i > 0 {
						want = append(want, ',')
					}
					want = append(want, f...)
				}
			}
			want = append(want, '\n')
		}
		want = append(want, "EOS\n"...)
	}
	if asJSON {
		for i := 0; i < len(got); i++ {
			sym.Assert(got[i] == ' ' || got[i] == '\n', "more is printed than the tokens of the lines")
		}
		return
	}
	sym.Assert(got == string(want), "the tokens of the lines are not what is printed")
}

func blank(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if c := s[i]; !(c == ' ' || c >= '\t' && c <= '\r') {
			b = append(b, c)
		}
	}
	return string(b)
}

// C24: what the sentence command prints.
func C24() {
	text := input()
	var args []string
	if sym.Choose(2) == 1 {
		args = []string{"-file", sym.File([]byte(text))}
		sym.SetStdin([]byte("another text"))
		sym.Reach("file")
	} else {
		sym.SetStdin([]byte(text))
	}
	out := &sink{}
	sentence.Stdout, sentence.Stderr = out, &sink{}
	err := sentence.Run(context.Background(), args)
	got := string(out.b)
	sym.Observe("out", got)
	sym.Assert(err == nil, "the command fails")
	var want []byte
	s := bufio.NewScanner(strings.NewReader(text))
	s.Split(filter.ScanSentences)
	n := 0
	for s.Scan() {
		want = append(append(want, s.Text()...), '\n')
		n++
	}
	if n > 1 {
		sym.Reach("several")
	}
	sym.Assert(got == string(want), "not the sentences are printed, each on a line")
	if sym.Param("shape", 0) == 0 {
		sym.Assert(blank(got) == blank(text), "the text printed is not the text read")
	}
}
