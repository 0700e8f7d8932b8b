// Package h lists the harnesses for the native runner.
package h

import (
	"kvh/h/acc"
	"kvh/h/api"
	"kvh/h/cli"
	"kvh/h/flt"
	"kvh/h/graph"
	"kvh/h/hist"
	"kvh/h/kmain"
	"kvh/h/opts"
	"kvh/h/split"
	"kvh/h/srv"
	"kvh/h/tok"
)

// Harness is a harness with its set-up.
type Harness struct{ Setup, Run func() }

// All are the harnesses by name.
var All = map[string]Harness{
	"split.C15": {nil, split.C15}, "split.C16": {nil, split.C16}, "split.C17": {nil, split.C17}, "split.KF17": {nil, split.KF17},
	"flt.C12": {flt.Setup, flt.C12}, "flt.C13": {flt.Setup, flt.C13}, "flt.C14": {flt.Setup, flt.C14},
	"hist.C07": {hist.Setup, hist.C07}, "hist.C08": {hist.Setup, hist.C08}, "hist.C08N": {hist.Setup, hist.C08N},
	"graph.C11": {graph.Setup, graph.C11}, "graph.C32": {graph.Setup, graph.C32}, "graph.C33": {graph.Setup, graph.C33},
	"flt.C34": {flt.Setup, flt.C34}, "cli.C35": {cli.Setup, cli.C35}, "cli.C36": {cli.Setup, cli.C36},
	"acc.C09": {acc.Setup, acc.C09}, "acc.C10": {acc.Setup, acc.C10}, "acc.C09A": {acc.Setup, acc.C09A}, "acc.C10A": {acc.Setup, acc.C10A},
	"cli.C18": {cli.Setup, cli.C18}, "cli.C19": {cli.Setup, cli.C19}, "cli.C26": {cli.Setup, cli.C26}, "cli.C27": {cli.Setup, cli.C27}, "cli.C31": {cli.Setup, cli.C31}, "cli.KF31": {cli.Setup, cli.KF31}, "cli.C24": {cli.Setup, cli.C24}, "acc.C23": {acc.Setup, acc.C23},
	"srv.C21": {srv.Setup, srv.C21}, "srv.C22": {srv.Setup, srv.C22}, "srv.C29": {srv.Setup, srv.C29}, "srv.C30": {srv.Setup, srv.C30},
	"opts.C28":  {opts.Setup, opts.C28},
	"kmain.C25": {kmain.Setup, kmain.C25},
	"api.C20":   {api.Setup, api.C20},
	"tok.C01":   {tok.Setup, tok.C01}, "tok.C02": {tok.Setup, tok.C02}, "tok.C03": {tok.Setup, tok.C03}, "tok.C04": {tok.Setup, tok.C04}, "tok.C05": {tok.Setup, tok.C05}, "tok.C06": {tok.Setup, tok.C06},
}
