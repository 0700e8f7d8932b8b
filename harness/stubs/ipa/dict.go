// Package ipa stands in for the embedded system dictionary: the harness
// supplies a small dictionary of its own.
package ipa

import "github.com/ikawaha/kagome-dict/dict"

const DictName = "IPA"

type FeatureIndex = int

// Full and Shrunk are set by the harness.
var Full, Shrunk *dict.Dict

func Dict() *dict.Dict { return Full }

func DictShrink() *dict.Dict { return Shrunk }
