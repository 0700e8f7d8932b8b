module github.com/ikawaha/kagome-dict/ipa

go 1.19

require github.com/ikawaha/kagome-dict v1.1.0
