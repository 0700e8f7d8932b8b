From 0f6bdc34277a9876e5841cd58ed841f650d271c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:38 +0000
Subject: [PATCH 01/16] fix: a single line feed never ends a sentence

Two line feeds were taken as consecutive even with other characters
between them, so every second single line feed split the text.
---
 filter/sentence_splitter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 3f41dc9..a04b2b1 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -72,7 +72,7 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 					return p, data[start:end], nil
 				}
 				nn = true
-			case nn:
+			default:
 				nn = false
 			}
 			continue
@@ -91,6 +91,8 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				return p, data[start:end], nil
 			}
 			nn = true
+		} else {
+			nn = false
 		}
 		if !s.isDelim(r) && rcount < s.MaxRuneLen {
 			continue
@@ -106,8 +108,11 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 						return p, data[start:end], nil
 					}
 					nn = true
+				} else {
+					nn = false
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
+				nn = false
 				if end != p {
 					for i := 0; i < size; i++ {
 						data[end+i] = data[p+i]
-- 
2.43.0


From f683c8598b83a35b40061da362e4525f62c38002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:55 +0000
Subject: [PATCH 02/16] fix: sentence splitting does not depend on how the text
 is read

While more data was requested the sentence read so far was already
compacted in the scanner's buffer, which turned line feeds into spaces,
spaces into delimiters and joined stray bytes to new characters.  A
character cut by the end of a read was taken as invalid bytes, and white
space at the very end could yield an empty sentence.
---
 filter/sentence_splitter.go | 58 ++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index a04b2b1..5a2d0c7 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -47,6 +47,22 @@ func (s SentenceSplitter) isFollower(r rune) bool {
 	return false
 }
 
+// trim removes the white space from a sentence, in place, if it is to be skipped.
+func (s SentenceSplitter) trim(sentence []byte) []byte {
+	if !s.SkipWhiteSpace {
+		return sentence
+	}
+	end := 0
+	for p := 0; p < len(sentence); {
+		r, size := utf8.DecodeRune(sentence[p:])
+		if !unicode.IsSpace(r) {
+			end += copy(sentence[end:], sentence[p:p+size])
+		}
+		p += size
+	}
+	return sentence[:end]
+}
+
 // ScanSentences is a split function for a Scanner that returns each sentence of text.
 // nolint: gocyclo
 func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -54,22 +70,25 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		return 0, nil, nil
 	}
 	var (
-		start, end, rcount int
-		head, nn           bool // nn indicates \n\n
+		start, rcount int
+		head, nn      bool // nn indicates \n\n
 	)
 	head = true
 	for p := 0; p < len(data); {
+		if !atEOF && !utf8.FullRune(data[p:]) {
+			return start, nil, nil // the rest of the character is still to come
+		}
 		r, size := utf8.DecodeRune(data[p:])
 		if s.SkipWhiteSpace && unicode.IsSpace(r) {
 			p += size
 			switch {
 			case head:
-				start, end = p, p
+				start = p
 			case s.isDelim(r):
-				return p, data[start:end], nil
+				return p, s.trim(data[start:p]), nil
 			case s.DoubleLineFeedSplit && r == '\n':
 				if nn {
-					return p, data[start:end], nil
+					return p, s.trim(data[start:p]), nil
 				}
 				nn = true
 			default:
@@ -78,17 +97,11 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 			continue
 		}
 		head = false
-		if end != p {
-			for i := 0; i < size; i++ {
-				data[end+i] = data[p+i]
-			}
-		}
 		p += size
-		end += size
 		rcount++
 		if s.DoubleLineFeedSplit && r == '\n' {
 			if nn {
-				return p, data[start:end], nil
+				return p, s.trim(data[start:p]), nil
 			}
 			nn = true
 		} else {
@@ -100,12 +113,15 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		// split
 		nn = false
 		for p < len(data) {
+			if !atEOF && !utf8.FullRune(data[p:]) {
+				return start, nil, nil
+			}
 			r, size := utf8.DecodeRune(data[p:])
 			if s.SkipWhiteSpace && unicode.IsSpace(r) {
 				p += size
 				if s.DoubleLineFeedSplit && r == '\n' {
 					if nn {
-						return p, data[start:end], nil
+						return p, s.trim(data[start:p]), nil
 					}
 					nn = true
 				} else {
@@ -113,26 +129,20 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
 				nn = false
-				if end != p {
-					for i := 0; i < size; i++ {
-						data[end+i] = data[p+i]
-					}
-				}
 				p += size
-				end += size
 			} else {
 				break
 			}
 		}
-		return p, data[start:end], nil
+		return p, s.trim(data[start:p]), nil
 	}
 	if !atEOF {
 		// Request more data
-		for i := end; i < len(data); i++ {
-			data[i] = ' '
-		}
 		return start, nil, nil
 	}
+	if head {
+		return len(data), nil, nil // nothing but white space is left
+	}
 	// If we're at EOF, we have a final, non-terminated line. Return it.
-	return len(data), data[start:end], nil
+	return len(data), s.trim(data[start:]), nil
 }
-- 
2.43.0


From 2dd226a124045850c03c7e9e454f9faa852ddfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:07 +0000
Subject: [PATCH 03/16] fix: the replacement character in a text is a character
 of three bytes

---
 tokenizer/lattice/lattice.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index aab4eea..2d5b81f 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -137,12 +137,8 @@ func (la *Lattice) Build(inp string) {
 		// (3) UNKNOWN DIC
 		class := la.dic.CharacterCategory(ch)
 		if !anyMatches || la.dic.InvokeList[int(class)] {
-			var endPos int
-			if ch != utf8.RuneError {
-				endPos = pos + utf8.RuneLen(ch)
-			} else {
-				endPos = pos + 1
-			}
+			_, width := utf8.DecodeRuneInString(inp[pos:]) // 1 for an invalid byte
+			endPos := pos + width
 			unkWordLen := 1
 			if la.dic.GroupList[int(class)] {
 				for i, w, size := endPos, 0, len(inp); i < size; i += w {
@@ -159,10 +155,8 @@ func (la *Lattice) Build(inp string) {
 				}
 			}
 
-			prev := pos
-			if c, size := utf8.DecodeLastRuneInString(inp[pos:endPos]); c != utf8.RuneError {
-				prev = endPos - size
-			}
+			_, size := utf8.DecodeLastRuneInString(inp[pos:endPos])
+			prev := endPos - size
 			id := la.dic.UnkDict.Index[int32(class)]
 			dup := la.dic.UnkDict.IndexDup[int32(class)]
 			for x := 0; x < int(dup)+1; x++ {
-- 
2.43.0


From 587c4380db14df62ab3cd802e397ee1de96b78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:07 +0000
Subject: [PATCH 04/16] fix: extended mode keeps the bytes of the text

---
 tokenizer/lattice/lattice.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 2d5b81f..4d8019f 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -248,12 +248,13 @@ func (la *Lattice) Backward(m TokenizeMode) {
 		runeLen := utf8.RuneCountInString(p.Surface)
 		stack := make([]*Node, 0, runeLen)
 		i := 0
-		for k, r := range p.Surface {
+		for k := range p.Surface {
+			_, size := utf8.DecodeRuneInString(p.Surface[k:])
 			stack = append(stack, &Node{
 				ID:       p.ID,
 				Start:    p.Start + i,
 				Class:    DUMMY,
-				Surface:  string(r),
+				Surface:  p.Surface[k : k+size],
 				Position: p.Position + k,
 			})
 			i++
-- 
2.43.0


From 4e39653c8e3b79333da131326e18d1b21e1fe398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:47 +0000
Subject: [PATCH 05/16] fix: a features filter with wildcards matches exactly
 when a pattern does

---
 filter/feature.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/filter/feature.go b/filter/feature.go
index 0be5376..b545d0b 100644
--- a/filter/feature.go
+++ b/filter/feature.go
@@ -31,13 +31,29 @@ func (n filterNode) isLeaf() bool {
 
 func (n filterNode) has(s Feature) int {
 	for i, v := range n.fanout {
-		if v.val == Any || v.val == s {
+		if v.val == s {
 			return i
 		}
 	}
 	return -1
 }
 
+// match returns true if a path to a leaf agrees with the head of the features.
+func (n filterNode) match(fs Features) bool {
+	if len(fs) == 0 {
+		return false
+	}
+	for _, v := range n.fanout {
+		if v.val != Any && v.val != fs[0] {
+			continue
+		}
+		if v.to.isLeaf() || v.to.match(fs[1:]) {
+			return true
+		}
+	}
+	return false
+}
+
 // FeaturesFilter represents a filter that filters a vector of features.
 type FeaturesFilter struct {
 	root filterNode
@@ -77,18 +93,7 @@ func (f *FeaturesFilter) add(fs Features) {
 
 // Match returns true if a filter matches given features.
 func (f *FeaturesFilter) Match(fs Features) bool {
-	n := &f.root
-	for _, v := range fs {
-		if k := n.has(v); k >= 0 {
-			n = n.fanout[k].to
-			if n.isLeaf() {
-				return true
-			}
-			continue
-		}
-		return false
-	}
-	return false
+	return f.root.match(fs)
 }
 
 // String implements string interface.
-- 
2.43.0


From fb585db89af655733b147f925ab44ac3a3581f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:01 +0000
Subject: [PATCH 06/16] fix: the tokens returned with a graph are those of the
 analysis

Their index and byte position were not set and the option to omit BOS and
EOS was ignored.
---
 tokenizer/tokenizer.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tokenizer/tokenizer.go b/tokenizer/tokenizer.go
index 4feb38f..7359f50 100644
--- a/tokenizer/tokenizer.go
+++ b/tokenizer/tokenizer.go
@@ -150,14 +150,19 @@ func (t Tokenizer) AnalyzeGraph(w io.Writer, input string, mode TokenizeMode) []
 	tokens := make([]Token, 0, size)
 	for i := range la.Output {
 		n := la.Output[size-1-i]
+		if t.omitBosEos && n.ID == BosEosID {
+			continue
+		}
 		tok := Token{
-			ID:      n.ID,
-			Class:   TokenClass(n.Class),
-			Start:   n.Start,
-			End:     n.Start + utf8.RuneCountInString(n.Surface),
-			Surface: n.Surface,
-			dict:    t.dict,
-			udict:   t.userDict,
+			Index:    len(tokens),
+			ID:       n.ID,
+			Class:    TokenClass(n.Class),
+			Position: n.Position,
+			Start:    n.Start,
+			End:      n.Start + utf8.RuneCountInString(n.Surface),
+			Surface:  n.Surface,
+			dict:     t.dict,
+			udict:    t.userDict,
 		}
 		if tok.ID == lattice.BosEosID {
 			if i == 0 {
-- 
2.43.0


From b01f581e7c3b3b24a2335670396813b1fdba4d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:23 +0000
Subject: [PATCH 07/16] fix: escape the labels of the lattice graph

A quotation mark or a backslash in the text or in a part of speech made
the graph malformed.
---
 tokenizer/lattice/lattice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 4d8019f..5de5431 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -301,6 +301,9 @@ func posFeature(d *dict.Dict, u *dict.UserDict, t *Node) string {
 	return strings.Join(ret, "/")
 }
 
+// dotEscaper escapes a text for use in a quoted label of the dot format.
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 // Dot outputs a lattice in the graphviz dot format.
 //
 //nolint:gocyclo
@@ -356,7 +359,8 @@ func (la *Lattice) Dot(w io.Writer) {
 					surf = "EOS"
 				}
 			}
-			pos := posFeature(la.dic, la.udic, n)
+			surf = dotEscaper.Replace(surf)
+			pos := dotEscaper.Replace(posFeature(la.dic, la.udic, n))
 			if _, ok := bests[n]; ok {
 				fmt.Fprintf(w, "\t\"%p\" [label=\"%s\\n%s\\n%d\",shape=ellipse, peripheries=2];\n", n, surf, pos, n.Weight)
 			} else if n.Class != UNKNOWN {
-- 
2.43.0


From d5281506b2ba76e70f2cc69c3075eaed95547117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:20 +0000
Subject: [PATCH 08/16] fix: the lattice graph shows the best path in the
 extended mode

The unknown words on it were left out.
---
 tokenizer/lattice/lattice.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 5de5431..446ddf2 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -309,8 +309,11 @@ var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
 //nolint:gocyclo
 func (la *Lattice) Dot(w io.Writer) {
 	bests := make(map[*Node]struct{})
-	for _, n := range la.Output {
-		bests[n] = struct{}{}
+	if size := len(la.list); size > 0 && len(la.Output) > 0 {
+		// not la.Output, which has other nodes for unknown words in the extended mode
+		for n := la.list[size-1][0]; n != nil; n = n.prev {
+			bests[n] = struct{}{}
+		}
 	}
 	type edge struct {
 		from *Node
-- 
2.43.0


From e3cb04279474baacb8bfe7a8a45f9dbbfd5cc7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:01 +0000
Subject: [PATCH 09/16] fix: print every token of a line as JSON

BOS and EOS were recognized by their class, which the characters that
Extended mode makes of unknown words share: they were not printed.
---
 cmd/tokenize/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tokenize/cmd.go b/cmd/tokenize/cmd.go
index a288a9b..8dc211b 100644
--- a/cmd/tokenize/cmd.go
+++ b/cmd/tokenize/cmd.go
@@ -201,7 +201,7 @@ func printTokensJSON(tokens []tokenizer.Token) error {
 	}
 	var array [][]byte
 	for _, v := range tokens {
-		if v.Class == tokenizer.DUMMY {
+		if v.ID == tokenizer.BosEosID {
 			continue
 		}
 		r := tokenizer.NewTokenData(v)
-- 
2.43.0


From b1e164b093e68f3c9303d49c8ea4edde00a3988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:01 +0000
Subject: [PATCH 10/16] fix: the empty dictionary name selects the default
 dictionary

The option check accepts it, but the commands failed on it.
---
 cmd/lattice/cmd.go  | 3 +++
 cmd/server/cmd.go   | 3 +++
 cmd/tokenize/cmd.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/cmd/lattice/cmd.go b/cmd/lattice/cmd.go
index dee8c70..efe2a6b 100644
--- a/cmd/lattice/cmd.go
+++ b/cmd/lattice/cmd.go
@@ -64,6 +64,9 @@ func (o *option) parse(args []string) error {
 	if o.dict != "" && o.dict != "ipa" && o.dict != "uni" {
 		return fmt.Errorf("invalid argument: -dict %v", o.dict)
 	}
+	if o.dict == "" {
+		o.dict = "ipa"
+	}
 	if o.mode != "" && o.mode != "normal" && o.mode != "search" && o.mode != "extended" {
 		return fmt.Errorf("invalid argument: -mode %v", o.mode)
 	}
diff --git a/cmd/server/cmd.go b/cmd/server/cmd.go
index cb7b7a9..7455924 100644
--- a/cmd/server/cmd.go
+++ b/cmd/server/cmd.go
@@ -62,6 +62,9 @@ func (o *option) parse(args []string) error {
 	if o.dict != "" && o.dict != "ipa" && o.dict != "uni" {
 		return fmt.Errorf("invalid argument: -dict %v", o.dict)
 	}
+	if o.dict == "" {
+		o.dict = "ipa"
+	}
 	return nil
 }
 
diff --git a/cmd/tokenize/cmd.go b/cmd/tokenize/cmd.go
index 8dc211b..971a837 100644
--- a/cmd/tokenize/cmd.go
+++ b/cmd/tokenize/cmd.go
@@ -82,6 +82,9 @@ func (o *option) parse(args []string) error {
 	if o.sysdict != "" && o.sysdict != "ipa" && o.sysdict != "uni" {
 		return fmt.Errorf("invalid argument: -sysdict %v", o.sysdict)
 	}
+	if o.sysdict == "" {
+		o.sysdict = "ipa"
+	}
 	return nil
 }
 
-- 
2.43.0


From 494364f7e3184b25af8d1a0a568ee46af345a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:01 +0000
Subject: [PATCH 11/16] fix: quote the error message of the API's error answers

A message with quotation marks made the answer malformed JSON.
---
 cmd/server/api.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cmd/server/api.go b/cmd/server/api.go
index 50cce3a..a957367 100644
--- a/cmd/server/api.go
+++ b/cmd/server/api.go
@@ -2,7 +2,6 @@ package server
 
 import (
 	"encoding/json"
-	"fmt"
 	"net/http"
 
 	"github.com/ikawaha/kagome/v2/tokenizer"
@@ -25,11 +24,22 @@ type TokenizerResponseBody struct {
 	Tokens []tokenizer.TokenData `json:"tokens"`
 }
 
+// tokenizerErrorBody is the error response type of the "tokenize" endpoint.
+type tokenizerErrorBody struct {
+	Status bool   `json:"status"`
+	Error  string `json:"error"`
+}
+
+func writeError(w http.ResponseWriter, err error, code int) {
+	b, _ := json.Marshal(tokenizerErrorBody{Error: err.Error()}) // never fails
+	http.Error(w, string(b), code)
+}
+
 func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("Content-Type", "application/json")
 	var req TokenizerRequestBody
 	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusBadRequest)
+		writeError(w, err, http.StatusBadRequest)
 		return
 	}
 	if req.Input == "" {
@@ -56,7 +66,7 @@ func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		Tokens: tokenData,
 	})
 	if err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusInternalServerError)
+		writeError(w, err, http.StatusInternalServerError)
 		return
 	}
 	w.WriteHeader(http.StatusOK)
-- 
2.43.0


From f36ce2923e7b2a788d389f52111d4f92f50a97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:01 +0000
Subject: [PATCH 12/16] fix: the demo page no longer waits forever for the
 graph renderer

If the renderer did not read the whole graph, the pipe to it was never
drained and the request never answered.
---
 cmd/server/demo.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/cmd/server/demo.go b/cmd/server/demo.go
index d022d74..87db884 100644
--- a/cmd/server/demo.go
+++ b/cmd/server/demo.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 	"html/template"
-	"io"
 	"net/http"
 	"os/exec"
 	"strings"
@@ -85,20 +84,13 @@ func (h *TokenizeDemoHandler) analyzeGraph(ctx context.Context, sen string, mode
 	}
 	ctx, cancel := context.WithTimeout(ctx, cmdTimeout)
 	defer cancel()
-	var b bytes.Buffer
+	var graph, b bytes.Buffer
+	tokens := h.tokenizer.AnalyzeGraph(&graph, sen, mode)
 	cmd := exec.CommandContext(ctx, graphvizCmd, "-Tsvg")
-	r0, w0 := io.Pipe()
-	cmd.Stdin = r0
+	cmd.Stdin = &graph
 	cmd.Stdout = &b
 	cmd.Stderr = Stderr
-	if err := cmd.Start(); err != nil {
-		return nil, "", fmt.Errorf("process done with error, %w", err)
-	}
-	tokens := h.tokenizer.AnalyzeGraph(w0, sen, mode)
-	if err := w0.Close(); err != nil {
-		return nil, "", fmt.Errorf("pipe close error, %w", err)
-	}
-	if err := cmd.Wait(); err != nil {
+	if err := cmd.Run(); err != nil {
 		return nil, "", fmt.Errorf("process done with error, %w", err)
 	}
 	svg = b.String()
-- 
2.43.0


From bcd6af706cb98afb369b72b12edc778c62f2f264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:01 +0000
Subject: [PATCH 13/16] fix: shut the server down when the context ends

The listener and the goroutines for it and for signals were left behind.
---
 cmd/server/cmd.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/cmd/server/cmd.go b/cmd/server/cmd.go
index 7455924..2916e60 100644
--- a/cmd/server/cmd.go
+++ b/cmd/server/cmd.go
@@ -28,6 +28,9 @@ var (
 	usageMessage = "%s [-http=:6060] [-userdict userdic_file] [-dict (ipa|uni)]"
 )
 
+// shutdownTimeout is the time the requests in progress get on shutdown.
+const shutdownTimeout = 5 * time.Second
+
 // options
 type option struct {
 	http    string
@@ -113,7 +116,7 @@ func command(ctx context.Context, opt *option) error {
 		Handler:           mux,
 		ReadHeaderTimeout: 20 * time.Second,
 	}
-	ch := make(chan error)
+	ch := make(chan error, 1)
 	go func() {
 		log.Println(opt.http)
 		ch <- srv.ListenAndServe()
@@ -126,7 +129,12 @@ func command(ctx context.Context, opt *option) error {
 		return fmt.Errorf("server error, %w", err)
 	}
 	log.Printf("shutting down HTTP server at %q", opt.http)
-
+	ctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+	if err := srv.Shutdown(ctx); err != nil {
+		log.Printf("shutdown error, %v", err)
+		srv.Close()
+	}
 	return nil
 }
 
@@ -138,14 +146,8 @@ func Run(ctx context.Context, args []string) error {
 		PrintDefaults(flag.ContinueOnError)
 		return fmt.Errorf("option parse error: %w", err)
 	}
-	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
-	go func() {
-		c := make(chan os.Signal, 1)
-		signal.Notify(c, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
-		<-c
-		cancel()
-	}()
+	ctx, stop := signal.NotifyContext(ctx, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
+	defer stop()
 	return command(ctx, opt)
 }
 
-- 
2.43.0


From d615b113547ec5a7405a606ce21f00f79faf504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 14/16] fix: the demo form shows the mode that was chosen

---
 cmd/server/asset/demo.html | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index 7d7ce44..8484e6e 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -93,8 +93,8 @@
               placeholder="Enter Japanese text below.">{{.Sentence}}</textarea>
       <div id="rbox">
         <div><label><input type="radio" name="r" value="Normal" checked>Normal</label></div>
-        <div><label><input type="radio" name="r" value="Search" {{if eq .RadioOpt "search"}}checked{{end}}>Search</label></div>
-        <div><label><input type="radio" name="r" value="Extended" {{if eq .RadioOpt "extended"}}checked{{end}}>Extended</label></div>
+        <div><label><input type="radio" name="r" value="Search" {{if eq .RadioOpt "Search"}}checked{{end}}>Search</label></div>
+        <div><label><input type="radio" name="r" value="Extended" {{if eq .RadioOpt "Extended"}}checked{{end}}>Extended</label></div>
       </div>
       <p><input class="btn" type="submit" name="lattice" value="Lattice"/></p>
     </div>
-- 
2.43.0


From b05b32c316de8776d0d3e9f77b1646c0cb53469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 15/16] fix: the demo page asks the API again when the mode
 changes

---
 cmd/server/asset/demo.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index 8484e6e..d4c2dd5 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -147,7 +147,7 @@
         var s = document.getElementById("inp").value;
         var m = $('input[name="r"]').filter(':checked').val();
         var o = {"sentence" : s, "mode" : m};
-        $.post('./a', JSON.stringify(o), cb, 'json');
+        $.post('./tokenize', JSON.stringify(o), cb, 'json');
     })
 </script>
 
-- 
2.43.0


From 1f446c163e09f19e1e306de244486e9369cd476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:34 +0000
Subject: [PATCH 16/16] fix: lattice reports output it cannot write

---
 cmd/lattice/cmd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/lattice/cmd.go b/cmd/lattice/cmd.go
index efe2a6b..f9844a8 100644
--- a/cmd/lattice/cmd.go
+++ b/cmd/lattice/cmd.go
@@ -1,6 +1,7 @@
 package lattice
 
 import (
+	"bufio"
 	"context"
 	"errors"
 	"flag"
@@ -135,7 +136,11 @@ func command(_ context.Context, opt *option) error {
 	}
 
 	mode := selectMode(opt.mode)
-	tokens := t.AnalyzeGraph(out, opt.input, mode)
+	w := bufio.NewWriter(out)
+	tokens := t.AnalyzeGraph(w, opt.input, mode)
+	if err := w.Flush(); err != nil {
+		return err
+	}
 	if opt.verbose {
 		for i, size := 1, len(tokens); i < size; i++ {
 			tok := tokens[i]
-- 
2.43.0

