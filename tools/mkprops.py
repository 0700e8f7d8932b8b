import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
TZ="tokenizer/tokenizer.go";TK="tokenizer/token.go";LA="tokenizer/lattice/lattice.go";ND="tokenizer/lattice/node.go";PO="tokenizer/lattice/mem/pool.go"
p("C01","Tokens tile the input text exactly, for any bytes and every mode",
 "For every input byte string (valid UTF-8 or not), every well-formed dictionary and every tokenize mode, analysis returns without panicking and the tokens between BOS and EOS tile the input: the surface of each token is exactly the input bytes found at its byte position. The first token starts at 0, each token starts (byte position and rune start) where the previous one ends, its End is Start plus its rune count, and the last one ends at the end of the input.",
 ["inputs","configurations"],"every byte string, dictionary (entries, character categories, invoke/group flags), user dictionary and mode",
 "The tests tokenize a few fixed sentences; most need testdata/ipa.dict, which is missing. Invalid UTF-8, U+FFFD, category edges and their combination with modes are never compared with the input text.",
 [TZ,LA],[("Lattice.Build candidate spans",LA),("Lattice.Backward extended-mode split",LA),("Analyze token offsets",TZ)],
 observe=["Tokenizer.Analyze"])
p("C02","The segmentation returned has minimum total cost",
 "For every input, dictionary and mode, no other segmentation built from the candidate words of the input is cheaper than the one returned, where cost is the sum of word costs and of the connection costs between neighbouring words, BOS and EOS included (connections to or from a user-dictionary word cost 0, as do user words). In Search and Extended mode each word also costs 3000 for every character beyond 2 if it consists of ideographs only and has more than 2 of them, and otherwise 1700 for every character beyond 7.",
 ["inputs","configurations"],"every assignment of word and connection costs, every lattice shape within the bound, every mode",
 "Optimality compares the answer with every alternative path under arbitrary costs; the tests compare a few sentences with one fixed dictionary.",
 [LA],[("Lattice.Forward relaxation",LA),("additionalCost / kanjiOnly penalties",LA),("Lattice.Backward follows prev links",LA)],
 state=[("Node.Cost, Node.prev","best cost of a path ending in the node and its predecessor",ND)],observe=["Tokenizer.Analyze"])
p("C03","Candidate words at each position are exactly those the dictionaries define",
 "At every character of the input: if entries of the user dictionary match there, exactly those are candidates; otherwise every matching system entry (all homographs) is, and unknown-word candidates are added if nothing matched or the character's category is flagged 'invoke'. Unknown-word candidates are the single character or, if the category is flagged 'group', the longest run of characters of that same category starting there (at most 1024 characters in all) and that run without its last character, once for every unknown-word entry of the category.",
 ["inputs","configurations"],"every input, user dictionary, system dictionary and char.def flags (invoke, group, number of unknown entries per category)",
 "Tests count the candidates of two fixed words of the IPA dictionary; flags, category changes, invalid bytes, run-length limits and user-dictionary overlaps are not varied.",
 [LA],[("Lattice.Build",LA),("maximumUnknownWordLength",LA)],observe=["Tokenizer.Analyze","Lattice.Dot"])
p("C04","A token's class and ID name the dictionary entry its surface comes from",
 "For every input, dictionary and mode: a KNOWN token's ID is an entry of the system dictionary whose headword equals the token's surface, a USER token's ID is the user-dictionary entry with that headword, and an UNKNOWN token's ID is one of the unknown-word entries of the category of its first character. DUMMY tokens are only BOS, EOS (ID -1) and the single characters that Extended mode makes of unknown words.",
 ["inputs","configurations"],"every input, dictionary with homographs, user dictionary and mode",
 "The features, readings and parts of speech shown to users are looked up by class and ID; tests check a handful of IDs of one dictionary.",
 [LA,TZ],[("addNode id/class bookkeeping",LA),("Analyze copies ID and Class",TZ)],observe=["Tokenizer.Analyze"])
p("C05","Extended mode is Search mode with unknown words cut into characters",
 "For every input and dictionary, the Extended-mode result is the Search-mode result in which each unknown word is replaced by one token per character, in order, with the right byte position, rune offsets and surface, and everything else unchanged. In Normal and Search mode unknown words are never cut.",
 ["inputs","configurations"],"every input (any bytes), dictionary and user dictionary",
 "One README example; multi-byte, invalid and mixed known/unknown inputs are never related to the Search result.",
 [LA,TZ],[("Lattice.Backward",LA),("mode mapping in Analyze",TZ)],observe=["Tokenizer.Analyze"])
p("C06","BOS/EOS framing, token indexes and the Tokenize/Wakati views agree",
 "For every input and mode the result is framed by one BOS and one EOS token with ID -1 (at the start and the end of the text) and Index counts tokens from 0; with the omit-BOS/EOS option exactly these two are missing and the indexes count the rest from 0. Tokenize equals Analyze in Normal mode and Wakati returns exactly the surfaces of its tokens, in order.",
 ["inputs","configurations"],"every input, mode and option combination",
 "Tests check a few fixed sentences, and only where the missing ipa.dict can be loaded.",
 [TZ,"tokenizer/tokenizer_option.go"],[("Analyze",TZ),("Wakati",TZ),("OmitBosEos",'tokenizer/tokenizer_option.go')],observe=["Tokenizer.Analyze","Tokenizer.Tokenize","Tokenizer.Wakati"])
p("C07","Results do not depend on earlier analyses",
 "The tokens and the graph for an input depend only on the tokenizer, the input and the mode: whatever was analysed before (other inputs, longer or shorter, other modes, other tokenizers with other dictionaries or user dictionaries) and whatever recycled memory the analysis is given, the result is the same as in a fresh process. Tokens already returned never change because of later analyses.",
 ["histories","inputs"],"every history of Analyze/AnalyzeGraph calls on any tokenizers of the process before a call",
 "Recycled lattices and nodes come from pools whose contents depend on the whole history; tests call with a cold pool or repeat the same call.",
 [LA,ND,PO,TZ],[("Lattice.Free / New reset",LA),("addNode re-initialises pooled nodes",LA),("mem.Pool",PO)],
 state=[("latticePool, nodePool","recycled lattices and nodes",LA)],observe=["Tokenizer.Analyze","Tokenizer.AnalyzeGraph"])
p("C08","A tokenizer can be used by many goroutines at once",
 "Concurrent calls on one tokenizer (or on several that share dictionaries) are free of data races and each returns what it would return alone: an analysis writes only to memory it owns, never to the tokenizer, the dictionaries or other shared state, releases recycled memory at most once and never touches it after releasing it. The same holds for the token accessors, filters and the HTTP API handler.",
 ["schedules","inputs"],"every interleaving of any number of concurrent calls, every input",
 "No test runs concurrent analyses; a race needs a particular interleaving to show.",
 [LA,ND,PO,TZ,"filter/feature.go","cmd/server/api.go"],[("per-call lattice from pool, freed once",TZ),("nodes returned to the pool only in Free",LA)],
 state=[("latticePool, nodePool","shared pools",LA)],observe=["Tokenizer.Analyze"])
p("C09","The feature accessors of a token agree with each other",
 "For every token: FeatureAt(i) is the i-th element of Features() for every index in range and reports absence for every other index (negative included); POS() is the part-of-speech part of the features of a known or unknown word and the part of speech of a user word. Base form, reading, pronunciation, inflectional type and form are the feature at the column the dictionary declares and absent when it declares none or the token has no such column; user words have their user-dictionary segmentation and readings, others none; BOS/EOS have no features.",
 ["inputs","configurations"],"every token class, ID, index and dictionary layout (contents, shrunk dictionaries, missing columns)",
 "Tests check fixed tokens of the IPA dictionary; shrunk dictionaries, other column layouts and out-of-range indexes are hardly visited.",
 [TK],[("Features, FeatureAt, POS",TK),("pickupFromFeatures",TK),("UserExtra",TK)],observe=["Token.Features","Token.FeatureAt","Token.POS","Token.BaseForm","Token.Reading","Token.Pronunciation","Token.UserExtra"])
p("C10","Token data handed out is a faithful, independent copy",
 "Slices returned by the token accessors can be modified by the caller without changing the dictionaries or any later answer. The JSON view of a token mirrors it: same id, start, end, surface and class name, POS and features equal to the accessors' answers and never null, base form, reading and pronunciation equal to the accessors' answers or empty.",
 ["inputs","histories"],"every token, every sequence of accessor calls interleaved with modifications of the returned slices",
 "No test modifies a returned slice and asks again.",
 [TK],[("defensive copies in Features/POS/UserExtra",TK),("NewTokenData",TK)],observe=["Token.Features","Token.POS","Token.UserExtra","NewTokenData"])
p("C11","The lattice graph is well-formed DOT and shows the analysis",
 "For every input, dictionary and mode the exported graph is one syntactically well-formed DOT graph whatever characters the text or the dictionary contain; every edge connects two declared nodes, each declared once, and the words of the returned analysis (in Extended mode the unknown words before they are cut) are all declared, linked and marked as the best path, and no others are marked. The tokens returned along with the graph are the same as those of a plain analysis in the same mode, with the same options.",
 ["inputs","configurations"],"every input (quotes, backslashes, any bytes), dictionary and mode",
 "Tests only check that the output is not empty.",
 [LA,TZ,"cmd/lattice/cmd.go"],[("Lattice.Dot",LA),("AnalyzeGraph",TZ)],observe=["Tokenizer.AnalyzeGraph","Tokenizer.Dot"])
p("C12","Keep and Drop split a token list without losing, changing or reordering tokens",
 "For every token list and filter (match function, part-of-speech filter or word filter), Keep leaves exactly the tokens that match and Drop exactly those that do not, each in the original order and unchanged; every token is in exactly one of the two results. Both work on the caller's list in place and accept a nil list.",
 ["inputs"],"every list length and every combination of match outcomes",
 "Tests use a few fixed sentences and mostly cannot run (ipa.dict is missing).",
 ["filter/filter.go","filter/pos.go","filter/word.go"],[("applyFilter","filter/filter.go"),("POSFilter.apply","filter/pos.go"),("WordFilter.apply","filter/word.go")],observe=["filter.Keep","filter.Drop"])
p("C13","A features filter matches exactly when one of its patterns matches",
 "For every set of non-empty patterns, given in any order, and every feature vector: the filter matches if and only if some pattern is no longer than the vector and agrees with it position by position, where the wildcard agrees with anything. The part-of-speech filter behaves the same on a token's parts of speech.",
 ["inputs","configurations"],"every list of patterns (order, duplicates, prefixes, wildcards) and every feature vector",
 "The pattern set is merged into a tree whose shape depends on insertion order; tests use one set in one order.",
 ["filter/feature.go","filter/pos.go"],[("FeaturesFilter.add","filter/feature.go"),("FeaturesFilter.Match","filter/feature.go")],state=[("filterNode.fanout","pattern tree","filter/feature.go")],observe=["FeaturesFilter.Match","POSFilter.Match"])
p("C14","Word and Japanese filters keep exactly the words their settings say",
 "A word filter matches exactly the words it was given. The Japanese filter yields, in order, one word for each token that is neither stop-tagged nor a stop word: the base form for tokens of the base-form parts of speech (nothing if there is none) and the surface otherwise; its Drop removes exactly the stop-tagged tokens and stop words; options replace the corresponding default setting only.",
 ["inputs","configurations"],"every token sequence, stop tags, stop words and base-form setting",
 "The only test needs the missing ipa.dict and uses one sentence with the default settings.",
 ["filter/word.go","filter/ja/filter.go","filter/ja/loader.go"],[("WordFilter.Match","filter/word.go"),("Filter.Yield, Filter.Drop","filter/ja/filter.go")],observe=["ja.Filter.Yield","ja.Filter.Drop","WordFilter.Match"])
p("C15","The sentence splitter loses, adds and reorders no text",
 "For every text (any bytes) and every splitter setting, the sentences concatenated are the text itself, or, when white space is skipped, the text without its white space. No sentence is empty, and scanning always reaches the end of the text.",
 ["inputs","configurations"],"every text and every combination of delimiters, followers, white-space, line-feed and length settings",
 "The splitter moves bytes inside the scanner's buffer; tests cover about thirty fixed texts.",
 ["filter/sentence_splitter.go"],[("SentenceSplitter.ScanSentences","filter/sentence_splitter.go")],observe=["filter.ScanSentences","SentenceSplitter.ScanSentences"])
p("C16","Sentences end exactly at the configured boundaries",
 "For every text and setting a sentence ends exactly after (a) a delimiter, or the character that makes it MaxRuneLen characters long, together with all delimiters and followers that come next (skipped white space ignored), (b) two consecutive line feeds if double-line-feed splitting is on, (c) a white-space delimiter when white space is skipped, or (d) the end of the text, and nowhere else. A single line feed never ends a sentence, however many there are.",
 ["inputs","configurations"],"every text and setting",
 "Combinations of line feeds, white space, followers and length limits are not enumerated by the fixed examples.",
 ["filter/sentence_splitter.go"],[("SentenceSplitter.ScanSentences","filter/sentence_splitter.go")],observe=["filter.ScanSentences","SentenceSplitter.ScanSentences"])
p("C17","Sentence splitting does not depend on how the text is read",
 "For every text, the sentences a scanner delivers are the same however the underlying reader cuts the text into reads, including cuts inside a character, between two line feeds, in white space or together with the end-of-file report.",
 ["inputs","schedules"],"every text and every way of cutting it into reads",
 "All tests read the text in one piece; real files are read in 4096-byte blocks and pipes in arbitrary ones.",
 ["filter/sentence_splitter.go","cmd/sentence/cmd.go"],[("request-more-data path of ScanSentences","filter/sentence_splitter.go")],observe=["bufio.Scanner with filter.ScanSentences"])
p("C18","The tokenize command prints every token of every line",
 "For every input text and mode the command prints, line by line (or sentence by sentence with -split), exactly the tokens of the analysis in order, without BOS and EOS: in text form one line per token (surface, and for dictionary and unknown words a tab and the comma-joined features) closed by an EOS line, in JSON form one array with one object per token.",
 ["inputs","configurations"],"every input text, mode and output option",
 "Tests print one sentence per format and need the missing ipa.dict.",
 ["cmd/tokenize/cmd.go","tokenizer/token.go"],[("printTokens","cmd/tokenize/cmd.go"),("printTokensJSON","cmd/tokenize/cmd.go"),("command","cmd/tokenize/cmd.go")],observe=["tokenize.Run"])
p("C19","Command options are validated and mean what they say",
 "For every value of the mode and dictionary options, each subcommand accepts exactly the documented names (or the empty string) and rejects everything else, as it rejects stray arguments where none are allowed; the option check and the run agree. The accepted mode name selects the tokenize mode of that name.",
 ["inputs","configurations"],"every option value",
 "Tests try one bad value per option.",
 ["cmd/tokenize/cmd.go","cmd/lattice/cmd.go","cmd/server/cmd.go","cmd/sentence/cmd.go"],[("option.parse","cmd/*/cmd.go"),("selectMode","cmd/tokenize/cmd.go")],observe=["OptionCheck","Run"])
p("C20","The HTTP API answers every request with the analysis of its sentence",
 "For every request body that decodes, the API answers 200 with status true and, in order, the JSON data of exactly the tokens (BOS and EOS left out) of analysing the sentence in the requested mode (Search, Extended, otherwise Normal); for the empty sentence the list is empty. For every body that does not decode it answers 400 with status false, and every answer body is well-formed JSON.",
 ["inputs"],"every request body, sentence and mode",
 "Tests send a few fixed requests.",
 ["cmd/server/api.go"],[("TokenizeHandler.ServeHTTP","cmd/server/api.go")],observe=["POST /tokenize"])
p("C21","The demo page always answers, even if the graph renderer fails",
 "Every request to the demo page gets a response within the renderer's time limit: if the external graph renderer is missing, fails, stops reading early or takes too long, the page is answered with an error text and no goroutine or process is left behind.",
 ["inputs","fault_sequences","schedules"],"every input and every way the external process can fail",
 "Tests only run the renderer to success.",
 ["cmd/server/demo.go"],[("TokenizeDemoHandler.analyzeGraph","cmd/server/demo.go")],observe=["GET /"])
p("C22","The server shuts down cleanly on signals and context cancellation",
 "Whenever the context is cancelled or a termination signal arrives, the server command returns without error and without leaving a goroutine blocked; if the listener fails, it returns that error.",
 ["schedules","fault_sequences"],"every interleaving of listener failure, cancellation and signals",
 "Tests cancel once, after 100 ms.",
 ["cmd/server/cmd.go"],[("command select","cmd/server/cmd.go")],observe=["server.Run"])
p("C23","Tokens compare equal exactly when they are the same word",
 "For every two tokens: Equal holds exactly when ID, class and surface are equal, wherever the tokens stand in their texts; EqualFeatures and EqualPOS hold exactly when Features() (POS()) of the two are equal as lists, element by element (nil and empty lists are equal); tokenizer.EqualFeatures holds exactly for equal lists. All of them are symmetric.",
 ["inputs","configurations"],"every pair of tokens of any class and dictionary, every pair of feature lists",
 "Tests compare a few fixed tokens and lists.",
 [TK],[("Equal, EqualPOS, EqualFeatures",TK)],observe=["Token.Equal","Token.EqualPOS","Token.EqualFeatures","tokenizer.EqualFeatures"])
p("C24","The sentence command prints every sentence of its input on a line",
 "For every input (from standard input or a file) the sentence command prints exactly the sentences of the splitter with its default settings, in order, each followed by a line feed, and nothing else; apart from white space the output is the input.",
 ["inputs"],"every input text, from a file or from standard input",
 "Tests print one text.",
 ["cmd/sentence/cmd.go","filter/sentence_splitter.go"],[("command","cmd/sentence/cmd.go")],observe=["sentence.Run"])
p("C25","The kagome program runs the subcommand its first argument names",
 "For every argument list: if the first argument names a subcommand (tokenize, lattice, sentence, server, version), exactly that subcommand runs with the arguments that follow; otherwise tokenize runs with all arguments if it accepts them, and the usage is shown and nothing runs if it does not. Standard output is exactly what the subcommand writes, the exit status is 0 exactly when it succeeds, and its error is shown.",
 ["inputs","configurations"],"every argument list and every standard input",
 "kagome_test.go hardly visits it; argument lists are not varied.",
 ["kagome.go","cmd/tokenize/cmd.go"],[("main","kagome.go")],observe=["kagome program"])
p("C26","The lattice command exports the graph of its arguments",
 "For every argument list of the lattice command, the graph written to standard output or to the output file named (whose earlier contents are replaced completely), and nothing else, is the lattice graph of the arguments joined by spaces, analysed in the mode and with the dictionaries the options name; with -v the tokens of the analysis are listed on standard error as the tokenize command would print them, and without it nothing is.",
 ["inputs","configurations"],"every text, mode, dictionary and output option",
 "Tests run one sentence and need the missing ipa.dict.",
 ["cmd/lattice/cmd.go"],[("command","cmd/lattice/cmd.go")],observe=["lattice.Run"])
p("C27","A command that cannot read all of its input fails",
 "Whenever a file, dictionary or standard input that a command is to read is missing, is no regular file, is malformed or cannot be read to the end (a read error, or a line or sentence longer than the scanner takes), or the output file cannot be written, the command returns an error; what it has printed until then is exactly what it prints for the part that it could read, and nothing if it could not start.",
 ["inputs","fault_sequences"],"every command, input source and point of failure",
 "Tests have no failing reader; an input that is cut short silently looks like a success.",
 ["cmd/tokenize/cmd.go","cmd/sentence/cmd.go","cmd/lattice/cmd.go"],[("command","cmd/tokenize/cmd.go"),("command","cmd/sentence/cmd.go"),("command","cmd/lattice/cmd.go")],observe=["tokenize.Run","sentence.Run","lattice.Run"])
p("C28","A tokenizer is made exactly as its options say",
 "For every dictionary and sequence of options (none, a user dictionary, a missing user dictionary, leaving BOS and EOS out, an option that fails): tokenizer.New returns an error, and no tokenizer, exactly if the dictionary is missing or an option fails (the error of the first that does); otherwise the tokenizer analyses every text as one with the last user dictionary given, leaving BOS and EOS out exactly if an option says so. Options can be used again, and tokenizers made with the same options do not affect each other.",
 ["inputs","configurations","operation_histories"],"every sequence of options, text and mode",
 "Tests try single options.",
 ["tokenizer/tokenizer.go","tokenizer/tokenizer_option.go"],[("New",TZ),("Option","tokenizer/tokenizer_option.go")],observe=["tokenizer.New","Tokenizer.Analyze"])
p("C29","The demo page shows the sentence and its tokens as they are",
 "For every sentence and mode: without the lattice request the demo page is the form with the sentence in its text area and the option of the mode chosen (Search, Extended, otherwise Normal). With it, and a renderer that works, the page has one row per token (BOS and EOS left out) of the analysis in Normal mode, or in Search mode if Search or Extended is asked for, in order, with its surface, its parts of speech joined by commas, base form, reading and pronunciation, or * where it has none, and the graphic from its svg element on. Whatever text comes from the request or the dictionary is shown as text and never becomes mark-up of the page.",
 ["inputs"],"every sentence, mode and token",
 "Tests fetch the page for one word and look at the status only.",
 ["cmd/server/demo.go","cmd/server/asset/demo.html","cmd/server/asset/graph.html"],[("ServeHTTP","cmd/server/demo.go"),("newRecord, toRecords","cmd/server/demo.go"),("templates","cmd/server/asset")],observe=["GET /"])
p("C30","The server answers at its paths with the dictionaries its options name",
 "For every combination of the server's options: if the user dictionary named cannot be read, the server returns an error and never listens; otherwise it serves the analysis API at /tokenize and the demo page at every other path (by GET with a query or by POST with a form), the script of the page asks the API where it is, and all of them analyse with exactly the system dictionary and user dictionary the options name.",
 ["inputs","configurations"],"every option combination, path, method and sentence",
 "Tests of the command end it before it answers a request.",
 ["cmd/server/cmd.go","cmd/server/api.go","cmd/server/demo.go"],[("command","cmd/server/cmd.go")],observe=["server.Run","POST /tokenize","GET /","POST /"])
p("C31","A command that cannot write all of its output fails",
 "Whenever standard output, or the output file of the lattice command, takes only a part of what the tokenize, sentence or lattice command prints, the command returns an error instead of success, and the part written is the beginning of what it prints when nothing fails.",
 ["inputs","fault_sequences"],"every command, input and point at which writing fails",
 "Tests write to buffers; a full disk looks like a success.",
 ["cmd/tokenize/cmd.go","cmd/sentence/cmd.go","cmd/lattice/cmd.go"],[("printTokens, printTokensJSON","cmd/tokenize/cmd.go"),("command","cmd/sentence/cmd.go"),("command","cmd/lattice/cmd.go")],observe=["tokenize.Run","sentence.Run","lattice.Run"])
p("C32","Leaving the contents out of a dictionary changes no segmentation",
 "For every dictionary, input text and mode, analysing with the dictionary without its contents (as the -sysdict and -simple forms of the command load it) gives exactly the tokens of the full one: the same words, classes, places and parts of speech, and the same graph. The features of a dictionary word are then its parts of speech alone, its base form, reading and pronunciation are reported as absent (or found among the parts of speech), and nothing panics; words of the user dictionary and unknown words keep all of their features.",
 ["inputs","configurations"],"every text, mode, dictionary and cost",
 "The tests never compare the two; the one with a shrunk dictionary needs the missing ipa.dict.",
 [TK,TZ,LA],[("Features, POS, FeatureAt",TK),("BaseForm, Reading, Pronunciation",TK)],observe=["Tokenizer.Analyze","Token.Features","Tokenizer.AnalyzeGraph"])
p("C33","Every mode value has a meaning: any other than Search and Extended is Normal",
 "For every mode value (any integer), Analyze and AnalyzeGraph return without panicking; for every value that is neither Search nor Extended they return exactly the tokens (and the graph) of Normal mode, with and without BOS and EOS.",
 ["inputs","configurations"],"every 64-bit mode value and text",
 "Tests use the three constants.",
 [TZ,LA],[("Analyze mode switch",TZ),("Forward, Backward mode tests",LA)],observe=["Tokenizer.Analyze","Tokenizer.AnalyzeGraph"])
p("C34","Filters and splitters keep their settings",
 "The verdict of a features, part-of-speech, word or Japanese filter depends on the settings it was made with and on what it is asked, and on nothing else: it is not changed by later changes to the lists it was made of, nor by what it was asked before, and asking never changes what it is asked about. The sentence splitter, its default included, cuts a text as it does when nothing was split before, and splitting does not change its settings.",
 ["inputs","histories"],"every setting, later change, history of up to two questions and question",
 "Tests make a filter, ask it once, and throw it away.",
 ["filter/feature.go","filter/pos.go","filter/word.go","filter/ja/filter.go","filter/sentence_splitter.go"],[("NewFeaturesFilter, add",  "filter/feature.go"),("NewWordFilter","filter/word.go"),("NewFilter and its options","filter/ja/filter.go"),("ScanSentences","filter/sentence_splitter.go")],observe=["FeaturesFilter.Match","WordFilter.Match","ja.Filter.Yield","ja.Filter.Drop","SentenceSplitter.ScanSentences"])
p("C35","Commands close the files they open",
 "Whenever the tokenize, sentence or lattice command returns, whether it succeeds or fails (a file missing, a directory, a malformed dictionary, a line too long, an output that cannot be written), every file it opened is closed.",
 ["inputs","fault_sequences"],"every combination of options, inputs and failures",
 "Tests end with the process, which closes everything.",
 ["cmd/tokenize/cmd.go","cmd/sentence/cmd.go","cmd/lattice/cmd.go"],[("command","cmd/tokenize/cmd.go"),("command","cmd/sentence/cmd.go"),("command","cmd/lattice/cmd.go")],observe=["tokenize.Run","sentence.Run","lattice.Run"])
p("C36","A command that rejects its arguments shows how it is used and does nothing else",
 "For every argument list a subcommand rejects (unknown option, missing or wrong value, stray or missing arguments, a request for help), its Run returns an error, writes its usage with the name of the command and every option it has to standard error, writes nothing to standard output, and neither creates nor changes a file, the output file named included.",
 ["inputs","configurations"],"every rejected argument list of the kinds named, every wrong option name and value within the bounds",
 "Tests look at the error only.",
 ["cmd/tokenize/cmd.go","cmd/sentence/cmd.go","cmd/lattice/cmd.go","cmd/server/cmd.go"],[("Run, PrintDefaults, Usage","cmd/*/cmd.go"),("option.parse","cmd/*/cmd.go")],observe=["tokenize.Run","sentence.Run","lattice.Run","server.Run"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
