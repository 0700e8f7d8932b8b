S15 = [st("split.C15", n=5, reach=["split"], budget=80),
       st("split.C15", n=4, skip=0, dlf=2, reach=["split"], budget=40),
       st("split.C15", n=4, set=5, dlf=2, budget=40),
       st("split.C15", n=6, ascii=1, set=2, dlf=2, maxlen=3, reach=["split"], budget=40),
       st("split.C15", n=6, ascii=1, set=3, dlf=2, skip=0, reach=["split"], budget=40),
       st("split.C15", n=4, set=6, budget=40),
       st("split.C15", n=4, set=7, pre=126, reach=["split"], budget=60),
       st("split.C15", n=3, set=0, maxlen=70, pre=68, budget=40), st("split.C15", n=3, set=7, pre=1000, every=99, budget=40), st("split.C15", n=3, set=7, pre=110, wide=1, budget=40)]
S16 = [dict(s, harness="split.C16") for s in S15]
check("C15", S15 + [st("split.C15", n=3, set=7, pre=4094, budget=40), st("split.C15", n=3, set=7, pre=4094, every=100, budget=40)], [st("split.C15", n=n, skip=sk, dlf=d, set=s, maxlen=m, budget=400)
       for (n, sk, d, s, m) in [(6,1,1,0,128),(6,0,2,0,128),(5,1,2,5,2),(5,0,2,5,128),(5,1,2,6,3),(5,1,2,4,2)]] +
       [st("split.C15", n=8, ascii=1, skip=sk, dlf=2, set=s, maxlen=m, budget=400) for (sk, s, m) in [(1,2,3),(1,1,128),(0,3,2),(1,4,2)]],
      "texts of up to 5 arbitrary bytes, also after 68, 110 (three bytes each), 126 or 1000 others (C15: 4094, the size of the scanner's buffer less 2) (6 in the thorough tier; 6 and 8 for ASCII texts), delivered in one read; white space skipped or kept, double line feed splitting on or off, MaxRuneLen 2, 3 or 128, delimiter sets: Japanese+ASCII, ASCII, white space, line feed, empty, 2/4-byte characters and U+FFFD.",
      "longer texts, other delimiter sets.")
check("C16", S16, [dict(s, harness="split.C16") for s in C["C15"]["thorough"]], C["C15"]["bounds"], C["C15"]["outside"])
check("C17", [st("split.C17", n=4, budget=90), st("split.C17", n=3, set=5, dlf=2), st("split.C17", n=3, set=6),
              st("split.C17", n=5, ascii=1, set=1, budget=60), st("split.C17", n=5, ascii=1, set=2, maxlen=2),
              st("split.C17", n=4, ascii=1, set=1, skip=0, dlf=2, maxlen=2), st("split.C17", n=3, skip=0), st("split.C17", n=3, set=7), st("split.C17", n=2, set=7, pre=126, budget=40)],
             [st("split.C17", n=5, budget=700), st("split.C17", n=4, skip=0, dlf=2, budget=200), st("split.C17", n=4, set=5, dlf=2, maxlen=2, budget=200), st("split.C17", n=4, set=6, budget=200),
              st("split.C17", n=6, ascii=1, set=1, budget=300), st("split.C17", n=6, ascii=1, set=2, maxlen=2, budget=300), st("split.C17", n=6, ascii=1, set=3, skip=0, dlf=2, budget=300)],
      "texts of up to 4 arbitrary bytes (5 thorough; 5 and 6 for ASCII), or 2 after 126 others, every way of cutting them into reads, the end of file reported with or after the last data; settings as for C15.",
      "longer texts; a delimiter at the very end of a read (known finding, listed).")

WORLD = "dictionaries: a small system dictionary (15 entries with homographs, common prefixes, a prefix chain, ASCII and 3-byte headwords; 6 character categories with all combinations of grouping and invoking; 10 unknown-word entries) with or without a 4-entry user dictionary. "
WOUT = "longer texts (the Japanese system dictionaries are out of reach for their size), other headword sets."
check("C01", [st("tok.C01", n=3, reach=["several"], budget=60), st("tok.C01", n=2, shape=1, grp=1, user=2, budget=40), st("tok.C01", n=3, shape=1, budget=150),
              st("tok.C01", n=3, shape=2, user=0, reach=["several"], budget=60), st("tok.C01", n=3, shape=2, grp=1, budget=60), st("tok.C01", n=6, shape=3, user=2, reach=["several"], budget=40), st("tok.C01", n=4, shape=4, budget=60),
              st("tok.C01", n=2, shape=2, wsym=3, budget=60), st("tok.C01", n=2, rep=1023, repw=6, shape=6, mode=1, user=0, steps=3000, budget=60), st("tok.C01", n=2, rep=40, repw=0, shape=3, user=2, budget=40), st("tok.C01", n=1, rep=130, repw=3, shape=2, budget=40), st("tok.C01", n=2, rep=7, repw=7, shape=3, long=1, user=2, budget=40), st("tok.C01", n=2, prior=1, budget=40), st("tok.C01", n=2, shape=2, prior=1, budget=40)],
             [st("tok.C01", n=4, budget=600), st("tok.C01", n=3, shape=1, grp=1, user=2, budget=600), st("tok.C01", n=4, shape=2, user=2, budget=600), st("tok.C01", n=4, shape=2, grp=1, budget=300), st("tok.C01", n=8, shape=3, user=2, budget=200),
              st("tok.C01", n=5, shape=4, budget=300), st("tok.C01", n=3, shape=2, wsym=3, budget=300), st("tok.C01", n=4, shape=1, budget=1200)],
      "texts of up to 3 arbitrary bytes, 3 characters of any of seven kinds (ASCII, kana, ideographs, 2-byte, 4-byte, invalid bytes, U+FFFD), 6 letters, 4 ideographs or kana, 1023 equal characters followed by up to 2 others, and long texts (40 to 130 equal words) with 1 or 2 others (thorough: 4 bytes, 4 characters, 8 letters, 5 ideographs or kana); all three modes; costs fixed, or arbitrary for all entries and unknown-word entries on 2 characters; " + WORLD, WOUT)
S2 = [st("tok.C02", n=2, wsym=7, reach=["several"], budget=60), st("tok.C02", n=2, wsym=7, mode=2, shape=2, budget=60), st("tok.C02", n=3, shape=3, wsym=3, reach=["several"], budget=80), st("tok.C02", n=3, shape=4, mode=2, wsym=3, budget=40),
      st("tok.C02", n=1, rep=2, repw=2, mode=2, wsym=3, shape=4, user=0, budget=40), st("tok.C02", n=2, rep=3, repw=1, mode=2, wsym=2, shape=0, budget=60), st("tok.C02", n=2, rep=3, repw=1, mode=2, wsym=7, shape=3, user=0, budget=60),
      st("tok.C02", n=2, wsym=7, mode=3, budget=60), st("tok.C02", n=2, shape=2, wsym=7, mode=3, budget=60), st("tok.C02", n=2, rep=3, repw=1, mode=3, wsym=2, user=0, budget=60), st("tok.C02", n=1, rep=2, repw=2, mode=3, wsym=3, shape=4, user=0, budget=40),
      st("tok.C02", n=3, mode=2, budget=40), st("tok.C02", n=7, shape=3, budget=40), st("tok.C02", n=2, shape=2, wsym=3, grp=1, budget=40), st("tok.C02", n=3, shape=2, user=0, budget=60),
      st("tok.C02", n=1, rep=20, repw=0, shape=3, budget=40), st("tok.C02", n=2, rep=3, repw=0, shape=3, long=1, user=2, budget=40), st("tok.C02", n=3, shape=4, long=1, user=2, budget=40), st("tok.C02", n=1, rep=7, repw=3, shape=4, long=1, budget=40), st("tok.C02", n=2, rep=7, repw=7, shape=3, long=1, budget=40),
      st("tok.C02", n=3, rep=1, repw=5, shape=4, long=1, mode=2, wsym=3, budget=60), st("tok.C02", n=2, rep=1, repw=2, shape=4, long=1, mode=2, wsym=7, budget=40),
 st("tok.C02", n=3, shape=8, grp=1, mode=2, wsym=2, user=0, exact=1, budget=40),
      st("tok.C02", n=2, rep=4, repw=0, shape=3, long=1, mode=2, budget=40), st("tok.C02", n=2, shape=3, prior=1, mode=2, budget=40), st("tok.C02", n=2, rep=6, repw=3, shape=4, long=1, mode=2, budget=40)]
T2 = [st("tok.C02", n=3, shape=3, wsym=3, mode=3, budget=300), st("tok.C02", n=3, rep=3, repw=1, mode=3, wsym=3, budget=600), st("tok.C02", n=3, wsym=3, mode=3, budget=600), st("tok.C02", n=3, wsym=3, budget=600), st("tok.C02", n=3, shape=3, wsym=7, mode=2, budget=600), st("tok.C02", n=3, shape=2, wsym=3, mode=2, budget=600), st("tok.C02", n=4, shape=4, mode=2, wsym=2, budget=400),
      st("tok.C02", n=2, shape=1, wsym=7, budget=300), st("tok.C02", n=3, rep=3, repw=1, mode=2, wsym=2, budget=300), st("tok.C02", n=4, mode=2, budget=300), st("tok.C02", n=9, shape=3, mode=2, budget=200), st("tok.C02", n=4, shape=2, grp=1, budget=300)]
check("C02", S2, T2,
      "texts of up to 2 ASCII characters or 2 characters of any kind with every word cost and connection cost arbitrary (16-bit), 3 letters, 3 ideographs or kana, 4 to 5 ideographs, and 6 to 8 letters with arbitrary word costs, 3 ASCII characters, 3 of any kind and 7 letters with fixed costs; all modes; a second pair of dictionaries has words of every class long enough for each penalty of the Search mode (8 letters or kana, 3 and 4 ideographs, mixed), on texts of up to 9 letters or kana and 4 ideographs or kana, those with arbitrary word costs; 20 equal words and another; 3 characters of a category of their own of which some are ideographs (also beyond the BMP), in Search mode with arbitrary costs; " + WORLD,
      WOUT + " Totals that leave the 32-bit range (more than 32,000 words).")
check("C03", [st("tok.C03", n=2, wsym=7, reach=["several"], budget=60), st("tok.C03", n=2, shape=1, wsym=3, budget=60), st("tok.C03", n=2, wsym=3, shape=2, user=2, budget=60), st("tok.C03", n=3, shape=3, wsym=3, user=0, reach=["several"], budget=80), st("tok.C03", n=3, shape=4, wsym=3, budget=40),
              st("tok.C03", n=2, shape=2, wsym=3, grp=1, budget=40), st("tok.C03", n=3, wsym=2, budget=80), st("tok.C03", n=2, shape=6, rep=1023, repw=6, user=0, steps=3000, budget=90), st("tok.C03", n=1, rep=20, repw=0, shape=3, wsym=2, budget=40), st("tok.C03", n=3, shape=4, long=1, wsym=3, budget=60), st("tok.C03", n=2, shape=3, prior=1, budget=40)],
             [st("tok.C03", n=3, wsym=3, budget=600), st("tok.C03", n=3, shape=2, wsym=3, budget=600), st("tok.C03", n=3, shape=2, wsym=3, grp=1, budget=600), st("tok.C03", n=4, shape=3, wsym=3, user=0, budget=600), st("tok.C03", n=4, shape=4, wsym=3, budget=600), st("tok.C03", n=3, shape=1, wsym=2, budget=600),
              st("tok.C03", n=1, rep=1023, repw=6, wsym=2, user=0, steps=3000, budget=300)],
      "texts of up to 2 arbitrary bytes, 2 characters of any kind, 3 ASCII characters, 3 ideographs or kana, and 1023 equal characters followed by up to 2 others; every candidate word is reached by leaving all word costs arbitrary: a missing candidate costs some assignment of costs its minimum, an extra one shows as a token that is no candidate; " + WORLD, WOUT)
check("C04", [st("tok.C04", n=3, reach=["known", "user", "unknown"], budget=60), st("tok.C04", n=2, shape=2, user=2, wsym=3, reach=["known", "unknown"], budget=60), st("tok.C04", n=2, shape=1, budget=40), st("tok.C04", n=3, shape=2, user=0, budget=60), st("tok.C04", n=3, shape=3, wsym=3, budget=80), st("tok.C04", n=4, shape=4, user=2, budget=60), st("tok.C04", n=1, rep=40, repw=0, shape=2, budget=40), st("tok.C04", n=2, rep=7, repw=7, shape=3, long=1, budget=40), st("tok.C04", n=2, shape=3, prior=1, budget=40), st("tok.C04", n=2, rep=4, repw=0, shape=3, long=1, user=2, budget=40), st("tok.C04", n=3, shape=4, long=1, user=2, budget=40), st("tok.C04", n=1, rep=7, repw=3, shape=4, long=1, budget=40)],
             [st("tok.C04", n=3, wsym=3, budget=600), st("tok.C04", n=3, shape=1, budget=600), st("tok.C04", n=3, shape=2, wsym=3, budget=600), st("tok.C04", n=4, budget=600)],
      "texts of up to 3 ASCII characters, 2 arbitrary bytes, 2 characters of any kind (arbitrary word costs; 3 with fixed ones), 3 letters with arbitrary word costs, 4 ideographs or kana; all modes; " + WORLD, WOUT)
check("C05", [st("tok.C05", n=3, shape=1, budget=150), st("tok.C05", n=3, shape=2, reach=["cut"], budget=60), st("tok.C05", n=2, shape=2, grp=1, whole=1, reach=["cut"], budget=40), st("tok.C05", n=3, whole=1, reach=["cut"], budget=60), st("tok.C05", n=2, shape=2, wsym=3, budget=60), st("tok.C05", n=4, shape=4, user=0, budget=60), st("tok.C05", n=2, rep=7, repw=7, shape=3, long=1, budget=40), st("tok.C05", n=1, rep=40, repw=1, shape=2, whole=1, budget=40), st("tok.C05", n=2, shape=4, prior=1, budget=40), st("tok.C05", n=2, prior=1, budget=40)],
             [st("tok.C05", n=4, whole=1, budget=600), st("tok.C05", n=4, shape=2, budget=600), st("tok.C05", n=3, shape=1, grp=1, whole=1, budget=600), st("tok.C05", n=3, shape=2, wsym=3, budget=600)],
      "texts of up to 3 arbitrary bytes, 3 characters of any kind (2 with arbitrary word costs), 4 ideographs or kana; " + WORLD, WOUT)
check("C06", [st("tok.C06", n=3, budget=60), st("tok.C06", n=2, shape=1, budget=40), st("tok.C06", n=2, shape=2, grp=1, budget=40), st("tok.C06", n=2, shape=2, user=0, wsym=3, budget=80), st("tok.C06", n=5, shape=3, user=2, budget=40), st("tok.C06", n=1, rep=70, repw=0, shape=3, budget=40), st("tok.C06", n=2, shape=3, prior=1, budget=40)],
             [st("tok.C06", n=4, budget=600), st("tok.C06", n=3, shape=1, budget=600), st("tok.C06", n=3, shape=2, user=2, budget=600), st("tok.C06", n=3, shape=2, wsym=3, mode=1, budget=600)],
      "texts of up to 3 ASCII characters, 2 arbitrary bytes, 2 characters of any kind, 5 letters; all modes; with and without the omit option; " + WORLD, WOUT)
AT = "every token of the analyses of every headword of the dictionaries (15 system entries, 4 user entries, 10 unknown-word entries) and of texts with unknown words, in every mode; "
check("C09", [st("acc.C09A", min=8, max=9, budget=60), st("acc.C09A", max=3, raw=1, reach=["known", "unknown", "user", "declared", "in range"], budget=40)] + [st("acc.C09", meta=m, shrunk=s, grp=s, reach=["known", "unknown", "user", "in range"], budget=40) for m in (0, 1, 2) for s in (0, 1)],
             [st("acc.C09A", max=5, raw=1, budget=300), st("acc.C09A", max=3, extra=4, budget=100)] + [st("acc.C09", meta=m, shrunk=s, grp=g, user=2, budget=100) for m in (0, 1, 2) for s in (0, 1) for g in (0, 1)],
      "the tokens of both entries of each class of a dictionary with arbitrary contents: up to 3 (thorough 5) parts of speech with arbitrary names and as many further features (or none stored), up to 6 (10) features of unknown words, or 8 or 9 of each, user words of up to 3 (5) parts, features of one arbitrary byte, every 64-bit feature index, every declared or missing column (8-bit) for base form, reading, pronunciation, inflectional type and form, every part-of-speech start and length up to 3 (5); " + AT + "with the same arbitrary declarations, dictionaries with and without contents.",
      "dictionaries whose tables contradict each other (a part-of-speech number without a name), a part-of-speech start without a length, longer feature lists and features.")
check("C10", [st("acc.C10A", min=8, max=8, budget=60), st("acc.C10A", max=2, reach=["extra"], budget=40), st("acc.C10A", max=1, raw=1, reach=["extra"], budget=60)] + [st("acc.C10", shrunk=s, user=1, grp=s, reach=["extra"], budget=40) for s in (0, 1)],
             [st("acc.C10A", max=2, raw=1, budget=200), st("acc.C10A", max=3, extra=4, budget=300), st("acc.C10A", max=1, raw=1, extra=3, budget=100)] + [st("acc.C10", shrunk=s, user=2, grp=g, budget=100) for s in (0, 1) for g in (0, 1)],
      "the tokens of both entries of each class of a dictionary with arbitrary contents (as for C09, up to 2, thorough 3, or 8 features, one feature with any byte, the others letters); " + AT + "every slice an accessor or the JSON view hands out overwritten up to its capacity; the JSON (encoding/json is modelled; the model is compared with the real package on every run) is read back by an independent reader.", "longer feature lists; features of more than one byte that need escaping.")
check("C12", [st("flt.C12", kind=0, n=8, reach=["mixed"], budget=40), st("flt.C12", kind=1, n=2, shape=3, reach=["mixed"], budget=60), st("flt.C12", kind=2, n=2, shape=3, reach=["mixed"], budget=60), st("flt.C12", kind=2, n=2, shape=4, mode=1, budget=60), st("flt.C12", kind=3, n=3, reach=["mixed"], budget=60), st("flt.C12", kind=4, n=40, budget=60)],
             [st("flt.C12", kind=0, n=11, budget=200), st("flt.C12", kind=3, n=4, budget=900), st("flt.C12", kind=1, n=3, shape=3, budget=600), st("flt.C12", kind=1, n=2, shape=4, budget=600), st("flt.C12", kind=2, n=3, shape=0, mode=1, budget=600)],
      "lists of up to 8 (thorough 11) tokens with arbitrary fields and an arbitrary match function; part-of-speech filters of up to 2 patterns of up to 2 features and word filters of up to 2 words of up to 2 bytes on the analyses of texts of up to 2 (thorough 3) letters; part-of-speech and word filters on lists of up to 3 tokens out of 20 of every class (with equal IDs and homographs) with arbitrary surfaces; nil and empty lists; lists of 39 and 40 tokens of which any run, or all but any run, match.", "longer lists.")
check("C13", [st("flt.C13", pats=3, plen=3, n=3, reach=["match"], budget=60), st("flt.C13", pats=4, plen=2, n=3, reach=["match"], budget=60), st("flt.C13", pats=2, plen=4, n=4, reach=["match"], budget=60), st("flt.C13", pats=2, plen=2, n=3, len=1, budget=60), st("flt.C13", pats=2, plen=1, n=2, len=2, budget=60), st("flt.C13", pats=1, plen=2, n=3, more=12, budget=40), st("flt.C13", pats=2, plen=6, n=7, exact=1, budget=40), st("flt.C13", pats=1, plen=6, n=7, budget=40)],
             [st("flt.C13", pats=4, plen=3, n=3, budget=600), st("flt.C13", pats=3, plen=4, n=5, budget=600), st("flt.C13", pats=5, plen=2, n=3, budget=600), st("flt.C13", pats=3, plen=2, n=3, len=1, budget=600), st("flt.C13", pats=2, plen=2, n=2, len=2, budget=600), st("flt.C13", pats=6, plen=1, n=2, budget=300)],
      "up to 3 patterns of up to 3 features on vectors of up to 3, 4 patterns of 2, 2 of 4, 2 of 6 on vectors of 7, one of up to 6, one with 12 fixed others before, after or around it (thorough: 4 of 3, 3 of 4, 5 of 2, 6 of 1); features of one arbitrary byte (the wildcard is one), or of 0 to 2 arbitrary bytes; every order and every coincidence of features.", "longer patterns, more patterns, features longer than 2 bytes.")
check("C14", [st("flt.C14", part=0, reach=["stop", "base"], budget=60), st("flt.C14", part=1, n=2, shape=3, mode=1, reach=["stop", "base"], budget=90), st("flt.C14", part=1, n=1, shape=4, mode=1, budget=120), st("flt.C14", part=1, n=1, rep=2, repw=8, shape=3, mode=1, budget=60), st("flt.C14", part=2, words=4, len=3, budget=60), st("flt.C14", part=2, words=1, len=3, more=24, budget=40)],
             [st("flt.C14", part=1, n=2, shape=3, mode=0, names=4, budget=900), st("flt.C14", part=1, n=2, shape=4, mode=1, budget=600), st("flt.C14", part=2, words=6, len=4, budget=600)],
      "default settings on every stop tag and stop word of the shipped lists, parts of speech near them, and pairs of words; every subset of the options with up to one pattern of up to 2 features or one word on texts of up to 2 letters, 1 ideograph or kana, or an equal pair of unknown words and one more character, the whole list, that without its ends and each token alone; word filters of up to 4 arbitrary words of up to 3 bytes, or of one with 24 others.", "longer texts, more patterns in the options.")
check("C11", [st("graph.C11", n=2, reach=["several"], budget=60), st("graph.C11", n=2, shape=1, user=0, budget=60), st("graph.C11", n=2, shape=2, mode=3, budget=60), st("graph.C11", n=2, shape=4, budget=40), st("graph.C11", n=5, shape=3, omit=0, budget=40), st("graph.C11", shape=7, esc=3, omit=0, budget=60), st("graph.C11", n=2, shape=1, grp=1, omit=0, mode=1, budget=60), st("graph.C11", n=1, rep=12, repw=0, shape=3, budget=40), st("graph.C11", n=1, rep=150, repw=0, shape=3, omit=0, mode=1, exact=1, steps=3000, budget=60), st("graph.C11", n=2, shape=3, prior=1, budget=40)],
             [st("graph.C11", n=3, omit=0, budget=900), st("graph.C11", n=2, shape=1, budget=300), st("graph.C11", n=3, shape=4, budget=300), st("graph.C11", n=3, shape=2, mode=3, omit=0, budget=600), st("graph.C11", shape=7, esc=4, budget=300)],
      "texts of up to 2 ASCII characters, 2 arbitrary bytes, 2 characters of any kind, 5 letters (thorough: 3), 300 letters and another (a graph with more than 1024 edges), and names of parts of speech (system, unknown-word and user entries) of 3 arbitrary bytes (thorough 4); all modes, with and without BOS and EOS; " + WORLD, WOUT + " What a renderer makes of the labels.")
check("C07", [st("hist.C07", n=2, ops=1, reach=["kept"], budget=90), st("hist.C07", n=1, kind=3, budget=30), st("hist.C07", n=1, other=1, kind=1, budget=30), st("hist.C07", n=1, hn=1, shape=3, budget=30),
              st("hist.C07", n=1, rep=3, repw=0, shape=4, kind=3, budget=30), st("hist.C07", n=1, few=1, ops=2, budget=40), st("hist.C07", n=1, few=1, ops=2, kind=2, shape=4, budget=30), st("hist.C07", n=1, few=1, shape=3, wsym=2, budget=30, partial=True), st("hist.C07", n=1, few=1, rep=20, shape=3, ops=1, budget=40),
              st("hist.C07", n=1, few=2, ops=5, shape=6, budget=60), st("hist.C07", n=1, few=2, ops=200, same=1, shape=6, steps=3000, budget=60), st("hist.C07", n=1, big=100, shape=3, budget=40),
              st("hist.C07", n=1, big=100, rep=100, repw=1, shape=3, kind=3, budget=40)],
             [st("hist.C07", n=2, shape=2, kind=2, budget=200), st("hist.C07", n=2, shape=1, kind=1, budget=400), st("hist.C07", n=2, kind=3, budget=300), st("hist.C07", n=1, few=1, ops=3, budget=400), st("hist.C07", n=1, ops=2, shape=3, budget=300),
              st("hist.C07", n=2, hn=2, shape=3, budget=300), st("hist.C07", n=2, kind=4, user=0, budget=200), st("hist.C07", n=1, few=1, shape=3, wsym=3, budget=300)],
      "an analysis (any mode, with or without the graph, Wakati) of a text of up to 2 ASCII characters, 1 character of any kind, or 3 repetitions of a letter pair and one more, after a history of 1 analysis (any of four tokenizers: the same, one with another dictionary, one that shares the dictionary with other options, one with another user dictionary; any mode, with graph, Wakati, or a graph whose writer panics; of six fixed texts or an arbitrary one of 1 letter) 2 (thorough: 3), 5 out of four fixed ones, 200 repetitions of one of these, or one of a text of 200 to 400 characters (before a short text or one of 201 characters); compared with the result in a process in which nothing was analysed before; tokens returned earlier are compared too; arbitrary costs of unknown words in part; " + WORLD,
      "longer histories and texts (what is carried from one analysis to the next is the pooled memory, whose use is independent of the number of analyses before). " + WOUT)
check("C08", [st("hist.C08", kind=k, n=1, budget=40, race=True) for k in (0, 1, 3, 4, 5, 6, 7, 8)] + [st("hist.C08", kind=2, n=1, shape=4, budget=40, race=True), st("hist.C08N", n=1, reach=["nested"], budget=60), st("hist.C08N", n=1, shape=4, mode=2, reach=["nested"], budget=30)],
             [st("hist.C08", kind=k, n=n, shape=s, few=0, budget=200, race=True) for k in (0, 2, 3, 6, 7, 9) for (n, s) in ((2, 0), (2, 4))] + [st("hist.C08", kind=0, n=1, wsym=2, shape=3, budget=200, race=True), st("hist.C08N", n=2, few=0, budget=600), st("hist.C08N", n=2, shape=4, few=0, budget=300)],
      "ownership: during any two calls (analysis in each mode, graph, Wakati, token accessors, filters, splitter, construction of filters, Dot) on four tokenizers that share dictionaries, and a repetition of the first, every write goes to memory allocated or taken from a pool during the call itself (or to memory under a lock that also guards its reads, a once, an atomic or a sync.Map), and memory returned to a pool is not used after; this, for all texts of 1 ASCII character or one ideograph or kana, with the second call on fixed texts, excludes data races under every interleaving; a counterexample is replayed with 8 goroutines under the race detector. In addition, whole calls nested at 3 of the writes (thorough: 8) of a graph give the results they give alone; " + WORLD,
      "longer texts; happens-before by channels and wait groups (the code under test uses none; the monitor would report and the race detector not confirm). " + WOUT)
IN = "pieces of input: texts of n arbitrary bytes, or of n characters out of line feeds, carriage returns, white space, delimiters, words, invalid bytes, 3- and 4-byte characters; "
check("C18", [st("cli.C18", n=1, shape=9, reach=["udict", "uni", "split", "user", "dummy"], budget=60), st("cli.C18", fixed=1, budget=30), st("cli.C18", n=2, shape=9, mode=1, dicts=1, split=0, budget=40), st("cli.C18", n=2, shape=9, mode=2, dicts=1, split=1, file=1, budget=40),
              st("cli.C18", n=2, shape=9, mode=3, dicts=1, split=0, reach=["dummy"], budget=40), st("cli.C18", n=2, shape=2, dicts=1, mode=3, split=1, budget=40), st("cli.C18", n=3, shape=3, dicts=3, budget=40), st("cli.C18", n=1, shape=9, lines=40, dicts=1, mode=1, budget=60), st("cli.C18", n=1, shape=9, lines=40, dicts=1, mode=3, budget=60)],
             [st("cli.C18", n=3, shape=9, mode=m, dicts=1, split=s, budget=300) for m in (1, 3) for s in (0, 1)] + [st("cli.C18", n=2, shape=9, budget=400), st("cli.C18", n=2, shape=1, dicts=1, split=0, budget=300), st("cli.C18", n=5, shape=3, dicts=3, budget=200)],
      IN + "quick: 1 piece under every combination of options (mode, user dictionary, simple, other system dictionary, split, JSON, file or standard input), 2 pieces for some, 3 letters, 40 fixed lines before 1 piece; thorough: 2 and 3 pieces. " + WORLD + "The system dictionaries of the commands are replaced by such dictionaries; the expected tokens come from Tokenizer.Analyze (decided by C01 to C06).",
      "lines longer than bufio.Scanner's 64 KiB, at which the command stops reading; dictionary files (-dict).")
check("C19", [st("cli.C19", near=1, reach=["valid", "invalid"], budget=40)] + [st("cli.C19", n=n, reach=["valid", "invalid"], budget=40) for n in (3, 4, 6, 8, 9)] + [st("cli.C26", text=0, budget=60), st("cli.C18", fixed=1, budget=30)],
             [st("cli.C19", n=n, reach=["valid", "invalid"], budget=100) for n in range(3, 13)] + [st("cli.C26", text=0, budget=60), st("cli.C18", fixed=1, budget=30)],
      "every subcommand, every option that takes a name, written with one or two dashes, in one or two arguments, with an arbitrary value of up to 9 (thorough 12) bytes or one close to a documented name (a byte replaced, inserted or left out, cut, repeated, other case), unknown options and requests for help, with and without stray arguments (arbitrary strings); option check and run; what the accepted modes and dictionaries of the tokenize and lattice commands mean, on fixed texts that each mode analyses differently (all texts: C18 and C26).",
      "longer values, several names options at once, -http addresses.")
check("C20", [st("api.C20", kind=0, n=1, reach=["token"], budget=40), st("api.C20", kind=0, n=2, shape=3, reach=["token"], budget=40), st("api.C20", kind=1, n=1, budget=40), st("api.C20", kind=1, n=1, shape=2, reach=["dummy"], budget=40), st("api.C20", kind=2, n=3, reach=["bad"], budget=60), st("api.C20", kind=3, n=2, budget=40), st("api.C20", kind=4, n=3, budget=40), st("api.C20", kind=5, n=2, budget=40), st("api.C20", kind=0, n=1, rep=40, shape=3, budget=40), st("api.C20", kind=0, n=1, rep=5, repw=1, shape=3, budget=40),
              st("api.C20", kind=0, n=0, rep=5, repw=1, shape=3, near=1, budget=40), st("api.C20", kind=1, n=1, shape=6, esc=1, budget=40)],
             [st("api.C20", kind=0, n=2, budget=200), st("api.C20", kind=0, n=3, shape=3, budget=200), st("api.C20", kind=0, n=2, shape=2, budget=300), st("api.C20", kind=1, n=2, budget=300), st("api.C20", kind=2, n=4, budget=600), st("api.C20", kind=3, n=4, budget=400), st("api.C20", kind=4, n=5, budget=400), st("api.C20", kind=5, n=4, budget=400)],
      "request bodies: a sentence of 1 arbitrary character of any kind or 2 letters, or 1 letter after 40 words or 10 letters, or one of ten pieces that need or look like escapes and another character, in any mode (named, unnamed, arbitrary of 1 byte, or near one of the names as in C19), raw or escaped; every body of up to 3 bytes (thorough 4); objects with up to 2, 3 and 2 arbitrary bytes where a value, the end of a string, or the end of the object is expected (thorough 4, 5, 4). encoding/json is modelled (decoder and encoder; compared with the real package on every run). " + WORLD,
      "longer bodies, bodies whose reading fails.")
check("C21", [st("srv.C21", switches=0, limit=40, replay=60, reach=["good", "failed"], budget=90), st("srv.C21", switches=1, limit=40, replay=60, budget=90), st("srv.C21", switches=0, sym=2, kind=2, limit=40, replay=60, budget=40)],
             [st("srv.C21", switches=2, limit=40, replay=60, budget=600), st("srv.C21", switches=1, limit=40, replay=60, sym=2, budget=400), st("srv.C21", switches=3, kind=7, limit=40, replay=60, budget=300)],
      "nine kinds of renderer (missing, cannot be started, works, fails after reading, ends with 0 or 1 without reading, ends with 1 after reading the start, hangs without reading, hangs after reading), a graph that fits into its pipe or does not, the client staying or leaving at any time, every mode, every order of the goroutines, process events and timers with up to 1 deviation (thorough 3) from round-robin; texts fixed, or 2 arbitrary letters. The operating system, os/exec and timers are modelled (harness/px); counterexamples are replayed with real processes.",
      "a renderer whose child processes keep its output open after it is killed (known finding, listed); more deviations; what a browser makes of the page.")
check("C22", [st("srv.C22", switches=0, limit=15, replay=60, reach=["ended", "failed"], budget=60), st("srv.C22", switches=1, limit=15, replay=60, budget=90)],
             [st("srv.C22", switches=2, limit=15, replay=60, budget=800), st("srv.C22", switches=1, signals=3, limit=15, replay=60, budget=400)],
      "every combination of: the listener works, fails at once or later; a request in progress never ends; the context cancelled before or at any time; 0 to 2 (thorough 3) signals at any time, of any of the three kinds; every order of goroutines and events with up to 1 deviation (thorough 2) from round-robin. net/http.Server, signals and timers are modelled (harness/px); counterexamples are replayed natively where the environment can be forced.",
      "more deviations; a signal before the command has registered for it (ends the process, as for any program).")
check("C23", [st("acc.C23", kind=0, len=2, budget=40), st("acc.C23", kind=1, max=3, budget=40), st("acc.C23", kind=2, max=2, reach=["comparable"], budget=60), st("acc.C23", kind=3, max=10, budget=40)],
             [st("acc.C23", kind=0, len=4, budget=200), st("acc.C23", kind=1, max=4, len=2, budget=400), st("acc.C23", kind=2, max=3, budget=600)],
      "tokens with arbitrary fields and surfaces of up to 2 (thorough 4) bytes; lists of up to 3 (4) features of up to 1 (2) arbitrary bytes, nil or empty; lists of 9 to 11 features, and surfaces of about as many bytes, that differ in any one place or in length; the tokens of a dictionary with arbitrary contents as for C09.",
      "longer surfaces and feature lists.")
check("C24", [st("cli.C24", n=3, reach=["file", "several"], budget=40), st("cli.C24", n=5, budget=40), st("cli.C24", n=4, shape=9, budget=60), st("cli.C24", n=2, shape=9, lines=100, budget=40)],
             [st("cli.C24", n=6, budget=300), st("cli.C24", n=6, shape=9, budget=600), st("cli.C24", n=3, shape=1, budget=200)],
      IN + "up to 5 bytes or 4 pieces (thorough 6), or 2 pieces after 100 fixed lines, read from a file or standard input; the expected sentences come from filter.ScanSentences (decided by C15 and C16).", "longer texts (reading in parts: C17).")
check("C25", [st("kmain.C25", n=0, more=1, budget=60, reach=["default", "usage", "error", "tokenize", "sentence", "lattice", "version"]), st("kmain.C25", n=1, budget=60), st("kmain.C25", n=0, len=4, budget=60)],
             [st("kmain.C25", n=1, more=1, budget=500), st("kmain.C25", n=2, budget=300), st("kmain.C25", n=0, len=8, budget=300)],
      "the first argument: a name of a subcommand, none, a string close to a name (a byte replaced, inserted or left out, cut, repeated, other case), or up to 2 (or 4, thorough 8) arbitrary bytes; up to two further arguments out of eleven; standard input a fixed text and up to 1 (thorough 2) arbitrary bytes.",
      "other combinations of arguments; the server going on to serve (C22).")
check("C26", [st("cli.C26", text=0, reach=["file"], budget=60), st("cli.C26", text=1, n=1, dicts=1, reach=["file"], budget=60), st("cli.C26", text=2, dicts=1, few=1, words=9, budget=40), st("cli.C26", text=1, rep=100, n=1, dicts=1, shape=3, few=1, budget=40)],
             [st("cli.C26", text=0, budget=60), st("cli.C26", text=1, n=1, budget=400), st("cli.C26", text=1, n=2, dicts=1, shape=3, budget=400), st("cli.C26", text=1, n=2, dicts=1, shape=4, budget=600)],
      "every combination of mode, dictionary, user dictionary, -v and output (standard output, a new file, a file with longer contents); three fixed lists of arguments, nine arguments with an arbitrary last one, 201 letters with an arbitrary last one, and (with the standard dictionary; thorough: all) a text of 1 (thorough 2) arbitrary ASCII characters; files are modelled (harness validated natively with real ones). The expected graph comes from Tokenizer.AnalyzeGraph (decided by C11). " + WORLD,
      "longer texts; the names of the nodes, which are addresses, are numbered before graphs are compared.")
check("C27", [st("cli.C27", kind=k, n=1, shape=9, budget=60, samples=20 if k == 2 else 60, reach=["part" if k in (2, 3) else "nothing"]) for k in range(6)],
             [st("cli.C27", kind=2, n=2, shape=9, budget=600, samples=20, reach=["part"]), st("cli.C27", kind=2, n=2, shape=2, budget=300, samples=20)] + [st("cli.C27", kind=k, n=1, shape=9, budget=60) for k in (0, 1, 3, 4, 5)],
      "the tokenize, sentence and lattice commands with: an input file that is missing or a directory; standard input that fails after any 1 (thorough 2) pieces of input; a line or sentence of more than 64 KiB after a good one, in a file or on standard input; user dictionaries that are missing, a directory or malformed in six ways; system dictionary files that are missing, a directory or no archive; an output file that cannot be created. " + IN,
      "user dictionaries malformed in other ways (they are read by the dictionary module, a dependency).")
check("C28", [st("opts.C28", opts=2, n=2, shape=3, reach=["nodict", "fails", "omits", "other"], budget=40), st("opts.C28", opts=2, n=1, shape=2, budget=40), st("opts.C28", opts=3, n=2, shape=6, budget=60), st("opts.C28", opts=1, n=2, shape=4, budget=40)],
             [st("opts.C28", opts=4, n=2, shape=6, budget=300), st("opts.C28", opts=3, n=3, shape=3, budget=300), st("opts.C28", opts=2, n=2, shape=2, budget=300), st("opts.C28", opts=2, n=2, shape=0, budget=300)],
      "every sequence of up to 3 (thorough 4) options out of six kinds, with and without a dictionary, texts of up to 2 letters, 1 character of any kind or 2 ideographs or kana, every mode. What a tokenizer with a single user dictionary does is decided by C01 to C06. " + WORLD,
      "longer sequences of options.")
check("C29", [st("srv.C29", n=1, shape=0, mode=1, reach=["mode", "page"], budget=60), st("srv.C29", n=1, shape=2, mode=1, reach=["page"], budget=60), st("srv.C29", n=2, shape=0, mode=0, budget=90), st("srv.C29", n=2, shape=3, mode=3, budget=60), st("srv.C29", n=1, rep=20, mode=1, shape=3, budget=40), st("srv.C29", n=1, rep=5, repw=1, mode=0, shape=3, budget=60)],
             [st("srv.C29", n=2, shape=2, mode=0, budget=600), st("srv.C29", n=3, shape=3, mode=0, budget=300), st("srv.C29", n=1, shape=1, mode=2, budget=300), st("srv.C29", n=2, shape=4, mode=0, budget=300)],
      "sentences of up to 2 arbitrary ASCII characters (mark-up included) or 1 character of any kind, or 1 letter after 20 words, the modes named and arbitrary strings of 1 byte (3 with letters), the form and the page, with a renderer that works, fails or is missing. html/template is parsed, and its escapers are chosen, by the real package; executing it is modelled, and compared with the real one on every run. " + WORLD,
      "what a browser makes of the page and its script; a line feed at the start of the sentence, which browsers leave out.")
check("C30", [st("srv.C30", n=1, limit=20, replay=40, reach=["udict", "refused", "api", "page", "form", "bad"], budget=90)],
             [st("srv.C30", n=2, limit=20, replay=40, budget=600)],
      "every combination of dictionary option, user dictionary (none, one, a missing file, a malformed one) and order of options; six requests (the API with a sentence and with a body that is cut, the page by GET and by POST at / and where the form is sent to, the empty form); sentences of 1 (thorough 2) out of six characters; every mode. http.ServeMux and the parsing of forms are executed; listening is modelled, and the sampled paths make real requests to a real server.",
      "other requests; requests at the same time (C08, C22).")
check("C31", [st("cli.C31", cmd=0, n=1, shape=9, reach=["fails"], budget=60), st("cli.C31", cmd=1, n=2, shape=9, reach=["fails"], budget=40), st("cli.C31", cmd=2, n=1, shape=3, reach=["file"], budget=40)],
             [st("cli.C31", cmd=0, n=2, shape=9, reach=["fails"], budget=300), st("cli.C31", cmd=0, n=2, shape=3, reach=["fails"], budget=100), st("cli.C31", cmd=1, n=3, shape=9, reach=["fails"], budget=100), st("cli.C31", cmd=2, n=1, shape=2, reach=["file"], budget=100)],
      "the tokenize (plain, JSON, split), sentence and lattice commands writing to a standard output that takes any number of bytes short of the whole output (for outputs of more than 200 bytes: any number up to 200, or up to 200 short of all but one) and then fails; an output file on a full device. That the tokenize and sentence commands report success is a known finding, tried natively on every run; of them it is checked here that what they write is the beginning of the output. " + IN,
      "a writer that fails once and then works; longer outputs in the middle; the server's writers (C21, C22).")

check("C32", [st("graph.C32", n=2, reach=["known"], budget=60), st("graph.C32", n=2, shape=2, reach=["known"], budget=80), st("graph.C32", n=3, shape=3, user=2, reach=["known"], budget=40), st("graph.C32", n=1, shape=1, grp=1, budget=40),
              st("graph.C32", n=3, shape=4, long=1, user=2, budget=40), st("graph.C32", n=1, rep=50, repw=0, shape=3, budget=40)],
             [st("graph.C32", n=3, budget=300), st("graph.C32", n=3, shape=2, budget=600), st("graph.C32", n=2, shape=1, budget=300), st("graph.C32", n=2, shape=2, wsym=3, budget=300), st("graph.C32", n=5, shape=3, budget=100)],
      "texts of up to 2 ASCII characters, 2 characters of any kind, 1 arbitrary byte, 3 letters, 3 ideographs or kana with a dictionary of long words, and 101 letters; all modes; " + WORLD, WOUT)
check("C33", [st("graph.C33", n=2, reach=["unknown"], budget=60), st("graph.C33", n=2, shape=2, reach=["unknown"], budget=60), st("graph.C33", n=4, shape=3, user=2, budget=40), st("graph.C33", n=8, shape=3, budget=60), st("graph.C33", n=4, shape=4, user=0, budget=60), st("graph.C33", n=1, shape=1, grp=1, budget=40)],
             [st("graph.C33", n=3, budget=300), st("graph.C33", n=3, shape=2, budget=300), st("graph.C33", n=2, shape=1, budget=300), st("graph.C33", n=2, shape=2, wsym=3, budget=300)],
      "every 64-bit mode value; texts of up to 2 ASCII characters, 2 characters of any kind, 1 arbitrary byte, 8 letters, 4 ideographs or kana; " + WORLD, WOUT)
check("C34", [st("flt.C34", kind=0, reach=["match"], budget=60), st("flt.C34", kind=0, pats=3, n=1, reach=["match"], budget=60), st("flt.C34", kind=0, pats=1, n=2, flen=3, reach=["match"], budget=40), st("flt.C34", kind=1, n=3, reach=["match"], budget=40), st("flt.C34", kind=2, n=2, shape=3, reach=["match"], budget=60), st("flt.C34", kind=2, n=1, reach=["match"], budget=60),
              st("flt.C34", kind=3, n=2, reach=["match"], budget=40), st("flt.C34", kind=3, n=2, default=1, reach=["match"], budget=40)],
             [st("flt.C34", kind=0, pats=3, n=2, budget=300), st("flt.C34", kind=1, n=4, budget=100), st("flt.C34", kind=2, n=2, plen=2, shape=3, budget=400), st("flt.C34", kind=3, n=3, budget=400), st("flt.C34", kind=3, n=3, default=1, budget=400)],
      "up to 2 patterns of up to 2 arbitrary features of one byte (3 of one; one of 2 features of up to 3 bytes; thorough: 3 of 2); up to 3 (4) words of up to 2 bytes; the Japanese filter with up to one stop tag and base-form pattern and an arbitrary stop word, on the analyses of texts of up to 2 letters or 1 ASCII character; texts of up to 2 (3) arbitrary bytes for the splitter, after another such text and a fixed one; every entry of the lists changed afterwards to an arbitrary or another value.",
      "longer lists and histories; the Delim and Follower lists of a splitter, which are its fields and stay the caller's.")
check("C35", [st("cli.C35", cmd=0, shape=9, n=1, reach=["fails", "works"], budget=60), st("cli.C35", cmd=1, shape=9, n=2, reach=["fails", "works"], budget=60), st("cli.C35", cmd=2, reach=["fails", "works"], budget=60)],
             [st("cli.C35", cmd=0, shape=9, n=2, budget=400), st("cli.C35", cmd=1, shape=9, n=3, budget=200)],
      "the tokenize, sentence and lattice commands with three sets of options each; user dictionaries: none, a good one and the malformed ones of C27; input from standard input, a file of 1 piece (sentence: 2; thorough 2 and 3) , a file that is a directory or missing, one with a line of more than 64 KiB (sentence; 100 bytes for tokenize); output to standard output, which takes everything or one byte, a new file, an existing one, a full device and a directory. The number of open files is that of the modelled file system; in the native validation, that of the process.",
      "files of the dictionary module opened with -sysdict, which the module closes.")
check("C36", [st("cli.C36", reach=["tokenize", "lattice", "sentence", "server", "output"], budget=90)],
             [st("cli.C36", budget=400)],
      "for each subcommand: help asked for in four ways, one option with a name near one of its options (C19), a missing value, a mode or dictionary name near a good one, one argument of 1 byte too many or none where one is needed, a truth value of 1 byte; with and without an input or output file (a new or existing one). Flags are parsed by the real package.",
      "several wrong arguments at once.")
