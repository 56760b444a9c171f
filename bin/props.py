"""Harness jobs, bounds and assumptions per property."""

PROPS = {}


def prop(pid, quick, thorough, bounds, **kw):
    PROPS[pid] = dict(quick=quick, thorough=quick_plus(quick, thorough), bounds=bounds, **kw)


def quick_plus(q, t):
    """thorough = everything of quick and the deeper jobs."""
    out = list(q)
    for j in t:
        if j not in out:
            out.append(j)
    return out


def js(pkg, fn, *argss):
    """jobs of one harness function; every argument list is a tuple."""
    return [("verif/" + pkg, fn, list(a)) for a in argss]


# ---------------------------------------------------------------- C01 totality of the front end
NCTX = 28
prop("C01",
     quick=js("parse", "HTotal", *[(c, 0, 2) for c in range(NCTX)], *[(0, k, 3) for k in range(7)], (0, 1, 5), (0, 2, 4), (0, 3, 5), (0, 5, 4), (0, 6, 5),
              (3, 2, 3), (4, 2, 3), (6, 3, 3), (8, 5, 3), (11, 4, 3), (14, 4, 3), (19, 3, 3), (22, 4, 3)) +
     js("parse", "HBytes", *[(c, 1) for c in range(NCTX)], (0, 2)) + js("parse", "HHigh", (0, 3), (1, 2), (3, 2), (8, 2), (16, 2)),
     thorough=js("parse", "HTotal", *[(c, 0, 3) for c in range(NCTX)], *[(0, k, 4) for k in range(7)], (0, 1, 6), (0, 2, 5), (0, 3, 6), (0, 5, 5), (0, 6, 6), (0, 0, 5),
                 *[(c, k, 4) for c in (1, 2, 5, 16, 21) for k in (1, 3, 5)], *[(c, 2, 4) for c in (3, 4, 17, 24, 25)]) +
     js("parse", "HBytes", *[(c, 2) for c in range(NCTX)], (0, 3)) + js("parse", "HHigh", *[(c, 3) for c in range(NCTX)], (0, 4)),
     bounds={"quick": "all strings of 2 bytes over a 28-character alphabet (every indicator, both breaks, tab, backslash) in each of 28 surroundings; all strings of 3 over 7 alphabets and of 4-5 over the "
                      "block, flow, block-scalar, quoted and marker alphabets as the whole document; every byte value alone in each surrounding, every pair as a document; 3 bytes over an alphabet of multi-byte and ill-formed UTF-8 fragments",
             "thorough": "as quick with holes of 3 (all surroundings), whole documents of up to 5 (full alphabet) and 6 (structural alphabets), all byte pairs in every surrounding, all byte triples as a document"},
     outside="longer symbolic holes, other surroundings, stack depth on inputs nested thousands of levels deep",
     reach=["rejected", "accepted", "parsed"])

# ---------------------------------------------------------------- long, wide and deep documents around an arbitrary node
WIDE = (7, 8, 9, 10, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23)
BIG = range(24)
BIGT = [s for s in BIG if s not in (11, 13)]  # 11 is a stream, 13 has collections as keys


def big(fn, shapes, engines=None, deep=(9, 40), wide=(150,)):
    a = [(s, n) for s in shapes for n in deep] + [(s, n) for s in shapes if s in WIDE for n in wide]
    return js("big", fn, *([(e,) + x for e in engines for x in a] if engines else a))

# ---------------------------------------------------------------- C02 tokenizer
prop("C02",
     quick=big("HTokens", BIG) + js("lex", "HLossless", *[(c, k, 2, r) for c in range(10) for k in (0, 1) for r in (0, 1)], *[(0, k, 3, r) for k in range(6) for r in (0, 1)]) +
     js("lex", "HWide", (2, 0), (2, 1), (3, 0)) + js("lex", "HMode", *[(k, 3, 3) for k in range(4)]) + js("lex", "HUnsafe", *[(k, 3) for k in range(3)]) + js("lex", "HBytes", (2,)),
     thorough=js("lex", "HLossless", *[(c, k, 3, r) for c in range(10) for k in range(6) for r in (0, 1)], *[(0, k, 4, r) for k in range(6) for r in (0, 1)], (0, 0, 5, 0), (0, 1, 6, 0)) +
     js("lex", "HWide", (3, 1), (4, 0)) + js("lex", "HMode", *[(k, 4, 4) for k in range(4)]) + js("lex", "HUnsafe", *[(k, 4) for k in range(6)]) + js("lex", "HBytes", (3,)),
     bounds={"quick": "documents of 24 shapes, up to 40 levels deep or 150 entries, lines or words long, around an arbitrary small node; holes of 2 symbolic characters in 10 surroundings and of 3 as the whole source, over 6 alphabets of indicators, in normal and in raw mode; every history of raw-mode switches between 3 tokens; every pair of bytes",
             "thorough": "holes of 3 in every surrounding, whole sources of 4-6, raw-mode histories of 4, every triple of bytes"},
     outside="longer sources; the position of tokens inside lines longer than the hole plus its surrounding")

# ---------------------------------------------------------------- C03 no silent loss
LC = [c for c in range(26) if c != 11]  # 11 is inside a directive, whose letters legitimately vanish
prop("C03",
     quick=js("parse", "HLoss", *[(c, 0, 2) for c in LC], *[(0, k, 3) for k in range(5)], (0, 1, 5), (0, 2, 4), (0, 3, 4), (0, 4, 4),
              *[(c, 2, 3) for c in (3, 4, 17, 24, 25)], *[(c, 1, 3) for c in (1, 2, 5, 10, 15, 16, 21)], *[(c, 4, 3) for c in (6, 7, 18)]),
     thorough=js("parse", "HLoss", *[(c, k, 3) for c in LC for k in range(5)], *[(0, k, 4) for k in range(5)], (0, 0, 5), (0, 1, 6), (0, 2, 5), (0, 4, 6),
                 *[(c, k, 4) for c in (1, 2, 3, 5, 16) for k in (1, 2)]),
     bounds={"quick": "holes of 2 characters over 16 (letters, block, flow and quoting indicators, no comments, tags, directives or escapes) in 25 surroundings; whole documents of 3 to 5 characters over 5 alphabets; holes of 3 in the structurally interesting surroundings",
             "thorough": "holes of 3 over 5 alphabets in 25 surroundings, whole documents of up to 6"},
     outside="longer holes; comments, tags, directives and escapes (their letters legitimately vanish)",
     reach=["rejected", "accepted"])

# ---------------------------------------------------------------- C07 .. C09 characters
prop("C07",
     quick=js("chars", "HRunes", *[(k,) for k in range(8)]) + js("chars", "HSets", *[(k, n) for k in range(8) for n in (0, 1, 2, 3)]) + js("chars", "HEscapes", (3,)),
     thorough=js("chars", "HSets", *[(k, 4) for k in range(8)]) + js("chars", "HEscapes", (4,)),
     bounds={"quick": "single-character classes: every 32-bit rune value; string classes: every ASCII string of up to 3 characters; escapes: every 3 ASCII characters after a backslash",
             "thorough": "ASCII strings of 4; 4 characters after a backslash"},
     outside="longer strings, non-ASCII strings (single non-ASCII characters are covered)")
prop("C08",
     quick=js("chars", "HRoundRune", *[(k,) for k in range(5)]) + js("chars", "HRoundASCII", (1,), (2,), (3,)) + js("chars", "HRoundSingle", (1,), (2,), (3,)) +
     js("chars", "HHex", (0, 0, 2), (1, 0, 4), (2, 4, 4), (2, 2, 6)) + js("chars", "HHexBad", (0, 0), (0, 1), (1, 0), (1, 2), (1, 3), (2, 0), (2, 3), (2, 6), (2, 7)) + js("chars", "HSimple", ()) + js("chars", "HAgree", (0, 3), (1, 3)),
     thorough=js("chars", "HRoundASCII", (4,)) + js("chars", "HRoundSingle", (4,)) + js("chars", "HAgree", (0, 4), (1, 4)),
     bounds={"quick": "every character of each UTF-8 length alone; every ASCII string of up to 3; every \\x, \\u escape and every \\U escape of 6 significant digits; every character after a backslash, each at the start, at the end and between other escapes and characters; escapes of too few digits, ended or followed by any other character",
             "thorough": "ASCII strings of 4"},
     outside="longer strings; ill-formed UTF-8")
prop("C09",
     quick=js("chars", "HToken", *[(o, 3) for o in range(17)]) + js("chars", "HTokenSym", (2, 2)),
     thorough=js("chars", "HToken", *[(o, 4) for o in range(17)]) + js("chars", "HTokenSym", (2, 3), (3, 2)),
     bounds={"quick": "17 token contents, every history of 3 questions; symbolic two-character contents, every history of 2 questions", "thorough": "histories of 4; 3-character contents"},
     outside="longer histories and contents")

# ---------------------------------------------------------------- C10 accessor
prop("C10",
     quick=js("lex", "HAccessor", *[(n, 0) for n in range(1, 8)], (6, 1), (6, 2)) + js("lex", "HAccessorDeep", (5, 4)) + js("lex", "HAccessorReuse", (5, 2)),
     thorough=js("lex", "HAccessor", (8, 0), (9, 0), (8, 1), (8, 2)) + js("lex", "HAccessorDeep", (6, 5)) + js("lex", "HAccessorReuse", (6, 3)),
     bounds={"quick": "every history of up to 7 operations (next, set checkpoint, commit, rollback) over symbolic 64-bit elements; runs of up to 4 steps between 5 checkpoint operations; reuse after 5 operations",
             "thorough": "histories of 9; runs of up to 5 between 6 operations"},
     outside="longer histories; element types other than 64-bit integers (the code is generic and does not look at them)")

# ---------------------------------------------------------------- C12 .. C14 scalars
prop("C12",
     quick=js("scal", "HInt", *[(k, n) for k in (0, 1, 2) for n in (1, 2, 3)]) + js("scal", "HFloat", *[(k, n) for k in (0, 1, 2, 3) for n in (1, 2, 3)], (3, 4)) + js("scal", "HBool", (1,), (4,), (5,)) + js("scal", "HEngines", ()),
     thorough=js("scal", "HInt", *[(k, 4) for k in (0, 1, 2)]) + js("scal", "HFloat", *[(k, 4) for k in (0, 1, 2, 3)], (3, 5)),
     bounds={"quick": "every string of up to 3 characters over alphabets of digits, signs, radix prefixes, dots and exponents; every 1-, 4- and 5-character word", "thorough": "strings of 4-5"},
     outside="longer numerals (their shape is decided by the same regular expressions)")
prop("C13",
     quick=js("scal", "HSize", (3, 8), (4, 8), (5, 16)) + js("scal", "HEdge", (0,), (1,), (2,)) + js("scal", "HFrom", (0,), (1,), (2,)) + js("scal", "HFromWide", (0,)) + js("scal", "HRadix", (0, 2, 8), (0, 3, 8), (0, 4, 16), (1, 3, 8), (1, 6, 16), (0, 16, 64)),
     thorough=js("scal", "HFromWide", (1,), (2,)) + js("scal", "HSize", (6, 16)) + js("scal", "HRadix", (0, 8, 32), (0, 9, 32), (1, 11, 32), (1, 21, 64)),
     bounds={"quick": "every numeral of up to 4 (5) digits against 8 (16) bit limits; every hexadecimal numeral of 16 digits against 64 bits, shorter ones and octal ones against 8 and 16 bits; the digits around the 64-bit limits with symbolic tails; formatting and reading back every integer of up to 16 bits, and 64-bit integers with a concrete high part", "thorough": "wider symbolic parts"},
     outside="fully symbolic 64-bit formatting (division chains are out of the solver's reach)")
prop("C14",
     quick=js("scal", "HFloatVals", ()) + js("scal", "HDate", *[(m, y) for m in range(7) for y in (2023, 2024, 1, 1999)]) + js("scal", "HClock", (0,), (1,), (2,)) + js("scal", "HStamp", *[(k,) for k in range(5)]),
     thorough=js("scal", "HDate", *[(m, y) for m in range(7) for y in (1970, 2000, 1900, 9999, 4)]),
     bounds={"quick": "every month and day of 4 years in 7 layouts; every hour, minute, second, fraction digit group symbolic; one arbitrary byte anywhere in five timestamps; floats from a list of 30 boundary values (concrete)", "thorough": "9 years"},
     outside="symbolic years, arbitrary zone names; floats are decided for listed values only (no float theory in the engine)")

# ---------------------------------------------------------------- C04 structure
prop("C04",
     quick=js("node", "HForm", *[(p, m) for p in range(24) for m in (0, 7)]) + js("node", "HPair", *[(c, p) for c in range(8) for p in (0, 3)]) + js("stream", "HStream", (0, 2, 0), (1, 3, 0)) + big("HParse", BIG) + js("render", "HDoc", (1, 0, 0), (2, 0, 0), (2, 0, 1), (3, 0, 1), (2, 1, 0), (2, 2, 1), (2, 4, 0), (2, 8, 1), (1, 12, 0)) +
     js("render", "HFlow", (2, 0, 0), (3, 0, 0), (2, 6, 0), (3, 4, 3)) + js("render", "HDocs", (1, 2, 0), (1, 3, 2)),
     thorough=js("node", "HForm", *[(p, m) for p in range(24) for m in range(16)]) + js("node", "HPair", *[(c, p) for c in range(8) for p in range(9)]) + js("render", "HDoc", (3, 0, 0), (3, 1, 1), (3, 2, 1), (3, 4, 1), (2, 6, 0), (2, 9, 0), (3, 8, 1), (2, 14, 1), (4, 0, 1)) + js("render", "HFlow", (4, 0, 3), (3, 6, 3), (4, 4, 3)) + js("render", "HDocs", (2, 2, 0), (1, 4, 0)),
     bounds={"quick": "every form of a node (18: scalars of every style, aliases, empty nodes, flow and block collections) with every combination of anchor and tag in 24 positions, with CR LF, comments and separate lines; every two forms side by side in 8 kinds of collections; streams of up to 3 lines; documents of 24 shapes, up to 40 levels deep or 150 entries, lines or words long, around an arbitrary small node; every tree of up to 3 collection entries (nesting included) rendered in block style with every choice of indentation, line breaks, comments, blank lines, anchors and explicit keys the mode allows, "
                      "and of up to 3 entries in flow style with every choice of spacing, trailing commas and comments; scalars with symbolic characters; up to 3 documents per stream",
             "thorough": "trees of up to 4 entries, combined modes, 4 documents"},
     outside="larger trees, scalars longer than two characters (C05 and C06 decide scalars)")

# ---------------------------------------------------------------- C05, C06 scalar styles
prop("C05",
     quick=js("style", "HOneLine", *[(c, 0, 2) for c in range(12)], *[(c, k, 3) for c in range(12) for k in range(1, 7)]) + js("node", "HText", *[(p, q, k, n) for p in range(24) for q in (0, 1) for k, n in ((0, 2), (1, 3))]) + js("node", "HUnicode", *[(p, q, 2) for p in range(24) for q in range(3)]) + js("node", "HBreaks", *[(p, 2, p % 2) for p in range(17)]) + big("HParse", (15, 16, 23)) + js("style", "HSingle", *[(c, 3) for c in range(4)]) + js("style", "HDouble", *[(c, 3) for c in range(4)]) +
     js("style", "HQuotedBlock", *[(c, q, 2, 2) for c in range(4) for q in (0, 1)]) + js("style", "HPlain", *[(c, n) for c in range(4) for n in (1, 2)]),
     thorough=js("style", "HOneLine", *[(c, 0, 3) for c in range(12)], *[(c, k, 4) for c in range(12) for k in range(1, 7)]) + js("node", "HText", *[(p, q, k, n) for p in range(24) for q in (0, 1) for k, n in ((0, 3), (1, 4), (2, 4), (3, 4), (4, 4))]) + js("node", "HUnicode", *[(p, q, 3) for p in range(24) for q in range(3)]) + js("node", "HBreaks", *[(p, 3, c) for p in range(17) for c in (0, 1)]) + js("style", "HSingle", *[(c, 4) for c in range(4)]) + js("style", "HDouble", *[(c, 4) for c in range(4)]) + js("style", "HQuotedBlock", *[(c, q, 3, 2) for c in range(4) for q in (0, 1)]) + js("style", "HPlain", *[(c, 3) for c in range(4)]),
     bounds={"quick": "every text of up to 3 characters over 7 alphabets which the specification lets be a plain scalar, in 12 positions; every text of up to 3 characters over 2 alphabets of indicators between either kind of quotes, and of 2 characters beyond ASCII, in 24 positions; every 2 line breaks, escaped and plain, of a double quoted scalar in 17 positions; long scalars; every single and double quoted scalar of 3 pieces (characters, blanks, line breaks, escapes), every two-line quoted scalar with symbolic lines and every plain scalar of up to 2 symbolic characters per part, in 4 surroundings", "thorough": "4 pieces; 3 characters"},
     outside="longer scalars")
prop("C06",
     quick=big("HParse", (17, 18)) + js("style", "HBlock", *[(c, st, e, 4, nl) for c in range(9) for st in (0, 1) for e in (0, 1) for nl in (0, 1) if not (c in (4, 7) and e == 1)],
              *[(c, st, e, 3, 2) for c in range(9) for st in (0, 1) for e in (0, 1) if not (c in (4, 7) and e == 1)]) + js("style", "HBlockText", *[(c, st, 3) for c in range(9) for st in (0, 1)]),
     thorough=js("style", "HBlock", *[(c, st, e, 5, nl) for c in range(9) for st in (0, 1) for e in (0, 1) for nl in (0, 1) if not (c in (4, 7) and e == 1)],
                 *[(c, st, e, 4, 2) for c in range(9) for st in (0, 1) for e in (0, 1) if not (c in (4, 7) and e == 1)]) + js("style", "HBlockText", *[(c, st, 4) for c in range(9) for st in (0, 1)]),
     bounds={"quick": "literal and folded scalars of 4 lines with every combination of line shapes, chomping and indentation indicators, spaces on empty lines, and of one line of 3 symbolic characters, in 9 surroundings (comments, siblings, documents after it)", "thorough": "5 lines; 4 characters"},
     outside="longer scalars; two consecutive more indented lines of a folded scalar (known finding); an explicit indentation indicator at the root of a document (the specification's formula and practice differ there)")

# ---------------------------------------------------------------- C11 balance
prop("C11",
     quick=js("parse", "HBalance", *[(c, n) for c in range(9) for n in (3, 4)]) + js("parse", "HQuoteOpen", *[(c, q, 3) for c in range(7) for q in (0, 1)]),
     thorough=js("parse", "HBalance", *[(c, n) for c in range(9) for n in (5, 6)]) + js("parse", "HQuoteOpen", *[(c, q, n) for c in range(7) for q in (0, 1) for n in (4, 5)]),
     bounds={"quick": "every string of up to 4 brackets, separators and text in 9 surroundings; every quoted scalar left open with 3 symbolic characters after it in 7 surroundings", "thorough": "6 characters; 5 after an open quote"},
     outside="longer strings; stray closing brackets outside flow collections (accepted as plain text)")

# ---------------------------------------------------------------- C15 .. C17 building and writing
prop("C15",
     quick=js("build", "HHistory", *[(e, s, n, k) for e in (0, 1) for s, n, k in ((0, 3, 1), (1, 5, 1), (1, 6, 2), *[(2, n, 1) for n in range(3, 10)], *[(3, n, 1) for n in range(3, 9)], (4, 5, 1), (4, 6, 1), (0, 2, 2))]),
     thorough=js("build", "HHistory", *[(e, s, n, k) for e in (0, 1) for s, n, k in ((0, 4, 1), (1, 6, 3), (1, 8, 1), (0, 3, 2), (2, 13, 1), (3, 12, 1), (4, 10, 1))]),
     bounds={"quick": "every history of up to 6 builder calls over integers and collections, 9 over integers and mappings, 8 over integers and sequences, and of up to 3 over every kind of call, up to 2 trees per builder", "thorough": "8, 13, 12 and 4 calls"},
     outside="longer histories")
prop("C16",
     quick=big("HEncode", BIGT, (0, 1), (9, 40), ()) + js("build", "HRound", *[(0, s, 2, 3, h) for s in range(4) for h in (0, 1)], *[(1, s, 1, 3, h) for s in range(4) for h in (0, 1)]) + js("build", "HUnquoted", (0, 2), (1, 1)),
     thorough=js("build", "HRound", *[(0, s, 3, 3, h) for s in range(4) for h in (0, 1)], *[(0, s, 2, 4, h) for s in range(4) for h in (0, 1)], (1, 1, 2, 3, 0)) + js("build", "HUnquoted", (0, 3)),
     bounds={"quick": "documents of 24 shapes, up to 40 levels deep or 150 entries, lines or words long, around an arbitrary small node; trees of up to 3 nodes with string scalars of up to 2 (external engine: 1) symbolic bytes over 4 alphabets, integers, booleans and nulls, encoded and decoded by each engine", "thorough": "4 nodes; 3 bytes (2 for the external engine)"},
     outside="larger trees, longer strings, ill-formed UTF-8; strings written unquoted by request that spell another type",
     assumptions=["yaml.v3 itself runs symbolically from source except its reflection entry points, which are replaced by typed equivalents for symbolic execution only; native replay uses the real library"])
prop("C17",
     quick=js("node", "HFormWrite", *[(p, 0) for p in range(24)]) + js("node", "HPairWrite", *[(c, p) for c in range(8) for p in (0, 3)]) + big("HWrite", BIG) + js("write", "HRewrite", (0, 0, 2), (0, 0, 3), (0, 1, 4), (0, 2, 4), (0, 3, 4), (0, 4, 3), (0, 5, 4), *[(c, k, 2) for c in range(1, 16) for k in range(6)]),
     thorough=js("node", "HTextWrite", *[(p, q, k, 3) for p in range(24) for q in (0, 1) for k in range(5)]) + js("node", "HPairWrite", *[(c, p) for c in range(8) for p in range(9)]) + js("write", "HRewrite", (0, 0, 4), (0, 1, 5), (0, 2, 5), (0, 3, 5), (0, 4, 4), (0, 5, 5), *[(c, k, 3) for c in range(1, 16) for k in range(6)]),
     bounds={"quick": "every form of a node with every combination of properties in 24 positions, every two forms side by side; documents of 24 shapes, up to 40 levels deep or 150 entries, lines or words long, around an arbitrary small node; every string of up to 4 characters over 6 alphabets as a document and of 2 in 15 surroundings: parsed, written, parsed again", "thorough": "5 characters; 3 in the surroundings"},
     outside="longer documents; tags other than !!; anchor names with punctuation")

# ---------------------------------------------------------------- C18 indentation
prop("C18",
     quick=js("node", "HForm", *[(p, 0) for p in range(10)]) + js("node", "HPair", *[(c, 0) for c in (0, 1, 2, 3, 7)]) + big("HParse", (3, 4, 5, 6, 12)) + js("layout", "HLines", (1, 3, 0, 0), (2, 4, 0, 0), (2, 4, 2, 0), (2, 3, 0, 1), (2, 3, 2, 1), (3, 2, 1, 0), (3, 3, 3, 0), (3, 1, 2, 0), (4, 2, 3, 0)),
     thorough=js("layout", "HLines", (3, 3, 0, 0), (3, 3, 1, 1), (3, 2, 2, 0), (4, 3, 3, 0), (4, 2, 1, 0), (5, 2, 3, 0), (3, 4, 1, 0)),
     bounds={"quick": "every form of a node in 10 block positions; deep documents; every document of up to 3 lines, each indented by 0 to 2 (two lines: 4) columns and of one of up to 11 shapes (key, key and value, entry, nested entries, explicit key and value, scalar); of 4 lines over 3 shapes; the texts of the first two lines symbolic",
             "thorough": "4 lines over 6 shapes, 5 lines over 3"},
     outside="longer documents; tabs; multi-line plain scalars", reach=["accepted", "rejected"])

# ---------------------------------------------------------------- C19 .. C24 reading
E2 = (0, 1)
prop("C19",
     quick=big("HWalk", BIGT, (0, 1), (9, 40), ()) + js("read", "HRead", *[(e, 0, 0, 0, 2, 1, 2, 1) for e in E2], *[(e, 0, 2, 5, 3, 1, 4, 0) for e in E2], (0, 0, 0, 6, 1, 0, 1, 0), (1, 0, 7, 6, 1, 0, 1, 0), *[(e, 0, 1, 2, 3, 2, 4, 8) for e in E2],
              *[(e, 1, 1, 2, 3, 2, 4, 0) for e in E2], *[(e, 2, 1, 2, 3, 1, 4, 0) for e in E2], (0, 1, 1, 2, 2, 1, 3, 1)) +
     js("read", "HWalk", *[(e, 0, 2, 5, 2, w, 0) for e in E2 for w in (0, 2)], *[(e, s, 2, 4, 2, 0, 0) for e in E2 for s in (1, 2)], *[(e, 0, 0, 3, 2, 0, 0) for e in E2]) +
     js("read", "HEmpty", (0, 8, 2, 2), (1, 0, 2, 2)),
     thorough=js("read", "HRead", *[(e, 0, 1, 2, 4, 2, 6, 0) for e in E2], *[(e, 0, 1, 5, 3, 2, 4, 0) for e in E2], *[(e, 0, 0, 1, 3, 1, 3, 0) for e in E2], *[(e, 0, 2, 6, 2, 1, 3, 0) for e in E2], *[(e, 2, 1, 2, 3, 2, 4, 0) for e in E2]) +
     js("read", "HWalk", *[(e, s, 2, 6, 2, 0, 0) for e in E2 for s in (0, 1, 2)], *[(e, 0, 2, 5, 3, w, 0) for e in E2 for w in (0, 2, 4)], *[(e, 0, 0, 3, 2, 0, 1) for e in E2]),
     bounds={"quick": "documents of 24 shapes, up to 40 levels deep or 150 entries, lines or words long, around an arbitrary small node; documents of up to 2 nodes with 13 scalars (tagged or not) and every 2 of the 15 reads; of up to 3 nodes with symbolic scalars and every 4 of 7 reads; a scalar of 2 symbolic characters and every read; documents of up to 5 nodes, "
                      "as trees and as flow and block text, read to the end, any part skipped; every document of 2 breaks, blanks and comment signs and every 2 reads; both engines",
             "thorough": "6 reads of documents of 4 nodes, 3 reads out of 15 of documents of 3 nodes, documents of 6 nodes to the end"},
     outside="larger documents, longer reading histories; reading position inside an entry of a mapping as seen by the collection state; Raw and Node at the position of a key (yayamls)",
     assumptions=["yaml.v3 itself runs symbolically from source except its reflection entry points; native replay uses the real library"], reach=["denied", "end", "finished"])
prop("C20",
     quick=js("node", "HFormRead", *[(p, 0) for p in range(24)]) + js("node", "HPairRead", *[(c, p) for c in range(7) for p in (0, 3)]) + big("HAny", BIGT, (0, 1), (9, 40), ()) + js("read", "HText", *[(e, k, n) for e in E2 for k, n in ((0, 1), (0, 2), (0, 3), (1, 1), (1, 4), (2, 4), (6, 5), (4, 4), (4, 5), (3, 4), (5, 4), (7, 4), (7, 3))]) + js("read", "HDate", *[(e, n) for e in E2 for n in (3, 4)]) +
     js("read", "HWalk", *[(e, 0, 2, 5, 2, 1, 0) for e in E2], *[(e, s, 2, 4, 2, 1, 0) for e in E2 for s in (1, 2)]) + js("read", "HRead", *[(e, 0, 5, 0, 3, 1, 3, 0) for e in E2], *[(e, 0, 5, 5, 3, 1, 3, 0) for e in E2]),
     thorough=js("read", "HText", *[(e, k, n) for e in E2 for k, n in ((0, 4), (1, 5), (2, 5), (3, 5), (5, 5), (7, 5))]) + js("read", "HDate", *[(e, 5) for e in E2]) +
     js("read", "HWalk", *[(e, 0, 2, 6, 2, 1, 0) for e in E2], *[(e, s, 2, 5, 2, 1, 0) for e in E2 for s in (1, 2)], *[(e, 0, 0, 3, 2, 1, 0) for e in E2]) + js("read", "HRead", *[(e, 0, 5, 6, 3, 1, 3, 0) for e in E2], *[(e, 0, 5, 0, 3, 2, 3, 0) for e in E2]),
     bounds={"quick": "every form of a node in 24 positions, every two side by side; documents of 24 shapes, up to 40 levels deep or 150 entries, lines or words long, around an arbitrary small node; scalars of up to 5 symbolic characters over 8 alphabets and dates with 4 symbolic characters, in each style; documents of up to 5 nodes as trees and of up to 4 as flow and block text; both engines", "thorough": "documents of 6 nodes; 5 characters over every alphabet"},
     outside="larger documents; collections as keys of mappings", reach=["null", "timestamp", "unsigned", "integer", "float", "boolean", "string", "quoted"])
prop("C21",
     quick=js("read", "HMerge", *[(e, s, b, 2, 1) for e in E2 for s in (0, 1) for b in (0, 1)], *[(e, 0, 2, 2, 1) for e in E2], *[(e, 0, 0, 1, 2) for e in E2]),
     thorough=js("read", "HMerge", *[(e, 0, 1, 3, 1) for e in E2], *[(e, 0, 1, 2, 2) for e in E2], *[(e, 1, 2, 2, 1) for e in E2], *[(e, 2, 1, 2, 1) for e in E2]),
     bounds={"quick": "mappings of up to 2 entries with symbolic keys, each entry own or merged from a mapping, an alias or a sequence of them, up to 2 anchored mappings, one level of nesting (two without anchors), one of the values null; both engines", "thorough": "3 entries, two levels"},
     outside="more entries; merge keys whose value is no mapping; quoted merge keys; merging into structs (not supported)")
prop("C22",
     quick=big("HParse", (14,)) + js("read", "HWalk", *[(e, 0, 3, 3, 2, w, 2) for e in E2 for w in (0, 1, 2, 4)], *[(e, 2, 3, 3, 2, 0, 2) for e in E2], *[(e, 1, 3, 3, 1, w, 4) for e in E2 for w in (0, 1, 2)], *[(e, 0, 2, 3, 1, w, 4) for e in E2 for w in (0, 1)]) +
     js("read", "HRead", *[(e, 1, 5, 3, 3, 1, 4, 2) for e in E2], *[(e, 0, 5, 5, 2, 1, 3, 2) for e in E2]) +
     js("read", "HAgain", *[(e, s, 3, w) for e in E2 for s in (0, 1, 2) for w in (0, 1, 2, 4)]),
     thorough=js("read", "HAgain", *[(e, s, 4, w) for e in E2 for s in (0, 1, 2) for w in (0, 1)]) + js("read", "HWalk", *[(e, 0, 3, 4, 2, w, 2) for e in E2 for w in (0,)], *[(e, 0, 3, 3, 2, 0, 4) for e in E2], *[(e, 0, 3, 4, 1, w, 4) for e in E2 for w in (0, 1)], *[(e, 1, 3, 3, 2, 1, 2) for e in E2]),
     bounds={"quick": "documents of up to 3 nodes with two children each, every node anchored or not or an alias of any earlier node (or of an enclosing one, or undefined), read to the end node by node or with any part read as a value, skipped or taken as a node; trees, flow and block text; sequences of 3 nodes and aliases all of which may define and use one anchor; both engines",
             "thorough": "documents of 4 nodes"},
     outside="anchors defined more than once while an aliased node refers to the earlier one (known finding); larger documents", reach=["bad alias", "finished"])
prop("C23",
     quick=big("HRaw", BIGT, (0, 1), (9, 40), ()) + js("read", "HWalk", *[(e, 0, 3, 3, 2, 3, 2) for e in E2], *[(e, s, 2, 4, 2, 3, 0) for e in E2 for s in (0, 1)], *[(e, 1, 3, 3, 1, 3, 4) for e in E2]) + js("read", "HAgain", *[(e, s, 3, 3) for e in E2 for s in (0, 1, 2)]) + js("read", "HTree", *[(e, 2, 2, 2, 2) for e in E2], *[(e, 3, 3, 1, 2) for e in E2], *[(e, 0, 3, 1, 0) for e in E2], (0, 5, 2, 1, 0)),
     thorough=js("read", "HWalk", *[(e, 0, 3, 4, 1, 3, 2) for e in E2], *[(e, s, 2, 5, 2, 3, 0) for e in E2 for s in (0, 1, 2)]) + js("read", "HTree", *[(e, 3, 3, 2, 2) for e in E2], *[(e, 1, 4, 2, 0) for e in E2], *[(e, 0, 3, 2, 0) for e in E2]),
     bounds={"quick": "documents of 24 shapes, up to 40 levels deep or 150 entries, lines or words long, around an arbitrary small node; documents of up to 3 nodes with anchors and aliases (4 without), any node taken raw, the data parsed again; the tree compared with itself before; both engines", "thorough": "4 nodes with anchors, 5 without"},
     outside="larger documents; raw data at the position of a key (yayamls)", reach=["raw", "same"])
prop("C24",
     quick=js("read", "HInert", *[(e, 0, 1, 2, 2, 2, 3, 1, 0) for e in E2], *[(e, 0, 0, 2, 2, 1, 2, 1, 0) for e in E2], *[(e, 0, 2, 3, 2, 1, 3, 2, 0) for e in E2], *[(e, 0, 5, 3, 2, 1, 3, 1, 4) for e in E2], *[(e, 0, 1, 2, 2, 1, 3, 1, 8) for e in E2]) +
     js("read", "HLoops", *[(e, 0, 1, 4, 2, sh, pr) for e in E2 for sh in (2, 3, 4, 5, 6, 7) for pr in (0, 8)], *[(e, 1, 2, 4, 2, sh, 0) for e in E2 for sh in (4, 5)], *[(e, 0, 3, 3, 1, sh, 4) for e in E2 for sh in (4, 5, 6)]),
     thorough=js("read", "HInert", *[(e, 0, 1, 2, 3, 2, 4, 1, 0) for e in E2], *[(e, 0, 0, 1, 2, 1, 2, 2, 0) for e in E2], *[(e, 0, 5, 3, 3, 1, 4, 1, 4) for e in E2]) +
     js("read", "HLoops", *[(e, 0, 2, 5, 2, sh, pr) for e in E2 for sh in (4, 5, 6, 7) for pr in (0, 8)], *[(e, 0, 3, 4, 1, sh, 4) for e in E2 for sh in (4, 5, 6, 7)]),
     bounds={"quick": "every 3 reads or added errors on documents of up to 2 nodes until the first error, then up to 2 more; programs expecting nested sequences and mappings on every document of up to 4 nodes, with and without collected denials; both engines", "thorough": "4 reads, documents of 3 to 5 nodes"},
     outside="larger documents, longer histories", reach=["dead", "ended"])

# ---------------------------------------------------------------- C25 histories
prop("C25",
     quick=js("hist", "HParse", *[(c, 0, 2, b, m) for c, b, m in ((0, 0, 0), (1, 1, 1), (2, 2, 2), (3, 3, 0), (4, 4, 1), (5, 5, 2), (6, 6, 0), (7, 0, 1), (8, 1, 0), (9, 3, 0), (3, 0, 2), (6, 1, 2), (0, 6, 2))],
              *[(0, k, 3, b, m) for k, b, m in ((1, 0, 0), (2, 1, 1), (3, 6, 2), (4, 1, 0), (1, 2, 2))]) +
     js("hist", "HWrite", *[(c, 0, 2, b, w) for c, b, w in ((0, 0, 0), (1, 1, 1), (2, 3, 2), (3, 0, 3), (5, 1, 2), (6, 0, 1), (7, 5, 0), (1, 0, 3), (2, 6, 1), (0, 1, 2))]) +
     js("read", "HTwo", *[(e, 3, 3, 2, 2, 3, 0) for e in E2], *[(e, 3, 3, 2, 1, 3, 2) for e in E2]),
     thorough=js("hist", "HParse", *[(c, 0, 2, b, m) for c in range(10) for b in range(7) for m in range(3)], *[(0, k, 4, b, m) for k in (1, 2, 3, 4) for b in (0, 1, 6) for m in range(3)]) +
     js("hist", "HWrite", *[(c, 0, 2, b, w) for c in range(9) for b in (0, 1, 3, 5, 6) for w in range(4)], *[(0, k, 3, b, w) for k in (1, 2, 4) for b in (0, 1) for w in range(4)]) +
     js("read", "HTwo", *[(e, 3, 3, 2, 2, 4, 0) for e in E2], *[(e, 4, 3, 3, 1, 4, 2) for e in E2]),
     bounds={"quick": "7 documents parsed, and 5 written, before and after an arbitrary document of 2 symbolic characters in 10 surroundings or of 3 over structural alphabets, accepted or not, as string, bytes or tokens, written as string, bytes, or unsuccessfully; every interleaving of 3 reads by two decoders of one tree of up to 2 nodes",
             "thorough": "every combination of the surroundings, documents and ways; 4 characters; 4 reads"},
     outside="longer histories; a pool is modelled as giving back what was put last; several goroutines", reach=["accepted", "rejected", "both"])

# ---------------------------------------------------------------- C29 facade
prop("C29",
     quick=js("facade", "HStub", (1, 1), (2, 1), (1, 2)) + js("facade", "HOutputs", *[(e, n) for e in E2 for n in (1, 3, 4)]),
     thorough=js("facade", "HStub", (3, 1)) + js("facade", "HOutputs", *[(e, n) for e in E2 for n in (5, 6)]),
     bounds={"quick": "every history of up to 2 of the 13 insertions with symbolic arguments over a builder and a writer which fail or not, twice in a row; every history of up to 4 insertions over the real engines, to string, bytes and destinations failing after up to 3 bytes", "thorough": "3 insertions; 6 over the real engines"},
     outside="longer histories", reach=["builder fails", "writer fails", "written", "encoded"])

# ---------------------------------------------------------------- C26 .. C28 generated code
GEN = ["all", "anys", "clash", "inlined", "inltag", "ints", "lists", "maps", "omit", "omitall", "ptrrecv", "rec", "rootarr", "rootlist", "rootmap", "rootscalar", "scalars", "strict", "structs"]
GALL = ["gen/%s_%s" % (e, c) for c in GEN for e in "yg"]
GOWN = ["gen/y_text", "gen/g_text", "gen/y_own_y", "gen/g_own_g", "gen/y_ifc_y", "gen/g_ifc_g"]


def gs(pkgs, fn, *argss):
    return [j for p in pkgs for j in js(p, fn, *argss)]


YV3 = ["yaml.v3 itself runs symbolically from source except its reflection entry points; native replay uses the real library"]
prop("C26",
     quick=gs(GALL, "HEnc", (1, 2, 3), (2, 1, 3)) + gs(GALL, "HTxt", (1, 1, 3)),
     thorough=gs(GALL, "HEnc", (2, 1, 4), (3, 0, 3)) + gs(GALL, "HTxt", (1, 2, 3), (2, 1, 3)),
     bounds={"quick": "code generated for 19 types (scalars of every kind and size, pointers, sequences, arrays, mappings, nested, recursive, embedded and inlined structs, types and packages of the same names, every option of yamlygen) by both engines; every value with 2 arbitrary positions (strings of one arbitrary character, boundary numbers, nil, "
                      "empty and filled collections) down to 3 levels, as a tree and, with one arbitrary position, as text",
             "thorough": "two arbitrary positions as text, strings of two arbitrary characters, four levels, three arbitrary positions"},
     outside="other types; untyped values other than nil (yayamls reports an error, goyaml uses the reflection of yaml.v3); numbers other than boundary values (C13); nil pointers which are inlined read back as pointers to zero values",
     assumptions=YV3, reach=["encoded", "marshalled"])
prop("C27",
     quick=gs(GALL, "HDec", (0, 1, 3, 13), (1, 1, 3, 13)) + gs(GALL, "HKeys", (1, 3, 1), (1, 3, 2), (1, 3, 4)) + gs([g for g in GALL if g.split("_")[1] in ("inlined", "ints", "lists", "maps", "rootarr", "rootlist", "rootmap", "strict", "scalars", "inltag", "anys")], "HDec", (0, 2, 3, 3)) + gs(["gen/y_scalars", "gen/y_rootlist"], "HBad", (0,), (1,), (2,)) + gs(GALL, "HInto", (1, 3, 7), (2, 2, 1)),
     thorough=gs(GALL, "HInto", (1, 4, 13), (2, 3, 3)) + gs(GALL, "HDec", (0, 2, 3, 5), (0, 1, 4, 13), (1, 2, 3, 2)) + gs(GALL, "HKeys", (2, 3, 2), (1, 4, 3)) + gs(["gen/y_scalars", "gen/y_rootlist"], "HBad", (3,)),
     bounds={"quick": "code generated for the 19 types of C26 by both engines; every document of which one position is arbitrary (13 scalars, any quoted text of two characters, a sequence, a mapping, nothing, unknown fields with any value, surplus elements), as a tree and as flow text; every key of 1, 2 and 4 characters; two arbitrary positions for 11 of the types; every text of 2 characters over indicators, breaks, a letter and a digit, document or not; decoding into a variable every field of which is set (arrays aside)",
             "thorough": "two arbitrary positions for every type, four levels, text with two arbitrary positions"},
     outside="what null does to a field which is set, and elements of arrays which are set and not named; fields given twice; anchors and aliases (C22)",
     assumptions=YV3, reach=["fits", "reported", "no document", "document", "set"])
prop("C28",
     quick=gs(GOWN, "HEnc", (1, 2, 3), (2, 1, 3)) + gs(GOWN, "HTxt", (1, 2, 3)) + gs(GOWN, "HDec", (0, 1, 3, 13), (1, 1, 3, 13), (0, 2, 3, 3)) + gs(GOWN, "HInto", (1, 3, 13), (2, 2, 1)),
     thorough=gs(GOWN, "HInto", (2, 3, 3)) + gs(GOWN, "HEnc", (2, 2, 4)) + gs(GOWN, "HTxt", (2, 1, 3)) + gs(GOWN, "HDec", (0, 2, 3, 13), (1, 2, 3, 3)),
     bounds={"quick": "types with methods of yamly, of the engine, of text, and with several of them, on values and on pointers, as fields, behind pointers, in interfaces, sequences, arrays and mappings, by both engines; every value with 2 arbitrary positions and every document with 2; interfaces which hold nothing, or a value which then reads the document",
             "thorough": "strings of two arbitrary characters in both positions, text with two arbitrary positions"},
     outside="methods of yaml.Marshaler which give other things than nodes; methods which fail when encoding", assumptions=YV3, reach=["encoded", "marshalled", "fits", "reported"])

# ---------------------------------------------------------------- C30, C31 tools on trees
prop("C30",
     quick=js("trees", "HEqual", (2, 2, 1), (3, 3, 0), (3, 1, 1)) + js("trees", "HNil", (3,)),
     thorough=js("trees", "HEqual", (3, 3, 1), (4, 3, 0), (4, 4, 0)) + js("trees", "HNil", (4,)),
     bounds={"quick": "every pair of trees of up to 2 nodes over all kinds of node, every pair of up to 3 over texts, sequences and mappings, with symbolic texts; a tree and no tree",
             "thorough": "3 nodes of all kinds, 4 of the common ones"},
     outside="larger trees; other orders of the two goroutines (the comparator's only communication is over unbuffered channels, on which the order cannot change what is received)", reach=["equal", "different"])
prop("C31",
     quick=js("trees", "HPrint", (2, 1), (3, 0)),
     thorough=js("trees", "HPrint", (3, 1), (4, 0)),
     bounds={"quick": "every tree of up to 2 nodes of all kinds and of up to 3 of the common kinds, with symbolic texts, printed to a destination which fails at any write or none", "thorough": "3 and 4 nodes"},
     outside="larger trees", reach=["printed"])

# ---------------------------------------------------------------- C32 concurrent calls
CC = 14
prop("C32",
     quick=js("conc", "HParses", (1, 1, 1, 0, 1), (7, 2, 1, 1, 1), (0, 3, 1, 2, 1), (5, 4, 1, 5, 1)) +
     js("conc", "HWrites", *[(c, 0, 1, b) for c in (1, 2, 5, 7) for b in (0, 1, 5)]) + js("conc", "HTokens", *[(c, 0, 1, b, 5) for c in (0, 5, 6) for b in (0, 3)]) +
     js("conc", "HShareParse", *[(c, 0, 1, m) for c in range(CC) for m in range(3)], (0, 0, 2, 0), (1, 0, 2, 0), (3, 1, 2, 0)) +
     js("conc", "HShareTree", *[(e, c, 0, 1, w) for e in (0, 1) for c in range(CC) for w in range(6)]) +
     js("conc", "HShareBuild", (0, 2), (1, 2), (0, 3), (1, 3)) + js("conc", "HShareSchema", (2,), (3,)),
     thorough=js("conc", "HParses", *[(c, k, 1, b, 2) for c in range(CC) for k in (1, 2, 3) for b in range(7)]) +
     js("conc", "HWrites", *[(c, 0, 2, b) for c in range(CC) for b in (0, 1, 3, 5, 6)]) + js("conc", "HTokens", *[(c, k, 2, b, 7) for c in range(CC) for k in (0, 3) for b in range(7)]) +
     js("conc", "HShareParse", *[(c, 0, 2, m) for c in range(CC) for m in range(3)]) + js("conc", "HShareTree", *[(e, c, 0, 2, w) for e in (0, 1) for c in range(CC) for w in range(6)]) +
     js("conc", "HShareBuild", (0, 4), (1, 4)) + js("conc", "HShareSchema", (4,)),
     bounds={"quick": "two parses switched at any one token, two writers one inside the other's write, two tokenizers in any order of 5 tokens; for parsing, reading, writing, comparing, building and encoding with 1 to 3 arbitrary positions: no write to memory other calls can reach",
             "thorough": "two switches, 2 arbitrary positions, 7 tokens, histories of 4 insertions"},
     outside="switches inside a token or a call other than through the absence of writes to shared memory; a schedule in which a repository lock is held is judged by the race detector on replay",
     assumptions=["sync, sync.Pool, time and reflect of the standard library are safe for concurrent use"], reach=["accepted", "rejected", "shared"])

# ---------------------------------------------------------------- C33 streams
prop("C33",
     quick=js("stream", "HStream", *[(0, 2, m) for m in range(4)], (0, 3, 0), (1, 4, 0), (1, 4, 3), (2, 4, 0), (2, 4, 2), (3, 4, 0), (3, 4, 3)) + big("HParse", (11,), None, (9, 40, 100), ()),
     thorough=js("stream", "HStream", (0, 3, 3), (0, 4, 0), (1, 5, 0), (1, 5, 3), (2, 5, 0), (2, 6, 2), (3, 5, 0), (3, 5, 3)),
     bounds={"quick": "every stream of 2 or 3 lines of 17 kinds (markers alone, with content or a comment, text, text starting like a marker, indented markers, comments, blank lines, entries, directives, literal, quoted and flow contents) and of 4 lines of 6 kinds, ended by a line break or not, LF or CR LF; streams of 201 documents", "thorough": "4 lines of every kind, 5 and 6 of six kinds"},
     outside="markers inside of quoted scalars and flow collections (accepted as text); longer streams", reach=["documents", "refused", "parsed"])
