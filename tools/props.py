#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (single source of the property texts).

A property is claimed when bin/props.py has jobs for it; the others need a reason in NA."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import props
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))


Y = 'engines/yayamls/'
G = 'engines/goyaml/'
p('C01', 'Tokenizing and parsing never panic and always finish',
  'For every byte string, valid YAML or not, tokenizing and parsing it with the yayamls engine (as a string, as bytes or from tokens) finishes and gives either a tree or an error: it never panics, never overflows the stack and never loops forever.',
  ['inputs'], 'every byte string', 'The tests parse a few hundred well-formed documents; the guarantee is about every malformed or hostile one.',
  [Y + 'lexer/tokenizer.go', Y + 'lexer/context.go', Y + 'parser/'],
  [('recursive descent with checkpoints and dead-end detection', Y + 'parser/parser.go'), ('checkpointing accessors', Y + 'pkg/cpaccessor/accessor.go')], ['parser.ParseString', 'lexer.Tokenizer.Next'])
p('C02', 'The tokens of a source are the source, nothing lost, added or reordered',
  'For every source text, the originating texts of the tokens, in order and up to the end of the source, are exactly the source, in the normal and in the raw mode and across every sequence of switches between them. '
  'The position of every token is the row and column at which it starts, and the end of the source is reported once reached and ever after.',
  ['inputs', 'histories'], 'every source text, every sequence of mode switches', 'Tests compare token lists of chosen sources; losing or duplicating a character needs a rare combination of indicators.',
  [Y + 'lexer/tokenizer.go', Y + 'lexer/context.go', Y + 'lexer/rune_stream.go', Y + 'pkg/strslice/'],
  [('tokenizer with context stack and lookahead', Y + 'lexer/tokenizer.go'), ('rune stream with positions', Y + 'lexer/rune_stream.go')], ['lexer.Tokenizer.Next', 'lexer.Tokenizer.SetRawMode'])
p('C03', 'An accepted document loses no text',
  'When the yayamls parser accepts a source without an error, every letter of the source that is not part of a comment, a tag, a directive or an escape appears in the tree, in order and as often as in the source: no part of an accepted document is dropped or duplicated.',
  ['inputs'], 'every source text', 'Backtracking parsers lose text on unusual inputs only; the tests assert trees for sources that were written to be valid.',
  [Y + 'parser/', Y + 'lexer/'], [('alternatives tried with checkpoints, end of source required', Y + 'parser/parser.go')], ['parser.ParseString'])
p('C04', 'Documents parse to the structure they are written as',
  'For every tree of sequences, mappings and scalars and every way of writing it allowed by YAML (block style with any indentation, flow style with any spacing, comments, blank lines, anchors, tags, explicit keys, LF or CR LF, one or several documents), parsing the text with the yayamls engine gives that tree.',
  ['inputs', 'configurations'], 'every tree and every presentation of it', 'Tests check one presentation of some dozens of trees; presentation choices multiply.',
  [Y + 'parser/block.go', Y + 'parser/flow.go', Y + 'parser/indents.go', Y + 'parser/comments.go', Y + 'parser/documents.go', Y + 'parser/properties.go'],
  [('indentation productions', Y + 'parser/indents.go'), ('block and flow collections', Y + 'parser/block.go, flow.go')], ['parser.ParseString'])
p('C05', 'Plain and quoted scalars have the value YAML gives them',
  'A plain, single quoted or double quoted scalar parsed by the yayamls engine has exactly the value YAML assigns to its text: quotes doubled or escaped, escapes resolved, line breaks folded, white space around breaks dropped; '
  'on one or several lines, as document, key, value or element.',
  ['inputs'], 'every scalar text in every surrounding', 'The rules interact (escapes next to breaks, quotes next to blanks); the tests cover some examples from the specification.',
  [Y + 'parser/flow.go', Y + 'lexer/', Y + 'yamlchar/transformations.go'], [('quoted and plain productions', Y + 'parser/flow.go'), ('escape conversion', Y + 'yamlchar/transformations.go')], ['parser.ParseString'])
p('C06', 'Block scalars have the text, folding and chomping YAML gives them',
  'A literal or folded block scalar parsed by the yayamls engine has exactly the text YAML assigns to its lines: the indentation is removed, every character of a line is text, folded lines are joined, and the final breaks are clipped, stripped or kept as its header says; '
  'the scalar ends exactly where its indentation does.',
  ['inputs', 'configurations'], 'every sequence of lines, header and surrounding', 'The tests fix a few bodies; line shapes, headers and surroundings multiply.',
  [Y + 'parser/block.go', Y + 'parser/indents.go', Y + 'lexer/'], [('block scalar productions', Y + 'parser/block.go')], ['parser.ParseString'])
p('C07', 'Character classes are those of the YAML specification',
  'For every character, and for every string built of them, the membership tests for the YAML character classes (printable, white space, break, indicator, flow indicator, decimal and hexadecimal digit, word, URI, tag, anchor, plain safe characters) answer exactly what the YAML 1.2 specification defines.',
  ['inputs'], 'every character and string', 'The tests try single members of each class, not the complement.',
  [Y + 'yamlchar/chars.go', Y + 'yamlchar/charset.go'], [('character predicates and their combinations', Y + 'yamlchar/charset.go')], ['yamlchar.ConformsCharSet'])
p('C08', 'Quoting, escaping and unescaping are inverse to each other',
  'Every string that is quoted (single or double) or escaped by the library gives back the same string when it is unquoted or unescaped by the library; every hexadecimal and one-letter escape of YAML gives the character the specification names, and malformed escapes are reported.',
  ['inputs'], 'every string and every escape sequence', 'Tests cover some escapes; the failures are at digits, lengths and neighbours of an escape.',
  [Y + 'yamlchar/transformations.go'], [('escape tables and conversion', Y + 'yamlchar/transformations.go')], ['yamlchar.ConvertFromYAMLDoubleQuotedString and its inverse'])
p('C09', 'What a token tells about its characters does not depend on earlier questions',
  'Asking a token whether its text conforms to a set of characters gives the same answer as testing the text itself, whatever questions were asked before and in whatever order.',
  ['inputs', 'histories'], 'every token text and every history of questions', 'The answers are memoised in bit maps; the tests ask one question per token.',
  [Y + 'token/token.go', Y + 'token/bitmap.go'], [('memoised conformity bit maps', Y + 'token/bitmap.go')], ['token.Token.ConformsCharSet'])
p('C10', 'Backtracking restores exactly the elements read since the checkpoint',
  'For every history of reading elements and setting, committing and rolling back (nested) checkpoints, the elements delivered are those of the source in order, each rollback goes back exactly to its own checkpoint, and nothing is lost, repeated or delivered after the end.',
  ['histories', 'inputs'], 'every history of operations over every source', 'Tests run a handful of scripted histories.',
  [Y + 'pkg/cpaccessor/accessor.go'], [('buffer with checkpoint stack', Y + 'pkg/cpaccessor/accessor.go')], ['cpaccessor.CheckpointingAccessor'])
p('C11', 'Unbalanced brackets and unterminated quotes are rejected',
  'The yayamls parser never accepts a flow collection whose brackets are not properly closed, in the right order and by the right bracket, nor a quoted scalar that is not terminated: such a source gives an error, in every surrounding.',
  ['inputs'], 'every source with an open bracket or quote', 'Tests hold few rejected sources.',
  [Y + 'parser/internal/balancecheck/balancecheck.go', Y + 'parser/flow.go', Y + 'parser/parser.go'], [('balance checker over the tokens', Y + 'parser/internal/balancecheck/balancecheck.go')], ['parser.ParseString'])
p('C12', 'Plain scalars are recognised as null, boolean, integer or float by the schema',
  'For every text, the schemas of the engines recognise it as null, boolean, integer or float exactly when the YAML core schema does, and the two engines agree; every text recognised as a number is converted without an error when it is in range.',
  ['inputs'], 'every scalar text', 'Numerals near the edge of the grammar (signs, radix prefixes, dots, exponents) are not in the tests.',
  ['engines/pkg/schema/schema.go', Y + 'schema/schema.go', G + 'schema/schema.go'], [('regular expressions and converters', 'engines/pkg/schema/schema.go')], ['schema.IsInteger', 'schema.ToInteger'])
p('C13', 'Numbers are converted exactly or reported out of range',
  'Converting the text of an integer gives its exact value in every radix when it fits the requested size, signed or unsigned, and an error otherwise, never a truncated or wrapped value; formatting an integer and converting the text back gives the integer.',
  ['inputs'], 'every numeral and size', 'Tests use a few values per size; errors live at the limits.',
  ['engines/pkg/schema/schema.go', Y + 'schema/schema.go', G + 'schema/schema.go'], [('converters', 'engines/pkg/schema/schema.go')], ['schema.ToInteger', 'schema.FromInteger'])
p('C14', 'Timestamps and floats keep their value through their text',
  'Every timestamp in one of the supported layouts is converted to the instant it denotes, a text that is not a timestamp is reported, and an instant (or a float) written by the engine and read again is the same instant (float).',
  ['inputs'], 'every instant, layout and malformed text', 'Tests use one timestamp per layout.',
  ['engines/pkg/schema/schema.go', Y + 'schema/schema.go', G + 'schema/schema.go'], [('layout detection and conversion', 'engines/pkg/schema/schema.go')], ['schema.ToTimestamp', 'schema.FromTimestamp'])
p('C15', 'A builder accepts exactly the call sequences that build one tree',
  'For every sequence of builder calls, the result is the tree those calls describe when they describe one (every collection ended, every key with a value), and an error otherwise; a call that does not fit is reported and never changes or replaces a tree, and a builder can be used again after its result was taken.',
  ['histories'], 'every sequence of builder calls, both engines', 'Tests run well-formed sequences only.',
  [Y + 'encode/builder.go', G + 'encode/builder.go'], [('builder stack', Y + 'encode/builder.go'), ('builder stack', G + 'encode/builder.go')], ['yamly.TreeBuilder.Result'])
p('C16', 'What an engine encodes, it decodes to the same values',
  'Whatever tree of strings, integers, booleans, nulls, sequences and mappings is encoded with an engine, decoding the text with the same engine gives the same tree, values and types, whatever the characters of the strings.',
  ['inputs', 'configurations'], 'every tree, every string, both engines, every encoder option', 'Whether a string needs quotes depends on every character of it and on its surrounding.',
  [Y + 'encode/builder.go', Y + 'encode/writer.go', Y + 'decode/', G + 'encode/', G + 'decode/'], [('choice of quoting', Y + 'encode/builder.go'), ('layout', Y + 'encode/writer.go')], ['yamly.Encoder', 'yamly.Decoder'])
p('C17', 'Writing a parsed document and parsing it again gives the same document',
  'For every source that the yayamls parser accepts, writing the tree with the yayamls writer succeeds and gives a text which parses to the same tree: structure, scalar values, whether scalars are quoted, and anchors are kept.',
  ['inputs'], 'every accepted source', 'The tests write trees that were built for the purpose.',
  [Y + 'encode/writer.go', Y + 'parser/'], [('writer visiting the tree', Y + 'encode/writer.go')], ['encode.ASTWriter.WriteTo'])

exec(open(V + "/tools/props2.py").read())

NA = {}
exec(open(V + "/tools/na.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
checks, na = [], []
for x in P:
    i = x["id"]
    if i in props.PROPS:
        q = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i, thorough_cmd="python3 bin/check.py %s thorough" % i,
                           technique=q.get("technique", "symbolic execution of the Go SSA of the real code, SMT (z3) decides every branch and assertion"),
                           level="model_checking",
                           level_note="Holds for every value within the bounds (%s). Outside: %s. Trusts the executor's model of Go and z3; sampled paths and every counterexample are re-run natively." % (q["bounds"]["quick"], q.get("outside", ""))))
    else:
        na.append(dict(property=i, reason=NA[i]))
json.dump(dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
