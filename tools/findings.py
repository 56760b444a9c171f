#!/usr/bin/env python3
"""Writes known-findings.json (development aid: never run by a check)."""
import json, subprocess
M = {  # start of the subject -> (property, what failed)
 "compare trees with their nesting": ("C30", "[[1], 2] and [[1, 2]] compared as equal, as did an entry with a key only and one with a value only"),
 "report errors of the destination when printing": ("C31", "write errors were ignored when printing a tree"),
 "read a node nothing was decoded": ("C19", "reading an empty document by goyaml gave values without an error, and a nil collection: panic"),
 "do not change the tree while making raw": ("C32", "Raw of goyaml changed the tree for a while: two readers of one tree raced"),
 "do not pass a nil node": ("C28", "after a decoding error UnmarshalYAML methods were called with a nil node: panic"),
 "quote the names of fields": ("C26", "a field name with quotes or backslashes gave code which does not compile"),
 "report unknown fields whose value is null": ("C27", "unknown fields with null values were accepted in strict mode"),
 "encode nil interfaces": ("C26", "a nil interface could not be encoded"),
 "generate working code for inlined": ("C26", "code generated for inlined fields did not compile or dereferenced nil pointers"),
 "generate compilable code for pointers to interfaces": ("C26", "generated code did not compile"),
 "report nodes containing themselves through": ("C23", "raw data of a node containing itself through another node exhausted the stack"),
 "leave denied nodes": ("C24", "a denied node was denied forever when denials are collected: endless loop"),
 "deny unsigned reads": ("C19", "an unsigned read of a negative number reported an error which is not ErrDenied"),
 "report an alias of a node": ("C22", "typed reads of a node containing itself never ended"),
 "report a node containing itself in the raw": ("C23", "raw data of a node containing itself exhausted the stack"),
 "read comments after a block": ("C06", "a more indented comment after a block scalar was rejected"),
 "read indicators at the start of the lines of block": ("C06", "indicators at the start of block scalar lines were not read as text"),
 "reject opening brackets": ("C11", "[a [b] and the like were accepted with unbalanced brackets"),
 "normalise line breaks": ("C06", "CR LF stayed in the text of multi-line scalars"),
 "restore the last element": ("C10", "a rollback after the buffer was drained repeated the last element"),
 "remember anchors of skipped": ("C22", "an anchor inside a skipped subtree was unknown later"),
 "dereference aliases of outer": ("C23", "raw data kept aliases to anchors outside of it"),
 "report unfinished trees": ("C15", "unfinished trees were returned as results"),
 "report values inserted after": ("C15", "a value inserted after the tree was finished replaced the tree"),
 "generate compilable code for types with both": ("C28", "generated code did not compile"),
 "decode every supported form of timestamp": ("C26", "generated decoders accepted RFC 3339 only"),
 "generate compilable code for pointers to types": ("C26", "generated code did not compile"),
 "generate compilable code for interface": ("C26", "generated code did not compile"),
 "generate compilable code for byte arrays": ("C26", "generated code did not compile"),
 "skip sequence elements": ("C27", "surplus elements of a sequence decoded into an array were never skipped"),
 "stop decoding a struct after null": ("C27", "a struct decoded from null went on reading the next values"),
 "read block scalars as strings": ("C06", "block scalars were read as null, numbers or booleans"),
 "do not derive indentation": ("C06", "empty lines determined the indentation of a block scalar"),
 "strip whitespace before": ("C05", "white space before the breaks of quoted scalars was kept"),
 "require the content of block": ("C06", "less indented text was read as the content of a block scalar"),
 "accept properties of the first key": ("C04", "a tag or anchor on the first key of a mapping was rejected"),
 "recognise comments inside": ("C04", "comments inside flow collections were rejected"),
 "treat quotes, ! and %": ("C05", "quotes, ! and % inside plain scalars were rejected"),
 "accept flow indicators": ("C05", "brackets and commas inside plain keys of block mappings were rejected"),
 "read single pairs": ("C04", "[a: b] was not a sequence of one mapping"),
 "quote the strings": ("C16", "strings like \"null\", \"- a\" or \"a: b\" were written without quotes and read as something else"),
 "keep fractional": ("C14", "fractional seconds were dropped"),
 "use Go reference": ("C14", "short layouts named a wrong reference year"),
 "convert every string": ("C12", "integers with a + sign or leading zeros were recognised but not converted"),
 "keep line breaks of single": ("C17", "line breaks of single quoted scalars were folded away when written"),
 "separate node properties": ("C17", "anchors and tags were glued to their neighbours when written"),
 "write empty collections": ("C16", "empty collections were written as nothing and read as null"),
 "deny null nodes": ("C19", "null nodes were given out as a stale value"),
 "report a mapping ended": ("C15", "a mapping ended after a key was not reported"),
 "do not drop the rest": ("C24", "adding a nil error stopped the reading"),
 "finish the collections": ("C24", "a collection being read never ended after an error: endless loop"),
 "report an anchored node": ("C22", "an anchored node containing its own alias exhausted the stack"),
 "merge only the mapping": ("C21", "merge keys merged too much, and only one mapping of a sequence"),
 "decode quoted scalars as strings when the target is any (goyaml)": ("C20", "quoted scalars became numbers"),
 "do not visit an alias again": ("C22", "an alias was read twice"),
 "decode quoted scalars as strings when the target is any": ("C20", "quoted scalars became numbers"),
 "resolve the escape": ("C05", "escape sequences of double quoted scalars were not resolved"),
 "accept the \\b": ("C05", "\\b and \\<TAB> escapes were rejected"),
 "unescape the digits": ("C08", "\\x41 and the like gave other characters"),
 "parse deeply nested flow": ("C04", "flow sequences nested seven levels deep were rejected, and parsing time was exponential in their depth"),
 "recognise document markers only": ("C33", "\"a: ...\" and \"- ---\" were rejected, and a literal scalar at column 0 swallowed the markers and documents after it"),
 "keep words with indicators": ("C05", "plain scalars with words starting like indicators (\"R & D\", \"a - b\", \"say \\\"hi\\\"\") were rejected"),
 "read anchors, aliases and tags right": ("C04", "{\"k\":*a} was read as the text *a, {\"k\":&x v} as the text &x v"),
 "accept properties of JSON-like": ("C04", "{&x 'a': b} was rejected"),
 "accept escaped line breaks": ("C05", "an escaped line break right after text in a double quoted scalar was rejected"),
 "write the non-specific tag": ("C17", "the tag ! was written as !!, which cannot be parsed"),
 "separate single pairs": ("C17", "[[a] : b] was written as a document which cannot be parsed"),
 "use marshalling methods of pointers": ("C28", "goyaml code for values with MarshalYAML on the pointer wrote the exported fields instead of using the method"),
 "keep inlined pointers": ("C27", "decoding into a variable whose inlined pointer is set lost the inlined fields the document does not name"),
 "generate code for interfaces": ("C28", "types with fields of engine-specific interfaces were refused, and the code for interfaces with methods panicked on nil"),
 "report an error when the parser stops": ("C03", "the rest of a source was silently dropped"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in reversed(log):
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    k = max((k for k in M if s.startswith(k)), key=len)
    fixed.append("fixed: property=%s %s %s" % (M[k][0], h, M[k][1]))
findings = [
 {"property": "C06", "harness": "verif/style.HFoldedMore", "args": [], "inputs": [], "kind": "assert", "label": "folded scalar with more indented lines has its contents",
  "what": "two adjacent more indented lines of a folded scalar (\"k: >\\n  x\\n   y\\n   z\\n\") are separated by an extra line break; pinned by an existing test"},
 {"property": "C22", "harness": "verif/read.HRedefined", "args": [], "inputs": [], "kind": "assert", "label": "an alias keeps its meaning when the anchor is defined again",
  "what": "in [&a 1, &b [*a], &a 2, *b] the yayamls engine reads *b as [2]: the aliases inside an aliased node are resolved by name when it is read, after the anchor was defined again"},
]
json.dump({"findings": findings, "fixed": fixed}, open("/verif/known-findings.json", "w"), indent=1)
