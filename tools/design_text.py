HEAD = r'''# Solver-based checking of yamly

*(This file is written by `tools/design.py` from `tools/design_text.py`, the property texts, `bin/props.py`, the evidence of the
last run and `seeded/`. Edit those.)*

## 1. What is checked and how

The deciding step of every check is the same: the real functions of `/repo` are executed **symbolically**, from the SSA form that
`golang.org/x/tools/go/ssa` derives from the current source, with the input bytes, the choices of a history (which call comes next,
which option, which failure) and the arguments as symbolic bit vectors. Every branch whose condition depends on them is decided by z3
(both sides are followed when both are satisfiable), and every assertion of the harness is negated and handed to z3 under the path
condition. A path on which the negation is satisfiable gives a model; the model is **replayed on the natively compiled code** of the
same tree and only a replay that fails there becomes a `VIOLATION` line, whose `replay=` file holds the harness, its arguments, the
inputs, and the command to run it. There is no sampling in the verdict: a check is complete when all paths of all of its jobs have been
followed to their end (`exhaustive` in the evidence).

```
/repo sources ──go/ssa──▶ symgo (executor) ──SMT-LIB──▶ z3
harness/*  (drivers, oracles)   │                        │
                                ├─ sampled path models ──▶ native run, same observations?   (guards the executor)
                                └─ counterexamples ──────▶ native run, really fails?        (guards against false alarms)
```

`symgo/` (about 7000 lines of Go) is the executor, written for this task since no symbolic executor for Go is installed:

* **Values** are terms over bit vectors and booleans with hash consing and rewriting; concrete values stay concrete. Memory has Go's own
  shape (cells, objects with fields, slices, maps); symbolic indices become case distinctions. Strings are
  arrays of byte terms with a concrete length, so lengths are part of the bounds.
* **Control**: a path forks on a symbolic condition; each path is executed from the start along its recorded decisions, so nothing of one path
  can leak into another. Pure regions (no calls, no stores that escape) are merged into `ite` terms; character
  class predicates, which would fork once per comparison, stay one term. Conditions over one 8-bit variable are decided on its set of
  possible values; that set is itself obtained from, and certified by, z3 (`certified_value_sets` in the evidence counts these queries).
* **Library**: the standard library is executed from its own source wherever it is Go (`strings`, `strconv`, `bytes`, `time`, `errors`,
  `sort`, `unicode/utf8`), yaml.v3 too. Modelled by hand: assembly and searching (`IndexByte`, `HasPrefix`), regular expressions (the compiled program of
  Go's own `regexp/syntax`, run over symbolic characters), `sync.Pool` (gives
  back what was put last: the most adversarial choice for stale state), `sync.Once`, formatting of `fmt`, type switches through `reflect.TypeOf`. The reflection entry points of yaml.v3 (`Marshal`, `Unmarshal` into `*yaml.Node`, `Node.Decode`) are replaced by
  typed equivalents during symbolic execution only; the native replays use the real library, so a difference shows as a trace mismatch.
* **Termination**: every path has a budget of executed instructions far above what the inputs need; exceeding it is a counterexample
  candidate and is confirmed natively with a timeout. Panics, out-of-range accesses and nil dereferences of the code under test are
  violations in every harness, whatever property it checks.
* **Incompleteness is reported, never hidden**: a construct the executor cannot encode, a query that times out (z3 has a memory and time limit),
  or a job that runs out of time appears under `incomplete` in the evidence and makes `exhaustive` false; it neither passes for coverage nor raises
  an alarm.

**Guards against errors of the executor.** For a sample of the finished paths (the `traces_validated_against_impl` of the evidence) the model of
the path is run natively and the observations the harness made must be the same. A mismatch is reported in the evidence and on stderr. On the
present tree there are none, for any check. `tools/sgm.py` runs single jobs while developing.

**Harnesses** (`harness/`, an ordinary Go module with `replace => /repo`) see the code through its exported interfaces (`parser.ParseString`,
`lexer.Tokenizer`, `yamly.Decoder`, builders, writers, generated methods) and judge what it does by oracles of their own: the specification's
definitions, a model (a stream with saved positions; a tree with a cursor), or an inverse (parse ∘ write, decode ∘ encode). They do not look at
how the code is written; refactorings that keep the behaviour keep them quiet.

**Generated code** (C26–C28): `bin/gen.py` builds yamlygen from the current tree and generates code for the type corpora in `harness/gen/*` for both
engines into a scratch copy of the harness module; the generated packages are then executed symbolically like any other code. A corpus for which
generation or compilation fails is itself a violation.

**Bounds.** Lengths, numbers of nodes and steps are finite and stated per property below. The alphabets are classes of characters that the code
distinguishes; where a surrounding matters (inside a sequence, after a key, in a block scalar, …) the symbolic part is put into each of a list of
surroundings, so that two or three arbitrary characters meet every state of the scanner and parser. What lies outside is stated too.

**Cost.** Quick checks take between 2 and 65 s each on 8 cores (table below); thorough ones minutes to an hour.

**Running**: `bash bin/setup.sh` builds the executor; `python3 bin/check.py C05 quick`. Nothing is written outside `/verif/evidence`, `/verif/build`
and a scratch directory that is removed; `/repo` is only read.

## 2. Properties

'''

ORACLE = {
 'C01': 'The harness calls ParseString, ParseBytes and the tokenizer on surroundings with symbolic bytes; every panic, runaway loop or recursion is a violation, and a nil tree without error is one.',
 'C02': 'Concatenation of the token origins is compared with the source byte by byte; the row and column of each token with those computed from the source read so far. Raw mode is switched by a symbolic history.',
 'C03': 'The letters of the source and the letters of the scalars (keys, anchors) of the tree, in order, must be the same sequence, compared symbolically.',
 'C04': 'A tree is chosen symbolically, a renderer of our own writes it with symbolic presentation choices, the parser must give it back.',
 'C05': 'An own reader of single quoted, double quoted and plain scalars (pieces with known meaning, assembled symbolically) gives the expected value.',
 'C06': 'Own implementation of folding, chomping and indentation detection over a symbolic list of line shapes.',
 'C07': 'The classes of the YAML 1.2 productions written down as ranges; the equivalence of predicate and range is one query over every 32-bit rune.',
 'C08': 'Inverse functions composed; escapes compared with the table of the specification; the value of hexadecimal digits with arithmetic over symbolic digits.',
 'C09': 'Each answer within a symbolic history of questions is compared with the stateless predicate on the text.',
 'C10': 'Model: an index into the source and a stack of saved indices.',
 'C11': 'Own bracket matcher over the symbolic characters; whatever it rejects the parser must reject. Open quotes must be rejected whatever follows.',
 'C12': 'Own recognisers for the core schema (automata written from the specification), both engines compared with them and each other.',
 'C13': 'Value of the digits by bit vector arithmetic, with overflow decided at 128 bits, against value and error of the converters.',
 'C14': 'Own calendar arithmetic for symbolic fields of a timestamp; an arbitrary byte in a valid timestamp must be reported or give the instant it spells.',
 'C15': 'Model of a builder: a stack of open collections; the result of a symbolic history must be the model\'s tree or an error exactly when the model has none.',
 'C16': 'Decode ∘ encode on symbolic trees must be the identity.',
 'C17': 'Parse ∘ write ∘ parse on every accepted symbolic source; writing must be idempotent.',
 'C18': 'Own block structure reader over (indentation, shape) pairs, implementing the rules of YAML for indentation; rejects what has no structure.',
 'C19': 'Model of a decoder: tree and cursor; every read of a symbolic history is compared in value, denial and cursor movement.',
 'C20': 'Own conversion of the symbolic tree into Go values; own type recognition per text.',
 'C21': 'Own merge: own entries first, then the missing ones in order.',
 'C22': 'The tree with aliases replaced by copies (own dereferencing), read by the model of C19.',
 'C23': 'The raw data is parsed again and compared with the model\'s node; the tree is compared with a copy made before.',
 'C24': 'After the first error all results must be zero values; reading programs of nested loops must end (budget) on each document.',
 'C25': 'The same call before and after an arbitrary other call, and interleaved with another decoder, must give the same result.',
 'C26': 'A description of the type (harness/genm) is interpreted: value → expected document (names, omission, inlining) and back; compared with what the generated code builds, and with the value after reading back.',
 'C27': 'The interpretation of the description over a symbolic document gives the expected value or that an error is due.',
 'C28': 'As C26 and C27, with methods that leave a mark in what they write and read, so that use, choice and extent of the data show.',
 'C29': 'A recording builder and writer with symbolic failures behind the facade; destinations which fail after a symbolic number of bytes.',
 'C30': 'The harness keeps its own description of the two symbolic trees and compares those; the goroutines and channels of the comparator run in the executor, which also reports deadlocks and goroutines left behind.',
 'C31': 'The lines drawn from the harness\'s own description of the symbolic tree, and a destination which fails at a symbolic write.',
 'C32': 'Two calls run as goroutines of the executor, switched at symbolic points, against the results of the same calls alone. For switches anywhere else: while a call runs, the executor reports every write to memory reachable from package variables or from the shared tree, and every use of a pooled object after it was given back; on a symbolic input for which this happens the call is replayed by several goroutines under the race detector, and only a race seen there is a violation.',
 'C33': 'A model reads the stream line by line as it is generated (markers, directives, comments, contents) and says which documents it holds; the parsed stream must equal it.',
}

TAIL = r'''### False alarms met and what was done about them

* The first version of the bracket property (C11) demanded that stray closing brackets in block context be rejected; YAML leaves `a]` a plain scalar. The
  property now speaks of collections and quotes left open only.
* C06 demanded the specification's `n = -1` formula for explicit indentation indicators at the root; implementations differ and the tests pin the present
  behaviour: left outside the bounds.
* C19 expected goyaml's collection size of a mapping to be the number of entries; the interface documents no unit. The size is not judged.
* C26 compared generated text byte by byte although Go's map order is random; it compares the trees, and only observes the length natively.
* C16 held strings that are not valid UTF-8 to round trip; YAML text cannot hold them. Such strings are outside the property.

## 4. Limits, left outside the claimed properties

yayamls: invalid UTF-8 is written as U+FFFD; tags are always written `!!`; the unquoted option for one-line strings turns texts like `null` into other types
by request; `[# z]`; `|+` with only empty lines at the root; a block scalar of blank lines followed by a less indented comment; leading blank lines more indented
than the first text line are accepted; `--- |\nfoo` at column 0; anchors named with punctuation; Skip and Raw at a mapping key take the whole entry;
`<<: []` is an ordinary key; a quoted `"<<"` merges. goyaml: Size() of a mapping is twice its entries; a DocumentNode with empty Content panics; yaml.v3 does not keep the
identity of a write error of the destination. Generator: null leaves a previous value when decoding into a variable that is not zero; two targets of one package sharing nested types
duplicate functions; non-nil `any` values other than marshalers are reported as errors by yayamls code (noted in the code as a TODO).

## 5. What the technique cannot reach here

* Properties of strings, trees and histories are decided up to the stated sizes. The code is recursive over structure, so that small trees in many surroundings exercise every production,
  but a bound is a bound.
* Schedules (C32): the executor switches goroutines where they block and where the harness says so; other switches are covered by showing that calls do not write to shared memory,
  which is stronger than needed (a lock or a once would be reported by the executor, and is then cleared by the race detector on the replayed input).
* The command line of yamlygen, its bootstrap program and the search for the package path work on files and processes. They run in C26 to C28 for every corpus, but no
  symbolic claim is made about them.
* No theory of floating point is used: floats are decided for boundary values. Fully symbolic 64-bit formatting (chains of divisions) is beyond z3 here and replaced by symbolic halves.
* The generator itself (`generator/`, reflection over types) runs concretely on a corpus of types; only the generated code is symbolic. "Every type" is therefore covered
  by the corpus, values and documents by the solver.

'''
