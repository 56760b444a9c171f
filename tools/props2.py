p('C18', 'Indentation alone decides block structure, and wrong indentation is rejected',
  'For every document of block lines (keys, values, sequence entries, explicit keys, nested on one line or not), however each line is indented, the yayamls parser gives the structure that YAML assigns to the indentation; '
  'a document whose indentation fits no structure is rejected, never read as something else.',
  ['inputs'], 'every combination of line shapes and indentations', 'The tests hold properly indented documents; wrong indentation is a combinatorial space.',
  [Y + 'parser/block.go', Y + 'parser/indents.go'], [('indentation productions with lower bounds and strict equality', Y + 'parser/indents.go'), ('compact nested collections', Y + 'parser/block.go')], ['parser.ParseString'])

RF = [Y + 'decode/reader.go', G + 'decode/reader.go']
p('C19', 'Typed reads give the value at the cursor or deny, exactly by its type',
  'For every document and every sequence of typed reads (integers, floats, booleans, strings, timestamps, null probes, collections, skips, custom), each decoder gives exactly the value the node at the cursor represents in the requested type, or denies it with ErrDenied when it represents none. '
  'Every read moves the cursor by exactly the node it read, a null probe moves it only past a null, and collections report their entries until exactly their end; both engines behave alike.',
  ['inputs', 'histories'], 'every document and every sequence of reads', 'Tests read documents with the sequence of reads made for them; a wrong cursor shows in the other sequences.',
  RF, [('cursor as a route through the tree, latest visited node', Y + 'decode/reader.go'), ('collection states', G + 'decode/reader.go')], ['decode.NewASTReader', 'yamly.Decoder'])
p('C20', 'A value read as any is the value of the document, of the type its text has',
  'Read as any, a sequence is the slice of its values in order, a mapping the map of its values by key, a plain scalar the null, timestamp, unsigned or signed integer, float or boolean its text represents, tried in this order, and a string otherwise; a quoted or block scalar is always the string of its contents. '
  'This holds for both engines, at any depth and wherever in a reading it is asked for.',
  ['inputs'], 'every document', 'The tests decode a few fixed documents; which text has which type is a question about every text.',
  RF + [Y + 'decode/any.go', G + 'decode/any.go'], [('value conversion by kind and style', Y + 'decode/reader.go'), ('type recognition', Y + 'schema/'), ('type recognition', G + 'schema/')], ['yamly.Decoder.Any'])
p('C21', 'Merge keys add exactly the missing entries of the merged mappings',
  'For every mapping with merge keys (<<) whose values are mappings, aliases of mappings or sequences of them, nested to any depth, the mapping read as any by either engine has its own entries with its own values and, of the merged mappings, exactly the entries for the remaining keys, earlier merged mappings taking precedence over later ones.',
  ['inputs'], 'every combination of own and merged entries', 'Precedence depends on the order of entries and on which keys coincide; the tests hold single examples.',
  RF, [('merging of mappings', Y + 'decode/reader.go'), ('merging of mappings', G + 'decode/reader.go')], ['yamly.Decoder.Any'])
p('C22', 'An alias reads as the node it names; undefined and cyclic ones are reported',
  'Reading a document with anchors and aliases, node by node, as values, skipping parts or taking them as nodes, gives exactly what reading it gives when each alias is replaced by a copy of the node last anchored by its name before it. '
  'An alias which names no earlier node, or a node containing the alias itself, makes the reading report an error; it is never read as something else and never makes the reading run on forever.',
  ['inputs', 'histories'], 'every placement of anchors and aliases, every way of reading', 'The tests have one alias per document; misreading needs anchors in skipped, nested or enclosing parts.',
  RF + [Y + 'decode/anchors.go'], [('anchors collected while reading', Y + 'decode/anchors.go'), ('alias dereferencing', G + 'decode/reader.go')], ['yamly.Decoder'])
p('C23', 'Raw data of a node is a document with the value of that node',
  'The raw data a decoder of either engine gives for any node, anchored, aliased or containing aliases, is itself a document which, parsed again, has exactly the value of that node, with nothing of its surroundings missing or included; the reading then goes on after that node. '
  'Taking raw data, and every other read, leaves the tree as it is; a node which contains itself is reported as an error.',
  ['inputs', 'histories'], 'every document and every node of it', 'Raw data feeds custom unmarshalers; the tests take it of simple nodes without anchors outside of it.',
  RF, [('raw data written from a dereferenced copy', Y + 'decode/reader.go'), ('raw data marshalled', G + 'decode/reader.go')], ['yamly.Decoder.Raw', 'yamly.Decoder.Node'])
p('C24', 'After the first error reading is inert, and every reading loop ends',
  'Once a decoder has an error, reported by a read or added by the caller, every further read gives the zero value, every collection is finished, and the error stays the first one. '
  'A program that reads collections until they report no more ends on every document, whatever the document holds in the place of the expected types, also when denials are collected instead of stopping the reading.',
  ['inputs', 'histories'], 'every document, every expectation of it, every history of reads and errors', 'Endless loops and stale values need a document that disagrees with the program at a particular depth.',
  RF, [('error state checked before each read', Y + 'decode/reader.go'), ('error collection', G + 'decode/reader.go')], ['yamly.Decoder.Error', 'yamly.CollectionState.HasUnprocessedItems'])
p('C25', 'The result of a call does not depend on what was parsed or written before',
  'Parsing a document, writing a tree and reading a tree give the same result whatever documents were parsed, written or read before, successfully or not, and whatever is done with the results of other calls afterwards; two decoders of one tree do not affect each other.',
  ['histories', 'inputs'], 'every earlier input and every order of calls', 'State left in pooled or shared objects shows only in the second call after a particular first one.',
  [Y + 'parser/parser.go', Y + 'lexer/tokenizer.go', Y + 'encode/writer.go', Y + 'decode/reader.go', G + 'decode/reader.go'],
  [('pooled parsers, tokenizers and writers', Y + 'parser/parser.go')], ['parser.ParseString', 'encode.ASTWriter', 'yamly.Decoder'])
p('C29', 'An encoder writes exactly what was inserted or reports why not',
  'For every history of insertions, an encoder made of a builder and a writer hands each insertion over unchanged and in order, encodes to a string, to bytes and to a destination the same document, and leaves it ready for the next one. '
  'An error of the builder, the writer or the destination is reported by the encoding call, with nothing given out as if it were a document.',
  ['histories', 'configurations'], 'every history of insertions and every failure of the builder, the writer or the destination', 'The tests never let a builder, a writer or a destination fail.',
  ['encode.go', 'decode.go', Y + 'encode/writer.go', G + 'encode/writer.go'], [('encoder facade over builder and writer', 'encode.go')], ['yamly.NewEncoder'])
GF = ['generator/encoder.go', 'generator/decoder.go', 'generator/generator.go', 'generator/tags.go', Y + 'engine.go', G + 'engine.go']
p('C26', 'Generated encoders write the document a value means, and it reads back',
  'For every type yamlygen generates code for without an error, the code compiles, and for every value of the type the generated marshalling, by either engine, gives the document its fields, tags and options call for: each field once under its name, with its value, left out exactly when the tags or options say so. '
  'Unmarshalling that document with the generated code gives the value again.',
  ['inputs', 'configurations'], 'every type, option of the generator and value', 'The tests generate code for some types and marshal one or two values of each.',
  GF, [('code generation by reflection on the type', 'generator/encoder.go'), ('inlining of fields', 'generator/generator.go'), ('engine specific parts', Y + 'engine.go')], ['yamlygen', 'generated MarshalYAML and UnmarshalYAML'])
p('C27', 'Generated decoders read every document by the rules or report it',
  'For every document, the code generated for a type sets exactly the fields the document names to the values it gives them, whatever the variable held before, and leaves the others alone, those of structs behind pointers and inlined ones included: unknown fields are skipped with whatever they hold (or reported, null or not, with -disallow-unknown-fields), null gives the zero value where nothing was set before, surplus elements of an array are dropped. '
  'A document with a value that does not fit its field is reported as an error; no document makes the decoding panic or run on forever.',
  ['inputs', 'configurations'], 'every document for every type and option of the generator', 'The tests decode documents made for their types; unknown, ill-typed and null parts in every position are a combinatorial space.',
  GF, [('decoder bodies by kind', 'generator/decoder.go'), ('strict mode', 'generator/decoder.go')], ['yamlygen', 'generated UnmarshalYAML'])
p('C28', 'Marshalling methods of a type are used wherever its values occur',
  'Where a type has marshalling or unmarshalling methods of yamly, of the engine or of encoding.Text, generated code uses them, in this order of preference, wherever a value of the type occurs (field, element, key value, behind pointers), on exactly the part of the document which belongs to the value. '
  'An error of such a method is reported by the decoding, and decoding errors never reach a method as a missing node.',
  ['inputs', 'configurations'], 'every position of such a type, every value and every document', 'The tests use each kind of method in one or two positions and with fitting documents.',
  GF, [('implementation checks', 'generator/encoder.go'), ('engine specific implementation checks', G + 'engine.go')], ['yamlygen', 'yamly.MarshalerYamly', 'encoding.TextMarshaler'])

p('C30', 'Two trees are equal exactly when their nodes are, nesting and texts included',
  'The comparator of trees reports two trees equal exactly when they have the same shape: nodes of the same kinds nested in the same way, with the same texts, anchors, aliases and tags, whatever the quotation of the texts. '
  'It ends for every pair of trees, absent ones included, and leaves no goroutine behind.',
  ['inputs', 'schedules'], 'every pair of trees', 'The tests compare a few pairs; trees with the same nodes in a different nesting look alike to a traversal.',
  [Y + 'ast/astcmp/comparator.go'], [('two traversals compared over channels', Y + 'ast/astcmp/comparator.go')], ['astcmp.Comparator.Equal'])
p('C31', 'A printed tree shows every node once, in its place, or the error of the writer',
  'Printing a tree writes one line for every node, in the order of the tree, each below its parent and one level deeper, with the text of the node, and prints the same the next time. When the destination fails, printing reports the error.',
  ['inputs', 'configurations'], 'every tree and every point at which the destination fails', 'Tests look at one printed tree and no destination fails in them.',
  [Y + 'ast/astprint/printer.go'], [('printing visitor', Y + 'ast/astprint/printer.go')], ['astprint.Printer.Print'])
p('C32', 'Calls in progress at the same time do not affect each other',
  'Documents can be parsed, read, written, compared, built and encoded by several goroutines at once, each with its own decoder, builder or writer, also several readers of one tree: every call gives what it gives alone, and no call writes to memory which another one can reach.',
  ['schedules', 'inputs'], 'every interleaving of calls and every input', 'The tests run no two calls at once; a shared buffer or pooled object given back too early shows only under a particular schedule.',
  [Y + 'parser/parser.go', Y + 'encode/writer.go', Y + 'decode/reader.go', Y + 'lexer/tokenizer.go', G + 'decode/reader.go', 'engines/pkg/schema/schema.go', 'encode.go'],
  [('pooled parsers and buffers', Y + 'parser/parser.go'), ('package level tables and functions', 'engines/pkg/schema/schema.go')], ['parser.ParseString', 'yamly.Encoder', 'yamly.Decoder'])

p('C33', 'The documents of a stream are those its markers delimit',
  'For every stream, the documents parsed are exactly those which the markers --- and ... at the start of lines delimit, in order, with their contents, empty ones being null: a marker is never read as text nor text (indented, glued to other characters or inside of a line) as a marker, '
  'whatever document comes before it, block scalars included, and whether or not the last line is ended. Directives belong to the document that follows; a directive without one is reported.',
  ['inputs'], 'every stream', 'The tests hold a few streams; which token a line starts with depends on the line before it and on what follows the marker, down to the end of the source.',
  [Y + 'lexer/context.go', Y + 'parser/documents.go', Y + 'parser/block.go'], [('document markers', Y + 'lexer/context.go'), ('documents of a stream', Y + 'parser/documents.go')], ['parser.ParseString'])
