#!/usr/bin/env python3
"""The properties and the manifest, in one place: writes properties.jsonl and
MANIFEST.json."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=(), level='model_checking', thorough=True, hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism], 'observe_at': observe, 'hook_needed': hook}})
    c = {'property': id, 'quick_cmd': 'python3 lib/check.py %s quick' % id}
    if thorough:
        c['thorough_cmd'] = 'python3 lib/check.py %s thorough' % id
    c.update(technique=technique, level=level, level_note=note)
    CHECKS.append(c)


prop('C01', 'Tokens and lexemes reproduce the text',
     'For every text, the token stream is lossless: the tokens are contiguous, together they are exactly the text, and each has the kind the lexical grammar gives it (bare, quoted, raw and heredoc scalars, tags, comments, punctuation, errors). The lexemes made of them carry the value the notation stands for: escapes resolved, raw delimiters removed, heredocs dedented by their closing indent, adjacency of tags, attributes and payloads decided as the grammar says.',
     ['inputs'], 'All texts of Unicode scalar values, including malformed ones.',
     'Unit tests sample a few dozen tokens; the interaction of quotes, hashes, heredoc delimiters, escapes and end of input is unbounded.',
     ['crates/styx-tokenizer/src/tokenizer.rs', 'crates/styx-parse/src/lexer.rs'],
     [('Tokenizer::next_token and its heredoc state', 'crates/styx-tokenizer/src/tokenizer.rs'), ('Lexer::next_lexeme', 'crates/styx-parse/src/lexer.rs')],
     ['Tokenizer::next_token', 'Lexer::next_lexeme'],
     'TLA+ lexer machine, TLC trace validation of recorded tokens and lexemes',
     'Every recorded token and lexeme of the explored texts is checked against the TLA+ machine; texts outside the explored sets are not covered. Trusts TLC, the harness that records, and the hand-written specification.',
     [('heredoc state', 'open delimiter and where its content ends', 'crates/styx-tokenizer/src/tokenizer.rs')])

prop('C02', 'The event stream is what the grammar gives the text',
     'For every text, the parser reports exactly the events of the language: the structure of objects, sequences, entries, tags and attributes, keys and scalars with their values and notations, comments and doc comments, and every error with its kind, each with the span of source it stands for. Starts and ends nest, spans stay within the text, and malformed input is reported by error events, never by a panic or an endless stream.',
     ['inputs'], 'All texts, valid or not.',
     'The corpus and unit tests fix about a hundred documents; what surrounds a construct (separators, comments, depth, other errors) is not varied by them.',
     ['crates/styx-parse/src/parser/mod.rs', 'crates/styx-parse/src/events.rs', 'crates/styx-parse/src/lexer.rs'],
     [('the state machine of the parser and its event queue', 'crates/styx-parse/src/parser/mod.rs'), ('error kinds', 'crates/styx-parse/src/events.rs')],
     ['Parser::next_event'],
     'TLA+ parser machine, TLC trace validation of recorded event streams, invariants checked on the machine',
     'Each recorded event stream must be a behaviour of the TLA+ parser machine, one state per top-level step; nesting and span invariants are model checked on the machine along the same behaviours. Bounded to the explored texts.',
     [('pending doc comment, open root, path history', 'what the top level remembers between entries', 'crates/styx-parse/src/parser/mod.rs')])

prop('C03', 'A key or path is defined once per object',
     'Within one object, in any notation of the object and at any depth, an entry is accepted exactly when its path was not given a value before, does not lead into a plain value, and does not go back to a path left behind by a later sibling. Otherwise the entry is reported as duplicate, nested into a terminal, or reopened, at the span of its key, with the earlier occurrence or path. Keys are the same only if tag and text are the same after resolving the notation.',
     ['histories', 'inputs'], 'All histories of entries of one object: order, key forms, dotted paths, value kinds, and where the object stands.',
     'Tests have a handful of two- or three-entry documents; whether an entry is allowed depends on the whole history of the object.',
     ['crates/styx-parse/src/parser/mod.rs'],
     [('path state: open path, closed segments, value kinds', 'crates/styx-parse/src/parser/mod.rs'), ('key identity', 'crates/styx-parse/src/parser/mod.rs')],
     ['Parser::next_event'],
     'TLC model checking of the path machine against the rule over histories; replay of histories into the real parser',
     'The incremental path machine is model checked equal to the declarative rule over all histories within the bound, and generated histories (all short ones, random long ones) rendered in several contexts must give the errors of the machine. Trusts the rendering of histories as text.',
     [('open path and closed siblings', 'what later entries may still extend', 'crates/styx-parse/src/parser/mod.rs')])

prop('C04', 'The document tree is the document',
     'For every document without errors, the tree holds every entry once, in order, with its key, tag, value, scalar notation, attached doc comment and source span, sequences in order and nested objects as written. For every document with an error, reading the tree fails with the first error. (A value holds one tag: of a chain of tags the tree keeps the outermost.)',
     ['inputs'], 'All texts.',
     'The golden file pins the trees of the corpus only.',
     ['crates/styx-tree/src/builder.rs', 'crates/styx-tree/src/lib.rs', 'crates/styx-tree/src/value.rs'],
     [('the stack of the tree builder', 'crates/styx-tree/src/builder.rs')],
     ['styx_tree::parse'],
     'TLA+ tree semantics over the event machine, TLC trace validation of recorded trees',
     'The tree recorded from the real crate equals the tree the specification builds from the specified events, on the explored texts.')

prop('C05', 'A single value reads as it would inside a document',
     'Reading a text as one value gives the events of the first value in it, after skipping leading blank lines and comments, and stops there. Where the text is a complete value, they are the events that value has as the value of an entry in a document.',
     ['inputs'], 'All texts read in single-value mode.',
     'Only a few expressions are tested, none compared with the document reading.',
     ['crates/styx-parse/src/parser/mod.rs'],
     [('expression mode of the parser', 'crates/styx-parse/src/parser/mod.rs')],
     ['Parser::new_expr'],
     'TLA+ expression reading, TLC trace validation, agreement of the two readings checked in the specification',
     'Recorded expression events equal the specified ones; that the specification reads values alike in both modes is asserted by TLC on the same texts.')

prop('C06', 'The syntax tree is lossless and shaped like the document',
     'For every text, the concrete syntax tree holds the text exactly: its leaves in order are the text. Its nodes are the structure of the document (entries with key and values, objects, sequences, tags and payloads, attributes, heredocs), and its errors are where the tree stops being one. Building it ends without a panic on every text.',
     ['inputs'], 'All texts, valid or not.',
     'Snapshots fix a few dozen trees; whether each character has exactly one place in the tree must hold for all texts.',
     ['crates/styx-cst/src/parser.rs', 'crates/styx-cst/src/syntax_kind.rs'],
     [('the tree builder: entries, atoms, tag segments, trivia', 'crates/styx-cst/src/parser.rs')],
     ['styx_cst::parse'],
     'TLA+ machine of the syntax tree, TLC trace validation of recorded trees',
     'The recorded walk over the tree (nodes, leaves with extents, errors) equals that of the TLA+ machine on the explored texts; that the leaves of the specified tree tile the text is asserted by TLC.')

prop('C07', 'Formatting keeps what the document says',
     'Formatting a document, with any layout option, keeps its scalars in their notation, its tags, comments, doc comments and punctuation in their order, and so its meaning; only blanks, line ends and commas change. A text with syntax errors is returned as it was. (An entry rejected for having more than one value is a listed exception.)',
     ['inputs', 'configurations'], 'All texts and formatting options.',
     'Snapshots show the layout of about 150 documents; that nothing is lost, moved or joined depends on every combination of constructs, comments and separators.',
     ['crates/styx-format/src/cst_format.rs'],
     [('the formatter over the syntax tree', 'crates/styx-format/src/cst_format.rs')],
     ['styx_format::format_source'],
     'TLA+ relation between a text and its formatted text over the specified lexer, parser and tree; TLC trace validation',
     'For every explored document the recorded output is read by the specified lexer and tree and related to the input. Bounded to the explored texts and options.')

prop('C08', 'Formatting has a normal form',
     'Formatting a formatted document changes nothing. The result depends on the lexemes and line ends of the document, not on the blanks between them. A formatted text has no blanks at line ends, at most one blank line in a row, single blanks inside lines, lines that start with whole indents, and one line end at its end.',
     ['inputs', 'configurations'], 'All texts without syntax errors, all formatting options, all respacings.',
     'Idempotence tests run over a fixed set of documents; layout decisions depend on neighbours (blank lines, comments, nested blocks) in ways samples do not combine.',
     ['crates/styx-format/src/cst_format.rs', 'crates/styx-cst/src/ast.rs'],
     [('multi-line decisions, blank lines, indentation', 'crates/styx-format/src/cst_format.rs')],
     ['styx_format::format_source'],
     'TLA+ layout relation and equality of formatted twins; TLC trace validation',
     'Checked on recorded outputs for the explored documents and for respaced twins; TLC asserts that the twins have the same lexemes and lines.')

prop('C09', 'Written values read back',
     'Writing the value of a document as text, with any writer option, gives a text without errors whose value is the same: keys, order, tags, strings, units, doc comments. (A tagged scalar is a listed exception: it is written as a sequence.)',
     ['inputs', 'configurations'], 'All documents without errors, all writer options (style, width, indent).',
     'Round-trip tests use a few dozen values; the choice of bare, quoted, raw and heredoc notation, separators and line breaks depends on content and context.',
     ['crates/styx-format/src/value_format.rs', 'crates/styx-format/src/writer.rs', 'crates/styx-format/src/scalar.rs'],
     [('choice of scalar notation', 'crates/styx-format/src/writer.rs'), ('which strings can be bare', 'crates/styx-format/src/scalar.rs'), ('separators and multi-line state of open containers', 'crates/styx-format/src/writer.rs')],
     ['styx_format::format_value'],
     'TLA+ tree semantics applied to the written text; TLC trace validation of the round trip',
     'The written text of every explored value is read by the specified lexer, parser and tree and must mean the same. Values are those of explored documents.')

prop('C10', 'Validation gives the verdict of the schema',
     'For every readable schema and every document, validation reports exactly the errors and warnings the schema language prescribes: scalar types with their constraints, objects closed unless they have a catch-all (chosen by its key type), required, optional, defaulted and flattened fields, sequences, tuples, maps with key types, unions, enums with payloads and fallback variants, one-of, literals, deprecation warnings and named types, recursive ones included. Each error has its kind, the path and the source span of what is wrong, and unknown fields the closest known name. The same schema and document always give the same verdict.',
     ['inputs'], 'All pairs of a schema and a document.',
     'Tests pair a few dozen schemas with one or two documents each; types nest and combine without bound, and several choices went by hash order.',
     ['crates/facet-styx/src/schema_validate.rs', 'crates/facet-styx/src/schema_types.rs', 'crates/facet-styx/src/schema_error.rs'],
     [('Validator::validate_value and what it dispatches to', 'crates/facet-styx/src/schema_validate.rs'), ('suggest_similar', 'crates/facet-styx/src/schema_validate.rs')],
     ['facet_styx::Validator::validate_document', 'styx --validate', 'LSP diagnostics'],
     'TLA+ semantics of the schema language evaluated by TLC on recorded verdicts',
     'The specification reads the schema from the tree of its text and computes the verdict; errors and warnings of every explored pair (every simple type against every simple value, and random nested schemas with documents near them) must be that bag. Regular expression patterns, imports and date formats are outside.',
     [('types being checked for a value', 'guards against types defined as themselves', 'crates/facet-styx/src/schema_validate.rs')])


prop('C11', 'The command line does what it reports',
     'A styx command either fails, reports why, prints no result and changes no file, or succeeds and writes its result to exactly the place asked for. Its exit code tells which: 0, 1 for misuse and syntax errors, 2 for validation errors, 3 for what cannot be read or written. Only --in-place changes the input. The result is the formatted document, its JSON form (every entry by its key, tags as $tag and $payload), its tree, or nothing but the code when validating. The schema is the one given, or the declared one relative to the document, or embedded in the named binary.',
     ['histories', 'inputs', 'configurations'], 'All sequences of commands over a directory, all combinations of options, files, links and unreadable places.',
     'The command line has no tests of its commands; options, kinds of file, schema references and earlier commands combine without end.',
     ['crates/styx-cli/src/main.rs'],
     [('run_file_mode: the order of checks, reading, validation and writing', 'crates/styx-cli/src/main.rs'), ('schema resolution', 'crates/styx-cli/src/main.rs'), ('value_to_json', 'crates/styx-cli/src/main.rs')],
     ['exit status, output and files of the styx process'],
     'TLA+ state machine of commands over files; TLC validates recorded sessions of the real binary and checks the promises of the machine on them',
     'Sessions of real commands in scratch directories (combinations of options, random sequences) must be behaviours of the machine. What formatting gives and whether a schema can be read is taken from the libraries (C07, C08, C10). Network commands (diff, publish), code generation and shell completions are outside.',
     [('the files', 'what earlier commands left', 'the working directory')])


prop('C12', 'Documents can be read and changed by path, key and index',
     'For every history of operations on a document: a path, key or index finds exactly the value the document has there (parts of sibling dotted paths count as one), a change changes exactly that value and nothing else, and the changed document is written as text that reads back as it. The C API gives the same answers through handles, rejects null and reports errors in syntax, for any order of parsing, asking and freeing of several documents.',
     ['histories', 'inputs'], 'All documents, all paths including odd ones, all sequences of reads, changes, and C calls with several open documents.',
     'Tests look up a handful of paths in fresh documents; they change documents hardly at all and call C functions one at a time.',
     ['crates/styx-tree/src/value.rs', 'crates/styx-tree/src/lib.rs', 'crates/styx-ffi/src/lib.rs'],
     [('split_path, Value::get, get_mut, Object::insert, insert_unit, Sequence', 'crates/styx-tree/src/value.rs'), ('Document::get', 'crates/styx-tree/src/lib.rs'), ('styx_parse to styx_sequence_get', 'crates/styx-ffi/src/lib.rs')],
     ['answers of the tree API and the C API, the document afterwards, the text it is written as'],
     'TLA+ state machines of a document under change and of open C handles; TLC validates recorded histories of the real APIs',
     'Random histories on documents made to be hit again and again must be behaviours of the machines. The C code is compiled into the harness as Rust and called through its C signatures; misuse of freed handles is outside.',
     [('the document', 'what earlier operations made of it'), ('C handles', 'documents opened and freed')])


prop('C13', 'Embedded schemas are found, and only they',
     'In any bytes, exactly the schemas of well-formed blobs (magic, lengths and hash right, UTF-8) are found, each once, in order: those in the schema section where the bytes are an ELF, Mach-O (also fat) or PE file that has one, those anywhere otherwise; none is an error. What the embed macros put into a program, from strings in any notation or from files, is found in it unchanged. Damaged, forged or truncated data is never a panic, nor memory out of proportion to the data.',
     ['inputs'], 'All bytes, with blobs of both formats, partial, nested and forged ones, object files of three formats, and programs built with the macros.',
     'Tests look for one or two fresh blobs in short buffers; headers are untrusted, and blobs may touch, nest or end with the file.',
     ['crates/styx-embed/src/lib.rs', 'crates/styx-embed-macros/src/lib.rs'],
     [('extract_schemas, try_extract_v2_at, try_extract_v1_at', 'crates/styx-embed/src/lib.rs'), ('find_elf_section, find_macho_section, find_pe_section', 'crates/styx-embed/src/lib.rs'), ('parse_string_literal, id_to_symbol_suffix, build_embedded_blob', 'crates/styx-embed-macros/src/lib.rs')],
     ['styx_embed::extract_schemas', 'styx_embed::extract_schemas_from_object', 'styx_embed::extract_schemas_from_file', 'the bytes of built programs'],
     'TLA+ scanner over bytes and sections, TLC validates what the real extraction found in generated files and in programs built with the macros',
     'The specified scan over each explored file must give the recorded schemas. Decompression, hash and UTF-8 decoding of each candidate enter as facts computed with the same lz4 and blake3 crates. Object files are made by a small writer; the linker makes those of programs (ELF only).')


prop('C15', 'The language server speaks about the current text',
     'However messages and handlers interleave: diagnostics published for a document are those of a text it had, never an older one than the client was told before; when the server has nothing left to do, the last diagnostics are those of the last text (none once closed) and of the present permission for extensions; every request is answered about the text the document had when it arrived, with null when it was not open. Of several changes in one notification the last counts.',
     ['schedules', 'histories'], 'All sequences of open, change, close, allow and requests over several documents, handled concurrently with any interleaving at await points.',
     'Tests call single handlers on one document; handlers run concurrently and share documents, schemas and permissions.',
     ['crates/styx-lsp/src/server.rs', 'crates/styx-lsp/src/extensions.rs'],
     [('StyxLanguageServer did_open/did_change/did_close, publish', 'crates/styx-lsp/src/server.rs'), ('execute_command, check_for_extension', 'crates/styx-lsp/src/server.rs'), ('ExtensionManager', 'crates/styx-lsp/src/extensions.rs')],
     ['textDocument/publishDiagnostics', 'responses to LSP requests'],
     'TLA+ model of concurrent handlers checked by TLC against the promises; TLC validates sessions of the real server under random schedules',
     'Sessions of the real server, its handlers polled in a random order, must be behaviours of the specification. What the diagnostics and answers of a text are enters as facts from a fresh server that was given that text alone (C16 specifies them). Extensions that run are not part of it.')


prop('C16', 'An editor is told what the text says, where it says it',
     'For every text: the published diagnostics are exactly the errors of the syntax tree and of the grammar, the warnings for repeated keys and mixed separators, and what the declared schema complains about (or that it cannot be read); the outline is that of the document tree; semantic tokens and highlighting give every scalar, key, tag, comment and delimiter its role; links stand at schema declarations. All ranges are right, in lines (ended by LF, CRLF or CR) and UTF-16 columns.',
     ['inputs'], 'All texts, valid or not, with any characters and line ends, and all schemas.',
     'Tests look at a few ASCII documents; columns, line ends, nesting and broken texts vary without bound.',
     ['crates/styx-lsp/src/server.rs', 'crates/styx-lsp/src/semantic_tokens.rs', 'crates/styx-cst/src/validation.rs'],
     [('compute_diagnostics, collect_document_symbols, offset_to_position', 'crates/styx-lsp/src/server.rs'), ('compute_semantic_tokens, compute_highlight_spans', 'crates/styx-lsp/src/semantic_tokens.rs'), ('validate', 'crates/styx-cst/src/validation.rs')],
     ['textDocument/publishDiagnostics', 'textDocument/documentSymbol', 'textDocument/semanticTokens/full', 'textDocument/documentLink', 'styx_lsp::compute_highlight_spans'],
     'TLA+ specification of positions, diagnostics, symbols and tokens over the specified tree; TLC validates what the real server told about each text',
     'For each explored text the answers of the real server must be the specified ones. Messages of diagnostics are not compared (C02, C10 compare error kinds). A text the parser accepts but the syntax tree does not (nested attributes, doc comments in sequences) gets the errors of the tree.')


prop('C14', 'A document is read into a type as the value it holds',
     'For every document and every type a program asks for: facet_styx::from_str (from_str_expr, from_str_borrowed) and serde_styx::from_str give the value the document holds of this type, or refuse exactly when it holds none. Scalars are their text, however they are written (bare, quoted, raw, heredoc), read as the type says: integers within its range, floating point, booleans, characters. Missing fields are their default or none, absent required ones an error, unknown ones ignored unless denied. Entries of sibling dotted paths and attributes are those of one object. A tag selects a variant, what follows is its payload. Documentation goes to documented keys, raw values are the source text, the schema declaration is not data, documents with errors are refused.',
     ['inputs', 'configurations'], 'All documents and all types built from the shapes (scalars, options, lists, sets, tuples, maps, records, enums, flattened, untagged, recursive, documented, raw).',
     'Tests read a document or two per shape; notations, types, order of fields and nesting combine without bound.',
     ['crates/facet-styx/src/parser.rs', 'crates/serde_styx/src/de.rs'],
     [('StyxParser: events, hints, dotted keys, save and restore', 'crates/facet-styx/src/parser.rs'), ('Deserializer', 'crates/serde_styx/src/de.rs')],
     ['facet_styx::from_str', 'facet_styx::from_str_expr', 'facet_styx::from_str_borrowed', 'serde_styx::from_str'],
     'TLA+ specification of what a document holds of a type, over the specified grammar and tree; TLC validates what the real readers gave',
     'About 80 types in two libraries; every listed value for every type, and random documents near each type. A value the specification leaves open (units as scalars, {variant payload}, floats beyond exact digits) is accepted whatever it is read as. Dotted keys and attributes are outside for serde (listed findings).')


prop('C17', 'What a program writes, it reads back',
     'For every value of every type: what facet_styx (to_string, to_string_compact, with any options, as an expression) and serde_styx write for it is a document, or expression, without errors that holds this value, and reading it back gives the value again. No text of a scalar or key, no nesting, option, width or indentation changes that; documentation is written where lines allow it.',
     ['inputs', 'configurations'], 'All values of all types, all formatting options.',
     'Tests write a few plain values; texts that look like syntax, payloads of tags, line lengths and nesting vary without bound.',
     ['crates/facet-styx/src/serializer.rs', 'crates/serde_styx/src/ser.rs', 'crates/styx-format/src/writer.rs', 'crates/styx-format/src/scalar.rs'],
     [('StyxSerializer, CompactStyxSerializer', 'crates/facet-styx/src/serializer.rs'), ('Serializer, CompactSerializer', 'crates/serde_styx/src/ser.rs'), ('StyxWriter', 'crates/styx-format/src/writer.rs')],
     ['facet_styx::to_string', 'facet_styx::to_string_compact', 'facet_styx::to_string_with_options', 'facet_styx::peek_to_string_expr', 'serde_styx::to_string', 'serde_styx::to_string_compact', 'serde_styx::to_string_with_options'],
     'TLA+ specification of what a document holds of a type; TLC evaluates it on what the real writers wrote',
     'Values come from documents read into about 80 types; texts from a list of awkward ones in every place, and random. What is written is judged by the specification, not only by the reader. A None is written as @, which facet refuses (the listed finding of C14): there only what the text holds is checked. RawStyx that ends in a heredoc is a listed finding.')

prop('C18', 'The implementations in Go, JavaScript and Python read what the reference reads',
     'For every text, the parsers of styx-go, styx-js and styx-py end, refuse it exactly when the reference parser reports an error, and otherwise yield the same document: the same keys in the same order, the same tags, values, kinds of scalars and decoded texts, and the same byte spans of scalars and sequences. (Messages and the spans of errors, tags, units and of the objects of dotted paths are free; @t and @t@ as two keys of one object may be refused.)',
     ['inputs'], 'All texts.',
     'The compliance corpus has some 90 documents; the four parsers are written by hand, each with its own lexer, escapes, heredocs, paths and positions.',
     ['implementations/styx-go/lexer.go', 'implementations/styx-go/parser.go', 'implementations/styx-js/src/lexer.ts', 'implementations/styx-js/src/parser.ts', 'implementations/styx-js/src/types.ts', 'implementations/styx-py/styx/lexer.py', 'implementations/styx-py/styx/parser.py'],
     [('Parse', 'implementations/styx-go/parser.go'), ('parse', 'implementations/styx-js/src/parser.ts'), ('parse', 'implementations/styx-py/styx/parser.py')],
     ['styx.Parse (Go)', 'parse (JavaScript)', 'styx.parse (Python)'],
     'TLA+ specification of lexing, parsing and the tree; TLC compares the tree each implementation yields for a document with the specified one',
     'All short strings over the characters and fragments that matter, heredocs, escapes, dotted paths, attributes, and random documents. A tag whose payload is a tag (@a@b, @a/@b), which only the reference reads, is a listed finding. The Swift implementation cannot run here.')

prop('C19', 'The schema generated from a type accepts what the type reads',
     'For every Rust type with Facet, the schema that schema_from_type and GenerateSchema write for it is a readable schema file that says what the type says: it accepts a document exactly when the document has the kinds of values, fields, variants, keys and payloads that the type reads, with no field that the type does not have and none missing that it needs; a document that it accepts and that keeps to what schemas cannot express (ranges of integers, single characters, lengths of arrays, no stray tags, well-formed floats) can be read as the type. Different types with the same name stay different. Fields tell their documentation and defaults, and a default told is the value that is read when the field is absent; the file tells the name or crate, version, command, extension and description it was given. (Nothing is promised for text without a tag where an enum is expected, tags of tags, a unit where an option is expected, and types with no description of their own.)',
     ['inputs'], 'All types and documents.',
     'Unit tests look for substrings in the schemas of a dozen types; that a schema and a type agree is a statement about every document.',
     ['crates/facet-styx/src/schema_gen.rs', 'crates/facet-styx/src/schema_types.rs', 'crates/facet-styx/src/serializer.rs', 'crates/facet-styx/src/schema_meta.rs'],
     [('schema_from_type', 'crates/facet-styx/src/schema_gen.rs'), ('shape_to_schema', 'crates/facet-styx/src/schema_gen.rs'), ('struct_to_schema', 'crates/facet-styx/src/schema_gen.rs')],
     ['schema_from_type', 'GenerateSchema::generate'],
     'TLA+ specification of the schema of a type (kinds, fields, variants, defaults, documentation) over the specified schema verdict; TLC evaluates the schema the code generates on documents and compares it with what the type accepts and with what the real reading does',
     'Some 60 types (records, enums, untagged and recursive ones, generic ones, flattened, tuples and newtypes, results, pointers, sets, maps with documented keys, renamed, with defaults of every kind) and documents near them, valid and broken; each schema is generated anew for every document, in whatever order its hash maps have.')

prop('C20', 'What the language server offers to change does what it says',
     'For every text, schema and cursor, the edits the server offers lie at positions of the text and, applied, do what they say and nothing else. Enter indents the new line by its nesting and never changes what the text means. Formatting keeps the meaning and leaves broken texts alone. "Fill" is offered for each object in braces (and the root) that lacks fields of its schema, behind references and modifiers, with flattened fields in place: exactly the missing ones are added to that object, each with its default or a value of its type, everything else and all comments stay. Renaming an unknown field to the suggested one renames that key and is not offered where a sibling already has the name.',
     ['inputs'], 'All texts, schemas and cursor positions.',
     'Tests of these actions are few and on flat ASCII documents; where an edit goes depends on nesting, commas, comments, quoting, heredocs and line ends.',
     ['crates/styx-lsp/src/server.rs', 'crates/styx-lsp/src/schema_validation.rs'],
     [('code_action, on_type_formatting, formatting', 'crates/styx-lsp/src/server.rs'), ('find_object_at_offset, get_schema_fields_at_path, generate_placeholder', 'crates/styx-lsp/src/schema_validation.rs')],
     ['textDocument/codeAction', 'textDocument/onTypeFormatting', 'textDocument/formatting'],
     'TLA+ specification of positions, nesting, missing fields, values of a type and renamed keys over the specified grammar, tree and schema; TLC applies each offered edit to the text and evaluates the result',
     'Documents near random schemas (quoted, dotted and wide keys, catch-alls, tags, attributes, comments, commas, heredocs, line ends) with a cursor anywhere, and texts without a schema. Where a schema leaves a choice (several catch-alls, tags outside enums) no offer is required or judged. The wording of a placeholder is free as long as it is a value of the type.')


prop('C21', 'The browser bindings say what the document is, as JSON and from JSON',
     'For every text the browser bindings report exactly its errors, each with its place, and convert it to the JSON of the document: null for unit, {"$tag", "$value"} for tags, arrays, objects in the order of the document with the parts of dotted keys merged, finite numbers, booleans and null by their text and anything else as text, the same as value and as JSON text; texts with errors are refused. For every JSON object the written text is a document that holds exactly this object, and converting it back tells the same; what is no JSON is refused.',
     ['inputs'], 'All texts and all JSON texts.',
     'Tests convert a few flat documents one way; what is lost depends on nesting, dotted keys, the text of scalars (inf, huge integers, words like true) and tag-like JSON.',
     ['crates/styx-wasm/src/lib.rs'],
     [('parse, validate, to_json, from_json, object_to_json, json_to_value', 'crates/styx-wasm/src/lib.rs')],
     ['styx_wasm::parse', 'styx_wasm::validate', 'styx_wasm::to_json', 'styx_wasm::from_json'],
     'TLA+ specification of the JSON of a document and the documents of a JSON object over the specified grammar and tree; TLC evaluates the answers of the bindings, run natively with stand-ins for the JavaScript side',
     'Scalars in every place, all short fragment strings, random documents, random JSON objects with awkward keys, texts, numbers and tag-like members. Not compared: keys whose names collide in JSON, tags after tags, roots that are no object; a scalar behind a tag is written in parentheses (finding). Numbers are compared exactly up to the digits the specification of floats decides.')


prop('C22', 'What the language server tells at a place is what the schema says there',
     'For every text, schema and cursor, completion offers exactly the fields that the object around the cursor (in braces, or the root; also in sequences) lacks, required ones first, behind references, modifiers, maps, enum tags and flattened types; accepting one replaces the word at the cursor and adds exactly a key of that name, quoted where it must be. Hover on a key or value tells the documentation, path and type of exactly that field and links to its line; definition leads to the key of exactly that field in the schema. Texts with errors or without a schema are told nothing.',
     ['inputs'], 'All texts, schemas and cursor positions.',
     'Tests look up a few flat fields; fields of one name at several places, recursive and flattened types, quoting, wide characters and separators are what goes wrong.',
     ['crates/styx-lsp/src/server.rs', 'crates/styx-lsp/src/schema_validation.rs'],
     [('completion, hover, goto_definition, get_field_info_in_type, find_field_path_at_offset, get_word_range_at_position', 'crates/styx-lsp/src/server.rs'), ('find_object_at_offset, get_schema_fields_at_path', 'crates/styx-lsp/src/schema_validation.rs')],
     ['textDocument/completion', 'textDocument/hover', 'textDocument/definition'],
     'TLA+ specification of the object, path and field at a place over the specified grammar, tree and schema; TLC compares what a fresh server answers and applies each completion to the text',
     'Documents near random schemas with a cursor anywhere, and texts without a schema. Keys that are tags, several catch-alls, and numbers that may be keys or items are not judged; of unions and enums any alternative may be told on hover. The offer is limited to 50 fields.')


def write():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 lib/check.py setup', 'checks': sorted(CHECKS, key=lambda c: c['property']), 'not_applicable': NA,
         'notes': 'TLA+ with TLC. Known findings and fixes: known_findings.txt. The checks need no hooks in /repo.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    write()
