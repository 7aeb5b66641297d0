#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after changing this file)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TOML, PRIM, OBJ, PARSER, TYPES, LIB, UTIL, KIT = (
    "src/internals/toml.rs", "src/internals/primitives.rs", "src/internals/objects.rs", "src/internals/parser.rs",
    "src/types.rs", "src/lib.rs", "src/internals/util.rs", "src/bin/tomlkit.rs")

def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None),
                  technique=technique, note=note))

prop("C01", "A parsed document is displayed exactly as it was written",
     "For every input text, displaying the parser after parse gives back, byte for byte, the part of the text that was parsed: all of it for Full and FullError, "
     "and for Partial and PartialError the displayed document followed by the returned leftover is the input (if parsing stopped in the middle of a line, the displayed document may "
     "lack only the blanks in front of the leftover). Whitespace, comments, line endings, number spellings, string quoting and escapes, key spellings and statement order all survive, "
     "also in documents with errors, and reading keys does not change what is displayed.",
     ["inputs"], "every Unicode text, valid or not",
     "The tests display a handful of valid files; the guarantee is about every layout of every construct, and about texts that are only partly parsed.",
     [TYPES, OBJ, TOML, PARSER, LIB],
     [("Display of the stored document structure", "src/internals/objects.rs, impl Display"), ("whitespace kept per token", "src/internals/toml.rs, src/internals/primitives.rs"),
      ("leftover of an incomplete parse", "src/internals/parser.rs, Parser::parse")],
     ["TOMLParser::parse", "Display of TOMLParser", "ParseResult::Partial, PartialError"],
     "property-based round-trip testing over generated and mutated texts, small texts exhaustively",
     "The oracle is the input itself. Every text of up to five characters over a 15-character alphabet is tried; beyond that it is a search.")

prop("C02", "Every input gives one well-formed result, without a panic",
     "For every input text parse returns Full, Partial, FullError or PartialError without panicking or hanging, and so do get_value, get_children, set_value, validation and display with "
     "any key and any value afterwards. Partial and PartialError carry a non-empty leftover that is the end of the input and the line number on which it begins, FullError and PartialError carry "
     "at least one error, and every error has a line number within the text and column 0. Full and FullError mean that all of the text was parsed.",
     ["inputs", "histories"], "every Unicode text (values nested no deeper than the stack allows) followed by any sequence of calls with any keys and values",
     "The tests only use inputs whose result was known beforehand; a panic or a wrong result class shows on inputs nobody thought of.",
     [PARSER, TOML, PRIM, OBJ, LIB, TYPES],
     [("classification of the result", "src/internals/parser.rs, Parser::parse; src/lib.rs, TOMLParser::parse"), ("line counting", "src/internals/primitives.rs, count_lines, add_lines"),
      ("key lookup", "src/internals/parser.rs, get_value, get_children, set_value")],
     ["TOMLParser::parse", "ParseResult", "ParseError"],
     "fuzzing with a structured generator, a mutator and token soup, with well-formedness invariants; small texts exhaustively",
     "A run with overflow checks and debug assertions; crashes of the process are reported too. Nesting is bounded at 65 levels because the parser is recursive.")

prop("C03", "Every valid document is parsed in full without an error",
     "Every document of the supported dialect - TOML 0.4 with non-empty bare or basic-string keys, without dotted keys, and with the header rules of C08 - gives Full, however it is laid out: any legal "
     "spelling of integers, floats, booleans, date-times and all four kinds of strings with any legal Unicode characters and escapes, arrays with newlines, comments and a trailing comma, "
     "inline tables, tables, arrays of tables, LF or CRLF, nested to any depth, with or without a final newline.",
     ["inputs"], "every document of the grammar, layouts included",
     "The tests parse a few dozen documents; the grammar's product of spellings, contexts and layouts is unbounded.",
     [TOML, PRIM, OBJ, PARSER, UTIL],
     [("grammar of statements", "src/internals/toml.rs"), ("grammar of scalars", "src/internals/primitives.rs"), ("grammar of arrays, inline tables, headers, dates", "src/internals/objects.rs")],
     ["TOMLParser::parse"],
     "grammar-based generation of valid documents; exhaustive small number texts and a sweep of characters against a reference grammar",
     "The generator and an independent reference parser decide what is valid; both are written from the TOML 0.4 text and the repository's documentation.")

prop("C04", "get_value gives each key the value its statement has, and nothing else",
     "After parsing any document without errors, get_value returns for every key path - table names and keys joined by dots as they are written, array elements and arrays of tables by [index], inline "
     "table members by name - the value written there, with its type, digits, string kind and unescaped-as-written text, arrays and inline tables as values of all their parts. It returns None "
     "for every path that is not in the document and for paths that are tables, arrays of tables or the empty root path.",
     ["inputs"], "every valid document and every key, present or absent",
     "The tests ask for chosen keys of chosen documents; the mapping from nested statements to key paths has unboundedly many cases.",
     [PARSER, OBJ, TOML, TYPES],
     [("key construction while parsing", "src/internals/primitives.rs, get_full_key, insert_keyval_into_map, insert_value; src/internals/objects.rs, get_table_key"), ("conversion of stored values to Value", "src/internals/parser.rs, sanitize_array, sanitize_inline_table"),
      ("lookup", "src/internals/parser.rs, get_value")],
     ["TOMLParser::get_value"],
     "model-based testing: every key of a reference model, and hundreds of near-miss keys, in generated documents",
     "The reference parser and model are independent of the code under test.")

prop("C05", "get_children enumerates exactly the keys of the document",
     "get_children returns, for every table and inline table (the root under the empty key), the names of its direct members in the order they first appear, for arrays and arrays of tables the number of their elements, and "
     "for scalar values a count of zero; it is None exactly for keys that do not exist. Following the children from the root, with combine_child_keys or "
     "combine_keys_index, reaches every key that get_value or get_children knows and no other. combine_child_keys appends .name for named children and [i] for each index below a count.",
     ["inputs"], "every valid document and every key; combination for every base key and every set of children",
     "The tests check the children of chosen keys; completeness and exactness of the enumeration are claims over all documents.",
     [PARSER, TYPES, TOML, OBJ],
     [("children recorded with every key", "src/internals/primitives.rs, insert_value; src/internals/objects.rs, add_table_keys"), ("Children, combine_keys, combine_keys_index, combine_child_keys", "src/types.rs")],
     ["TOMLParser::get_children", "Children::combine_child_keys", "Children::combine_keys", "Children::combine_keys_index"],
     "model-based testing against a reference model; closure of the enumeration from the root",
     "The order compared is that of first appearance in the document.")

prop("C06", "What is not TOML is never accepted, and what precedes it is kept",
     "A statement outside the supported grammar - malformed keys, numbers, strings, escapes, dates, arrays, inline tables or headers, control characters, text after a value, missing newlines, separators or brackets - makes the "
     "result Partial or PartialError; the leftover begins with that statement, or with the rest of its line if a complete statement is followed by something else. "
     "The statements before it are parsed, and nothing of the leftover shows among the keys.",
     ["inputs"], "every text that is not a document of the grammar",
     "Rejection tests exist for a few dozen malformed texts; there are infinitely many, and accepting one is silent data loss.",
     [TOML, PRIM, OBJ, PARSER],
     [("statement grammar and end of parse", "src/internals/toml.rs; src/internals/parser.rs, Parser::parse"), ("token grammars", "src/internals/primitives.rs"), ("structured values", "src/internals/objects.rs")],
     ["TOMLParser::parse", "ParseResult leftover", "TOMLParser::get_value"],
     "differential testing against a reference parser on damaged documents, a catalogue of malformed statements, and exhaustive short texts",
     "The catalogue runs in full every time; the reference parser says where parsing has to stop.")

prop("C07", "Every repeated key, and no other, is reported as a duplicate",
     "Parsing reports one DuplicateKey error for every key-value pair whose full key path, as it is written, has been defined before in the document - in a table, at the root, in an inline table, or by a table header - and for nothing else. "
     "The error carries that full key path, the line of the repeated key and the value that was given to it. The value defined first is kept.",
     ["inputs"], "every document with any number of repeated keys anywhere",
     "The tests repeat one key in one place; here every combination of scopes, nested inline tables, tables and arrays of tables counts.",
     [PARSER, TOML, OBJ],
     [("duplicate detection on insertion", "src/internals/primitives.rs, keyval, insert_keyval_into_map"), ("inline table keys", "src/internals/objects.rs, inline_table")],
     ["ParseError::DuplicateKey", "TOMLParser::get_value"],
     "model-based testing on generated documents full of repeated keys",
     "Keys are compared as text; that a bare key and the same key in quotes are told apart is recorded as a known finding.")

prop("C08", "A header is an invalid table exactly when the document forbids it",
     "Parsing reports one InvalidTable error for every header [k] whose table was already defined by a header, a value or an array of tables, for every [[k]] whose name is already a table or a value, and for every header below a "
     "key holding a value or below a table (or the last element of an array of tables) that already holds key-value pairs of its own; all other headers are accepted in any order, implicit tables and nested arrays "
     "of tables included. The error carries the key of the table, the line of the header, and the pairs that follow it up to the next header, which do not become keys of the document.",
     ["inputs"], "every document with any arrangement of table and array-of-tables headers",
     "The tests try about a dozen arrangements of headers; the rules are about every history of headers and pairs before.",
     [PARSER, TOML, OBJ],
     [("header resolution", "src/internals/objects.rs, get_table_key, add_table_keys, std_table, array_table; src/internals/primitives.rs, key_has_value"), ("table statements", "src/internals/objects.rs, std_table, array_table")],
     ["ParseError::InvalidTable", "TOMLParser::get_value", "TOMLParser::get_children"],
     "model-based testing on generated histories of headers over few keys",
     "That a table holding pairs cannot get subtables departs from TOML 0.4 but is what the repository's tests demand (test_nested_table_with_keys).")

prop("C09", "Every array of mixed types, and no other, is reported",
     "Parsing reports exactly one MixedArray error for every array, at any depth within arrays and inline tables, whose elements are not all of one type (string of any kind, integer, float, boolean, date-time, array, "
     "inline table); arrays of arrays may hold arrays of different types. The error carries the key path of the array and a line it is written on, and the array keeps its values.",
     ["inputs"], "every document with arrays nested in any way",
     "The tests mix types in a few flat arrays; nesting, several errors in one value, and false alarms need a search.",
     [OBJ, PARSER, TYPES],
     [("type tracking of arrays", "src/internals/objects.rs, array, array_value, map_val_to_array_type"), ("ordering of the types", "src/internals/objects.rs, array_internal")],
     ["ParseError::MixedArray"],
     "model-based testing on generated nested arrays, a third of them with one odd element",
     "Any of the lines the array is written on is accepted as its line.")

prop("C10", "Every impossible date or time, and no other, is reported",
     "Parsing reports exactly one InvalidDateTime error for every date-time that cannot exist: a month outside 1-12, a day beyond the month's length with leap years, the year 0000, an hour above 23, a minute or second above 59, or an offset beyond 23:59. "
     "The error carries the key path, the line and the date-time; all other date-times, with or without time, fraction and offset, give none.",
     ["inputs"], "every date, time and offset, in every context a value can stand",
     "A few impossible dates are tested; the calendar and the clock have thousands of cases and dates occur in arrays and inline tables.",
     [OBJ, TYPES, TOML, PARSER],
     [("date-time parsing", "src/internals/primitives.rs, date_time"), ("validity of dates and times", "src/types.rs, validate of DateTime, Date, Time, TimeOffset")],
     ["ParseError::InvalidDateTime"],
     "exhaustive sweep of months, days, years and clock fields, and model-based testing on generated documents",
     "16 years with all leap-year cases are swept completely.")

prop("C11", "Errors and stopped parses name the right line",
     "Every error is reported on the line (counting from 1, LF or CRLF) where the offending key, header or value stands in the input, however many lines multi-line strings, arrays with newlines and comments, and blank lines take up before it. "
     "The line of Partial and PartialError is the one on which the leftover begins. Putting n more lines in front of a document moves all its lines by n.",
     ["inputs"], "every document with errors and every layout of it",
     "Line numbers are tested for single errors in simple layouts; every multi-line construct can make the count drift.",
     [PARSER, TOML, OBJ, PRIM, UTIL],
     [("line counter and count_lines, add_lines", "src/internals/primitives.rs"), ("increments at newlines", "src/internals/toml.rs, objects.rs, primitives.rs")],
     ["ParseError line", "ParseResult::Partial, PartialError"],
     "model-based testing of positions in generated multi-line layouts, and a shift metamorphic relation",
     "For an array or date inside a multi-line value any line its own text occupies is accepted, for a repeated inline table key any line of its statement.")

prop("C12", "Errors leave the rest of the document as it would be without them",
     "In a document with duplicate keys, invalid tables, mixed arrays or impossible date-times (FullError or PartialError), every statement that is not in error has exactly the keys, values and children it would have otherwise: "
     "removing the erroneous statements changes nothing for the rest. Statements in error add no keys: the pairs of an invalid table and repeated keys are in the error alone, while mixed arrays and impossible date-times "
     "stay readable as written.",
     ["inputs"], "every document and every set of errors in it",
     "The tests look at the errors, hardly at the keys of a document that has them.",
     [PARSER, TOML, OBJ],
     [("insertion of keys when a statement is complete", "src/internals/primitives.rs, insert_keyval_into_map"), ("invalid table bookkeeping", "src/internals/objects.rs, std_table, array_table")],
     ["TOMLParser::get_value", "TOMLParser::get_children", "ParseResult::FullError"],
     "model-based testing of documents with errors; metamorphic removal of the statements in error",
     "Compared with a reference model and with the code itself on the reduced document.")

prop("C13", "Setting a scalar changes that value's text and nothing else",
     "Setting a key that holds a scalar - at the root, in a table, in an array of tables, in an array or in an inline table - to any valid scalar of the same or another type returns true and replaces "
     "exactly the value's text in the displayed document: every other byte, whitespace, comments and line endings included, stays. Afterwards get_value returns the new value and every other key reads as before.",
     ["inputs", "histories"], "every document, every scalar in it and every valid new scalar",
     "The tests set a few values in fixed documents; preserving the format is claimed for every layout.",
     [PARSER, OBJ, TYPES, LIB],
     [("set_value on shared nodes", "src/internals/parser.rs, set_value"), ("Display of nodes", "src/internals/objects.rs")],
     ["TOMLParser::set_value", "Display of TOMLParser"],
     "model-based testing: the expected text is the input with one span replaced",
     "Spans come from the reference parser.")

prop("C14", "Replacing arrays and inline tables keeps format or uses the documented one",
     "Setting a key to an array or inline table of the same structure (same lengths, same keys in the same order, at every level) replaces just the scalars in it and keeps all formatting; setting a value of any other structure, or replacing "
     "a structured value by a scalar, replaces exactly that value by its default format and leaves the rest of the document alone. Afterwards its elements are reachable, with no key left over "
     "from the old value.",
     ["inputs", "histories"], "every document, every value in it and every valid new value",
     "The tests replace a few arrays and tables; structure pairs are unbounded.",
     [PARSER, OBJ, TYPES],
     [("structure comparison and in-place update", "src/internals/parser.rs, same_structure, replace_values, get_all_subkeys"), ("default formats", "src/types.rs ArrayFormat, src/lib.rs set_value documentation")],
     ["TOMLParser::set_value", "Display of TOMLParser", "TOMLParser::get_children"],
     "model-based testing over pairs of old and new values, against a model of formatting",
     "The default format ([a, b] and {k = v}) is as documented; that the braces get spaces is pinned by the tests and a known finding.")

prop("C15", "Any history of edits gives the document the edits describe",
     "After any sequence of set_value calls, successful and rejected, the displayed document, all values and all children are those of the original document with the successful replacements made one after another: "
     "no edit is lost, undone, applied elsewhere or seen only by one of display, get_value and get_children. Elements of values set earlier can themselves be set.",
     ["histories", "inputs"], "every document and every sequence of edits",
     "Tests make one or two edits; stale shared nodes and children show only after particular sequences.",
     [PARSER, OBJ, TYPES, LIB],
     [("nodes shared between document and key map", "src/internals/objects.rs, src/internals/parser.rs"), ("set_value", "src/internals/parser.rs")],
     ["TOMLParser::set_value", "TOMLParser::get_value", "TOMLParser::get_children", "Display of TOMLParser"],
     "stateful model-based testing: histories of up to 60 edits against a reference document",
     "The whole text is compared after every step and the whole key space after many.")

prop("C16", "A rejected set returns false and changes nothing",
     "set_value returns false, without panicking, for a key that does not exist, for a key of a table or an array of tables, and for a value that could not be written as TOML somewhere in it - a malformed number, a string its quotes cannot hold, "
     "an impossible or malformed date-time, an inline table with a malformed or repeated key. The document, all values and all children are then exactly as before.",
     ["inputs", "histories"], "every document, every absent key and every value with an invalid part at any depth",
     "The tests reject a few values at existing keys; invalid parts deep inside a value and the absence of partial changes are not covered.",
     [PARSER, TYPES, LIB],
     [("validation before any change", "src/internals/parser.rs, set_value; src/types.rs, Value::validate")],
     ["TOMLParser::set_value", "Display of TOMLParser"],
     "property-based testing with generated invalid values and near-miss keys; the model must stay unchanged",
     "Invalid values come from a catalogue and from generators; the reference grammar confirms that they are invalid.")

prop("C17", "An edited document reads the same when it is parsed again",
     "After any edits to a valid document, parsing the displayed text gives Full (or only mixed-array errors if an edit made one) and the same values and children as the edited parser. Setting a key to its current value changes "
     "nothing, setting it to another value of the same structure and back restores the text, and edits of two keys, neither within the other, give the same document in either order.",
     ["histories", "inputs"], "every document and every sequence of edits",
     "The tests never parse an edited document again.",
     [PARSER, OBJ, TYPES, TOML],
     [("Display of edited nodes", "src/internals/objects.rs, src/types.rs"), ("set_value", "src/internals/parser.rs")],
     ["TOMLParser::set_value", "Display of TOMLParser", "TOMLParser::parse"],
     "metamorphic testing: reparse, restore and commute relations over generated edits",
     "Needs no model for the laws: the code is compared with itself.")

prop("C18", "Constructors of integers, floats and booleans accept exactly the TOML ones",
     "int_from_str and float_from_str succeed exactly on the texts that TOML writes integers and floats with (ASCII digits, one sign, no leading zero in the integer part or the exponent, single underscores between digits, a float having a fraction or an exponent), bool_from_str exactly on true and false "
     "in any case, and keep the text; int, float and bool give the value of their argument. What they return passes validate, displays as the text, and parses back to the same value; what they refuse is an error with a description.",
     ["inputs"], "every text, every 64-bit integer and float",
     "A few numbers are tested; the grammar's edges and 64-bit extremes are not.",
     [TYPES, PRIM],
     [("constructors", "src/types.rs, impl Value"), ("validation by the parser's grammar", "src/types.rs, Value::validate")],
     ["Value::int", "Value::int_from_str", "Value::float", "Value::float_from_str", "Value::bool", "Value::bool_from_str"],
     "exhaustive short texts and generated numbers against a reference grammar; round trip",
     "Float values that are whole, NaN or infinite are a known finding of Value::float; all others are checked exactly.")

prop("C19", "Date and time constructors accept exactly the possible date-times",
     "All functions that build a date, date-time or part of one - from strings, from integers, or by parsing text - succeed exactly when every field has the right number of ASCII digits and the date, time and offset can exist, and give "
     "exactly those fields, zero-padded where they come from integers. The result displays as the TOML text of it, passes validate, and parses back equal; otherwise an error with a description is returned. Two date-times are equal exactly when all their "
     "parts are.",
     ["inputs"], "every combination of fields and every text",
     "The tests build a handful of date-times per function; there are a dozen functions with up to nine fields.",
     [TYPES, OBJ],
     [("constructors of Value, DateTime, Date, Time, TimeOffset, TimeOffsetAmount", "src/types.rs"), ("validation", "src/types.rs, validate")],
     ["Value::date_from_int", "Value::date_from_str", "Value::datetime_*", "Value::datetime_parse", "DateTime, Date, Time, TimeOffset, TimeOffsetAmount"],
     "property-based testing of all constructors against a reference calendar; exhaustive days of 16 years",
     "The calendar and the digit rules are written independently of the code.")

prop("C20", "String constructors accept exactly what their quotes can hold",
     "basic_string, ml_basic_string, literal_string and ml_literal_string succeed exactly on the contents TOML allows between their quotes - legal characters, complete and valid escapes, newlines only in multi-line strings, no closing delimiter "
     "inside or formed with the quotes - and keep the content unchanged. The value displays as the content in those quotes, passes validate and parses back to the same value; anything else is an error with a description.",
     ["inputs"], "every text for each kind of string",
     "The tests use a few contents per kind; control characters, escapes, quotes at the ends and astral characters need sweeping.",
     [TYPES, PRIM],
     [("constructors", "src/types.rs, impl Value"), ("string grammars", "src/internals/primitives.rs")],
     ["Value::basic_string", "Value::ml_basic_string", "Value::literal_string", "Value::ml_literal_string"],
     "exhaustive short texts, a sweep of all characters, and generated contents against a reference grammar; round trip",
     "Unpaired quotes at the end of a multi-line string are judged as the grammar of this dialect does.")

prop("C21", "Values display as TOML, validate truly and compare by content",
     "The displayed text of any valid value, nested to any depth, parses back to an equal value; validate is true exactly for values that can be written in a document, all their parts included. Two values are equal exactly when they are of one type and have equal "
     "contents, string kind, element order and inline table order included.",
     ["inputs"], "every value and pair of values",
     "The tests display and compare a few scalars.",
     [TYPES],
     [("Display of Value", "src/types.rs"), ("Value::validate", "src/types.rs"), ("PartialEq", "src/types.rs")],
     ["Display of Value", "Value::validate", "Value ==", "DateTime ==, Date ==, Time =="],
     "property-based testing: display and parse back, validity against a reference grammar, equality against a model",
     "The parse back uses the parser under test and a reference text of the value.")

prop("C22", "Layout carries no meaning",
     "Changing whitespace around tokens, comments, blank lines, the newlines and trailing comma allowed inside arrays, and line endings between LF and CRLF in any document never changes the kind of the result, the set of errors apart from line "
     "numbers, the values (newlines inside multi-line strings apart), the children or their order.",
     ["inputs"], "every document and every way to lay it out",
     "No test compares two layouts of a document.",
     [TOML, OBJ, PRIM, UTIL],
     [("whitespace, comment and newline rules", "src/internals/primitives.rs, toml.rs, objects.rs")],
     ["TOMLParser::parse", "TOMLParser::get_value", "TOMLParser::get_children"],
     "metamorphic testing: generated documents against reformatted copies",
     "The code is compared with itself; the formatter is part of the harness.")

prop("C23", "Parsing depends on the text alone",
     "Parsing the same text twice gives the same result, errors, keys, values, children and display, also with a parser that has parsed and edited other documents before. Parsers do not influence each other, and a result, value or error "
     "that was returned earlier never changes when its parser is used again. Switching on the messages for debugging changes none of it.",
     ["histories", "inputs"], "every sequence of texts and edits on one or more parsers",
     "Every test uses a fresh parser once.",
     [PARSER, LIB, OBJ],
     [("reset of the parser state", "src/internals/parser.rs, Parser::parse"), ("values copied out", "src/internals/parser.rs, get_value")],
     ["TOMLParser::parse", "TOMLParser::get_value", "ParseResult"],
     "stateful metamorphic testing: reused against fresh parsers",
     "The code is compared with itself.")

prop("C24", "tomlkit's reading commands print what the document holds",
     "For every document that parses without errors, --get-value, --has-value, --get-children and --has-children print for each key of their comma separated list, in order, the displayed value, the children (names between the array marks or after "
     "the length, or the number of elements) or the chosen words for true and false, joined by the chosen separators. A key that --get-value or --get-children cannot find ends the command with "
     "an error naming it, several commands print in that order up to the first failing one, several documents (named on standard input) one after another, and no file is changed.",
     ["inputs", "configurations"], "every document, key list and combination of reading commands and output options",
     "No test runs the program.",
     [KIT, LIB],
     [("commands and output", "src/bin/tomlkit.rs, process_document, get_value, has_value, get_children, has_children"), ("options", "src/bin/tomlkit.rs, Options::new")],
     ["standard output and exit code of tomlkit", "the files"],
     "property-based testing of the built program: predicted output for generated documents, keys and options",
     "The prediction comes from the reference model; keys with commas or line ends cannot be passed in a list and are left out.")

prop("C25", "tomlkit --set-value writes exactly the edited document, or nothing",
     "When every triple of --set-value succeeds, the output file (by default the input file) holds exactly the document with those values replaced and everything else preserved, and one Success per triple is printed unless --quiet. When any triple has an unknown key, "
     "type or malformed value, or the count is wrong, or a command before it fails, an error naming the file is printed and no file is written. A document that is missing, not UTF-8, or parses "
     "partially or with errors, an output file that cannot be written, and a call without a command, make the program fail with an error naming the document and a non-zero exit code, leaving its file and "
     "those of the documents after it untouched.",
     ["inputs", "configurations", "histories"], "every document, list of triples and combination of options",
     "No test runs the program.",
     [KIT, LIB, PARSER],
     [("set_value and write_to_file", "src/bin/tomlkit.rs"), ("rejection of documents in error", "src/bin/tomlkit.rs, process_document")],
     ["files written by tomlkit", "standard output and exit code of tomlkit"],
     "property-based testing of the built program on files in a scratch directory, against the reference model",
     "All files of the scratch directory are compared after each call.")

prop("C26", "The cost of a document is at most quadratic in its size",
     "For every text of n bytes, parsing it, displaying it, reading a key and setting a value take a number of steps and an amount of memory that grow at most with the square of n: nothing doubles with every level of nesting, and no number of keys, "
     "tables, elements, path segments, comments, characters or errors, and no place at which parsing stops, makes the cost grow faster.",
     ["inputs"], "every way to make a document grow: repeated statements, elements, members, characters, path segments, levels of nesting, in valid and in damaged texts",
     "The tests parse small documents, on which even an exponential cost is not noticed.",
     [OBJ, PRIM, TOML, PARSER, TYPES],
     [("alternatives of the grammar tried one after another", "src/internals/objects.rs, toml.rs, primitives.rs"), ("search for parents and children of a key", "src/internals/objects.rs, primitives.rs, insert_keyval_into_map, add_to_table_set"), ("removal of keys by set_value", "src/internals/parser.rs")],
     ["basic blocks of tomllib that are run (counted by the compiler's instrumentation)", "bytes taken from the allocator"],
     "property-based testing: families of texts of growing size, cost counted against a quadratic bound",
     "The bound is several times the worst cost found on the tree. Steps are counted in tomllib and in what is instantiated in it (nom, collections), not in the regex crate; machine time is not measured.")

prop("C27", "Nothing is left behind when a parser is dropped",
     "All memory that parsing, reading, editing and displaying a document, and building and comparing values, take is given back when the parser and the values are dropped, also for documents in error, rejected and repeated edits, and a parser used for several documents; "
     "what is kept once for all, such as compiled regular expressions, does not grow with further use.",
     ["histories", "inputs"], "every sequence of documents, reads and edits",
     "No test looks at memory; a cycle of references or a store that is never emptied fails none of them.",
     [PARSER, OBJ, TYPES, LIB],
     [("shared nodes of the document (Rc)", "src/internals/ast/structs.rs"), ("the map of keys and the state of the parser", "src/internals/parser.rs")],
     ["bytes taken from the allocator and not given back"],
     "property-based testing: generated sessions repeated under a counting allocator",
     "A session is repeated up to 20 times with texts that are different each time; a leak is memory that grows every time.")

prop("C28", "Parsers in different threads do not disturb each other",
     "When several threads each parse, read, edit and display documents of their own and build values, every result is what it is when the thread works alone, however the calls of the threads interleave: "
     "no result, error, key, value or line number depends on what another thread does at the same time, and no call panics or blocks because of it.",
     ["schedules", "inputs", "histories"], "every interleaving of threads, each with parsers and documents of its own",
     "Every test uses parsers one after another.",
     [PARSER, PRIM, OBJ, TYPES, LIB],
     [("state of a parser that is kept in the parser alone", "src/internals/parser.rs, struct Parser"), ("values without shared state", "src/types.rs")],
     ["TOMLParser::parse", "TOMLParser::get_value", "TOMLParser::set_value", "constructors of Value"],
     "property-based testing: generated sessions run alone and in concurrent threads and compared",
     "Interleavings are those that the operating system and random delays between calls give; they are not enumerated, and calls are not interrupted at chosen points.")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="./build.sh", checks=[
    dict(property=p["id"], quick_cmd="./run.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./run.sh " + p["id"],
         evidence_file="evidence/%s.json" % p["id"], technique=p["technique"] + ("" if p["id"] in ("C24", "C25") else "; a second pass guided by coverage"), level="exploration", level_note=p["note"]) for p in P],
    not_applicable=[],
    notes="No hooks are needed in /repo: everything is observed through the public interface and the program tomlkit. See DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
