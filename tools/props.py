#!/usr/bin/env python3
# Writes properties.jsonl and the checks of MANIFEST.json; run by hand after editing.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def m(name, where): return {"name": name, "where": where}
PARSER, PRIM, OBJ, TOML, TYPES, LIB, STR, MAC = ("src/internals/parser.rs", "src/internals/primitives.rs", "src/internals/objects.rs",
    "src/internals/toml.rs", "src/types.rs", "src/lib.rs", "src/internals/ast/structs.rs", "src/internals/macros.rs")
P = []
def prop(id, title, stmt, over, qt, why, mech, level_note, state=None, observe=None):
    files = []
    for x in mech:
        f = x["where"].split(":")[0].split(" ")[0]
        if f not in files: files.append(f)
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = [{"name": "parser", "meaning": state}]
    if observe: a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=qt), why_tests_cant=why, anchors=a), level_note))
I, H = "inputs", "histories"
prop("R01", "Printing a parsed document reproduces it byte for byte",
 "A document that was read to its end is printed exactly as it was given, byte for byte: layout, comments, line ends, quoting, order and number formats included. If reading stopped early, the printed part followed by the reported rest is the document.",
 [I], "every UTF-8 document, whatever its layout, line ends and contents, with or without reported errors",
 "The tests print a dozen fixed documents; the promise is about every layout and every character a document may hold, including those that end in the middle of a construct.",
 [m("Display of the tree", STR), m("expressions, comments and whitespace", TOML), m("separators inside arrays and inline tables", OBJ), m("Display of the parser", PARSER + " fmt")],
 "all ASCII documents of <=5 bytes (thorough 7), all UTF-8 documents of <=5 (6) bytes, templates with free parts", observe=["Display of TOMLParser", "ParseResult rest"])
prop("R02", "No document, key or value makes the library panic",
 "Reading any text, looking up any key, setting any key to any value, making any value and printing never panics and, given enough memory and stack, always comes to an end.",
 [I], "every text, complete or cut off anywhere, followed by every lookup and change; every argument of every constructor",
 "A panic needs one unfortunate combination (a header that runs into a value, a cut-off escape, an empty list); tests only try combinations somebody thought of.",
 [m("unwraps and index arithmetic while storing pairs", PRIM), m("headers", OBJ), m("changing values", PARSER + " set_value"), m("validation", TYPES)],
 "all ASCII documents of <=5 bytes (thorough 7) each followed by every lookup and a change, line combinations, templates cut off at any byte")
prop("G01", "A document is read to its end exactly if it follows the grammar",
 "A document is reported as read completely if and only if it follows the grammar the library documents. Otherwise the result says so and its rest begins exactly where the longest sequence of well-formed lines ends; a result that announces errors carries at least one.",
 [I], "every UTF-8 text",
 "Accepting and rejecting is a statement about all texts; the tests have a few of each kind per rule and no way to show that nothing else slips through.",
 [m("grammar of documents and lines", TOML), m("grammar of keys, numbers, dates, strings", PRIM), m("grammar of headers, arrays and inline tables", OBJ), m("classification of results", PARSER + " parse")],
 "all ASCII documents of <=6 (7) bytes, all UTF-8 documents of <=5 (6) bytes, templates", observe=["ParseResult"])
prop("V01", "Scalar values are found with their type and exact text",
 "Every integer, float, boolean, date, time and string of a document that was read to its end is found under its key with the type its notation has and with the characters it was written with. Dates and times come apart into exactly the parts they are written with.",
 [I], "every scalar the grammar allows, in every notation",
 "Tests look at some dozens of literals; which rule wins where notations overlap (date or number, basic or multi-line string, integer or float) depends on characters further on.",
 [m("values", PRIM + " val, integer, float, boolean, date_time, strings"), m("lookup", PARSER + " get_value"), m("conversion", MAC)],
 "all ASCII documents of <=6 (7) bytes, all UTF-8 documents of <=5 bytes, literal templates with up to 12 free characters", observe=["get_value"])
prop("V02", "Every entry of arrays and inline tables is found under its own key",
 "For a value nested in arrays and inline tables of any shape, the entry is found under the key made of the names and indices leading to it, with its own type and text, and the containing value holds it at the same place. Nothing that is not a value has one.",
 [I], "every nesting of arrays and inline tables, with any layout and any keys",
 "Indices and names are put together while the value is still being read, so an error shows only for certain nestings, positions and combinations; tests have a handful of shapes.",
 [m("arrays and inline tables", OBJ + " array, inline_table"), m("storing of values and the key chain", PRIM + " insert_keyval_into_map")],
 "all shapes of two levels and width two with free keys, arrays of up to 12 entries, layout and mixed-type templates", observe=["get_value"])
prop("L01", "Values are found under their table's full key",
 "Each value is found under the full key its header leads to: table names joined by dots, the newest element of every array of tables on the way with its index. Neither tables nor arrays of tables nor their elements have a value themselves.",
 [I], "every sequence of headers and pairs, with every way in which their names coincide",
 "Which table a line belongs to depends on all headers before it; the interesting cases need several headers whose names coincide in a particular way.",
 [m("headers", OBJ + " std_table, array_table"), m("full keys", PRIM + " get_full_key, get_array_table_key")],
 "all sequences of <=3 lines of 9 kinds and of 4 (thorough 6) lines of fewer kinds, all coincidences of names", observe=["get_value"])
prop("L02", "Every key lists exactly its children",
 "Every table, implicitly made table, element of an array of tables and inline table lists exactly the names stored in it, each once; every array and array of tables gives exactly its number of entries; every other value has none.",
 [I], "every sequence of headers and pairs and every nesting of values, also in documents with reported errors",
 "Children are recorded at several places while reading and must neither be lost nor doubled when tables are reopened, created implicitly or rejected; tests check the lists of one document.",
 [m("recording children", PRIM + " insert_keyval_into_map, add_to_parents"), m("implicit tables", PRIM + " add_implicit_tables"), m("lookup", PARSER + " get_children")],
 "as L01, plus value templates", observe=["get_children"])
prop("K01", "Walking the children from the root reaches every key exactly once",
 "Starting at the root and combining each key with its children reaches exactly the keys of the document, each exactly once, and every key so made can be looked up. All ways to combine keys with names or indices give the same keys.",
 [I], "every document, every key",
 "It ties together what is stored, what is listed and how keys are put together, over whole documents; tests call the combining functions with constants.",
 [m("combining keys", TYPES + " Children"), m("lookup", PARSER + " get_children"), m("storing", PRIM)],
 "as L01, plus value templates; combinations of any two parts of <=3 bytes")
prop("N01", "Keys a document does not have yield nothing, and lookups change nothing",
 "Looking up any text as a key yields a value or children only if it is, character for character, the full key of something in the document. No lookup changes what the document prints or what later lookups yield.",
 [I], "every text used as a key, in particular those close to keys of the document",
 "Tests look up keys that exist; this is about all that do not.",
 [m("lookup", PARSER + " get_value, get_children")],
 "any key of <=16 (30) ASCII bytes, and near misses, in 26 documents", observe=["get_value", "get_children"])
prop("E01", "Exactly the duplicate keys are reported and the first value stays",
 "For every pair whose full key is already taken, and for no other, a duplicate-key error names that key and the rejected value. What was stored first stays untouched, including everything below it.",
 [I], "every document, with duplicates among pairs, tables, arrays of tables and inside inline tables",
 "Whether a key is taken depends on everything read before; tests have a few two-line duplicates.",
 [m("duplicate detection", PRIM + " insert_keyval_into_map"), m("inline tables", OBJ)],
 "all sequences of <=3 lines of 9 kinds and of 4 lines of 5 kinds, inline-table templates", observe=["ParseError list", "get_value"])
prop("E02", "Exactly the clashing table headers are reported, with their pairs",
 "A table header is reported as invalid if and only if it names something that exists already in another role or is defined a second time, or leads through something that is no table; the error has its key and exactly the pairs that follow it. Such a header leaves no trace among keys and children.",
 [I], "every sequence of headers and pairs",
 "Clashes depend on the whole sequence of headers before, on implicit tables and on the newest elements of arrays of tables; tests have single examples.",
 [m("headers", OBJ + " std_table, array_table"), m("clash detection", PRIM)],
 "all sequences of <=3 lines of 9 kinds and of 4 (5) lines of 5 kinds", observe=["ParseError list"])
prop("E03", "Exactly the arrays with values of different types are reported",
 "An array is reported as mixed if and only if its entries are not all of one type; the error names the array's full key, and each array is reported once. It does not matter where the array stands or what has been reported before.",
 [I], "every array, nested anywhere, stored or rejected",
 "The decision is made entry by entry while arrays nest; tests mix one flat array.",
 [m("tracking of types", OBJ + " array"), m("reporting", PRIM + " insert_keyval_into_map")],
 "all arrays of <=3 (4) entries out of 9 kinds at 12 places, all ASCII documents of <=6 (7) bytes", observe=["ParseError list"])
prop("E04", "Exactly the dates and times that do not exist are reported",
 "A date or time written in a document is reported as invalid if and only if the calendar or the clock has no such moment; the error has its key and its text. It does not matter where the value stands.",
 [I], "every date and time, with every digit free, at every kind of place",
 "Leap years, month lengths and the ranges of hours, minutes and offsets need all combinations of digits; tests try a few.",
 [m("validation of dates", TYPES + " Date, Time, TimeOffsetAmount"), m("reporting", PRIM)],
 "every digit of date, time and offset free, at 12 places, two dates together", observe=["ParseError list"])
prop("E05", "Errors carry the line they are about",
 "Every reported error carries the number of a line, counted from 1, on which the thing it is about stands: the header of an invalid table, the date, a line of the pair with the taken key, a line of the mixed array. Blank lines, comments, both kinds of line ends and line breaks inside values all count.",
 [I], "every document with errors, with line breaks anywhere the grammar allows them",
 "Line breaks are counted at many places of the grammar, and a missing count shows only for errors behind that particular construct; tests have errors in plain documents.",
 [m("counting lines", PRIM + " count_lines, newline"), m("arrays, comments, multi-line strings", OBJ)],
 "error templates with free gaps, all sequences of <=3 lines", observe=["ParseError line"])
prop("S01", "Setting a value changes exactly that value in the text",
 "Setting an existing value to a valid value of the same shape succeeds; from then on the key has the new value, and the printed document is the previous one with nothing but the text of that value (or of the scalars within it) replaced.",
 [I], "every document, every key holding a value, every valid new value",
 "Tests set some values and compare one final text; the promise is that nothing else moves, wherever the value stands and whatever it is replaced by.",
 [m("changing values", PARSER + " set_value, replace_values, same_structure"), m("printing", STR)],
 "16 documents and templates with free parts, every key, new values with 1-4 free bytes", observe=["set_value", "Display", "get_value"])
prop("S02", "A rejected change has no effect",
 "Setting a key that holds no value, or setting any key to something that cannot be written as a value, is turned down; the printed document, all values and all children stay as they were.",
 [I], "every document, every key whether present or not, every value that is not valid",
 "A change that fails half-way shows only if the failing part comes after parts already replaced; tests barely set invalid values.",
 [m("changing values", PARSER + " set_value, convert_vector"), m("validation", TYPES + " validate")],
 "16 documents, every key and near misses, new values with 1-4 free bytes, invalid parts deep inside", observe=["set_value", "Display"])
prop("S03", "A value of another shape is written in the default layout, in place",
 "Setting an existing value to a valid value of another shape succeeds and the key has it from then on; it is printed in the documented default layout, and all text before and after it stays as it was.",
 [I], "every document, every key holding a value, every valid value of another shape",
 "Needs all pairs of old and new shapes at all places; tests have two.",
 [m("changing values", PARSER + " set_value, convert_vector"), m("default layout", STR + " ArrayValue, TableKeyVal, WSSep")],
 "16 documents, every key, all values of two levels and width two", observe=["set_value", "Display", "get_value"])
prop("S04", "After any changes, lookups agree with the printed document",
 "After any sequence of changes the printed document follows the grammar, every value and every list of children found by lookup is the one that reading the printed document anew would give, and keys no longer in it yield nothing.",
 [H], "every sequence of changes, each of any key to any valid value",
 "Bookkeeping of keys and the tree that is printed are separate and may drift apart over several changes of structure; tests make one and look at one key.",
 [m("rebuilding keys", PARSER + " rebuild_vector, get_all_subkeys"), m("changing values", PARSER + " set_value")],
 "16 documents; all single changes, all pairs (thorough: triples) of changes over every key and 8 values", state="parser after 1-3 changes", observe=["Display", "get_value", "get_children"])
prop("C01", "Dates and times can be made exactly if they exist",
 "Each way to make a date, time or offset, from numbers, parts of text or one text, succeeds if and only if every part has its fixed form and calendar and clock have that moment. The value has exactly those parts, prints as them, and is the same whichever way it was made.",
 [I], "every number and every text as each argument",
 "Fourteen constructors with up to ten arguments; leap years and limits need all values of the arguments, tests have one example per constructor.",
 [m("constructors", TYPES + " Value::date_from_int .. datetime_parse"), m("validation", TYPES + " Date, Time, TimeOffsetAmount, DateTime")],
 "all months and days over >=1000 years, each argument 0-255, any text of <=3 (6) bytes for each part")
prop("C02", "A value is valid exactly if a document can hold it",
 "A number, string, array or inline table is accepted, by its constructor, as valid, and hence for setting, if and only if its text is read by the grammar wholly as this very value. It prints as that text, and a document holding the text gives it back.",
 [I], "every text, number and nesting",
 "Validation uses its own rules beside those for documents; that the two agree is a statement about all texts, of which tests have about thirty.",
 [m("validation", TYPES + " Value::validate"), m("quoteless strings and numbers", PRIM), m("Display of values", TYPES)],
 "any text of <=3 (5) ASCII bytes, <=5 (8) number bytes, runs of quotes and escapes, any two characters, all shapes of two levels")
prop("W01", "Meaning does not depend on layout",
 "Two documents that differ only in blanks, comments, blank lines, kind of line ends, line breaks within arrays and trailing commas have the same values, the same children and the same errors with the same keys.",
 [I], "every document and every layout of it",
 "It relates two runs over all layouts; tests compare nothing across layouts.",
 [m("whitespace and comments", OBJ), m("lines", TOML)],
 "ten documents with free names, one or two gaps with free contents", observe=["get_value", "get_children", "ParseError list"])
prop("H01", "A parser that is used again starts afresh",
 "A parser that has read and changed one document and is given another prints, finds, lists and reports exactly what a new parser would. Errors already handed out for the first document stay as they are.",
 [H], "every pair of documents, with changes in between",
 "No test parses twice with one parser.",
 [m("state of the parser", PARSER + " parse, new")],
 "any two ASCII texts of <=2 (3) bytes, line combinations, fixed documents followed by templates", state="parser fields")
prop("P01", "A document read in part is the document made of that part",
 "If reading stops early, lookups, children and reported errors are those of the part that was read, taken as a document of its own; what could not be read leaves nothing behind. The reported place lies in the text that was not read.",
 [I], "every text that is not a well-formed document, wherever and however it stops being one",
 "Values, keys and errors are noted while a line is still being read; what is left behind when the line turns out not to be one depends on the exact byte at which that shows. The tests look at the result kind only.",
 [m("classification of results, taking back what is unfinished", PARSER + " parse"), m("pairs being read", PRIM + " keyval"), m("headers being read", OBJ + " std_table, array_table"), m("expressions", TOML)],
 "all ASCII documents of <=6 (7) bytes, the larger documents cut off anywhere and continued by one (two) free bytes, line combinations", observe=["get_value", "get_children", "ParseResult"])
prop("Q01", "Values are equal exactly if they are written alike",
 "Two values of documents are equal exactly if they have the same type and are written with the same characters (layout inside arrays and inline tables aside), whichever way they are compared and wherever they stand.",
 [I], "every pair of values",
 "Equality is written by hand for dates, times and offsets; the tests compare values expected to be equal, and every assertion of every test rests on values that differ being told apart.",
 [m("equality", TYPES + " PartialEq"), m("conversion", MAC)],
 "any two values out of 34 kinds, their digits, characters and names free", observe=["Value ==", "Value !="])
KIT = "src/bin/tomlkit.rs"
prop("X01", "tomlkit prints exactly what the document holds",
 "Each query of tomlkit prints, for every key given and in that order, exactly what the document holds: the value as written, the children, or the words chosen for yes and no, joined as the options say. A query that cannot be answered fails as a whole with an error, and no file is ever changed by queries. A document that is not well-formed or has errors is refused.",
 [I], "every document, list of keys, combination of queries and options, and all texts of the options",
 "There is no test of the program at all; what it prints depends on the document, every key and every option together.",
 [m("queries", KIT + " get_value, has_value, get_children, has_children"), m("options", KIT + " Options::new"), m("running and printing", KIT + " process_document"), m("lists of keys", KIT + " csv_to_vec")],
 "ten documents with free names and values, one to three keys of the document, missing or of <=3 (4) free characters, all queries, ten sets of options with free texts", observe=["stdout", "exit status", "files"])
prop("X02", "tomlkit writes exactly the requested changes or nothing",
 "A set-value whose triples can all be carried out writes exactly the changed document, to the output file if one is given and in place otherwise, confirms each change unless told to be quiet, and prints the document if asked. If anything fails nothing is written and an error is printed.",
 [I], "every document, list of keys, texts and types, and options",
 "There is no test of the program; that nothing is written after the second of three changes fails, or that each type name makes that type with that very text, is about all combinations.",
 [m("changes", KIT + " set_value"), m("writing", KIT + " process_document, write_to_file"), m("options", KIT + " Options::new")],
 "ten documents with free names and values, one to three changes, all types, texts with <=4 free characters, nine sets of options", observe=["files", "stdout", "exit status"])
EDITS = "; 26 documents changed by one or two bytes at any place"
def extra(i):
    if i in ("C02", "W01", "Q01", "X01", "X02"): return ""
    if i == "C01": return "; texts of dates changed by one or two bytes at any place"
    if i in ("H01", "N01"): return "; documents of up to 17 (257) parts" if i == "H01" else "; documents of up to 129 (257) parts"
    if i in ("P01", "R02"): return EDITS + "; documents of up to 17 (33) parts, some of 257"
    if i in ("S01", "S02", "S03", "S04"): return "; 26 documents changed by a byte at any place, every key; documents of up to 100 parts"
    return EDITS + "; documents of up to 257 parts"
P[:] = [(p, n + extra(p["id"])) for p, n in P]
with open(V + "/properties.jsonl", "w") as f:
    for p, _ in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "sh run.sh build", "hooks": {"guard": "none", "enable": "no hooks: the harnesses use the public interface only", "source_commits": []},
 "checks": [{"property": p["id"], "quick_cmd": "sh run.sh check %s quick" % p["id"], "thorough_cmd": "sh run.sh check %s thorough" % p["id"],
   "technique": "symbolic execution of the library's LLVM IR (own engine, bytes of the input as solver variables), verdicts by an exact finite-domain procedure and z3, compared inside the run with an independent reference reading; counterexamples replayed natively",
   "level": "model_checking", "level_note": "bounded: " + n} for p, n in P],
 "not_applicable": json.load(open(V + "/tools/na.json"))}
with open(V + "/MANIFEST.json", "w") as f: json.dump(man, f, indent=1); f.write("\n")
