#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=m, where=", ".join(files)) for m in mech])))

PO = "src/po/"
p("C01", "Any byte stream is answered: no panic, no hang, errors are terminal",
  "For every byte stream given as a PO file, opening it and iterating over it terminates without a panic or arithmetic fault, and yields a finite sequence of units followed by at most one error. After an error or the end of the stream, the iterator yields nothing more and the header data stays readable.",
  ["inputs"], "every byte string, valid PO text or not",
  "the tests feed a few dozen hand-written catalogues; crashes hide in inputs nobody wrote down (odd bytes after a keyword, counts at the edge of the integer range, separators in unusual places)",
  [PO+"reader.rs", PO+"line_iter.rs", PO+"decoder.rs", PO+"message_extractor.rs", "src/plural/forms.rs", "src/plural/formula/node.rs"],
  ["PoReader::next / next_unit error latch", "LineIter::parse_line", "MessageExtractor::parse_msg", "checked/unchecked arithmetic of the formula evaluator"])
p("C02", "String contents are decoded exactly",
  "For every text, writing it as a quoted PO string with the backslash escapes of quote, backslash, newline, tab and carriage return - split over any number of continuation lines at any character boundary - and reading the file back gives exactly that text, in every string field. A backslash sequence that is not one of these is kept verbatim.",
  ["inputs"], "every text, every way of splitting it over continuation lines, every string field",
  "tests decode a few sample strings; a wrong escape, a dropped or merged character, or a bad join shows only for particular character sequences and split points",
  [PO+"unescape.rs", PO+"parser.rs", PO+"decoder.rs", PO+"message_extractor.rs"],
  ["unescape", "message line pattern", "continuation joining in parse_msg"])
p("C03", "Entries are returned complete, in order, each field in its place",
  "Reading a well-formed catalogue yields one unit per entry, in file order, and each unit has exactly the context, source text(s), translation(s), previous context and previous source that its entry states, with nothing taken from or lost to a neighbouring entry.",
  ["inputs", "histories"], "every sequence of entries with every combination of optional parts and every field text",
  "the tests use fixed small catalogues; leaks between neighbouring entries and misplaced fields depend on the combination of optional parts of two consecutive entries",
  [PO+"message_extractor.rs", PO+"reader.rs", "src/unit.rs"],
  ["MessageExtractor::parse", "PoReader::next_unit", "extractor state reset between entries"])
p("C04", "Header entry is interpreted and kept apart from the messages",
  "When the first entry has an empty source text it is the header: it is never yielded as a unit, each of its `Key: value` lines can be read back by key with surrounding blanks removed, its comments become the header notes and comments, and its Language field gives the target language, all of it the same throughout the iteration. When the first entry has a source text there is no header and that entry is the first unit.",
  ["inputs"], "every header text: any keys, any values, any order, any number of lines, with or without comments",
  "tests read a handful of headers; key/value splitting, blank removal and the header decision depend on where separators occur in the text",
  [PO+"reader.rs"], ["header detection when the reader is opened", "parse of header lines", "language and plural-forms extraction"])
p("C05", "Plural-Forms formulas are evaluated as C evaluates them",
  "For every plural formula used by real catalogues and every count, the index computed is the one the C expression denotes. This holds for every count the evaluator's signed 64-bit numbers represent and every operator of the formula language (arithmetic wrapping at 64 bits, division by zero left open), and the result never depends on the build profile.",
  ["inputs"], "every 64-bit count, for the catalogue formulas and for every operator",
  "tests sample a few counts per formula; an off-by-one in a comparison, a wrong modulus or operator shows only for particular counts",
  ["src/plural/formula/node.rs", "src/plural/formula/mod.rs", "src/plural/forms.rs"],
  ["Node::execute / operators", "Formula::execute", "PluralForms::parse"])
p("C06", "Plural formulas are parsed with C's precedence and associativity",
  "For every expression over the formula language, the parsed formula denotes the value that C's precedence and associativity rules give, whatever blanks are inserted and whatever redundant parentheses are used. Other text that is not blank, or longer than 4096 bytes, is rejected with an error, never silently accepted; the language is C's conditional, logical, comparison and arithmetic operators (also written `and`, `or`, `not`) over `n` and decimal numbers (leading zeros included), with `!` and `not` at the start of an operand of a comparison.",
  ["inputs"], "every combination of operators, parentheses and blanks",
  "tests check single operators and a few combinations; a wrong binding strength shows only for particular operator pairs and values",
  ["src/plural/formula/formula.lalrpop", "src/plural/formula/mod.rs"],
  ["grammar levels of formula.lalrpop", "Formula::parse"])
p("C07", "Plural lookup returns the form the formula selects, or nothing",
  "For a plural message and any count, the text returned is the stored translation whose index is the value of the catalogue's formula at that count, when that index is among the declared forms and a translation with that index was given; otherwise no text is returned. Translations keep the indices written in the file.",
  ["inputs", "configurations"], "every count, formula result, number of declared forms and set of given msgstr[i] indices",
  "tests look up a few counts with complete sets of forms; index shifts and out-of-range results need missing forms or formulas returning too large a value",
  ["src/plural/plural.rs", "src/plural/forms.rs", PO+"message_extractor.rs", PO+"reader.rs"],
  ["PluralForms::get_value", "Plural::get", "msgstr[i] collection"])
p("C08", "Comments attach to their entry, by kind; flags decide the state",
  "Every comment line reaches exactly the unit that follows it: flags, source locations, translator notes, developer notes and other comments each go to their own list, in file order, with their text unchanged but for the blanks around it. A comment's text never acts as a message line, and the unit's state is needs-work exactly when the fuzzy flag is present, otherwise final exactly when some translation is non-empty, otherwise empty.",
  ["inputs", "histories"], "every comment text and kind, every mix of comment lines before an entry, every set of flags",
  "tests use a few comments with innocuous text; a comment that looks like something else, or a flag list with unusual separators, is not among them",
  [PO+"parser.rs", PO+"decoder.rs", PO+"message_extractor.rs", "src/unit.rs", "src/comment.rs", "src/note.rs"],
  ["comment line pattern and dispatch", "flag list parsing", "state derivation"])
p("C09", "The result does not depend on how the bytes arrive or are laid out",
  "For every catalogue, reading it through any reader that delivers the same bytes in any chunk sizes, with interrupted reads in between, gives the same units or the same error. Changing line ends between LF and CRLF, adding or removing the final line end, indenting lines, and adding blank lines between entries or between the lines of one do not change the units either.",
  ["inputs", "schedules"], "every catalogue, every chunking of the stream, every placement of interrupted reads, every layout variant",
  "tests read from in-memory slices with one layout",
  [PO+"line_iter.rs", PO+"parser.rs", PO+"decoder.rs"],
  ["buffered line reading", "line patterns' treatment of blanks and line ends"])
p("C10", "An I/O error at any point surfaces once, after the units already complete",
  "If the underlying reader fails at any byte position, the units yielded before the failure are those a fault-free run yields first, with every entry already followed by another complete line, then that I/O error, with the line being read, is reported once - from opening or from iteration - and nothing follows. No unit is fabricated from the partially read data and the failure is never mistaken for the end of the file.",
  ["fault_sequences", "inputs"], "every failure position and error kind, every catalogue",
  "the tests have at most one failing reader at one position",
  [PO+"line_iter.rs", PO+"reader.rs", PO+"decoder.rs", "src/error.rs"],
  ["error propagation from the line iterator to the unit iterator", "peeked line handling"])
p("C11", "Malformed lines are rejected and located",
  "A line that is neither blank, a comment nor a PO string line, or a string line where the grammar does not allow it (wrong keyword order, continuation without a message, index gap, duplicate field), is reported as an error; it is never skipped and never changes the meaning of other entries. The error carries the line number the defect was found at - for a line that is not of the format at all, the number of the line after it - and units before the defective entry are still yielded; an entry cut off by the end of the file is dropped or reported.",
  ["inputs"], "every line content at every position of a catalogue",
  "the tests reject a few malformed files; acceptance of garbage depends on the garbage",
  [PO+"decoder.rs", PO+"line_iter.rs", PO+"message_extractor.rs", "src/error.rs"],
  ["decoder line classification", "LineIter line counting", "expected/unexpected errors"])
p("C12", "Message accessors agree with the stored content; equality is lawful",
  "For every message value, the accessors return the texts it was built from, is-plural/is-blank/state answers agree with them, and equality is reflexive, symmetric and transitive and equates two simple messages exactly when identifier and text agree (an absent text counting as empty), and never equates plural messages with different identifiers (source or plural source) or a plural with a simple one.",
  ["inputs"], "every pair or triple of messages built from arbitrary texts",
  "tests compare a few hand-picked messages; law violations need particular combinations of absent, empty and different texts",
  ["src/enums/message.rs", "src/plural/plural.rs", "src/unit.rs"],
  ["Message accessors", "PartialEq for Message", "Unit accessors"])
p("C13", "A parser can be reused: no file influences another",
  "Parsing a file gives the same result whether the parser is fresh or has parsed any other files before, completely or partially, successfully or not, and whether other readers of the same parser are still open and being iterated in between.",
  ["histories", "inputs"], "every history of earlier parses on the same parser, every interleaving of two open readers",
  "tests create a new parser for each file",
  [PO+"parser.rs", PO+"reader.rs", PO+"decoder.rs"],
  ["PoParser::parse", "per-reader extractor and decoder state"])
p("C14", "A truncated catalogue yields only whole leading entries",
  "If a catalogue is cut at any byte, the units read from the remaining part are, except for the one entry the cut falls into, exactly the leading units of the whole catalogue; a cut in an entry yields an error, nothing, or a unit that has the full identifier of that entry, never a unit built from two entries.",
  ["crash_points", "inputs"], "every cut position in every catalogue",
  "tests have one or two truncated files",
  [PO+"message_extractor.rs", PO+"reader.rs", PO+"line_iter.rs"],
  ["end-of-file handling in the extractor and reader"])
p("C15", "Entries are independent: what follows never changes what precedes",
  "Appending any bytes after an entry that is closed by a blank line and a further complete entry never changes the units before it, their comments, states or line-independent content. A defect in a later entry does not change, drop or reorder earlier units.",
  ["inputs"], "every pair of a well-formed prefix and arbitrary following bytes",
  "tests never append arbitrary bytes to a catalogue",
  [PO+"reader.rs", PO+"message_extractor.rs", PO+"line_iter.rs"],
  ["look-ahead by one line", "unit boundary detection"])
p("C16", "Obsolete entries are marked and never mixed with live ones",
  "A unit is obsolete exactly when its message lines are written as obsolete (`#~`); an obsolete entry has the same field contents as the live entry with the marker removed, and an entry mixing live and obsolete message lines is never returned as one unit.",
  ["inputs"], "every entry shape, every choice of marked lines",
  "tests have one obsolete entry with all lines marked",
  [PO+"decoder.rs", PO+"message_extractor.rs", PO+"parser.rs"],
  ["obsolete prefix handling", "prefix agreement of continuation lines"])
p("C17", "Text that is not UTF-8 is an I/O error, UTF-8 text is kept byte for byte",
  "A line holding any invalid UTF-8 sequence is reported as an I/O error once iteration reaches it, with earlier units intact, and no replacement characters are ever produced. Valid UTF-8 in any field, comment or header value is returned byte for byte.",
  ["inputs"], "every byte sequence in every field",
  "tests use ASCII and a few accented samples",
  [PO+"line_iter.rs", PO+"decoder.rs", "src/error.rs"],
  ["line reading and its error conversion"])
p("C18", "Errors describe themselves consistently and keep their cause",
  "Every error value reports the line number and text it was built with in its display form, an I/O error gives the underlying error as its source and no other error has a source, and converting an error into a general I/O error or boxed error keeps kind and message.",
  ["inputs"], "every error kind, line number and message text",
  "tests format a few errors",
  ["src/error.rs"], ["Display, Error::source and From implementations"])
p("C19", "The Plural-Forms definition is taken as written or refused",
  "The Plural-Forms header field is a list of `key=value;` pairs in any order, with blanks allowed around keys, values and semicolons and with other keys ignored: the definition text, the number of forms (nplurals, 2 when absent) and the formula text (plural, `n` when absent or blank) are then exactly the written ones. A field that is no such list, or whose number of forms is no decimal number, makes opening the catalogue fail, it never leads to a guessed definition. An absent or blank field means that there is no definition.",
  ["inputs", "configurations"], "every text of the Plural-Forms field",
  "tests read a few tidy definitions; a key glued to a neighbour or a stray character that silently turns a part of the definition off shows only for particular texts, and then only in wrong plural forms",
  [PO+"parser.rs", "src/plural/forms.rs", PO+"reader.rs"], ["PoParser::parse_map", "PluralForms::parse", "use of the Plural-Forms header property"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
