# Which entries decide which property. entry: (reach ids that must occur, quick seconds, thorough seconds)
P = {}


def prop(i, about, bounds, outside, *entries):
    P[i] = dict(about=about, bounds=bounds, outside=outside, entries=[e if isinstance(e, tuple) else (e, [1]) for e in entries])


prop(
    "C01",
    "every byte string of the stated sizes is read to the end without panic, fault or endless work; errors and the end are final",
    ["whole files of 0..4 arbitrary bytes (thorough 0..5)", "22 catalogue contexts with a hole of 0..2 arbitrary bytes (thorough 0..3)",
     "1..4 (thorough 5) characters of 1..4 bytes in every order in 18 contexts, one (thorough two) of them arbitrary ASCII", "texts of 40..5000 (thorough 70000) bytes in characters of each width at each shift, in 18 contexts", "nplurals of 1..19 arbitrary digits, of 20 with the first 18 (thorough 15) fixed", "26 formulas, every 64-bit count", "7 kinds of nested or repeated formulas of 0.1, 1, 4 and 120 (thorough 150) kB, every count, 2 MB of stack", "behind four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything): the 22 contexts with 1 (thorough 2) arbitrary bytes", "1000 or 20000 (thorough 60000) blank lines, comments, flags, continuation or header lines around a comment line with an arbitrary character"],
    ["longer arbitrary stretches; memory exhaustion by huge files; a path of more than 400 million instructions counts as endless"],
    ("h_c01_raw", [1, 2, 3]), ("h_c01_hole", [1, 2, 3]), ("h_c01_nplurals", [1, 2, 3]), "h_c01_eval", ("h_c01_deep", [1, 2]), ("h_c01_wide", [1, 2, 3]), ("h_c01_shift", [1, 3]), ("h_c01_late", [1, 2]), ("h_c01_many", [2, 3, 4]),
)
prop(
    "C02",
    "texts written with the escapes, in every field and on any number of lines, are read back exactly",
    ["1..3 (thorough 4) lines that repeat, begin or end one another, in every field", "texts of 0..4 arbitrary ASCII characters in every field and layout, raw bodies of 4 bytes, one 2..4 byte UTF-8 character, texts of 20..600 (thorough 3000) lines and of 130..9000 (thorough 70000) characters in one line with symbolic ones among them", "two strings of 4 arbitrary characters each (2, where they may need escapes; 4 also within longer texts with and without escapes) at two places of two entries", "behind four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything): 2 (thorough 3) arbitrary characters in every field, in one or two lines"],
    ["longer symbolic texts"],
    "h_c02_escape", "h_c02_long", "h_c02_utf8", "h_c02_body", "h_c02_big", "h_c02_lines", "h_c02_late", "h_c02_pair", "h_c02_escapes",
)
prop(
    "C03",
    "well-formed catalogues: every entry comes back whole, in order, each field in its place",
    ["every shape of entry (previous context/source, context, plural, 1..3 forms, every field but the source empty or not, obsolete, layouts, with and without header) between two neighbours; sequences of 4 (thorough 6) entries of 4 shapes; fields of 0..3 arbitrary characters; three entries that may be alike in everything; 1..4 units fetched by next, nth, skip, count, last, and kept; up to 300 (thorough 1500) entries", "0..2 (or 42) arbitrary blanks between the parts of any line", "behind four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything): every shape of entry, with 0..2 forms and fields empty or not"],
    ["more entries, longer fields"],
    "h_c03_shapes", "h_c03_order", "h_c03_lengths", "h_c03_big", "h_c03_alike", "h_c03_iter", "h_c03_late", "h_c09_parts",
)
prop(
    "C04",
    "the header entry: never a unit, all its lines readable by key, its comments kept, its language the target language",
    ["header texts of 0..5 arbitrary characters among key, colon, blanks, line ends; values and keys of up to 4 arbitrary characters; comment lines of every kind; first entries of every shape; languages with arbitrary letters, script, region, and 16 others; the header looked at again during and after the iteration; up to 150 (thorough 600) keys, 100 (400) repetitions of a key, values of 5000 (70000) characters, 200 comments", "3 (thorough 4) arbitrary characters behind 100 (400) header lines and 0 or 200 (800) comments; every comment line of 0..3 (thorough 4) characters among three before the first entry", "headers with or without previous texts, flags, comments, obsolete mark, in 3 layouts and orders, with language, definition and another key"],
    ["headers with more symbolic text"],
    "h_c04_text", "h_c04_values", "h_c04_keys", ("h_c04_comments", [1, 2]), ("h_c04_first", [1, 2]), "h_c04_language", "h_c04_big", "h_c04_late", ("h_c04_remark", [1, 2]), "h_c04_whole",
)
prop(
    "C05",
    "formulas are evaluated as C evaluates them on 64-bit signed values, for every count up to the largest represented",
    ["26 real formulas, all operators against numbers of 1..2 arbitrary digits both ways, negation and overflow forms, literals of 1..19 arbitrary digits; count: every value 0..2^63-1", "chains, sums, alternatives and parentheses of 17 to 1000 parts, the longest of nearly 4096 characters", "every operator between n, -n, 5-n, n-100 and 39 numbers up to 2^63-1 of both signs, either way around (quick: not all numbers divided by n)", "every two operators (and, or in C's writing) on the count and 4 (thorough 8) pairs of numbers in 5 arrangements", "8 (thorough 14) formulas asked for any two counts in turn, one of them again, and through a copy"],
    ["counts from 2^63 (not represented), division by zero (left open by C)"],
    "h_c05_real", "h_c05_ops", "h_c05_unary", "h_c05_literal", "h_c05_range", "h_c05_big", "h_c05_signed", "h_c05_compound", "h_c05_twice",
)
prop(
    "C06",
    "a formula denotes the value C's precedence and associativity give it; other text is rejected",
    ["two operators of every kind, three of one kind per level (thorough: every kind), each with every grouping and negations at every operand, between arbitrary digits; 18 forms of conditionals; blanks and parentheses at every token boundary of 3 formulas for every count below 2^62",
     "numbers of 1..8 (thorough 12) arbitrary digits at 14 places", "every two operators on the count and a number (or two), joined by 5 others (thorough: all), for n below 16", "every text of 1..3 printable characters (thorough 4), and of 1..2 (thorough 3) inside of 8 contexts, n = 0..12; values observed through get_value with a large number of forms"],
    ["longer arbitrary formula texts; division by zero (open); `!` in the middle of a sum (the grammar's documented restriction)"],
    "h_c06_pairs", "h_c06_triples", ("h_c06_unary", [1, 2]), "h_c06_cond", "h_c06_blanks", ("h_c06_text", [1, 2]), ("h_c06_hole", [1, 2]), "h_c06_number", "h_c06_alike",
)
prop(
    "C07",
    "the text looked up is the stored one at the formula's value, if declared and given; indices are kept as written",
    ["7 formulas (below, inside, above the range, negative) x 1..4 declared forms x 1..4 given ones, every count 0..2^63-1", "12 declared forms with 9..12 given, 100..300 (thorough 1000) declared and given",
     "1..3 translations under arbitrary one-digit indices", "definitions in 7 ways of writing with 1..9 forms", "catalogues without definition, every 64-bit count", "messages of two catalogues with formulas of 6 kinds, looked up in turn for any two counts", "plural entries with or without context, previous texts, flags, comments, obsolete mark, definition, at any place, every count", "behind four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything): plural entries, live and obsolete, 1..3 of 3 translations given, empty or not, every count"],
    ["more than 12 forms; counts from 2^63"],
    ("h_c07_lookup", [1, 2]), "h_c07_many", ("h_c07_indices", [1, 2]), "h_c07_undeclared", "h_c07_definition", "h_c07_big", "h_c07_late", ("h_c07_unit", [1, 2]), "h_c07_twice",
)
prop(
    "C08",
    "comments reach the next unit, by kind, in order, unchanged; flags decide the state",
    ["every comment line of 0..4 (thorough 5) printable characters or tabs", "9 lookalikes of message lines behind 0..2 arbitrary characters, one after", "flag words inside of 0..4 arbitrary characters",
     "locations with 4 arbitrary characters", "three comment lines of 7 kinds with arbitrary words before any of three entries", "two comments of 6 kinds with three arbitrary characters before two entries", "8 flag lines x translations empty or not x simple, plural, obsolete", "20..300 (thorough 1000) comment lines of every kind, or as many flags, locations or words in one line, 47 flags in use, plain and denied, alone and before or behind the fuzzy flag", "behind four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything): two comment lines of 9 kinds, two of them arbitrary, live and obsolete entries with and without translation"],
    ["longer arbitrary comments; more than three in a row"],
    "h_c08_line", "h_c08_disguise", "h_c08_flags", "h_c08_locations", "h_c08_mix", "h_c08_end", "h_c08_state", "h_c08_words", "h_c08_big", "h_c08_late", "h_c08_pair",
)
prop(
    "C09",
    "chunk sizes, interrupted reads, line ends, indentation and blank lines do not change what is read",
    ["three catalogues with arbitrary characters, cut at any byte (thorough: at any two of given distances) or read in pieces of 1..9 bytes, with and without interruptions", "1..300 interruptions in a row before every read or before any one", "entries at each of 40 (thorough 60) positions before the end of a 4096 or 8192 byte buffer",
     "0..2 (or 42) arbitrary blanks between mark, keyword and text and behind the text, of any one line or all, of live and obsolete entries of 5..8 fields", "entries of every field and comment with arbitrary text, any one line or all indented by 1..2 (thorough 3) or 32 arbitrary blanks", "8 layouts x every pair of 4 entry shapes, single lines indented or ended otherwise", "0..4 (thorough 5) arbitrary blank characters and line ends between entries", "1..17 (thorough 300) blank lines of 5 (thorough 6) kinds before any one line of entries with every field in several lines, or before all from there on", "behind four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything): entries in 144 layouts (thorough: two), in pieces of 1, 2, 5 bytes or whole, with and without interruptions"],
    ["other readers' errors than interruption (C10); longer blank stretches"],
    "h_c09_chunks", "h_c09_buffer", "h_c09_layout", "h_c09_blank", "h_c09_bursts", "h_c09_gaps", "h_c09_indent", "h_c09_parts", "h_c09_late",
)
prop(
    "C10",
    "a failing reader: the units already complete, then that error once, then nothing",
    ["failure after every number of bytes of catalogues with arbitrary characters, for 19 kinds of error and three behaviours after the failure", "38 kinds of error, bare or with a text, and every error number of the system from 1 to 199 but interruption, at 7 places", "the line number of the failure at every position; failures within 20 bytes of 4096 and 8192", "behind four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything): failures of 4 kinds at every byte of two more entries"],
    ["failures further into longer files"],
    ("h_c10_fail", [1, 2]), "h_c10_line", ("h_c10_kinds", [1, 2]), "h_c10_far", "h_c10_late",
)
prop(
    "C11",
    "lines the format does not allow are reported with their line, and the entries before are given",
    ["every sequence of 4 (thorough 5) lines of 18 kinds at the start, after an entry, and before the end of the file", "every single line inserted, removed or exchanged in a plural entry that has everything, live and obsolete",
     "every line of 0..4 (thorough 5) ASCII characters at 4 places", "every 0..2 (thorough 3) ASCII characters between keyword and string and after the string", "defects after 250..32776 (thorough 65544) lines", "every character of 2..4 bytes on a line of its own, before and after a keyword, after a string, at 3 places", "behind four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything): every sequence of 2 (thorough 3) lines of 18 kinds"],
    ["longer arbitrary lines; catalogues with more than one defect are judged up to the first"],
    ("h_c11_after", [1, 2]), ("h_c11_first", [1, 2]), ("h_c11_inside", [1, 2]), ("h_c11_end", [1, 2]), ("h_c11_line", [1, 2]), ("h_c11_keyword", [1, 2]), "h_c11_far", ("h_c11_late", [1, 2]), ("h_c11_char", [1, 2]),
)
prop(
    "C12",
    "accessors give the stored texts; equality is an equivalence and tells texts apart",
    ["two and three simple messages with identifier and text absent or of 0..2 (thorough 3) arbitrary characters", "previous sources of 0..1 characters as messages, in every state of the unit", "plural messages of 0..3 forms under 0..3 declared ones", "every pair and triple of kinds, under a definition, under none, and as previous messages", "texts of 17..129 (thorough 300) characters that may differ in any one place"],
    ["longer texts"],
    "h_c12_equal", "h_c12_transitive", "h_c12_simple", "h_c12_plural", "h_c12_mixed", "h_c12_big", "h_c12_previous",
)
prop(
    "C13",
    "a parser that has read anything reads the next file as a fresh one does",
    ["every two (thorough three) of 10 earlier files, each read 0..3 units deep and kept open or given up, before 3 files; every count", "two readers of one parser, their files ending well or in a defect, advanced in every order of 7 (thorough 9) steps",
     "10 files cut at, or with an arbitrary character inserted at, any place, read twice with another file between", "an earlier message looked up for any count before, between and after the reading of 3 files, every count", "two files alike but for three arbitrary characters in a text, comment, header key or value, read in turn", "a string of 2 (thorough 3) arbitrary characters, well-formed or not, in an earlier file", "each of four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything), read to three depths, kept or given up, before a file of three entries with or without header"],
    ["longer histories; several threads (the parser is shared by reference only, its state is immutable)"],
    "h_c13_history", "h_c13_interleaved", "h_c13_same", "h_c13_late", "h_c13_lookup", "h_c13_texts", "h_c13_body",
)
prop(
    "C14",
    "a catalogue cut anywhere gives the leading units, and of the cut entry nothing, an error or its full identifier",
    ["catalogues of all shapes with arbitrary characters cut at every byte", "a cut inside of strings of 3 (thorough 4) arbitrary characters with escapes over several lines", "an entry of any make-up (previous texts, context, forms, flags, obsolete, layout), alone or behind another, cut before, inside and after each of its lines", "100 (thorough 300) entries cut near the end of any of them", "behind four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything): two entries of 4 shapes cut at every byte"],
    ["longer catalogues"],
    ("h_c14_cut", [1, 2]), ("h_c14_string", [1, 2]), "h_c14_big", ("h_c14_make", [1, 2]), "h_c14_late",
)
prop(
    "C15",
    "bytes after a complete entry do not change the units before",
    ["two comments of 7 (thorough 8) kinds with three arbitrary characters each, before an entry and before what follows it", "0..4 (thorough 5) arbitrary bytes after two entries, with three different beginnings", "17 defective or unfinished entries after an arbitrary comment of 0..2 characters", "two (thorough three) more entries of 4 shapes in 2 layouts, with or without blank lines", "an entry of any make-up and one behind it that shares any of its parts", "behind four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything): 3 (thorough 4) arbitrary bytes, unfinished lines of 7 kinds"],
    ["longer arbitrary continuations"],
    "h_c15_bytes", "h_c15_defects", "h_c15_entries", "h_c15_twin", "h_c15_pair", "h_c15_late",
)
prop(
    "C16",
    "obsolete exactly when written so; same contents as the live entry; never mixed",
    ["every shape of entry, live and marked", "every choice of marked lines in 3 (thorough 4) entries", "three live and obsolete entries of 7 kinds that may be alike, with comments and flags; first entries with and without source, live and marked", "every sequence of 4 (thorough 6) live and obsolete entries, up to 300 (thorough 1000) entries", "behind four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything): every choice of marked lines in 3 entries"],
    ["longer sequences"],
    "h_c16_mark", ("h_c16_mixed", [1, 2]), "h_c16_sequence", "h_c16_big", "h_c16_alike", "h_c16_first", ("h_c16_late", [1, 2]),
)
prop(
    "C17",
    "invalid UTF-8 is an I/O error when reached, valid UTF-8 is kept",
    ["every 4 (thorough 5) bytes between angle brackets in every kind of text (fields, comments, flags, locations, header)", "every 1..4 (thorough 5) bytes as a line of their own", "every character as the kind of a comment", "1..2 arbitrary bytes behind texts of 60..5000 (thorough 70000) bytes in characters of each width at each shift, in every kind of text", "behind four large beginnings (280, thorough 1400, entries; an entry of 400, thorough 2000, comment lines; one of 9000, thorough 70000, characters in a line and of 300, thorough 1500, lines; entries that have everything): 3 (thorough 4) arbitrary bytes in 6 kinds of text"],
    ["longer arbitrary byte strings"],
    ("h_c17_bytes", [1, 2]), ("h_c17_line", [1, 2]), "h_c17_kind", ("h_c17_long", [1, 2]), ("h_c17_late", [1, 2]),
)
prop(
    "C18",
    "errors give line, text and cause in both written forms and through conversion",
    ["texts with 0..2 (thorough 3) arbitrary characters but digits, also of several lines, of more than ASCII and of 300 characters, in errors and converted ones", "every kind of error with arbitrary line numbers and texts of 0..3 (thorough 4) arbitrary characters", "I/O errors of several kinds with and without inner error", "errors that come out of reading 4 characters anywhere in an entry", "texts of 20..260 (thorough 1000) characters"],
    ["longer texts"],
    "h_c18_display", "h_c18_io", "h_c18_convert", "h_c18_any", "h_c18_reading", "h_c18_big",
)

prop(
    "C19",
    "the Plural-Forms definition is taken as written or refused",
    ["0..3 (thorough 4) arbitrary printable characters or tabs as the number of forms, also behind 17..22 digits, and at 10 places before, between and after the pairs", "blanks at every boundary, both orders, another pair at every place, 9 combinations of number and formula", "definitions with 0..1 (thorough 2) arbitrary characters behind 3..150 (thorough 400) lines that look like them, and behind 0..100 (thorough 300) other pairs", "headers with or without previous texts, flags, comments, obsolete mark, in 3 layouts and orders"],
    ["keys given twice, numbers with a sign (not settled); longer arbitrary text; which formulas are expressions is C06"],
    ("h_c19_count", [1, 2]), ("h_c19_around", [1, 2, 3]), "h_c19_blanks", "h_c19_late", "h_c19_whole",
)
