"""What each property's check runs: harness entries with their bounds."""
ASSUME = [
    "the code is the LLVM IR rustc produces for riscv64gc-unknown-linux-gnu (opt-level 1, overflow and debug checks on) together with its dependencies and the standard library",
    "a panic is a violation at once, code after a caught panic is not explored (cancellation, which unwinds without the panic hook, is)",
    "allocation never fails",
]
CACHE = ["rowan's cache of identical green nodes is replaced by one that never finds a node (it only shares memory)"]
HASH = ["rustc-hash is replaced by a hash that is the same for every key (it only makes maps slow)"] + CACHE
THREADS = ["threads interleave at blocking operations, at yields and, where the bounds say so, in front of atomic operations; memory is sequentially consistent"]
ALLCTX = "32 places of a file (top level, items, parameters, types, blocks, expressions, patterns, comments, strings)"

def job(h, entry, params, bounds, reach=(), **kw):
    return dict(h=h, entry=entry, params=params, bounds=bounds, reach=list(reach), **kw)

def parse_jobs(what, reach):
    return [
        job("syn", "h_tokens", [0, 32, 1, what, 99, 1], "one arbitrary token of 68 in " + ALLCTX + ", the rest of the file present or missing", reach),
        job("syn", "h_bytes", [0, 32, 1, what], "one arbitrary ASCII character in " + ALLCTX, reach),
        job("syn", "h_chars", [0, 32, 1, what], "one arbitrary Unicode character in " + ALLCTX, reach),
        job("syn", "h_long", [0, 9, 300, what, 99], "300 copies of a fragment, then one arbitrary token, 9 fragments", reach),
        job("syn", "h_gaps", [0, 1, what, 0, 0, 10, 0, 1, 0], "files of up to one non-default production, one token dropped or doubled, white space and comments of arbitrary characters in any gap", reach),
        job("syn", "h_deep", [0, 12, 100, what, 16], "one arbitrary token of 16 inside of 100 levels of 12 kinds of nesting, closed or not", reach),
        job("syn", "h_bytes", [0, 1, 3, what], "every text of three ASCII characters", reach, time=60, thorough=True),
        job("syn", "h_tokens", [0, 12, 2, what, 16, 0], "two arbitrary tokens of 16 in 12 places of a file", reach, quick_only=True, time=60),
        job("syn", "h_tokens", [0, 32, 2, what, 99, 1], "two arbitrary tokens of 68 in " + ALLCTX, reach, thorough=True),
        job("syn", "h_bytes", [0, 32, 2, what], "two arbitrary ASCII characters in " + ALLCTX, reach, thorough=True),
        job("syn", "h_chars", [0, 32, 2, what], "two arbitrary Unicode characters in " + ALLCTX, reach, thorough=True),
        job("syn", "h_tokens", [0, 16, 3, what, 24, 0], "three arbitrary tokens of 24 in 16 places of a file", reach, thorough=True),
        job("syn", "h_long", [0, 9, 1000, what, 99], "1000 copies of a fragment, then one arbitrary token, 9 fragments", reach, thorough=True),
    ]

PROPS = {
    "P01": dict(jobs=parse_jobs(1, [1]) + [
        job("syn", "h_long", [0, 9, 2000, 1, 3], "2000 copies of a fragment, then an arbitrary token of three, 9 fragments", [1]),
        job("syn", "h_deep", [0, 12, 2000, 1, 1], "2000 levels of 12 kinds of nesting, closed or not", [1]),
        job("syn", "h_deep", [0, 1, 30000, 1, 1], "30000 opening parentheses"),
    ], assume=CACHE),
    "P02": dict(jobs=parse_jobs(2, [10]), assume=CACHE),
    "P03": dict(jobs=parse_jobs(4, [20]), assume=CACHE),
    "P04": dict(jobs=[
        job("syn", "h_lex", [0, 2], "every text of two ASCII characters", [40]),
        job("syn", "h_lex", [0, 3], "every text of three ASCII characters", [40]),
        job("syn", "h_lex", [1, 4], "every text of four characters that occur in operators, names or comments", [40]),
        job("syn", "h_lex", [2, 5], "every text of five characters that occur in numbers", [40]),
        job("syn", "h_lex", [3, 5], "every text of five characters that occur in byte strings", [40]),
        job("syn", "h_lex", [4, 5], "every text of five characters that occur in white space and comments", [40]),
        job("syn", "h_lex", [5, 4], "every text of four characters that occur in names", [40]),
        job("syn", "h_words", [2], "35 tokens with any one byte replaced, inserted or appended, and any byte behind", [40]),
        job("syn", "h_lex", [0, 2, 300], "long tokens of ten kinds (300 repetitions), two arbitrary ASCII characters behind", [40]),
        job("syn", "h_lex", [0, 1, 66000], "long tokens of ten kinds (66000 repetitions), an arbitrary ASCII character behind", [40]),
        job("syn", "h_lex", [5, 5], "every text of five characters that occur in names", [40], thorough=True),
        job("syn", "h_words", [3], "35 tokens with any one byte replaced, inserted or appended, and any byte before and behind", [40], thorough=True),
        job("syn", "h_lex", [0, 4], "every text of four ASCII characters", [40], thorough=True),
        job("syn", "h_lex", [1, 5], "every text of five characters that occur in operators", [40], thorough=True),
        job("syn", "h_lex", [2, 7], "every text of seven characters that occur in numbers", [40], thorough=True),
        job("syn", "h_lex", [3, 7], "every text of seven characters that occur in byte strings", [40], thorough=True),
        job("syn", "h_lex", [4, 7], "every text of seven characters that occur in white space and comments", [40], thorough=True),
    ]),
    "P05": dict(jobs=[
        job("syn", "h_prec", [3, 0, 0, 4], "three arbitrary operators, arbitrary one-letter names, four surroundings", [50]),
        job("syn", "h_prec", [3, 0, 1, 1], "three arbitrary operators without spaces", [50]),
        job("syn", "h_prec", [4, 0, 0, 1], "four arbitrary operators", [50]),
        job("syn", "h_prec", [2, 1, 0, 1], "two arbitrary operators, one operand of 60 forms", [50]),
        job("syn", "h_prec", [2, 0, 0, 1, 60], "sixty operators, then two arbitrary ones", [50]),
        job("syn", "h_prec", [5, 0, 0, 1], "five arbitrary operators", [50], thorough=True),
        job("syn", "h_prec", [3, 1, 0, 4], "three arbitrary operators, one operand of 60 forms, four surroundings", [50], thorough=True),
        job("syn", "h_prec", [2, 2, 0, 1], "two arbitrary operators, every operand of 60 forms", [50], thorough=True),
        job("syn", "h_prec", [6, 0, 0, 1], "six arbitrary operators", [50], thorough=True),
    ], assume=CACHE),
    "P06": dict(jobs=[
        job("syn", "h_trivia", [0, 12, 1, 8], "one arbitrary token of 60 in 12 places of a file; white space and comments with arbitrary characters around it", [60]),
        job("syn", "h_gaps", [0, 2, 8, 0, 0, 10, 0, 0, 1], "files of up to two non-default productions; white space and comments of arbitrary characters in any gap", [61]),
        job("syn", "h_gaps", [0, 1, 8, 0, 0, 10, 0, 1, 0], "files of up to one non-default production with one token dropped or doubled; four forms of white space and comments in any gap", [61]),
        job("syn", "h_gaps", [2, 2, 8, 0, 0, 10, 0, 0, 1], "statements of up to two non-default productions; the same in any gap", [61]),
        job("syn", "h_gaps", [3, 3, 8, 0, 0, 10, 0, 0, 1], "expressions of up to three non-default productions; the same in any gap", [61]),
        job("syn", "h_gaps", [4, 3, 8, 0, 0, 10, 0, 0, 1], "patterns of up to three non-default productions; the same in any gap", [61]),
        job("syn", "h_gaps", [0, 1, 8, 0, 0, 10, 0, 0, 1, 300], "files of up to one non-default production; 300 more spaces, line breaks or comments in any gap", [61]),
        job("syn", "h_gaps", [0, 0, 8, 0, 0, 10, 0, 0, 1, 3000], "3000 more", [61]),
        job("syn", "h_gaps", [2, 1, 8, 0, 0, 10, 0, 1, 0], "statements of up to one non-default production with one token dropped or doubled; the same in any gap", [61], thorough=True),
        job("syn", "h_gaps", [0, 2, 8, 0, 0, 10, 0, 1, 0], "files of up to two non-default productions with one token dropped or doubled; the same in any gap", [61], thorough=True),
        job("syn", "h_gaps", [3, 4, 8, 0, 0, 10, 0, 0, 0], "expressions of up to four non-default productions; the same in any gap", [61], thorough=True),
        job("syn", "h_gaps", [4, 5, 8, 0, 0, 10, 0, 0, 0], "patterns of up to five non-default productions; the same in any gap", [61], thorough=True),
        job("syn", "h_trivia", [0, 12, 2, 1], "two arbitrary one-character tokens", [60], thorough=True),
        job("syn", "h_trivia", [0, 12, 2, 3], "two arbitrary tokens of up to three characters", [60], thorough=True),
    ], assume=CACHE),
    "P07": dict(jobs=[
        job("syn", "h_valid", [0, 3, 0, 0, 4, 10, 30], "files: every derivation with up to three non-default productions; names and separators arbitrary", [30]),
        job("syn", "h_valid", [1, 3, 0, 0, 4, 10, 30], "items: every derivation with up to three non-default productions", [30]),
        job("syn", "h_valid", [2, 3, 0, 0, 4, 10, 30], "statements: every derivation with up to three non-default productions", [30]),
        job("syn", "h_valid", [3, 4, 0, 1, 4, 10, 30], "expressions: every derivation with up to four non-default productions", [30]),
        job("syn", "h_valid", [4, 5, 0, 1, 4, 10, 30], "patterns: every derivation with up to five non-default productions", [30]),
        job("syn", "h_valid", [5, 5, 0, 2, 4, 10, 30], "types: every derivation with up to five non-default productions", [30]),
        job("syn", "h_valid", [0, 1, 0, 0, 4, 10, 30, 100], "files of a hundred modules and then up to one non-default production", [30]),
        job("syn", "h_valid", [0, 4, 0, 0, 4, 10, 30], "files: up to four non-default productions", [30], thorough=True),
        job("syn", "h_valid", [2, 4, 0, 0, 4, 10, 30], "statements: up to four non-default productions", [30], thorough=True),
        job("syn", "h_valid", [3, 6, 0, 0, 4, 10, 30], "expressions: up to six non-default productions", [30], thorough=True),
        job("syn", "h_valid", [4, 7, 0, 0, 4, 10, 30], "patterns: up to seven non-default productions", [30], thorough=True),
    ], assume=CACHE),
    "P08": dict(jobs=[
        job("syn", "h_kinds", [0], "sets of up to two arbitrary kinds, their union, an arbitrary kind", [70]),
        job("syn", "h_kinds", [1], "every kind number", [71]),
        job("syn", "h_kinds", [2], "the keywords and every word that differs from one in one ASCII character", [72]),
    ]),
    "P09": dict(jobs=[
        job("text", "h_line", [5], "every text of up to five characters of any width, every offset", [90]),
        job("text", "h_line", [2, 1], "every text of up to two characters behind a line of 300 characters", [90]),
        job("text", "h_line", [2, 2], "... a line of 66000 characters", [90]),
        job("text", "h_line", [2, 3], "... 300 line breaks", [90]),
        job("text", "h_line", [2, 4], "... 66000 line breaks", [90]),
        job("text", "h_line", [2, 7], "... 260 lines with characters of four bytes", [90]),
        job("text", "h_line", [7], "every text of up to seven characters of any width, every offset", [90], thorough=True),
    ], assume=HASH),
    "P10": dict(jobs=[
        job("text", "h_utf16", [5], "every text of up to five characters of any width, every character boundary", [100]),
        job("text", "h_utf16", [2, 1], "every text of up to two characters behind a line of 300 characters", [100]),
        job("text", "h_utf16", [2, 2], "... a line of 66000 characters", [100]),
        job("text", "h_utf16", [2, 3], "... 300 line breaks", [100]),
        job("text", "h_utf16", [2, 4], "... 66000 line breaks", [100]),
        job("text", "h_utf16", [1, 5], "every character behind a line of 20 characters of two bytes", [100]),
        job("text", "h_utf16", [1, 6], "... a line of 20 characters of three bytes and 20 of one", [100]),
        job("text", "h_utf16", [1, 7], "... 260 lines with characters of four bytes, and 20 on the last line", [100]),
        job("text", "h_utf16", [7], "every text of up to seven characters of any width, every character boundary", [100], thorough=True),
    ], assume=HASH),
    "P11": dict(jobs=[
        job("text", "h_lines", [4], "every text of up to four characters of any width, every range", [110]),
        job("text", "h_lines", [2, 1], "every text of up to two characters behind a line of 300 characters", [110]),
        job("text", "h_lines", [2, 2], "... a line of 66000 characters", [110]),
        job("text", "h_lines", [2, 3], "... 300 line breaks", [110]),
        job("text", "h_lines", [2, 4], "... 66000 line breaks", [110]),
        job("text", "h_lines", [6], "every text of up to six characters of any width, every range", [110], thorough=True),
    ], assume=HASH),
    "P12": dict(jobs=[
        job("server", "h_endings", [8, 0], "every ASCII text of up to eight characters", [120]),
        job("server", "h_endings", [4, 4], "every text of up to four characters of any width", [120]),
        job("server", "h_endings", [4, 0, 1], "every ASCII text of up to four characters behind 300 empty lines that end in `\\r\\n`", [120]),
        job("server", "h_endings", [4, 0, 2], "... 300 lines that end in `\\n`", [120]),
        job("server", "h_endings", [2, 0, 3], "every ASCII text of up to two characters behind 20000 lines that end in `\\r\\n`", [120]),
        job("server", "h_endings", [2, 0, 4], "... a line of 66000 characters", [120]),
        job("server", "h_endings", [14, 0], "every ASCII text of up to fourteen characters", [120], thorough=True),
        job("server", "h_endings", [7, 4], "every text of up to seven characters of any width", [120], thorough=True),
    ], assume=HASH),
    "P13": dict(jobs=[
        job("server", "h_edits", [3, 1, 2, 5, 0, 0], "texts of three characters of any width, one edit of any range (or the whole text) inserting up to two characters; UTF-16", [130]),
        job("server", "h_edits", [2, 2, 1, 4, 0, 0], "texts of two characters, two edits of any ranges inserting up to one character; UTF-16", [130]),
        job("server", "h_edits", [2, 2, 1, 4, 1, 0], "the same; UTF-8", [130]),
        job("server", "h_edits", [2, 1, 2, 3, 0, 1], "texts of two characters, one edit with arbitrary columns (also beyond the line) and a line beyond the text; UTF-16", [130]),
        job("server", "h_edits", [1, 2, 1, 3, 0, 1], "texts of one character, two edits with arbitrary columns and a line beyond the text; UTF-16", [130]),
        job("server", "h_edits", [1, 2, 1, 3, 1, 1], "the same; UTF-8", [130]),
        job("server", "h_edits", [1, 3, 1, 3, 0, 0], "texts of one character, three edits of any ranges inserting up to one character; UTF-16", [130]),
        job("server", "h_edits", [1, 1, 1, 3, 0, 0, 1, 1], "one character behind a line of 300, one edit of a range at the beginning or the end", [130]),
        job("server", "h_edits", [0, 2, 1, 2, 0, 0, 1, 3], "300 line breaks, two edits of ranges at the beginning or the end; UTF-16", [130]),
        job("server", "h_edits", [0, 1, 1, 3, 1, 0, 1, 2], "a line of 66000 characters, one edit; UTF-8", [130]),
        job("server", "h_edits", [0, 1, 1, 3, 0, 0, 1, 4], "66000 line breaks, one edit; UTF-16", [130]),
        job("server", "h_edits", [3, 2, 1, 4, 0, 0, 1], "texts of three characters, two edits of any ranges; UTF-16", [130], thorough=True),
        job("server", "h_edits", [2, 2, 2, 3, 0, 1], "texts of two characters, two edits with arbitrary columns", [130], thorough=True),
        job("server", "h_edits", [4, 1, 2, 5, 0, 0], "texts of four characters, one edit", [130], thorough=True),
        job("server", "h_edits", [2, 3, 1, 3, 0, 0], "texts of two characters, three edits", [130], thorough=True),
    ], assume=HASH + ["texts without a carriage return (the code, unlike the protocol, does not take a lone one as a line break)"]),
    "P14": dict(jobs=[
        job("server", "h_disjoint", [1, 1], "an item with up to one main edit and one additional edit, up to one further edit; lines and columns up to 255", [148]),
        job("server", "h_disjoint", [2, 0], "an item with up to one main edit and two additional edits; lines and columns up to 255", [148]),
        job("server", "h_disjoint", [2, 1], "an item with up to one main edit and two additional edits, up to one further edit", [148], thorough=True),
        job("server", "h_disjoint", [1, 2], "an item with up to one main edit and one additional edit, up to two further edits", [148], thorough=True),
        job("server", "h_disjoint", [2, 2], "an item with up to one main edit and two additional edits, up to two further edits", [148], thorough=True),
    ], assume=HASH),
    "P15": dict(jobs=[
        job("server", "h_collect", [4, 2, 1, 4], "four operations over two files, lists of up to one diagnostic", [150]),
        job("server", "h_collect", [3, 2, 2, 15], "three operations over two files, lists of up to two diagnostics that differ in any part", [150]),
        job("server", "h_collect", [4, 1, 2, 15], "four operations on one file, lists of up to two diagnostics that differ in any part", [150]),
        job("server", "h_collect", [2, 2, 2, 15, 40], "two operations over two files that have 40 diagnostics of each kind already", [150]),
        job("server", "h_collect", [2, 2, 1, 4, 300], "300 diagnostics", [150]),
        job("server", "h_collect", [6, 2, 1, 4], "six operations over two files", [150], thorough=True),
        job("server", "h_collect", [5, 3, 1, 4], "five operations over three files", [150], thorough=True),
        job("server", "h_collect", [5, 1, 2, 15], "five operations on one file", [150], thorough=True),
    ], assume=HASH),
    "P16": dict(jobs=[
        job("server", "h_docs", [5, 1], "five operations on documents of arbitrary names of one letter, any versions", [160]),
        job("server", "h_docs", [3, 3], "three operations on documents of arbitrary names of three letters, any versions", [160]),
        job("server", "h_docs", [2, 1, 300], "two operations beside 300 open documents", [160]),
        job("server", "h_docs", [7, 1], "seven operations on documents of arbitrary names of one letter, any versions", [160], thorough=True),
    ], assume=HASH),
    "P17": dict(jobs=[
        job("text", "h_vfs", [4, 0, 1, 1], "four writes or removals of files of arbitrary names of one letter, contents of up to one byte", [170]),
        job("text", "h_vfs", [3, 1, 2, 2], "three writes or removals of virtual files of arbitrary names of two letters, contents of up to two bytes", [170]),
        job("text", "h_vfs", [4, 1, 1, 2], "four writes or removals of virtual files, contents of up to two bytes", [170]),
        job("text", "h_vfs", [2, 0, 1, 1, 300], "two writes or removals beside 300 other files", [170]),
        job("text", "h_vfs", [5, 0, 1, 1], "five writes or removals", [170], thorough=True),
        job("text", "h_vfs", [5, 0, 1, 2], "five writes or removals, contents of up to two bytes", [170], thorough=True),
    ], assume=HASH),
    "P18": dict(jobs=[
        job("text", "h_sets", [2, 1, 1, 4, 0], "two sets of one root each of eight, one file of an arbitrary path of five characters", [184]),
        job("text", "h_sets", [2, 1, 2, 4, 0], "two sets of one root, two files, either may be removed again", [184]),
        job("text", "h_sets", [1, 2, 2, 2, 1], "one set of two roots, two virtual files", [184]),
        job("text", "h_sets", [2, 2, 1, 4, 1], "two sets of two roots, one virtual file", [184]),
        job("text", "h_sets", [3, 1, 1, 5, 0], "three sets of one root, one file of an arbitrary path of six characters", [184]),
        job("text", "h_sets", [2, 1, 1, 3, 0, 40], "two sets, one file, beside 40 further sets with a file each", [184]),
        job("text", "h_sets", [1, 1, 1, 3, 1, 300], "one set, one virtual file, beside 300 further sets", [184]),
        job("text", "h_resolve", [2, 3, 5, 0], "two files on disk, any anchor, any relative path of five characters of `ab/.`", [190]),
        job("text", "h_resolve", [2, 3, 5, 1], "two virtual files, any anchor, any relative path of five characters", [190]),
        job("text", "h_resolve", [2, 2, 3, 1], "two virtual files in the root, any relative path of three characters", [190]),
        job("text", "h_sets", [3, 1, 2, 4, 0], "three sets, two files", [184], thorough=True),
        job("text", "h_sets", [2, 2, 1, 6, 0], "two sets of two roots, one file of an arbitrary path of seven characters", [184], thorough=True),
        job("text", "h_resolve", [3, 3, 6, 0], "three files, relative paths of six characters", [190], thorough=True),
        job("text", "h_resolve", [3, 3, 6, 1], "three virtual files, relative paths of six characters", [190], thorough=True),
    ], assume=HASH),
    "P19": dict(jobs=[
        job("text", "h_norm", [8, 0, 0], "every path of up to eight characters of `/.ab`: absolute or not, normal form, parent, name and extension", [194]),
        job("text", "h_norm", [5, 5, 1], "every absolute path of up to six characters joined with every path of up to five", [194]),
        job("text", "h_norm", [5, 5, 2], "every pair of absolute paths of up to six characters: prefix, equality, remainder", [194]),
        job("text", "h_norm", [3, 0, 0, 300], "paths of up to three characters behind 300 names", [194]),
        job("text", "h_norm", [2, 3, 1, 300, 290], "joins of such with 290 steps up and up to three characters", [194]),
        job("text", "h_norm", [2, 2, 2, 300], "pairs of paths behind 300 names", [194]),
        job("text", "h_norm", [11, 0, 0], "every path of up to eleven characters of `/.ab`", [194], thorough=True),
        job("text", "h_norm", [6, 7, 1], "longer joins", [194], thorough=True),
        job("text", "h_norm", [6, 7, 2], "longer pairs", [194], thorough=True),
    ], assume=HASH),
    "P20": dict(jobs=[
        job("text", "h_virtual", [8, 0, 0], "every virtual path of up to nine characters of `/.ab`: parent, name and extension", [210]),
        job("text", "h_virtual", [6, 6, 1], "every virtual path of up to seven characters joined with every path of up to six", [210]),
        job("text", "h_virtual", [6, 6, 2], "every pair of virtual paths of up to seven characters", [210]),
        job("text", "h_virtual", [4, 0, 0, 300], "paths of up to four characters behind 300 names", [210]),
        job("text", "h_virtual", [2, 5, 1, 300, 290], "joins of such with 290 steps up and up to five characters", [210]),
        job("text", "h_virtual", [3, 3, 2, 300], "pairs of paths behind 300 names", [210]),
        job("text", "h_virtual", [12, 0, 0], "every virtual path of up to thirteen characters", [210], thorough=True),
        job("text", "h_virtual", [9, 9, 1], "longer joins", [210], thorough=True),
        job("text", "h_virtual", [9, 9, 2], "longer pairs", [210], thorough=True),
    ], assume=HASH),
    "P25": dict(jobs=[
        job("text", "h_case", [5], "every ASCII text of up to five characters", [250]),
        job("text", "h_indent", [8], "every text of up to eight characters of space, line break, `a`, `{`", [254]),
        job("text", "h_ranges", [6], "every sorted list of up to six bytes, every key; every pair of lists of up to six bytes", [255]),
        job("text", "h_case", [2, 300], "300 words, then up to two ASCII characters", [250]),
        job("text", "h_indent", [5, 300, 4], "300 indented lines, then up to five characters", [254]),
        job("text", "h_indent", [3, 30, 300], "30 lines indented by 300, then up to three characters", [254]),
        job("text", "h_ranges", [3, 300], "300 smaller and 300 greater elements on either side of up to three", [255]),
        job("text", "h_case", [8], "every ASCII text of up to eight characters", [250], thorough=True),
        job("text", "h_indent", [11], "every text of up to eleven characters", [254], thorough=True),
        job("text", "h_ranges", [9], "lists of up to nine bytes", [255], thorough=True),
    ], assume=HASH),
    "P26": dict(jobs=[
        job("server", "h_convert", [4, 5, 0], "every text of four characters of any width, every character boundary, every range, every position up to one line beyond the text with any column; UTF-16", [140]),
        job("server", "h_convert", [4, 5, 1], "the same; UTF-8", [140]),
        job("server", "h_serve", [1, 1, 6, 0, 0, 1], "the whole server: a client that offers one of seven sets of encodings (one with any ASCII character in its name) opens a document and sends another message", [220]),
        job("server", "h_convert", [2, 5, 0, 1], "two characters behind a line of 300; UTF-16", [140]),
        job("server", "h_convert", [1, 3, 0, 2], "one character behind a line of 66000; UTF-16", [140]),
        job("server", "h_convert", [2, 5, 1, 3], "two characters behind 300 line breaks; UTF-8", [140]),
        job("server", "h_convert", [1, 3, 0, 4], "one character behind 66000 line breaks; UTF-16", [140]),
        job("server", "h_convert", [5, 5, 0], "every text of five characters; UTF-16", [140], thorough=True),
        job("server", "h_convert", [5, 5, 1], "every text of five characters; UTF-8", [140], thorough=True),
    ], assume=HASH + ["texts without a carriage return"]),
    "P21": dict(jobs=[
        job("server", "h_requests", [2, 8, 0, 0, 8], "two messages: requests with any method of eight ASCII characters or with a handler (three ways of dispatch, five outcomes), bad parameters, cancellations, document changes; workers and server run in between or not", [239, 240, 241]),
        job("server", "h_requests", [3, 2, 0, 0, 8], "three messages, methods of two characters", [239, 240, 241]),
        job("server", "h_requests", [1, 2, 0, 0, 8, 300], "300 requests under way, one message", [239, 240, 241]),
        job("server", "h_requests", [2, 2, 3, 0, 8], "two messages, the scheduler chooses three times which thread goes on", [239, 240, 241]),
        job("server", "h_requests", [2, 0, 0, 1, 8], "two messages, a worker is preempted once in front of any atomic operation", [239, 240, 241]),
        job("server", "h_loop", [2, 8], "the main loop on two messages before the end of the input or `exit`: requests with any method of eight ASCII characters, documents opened; with or without dynamic registration", [250, 251]),
        job("server", "h_loop", [4, 8], "the main loop on four messages", [250, 251], thorough=True),
        job("server", "h_requests", [4, 0, 0, 0, 7], "four messages", [239, 240, 241], thorough=True),
        job("server", "h_requests", [3, 0, 3, 0, 8], "three messages, three choices of the scheduler", [239, 240, 241], thorough=True),
        job("server", "h_requests", [3, 0, 0, 1, 7], "three messages, one preemption", [239, 240, 241], thorough=True),
        job("server", "h_requests", [2, 0, 2, 2, 7], "two messages, two preemptions and two choices of the scheduler", [239, 240, 241], thorough=True),
    ], assume=HASH + THREADS),
    "P22": dict(jobs=[
        job("server", "h_serve", [2, 2, 2, 0, 0], "two documents, three messages (open, open again, change of all, of the beginning or of the end, close), the workers run to the end in between or not at all", [220]),
        job("server", "h_serve", [2, 2, 2, 3, 0], "the same, the scheduler chooses three times which thread goes on", [220]),
        job("server", "h_serve", [1, 1, 2, 0, 0, 0, 20], "one document, two messages, beside 20 open documents", [220]),
        job("server", "h_serve", [1, 1, 6, 0, 0], "one document, two messages, texts of all kinds of line endings, also with an arbitrary ASCII character", [220]),
        job("server", "h_serve", [1, 1, 5, 0, 0, 1], "one document, two messages, seven offers of encodings", [220]),
        job("server", "h_serve", [1, 2, 2, 2, 1], "two messages, a worker is preempted once in front of any atomic operation, two choices of the scheduler", [220]),
        job("server", "h_serve", [2, 1, 2, 0, 1], "one document, three messages, a worker is preempted once in front of any atomic operation", [220]),
        job("server", "h_serve", [3, 2, 2, 0, 0], "two documents, four messages", [220], thorough=True),
        job("server", "h_serve", [2, 1, 6, 0, 0], "one document, three messages, texts with an arbitrary ASCII character", [220], thorough=True),
        job("server", "h_serve", [3, 1, 2, 4, 0], "one document, four messages, four choices of the scheduler", [220], thorough=True),
        job("server", "h_serve", [2, 2, 2, 2, 1], "two documents, three messages, one preemption, two choices of the scheduler", [220], thorough=True),
        job("server", "h_serve", [1, 2, 2, 2, 2], "two messages, two preemptions, two choices of the scheduler", [220], thorough=True),
    ], assume=HASH + THREADS + ["documents are opened before they are changed or closed"]),
    "P23": dict(jobs=[
        job("server", "h_diag", [1, 3, 1, 1, 0], "one file, three transactions that leave it alone, change it, change it twice or remove it, texts of up to one arbitrary ASCII character, asked in between or not", [280]),
        job("server", "h_diag", [1, 2, 1, 4, 0], "one file, two changes, four beginnings and up to one arbitrary ASCII character", [280]),
        job("server", "h_diag", [2, 2, 1, 1, 0], "two files, two changes, up to one arbitrary ASCII character", [280]),
        job("server", "h_diag", [1, 1, 2, 1, 126], "126 errors, then up to two arbitrary ASCII characters", [280, 281]),
        job("server", "h_diag", [1, 2, 2, 1, 0], "one file, two changes, up to two arbitrary ASCII characters", [280], thorough=True),
        job("server", "h_diag", [2, 2, 1, 2, 0], "two files, two changes, two beginnings", [280], thorough=True),
        job("server", "h_diag", [1, 4, 1, 1, 0], "one file, four changes", [280], thorough=True),
    ], assume=HASH),
    "P28": dict(jobs=[
        job("server", "h_urls", [2], "paths of up to two further components with two arbitrary bytes", [270]),
        job("server", "h_urls", [3], "three arbitrary bytes", [270], thorough=True),
    ], assume=HASH + ["Unix paths"]),
    "P29": dict(jobs=[
        job("server", "h_robust", [1, 8], "one message: of an unknown method of eight arbitrary ASCII characters, for documents that are not open or no files, or with one of eight malformed parameters", [265]),
        job("server", "h_robust", [2, 2], "two such messages, methods of two characters", [265]),
        job("server", "h_robust", [3, 0], "three such messages", [265], thorough=True),
    ], assume=HASH + THREADS),
    "P24": dict(jobs=[
        job("proj", "h_discover", [3, 1], "every tree of four directories, manifests anywhere, names of one arbitrary printable character; one folder, manifest or missing folder asked for", [290, 292, 297]),
        job("proj", "h_discover", [4, 1], "five directories", [290, 292, 297]),
        job("proj", "h_discover", [3, 2], "four directories, two folders asked for", [290, 292, 297]),
        job("proj", "h_discover", [2, 3], "three directories, three folders asked for", [290, 292, 297]),
        job("proj", "h_discover", [3, 1, 1], "four directories, one of them with one of four other names", [290, 292, 297]),
        job("proj", "h_discover", [2, 1, 0, 60], "three directories and 60 with manifests", [290, 292, 297]),
        job("proj", "h_discover", [2, 1, 0, 0, 40], "three directories and 40 in each other in the last", [290, 292, 297]),
        job("proj", "h_load", [3], "manifests of any of the four keys with values of three arbitrary printable characters, unknown keys and tables, and three kinds of malformed ones; or none", [300, 301]),
        job("proj", "h_load", [1, 300], "values of 301 characters", [300, 301]),
        job("proj", "h_discover", [5, 1], "six directories", [290, 292, 297], thorough=True),
        job("proj", "h_discover", [4, 2], "five directories, two folders asked for", [290, 292, 297], thorough=True),
        job("proj", "h_load", [7], "values of seven characters", [300, 301], thorough=True),
    ], assume=HASH + ["the file system is a tree made up by the harness, whose system calls (statx, opendir, readdir64, open64, read) answer for it; no links, all directories readable"]),
    "P27": dict(jobs=[
        job("syn", "h_tokens", [0, 32, 1, 16, 99, 1], "one arbitrary token of 68 in " + ALLCTX + ", the rest of the file present or missing", [320, 331, 346, 350]),
        job("syn", "h_long", [0, 9, 30, 16, 99], "30 copies of a fragment, then one arbitrary token, 9 fragments", [320, 346]),
        job("syn", "h_bytes", [3, 4, 2, 16], "two arbitrary ASCII characters as an expression", [320, 331, 346, 350]),
        job("syn", "h_tokens", [3, 4, 2, 16, 40, 0], "two arbitrary tokens of 40 as an expression", [320, 331, 346, 350]),
        job("syn", "h_bytes", [0, 32, 1, 16], "one arbitrary ASCII character in " + ALLCTX, [320]),
        job("syn", "h_gaps", [0, 1, 16, 0, 0, 10, 0, 1, 0], "files of up to one non-default production, one token dropped or doubled, white space and comments of arbitrary characters in any gap", [320], thorough=True),
        job("syn", "h_tokens", [3, 4, 3, 16, 99, 0], "three arbitrary tokens of 68 as an expression", [320, 346], thorough=True),
        job("syn", "h_tokens", [0, 32, 2, 16, 24, 1], "two arbitrary tokens of 24 in " + ALLCTX, [320, 346], thorough=True),
    ], assume=CACHE),
    "P30": dict(jobs=[
        job("init", "h_init", [0, 2], "eight offers of encodings, one with a name of any last character; three documents; the scheduler chooses twice which thread goes on", [363, 364, 372]),
        job("init", "h_init", [1, 0], "roots, folders and capabilities present, absent, null, empty or no files", [364, 367, 372]),
        job("init", "h_init", [2, 0], "four malformed beginnings", [375]),
        job("init", "h_init", [0, 5], "the scheduler chooses five times", [363, 364, 372], thorough=True),
        job("init", "h_init", [1, 1], "the scheduler chooses once", [364, 367, 372], thorough=True),
    ], assume=HASH + THREADS + ["standard input and output answer through the harness's read and write"]),
    "P31": dict(jobs=[
        job("text", "h_entries", [1, 1, 3, 3], "one included and one excluded directory of up to four characters, one file of up to five and an ending", [310]),
        job("text", "h_entries", [2, 1, 2, 3], "two included, one excluded directory of up to three characters", [310]),
        job("text", "h_entries", [1, 2, 2, 3], "one included, two excluded directories", [310]),
        job("text", "h_entries", [1, 1, 2, 4], "paths with dots", [310]),
        job("text", "h_entries", [1, 0, 1, 3, 1], "the sets made for a package", [310]),
        job("text", "h_entries", [1, 1, 1, 3, 0, 50], "one included, one excluded directory beside 50 of each", [310]),
        job("text", "h_entries", [2, 2, 2, 3], "two included, two excluded directories", [310], thorough=True),
        job("text", "h_entries", [2, 1, 3, 3], "two included, one excluded directory of up to four characters", [310], thorough=True),
        job("text", "h_entries", [1, 1, 3, 4], "longer paths with dots", [310], thorough=True),
    ], assume=HASH),
    "P32": dict(jobs=[
        job("proc", "h_output", [3, 2, 0], "three steps (up to two arbitrary ASCII characters to either output, or its end), a pause after any, exit codes 0 and 3, the first or second wait interrupted", [400, 407]),
        job("proc", "h_output", [4, 1, 0], "four steps of one character", [400, 407]),
        job("proc", "h_output", [2, 2, 1], "two steps of up to two bytes of `a`, line feed, carriage return and the two bytes of a character", [400, 407]),
        job("proc", "h_output", [2, 1, 0, 1], "a line of 20000 characters, then two steps of one character", [400, 407]),
        job("proc", "h_output", [1, 1, 0, 2], "300 lines, then one step", [400, 407]),
        job("proc", "h_output", [5, 1, 0], "five steps of one character", [400, 407], thorough=True),
        job("proc", "h_output", [3, 2, 1], "three steps with bytes of characters", [400, 407], thorough=True),
        job("proc", "h_output", [3, 3, 0], "three steps of up to three characters", [400, 407], thorough=True),
    ], assume=["the child is a script of the harness, whose pipe2, posix_spawnp, poll, fcntl, read and waitpid answer for it (natively a shell that writes the same, and goes on from a pause when the code waits); pipes are never full; Unix"]),
}
