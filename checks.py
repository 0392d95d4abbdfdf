"""Which harness runs decide which property, and what they bound."""
COMMON_ASSUMPTIONS = [
    "rustc and LLVM compile /repo's source faithfully to the IR that is executed (opt-level 2, debug assertions and overflow checks on); sample paths are replayed on the natively compiled code and must agree",
    "the symbolic executor (/verif/engine) models the IR, the allocator (never fails) and the few external functions used; Z3 is sound",
    "panics of the standard library on allocation failure, stack overflow and the wall clock are outside",
    "one thread; HashMap iteration uses fixed seeds",
]
def run(h, cases=1, covers=1, tcases=None, thorough_only=False, samples=None, **opts):
    d = dict(harness=h, cases=list(range(cases)) if isinstance(cases, int) else list(cases),
             covers=list(range(1, covers + 1)) if isinstance(covers, int) else list(covers))
    if tcases is not None: d["thorough_cases"] = list(range(tcases)) if isinstance(tcases, int) else list(tcases)
    if thorough_only: d["thorough_only"] = True
    if samples is not None: d["samples"] = samples
    if opts: d["opts"] = opts
    return d

CHECKS = {}
def prop(pid, runs, bounds, outside="", explain="", assumptions=(), budget=(200, 2400), note=""):
    CHECKS[pid] = dict(runs=runs, bounds=bounds, outside=outside, explain=explain, assumptions=list(assumptions), budget=budget, note=note)

NSM_CONF = "eight page configurations: row alignment 1, 2, 4, 8 or 16, pages of 27 to 80 bytes at aligned and unaligned addresses, arbitrary previous page contents and row contents"
prop("C01", [run("h_nsm_seq", 8, 4, audit=1), run("h_nsm_ops", 8, 4, audit=1), run("h_nsm_large", 5, 3, audit=1)],
    NSM_CONF + "; every page of up to 3 rows (thorough: 4) of every length up to alignment+1 followed by any operation; every sequence of 4 (thorough: 5) operations from the empty page; pages of 140,000 bytes, of 280 rows and with alignments of 64, 512 and 4096, with every sequence of 3 operations of chosen row lengths at chosen positions",
    outside="longer histories, other page sizes and alignments; operations the page refuses are C02",
    explain="Row lengths, positions and operations are symbolic and forked with the solver; row bytes and old page bytes stay symbolic.")
prop("C02", [run("h_nsm_room", 8, 3, audit=1), run("h_nsm_drain", 8, 1, audit=1), run("h_nsm_large", 5, 3, audit=1)],
    NSM_CONF + "; every page of up to 3 rows (thorough drain: 4) with lengths on both sides of each alignment boundary, with or without a removal, then a row of every length from 0 to offered+2 at every position",
    outside="larger pages other than the two large ones of C01; a refused row is a panic, after which the page is not inspected")
MAR = "24 type descriptors (TYPES in harness/src/mar.rs: all primitives, strings, nested tuples and structs, packed and nested enums of up to 65,536 cases)"
ANY = "every type descriptor of depth 2 and width 2 over (), u8, u32, string (thorough: and u128)"
LARGE = "also strings of 13 lengths of 127 to 70,000 bytes in four types, structs and tuples of 20, 130 and 300 elements of nine kinds, and three enums of any of 8 (thorough: 14) sizes up to 257 (513) next to each other"
prop("C03", [run("h_mar_read", 24, 1), run("h_mar_any", 1, 1), run("h_mar_long", 4, 1), run("h_mar_wide", 3, 1), run("h_mar_packed", 1, 1)],
    MAR + " and " + ANY + "; every value of them with strings of up to 2 (thorough: 3) arbitrary bytes, and for enums of more than 6 cases eight chosen case tags; buffers with arbitrary previous contents at even and odd addresses; also records re-encoded from records; " + LARGE,
    outside="longer strings, other types; types without fields, which no descriptor text can spell")
prop("C04", [run("h_mar_bounds", 24, 1), run("h_mar_long", 4, 1), run("h_mar_wide", 3, 1)],
    MAR + "; every value with strings of up to 2 (thorough: 3) bytes; every buffer length from 0 (quick: size-6) to size+19; " + LARGE,
    outside="a refused encoding is a panic, after which the buffer inside the given slice is not inspected")
prop("C05", [run("h_mar_corrupt", [c for c in range(24) if c != 11], 2, tcases=24)],
    MAR + "; every element of any case; every record of 0 to 24 (thorough: 40; all primitives: 99; enums of more than 100 cases: chosen lengths up to 24) arbitrary bytes; the enum of 256 cases with contents only in the thorough tier",
    outside="longer records; a panic is a refusal", explain="Every load the code executes is checked against the bounds of the buffer object for all record contents.")
prop("C06", [run("h_mar_overlap", 24, 1), run("h_mar_any", 1, 1), run("h_mar_packed", 1, 1)],
    MAR + "; every value with strings of up to 1 byte and every change of one element including a change of case tag with new contents; " + ANY,
    outside="longer strings, other types")
prop("C07", [run("h_json_strings", 4, 1), run("h_json_texts", 1, 1)],
    "every string of up to 2 (thorough: 3) arbitrary characters, every char, and every character behind 0 to 39 others; every character (in the middle of more than 33: seven chosen ones) before, between and behind 1 to 1,024 characters that need escapes or several bytes",
    outside="longer strings of characters that need different treatment")
prop("C08", [run("h_json_roundtrip", 24, 1), run("h_json_any", 1, 1), run("h_json_labels", 1, 1), run("h_json_deep", 1, 1), run("h_json_wide", 1, 1), run("h_json_chopped", 1, 1), run("h_json_refused", 1, 2), run("h_json_floats", 1, 1)],
    "24 type descriptors (TYPES in harness/src/json.rs), every type of depth 2 and width 2 over (), bool, string (thorough: and i8), structs of 1 to 300 fields, nested types, structs and enums of two labels of an arbitrary character each; all values of bool, 8- and 16-bit integers and char; for wider integers the ends of the ranges and powers of ten and their neighbours, for floats 17 chosen values each, among them NaN and the infinities; strings of up to 1 (thorough: 2) arbitrary characters; a destination that takes any part of three consecutive writes (thorough: one byte or all of any write), that is interrupted once or takes no more at any byte",
    outside="other integers of 32 bits and more and other floats: printing and parsing all of them is beyond the solver; NaNs other than the standard one", budget=(260, 2400))
prop("C09", [run("h_json_tokens", 12, 2), run("h_json_strings", 4, 1), run("h_json_long", 1, 2)],
    "every text of up to 4 (thorough: 5) arbitrary ASCII characters, every string literal with a body of up to 4 (5) ASCII characters, every text of up to 7 (8) characters out of -+019.eE, a digit followed by any character, all \\uXXXX escapes, pairs of escapes over chosen digits, keywords with a changed letter, digit sequences of up to 24, strings of up to 40, every prefix of a document followed by any ASCII character; any character within white space, numbers, strings, escapes, brackets and documents of up to 257 (thorough: 4,096) parts",
    outside="longer texts")
prop("C10", [run("h_json_documents", [c for c in range(14) if c != 7], 2, tcases=14), run("h_json_again", 1, 1), run("h_json_ranges", 10, 2), run("h_json_floats", 1, 1), run("h_json_many", 1, 2)],
    "14 type descriptors and every sequence of up to 3 to 18 tokens (per type, DOC_TYPES in harness/src/json.rs) out of 21 tokens; two documents out of eight decoded in a row; every number of up to 3 digits for 8-bit and 5 digits for 16-bit integers, for the wider ones every number that shares all but the last two digits with the largest or smallest value; 12 chosen numbers for floats; structs, tuples and enums of 2 to 64 (thorough: 257) parts and nestings as deep with one part missing, twice, unknown or of another type, fields in six orders, and any character that is no part of a number behind a separator",
    outside="other documents and types")
prop("C11", [run("h_path_relations", 1, 3), run("h_path_extend", 1, 1), run("h_path_long", 1, 1)],
    "every pair of paths of up to 4 (thorough: 6) components, every extension of a path of up to 8 (thorough: 12) components; all 64-bit component values; paths of 7 to 33 (thorough: 129) components that differ in up to two of chosen places or in length",
    outside="other long paths")
prop("C12", [run("h_path_names", 10, [2], tcases=10), run("h_path_labels", 1, 2), run("h_path_positions", 1, 2), run("h_path_crowd", 1, 2), run("h_path_foreign", 1, 2)],
    "ten types with nested structs, enums and tuples of up to 110 components; every ASCII name of up to 5 (thorough: 7) characters, a name with one character of any kind, numbers around the largest machine word; structs and enums of two arbitrary labels of up to two ASCII characters with every name of up to 3 (thorough: 4); structs, enums and tuples of 2, 17 and 33 (thorough: 300) elements with labels of up to 66 (257) characters that differ in two, and each name changed, shortened or extended by one character",
    outside="longer names, other types; descriptors with equal labels at one level; whether leading zeros are accepted is taken from the code (they are)")
prop("C13", [run("h_val_collection", 5, [1, 3]), run("h_val_kinds", 1, 1), run("h_val_absent", 1, 1), run("h_val_many", 1, 2), run("h_val_deep", 1, 2), run("h_val_texts", 1, 1)],
    "every history of up to 4 (thorough: 5) insertions at paths of up to 2 components below 256 with one clearing anywhere; every kind of value replaced by every other and read as every other; 16 (thorough: 40) entries inserted in six orders and one more at any path of 64-bit components; values at a path of 4 to 16 (33) components, at all its beginnings and next to it, replaced and cleared; strings with any (thorough: any two) Unicode character among ASCII ones, strings of up to 65,600 bytes",
    outside="longer histories with arbitrary paths; longer strings of arbitrary characters")
TYP = dict(forktables=1, steps=20000000000)
prop("C14", [run("h_typ_short", 1, 2, **TYP), run("h_typ_edited", 12, 2, **TYP), run("h_typ_spelled", 6, 1, **TYP), run("h_typ_large", 1, 2, **TYP), run("h_typ_foreign", 4, 1, **TYP)],
    "every ASCII text of up to 4 (thorough: 6) characters; twelve descriptors with one (thorough: when cut off, two) arbitrary ASCII character put in, replaced, left out or at the end, at every position; six shapes of types over all leaf types with arbitrary one- and two-character (thorough: three) labels and up to two arbitrary white space characters between any two tokens; lists, nesting and labels of 9, 16 and 33; any other Unicode character at four places",
    outside="other texts; the regular expressions' automata are built by parsing concrete texts before")
prop("C15", [run("h_util_align", 1, 1), run("h_util_align_refuses", 1, 1), run("h_util_bits", 1, 1), run("h_util_log2", 1, 1),
             run("h_util_values", 5, 2), run("h_util_storage_align", 6, 1), run("h_util_blocks", 2, 1)],
    "all 64-bit values and all 64 alignments; all 8- to 128-bit values for the storage helpers; fixed-size values of 1, 2, 4, 8 and 16 bytes at every offset of a buffer of up to 20 bytes with arbitrary contents",
    outside="alignments that are not powers of two are only checked to be refused; longer buffers")
prop("C16", [run("h_sto_location", 1, 1), run("h_sto_location_order", 1, 1)],
    "every volume index and every 64-bit offset, every pair of locations", explain="No bound is needed: the code has no loops.")
prop("C17", [run("h_sto_volumes", 1, 1), run("h_sto_parameters", 1, 1)],
    "the complete life of a volume manager's identifiers (256 requests and the ones after), every 64-bit volume size that is a multiple of the default block size",
    outside="volumes themselves: creating and mounting them is not implemented in the code")
prop("C18", [run("h_sto_queues", 1, 4), run("h_sto_queue_step", 1, 3)],
    "3 buffers, 2 queues, every sequence of 5 operations (thorough: 4, 2, 6); every state of 2 queues over 5 buffers (thorough: 7) followed by a removal and another push",
    outside="more buffers and more queues; the queue code treats all buffers alike")
prop("C19", [run("h_sto_pool", 3, [1, 2, 3, 4, 5, 6, 8]), run("h_sto_reuse", 5, 7), run("h_sto_sizes", 1, 1)],
    "pools of 1, 2 and 3 buffers, 3 or 4 locations, every sequence of 6 (thorough: 8) requests to initialize, read and write, or read a location, and releases in any order, with at most one request waiting at a time; the same pools when their buffers already hold any written or clean contents, n+2 locations, 7, 5 and 4 (thorough: 9, 7 and 6) operations, up to two requests waiting and served in either order or later; pools of 6 and 17 buffers of which one is free or becomes free, 4 (thorough: 6 and 5) operations at chosen locations; pools of up to 64 (thorough: 257) buffers of 1 to 4,096 bytes that are all in use; buffer contents symbolic",
    outside="several threads (the futures are polled from one), cancelled requests, fetching from and writing back to volumes (not implemented in the code)",
    assumptions=["the clock stands still, so that the mutex never enters its starvation mode"])

HOOK_COMMITS = ["7697451"]
NOT_APPLICABLE = {
    "C27": "there is no implementation to encode: mount, unmount, fetch and store are unimplemented!() in the pinned code, and create reaches the unimplemented fetch at its first block (or before that O_DIRECT file input and output in another thread of the runtime)",
}

prop("C20", [run("h_name_pairs", 1, 3), run("h_name_chars", 1, 2), run("h_name_special", 1, 2), run("h_name_lookup", 1, 3), run("h_name_long", 1, 2)],
    "every pair of names of up to 5 (thorough: 7) ASCII characters; every character of 42 (thorough: all 4,352) blocks of 256 next to its upper case, SS and the two characters of a dotted I; every pair of characters of 4 (thorough: 9) blocks that hold the remarkable cases; maps of 2 (thorough: 3) names; ASCII names of 14 lengths of 8 to 257 characters, one of them arbitrary",
    outside="longer names; the upper case of a single character is taken from the standard library")
SQLT = "the database, the statement's syntax tree and the expected answer are built side by side; the type and nullability of every column are symbolic"
prop("C21", [run("h_sql_flat", 1, 2), run("h_sql_wide_expression", 1, 2), run("h_sql_nested", [1, 2, 3, 4, 6, 8, 10, 11, 13, 14, 15, 19, 20, 21, 22, 23, 24, 25, 26], 2, tcases=29)],
    "every operator over columns of all 8 types and both nullabilities, over literals of every kind and over tuples of up to 3; every operator with up to 2 (thorough: 3) of its operands being an operation out of twelve kinds itself; CASE with up to 3 branches, IN with lists of up to 3 (2 below other operators); lists, tuples, CASEs, chains and nestings of 5, 9, 17 (thorough: 33) operands of which any one, at one of five places, has another type or nullability",
    outside="deeper nesting; nested SELECT statements that refer to the tables of the enclosing one (the code does not support them); that literals of the type GENERIC (NULL) match no other type is taken from the code", explain=SQLT)
prop("C22", [run("h_sql_resolve", 1, 3), run("h_sql_clauses", 1, 2), run("h_sql_joins", 1, 2), run("h_sql_common", 1, 2), run("h_sql_nowhere", 1, 2), run("h_sql_crowd", 5, 2), run("h_sql_ordered", 1, 2), run("h_sql_wide_scope", 1, 2)],
    "up to 2 tables in scope out of 5 in two schemas, unknown ones and nested SELECTs, with aliases, listed or joined by any kind of join; references of 1 to 3 names of one arbitrary ASCII character in the selection, WHERE, GROUP BY, HAVING, ORDER BY, ON and USING; up to 2 (thorough: 3) common table expressions of arbitrary names and a nested one, referred to from FROM, a nested SELECT, IN, LIMIT and ORDER BY; 3 and 4 tables listed and joined in every way, with references of 1 and 2 names, * and table.*; 6, 17 (thorough: 33) tables or common table expressions with one at the beginning, middle or end that shares a name with another, references in long GROUP BY and ORDER BY lists; all column types",
    outside="tables that have two columns of the same name; longer names (C20)", explain=SQLT)
prop("C23", [run("h_sql_items", 1, 3), run("h_sql_values", 1, 2), run("h_sql_operations", 1, 2), run("h_sql_limits", 1, 2), run("h_sql_wide_rows", 1, 2)],
    "selection lists of up to 3 (thorough: 4) items with names of one arbitrary character behind nothing, co and col, all columns of all or one table; up to 3 rows of up to 3 (thorough: 4) values; set operations on up to 3 queries of up to 2 (thorough: 3) columns; all types; 5, 9, 17 (thorough: 33) items, rows, values or set operations of which one differs",
    outside="other long lists", explain=SQLT)
prop("C24", [run("h_sql_insert", 1, 2), run("h_sql_update", 1, 2), run("h_sql_delete", 1, 2), run("h_sql_describe", 1, 2), run("h_sql_wide_table", 1, 2)],
    "tables of up to 3 (thorough: 4) columns of all types; column lists and assignments of up to 3 (thorough: 4) names of an arbitrary ASCII character; values from a table, one row or two rows; conditions of every type; tables of 6, 17 (thorough: 33) columns with lists in another order, one left out, twice or unknown, and one column and one value that differ",
    outside="statements that start with WITH (the grammar drops what it defines); INSERT without column list assigns by position and may leave the last columns out, as it may in a column list", explain=SQLT)
prop("C26", [run("h_db_create", 1, 2), run("h_db_describe", 1, 2), run("h_db_many", 1, 2)],
    "every sequence of 3 (thorough: 4) creations of schemas with names of up to 2 ASCII characters; four tables or views of up to 2 columns in two schemas, looked up under every pair of names of one ASCII character; 1, 20 and 60 schemas of short, long and non-ASCII names and another one, objects of 3, 17 and 40 columns",
    outside="longer histories; create_table and create_view are not implemented in the code")

SQP = dict(forktables=1, steps=20000000000)
prop("C25", [run("h_sqp_short", 1, 2, **SQP), run("h_sqp_literals", 1, 2, **SQP), run("h_sqp_spelled", 1, 2, **SQP), run("h_sqp_chains", 1, 2, **SQP), run("h_sqp_queries", 1, [2], **SQP),
             run("h_sqp_sets", 1, 2, **SQP), run("h_sqp_joins", 1, 2, **SQP), run("h_sqp_statements", 1, 2, **SQP), run("h_sqp_cases", 1, 2, **SQP), run("h_sqp_tokens", 1, 2, **SQP),
             run("h_sqp_edited", 3, 2, tcases=12, **SQP), run("h_sqp_foreign", 5, 0, tcases=6, **SQP), run("h_sqp_large", 1, 2, **SQP)],
    "SELECT with every text of up to 2 (thorough: 3) ASCII characters and of up to 5 (6) characters out of 05.Ex+a; every keyword in every mixture of cases (quick: of its first and last three letters); every chain of 2 (thorough: 3) operators out of 30 with signs and parentheses; every combination of the clauses of a query, of 2 (3) set operations, of 2 joins, of the parts of INSERT, UPDATE, DELETE, DESCRIBE, ATTACH and EXPLAIN and of CASE, also invalid ones; 8 beginnings of statements followed by every 2 (3) tokens out of 26; twelve (quick: three) statements with any ASCII character put in or replaced anywhere or at the end of a beginning; every character that is not ASCII in a string and elsewhere; names and white space between tokens are symbolic; names, strings and numbers of 20 and 70 (thorough: 300) characters with an arbitrary one at one of five places, lists and chains as long, and nestings of 10, 18 and 20",
    outside="other texts; what WITH defines in front of INSERT, UPDATE and DELETE is dropped by the grammar; the regular expressions' automata are built by parsing concrete texts before",
    explain="The expected tree is built by an independent reader of the language (harness/src/sqlparse.rs).", budget=(400, 3000))
