#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
NSM="src/core/nsm.rs"; MAR="src/core/marshaller.rs"; TOK="src/core/json/tokenizer.rs"; DEC="src/core/json/decoder.rs"; ENC="src/core/json/encoder.rs"; TYP="src/core/types/mod.rs"; GRA="src/core/types/parser.lalrpop"; UTL="src/core/util.rs"; DS="src/core/data_source.rs"; STO="src/storage/mod.rs"; STU="src/storage/utils.rs"; SYM="src/sql/symbols.rs"; SCH="src/sql/schema.rs"; TYI="src/sql/ast/typing.rs"; SQP="src/sql/parser.lalrpop"
p("C01","A slotted page is exactly the sequence of rows put into it",
  "After any sequence of row appends, insertions at any position and removals that the page accepts, the page reports exactly the number of rows a plain list would hold, and reading row i returns exactly the bytes stored as the i-th row. No operation changes the bytes, length or order of any row other than the one it names, and nothing outside the page buffer is read or written.",
  ["histories","inputs"],"every history of append / insert(i) / remove(i) on every page and every row content and length that fits",
  "nsm tests run two fixed scripts on one page size; shifting and compaction only go wrong for particular positions, paddings and lengths.",
  [NSM,UTL],[("append_row / insert_row / remove_row / get_row","src/core/nsm.rs impl PageFormat"),("get_value / set_value","src/core/util.rs")],["PageFormat::num_rows","PageFormat::get_row"])
p("C02","A page's reported free room is truthful and removed rows give it back",
  "Whenever a page offers room for a row of n bytes, a row of that size is accepted and every row already there stays intact; a row larger than offered is refused. (An empty row may be refused when there is no space for its offset entry.) The room offered depends only on the sizes of the rows currently in the page, so that removing a row gives back all of its space, and each row starts at a multiple of the page's row alignment.",
  ["histories","inputs"],"every history of operations, every row length (including empty rows and rows that fill the page exactly), every power-of-two row alignment",
  "Needs a page at, or one byte around, its capacity after an arbitrary history, including removals; tests never fill a page.",
  [NSM,UTL],[("max_insert_row_size / can insert accounting","src/core/nsm.rs"),("align","src/core/util.rs")],["PageFormat::max_insert_row_size"])
p("C03","Marshalled records read back exactly the value that was written",
  "For every type descriptor and every value of that type, encoding the value into a large enough buffer and reading each element of it back through the marshaller yields exactly that element: every primitive, string, string length and active enum case. This holds whatever the buffer contained before and however the buffer is aligned.",
  ["inputs","configurations"],"every type descriptor (nesting of tuples, structs, enums, strings, primitives, unit) and every value of it, every prior buffer content and alignment",
  "Tests marshal three fixed records of three fixed types into zeroed buffers; layouts (sorting, bit packing, alignment, nested cases) differ for every descriptor.",
  [MAR,TYP],[("calculate_layout, encode_with_source, get_primitive, get_bytes, get_length, get_case_tag","src/core/marshaller.rs")],["Marshaller::encode","MarshallerDataSource"])
p("C04","Encoding uses exactly the announced size and never writes past it",
  "The number of bytes an encoding reports to have used equals the size announced beforehand for the same value, and encoding changes no byte of the buffer beyond that size. A buffer that is too short for the value is refused; memory outside the buffer is never written.",
  ["inputs","configurations"],"every type descriptor, every value, every buffer length",
  "Tests compare sizes for three values only and always pass an ample buffer.",
  [MAR],[("encoding_size_with_source / encode_with_source / copy_bytes","src/core/marshaller.rs")],["Marshaller::encoding_size","Marshaller::encode"])
p("C05","Reading a corrupt or truncated record never reads outside its buffer",
  "Reading any element of any type from an arbitrary byte buffer either returns a result derived from bytes inside that buffer or is refused. No content and no length of the buffer can make a read touch memory outside it.",
  ["inputs","fault_sequences"],"every byte content and length of the data buffer, every element of every type descriptor",
  "Tests read only buffers that the encoder just produced; corrupt lengths and tags are astronomically many.",
  [MAR],[("get_primitive / get_bytes / variable_field_offset raw pointer reads","src/core/marshaller.rs")],["Marshaller::get_bytes","Marshaller::get_primitive"])
p("C06","Distinct elements of a record never share storage, including packed case tags",
  "In an encoded record, changing the value of one element changes the reading of that element only: no two primitives, string lengths, strings or enum case tags overlap, however many enums with however many cases are packed together and nested. Encoding is also deterministic: the announced size depends only on the string lengths and the case tags chosen.",
  ["inputs","configurations"],"every type descriptor with several enums of 1..n cases (crossing 1, 2, 8 and 16 bit tag widths), nested enums, every combination of case tags",
  "Bit-field packing overlaps only for particular combinations of case counts; tests use one multi-enum type.",
  [MAR],[("allocate_bitfields / bit masks","src/core/marshaller.rs")],["Marshaller::encode","Marshaller::get_case_tag"])
p("C07","Strings and characters survive JSON encoding, and what is emitted is valid JSON",
  "For every string and every character, the text the JSON encoder emits is a valid UTF-8 JSON string literal, and decoding it yields exactly the original string or character. This covers control characters, quotes, backslashes and every Unicode scalar value.",
  ["inputs"],"every char and every string (up to the stated length) of arbitrary Unicode scalar values",
  "Tests encode a handful of ASCII words; the escaping and UTF-8 code has a different branch for each range of code points.",
  [ENC,DEC,TOK],[("write_ch / encode_string","src/core/json/encoder.rs"),("match_string / escapes","src/core/json/tokenizer.rs")],["JsonEncoder::encode","JsonDecoder::parse"])
p("C08","Values survive a round trip through JSON",
  "For every type descriptor and every value of it that has a JSON form, decoding the JSON text produced for the value, with the same type, succeeds and yields exactly the same value in every element. Encoding a value completes without crashing, and the text is the same however the destination splits its writes; when the destination refuses to take more, encoding reports an error, and what was written is the beginning of the text.",
  ["inputs","configurations"],"every type descriptor and value; every pattern of short, interrupted and refused writes by the destination",
  "Tests encode and decode one struct, one tuple and one enum with fixed values, and never chain the two directions.",
  [ENC,DEC,TOK],[("JsonEncoder::encode_*","src/core/json/encoder.rs"),("JsonDecoder::parse_*","src/core/json/decoder.rs")],["JsonEncoder::encode","JsonDecoder::parse"])
p("C09","The JSON tokenizer accepts exactly JSON's lexical grammar",
  "For every input text, the tokenizer either reports an error or yields exactly the token sequence of the JSON lexical grammar (RFC 8259), with the decoded string contents and the exact number text. It never crashes, never accepts a malformed number, string escape or keyword, and never skips or invents input.",
  ["inputs"],"every input text up to the stated length, and every continuation from each token class",
  "Tests tokenize about a dozen fixed inputs, almost all of them well-formed.",
  [TOK],[("next / match_number / match_string","src/core/json/tokenizer.rs impl Tokenizer")],["Tokenizer::next","Tokenizer::value"])
p("C10","A JSON document decodes if and only if it conforms to the type",
  "Decoding succeeds exactly for documents whose structure conforms to the type descriptor: every field present once and none unknown, tuples of the right length, known enum cases, primitives in range, and nothing after the value. On success every element holds the value the document states; every other document is reported as an error, never by crashing, and a failed or earlier decode leaves nothing behind in a later result.",
  ["inputs","configurations","histories"],"every document built from the stated token shapes, every type descriptor, reuse of the same decoder and result object",
  "Tests decode three conforming documents; no rejection is tested at all.",
  [DEC,TOK,DS],[("parse_struct / parse_tuple / parse_enum / parse primitives","src/core/json/decoder.rs")],["JsonDecoder::parse"])
p("C11","Element paths are totally ordered with a consistent prefix relation",
  "Equality and ordering of element paths form one total lexicographic order, and a path is a prefix of another exactly if the other starts with all its components. Proper prefix means prefix and not equal, a prefix never sorts after its extensions, and extending a path by a component appends just that component.",
  ["inputs"],"every pair and triple of paths up to the stated length and every component value",
  "No test compares paths at all.",
  [TYP],[("Path::cmp / is_prefix_of / is_proper_prefix_of / with_component","src/core/types/mod.rs")],["Path"])
p("C12","A qualified name resolves to the one element it names",
  "Resolving a dotted name against a type succeeds exactly if each part names a field, case or in-range tuple position at that level, and the resulting path, followed through the type, leads to exactly that element. Everything else is reported as an error, never as a crash or as some other element.",
  ["inputs","configurations"],"every type descriptor up to the stated depth and every name text up to the stated length",
  "One test resolves a few valid names of one type; no invalid name is tried.",
  [TYP],[("resolve_qualified_name / extract / find_field_index","src/core/types/mod.rs")],["Path::resolve_qualified_name","Type::extract"])
p("C13","A value collection returns the latest value stored per element and only that",
  "A collection of element values returns for each element exactly the value most recently stored for it, with its type, regardless of the order of the other insertions and their paths. Values of other elements are unaffected, and after clearing nothing is left.",
  ["histories","inputs"],"every history of stores and clears over arbitrary paths and values",
  "One test stores five distinct elements once each.",
  [DS,TYP],[("IntermediateDataSource BTreeMap keyed by Path","src/core/data_source.rs"),("Path::cmp","src/core/types/mod.rs")],["IntermediateDataSource","DataSource getters"])
p("C14","Type descriptor text parses to the structure it spells, or is rejected",
  "Parsing a type descriptor yields exactly the structure that the text spells: the primitives, strings, unit, tuples, structs and enums in the given order, with the given labels, at the given nesting. White space does not matter, and text that is not a descriptor is reported as an error, never as a crash or as another type.",
  ["inputs","programs"],"every descriptor text within the stated bounds, with arbitrary label characters and white space",
  "Tests parse a few dozen fixed, well-formed descriptors.",
  [GRA,TYP],[("lalrpop grammar and its semantic actions","src/core/types/parser.lalrpop"),("append","src/core/types/mod.rs")],["types::parser::TypeParser::parse"])
p("C15","Alignment, bit-width and raw value helpers are exact",
  "Aligning a value gives the smallest multiple of the alignment that is not below it; the number of bits required for a value is the least width that can hold it; the binary logarithm inverts powers of two. Storing a fixed-size value at any offset of a byte buffer and loading it back yields that value and touches only its own bytes, and a store or load that does not fit is refused.",
  ["inputs"],"every value, every power-of-two alignment, every offset and buffer alignment",
  "Tests probe about thirty points; carries, the top of the range and misaligned buffers are not among them.",
  [UTL,STU],[("align / required_bits / log2 / set_value / get_value","src/core/util.rs"),("align_u8..u128 / calc_file_blocks","src/storage/utils.rs")],["util::align","util::get_value"],"storage::utils is private")
p("C16","A storage location keeps its volume and offset apart",
  "Combining a volume index and a byte offset into a storage location and taking it apart again yields the same index and offset, for every index and every offset that is accepted; offsets that do not fit are refused. Distinct (volume, offset) pairs give distinct locations, ordered first by volume and then by offset.",
  ["inputs"],"every volume index and every 64-bit offset",
  "Untested; packing errors show only for particular bit patterns.",
  [STO],[("Location::new / index / offset","src/storage/mod.rs")],["Location"],"Location is private")
p("C17","Volume identifiers are never reused and default volume parameters are valid",
  "The volume manager hands out a fresh identifier each time until its identifiers are exhausted, and then reports an error instead of crashing or repeating one. Default volume parameters describe the documented default block size, a file header no larger than a block, and exactly the size asked for, for every admissible volume size.",
  ["histories","inputs"],"every number of allocations, every volume size",
  "Untested; exhaustion needs 256 allocations and the default block size is never compared with its logarithm.",
  [STO],[("VolumeManager::next_volume / VolumeParameters::new_with_defaults","src/storage/mod.rs")],["VolumeParameters"],"VolumeManager internals are private")
p("C18","Buffer queues stay consistent doubly linked lists",
  "Every sequence of pushing a buffer to the front or back of a queue and removing one from any position leaves each queue holding exactly the buffers put in and not removed, in order, when walked from either end. A removed buffer is linked to nothing and can be queued again, also in another queue.",
  ["histories"],"every sequence of push front, push back and remove over several queues sharing a pool of buffers",
  "Untested; a wrong link shows only after particular sequences (removing a middle, first, last or only element).",
  [STO],[("BufferListHead::list_push_front / list_push_back / list_remove","src/storage/mod.rs")],["BufferListHead"],"private")
p("C19","The buffer pool never gives one buffer to two locations at a time",
  "Handles open at the same time for different locations never share memory, a location has at most one buffer, and an exclusive handle excludes every other handle to its location. A pool of n buffers serves n different locations at once, a released clean buffer becomes usable again, and releasing never crashes. While a location has a buffer, what is read from it is what was last written to it.",
  ["histories","schedules"],"every sequence of opening and releasing handles over several locations",
  "Untested; sharing needs a particular order of opens and releases.",
  [STO],[("buffer_access / release_read_only / release_read_write","src/storage/mod.rs impl BufferPool")],["access_initialize","release"],"private")
p("C20","SQL names compare without regard to case, consistently",
  "SQL names are equal exactly if they agree after Unicode upper-casing, and equality and ordering (between names, and between a name and text) are one consistent total order. A lookup keyed by a name finds an entry written in any mixture of case and no other entry.",
  ["inputs"],"every pair and triple of names within the stated length, including characters whose upper case has several characters",
  "Untested; inconsistencies need specific characters.",
  [SYM],[("Name PartialEq / PartialOrd / Ord","src/sql/symbols.rs")],["Name"],"module sql::symbols is private")
p("C21","SQL expressions get the type and nullability their operands imply",
  "An SQL expression is accepted exactly if every operator in it gets operands of the types it is defined for, and then has the type the operator defines. It is nullable exactly as its operands can make it, so that an expression declared non-null never has a nullable operand it depends on; checking never crashes.",
  ["programs","inputs"],"every expression up to the stated depth over columns of every type and nullability",
  "There is no test of type inference at all.",
  [TYI],[("Expression::infer_type / ScalarType::unify / is_compatible / Literal::infer_type","src/sql/ast/typing.rs")],["infer_type"],"typing is private")
p("C22","Column references resolve to the one column they name",
  "In an SQL query a column reference resolves exactly if it names one column of the tables in scope: an unqualified name that occurs in several tables is rejected as ambiguous, a qualified one refers to the named (or aliased) table, and unknown names are rejected. Tables include nested SELECTs and common table expressions, which hide tables of their name, and ON, WHERE, GROUP BY, HAVING and ORDER BY follow the same rules, except that in ORDER BY the names of result columns come first. Two tables of the same name in scope are rejected.",
  ["programs"],"every set of tables, columns and aliases and every reference within the stated bounds",
  "There is no test of name resolution.",
  [TYI],[("ScalarContext::add_relation / infer_type, SetContext::resolve_table_name","src/sql/ast/typing.rs")],["infer_type"],"typing is private")
p("C23","Query results have the columns selected, in order and under unique names",
  "The row type of a query has one column per selected item in the order selected, with the item's type and nullability, nullable also where an outer join can leave the row out, and with its explicit name or the name of the table's column unless an earlier column has it. No two result columns have the same name, and a set operation or list of rows is accepted only if all its rows have equally many columns of matching types.",
  ["programs"],"every selection list, VALUES list and set operation within the stated bounds",
  "There is no test of result types.",
  [TYI],[("ResultColumns::infer_type / generate_column_name / SetExpression::infer_type","src/sql/ast/typing.rs")],["infer_type"],"typing is private")
p("C24","INSERT, UPDATE and DELETE are accepted only if the table can take the data",
  "An INSERT, UPDATE or DELETE is accepted only if its table exists, every column it names exists and is assigned at most once, every assigned value has the column's type and is not nullable where the column forbids NULL, and every column that forbids NULL is given a value by INSERT, which without a column list assigns by position. A statement that meets these conditions is accepted, and its condition must be a logical expression over the table.",
  ["programs"],"every table shape, column list, assignment list and value type within the stated bounds",
  "There is no test of statement validation.",
  [TYI],[("InsertStatement / UpdateStatement / DeleteStatement ::validate_type","src/sql/ast/typing.rs")],["SqlStatement::validate_type"],"typing is private")
p("C25","SQL text is parsed into the statement it spells, with standard operator precedence",
  "Parsing a statement of the SQL grammar yields a tree in which every clause, list element, operand, direction, join kind, set operation, name and literal is what and where the text has it, and in which operators are grouped by the standard precedence (OR, AND, NOT, comparison, additive, multiplicative, unary) with left association. Keywords are read in any mixture of upper and lower case, and any white space separates tokens. Text outside the grammar is reported as an error, never as a crash.",
  ["programs"],"every statement within the stated lengths and every text next to one",
  "There is no test of the SQL parser.",
  [SQP],[("expression tiers of the lalrpop grammar","src/sql/parser.lalrpop")],["sql::parser"],"module sql::parser is private")
p("C26","A database holds each schema once and describes exactly its objects",
  "Creating a schema succeeds exactly if no schema of that name, in any case, exists, and never alters the others. Describing an object returns exactly the columns of that object of that schema, and an unknown schema or object is an error.",
  ["histories","inputs"],"every sequence of schema creations and lookups over arbitrary names",
  "Untested.",
  [SCH,SYM],[("Database::create_schema / describe","src/sql/schema.rs")],["Database"],"module sql::schema is private")
p("C27","A volume file created once can be mounted with the same contents",
  "A volume file that was created, filled and unmounted can be mounted again with exactly the contents written, also after a crash at any point of a write.",
  ["crash_points","histories"],"every history of writes and every crash point",
  "Untested.",
  [STO],[("VolumeManager::create / mount / fetch / store","src/storage/mod.rs")],["VolumeManager"],"private")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
