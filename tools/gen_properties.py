#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after an edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Parsing is total and memory safe",
 "Parsing any string returns either a value or an error: it never panics, overflows arithmetic, loops forever, reads or writes memory outside its live buffers, uses memory after it is freed, or leaks. This also holds while the returned value is being inspected and dropped, and for inputs that fail part-way through an object, array, string or number.",
 ["inputs"],"Every valid UTF-8 string handed to the parser.",
 "The tests parse a few dozen hand-written documents; the parser reads through raw pointers and unchecked slices, so its safety depends on every byte position at which input can end or turn invalid.",
 ["src/parser.rs","src/object.rs","src/short.rs"],
 [("bounds test before every unchecked byte read","src/parser.rs expect_byte!, read_byte, is_eof"),("error position slicing","src/parser.rs unexpected_character"),("append-only escape buffer","src/parser.rs read_complex_string")],
 ["json::parse","drop of the result"])
p("P02","The parser accepts exactly the JSON grammar",
 "Parsing succeeds if and only if the text is one JSON value as defined by RFC 7159, optionally surrounded and separated by insignificant whitespace (space, tab, line feed, vertical tab, form feed, carriage return), within the documented nesting limit. Everything else is rejected: trailing characters or commas, missing separators, leading zeros, bare signs or dots, incomplete exponents, misspelt literals, unquoted or non-string keys, raw control characters in strings, unknown escapes, malformed hex and unpaired surrogates.",
 ["inputs"],"Every string.",
 "json_checker samples 30-odd invalid documents; acceptance is a statement about all strings, including each rejected byte at each grammar position.",
 ["src/parser.rs"],
 [("token dispatch and separators","src/parser.rs parse"),("string character table and escapes","src/parser.rs ALLOWED, read_complex_string, read_codepoint"),("number syntax","src/parser.rs expect_number!, expect_fraction!, expect_exponent")],
 ["json::parse"])
p("P03","A parsed value denotes the document",
 "The value returned by a successful parse has exactly the structure of the text: each literal, array element and object member in document order, with every string and key decoded character by character (escape sequences, \\u escapes and surrogate pairs included). When a key is repeated, the last value wins and the member keeps the position of its first occurrence.",
 ["inputs"],"Every accepted document: any nesting, member order, duplicate keys, mixture of escaped and unescaped strings, short and long strings and keys.",
 "The tests compare a few fixed documents; decoding depends on interactions (an escaped key after another escaped key, a duplicate key nested in an array, a string crossing the in-line storage limit) that samples do not cover.",
 ["src/parser.rs","src/object.rs","src/value/implements.rs","src/short.rs"],
 [("value stack with key index","src/parser.rs parse, StackBlock"),("escape buffer with start offsets","src/parser.rs read_complex_string"),("insert or override of keys","src/object.rs insert_index, override_at")],
 ["json::parse then accessors, entries, members"])
p("P04","Numbers are read exactly",
 "Parsing a number literal yields a number with the literal's sign and, whenever its digits (integer part followed by fraction) form an integer that fits in 64 bits and its decimal exponent fits in 16 bits, exactly the literal's decimal value. Longer digit strings yield a value that is never larger in magnitude than the literal and differs from it by a relative error below 1e-17; exponents that do not fit, however long, saturate at the 16-bit limits instead of wrapping.",
 ["inputs"],"Every number literal: sign, any number of integer, fraction and exponent digits, either exponent sign.",
 "The parser switches between unchecked and checked accumulation, drops digits and adjusts a 16-bit exponent; the tests contain about twenty literals, none at the switch-over points.",
 ["src/parser.rs","src/number.rs"],
 [("digit accumulation and threshold","src/parser.rs expect_number!, MAX_PRECISION"),("overflow path","src/parser.rs read_big_number"),("fraction and exponent","src/parser.rs expect_fraction!, expect_exponent")],
 ["json::parse(..).as_number().as_parts()"])
p("P05","Parse errors name the first offending character and its position",
 "A text that stops too early is reported as unexpected end of JSON; otherwise the error names the first character that cannot continue any JSON text, with its 1-based line and its 1-based column counted in characters since the last line feed. An escaped surrogate followed by a \\u escape that does not complete the pair is reported as a UTF-8 failure, and nothing after the first error influences the report.",
 ["inputs"],"Every rejected string, including multi-line and multi-byte ones.",
 "Three tests pin one position each on single-line or simple input; line and column arithmetic must hold for every mixture of newlines and multi-byte characters before the error.",
 ["src/parser.rs","src/error.rs"],
 [("position computation","src/parser.rs unexpected_character"),("end-of-input test","src/parser.rs expect_byte!")],
 ["Err(..) of json::parse"])
p("P06","Nesting depth is limited, not the stack",
 "Documents in which at most 512 non-empty arrays and objects are open at the same time parse successfully whatever the mixture of arrays and objects; opening a 513th is rejected with the depth-limit error, and no input, however deeply nested, can make parsing recurse. Sequences of sibling containers never count towards the limit.",
 ["inputs"],"Every shape of nesting: arrays, objects, mixtures, siblings, empty containers at the limit.",
 "One test nests arrays and one mixes both at a single depth; the limit must hold for every mixture and after any number of closed siblings.",
 ["src/parser.rs"],
 [("depth test before push","src/parser.rs parse, DEPTH_LIMIT"),("popping","src/parser.rs parse 'popping loop")],
 ["json::parse"])
p("P07","Serialized values parse back to an equal value",
 "For every value that contains no NaN, parsing its compact serialization, or its pretty serialization at any indentation, succeeds and yields a value equal to the original with object members in the same order; serializing that again gives the same text. NaN serializes as null.",
 ["inputs"],"Every value built from null, booleans, numbers, strings, arrays and objects, nested in any way.",
 "Round trips are tested on a handful of constants; the claim quantifies over all strings, all (sign, mantissa, exponent) triples and all shapes.",
 ["src/codegen.rs","src/parser.rs","src/util/print_dec.rs","src/number.rs","src/object.rs"],
 [("generator","src/codegen.rs write_json, write_object, write_string, write_number"),("parser","src/parser.rs")],
 ["dump, pretty, parse, =="])
p("P08","String escaping is complete and minimal",
 "Any string serializes to a double-quoted JSON string in which a quote, a backslash and every control character below U+0020 appear as an escape (the two-character form where JSON has one, otherwise \\u00XX in lower-case hex) and every other character appears unchanged. Decoding that text gives back exactly the original string; keys are written the same way as values.",
 ["inputs"],"Every string, of any length and with escapable characters at any positions.",
 "Tests serialize two escaped strings; escapes at the start, at the end, adjacent to each other, and next to multi-byte characters take different slice arithmetic.",
 ["src/codegen.rs"],
 [("escape table","src/codegen.rs ESCAPED"),("slow path","src/codegen.rs write_string_complex"),("fast path","src/codegen.rs write_string")],
 ["json::stringify, JsonValue::dump"])
p("P09","Printed numbers denote exactly the stored number",
 "The text printed for any non-NaN number is a valid JSON number whose exact decimal value is the stored one, sign * mantissa * 10^exponent, for every 64-bit mantissa and 16-bit exponent, and printing never reads or writes outside its buffer. The minus sign appears exactly when the number is negative (negative zero included).",
 ["inputs"],"Every sign, 64-bit mantissa and 16-bit decimal exponent.",
 "There are about fifteen printing tests; the printer has separate hand-unrolled paths by digit count and exponent range, with unsafe writes into an uninitialised 30-byte buffer.",
 ["src/util/print_dec.rs","src/codegen.rs","src/number.rs"],
 [("digit writer","src/util/print_dec.rs write_num"),("layout by exponent","src/util/print_dec.rs write")],
 ["json::stringify(Number), Display of Number"])
p("P10","All serializers agree and pretty printing only adds layout",
 "Writing a value to any writer produces the same bytes as producing the string, for both the compact and the pretty form. The compact form contains no whitespace outside strings; the pretty form differs from it only by one space after each member colon and, before every member, element and closing bracket of a non-empty container, one newline followed by (depth * indentation) spaces, while empty containers print as [] and {}.",
 ["inputs","configurations"],"Every value, every indentation width, every nesting depth.",
 "The four generators duplicate code and each is tested on one small document with one indentation.",
 ["src/codegen.rs","src/value/mod.rs","src/object.rs"],
 [("four generator implementations","src/codegen.rs DumpGenerator, PrettyGenerator, WriterGenerator, PrettyWriterGenerator"),("indent bookkeeping","src/codegen.rs indent, dedent, new_line")],
 ["dump, pretty, write, write_pretty, to_writer, Object::dump, Object::pretty, Display"])
p("P11","I/O failures while writing are reported, never hidden",
 "Writing a value to a writer succeeds only if the writer accepted every byte of the serialization; if the writer fails at any point the call returns that error and the bytes accepted so far are a prefix of the serialization. Writers that accept only part of a buffer or report interruption are retried until everything is written.",
 ["fault_sequences","inputs"],"Every value and every sequence of short writes, interruptions and failures of the writer.",
 "No test uses a failing or short-writing writer; an error lost at any one of the write calls goes unnoticed.",
 ["src/codegen.rs","src/util/print_dec.rs","src/value/mod.rs"],
 [("error propagation from each write","src/codegen.rs write_json, write_object, write_string_complex; src/util/print_dec.rs write")],
 ["JsonValue::write, JsonValue::write_pretty"])
p("P12","Integer conversions are exact or refused",
 "Every primitive integer converts to a number with exactly that value. Reading a number back as an integer type returns a value only if it equals the number's exact value, and always returns it when the number is an in-range integer stored with exponent zero (zero itself may carry either sign when read as a signed type); nothing wraps, truncates or panics.",
 ["inputs"],"Every value of every integer type, and every sign, mantissa and exponent.",
 "Tests convert about a dozen small integers; wrong answers sit at the extremes of each width and sign.",
 ["src/number.rs","src/value/mod.rs","src/value/implements.rs"],
 [("From and TryFrom by width","src/number.rs impl_signed!, impl_unsigned!"),("narrowing accessors","src/value/mod.rs as_u8..as_isize, number_to_signed!")],
 ["Number::from, TryFrom<Number>, JsonValue::as_*"])
p("P13","Fixed-point reads truncate the exact value",
 "Reading a number as a fixed-point integer with p decimal places returns the number times 10^p, truncated towards zero, whenever that result fits the integer type, and no result when it does not, for any p and any stored exponent. A NaN gives no result for either signedness, a negative number gives none for the unsigned read (nor need a zero with a minus sign), and no input makes the call panic.",
 ["inputs"],"Every sign, mantissa, exponent and number of places.",
 "Fifteen assertions with small exponents; the scaling power, the exponent sum and the sign have independent edge cases.",
 ["src/number.rs","src/value/mod.rs"],
 [("scaling","src/number.rs as_fixed_point_u64, as_fixed_point_i64, decimal_power")],
 ["Number::as_fixed_point_u64/i64, JsonValue::as_fixed_point_u64/i64"])
p("P14","Number equality is equality of numeric value",
 "Two numbers are equal exactly when both are NaN or they denote the same decimal value (any two zeros are equal), no matter how mantissa and exponent represent it. Comparison with a primitive integer agrees with that, works in both operand orders, and never panics; is_zero, is_nan, is_empty and the sign test agree with it.",
 ["inputs"],"Every pair of numbers and every integer operand.",
 "Five equal pairs and no unequal pair are tested; equality scales mantissas by a power of ten that may not fit.",
 ["src/number.rs","src/value/mod.rs","src/value/implements.rs"],
 [("scaled comparison","src/number.rs PartialEq for Number, decimal_power")],
 ["== on Number, JsonValue and integers"])
p("P15","Floats become numbers that denote them",
 "Every finite f64 or f32 becomes a number with the same sign and at most 17 significant digits whose exact decimal value lies inside the float's rounding interval, so any correctly rounding reader recovers the same f64 from the number or from its printed text (an f32 is converted as the f64 of equal value); zero becomes zero. NaN and infinities become the NaN number, which serializes as null and reads back as NaN.",
 ["inputs"],"Every f64 and f32 bit pattern.",
 "About ten floats are tested out of 2^64; the conversion uses 64-bit approximations, an 87-entry table of powers and a digit loop with per-exponent shifts.",
 ["src/util/grisu2.rs","src/util/diyfp.rs","src/number.rs"],
 [("digit generation","src/util/grisu2.rs convert, digit_gen, grisu_round"),("scaled powers and rounding products","src/util/diyfp.rs get_cached_power, Mul, normalized_boundaries")],
 ["Number::from(f64), Number::from(f32), json::stringify"])
p("P16","Numbers read as floats are accurate",
 "Reading a number as f64 returns the correctly rounded value whenever its mantissa is at most 2^53 and its exponent lies between -22 and 22, and otherwise a value within 1e-14 of the exact decimal value, relative to that value or to the smallest normal f64 if that is larger; values beyond the f64 range (within the same tolerance) give infinity, zero gives zero with the right sign for every exponent, and NaN gives NaN. Reading as f32 does the same within 1e-5. Every number has a reading, its sign is kept, no other number reads as NaN, and a number equals a float exactly when its reading does.",
 ["inputs"],"Every sign, mantissa and exponent.",
 "A dozen conversions are tested; the scaling goes through cached and computed powers with a special case for tiny exponents.",
 ["src/number.rs"],
 [("exponent scaling","src/number.rs exponentiate_f64, From<Number> for f64/f32"),("comparison with floats","src/number.rs PartialEq<f64>, PartialEq<f32>; src/value/implements.rs")],
 ["f64::from(Number), f32::from(Number), JsonValue::as_f64, as_f32"])
p("P17","An object is an insertion-ordered map with unique keys",
 "After any sequence of insert, overwrite, indexed write, remove, clear, clone and mutable access, looking up any key gives the value last written to it or nothing if it is absent, the length is the number of distinct keys present, and iteration in either direction yields each key once in order of first insertion since it was last absent. Keys are distinguished by their full content, whatever their length and even if they collide in the internal hash; removing one key changes no other entry and returns the removed value.",
 ["histories","inputs"],"Every sequence of operations and every set of keys and values.",
 "Tests perform at most five operations on three-letter keys; the internal tree shape depends on the hash order of all keys inserted so far.",
 ["src/object.rs","src/value/mod.rs"],
 [("hash tree over a vector","src/object.rs insert_index, get, get_mut, remove, hash_key"),("iteration","src/object.rs Iter, IterMut")],
 ["Object and JsonValue methods, entries, index"],
 [("store","nodes in insertion order with left/right links by key hash","src/object.rs Object")])
p("P18","Objects and values manage memory safely",
 "No sequence of creating, growing, cloning, moving, mutating, removing from, clearing, taking from and dropping objects and values accesses freed, foreign or uninitialised memory, frees anything twice or with a wrong size, or leaks. A clone is equal to its original and fully independent: mutating or dropping one never changes the other.",
 ["histories"],"Every sequence of operations with keys and strings on both sides of the in-line storage limits.",
 "Keys are referenced by raw pointers that must be repaired on reallocation and clone; tests never grow an object after cloning it, nor drop one side first with long keys.",
 ["src/object.rs","src/short.rs","src/value/mod.rs"],
 [("key pointer repair","src/object.rs Key::attach, fix_ptr, Clone, Drop"),("unchecked node append","src/object.rs add_node"),("in-line strings","src/short.rs from_slice, as_str")],
 ["Object and JsonValue methods, clone, drop"])
p("P19","Value equality is an equivalence and ignores representation",
 "Equality of values is reflexive, symmetric and transitive; values of different kinds are never equal; objects are equal exactly when they hold the same keys with equal values in any order; arrays exactly when they are element-wise equal in order; strings exactly when their characters are equal, however they are stored. Comparing with a native string, boolean, integer, Number or Object on either side gives the same answer as comparing with the value built from it.",
 ["inputs"],"Every pair and triple of values.",
 "Tests compare a few equal and fewer unequal pairs; asymmetric or order-dependent comparison only shows on particular pairs such as objects of equal size with different keys.",
 ["src/value/mod.rs","src/value/implements.rs","src/object.rs","src/short.rs"],
 [("value equality","src/value/mod.rs PartialEq for JsonValue"),("object equality","src/object.rs PartialEq for Object"),("mixed comparisons","src/value/implements.rs implement_eq!")],
 ["=="])
p("P20","Array operations behave like a vector",
 "After any sequence of push, pop, removal by position, indexed read, indexed write, mutation through iterators and clear, an array value holds exactly what the same operations leave in a plain vector: out-of-range reads, pops of an empty array and out-of-range removals give null and change nothing, and an indexed write past the end appends one element. Length, membership test and iteration in both directions agree with that content.",
 ["histories","inputs"],"Every sequence of operations, positions and elements.",
 "Each operation is tested once or twice on a three-element array.",
 ["src/value/mod.rs"],
 [("array methods","src/value/mod.rs push, pop, array_remove, contains, members, Index, IndexMut")],
 ["JsonValue array methods"])
p("P21","Access with the wrong type or a missing key is harmless",
 "Exactly one kind test is true for every value and each typed accessor returns something only for its own kind. Reading a missing key or position, or indexing a non-container, yields null; operations that do not apply to a value's kind return null, nothing or a wrong-type error and leave the value unchanged, except that writing through a key or position turns a value of another kind into an object with that member or an array ending in that element; taking a value leaves null behind. None of this ever panics.",
 ["inputs","histories"],"Every kind of value against every accessor and operation.",
 "Tests try a few of the roughly forty accessor and kind combinations.",
 ["src/value/mod.rs","src/object.rs"],
 [("kind matches in each accessor","src/value/mod.rs"),("shared null","src/value/mod.rs NULL, src/object.rs NULL")],
 ["JsonValue methods and index operators"])
p("P22","Strings keep their content whatever their length",
 "A value built from a string of any length and content reads back as exactly that string through every accessor, comparison, clone, take and display, is a string kind, and has the same emptiness; whether the text is stored in-line or on the heap is not observable, except that clearing a value holding a native owned string leaves an empty string where other scalar values become null.",
 ["inputs"],"Every string, in particular lengths around the in-line capacity.",
 "No test builds strings at lengths 29 to 33 through all construction paths; in-line strings are copied by raw pointer into a fixed buffer.",
 ["src/short.rs","src/value/implements.rs","src/value/mod.rs"],
 [("in-line or heap choice","src/value/implements.rs From<&str>"),("in-line buffer","src/short.rs Short::from_slice, as_str")],
 ["JsonValue::from(&str), JsonValue::from(String), as_str, take_string, Display, =="])
p("P23","Displaying a value matches its serialization",
 "Formatting a value with {} gives the raw text for a string, nan for a NaN number, and otherwise exactly its compact serialization; formatting with {:#} gives exactly its pretty serialization with an indentation of four. Formatting a parse error names the offending character, line and column it carries. Two errors are equal exactly when they are of the same kind and carry the same character, position or type name.",
 ["inputs"],"Every value and every error.",
 "Six tests format one value of each kind.",
 ["src/value/mod.rs","src/number.rs","src/short.rs","src/error.rs"],
 [("Display","src/value/mod.rs fmt::Display for JsonValue, src/number.rs fmt::Display for Number, src/error.rs")],
 ["format!"])
p("P24","Building values from native collections preserves content",
 "Values built from vectors, slices, options, maps, iterators of pairs and the array and object macros contain exactly the given elements in the given order (map order for maps, last value for a repeated key), with None and null as null and nested values intact. The result equals the value obtained by pushing or inserting the same elements one at a time.",
 ["inputs"],"Every collection of convertible elements.",
 "One or two fixed collections per constructor are tested.",
 ["src/value/implements.rs","src/lib.rs","src/object.rs"],
 [("From implementations","src/value/implements.rs"),("FromIterator","src/object.rs"),("macros","src/lib.rs array!, object!, value!")],
 ["JsonValue::from, json::from, array!, object!, collect"])
p("P25","Reading shared values and converting has no side effects",
 "Operations that take values, objects, numbers, errors or texts by shared reference or by copy - kind tests, accessors, lookups, indexing, iteration, comparison, cloning, serialization, display, number conversions and parsing - write neither to the value (its containers, keys and strings) nor to any memory shared between threads without synchronisation. So any number of threads may use them on the same value at the same time, as Send and Sync promise, with the results each would get alone.",
 ["inputs","schedules"],"Every value, however it came about, every read-only operation on it, every interleaving of such operations (no interleaving matters when nothing shared is written).",
 "Objects are declared Sync by hand although they cache raw pointers in their nodes; no test uses a second thread, and a race shows in few schedules. That no read-only path writes to shared memory is a statement about all paths.",
 ["src/object.rs","src/value/mod.rs","src/codegen.rs","src/number.rs","src/parser.rs","src/util/print_dec.rs"],
 [("hand-written Send and Sync of keys with raw pointers","src/object.rs unsafe impl Sync for Key"),("cached key pointers, repaired only through unique references","src/object.rs fix_ptr, attach, clone"),("static tables","src/util/print_dec.rs, src/util/grisu2.rs, src/parser.rs, src/codegen.rs")],
 ["every method that takes &JsonValue, &Object or a Number; json::parse; Display"])
p("P26","Numbers keep the parts they are made of",
 "A number built from sign, mantissa and exponent without checks has exactly these three parts. Built with checks it has the same sign and value, no trailing zero among its fraction digits, and an unchanged mantissa and exponent when the exponent is not negative. Negation flips the sign of every number except NaN and keeps mantissa and exponent, so that negating twice gives the number back; NaN stays NaN. A value built from a number gives that number back, and no number made of parts is NaN.",
 ["inputs"],"Every sign, 64-bit mantissa and 16-bit exponent, and NaN.",
 "The documentation examples show three numbers; normalisation loops over the digits and the exponent, with extremes (mantissa zero, exponent -32768, 19 trailing zeros) that no test visits.",
 ["src/number.rs","src/value/implements.rs"],
 [("normalisation","src/number.rs Number::from_parts"),("parts","src/number.rs from_parts_unchecked, as_parts, is_sign_positive"),("negation","src/number.rs impl Neg")],
 ["Number::from_parts, from_parts_unchecked, as_parts, -number, JsonValue::from, as_number"])
p("P27","Generators write every part of a value through their hooks",
 "A generator written by a user, whichever hooks it overrides, is asked for exactly the parts of the value in order: every object, value, key or string, and number at any depth goes through write_object, write_json, write_string and write_number; a non-empty container calls indent once after its opening bracket, new_line before every member, element and the closing bracket, and dedent once before the last new_line, empty ones none of these; each key is followed by one write_min with both forms of the separator. With nothing overridden but the required hooks the result is the compact serialization; an error of any hook ends the writing and is returned. The built-in generators used directly give the same texts as dump and pretty, for any number of values one after the other.",
 ["inputs","fault_sequences"],"Every value, every subset of overridden hooks, every hook call that fails.",
 "One test overrides write_object for one value; that default methods never bypass an overridden hook, at any depth, in any container and position, is a statement over all values.",
 ["src/codegen.rs"],
 [("default methods of the trait","src/codegen.rs trait Generator"),("layout hooks","src/codegen.rs indent, dedent, new_line, write_min"),("built-in generators","src/codegen.rs DumpGenerator, PrettyGenerator, WriterGenerator, PrettyWriterGenerator")],
 ["json::codegen::Generator and its implementations"])
p("P28","A parsed document can be edited anywhere and written back",
 "After parsing a document and any sequence of edits at any of its parts - writing, inserting or removing under a key, writing, pushing, popping or removing at a position, replacing, taking, clearing, moving parts within or between documents, cloning, and writing and re-reading in between - the value's content, its lookups and its compact and pretty serializations are those of the document with exactly these edits made and every other part as parsed, in its place. Reading that text back gives an equal value. How a value came to be - parsed from whatever layout or escapes, built or cloned - makes no difference to any later operation.",
 ["histories","inputs"],"Every document, every way it came to be, every sequence of edits at any part.",
 "Tests edit one or two hand-written documents; that parsing leaves every key, hash, link and string in the state later edits rely on, whatever the layout of the text, is a statement over documents and histories.",
 ["src/parser.rs","src/object.rs","src/value/mod.rs","src/codegen.rs","src/short.rs"],
 [("parsed objects and strings","src/parser.rs parse, Parser"),("object edits","src/object.rs insert, insert_index, override_at, remove, get_mut"),("value edits","src/value/mod.rs insert, remove, push, pop, array_remove, take, clear, IndexMut"),("writing back","src/codegen.rs")],
 ["json::parse, then any mutating method of json::JsonValue, then dump or pretty"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
