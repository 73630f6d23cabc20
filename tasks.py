"""What each check explores: harness runs per property and tier, bounds, known findings."""

ANY, ASC, STR, NUM, DIG, HEX, ESC, WSP, SUR, TOK = range(128, 138)
CLS = {ANY: "any bytes that form UTF-8", ASC: "ASCII characters", STR: "structural characters [ ] { } : , \" 1 space",
       NUM: "number characters 0-9 . e E + - space", TOK: "token characters [ { \" 0 - t n , ] } e", WSP: "white space, control characters, x"}

ASSUMPTIONS = [
    "The code is executed as LLVM IR produced by rustc (optimisation level 1, debug assertions and overflow checks on, one module together with the standard library); the IR, rustc's code generation behind it and z3 are trusted.",
    "Memory allocation succeeds up to 16 MiB per block; the allocator returns blocks that do not overlap; uninitialised memory may hold anything and branching on it is reported.",
    "Sampled symbolic paths are re-run natively on the same tree and must log the same observations.",
]

ASSERT = {
    101: "a clone of the parsed value equals it",
    201: "the parser accepts only texts of the grammar", 202: "the parser accepts every text of the grammar",
    300: "", 301: "null is read as null", 302: "a boolean is read as that boolean", 303: "a number is read with its exact value", 304: "a string is decoded exactly",
    305: "an array has exactly the elements of the text", 306: "an object has exactly the members of the text", 307: "members keep document order and exact keys", 308: "a member is found under its key",
    501: "a truncated text is reported as unexpected end", 502: "too deep nesting is reported as such", 503: "an unpaired surrogate is reported as a UTF-8 failure",
    504: "the error names the offending character", 505: "the error names its line", 506: "the error names its column", 507: "the error kind matches the grammar",
}

P = {}     # property -> function(tier) -> list of tasks
INFO = {}  # property -> {bounds, outside}
KNOWN = {} # property -> list of known findings

def task(name, harness, *args, covers=(), bound="", **opts):
    a = (list(args) + [0, 0, 0])[:3]
    return {"name": name, "harness": harness, "args": a, "opts": opts, "covers": list(covers), "bound": bound}

def prop(pid, bounds, outside, assumptions=()):
    def deco(f):
        P[pid] = f
        INFO[pid] = {"bounds": bounds, "outside": outside, "assumptions": list(assumptions)}
        return f
    return deco

def tasks(pid, tier):
    ts = P[pid](tier != "quick")
    seen = {}
    for t in ts:
        k = t["name"]; seen[k] = seen.get(k, 0) + 1
        if seen[k] > 1: t["name"] = "%s-%d" % (k, seen[k])
    return ts
def info(pid): return INFO[pid]
def known(pid): return KNOWN.get(pid, [])

# ---------------------------------------------------------------- parser

NT = 23  # templates
SLOW_T = (1, 2)  # explored with fewer symbolic positions in the quick tier (templates 23, 24)

def texts(mode, deep, any_n, asc_n, struct_n, templates, covers=True):
    ts = []
    cov = lambda n: ([2] if n < 1 else [1, 2]) if covers else []
    for n in range(0, any_n + 1): ts.append(task("any%d" % n, "h_parse_n", n, ANY, mode, covers=cov(n), bound="every UTF-8 text of %d bytes" % n))
    for n in range(any_n + 1, asc_n + 1): ts.append(task("ascii%d" % n, "h_parse_n", n, ASC, mode, covers=cov(n), bound="every ASCII text of %d characters" % n))
    for n in range(asc_n + 1, struct_n + 1): ts.append(task("struct%d" % n, "h_parse_n", n, STR, mode, covers=cov(n), bound="every text of %d characters from: %s" % (n, CLS[STR])))
    for k in templates: ts.append(task("template%d" % k, "h_parse_t", k, 0, mode, bound="template %d of harness/src/parse.rs with all its placeholders symbolic" % k))
    return ts

def mutated(mode):
    names = ("truncated anywhere", "any one ASCII character replaced by any other", "any ASCII character inserted anywhere", "any one character removed")
    return [task("doc%d-%d" % (d, k), "h_parse_mut", d, k, mode, covers=[2], bound="document %d of harness/src/parse.rs, %s" % (d, names[k])) for d in range(5) for k in range(4)]

FAR = ("blanks", "line feeds", "elements on lines of their own", "two-byte characters in a string", "one- and three-byte characters in a string", "four-byte characters in a string", "characters of a repeated key", "escapes in a string", "empty arrays", "members with different keys", "small objects", "line ends after the value")
def far(mode, deep):
    ts = []
    for k in range(12):
        for n in ((20, 100) if k == 9 else (40, 300) if k in (6, 10) else (255, 300)) + ((300,) if k == 9 and deep else ()) + ((65536,) if k in (0, 1, 3, 6, 11) or deep and k not in (9, 10) else ()):
            ts.append(task("far%d-%d" % (k, n), "h_parse_far", n, k, mode, steps=400000000, bound="%d %s, and symbolic characters after them" % (n, FAR[k])))
    return ts

def generated(mode, deep):
    ts = []
    for k, ns in ((0, (1, 2, 3, 4, 5, 6) if deep else (2, 3, 4, 5)), (1, (2, 3, 4, 5) if deep else (3, 4)), (2, (3, 4, 5, 6, 7, 8) if deep else (4, 6))):
        for n in ns: ts.append(task("gen%d-%d" % (k, n), "h_parse_gen", n, k, mode, covers=[1], bound=("every object of %d members: every pattern of repeated keys with every kind of values", "the same with %d members and keys of more than 32 characters that begin alike", "every document of up to %d values in nested arrays and objects, with repeated keys")[k] % n))
    return ts

PARSER_OUT = "Longer texts than the bounds, except in the stated shapes; texts whose symbolic positions lie elsewhere."
ALL_T = list(range(0, 33))

def all_texts(mode, deep):
    t = [k for k in ALL_T if deep or k not in (1, 2)]
    ts = texts(mode, deep, 7 if deep else 6, 9 if deep else 7, 10 if deep else 8, t)
    n = 10 if deep else 7
    ts.append(task("token%d" % n, "h_parse_n", n, TOK, mode, covers=[1, 2], bound="every text of %d characters from: %s" % (n, CLS[TOK])))
    return ts + mutated(mode)

def long_strings(mode, deep):
    ls = range(28, 36) if deep else (29, 30, 31, 32, 33)
    ts = [task("long%d-%d" % (l, k), "h_parse_long", l, k, mode, covers=[1], bound="strings and keys of %d characters, first or last one symbolic (shape %d)" % (l, k)) for l in ls for k in range(4)]
    return ts

def strings(mode, deep):
    m = 300 if deep else 100
    ts = [task("buffer%d" % k, "h_parse_buf", m, k, mode, covers=[1], bound="several strings with escapes in one document, the first of any length up to %d characters, with symbolic characters in the others" % m) for k in range(4)]
    for n in range(1, (7 if deep else 5) + 1): ts.append(task("string-any%d" % n, "h_parse_str", n, ANY, mode, covers=[1, 2], bound="every string literal with %d bytes of any UTF-8 content" % n))
    for n in range(2, (5 if deep else 4) + 1): ts.append(task("string-hex%d" % n, "h_parse_str", n, ESC, mode, covers=[1, 2], bound="every string literal with %d escape-relevant characters" % n))
    return ts

@prop("P01", "Texts: every UTF-8 text of up to 6 (thorough 7) bytes, every ASCII text of 7 (9) characters, every structural text of 8 (10) characters, 33 templates with symbolic positions, 5 documents with any one-place variation, every object of up to 5 (thorough 6) members with every pattern of repeated keys and kinds of values, every document of up to 6 (8) nested values, numbers of up to 22 symbolic digits and up to 40 000 fixed digits, nesting 511-514 and 20 000, strings and keys of 29-33 characters, 12 kinds of long documents (20 to 300 repetitions, some 65536) with symbolic characters at the end. At most 10^8 instructions per path, call depth at most 4000.", PARSER_OUT)
def p01(deep):
    ts = all_texts(0, deep) + strings(0, deep) + long_strings(0, deep)
    ts += numbers(0, deep) + far(0, deep) + generated(0, deep)
    ts += [task("deep%d-%d" % (d, k), "h_parse_deep", d, k, t << 8, bound="nesting of %d containers, mixture %d, tail %d" % (d, k, t)) for d in (512, 513) for k, t in ((0, 0), (1, 1), (2, 3), (4, 4))]
    ts += [task("abyss%d" % k, "h_parse_abyss", 20000, k, 0, covers=[2], bound="20000 opened containers") for k in range(3)]
    return ts

@prop("P02", "As P01, judged against an independent recursive-descent reader of the grammar executed on the same symbolic text.", PARSER_OUT)
def p02(deep): return all_texts(1, deep) + strings(1, deep) + far(1, deep) + generated(1, deep) + [task("number-chars%d" % n, "h_parse_n", n, NUM, 1, covers=[1, 2], bound="every text of %d characters from: %s" % (n, CLS[NUM])) for n in range(1, (9 if deep else 8))]

@prop("P03", "As P01; every accepted text is compared member by member with the tree of an independent reader. Strings and keys of 28-35 characters around both in-line limits, duplicate keys at several depths.", PARSER_OUT)
def p03(deep): return all_texts(2, deep) + strings(2, deep) + long_strings(2, deep) + far(2, deep) + generated(2, deep)

EXPS = {0: "no exponent", 1: "e and 1 digit", 2: "e and 2 digits", 3: "e and 3 digits", 4: "e and 4 digits", 5: "e- and 1 digit", 6: "e- and 2 digits", 7: "e- and 3 digits", 8: "e- and 4 digits", 9: "E3276d", 10: "e-3276d", 11: "e+327dd", 12: "e999999999999999999999d", 13: "e-000000000000000000000dd"}
def numbers(mode, deep):
    ts = []
    def n(ni, nf, x=0, minus=0, lead=0): ts.append(task("num-%d.%d-e%d%s%s" % (ni, nf, x, "-minus" if minus else "", "-zero" if lead else ""), "h_parse_num", ni, nf, mode | x << 8 | minus << 16 | lead << 17, bound="%s%s%d digits, %d fraction digits, %s, all digits symbolic" % ("minus, " if minus else "", "0 then " if lead else "", ni, nf, EXPS[x])))
    for ni in (range(1, 23) if deep else (1, 2, 3, 17, 18, 19, 20, 21)): n(ni, 0)
    for ni, nf in ((1, 1), (1, 2), (2, 3), (3, 2), (1, 17), (1, 18), (1, 19), (1, 20), (9, 9), (10, 9), (10, 10), (18, 1), (19, 1), (19, 2), (20, 1), (20, 2), (21, 1)): n(ni, nf)
    for nf in (1, 2, 3, 17, 18, 19, 20, 21): n(0, nf, lead=1)
    for x in range(0, 14):
        if x in (4, 8) and not deep: continue
        n(1, 0, x); n(1, 1, x); n(0, 1, x, lead=1); n(2, 1, x, minus=1)
    n(0, 0, 0, 1, 1); n(0, 0, 2, 1, 1); n(0, 0, 9, 0, 1); n(0, 2, 0, 1, 1); n(19, 0, 1, 1); n(20, 0, 2); n(20, 1, 6); n(22, 3, 2)
    if deep:
        for ni, nf in ((5, 16), (15, 7), (22, 0), (23, 1), (1, 24), (24, 2)): n(ni, nf); n(ni, nf, 2, 1)
    for k, l in ((0, 18), (0, 100), (0, 32765), (0, 32768), (1, 16), (1, 17), (1, 18), (1, 40), (2, 17), (2, 18), (2, 19), (2, 40), (3, 20), (3, 32770), (4, 5), (4, 19), (4, 30), (4, 300), (5, 5), (5, 19), (5, 30), (5, 300), (6, 17), (6, 20), (7, 32786), (7, 40000), (8, 32750), (8, 32790)):
        ts.append(task("numlong-%d-%d" % (k, l), "h_parse_numlong", k, l, mode, bound="number with %d fixed digits, shape %d of h_parse_numlong, symbolic digits around them" % (l, k)))
    return ts

@prop("P04", "Number literals of up to 22 (thorough 26) symbolic digits, split between integer and fraction at every listed place, with 14 exponent forms (up to 25 exponent digits); literals with up to 40 000 fixed digits and symbolic last digits. The value is compared exactly, by integer arithmetic in the solver's theory, with the reader's.", "Literals with more symbolic digits; digit strings longer than 38 significant digits are only required to parse with the right sign.")
def p04(deep):
    ts = numbers(2, deep)
    for n in range(1, (9 if deep else 8)): ts.append(task("number-chars%d" % n, "h_parse_n", n, NUM, 2, covers=[1, 2], bound="every text of %d characters from: %s" % (n, CLS[NUM])))
    return ts

@prop("P05", "As P01; the reported kind, character, line and column are compared with those of an independent reader on every rejected text.", PARSER_OUT)
def p05(deep):
    ts = all_texts(4, deep) + strings(4, deep) + far(4, deep)
    for n in range(1, 7 if deep else 6): ts.append(task("space%d" % n, "h_parse_n", n, WSP, 4, covers=[2], bound="every text of %d characters from: %s" % (n, CLS[WSP])))
    ts += [task("number-chars%d" % n, "h_parse_n", n, NUM, 4, covers=[1, 2], bound="every text of %d characters from: %s" % (n, CLS[NUM])) for n in range(1, (9 if deep else 7))]
    return ts

@prop("P06", "Nesting of 1, 2, 510-514 (thorough also 100, 256, 600) containers, six fixed mixtures of arrays and objects with the two outermost and three innermost levels symbolic, closed or left open, with siblings at every level, repeated and with 520 siblings in front; 20 000 opened containers.", "Mixtures outside the six patterns; other depths (the code compares one counter with one constant).")
def p06(deep):
    ts = []
    for d in ((3, 100, 256, 510, 511, 512, 513, 514, 600) if deep else (3, 511, 512, 513, 514)):
        for k in range(6):
            for t in range(6):
                if t in (2, 5) and k > 2 and not deep: continue
                if t == 3 and k not in (0, 1, 4) and not deep: continue
                ts.append(task("deep%d-%d-%d" % (d, k, t), "h_parse_deep", d, k, 7 | t << 8, covers=[1] if d <= 512 and t != 1 else [2] if d > 512 or t == 1 else [], bound="nesting of %d containers, mixture %d, tail %d" % (d, k, t)))
    ts += [task("abyss%d" % k, "h_parse_abyss", 50000 if deep else 20000, k, 7, covers=[2], bound="very many opened containers") for k in range(3)]
    return ts

# ---------------------------------------------------------------- numbers

INTS = ("i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize")
NONE_OUT = "Nothing of the stated inputs; see the assumptions."

ASSERT.update({
    901: "the printed text is a JSON number", 902: "the minus sign is printed exactly for negative numbers", 903: "the printed text denotes exactly the stored number",
    911: "Display and stringify print the same text", 912: "writing to a writer gives the same bytes",
    1201: "the number has exactly the integer's value", 1202: "the number converts back to the integer", 1203: "the accessor returns the integer", 1204: "the number and the integer compare equal in both orders", 1205: "as_number returns the number",
    1211: "a NaN is never read as an integer", 1212: "the integer read is exactly the number's value", 1213: "an in-range integer with exponent zero is not refused",
    1301: "a NaN, or a negative number read as unsigned, gives no result", 1302: "the result is the number times 10^places, truncated", 1303: "no result is given when it cannot fit", 1304: "a result that fits is given",
    1401: "numbers are equal exactly when their values are", 1402: "equality is symmetric", 1403: "values compare like their numbers", 1404: "!= is the negation of ==", 1405: "equality is reflexive",
    1406: "is_nan is right", 1407: "is_zero is right", 1408: "is_empty is right", 1409: "the sign test is right", 1410: "negation changes only the sign", 1411: "number == integer is right", 1412: "integer == number is right", 1413: "value == integer is right in every order", 1415: "from_parts keeps the value and drops zeros after the point",
})

@prop("P09", "None on the input: every sign, every 64-bit mantissa and every 16-bit exponent, through stringify, Display and write.", NONE_OUT)
def p09(deep): return [task("print", "h_print", 0, 65535, 1, covers=[1], bound="every number that is not NaN")]

@prop("P12", "None on the input: every value of every primitive integer type; every number (sign, 64-bit mantissa, 16-bit exponent, both NaN forms) read as every primitive integer type through TryFrom and the accessors.", NONE_OUT)
def p12(deep):
    return [task("from-" + t, "h_from_int", k, covers=[1], bound="every %s" % t) for k, t in enumerate(INTS)] + [task("to-" + t, "h_to_int", k, covers=[1, 2], bound="every number read as %s" % t) for k, t in enumerate(INTS)]

@prop("P13", "None on the input: every number and every 16-bit number of places.", NONE_OUT)
def p13(deep): return [task("fixed-u64", "h_fixed", 0, covers=[1, 2], bound="every number, every number of places"), task("fixed-i64", "h_fixed", 1, covers=[1, 2], bound="every number, every number of places")]

@prop("P14", "None on the input for pairs of numbers and for number-integer pairs of every integer type. Number::from_parts: mantissa zero only with exponents above -30.", "from_parts of zero with lower exponents (a loop of up to 32768 equal steps).")
def p14(deep):
    return [task("pair", "h_num_eq", 0, covers=[1, 2], bound="every pair of numbers"), task("unary", "h_num_eq", 1, covers=[1], bound="every number")] + [task("eq-" + t, "h_num_eq", 10 + k, covers=[1, 2], bound="every number and every %s" % t) for k, t in enumerate(INTS)]

ASSERT.update({
    1600: "zero reads as the f64 zero of its sign", 1601: "zero has an f64 reading", 1602: "zero reads as the f32 zero of its sign", 1603: "zero has an f32 reading", 1604: "every number has an f64 reading", 1605: "every number has an f32 reading",
    1606: "a number whose mantissa and power of ten are exact floats reads as the nearest f64", 1607: "the f64 reading lies within the tolerance of the value", 1608: "the f32 reading lies within the tolerance of the value",
    1610: "NaN reads as an f64 NaN", 1611: "NaN has an f64 reading", 1612: "NaN reads as an f32 NaN", 1613: "NaN has an f32 reading", 1614: "NaN equals no float",
    1615: "a number equals an f64 exactly when its reading does", 1616: "a number equals an f32 exactly when its reading does",
})

@prop("P16", "None on the input: every mantissa, both signs, all 65536 exponents (256 groups of each exponent resolved), NaN; every f64 and f32 for the comparisons. The reading must lie within 1e-14 (f64) or 1e-5 (f32) of the exact value, relative to the value, or to the smallest normal float when that is larger; values of 2^1024 (2^128) and more may read as infinite only beyond the largest float less the tolerance. Products and quotients of floats are bounded by their relative rounding error, the exact reading is demanded where the mantissa is at most 2^53 and the exponent between -22 and 22.", "Which of the floats within the tolerance is returned, outside that zone.")
def p16(deep):
    ts = []
    for a, n in ((-32768, 16000), (-16768, 16000), (768, 16000), (16768, 16000)): ts.append(task("far%d" % a, "h_read", a, n, 0, covers=[1, 2], bound="every number with an exponent from %d to %d" % (a, a + n - 1)))
    for how in (0, 1, 2):
        for a in range(-768, 768, 128): ts.append(task("read%d%+d" % (how, a), "h_read", a, 128, how, covers=[1, 2] + ([3] if -128 <= a <= 0 else []), bound="every number with an exponent from %d to %d, read by %s" % (a, a + 127, ("From", "the accessor", "Into")[how])))
    if deep:
        for how in (1, 2):
            for a, n in ((-32768, 32000), (768, 32000)): ts.append(task("far%d-%d" % (how, a), "h_read", a, n, how, covers=[1, 2], bound="every number with an exponent from %d to %d" % (a, a + n - 1)))
    return ts + [task("nan%d" % how, "h_read_nan", how, bound="NaN against every float") for how in (0, 1, 2)]

ASSERT.update({
    1501: "the number has the float's sign and is not NaN", 1502: "the mantissa has at most 17 digits", 1503: "the number lies below the upper end of the float's rounding interval", 1504: "the number lies above the lower end of the float's rounding interval",
    1505: "a float converts to a number value", 1506: "zero becomes zero and keeps its sign", 1507: "zero reads back as zero with its sign", 1508: "NaN and infinities become NaN", 1509: "NaN serializes as null", 1510: "NaN reads back as NaN",
})

@prop("P15", "Every fraction (2^52 or 2^23 values) of each explored exponent, decided for all of them at once. Quick: 88 f64 exponents, about one per cached power of ten, 11 f64 subnormal magnitudes, 8 f32 exponents, 4 f32 subnormal magnitudes; the powers of two of all 2046 f64 and 254 f32 exponents; both signs. Thorough: all f64 and f32 exponents and all subnormals. Zeros, infinities and every NaN in both.", "Quick: the other exponents (the code treats exponents that share a cached power alike up to one shift). Exponents are enumerated, not generalised.")
def p15(deep):
    ts = [task("special%d" % s, "h_from_special", s, covers=[1], bound="zeros, infinities and every NaN") for s in (0, 4)]
    for a in range(1, 2047, 256): ts.append(task("powers%d" % a, "h_from_f64", a, min(256, 2047 - a), 10, covers=[1], bound="the powers of two with f64 exponents %d to %d, both signs" % (a, min(2046, a + 255))))
    ts.append(task("powers-f32", "h_from_f32", 1, 254, 14, covers=[1], bound="the powers of two of all f32 exponents, both signs"))
    if deep:
        for a in range(1, 2047): ts.append(task("f64-%d" % a, "h_from_f64", a, 1, a % 2 | (a & 2) << 1, covers=[1], bound="every float with the biased exponent %d" % a))
        for j in range(52): ts.append(task("subnormal-%d" % j, "h_from_sub64", j, 1, j % 2, covers=[1], bound="every subnormal float with the leading bit at %d" % j))
        for a in range(1, 255): ts.append(task("f32-%d" % a, "h_from_f32", a, 1, a % 2, covers=[1], bound="every f32 with the biased exponent %d" % a))
        for j in range(23): ts.append(task("subnormal-f32-%d" % j, "h_from_sub32", j, 1, j % 2, covers=[1], bound="every subnormal f32 with the leading bit at %d" % j))
    else:
        for k, a in enumerate(sorted(set(range(11, 2046, 24)) | {1, 2046, 1023})): ts.append(task("f64-%d" % a, "h_from_f64", a, 1, k % 2 | (k & 2) << 1, covers=[1], bound="every float with the biased exponent %d" % a))
        for j in range(0, 52, 5): ts.append(task("subnormal-%d" % j, "h_from_sub64", j, 1, j % 2, covers=[1], bound="every subnormal float with the leading bit at %d" % j))
        for a in range(7, 255, 32): ts.append(task("f32-%d" % a, "h_from_f32", a, 1, a % 2, covers=[1], bound="every f32 with the biased exponent %d" % a))
        for j in (0, 7, 15, 22): ts.append(task("subnormal-f32-%d" % j, "h_from_sub32", j, 1, j % 2, covers=[1], bound="every subnormal f32 with the leading bit at %d" % j))
    return ts

# ---------------------------------------------------------------- objects

ASSERT.update({
    1700: "the length is the number of keys present", 1701: "a present key gives the value last written", 1702: "an absent key gives nothing", 1703: "iteration yields the keys in order of first insertion with their values",
    1705: "inserting into an object succeeds", 1706: "removal returns the removed value",
    1801: "a clone equals its original", 1802: "taking a value leaves null", 1810: "length is independent of the other copy", 1811: "a value changed with the other copy", 1812: "a key appeared or vanished with the other copy", 1813: "iteration is independent of the other copy",
})
KEYS = {0: "one symbolic character", 1: "lengths 32, 33, 0, 1, 2, 31, 34 with a symbolic last character", 2: "32 characters, the last symbolic", 3: "33 characters, the last symbolic", 4: "two keys with equal hash, others one symbolic character", 5: "two symbolic characters", 6: "fixed keys of 2 and 34 characters", 7: "four keys of 22 characters with equal hash, others one symbolic character", 8: "four keys of 33 characters with equal hash, others one symbolic character"}
WAYS = ("Object::insert/remove", "JsonValue::insert/remove", "Object index write", "JsonValue index write", "JsonValue index write by &String", "get_mut", "entries_mut", "any of 7 ways per step")
def hist(kind, n, init, steps, c): return task("hist-k%d-n%d-i%d-s%d-w%d" % (kind, n, init, steps, c), "h_obj", kind | n << 8, init | steps << 8, c, covers=[1], bound="keys: %s; %d keys, the first %d inserted, then every history of %d operations (%s) with %s%s" % (KEYS[kind], n, init, steps, "write, remove" if c & 16 else "write, remove, clear, clone", WAYS[c & 15], ", capacity 2" if c & 32 else ""))
def clones(kind, n, init, steps, c): return task("clone-k%d-n%d-i%d-s%d-w%d" % (kind, n, init, steps, c), "h_clone", kind | n << 8, init | steps << 8, c, covers=[1], bound="keys: %s; %d keys, the first %d inserted, cloned, then every history of %d operations (write, remove, clone, drop, take) on either object" % (KEYS[kind], n, init, steps))

MANY = ("2 to 60 characters", "0, 1, 2, ... characters", "32, 255-257 and 65535-65537 characters")
def bulk(base, deep):
    ts = []
    for c, ns in ((0, (70, 300, 1000)), (1, (300,)), (2, (8,))):
        for n in ns: ts.append(task("many%d-%d" % (c, n), "h_obj_many", n, base, c, covers=[1], steps=2000000000, bound="%d members under keys of %s; one member anywhere overwritten, removed from a clone, and inserted again" % (n, MANY[c])))
    if base == 1700 and not deep: ts.append(task("many0-66000", "h_obj_many", 66000, base, 12, covers=[1], steps=1500000000, bound="66000 members, one of two overwritten"))
    if deep: ts.append(task("many0-66000", "h_obj_many", 66000, base, 4, covers=[1], steps=20000000000, bound="66000 members, one anywhere overwritten"))
    return ts

@prop("P17", "Histories from the empty object: every sequence of 4 (thorough 5) operations over 3 (4) keys; from objects of 2-12 and of 17 entries: every sequence of 2 (3) operations; from objects of 15-64 entries: every single operation; objects of 70-1000 and 66000 members and keys of up to 65537 characters with one member changed anywhere. Keys are symbolic (one or two characters, or the last one of 20-40), so every order of their hashes, that is every tree shape over them, is covered; hash collisions by a concrete pair of colliding keys and by two sets of four keys with one hash (in-line and heap keys).", "Longer histories; more than 5 symbolic keys at once; keys differing in more than two characters except in length.")
def p17(deep):
    ts = []
    for kind in (0, 1, 2, 3, 4):
        for w in range(7): ts.append(hist(kind, 3, 0, 4 if deep else 3, w))
        ts.append(hist(kind, 3, 0, 5 if deep else 4, 16 + kind % 3))
        ts.append(hist(kind, 3, 2, 2, 7))
        ts.append(hist(kind, 4, 3, 3 if deep else 2, 32 + kind % 3))
        ts.append(hist(kind, 5, 4, 2, (kind + 1) % 3))
        ts.append(hist(kind, 5, 5, 2, 16 + (kind + 2) % 3))
    for kind in (7, 8):
        for w in range(7): ts.append(hist(kind, 4, 4, 2, w))
        ts.append(hist(kind, 4, 0, 5 if deep else 4, 16 + kind % 3))
        ts.append(hist(kind, 5, 5, 3 if deep else 2, 17))
        ts.append(hist(kind, 6, 5, 2, 48))
    if deep: ts.append(hist(5, 3, 2, 2, 0))
    for i in (4, 5, 8, 9, 12): ts.append(hist(6, 13, i, 2, i % 7)); ts.append(hist(6, 13, i, 3 if deep else 2, 48))
    for i, t in ((15, 1), (16, 2 if deep else 1), (17, 2), (31, 1), (32, 1), (33, 2 if deep else 1), (64, 1)): ts.append(hist(6, i + 1, i, t, (i + t) % 7))
    if deep:
        for kind in (0, 4): ts.append(hist(kind, 4, 0, 5, 16)); ts.append(hist(kind, 2, 0, 4, 7)); ts.append(hist(kind, 5, 5, 3, 0))
    return ts + bulk(1700, deep)

@prop("P18", "As P17, plus: every history of 3 (thorough 4) operations (write, remove, clone over, drop, take) on an object and its clone, starting with 0-5 entries and either one dropped first, values of every storage kind (number, heap string, array, object); every history of 2 (3) operations that turn values of all kinds into each other. Memory is checked exactly: bounds, lifetime, initialisation, allocation layout, leaks.", "Longer histories; the values inside are of four fixed shapes.")
def p18(deep):
    ts = p17(deep)
    ts = [t for t in ts if t["harness"] == "h_obj" and t["args"][2] & 15 in (0, 1, 2, 3, 7)] + bulk(1810, False)
    s = 4 if deep else 3
    for kind in (0, 1, 3, 4, 6, 7, 8):
        for init in (0, 2): ts.append(clones(kind, 3, init, s, init // 2))
        ts.append(clones(kind, 4, 4, 2, 2)); ts.append(clones(kind, 5, 4, 2, 3 + kind % 2))
    ts.append(clones(6, 9, 8, 2, 0)); ts.append(clones(6, 10, 9, 2, 1))
    for i in (16, 17, 33, 64): ts.append(clones(6, i + 1, i, 2 if deep and i < 20 else 1, i % 5))
    for k in range(10): ts.append(task("kinds%d" % k, "h_mix", k, 3 if deep else 2, 1, covers=[1], bound="every history of %d operations of all kinds that starts from value %d of h_mix" % (3 if deep else 2, k)))
    return ts

# ---------------------------------------------------------------- values

ASSERT.update({
    1901: "two values are equal exactly when kinds and contents agree", 1902: "equality is symmetric", 1903: "!= is the negation of ==", 1904: "a value equals itself", 1905: "a clone equals its original and compares alike",
    1911: "a string value compares with &str and str by its characters, in both orders", 1912: "a string value compares with String by its characters, in both orders", 1913: "string values compare by their characters however stored",
    1914: "a value compares with native strings as with a string value", 1915: "a value compares with a boolean as with a boolean value", 1916: "a value compares with an integer or Number as with a number value", 1917: "a value compares with an Object as with an object value", 1918: "a value of another kind never equals a float",
    2001: "length and emptiness agree with the elements", 2002: "iteration yields exactly the elements in order", 2003: "a position holds the element the vector has there", 2004: "a read out of range gives null", 2005: "push succeeds", 2006: "pop returns the last element or null", 2007: "removal returns the element there or null", 2008: "a clone equals the array", 2009: "the membership test agrees with the elements", 2010: "the membership test agrees for native values; only arrays contain",
    2101: "exactly one kind test is true", 2102: "typed accessors return something only for their kind", 2103: "the value is unchanged", 2104: "is_empty is right", 2105: "length and iterators are empty for other kinds",
    2106: "a key is found exactly when present", 2107: "missing keys and positions and non-containers give null", 2108: "push and insert on another kind report the wrong type", 2109: "operations for another kind return null or nothing", 2110: "taking leaves null and gives the value",
    2111: "writing through a key stores the member and nothing else", 2112: "writing through a position stores the element and nothing else", 2113: "clearing empties containers and owned strings, and nulls other scalars",
    2201: "a string is a string kind only", 2202: "as_str gives the text", 2203: "emptiness is that of the text", 2204: "the string compares by its text", 2205: "a string has no length as container", 2206: "display gives the text", 2207: "take gives the string and leaves null", 2208: "take_string gives the text and leaves null", 2209: "clearing an owned string leaves the empty string, another one nothing",
    2401: "the array has the given length", 2402: "every element is the given one, in order", 2403: "the result equals the one built step by step", 2404: "the object has one member per key", 2405: "members carry the last value, in order of first appearance", 2406: "map order is kept", 2407: "array! holds exactly the given elements", 2408: "object! holds exactly the given members", 2409: "scalars, options and objects convert to equal values",
})

@prop("P19", "Pairs of values: any two scalars (all kinds, strings of 0-2 characters in both storages, every 64-bit integer, NaN); containers of up to 2 (thorough 3) levels with up to 1 element each (thorough also one level with up to 2); objects of up to 3 (thorough 4) members with symbolic keys in any order; the same 6 (thorough 7) members in every order; arrays of up to 4 (8) symbolic numbers; arrays of up to 100 and objects of up to 40 elements that may differ anywhere in one; nests of 1-12 (thorough 40) containers; strings of 0-5, 8-32 (every fourth and the borders) and 60 characters, in either storage, against each other and against native strings; every u64, bool, Number and one-member Object.", "Larger values; floats are compared as floats (see P16), only their inequality with other kinds is checked.")
def p19(deep):
    ts = [task("scalars", "h_eq", 0, 0, 0, covers=[1, 2], bound="any two scalars"), task("flat1", "h_eq", 17, 1, 0, covers=[1, 2], bound="any two values of up to one element"),
          task("nested", "h_eq", 34, 1, 0, covers=[1, 2], bound="any two values of up to two levels, one element each"), task("levels", "h_eq", 33, 1, 0, covers=[1, 2], bound="a value of one level against one of two")]
    if deep: ts += [task("flat2", "h_eq", 17, 2, 0, covers=[1, 2], bound="any two values of one level with up to 2 elements"), task("nested3", "h_eq", 51, 1, 1, covers=[1, 2], bound="any two values of up to three levels, one element each")]
    m = 4 if deep else 3
    for a in range(0, m + 1):
        for b in range(0, a + 1): ts.append(task("objects%d-%d" % (a, b), "h_eq_shape", 0, a, b, covers=[1] if a == b == 0 else [1, 2] if a == b else [2], bound="two objects of %d and %d members with one-character keys in any order" % (a, b)))
    for a in range(1, (8 if deep else 4) + 1):
        for b in (a - 1, a): ts.append(task("arrays%d-%d" % (a, b), "h_eq_shape", 1, a, b, covers=[1, 2] if a == b else [2], bound="two arrays of %d and %d integers of 64 bits" % (a, b)))
    for d in ((1, 2, 3, 4, 8, 12, 40) if deep else (1, 2, 3, 12)): ts.append(task("nest%d" % d, "h_eq_shape", 2, d, d, covers=[1, 2], bound="two nests of %d containers, symbolic inside" % d)); ts.append(task("nest%d-%d" % (d, d - 1), "h_eq_shape", 2, d, d - 1, covers=[2], bound="nests of %d and %d containers" % (d, d - 1)))
    for l in (0, 1, 2): ts.append(task("longkeys%d" % l, "h_eq_shape", 3, 2, 2 | l << 4, covers=[1, 2], bound="two objects of 2 members with keys of %d characters" % (32 + l)))
    for n in (0, 1, 2, 3, 4, 5, 8, 12, 16, 17, 20, 24, 25, 28, 29, 30, 31, 32, 60):
        for d in (0, 1): ts.append(task("string%d-%d" % (n, n + d), "h_eq_native", 0, n, n + d, covers=[1] if n + d == 0 else [2] if d else [1, 2], bound="a string of %d characters, either storage, against native strings of %d" % (n, n + d)))
        
        if n < 5 or n > 28: ts.append(task("native%d" % n, "h_eq_native", 1, n, covers=[1], bound="any value of up to one element against a native string of %d characters, any u64, bool, Number, Object" % n))
    for n in (5, 8, 16, 17, 33, 100): ts.append(task("many-elements%d" % n, "h_eq_shape", 4, n, 0, covers=[1, 2], bound="two arrays of %d numbers that may differ at any one place" % n))
    for n in (5, 8, 9, 16, 17, 40):
        for r in (0, 1, n // 2): ts.append(task("many-members%d-%d" % (n, r), "h_eq_shape", 4, n, 1 | r << 1, covers=[1, 2], bound="two objects of %d members in different orders that may differ in any one member" % n))
    for n in (2, 3, 4, 5, 6, 7) if deep else (2, 3, 4, 5, 6):
        for k in (0, 1): ts.append(task("orders%d-%d" % (n, k), "h_eq_shape", 5, n, k, covers=[1, 2], bound="two objects with the same %d members in every order, one value may differ%s" % (n, ", long keys" if k else "")))
    ts.append(task("floats", "h_eq_native", 2, covers=[1], bound="any value that is no number against floats"))
    return ts

@prop("P20", "Every history of 5 (thorough 6) operations on an empty array and of 4 (5) on arrays of 1-3 elements, of 2 on arrays of 4-17, every single one on arrays of 32-256, one fixed history at 12 places of arrays of 300 and 70000 elements, with every 64-bit position for reads, writes and removals; membership in arrays of up to 3 (4) arbitrary scalars.", "Longer histories; the code treats elements uniformly (Vec).")
def p20(deep):
    ts = [task("history0", "h_array", 0, 6 if deep else 5, 0, covers=[1], bound="every history of %d operations on an empty array" % (6 if deep else 5))]
    for a in (1, 2, 3): ts.append(task("history%d" % a, "h_array", a, 5 if deep else 4, 0, covers=[1], bound="every history of %d operations on an array of %d" % (5 if deep else 4, a)))
    for a in (0, 3): ts.append(task("member%d" % a, "h_array", a, 3, 1, covers=[1], bound="every history of 3 operations on an array of %d, then membership" % a))
    for a in (4, 8, 16): ts.append(task("grow%d" % a, "h_array", a, 2, 1, covers=[1], bound="every history of 2 operations on an array of %d, then membership" % a))
    for a in (17, 32, 33, 64, 100, 256): ts.append(task("large%d" % a, "h_array", a, 2 if a == 17 or deep and a < 64 else 1, 1, covers=[1], bound="every operation on an array of %d, then membership" % a))
    for n in (300, 70000): ts.append(task("many%d" % n, "h_array_many", n, covers=[1], steps=2000000000, bound="an array of %d: write, read, clone, remove, pop, mutation and clear at 12 places" % n))
    for n in range(0, 5 if deep else 4): ts.append(task("contains%d" % n, "h_contains", n, covers=[1, 2] if n else [2], bound="membership of any scalar in an array of %d scalars" % n))
    return ts

KINDS = ("null", "boolean", "number", "in-line string", "long string", "owned short string", "empty array", "array", "empty object", "object")
GROUPS = ("kind tests and accessors", "reads", "operations for another kind", "taking", "write through a key", "write through a position", "clearing")
@prop("P21", "Every kind of value (10 shapes, contents symbolic, containers of up to 2 members or elements of any kind) with every group of operations, every 64-bit position and every one-character key; every history of 3 (thorough 4) of 12 operations (26 with their keys and positions), of all kinds, on 10 fixed values.", "Containers with more elements (see P17, P20); longer histories.")
def p21(deep):
    ts = [task("history%d" % k, "h_mix", k, 4 if deep else 3, covers=[1], bound="every history of %d operations that starts from %s" % (4 if deep else 3, ("null", "a boolean", "a number", "a short string", "an owned short string", "a long string", "an empty array", "an array of 2", "an empty object", "an object of 2")[k])) for k in range(10)]
    return ts + [task("%s-%d" % (KINDS[k].replace(" ", "-"), o), "h_access", k, o, covers=[1], bound="%s on a value of kind %s" % (GROUPS[o], KINDS[k])) for k in range(10) for o in range(7)]

@prop("P22", "Strings of every length 0-40, 100, 255, 256, 300, 65535 and 65536 (thorough every length up to 130, and others), all characters symbolic (up to 100; fewer beyond) as ASCII, and with any UTF-8 in the first or last three bytes.", "Other lengths; multi-byte characters in the middle (the text is copied as a whole).")
def p22(deep):
    ns = list(range(0, 131)) + [255, 256, 300, 1000, 4096, 65535, 65536, 65537] if deep else list(range(0, 41)) + [100, 255, 256, 300, 65535, 65536]
    return [task("string%d-%d" % (n, m), "h_string", n, m, covers=[1], bound="strings of %d bytes, %s" % (n, ("ASCII", "any UTF-8 at the end", "any UTF-8 at the start")[m])) for n in ns for m in ((0,) if n == 0 else (0, 1, 2))]

BUILD = ("vectors and slices of u64", "nested vectors, optional strings", "pairs with possibly repeated keys", "ordered maps", "hash maps", "array! and object! macros", "scalars, options, objects")
@prop("P24", "Vectors, slices, options, iterators of pairs (with and without a known length) with symbolic (possibly equal) keys, BTreeMap with symbolic keys, HashMap with fixed keys, of up to 4 (thorough 6) elements, and of up to 100 (300) under fixed keys; the macros in fixed shapes with symbolic values.", "Larger collections; HashMap iteration order is modelled by the map's own order.")
def p24(deep):
    ts = []
    for w in range(7):
        for n in range(0, 1 if w >= 5 else 6 if w == 4 else (7 if deep and w != 2 else 6 if deep else 5)): ts.append(task("build%d-%d" % (w, n), "h_build", w, n, covers=[1], bound="%s, %d elements" % (BUILD[w], n)))
    for w in range(4):
        for n in (8, 16, 17, 33) + ((100, 300) if deep else (100,) if w != 1 else ()): ts.append(task("many%d-%d" % (w, n), "h_build_many", w, n, covers=[1], bound="%s, %d elements under fixed keys" % (("vector and slice", "pairs with repeated keys", "ordered map", "vectors of vectors and of maps")[w], n)))
    for n in (1, 17, 65, 129, 300, 1100) if deep else (1, 17, 65, 129, 300): ts.append(task("pairs%d" % n, "h_build_many", 4, n, covers=[1], bound="%d pairs with different keys from iterators that know their length exactly, not at all, or in part" % n))
    return ts

# ---------------------------------------------------------------- serializers

ASSERT.update({
    701: "the parsed value equals the original", 702: "the parsed value has exactly the original's content, members in order", 703: "serializing again gives the same text", 704: "the compact text parses", 705: "NaN serializes as null", 706: "the number read back has the same value and sign",
    711: "the value parsed from the pretty text equals the original", 712: "the value parsed from the pretty text has exactly the original's content", 713: "pretty printing again gives the same text", 714: "the pretty text parses",
    801: "exactly quotes, backslashes and control characters are escaped, in the stated form", 802: "the text is UTF-8", 803: "every serializer writes the string the same way", 804: "keys are written like strings", 805: "parsing the text gives the string back",
    1001: "the number's text is a JSON number", 1002: "the number's text has its sign", 1003: "the number's text denotes it",
    1011: "dump gives exactly the compact form", 1012: "stringify gives exactly the compact form", 1013: "write gives exactly the compact form", 1014: "pretty gives exactly the pretty form", 1015: "stringify_pretty gives exactly the pretty form", 1016: "write_pretty gives exactly the pretty form", 1017: "the object's own dump and pretty agree",
    1101: "success is reported only when everything was accepted", 1102: "on success exactly the serialization was written", 1103: "an error is reported only when the writer failed", 1104: "the bytes written before the error are a prefix of the serialization", 1105: "the error is the writer's",
    2301: "{} gives the raw string, nan, or the compact text", 2302: "{:#} gives the pretty text with four spaces", 2303: "the error text contains the character", 2304: "the error text contains line and column", 2305: "errors are equal exactly when kind and content are, and give equal texts", 2306: "different errors give different texts; a wrong type names the type", 2307: "the text of a parser error contains character and position",
})
ANYV = "any value of up to %d level%s with up to %d element%s per container, keys and strings without escapes"
def values(name, harness, deep):
    ts = []
    for d, w, f in [(0, 0, 0), (1, 1, 0), (1, 2, 2), (2, 1, 2)] + ([(1, 2, 0), (2, 2, 2), (3, 1, 2)] if deep else []):
        ts.append(task("%s-%d-%d-%d" % (name, d, w, f), harness, d, w, f, covers=[1], bound=(ANYV % (d, "" if d == 1 else "s", w, "" if w == 1 else "s")) if f else (ANYV % (d, "" if d == 1 else "s", w, "" if w == 1 else "s")).replace("without escapes", "of any ASCII characters")))
    return ts
WIDE = ("numbers", "strings", "scalars and containers", "members", "members that are containers", "members under long keys")
def many(harness, deep, k=3):
    return [task("many%d-%d" % (w, n), harness, n, w, k, covers=[1], bound="%d %s, the last and the middle one symbolic" % (n, WIDE[w])) for w in range(6) for n in ((9, 17, 33, 100) + ((300, 1000) if deep else (257,) if w in (0, 3) else ()))]
PATTERNS = {0x00: "arrays", 0xff: "objects", 0x55: "arrays and objects in turn", 0xcc: "two and two"}
def nests(name, harness, depths, ks):
    return [task("%s%d-%d-%x-%d" % (name, d, k, p, s), harness, d, k, p | s << 8, covers=[1], bound="%d nested containers (%s%s), symbolic inside, indentation %d" % (d, PATTERNS[p], ", with siblings" if s else "", k)) for d, k in zip(depths, ks) for p in PATTERNS for s in (0, 1)]

@prop("P07", "Every number (sign, 64-bit mantissa, 16-bit exponent). Strings of up to 4 (thorough 5) ASCII characters or bytes of any UTF-8; keys of up to 4 characters of which one needs any escape, and of 29-35 characters; values of up to 2 (3) levels and up to 2 elements; arrays and objects of up to 257 (1000) elements; nests of up to 40 (500) containers with siblings, at several indentations.", "Larger values; longer strings with several escapes (see P08).")
def p07(deep):
    ts = values("value", "h_round", deep)
    ts += [task("scalar-wide", "h_round", 0, 0, 2, covers=[1], bound="any scalar")]
    ts += [task("number-int", "h_round_num", 32768, 32768, 0, covers=[1], bound="every integer"), task("number-pos", "h_round_num", 32769, 65535, 0, covers=[1], bound="every number with a positive exponent"), task("number-neg", "h_round_num", 0, 32767, 0, covers=[1], bound="every number with a negative exponent")]
    for n in range(0, 6 if deep else 5): ts += [task("string%d" % n, "h_round_str", n, 0, covers=[1], bound="every string of %d ASCII characters" % n), task("utf8-%d" % n, "h_round_str", n, 1, covers=[1], bound="every string of %d bytes" % n)]
    for n in (1, 2, 3, 4): ts.append(task("key%d" % n, "h_round_str", n, 3, covers=[1], bound="every key of %d characters, all but the first without escapes" % n))
    for n in range(29, 36): ts.append(task("key%d" % n, "h_round_str", n, 2, covers=[1], bound="keys of %d characters, the last symbolic" % n))
    ts += nests("nest", "h_round_deep", (2, 3, 12, 40), (0, 2, 7, 1))
    ts += many("h_round_wide", deep)
    if deep: ts += nests("nest", "h_round_deep", (100, 500), (3, 1))
    return ts

@prop("P08", "Every string of up to 4 (thorough 5) ASCII characters and of up to 4 (5) bytes of any UTF-8; strings of 16-40 characters with two symbolic characters at any two positions; any UTF-8 of 3 bytes and an ASCII character at any place of a string of 40; strings of 64-255 characters with one symbolic anywhere, of 1000-4096 (65536) with three, repeated patterns; each as compact, pretty and through writers, as value and as key.", "Strings with more than two characters that need escapes and more than 5 characters.")
def p08(deep):
    ts = []
    for n in range(0, 6 if deep else 5): ts += [task("ascii%d" % n, "h_escape", n, 0, covers=[1], bound="every string of %d ASCII characters" % n), task("utf8-%d" % n, "h_escape", n, 1, covers=[1], bound="every string of %d bytes" % n)]
    for n in ((16, 30, 31, 33, 40) if deep else (16, 31)): ts.append(task("two%d" % n, "h_escape", n, 2, covers=[1], bound="strings of %d characters with two symbolic ones anywhere" % n))
    for n in (64, 128, 255): ts.append(task("any%d" % n, "h_escape", n, 4, covers=[1], bound="a string of %d characters, any one of them symbolic, with two others fixed that need escapes" % n))
    for n, b in ((1000, 500), (1024, 1022), (4096, 4093)) + ((65536, 65534),) + (((65536, 4095),) if deep else ()): ts.append(task("long%d-%d" % (n, b), "h_escape", n, 5, b, covers=[1], steps=1000000000, bound="a string of %d characters, three of them symbolic" % n))
    for n, b in ((16, 2), (64, 2), (64, 3)) + (((40, 4),) if deep else ()): ts.append(task("period%d-%d" % (n, b), "h_escape", n, 6, b, covers=[1], bound="a string of %d characters that repeats %d symbolic ones" % (n, b)))
    for b in (range(0, 41) if deep else (0, 1, 20, 29, 30, 40)): ts.append(task("mixed%d" % b, "h_escape", 40, 3, b, covers=[1], bound="any UTF-8 of 3 bytes and an ASCII character at place %d of a string of 40" % b))
    return ts

@prop("P10", "Values of up to 2 (thorough 3) levels with up to 2 elements, indentation 0-5; arrays and objects of up to 257 (1000) elements; nests of 2-40 (200) containers with and without siblings, with indentation 0-65535 for small depths; through dump, stringify, write, to_writer, pretty, stringify_pretty, write_pretty and the object's own dump and pretty. The expected text comes from an independent serializer.", "Larger values, other indentations. More than 65535 levels.")
def p10(deep):
    ts = values("value", "h_layout", deep)
    ts.append(task("scalar-wide", "h_layout", 0, 0, 1, covers=[1], bound="any scalar: every 64-bit integer, strings of up to 2 characters"))
    ts += nests("nest", "h_layout_deep", (1, 2, 3, 12, 40), (8, 3, 255, 4, 2))
    for k in (256, 1000, 32767, 32768, 65535): ts.append(task("indent%d" % k, "h_layout_deep", 3, k, 0x55, covers=[1], steps=1000000000, bound="three nested containers, indentation %d" % k))
    ts += [task("deep-indent", "h_layout_deep", 70, 1000, 0, covers=[1], steps=1000000000, bound="70 nested arrays, indentation 1000")]
    ts += many("h_layout_wide", deep)
    if deep: ts += nests("nest", "h_layout_deep", (100, 200), (7, 1))
    return ts

@prop("P11", "Nine values (all kinds, numbers of every printed form, escapes, long strings, many elements; two with symbolic contents), compact and pretty; a writer that fails, for good or once, with one of seven outcomes (four error kinds, an OS error, a custom error, zero bytes accepted) after any number of bytes, accepts at most 1, 2, 3, 7 or any number of bytes per call, and reports up to one (thorough two) interruptions at any call.", "Other values; writers with their own write_all.")
def p11(deep):
    ts = []
    for w in range(9):
        for p in (0, 1):
            if w in (5, 6) or w > 6 and p:
                for c in (0, 7) if w == 5 or deep else (7,): ts.append(task("fault%d-%d-%d" % (w, p, c), "h_fault", w, c, p | (2 if deep else 0), covers=[1, 2], bound="value %d, %s, at most %s bytes per call, failure after any number of bytes" % (w, "pretty" if p else "compact", c or "all")))
                continue
            for c in (0, 1, 2, 3, 7): ts.append(task("fault%d-%d-%d" % (w, p, c), "h_fault", w, c, p | (2 if w != 4 or deep else 0), covers=[1, 2], bound="value %d, %s, at most %s bytes per call, failure after any number of bytes, one interruption at any call" % (w, "pretty" if p else "compact", c or "all")))
            ts.append(task("kinds%d-%d" % (w, p), "h_fault", w, 0, p | 256, covers=[1, 2], bound="value %d, %s, every failure at every byte" % (w, "pretty" if p else "compact")))
            if deep and w < 3:
                for c in (0, 2): ts.append(task("twice%d-%d-%d" % (w, p, c), "h_fault", w, c, p | 4, covers=[1, 2], bound="value %d, %s, two interruptions at any calls" % (w, "pretty" if p else "compact")))
    return ts

@prop("P23", "Values as in P10; error texts for every character, every line and column below 10^6 (thorough 10^7), every wrong-type name of 3 ASCII characters; equality of any two errors.", "Larger values; larger line and column numbers.")
def p23(deep):
    ts = values("value", "h_display", deep)
    ts.append(task("scalar-wide", "h_display", 0, 0, 1, covers=[1], bound="any scalar: every 64-bit integer, NaN, strings of up to 2 characters"))
    ts += many("h_display_wide", deep)
    for k, n in enumerate(("character", "line", "column", "other errors")): ts.append(task("error-" + n.replace(" ", "-"), "h_error", k, 1 if deep else 0, covers=[1], bound="error text: any %s" % n))
    ts.append(task("error-equality", "h_error", 4, covers=[1], bound="any two errors of any kinds, any position, any names of 2 characters"))
    return ts

# ---------------------------------------------------------------- sharing, parts

ASSERT.update({2121: "the operation gives what it should for the value's kind", 2122: "the value is exactly what the history makes it", 2501: "the value is what it was",
    2601: "unchecked parts are kept", 2602: "the sign is kept", 2603: "the value is kept", 2604: "no trailing zero among fraction digits", 2605: "without a negative exponent mantissa and exponent are kept", 2606: "a value made of a number gives that number", 2607: "negation flips the sign and nothing else; NaN stays NaN"})
READS = ("kind tests and accessors", "lookups, indexing, contains", "iteration from both ends", "comparison", "cloning, and changing the clone", "all serializers", "display")
MADE = ("inserted member by member", "cloned from another one, which is gone", "after removing any one member", "moved through an array", "taken out of an object", "collected from an iterator")

@prop("P25", "The value is frozen: from then on any write to its memory, or an unsynchronised one to a static variable, fails. Values of up to 1 level and 2 elements (thorough 2 levels; lookups, iteration, comparison and cloning 2 levels in both) with symbolic content; objects of 3 members with symbolic short and long keys and with colliding hashes, and of 9 members, made in six ways; every number is printed and converted; 12 floats; texts of up to 4 (6) ASCII characters and 12 fixed ones are parsed and their errors displayed.", "Larger values. Interleavings are not enumerated: that nothing shared is written makes them irrelevant. Memory ordering of atomic accesses (the crate has none). Thread-local state counts as not shared.")
def p25(deep):
    ts = []
    for op in range(7):
        for d in (0, 1) + ((2,) if op < 5 or deep else ()):
            ts.append(task("any%d-%d" % (d, op), "h_share", 0, op, d, covers=[1], bound="any value of up to %d levels: %s" % (d, READS[op])))
        for k, n in ((1, "3 members, keys of one symbolic character"), (2, "3 members, keys in line and on the heap"), (3, "3 members, two of which collide"), (4, "9 members")):
            for w in range(6): ts.append(task("object%d-%d-%d" % (k, w, op), "h_share", k, op, w, covers=[1], bound="an object of %s, %s: %s" % (n, MADE[w], READS[op])))
    for k, b in ((0, "every integer and NaN: printed, converted, compared"), (1, "12 floats converted both ways and printed"), (2, "12 texts parsed"), (4, "every number: printed, converted, compared")): ts.append(task("number%d" % k, "h_share_num", k, covers=[1], bound=b))
    for n in range(0, 7 if deep else 5): ts.append(task("parse%d" % n, "h_share_num", 3, n, covers=[1], bound="every ASCII text of %d characters parsed" % n))
    return ts

@prop("P26", "Every sign, every mantissa but zero and every exponent; mantissa zero with exponents from -30 up and selected ones down to -32768; NaN.", "Mantissa zero with the other exponents below -30 (one loop iteration per exponent, all alike).")
def p26(deep):
    ts = [task("nonzero", "h_parts", 1, covers=[1, 2], bound="every number with a mantissa other than zero"), task("from-30", "h_parts", 0, covers=[1, 2], bound="every number with an exponent of at least -30"), task("nan", "h_parts", 3, covers=[1], bound="NaN")]
    for e in (31, 255, 256, 300, 1000, 32767, 32768) + (tuple(range(32, 250, 7)) + (4096, 10000, 20000, 32766) if deep else ()): ts.append(task("zero-%d" % e, "h_parts", 2, 0, e, covers=[1], bound="zero with exponent -%d" % e))
    return ts

# ---------------------------------------------------------------- generators

ASSERT.update({2701: "a generator whose parts succeed succeeds", 2702: "the generator is asked for exactly the parts of the value, in order", 2703: "the separator after a key comes in both forms", 2704: "the error of a hook is the result"})
HOOKS = ("only the required hooks", "line and separator hooks", "its own strings and numbers", "its own objects, members reversed", "its own values", "a hook that fails at any point", "the built-in generators used directly, two values in a row")
@prop("P27", "Values of up to 2 (thorough 3) levels with up to 2 elements and symbolic content, nests of up to 12 (40) containers; seven kinds of generators: built-in ones used directly, and own ones that implement only what is required, every layout hook, strings and numbers, objects, values, or a hook that fails at any point.", "Larger values; generators that override several parts at once.")
def p27(deep):
    ts = []
    for h in range(7):
        for d, w in ((0, 16), (1, 2), (2, 1)) + (((2, 2), (3, 1)) if deep else ()): ts.append(task("value%d-%d-%d" % (d, w & 15, h), "h_gen", d, w, h, covers=[1], bound="any value of up to %d levels with up to %d elements: %s" % (d, w & 15, HOOKS[h])))
        for d in (2, 4, 12) + ((40,) if deep else ()):
            for c in (0x55, 0x80 | 0x2d): ts.append(task("nest%d-%x-%d" % (d, c, h), "h_gen_deep", d, c, h, covers=[1], bound="%d nested containers%s: %s" % (d, " with siblings" if c & 128 else "", HOOKS[h])))
    for k, n in enumerate(("DumpGenerator", "WriterGenerator", "PrettyGenerator", "PrettyWriterGenerator", "an own generator")):
        for l in (0, 1, 3, 5) if deep else (0, 1, 3): ts.append(task("parts%d-%d" % (l, k), "h_gen_parts", l, k, covers=[1], bound="a string of %d bytes, text, a number and a separator written through %s one by one" % (l, n)))
    return ts

# ---------------------------------------------------------------- documents

ASSERT.update({2801: "the serialization is that of the document with these edits", 2802: "the content is that of the document with these edits", 2803: "what is written reads back as the same document",
    2804: "lookups find every part in its place", 2805: "clones, re-read documents and documents made in other ways are equal and independent", 2806: "an edit returns what it should"})
DOCS = ("nested arrays and objects with a long key", "an array of containers", "three members of any names, repeated ones among them", "ten members", "strings around the in-line limit", "five levels", "a string", "a number", "20 members and nine elements")
FORMS = ("parsed from compact text", "parsed from spread-out text", "parsed from text with escapes", "built", "cloned from a parsed one that is gone")

@prop("P28", "Nine documents of up to 30 parts with symbolic names and strings, made in five ways; one edit of 14 kinds at any part, two for six (thorough: all) of them, three (thorough) for three; edits write symbolic values under existing, new and long names and at any position. Names are one character or 36.", "Larger documents; longer histories; several symbolic characters in a name.")
def p28(deep):
    ts = []
    for d, n in enumerate(DOCS):
        for f, m in enumerate(FORMS):
            if d == 2 and f == 2 and not deep: continue
            ts.append(task("edit%d-%d" % (d, f), "h_edit", d | f << 8, 1, 1, covers=[1], bound="%s, %s: any edit" % (n, m), **({"time": 1500} if deep else {})))
        if deep and d != 8 or d not in (3, 8): ts.append(task("two-edits%d" % d, "h_edit", d, 2, 1 if deep else 0, covers=[1], bound="%s: any two edits" % n))
        if deep and d != 8:
            for f in (1, 3, 4):
                ts.append(task("two-edits%d-%d" % (d, f), "h_edit", d | f << 8, 2, covers=[1], bound="%s, %s: any two edits" % (n, FORMS[f])))
        for a, b in ((0, 3), (4, 0)) + (((3, 1), (1, 4)) if deep else ()):
            for k in (1, 2) if deep and d not in (2, 8) else (1,): ts.append(task("pair%d-%d%d-%d" % (d, a, b, k), "h_edit_two", d | a << 8 | b << 16, k, covers=[1], bound="%s, %s and %s: any %s to one of them, and all parts moved" % (n, FORMS[a], FORMS[b], "edit" if k == 1 else "two edits")))
    if deep:
        for d in (4, 5, 6): ts.append(task("three-edits%d" % d, "h_edit", d, 3, covers=[1], bound="%s: any three edits" % DOCS[d], time=2400))
    return ts
