"""What each check runs.  An entry's bounds are spelled out in BOUNDS, the situations it must reach (so that it is not
vacuous) in COVERS."""
import re
ASSUMPTIONS = [
    "allocation never fails; threads interleave as under sequential consistency, with at most one preemption per run, before an atomic access; the program is the one rustc makes of /repo for x86-64 with panic=abort, LLVM's O2 without vectorisation",
    "memchr, regex and rayon are replaced by models of their documented behaviour in the encoded program (/verif/models); on a sample of paths the native build, with the real crates, is compared with the encoding",
]
CHECKS = {}
MINI = "every content of buffers of 0..={n} bytes of a message format with 2-byte marker, 1-byte length, messages of 3..=8 bytes (the code is generic in the format){x}"
DLT = "every content of buffers of {n} bytes and of the same cut by several lengths from 1 to 17, real DLT format{x}"
LONG = "real DLT format, {n} bytes: message headers at 0, at a chosen place and at the end, stated lengths free in the low byte and chosen in the high one, zeros between{x}"
FROM = ", every starting offset"
FILES = "the file read or mapped; "
def m(n, x=""): return MINI.format(n=n, x=x)
def d(n, x=""): return DLT.format(n=n, x=x)
def l(n, x=""): return LONG.format(n=n, x=x)
MANY = "66000 messages of one shape, a byte of theirs free"
BOUNDS = {
    "h_c01": "buffers of every length 0..=65600 (symbolic); the first 24 bytes free, the rest zero (the code reads none of them)",
    "h_c01_max": "all field values of the standard header",
    "h_c02": "every stated length 0..=65535 (symbolic), all 256 header type bytes, the first 40 bytes of the entry free",
    "h_c03_q": "all field values and combinations of optional fields, payloads of 0..=4 free bytes", "h_c03_t": "all field values and combinations of optional fields, payloads of 0..=24 free bytes",
    "h_c04": "all 256 message info bytes, all message types and verbosities",
    "h_c05_mini_q": m(18), "h_c05_mini_t": m(28), "h_c05_from_q": m(14, FROM), "h_c05_from_t": m(26, FROM), "h_c05_dlt_q": d(46), "h_c05_dlt_t": d(72), "h_c05_long_q": l(620), "h_c05_long_t": l(70000),
    "h_c06_mini_q": m(20), "h_c06_mini_t": m(40), "h_c06_dlt_q": d(80), "h_c06_dlt_t": d(110), "h_c06_long_q": l(620), "h_c06_long_t": l(70000), "h_c06_std_q": "every content of 24 bytes, entries without storage header", "h_c06_std_t": "every content of 40 bytes, entries without storage header",
    "h_c07_mini_q": m(14, FROM), "h_c07_mini_t": m(24, FROM), "h_c07_dlt_q": d(32, FROM), "h_c07_dlt_t": d(40, FROM), "h_c07_long_q": l(620), "h_c07_long_t": l(2100),
    "h_c08_mini_q": m(12, FROM), "h_c08_mini_t": m(16, FROM), "h_c08_dlt_q": d(27, ", starting at the end"), "h_c08_dlt_t": d(30, FROM), "h_c08_long_q": l(620, ", starting at the end"), "h_c08_long_t": l(2100, ", starting at the end"),
    "h_c09_mini_q": m(11, ", every range of 0..=3 bytes, beyond the end as well"), "h_c09_mini_t": m(17, ", every range of 0..=3 bytes, beyond the end as well"), "h_c09_dlt_q": d(30, ", ranges of 0..=2 bytes at 5 places near the end"), "h_c09_dlt_t": d(31, ", every range of 0..=3 bytes"),
    "h_c09_long": "one message of any low length byte and high byte 0, 1 or 255 at 0 or 37 of 66000 bytes, ranges of 1 or 4 bytes around its end",
    "h_c10_mini_q": m(13, ", every number of parts 1..=len+2"), "h_c10_mini_t": m(16, ", every number of parts 1..=len+2"), "h_c10_dlt_q": d(30, ", 1, 2, 3, 8 parts"), "h_c10_dlt_t": d(30, ", every number of parts 1..=len+2"),
    "h_c10_long": "1500 bytes with two message headers of 12 and 9 lengths, eight numbers of parts",
    "h_c11_mini_q": m(14, ", every number of parts 1..=len+2"), "h_c11_mini_t": m(16, ", every number of parts 1..=len+2"), "h_c11_dlt_q": d(32, ", 2, 3, 4, 9 parts"), "h_c11_dlt_t": d(42, ", 2, 3, 4, 9 parts"), "h_c11_long_q": l(620, ", 2, 3, 4, 9 parts"), "h_c11_long_t": l(1620, ", 2, 3, 4, 9 parts"),
    "h_c11_max": "131080..=131126 bytes beginning with a message of 65520..=65551 bytes (the longest there are), cut in two",
    "h_c12_q": m(8, ", four starting offsets, 24 patterns (at most 9 bytes for those with characters of several bytes)"), "h_c12_t": m(12, ", four starting offsets, 24 patterns (at most 9 bytes for those with characters of several bytes)"),
    "h_c13_q": m(9, ", 11 patterns (7 bytes for those with characters of several bytes)"), "h_c13_t": m(11, ", 11 patterns (7 bytes for those with characters of several bytes)"), "h_c13_dlt_q": "streams of up to two real messages with free payloads of up to 3 bytes, with and without bytes between, 3 patterns", "h_c13_dlt_t": "streams of up to two real messages with free payloads of up to 5 bytes, with and without bytes between, 3 patterns",
    "h_c14_q": m(9, ", 8 patterns with a group (7 bytes for those with characters of several bytes)"), "h_c14_t": m(11, ", 8 patterns with a group (7 bytes for those with characters of several bytes)"), "h_c14_wild_q": m(8, ", four starting offsets, 19 patterns (at most 9 bytes for those with characters of several bytes)"), "h_c14_wild_t": m(11, ", four starting offsets, 19 patterns (at most 9 bytes for those with characters of several bytes)"), "h_c14_dlt_q": "as C13, 3 patterns with groups", "h_c14_dlt_t": "as C13, 3 patterns with groups",
    "h_c15_q": "sequences of 0..=7 items of 3 classes, all 512 relations", "h_c15_t": "sequences of 0..=9 items of 3 classes, all 512 relations", "h_c15_four_t": "sequences of 0..=6 items of 4 classes, all 65536 relations",
    "h_c16_simple_q": "0..=5 items of 3 classes, all predicates, all mappings to bytes", "h_c16_simple_t": "0..=8 items of 3 classes, all predicates, all mappings to bytes",
    "h_c16_flush_q": "0..=7 items of 2 classes, all relations and predicates on items and groups", "h_c16_flush_t": "0..=11 items of 2 classes, all relations and predicates on items and groups",
    "h_c16_nested_q": "0..=7 items of 2 classes, all relations on items and on groups", "h_c16_nested_t": "0..=11 items of 2 classes, all relations on items and on groups",
    "h_c17_q": "0..=5 items of 3 keys, all predicates on keys, 4 relations", "h_c17_t": "0..=8 items of 3 keys, all predicates on keys, 4 relations",
    "h_c18_any_q": "0..=5 items, all 2^25 merge decision tables, rising and falling keys", "h_c18_any_t": "0..=7 items, all 2^49 merge decision tables, rising and falling keys",
    "h_c18_intervals_q": "0..=3 intervals within 0..=4", "h_c18_intervals_t": "0..=5 intervals within 0..=5", "h_c18_classes_q": "0..=5 items of 3 classes, free weights", "h_c18_classes_t": "0..=8 items of 3 classes, free weights",

    "h_cd_c19_small_q": "payload sizes 1..=5, inputs of every content of 0..=8 bytes, ids of any four ASCII bytes", "h_cd_c19_small_t": "payload sizes 1..=6, inputs of every content of 0..=12 bytes, ids of any four ASCII bytes",
    "h_cd_c19_pieces_q": "payload sizes 1, 3, 4, inputs of 0..=5 free bytes; every schedule of the first 4 reads or 3 writes being whole, of 1 byte, of 3 or 17, or interrupted", "h_cd_c19_pieces_t": "as the quick one, inputs of 0..=7 bytes, the first 6 reads or 5 writes",
    "h_cd_c19_errors": "inputs of 0..=5 free bytes, the first, second or third read or write fails, the ones before it whole or of 1 or 2 bytes",
    "h_cd_c19_large_q": "payload sizes 1000, 1026, 1100, one free byte at 7 places, writes whole, of 200 or of 39 bytes", "h_cd_c19_large_t": "as the quick one, sizes up to 20000",
    "h_cd_c19_many": "66000 messages of one byte", "h_cd_c19_limits": "payload sizes 0, 65517 (the greatest there is), 65518, 65519, 65534, 65535",
    "h_cr_c20_q": FILES + "0..=2 messages of 3 kinds, 6 texts, junk between", "h_cr_c20_t": FILES + "0..=3 messages of 2 kinds, 6 texts, two kinds of junk between",
    "h_cr_c20_any_q": "count: files of any content of 6 lengths up to 24; the others: payloads, and files, of 0..=13 bytes that are the text from any place in it with two bytes free", "h_cr_c20_any_t": "as the quick one, up to 41 and 24 bytes",
    "h_cr_c20_grep_q": FILES + "0..=3 messages of 6 texts ending their line, junk between, 1..=3 processors", "h_cr_c20_par_q": FILES + "0..=2 messages, 1..=4 processors, every schedule", "h_cr_c20_par_t": FILES + "0..=3 messages, 1..=4 processors, every schedule",
    "h_cr_c21_q": FILES + "0..=3 messages of 4 kinds (two too short for what their headers announce), junk between", "h_cr_c21_t": FILES + "0..=5 messages of the same kinds", "h_cr_c21_big": "1..=3 messages of 7 lengths around and beyond a kilobyte and up to the longest",
    "h_cr_c21_types_q": FILES + "0..=2 messages, every message info byte in the first, five in the second", "h_cr_c21_types_t": FILES + "0..=3 messages of 4 kinds, every message info byte in the first two",
    "h_cr_c20_raw_q": "raw search: 70000 bytes, the text at a place around 65536 or at the end with a free byte, 1..=4 processors", "h_cr_c20_raw_t": "as the quick one, 270000 bytes",
    "h_cr_c20_many": MANY + ", two commands", "h_cr_c21_many": MANY + ", two commands", "h_cr_c22_many": MANY + ", three commands",
    "h_c05_many": MANY + ", with and without 66000 bytes before them, three iterators", "h_c06_many": MANY + ", whole and with damage near the end, with and without storage headers",
    "h_c07_many": "66000 markers without a message, then a message or two", "h_c08_many": MANY, "h_c10_many": "20000 messages in 2, 255, 256 and 300 parts",
    "h_c12_many": MANY + " of which two thirds match, behind 66000 matches outside of messages", "h_c13_many": "as C12", "h_c14_many": "as C12", "h_c15_many": "66000 items in groups of 1, 2, 1000 and all of them",
    "h_c16_many": "66000 items through map, filter, groups, count, sum and collect", "h_c17_many": "66000 items through split (4 and 66000 keys) and fork", "h_c18_many": "3000 items merged into 1, 3000, 1500 and 10",
    "h_cr_c22_q": FILES + "0..=2 messages of 4 kinds, two ECU ids, time stamps with free lower halves and 3 upper halves", "h_cr_c22_t": FILES + "0..=3 messages of 4 kinds, three ECU ids (one not UTF-8), time stamps with free lower halves and 3 upper halves",
    "h_cr_c22_deep_q": FILES + "0..=4 messages of one ECU and kind, such time stamps", "h_cr_c22_deep_t": FILES + "0..=6 messages of one ECU and kind, such time stamps",
    "h_cr_c22_ids": FILES + "two messages, each with one of two ECU ids of which one byte is free",
    "h_cr_c22_times_q": FILES + "0..=4 messages of two ECUs, storage times with a free low byte and the others all zeros or ones", "h_cr_c22_times_t": FILES + "0..=5 messages of two ECUs, such storage times",
    "h_c23_q": "files of 0..=4 free bytes, every schedule of 3 reads being whole, of 1 or 3 bytes, interrupted, or failing", "h_c23_t": "files of 0..=6 free bytes, every schedule of 5 reads being whole, of 1, 2 or 5 bytes, interrupted, or failing",
    "h_c23_large_q": "files of 5 lengths up to 20000, one free byte at 3 places, 5 schedules of reads", "h_c23_large_t": "files of 12 lengths up to 200000, one free byte at 3 places, 5 schedules of reads", "h_c23_map_large": "files of 6 lengths around multiples of 4096 up to 66000, one free byte at 3 places", "h_c23_map": "files of every content of 1..=20 bytes", "h_c23_absent": "no file of the name",
    "h_cr_c24_uneven_q": FILES + "five shapes of 5 or 6 messages of one ECU of different sizes, storage times 0..=255, 2 and 3 processors, every schedule", "h_cr_c24_uneven_t": FILES + "five shapes of 6 or 7 messages of one ECU of different sizes, storage times 0..=255, 2 and 3 processors, every schedule",
    "h_cr_c24_q": FILES + "0..=4 messages of two ECUs, storage times as for C22, 2..=4 processors, every order in which rayon may process and combine the parts", "h_cr_c24_t": FILES + "0..=5 messages of one ECU, storage times as for C22, 2..=5 processors, every order in which rayon may process and combine the parts",
}
BOUNDS.update({f"h_c{p}_far": "three messages at one of six distances from the place 2^32 in a buffer of zeros, adjacent or not; the same behind and in front of 2^24 zeros, from the start of the buffer (not C06, C09)" for p in ("05", "06", "07", "08", "09", "10", "13", "14")})
BOUNDS["h_c09_far"] = "three messages at one of six distances from the place 2^32 in a buffer of zeros, adjacent or not"; BOUNDS["h_c06_far"] = BOUNDS["h_c09_far"]; BOUNDS["h_c09_far"] += ", any byte of them"; BOUNDS["h_c10_far"] = "five parts of a buffer of about 5 * 2^30 bytes, three messages at seven distances from the place where the last begins"
BOUNDS["h_cr_c20_range_many"] = "two matches at one of four places around 10^8, and one at the start or none, in zeros: histogram_hello_world"
BOUNDS.update({f"h_c{p}_longest_many": "a message of one of 8 lengths up to the longest (65551 bytes), behind 0, 3 or 65536 bytes, with a message behind it or at the end of the buffer or cut by a byte; a free byte" for p in ("05", "06", "07", "08", "13", "14")})
COVERS = {
    **{f"h_c{p}_far": [840] for p in ("06", "09", "10")}, **{f"h_c{p}_far": [840, 841] for p in ("05", "07", "08", "13", "14")}, "h_cr_c20_range_many": [850, 851],
    **{f"h_c{p}_longest_many": [830, 831, 832] for p in ("05", "06", "07", "08", "13", "14")},
    "h_c01": [1, 2, 3, 4, 5, 6, 7],
    "h_c01_max": [6],
    "h_c02": [10, 11, 12, 13, 14, 15, 16, 17],
    "h_c03_q": [20],
    "h_c04": [30, 31, 32],
    "h_c05_dlt_q": [120, 121, 122],
    "h_c05_from_q": [110, 111, 112, 113, 114],
    "h_c05_long_q": [125, 126, 127, 128],
    "h_c05_mini_q": [100, 101, 102, 103, 104, 105],
    "h_c06_dlt_q": [140, 141, 142, 143, 144],
    "h_c06_long_q": [145, 146, 147],
    "h_c06_mini_q": [130, 131, 132, 133, 134, 135],
    "h_c06_std_q": [150, 151, 152, 153, 154, 155],
    "h_c07_dlt_q": [170, 171],
    "h_c07_long_q": [175, 176, 177, 178],
    "h_c07_mini_q": [160, 161, 162, 163, 164],
    "h_c08_dlt_q": [190, 191, 192],
    "h_c08_long_q": [195, 196, 197, 198],
    "h_c08_mini_q": [180, 181, 182, 183, 184],
    "h_c09_dlt_q": [205, 206, 207],
    "h_c09_long": [210, 211],
    "h_c09_mini_q": [200, 201, 202],
    "h_c10_dlt_q": [231, 232, 233, 234],
    "h_c10_long": [236, 237, 238, 239],
    "h_c10_mini_q": [220, 221, 222, 223, 224],
    "h_c11_dlt_q": [250, 251, 255],
    "h_c11_long_q": [261, 262, 263, 265, 266],
    "h_c11_max": [271],
    "h_c11_mini_q": [240, 241, 242, 243, 245, 246],
    "h_c12_q": [300, 301, 302],
    "h_c13_dlt_q": [320, 321, 322, 324],
    "h_c13_q": [310, 311, 312, 314],
    "h_c14_dlt_q": [350, 351, 352, 354],
    "h_c14_q": [330, 331, 332, 334],
    "h_c14_wild_q": [340, 341, 342],
    "h_c15_q": [400, 401, 402, 403],
    "h_c16_flush_q": [420, 421, 422, 423, 424],
    "h_c16_nested_q": [430, 431, 432, 433, 434],
    "h_c16_simple_q": [410, 411, 412, 413, 414],
    "h_c17_q": [440, 441, 442, 443],
    "h_c18_any_q": [450, 451, 452, 453, 454, 455, 456],
    "h_c18_classes_q": [470, 471, 472, 473],
    "h_c18_intervals_q": [460, 461, 462, 463],
    "h_cd_c19_small_q": [600, 601, 602], "h_cd_c19_pieces_q": [605, 606], "h_cd_c19_errors": [610, 611], "h_cd_c19_large_q": [615, 616], "h_cd_c19_many": [620], "h_cd_c19_limits": [625, 626],
    "h_cr_c20_q": [640, 641, 642, 644, 645, 646], "h_cr_c20_any_q": [640, 641, 644, 645, 646], "h_cr_c20_grep_q": [650, 651, 652, 653], "h_cr_c20_par_q": [656, 657, 658, 659, 660],
    "h_cr_c21_q": [665, 666, 667, 668], "h_cr_c21_big": [666, 667, 668], "h_cr_c21_types_q": [670, 671, 672, 673],
    "h_cr_c22_q": [680, 681, 682, 683, 686, 687], "h_cr_c22_deep_q": [680, 681, 682, 683, 687], "h_cr_c22_times_q": [690, 691, 692, 693], "h_cr_c22_ids": [695, 696, 697],
    "h_c23_q": [720, 721, 722], "h_c23_large_q": [730, 732], "h_c23_map": [742], "h_c23_map_large": [742], "h_c23_absent": [799],
    "h_c05_many": [800], "h_c06_many": [802, 803], "h_c07_many": [804], "h_c08_many": [805], "h_c10_many": [806], "h_c12_many": [808, 809], "h_c15_many": [810], "h_c16_many": [812], "h_cr_c20_many": [820, 821], "h_cr_c21_many": [822, 825], "h_cr_c22_many": [823, 824, 826], "h_c13_many": [808, 809], "h_c14_many": [808, 809], "h_c17_many": [813], "h_c18_many": [814], "h_cr_c20_raw_q": [654],
    "h_cr_c24_uneven_q": [710, 711, 716, 717], "h_cr_c24_q": [700, 701, 702, 703, 704, 705, 706, 707, 708],
}
def bound(e): return BOUNDS.get(e, "")
def covers(e):
    """a thorough entry reaches at least what the quick one of the same kind does"""
    return COVERS.get(e) or COVERS.get(re.sub("_t$", "_q", e), [])
LONG_RUNS = 600_000_000
def step(e): return {**({"entry": e} if isinstance(e, str) else e), "steps": LONG_RUNS} if any(k in str(e) for k in ("_many", "_raw_", "_far")) else e
def prop(pid, quick, thorough=None, **kw):
    quick, thorough = [step(e) for e in quick], [step(e) for e in thorough] if thorough else thorough
    CHECKS[pid] = {"quick": quick, "thorough": thorough, **kw}

prop("C01", ["h_c01", "h_c01_max"])
prop("C02", ["h_c02"])
prop("C03", ["h_c03_q"], ["h_c03_t"])
prop("C04", ["h_c04"], ["h_c04"])
for p, kinds in (("C05", ["mini", "from", "dlt", "long"]), ("C06", ["mini", "dlt", "long", "std"]), ("C07", ["mini", "dlt", "long"]), ("C08", ["mini", "dlt", "long"])):
    prop(p, [f"h_{p.lower()}_{k}_q" for k in kinds] + [f"h_{p.lower()}_many", f"h_{p.lower()}_longest_many", f"h_{p.lower()}_far"], [f"h_{p.lower()}_{k}_t" for k in kinds] + [f"h_{p.lower()}_many", f"h_{p.lower()}_longest_many", f"h_{p.lower()}_far"])

prop("C09", ["h_c09_mini_q", "h_c09_dlt_q", "h_c09_long", "h_c09_far"], ["h_c09_mini_t", "h_c09_dlt_t", "h_c09_long", "h_c09_far"])
prop("C10", ["h_c10_mini_q", "h_c10_dlt_q", "h_c10_long", "h_c10_many", "h_c10_far"], ["h_c10_mini_t", "h_c10_dlt_t", "h_c10_long", "h_c10_many", "h_c10_far"])
prop("C11", ["h_c11_mini_q", "h_c11_dlt_q", "h_c11_long_q", "h_c11_max"], ["h_c11_mini_t", "h_c11_dlt_t", "h_c11_long_t", "h_c11_max"])
prop("C12", ["h_c12_q", "h_c12_many"], ["h_c12_t", "h_c12_many"])
prop("C13", ["h_c13_q", "h_c13_dlt_q", "h_c13_many", "h_c13_longest_many", "h_c13_far"], ["h_c13_t", "h_c13_dlt_t", "h_c13_many", "h_c13_longest_many", "h_c13_far"])
prop("C14", ["h_c14_q", "h_c14_wild_q", "h_c14_dlt_q", "h_c14_many", "h_c14_longest_many", "h_c14_far"], ["h_c14_t", "h_c14_wild_t", "h_c14_dlt_t", "h_c14_many", "h_c14_longest_many", "h_c14_far"])
prop("C15", ["h_c15_q", "h_c15_many"], ["h_c15_t", "h_c15_four_t", "h_c15_many"])
prop("C16", [f"h_c16_{k}_q" for k in ("simple", "flush", "nested")] + ["h_c16_many"], [f"h_c16_{k}_t" for k in ("simple", "flush", "nested")] + ["h_c16_many"])
prop("C17", ["h_c17_q", "h_c17_many"], ["h_c17_t", "h_c17_many"])
prop("C18", [f"h_c18_{k}_q" for k in ("any", "intervals", "classes")] + ["h_c18_many"], [f"h_c18_{k}_t" for k in ("any", "intervals", "classes")] + ["h_c18_many"])

ENVIRONMENT = "the tools run in a model of the system calls they make (harness/src/world.rs): one process, one file; natively the real tool runs under a preloaded library that follows the same schedule"
def tool(pid, mod, quick, thorough):
    f = lambda es: [{"mod": "lib" if e.startswith("h_c2") else mod, "entry": e} for e in es]
    prop(pid, f(quick), f(thorough), assumptions=[ENVIRONMENT])
def both(pre, pairs, alone=()):
    return [f"{pre}{k}_q" for k in pairs] + [pre + k for k in alone], [f"{pre}{k}_t" for k in pairs] + [pre + k for k in alone]
tool("C19", "dd_dlt", *both("h_cd_c19_", ["small", "pieces", "large"], ["errors", "limits", "many"]))
tool("C20", "ripdlt", ["h_cr_c20_q", "h_cr_c20_any_q", "h_cr_c20_grep_q", "h_cr_c20_par_q", "h_cr_c20_raw_q", "h_cr_c20_many", "h_cr_c20_range_many"], ["h_cr_c20_t", "h_cr_c20_any_t", "h_cr_c20_grep_q", "h_cr_c20_par_t", "h_cr_c20_raw_t", "h_cr_c20_many", "h_cr_c20_range_many"])
tool("C21", "ripdlt", ["h_cr_c21_q", "h_cr_c21_big", "h_cr_c21_types_q", "h_cr_c21_many"], ["h_cr_c21_t", "h_cr_c21_big", "h_cr_c21_types_t", "h_cr_c21_many"])
tool("C22", "ripdlt", ["h_cr_c22_q", "h_cr_c22_deep_q", "h_cr_c22_times_q", "h_cr_c22_ids", "h_cr_c22_many"], ["h_cr_c22_t", "h_cr_c22_deep_t", "h_cr_c22_times_t", "h_cr_c22_ids", "h_cr_c22_many"])
tool("C23", "lib", ["h_c23_q", "h_c23_large_q", "h_c23_map", "h_c23_map_large", "h_c23_absent"], ["h_c23_t", "h_c23_large_t", "h_c23_map", "h_c23_map_large", "h_c23_absent"])
tool("C24", "ripdlt", ["h_cr_c24_q", "h_cr_c24_uneven_q"], ["h_cr_c24_t", "h_cr_c24_uneven_t"])
