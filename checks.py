ABI = ["abi", "crypto", "abieos", "fpconv"]
CHECKS = {
    "C01": dict(src=["c01.cpp"], lib=ABI, fuzz=True, oracle="independent reference encoder",
                note="Explores generated ABIs, types, values and JSON spellings against an independent wire encoder under ASan/UBSan; trusts harness/ref*.hpp. Not exhaustive.",
                rule="Generated ABI (structs, bases, variants, aliases, optionals, arrays, trailing extensions, recursion) + value + JSON spelling; non-trivial = the value contains a struct, variant, array or optional; distinct by (ABI, type, wire bytes)",
                quick=dict(cases=60000, fuzz_runs=4000), thorough=dict(cases=4000000, fuzz_runs=400000, time=900, fuzz_time=900)),
    "C02": dict(src=["c02.cpp"], lib=ABI, fuzz=True, oracle="strict JSON parser, reference value check and round-trip",
                note="Explores generated ABIs, types and wire values; output parsed by an independent strict JSON parser and compared to the value, then re-encoded. Trusts harness/ref*.hpp. Not exhaustive.",
                rule="As C01, starting from the reference binary encoding; non-trivial = value contains a struct, variant, array or optional, or a string with ill-formed UTF-8",
                quick=dict(cases=60000, fuzz_runs=4000), thorough=dict(cases=4000000, fuzz_runs=400000, time=900, fuzz_time=900)),
    "C03": dict(src=["c03.cpp"], lib=ABI, fuzz=True, oracle="acceptance predicate of a single structural mutation, reference encoder when accepted",
                note="One structural or textual mutation at a random node of a generated valid case; both modes' accept/reject and bytes are predicted. Malformed text is decided by an independent strict JSON parser. Not exhaustive.",
                rule="valid ABI+type+value, then one mutation of its JSON (member removed, moved, duplicated, unknown, renamed; wrong JSON kind; variant tag or arity; text damage). Non-trivial = a mutation was applied; distinct by (ABI, type, JSON)",
                quick=dict(cases=120000, fuzz_runs=4000), thorough=dict(cases=6000000, fuzz_runs=400000, time=900, fuzz_time=900)),
    "C04": dict(src=["c04.cpp"], lib=ABI, fuzz=True, oracle="exact decimal and hex reading in the harness",
                note="Texts concentrated at the range limits of every built-in integer, plus hex and boolean texts; accept/reject and stored bytes predicted by digit-string arithmetic, for ordered, reorderable and native conversion. Not exhaustive.",
                rule="one text offered to one scalar type; every case non-trivial; distinct by (type, JSON text)",
                quick=dict(cases=400000, fuzz_runs=20000), thorough=dict(cases=20000000, fuzz_runs=1000000, time=600, fuzz_time=600)),
    "C05": dict(src=["c05.cpp"], stack=16, lib=ABI, fuzz=True, oracle="ASan/UBSan, allocation meter, CPU limit, usability probe after each call",
                note="Arbitrary and mutated ABI documents, type names, JSON, hex and binary through every entry point and native decoding, with sanitizers, an allocation meter, a CPU limit and a probe that the context still works. Types of zero encoded size are excluded (known finding). Not exhaustive.",
                rule="raw bytes or a valid input with 1-4 mutations given to an entry point; non-trivial = mutated valid input or >16/20 raw bytes; distinct by the bytes given",
                quick=dict(cases=40000, fuzz_runs=6000, hang=25), thorough=dict(cases=4000000, fuzz_runs=1500000, time=900, fuzz_time=1800, hang=25)),
    "C06": dict(src=["c06.cpp"], lib=ABI, fuzz=True, oracle="reference decoder deciding which byte strings are complete encodings",
                note="Prefixes, extensions and single-byte damage of generated encodings (exact-size heap buffers under ASan), truncated binary ABIs and native values, against an independent decoder. Types of zero encoded size are excluded (C05 known finding). Not exhaustive.",
                rule="generated ABI+type+encoding, then all (or 16+ sampled) prefixes, appended bytes, byte damage, bad hex; non-trivial = the encoding is not empty; distinct by (ABI, type, wire)",
                quick=dict(cases=25000, fuzz_runs=3000), thorough=dict(cases=2000000, fuzz_runs=300000, time=900, fuzz_time=900)),
    "C07": dict(src=["c07.cpp"], lib=ABI, fuzz=True, oracle="independent omission rules and reference decoder",
                note="Chains of up to 4 structs with binary-extension markers anywhere, nested in arrays, optionals, variants, aliases and bases; members dropped anywhere; verdict, bytes and JSON predicted in all three directions. Not exhaustive.",
                rule="generated chain of structs + value + members dropped per object (suffix, hole or prefix); non-trivial = at least one member dropped; distinct by (ABI, type, JSON)",
                quick=dict(cases=120000, fuzz_runs=6000), thorough=dict(cases=8000000, fuzz_runs=600000, time=900, fuzz_time=900)),
    "C08": dict(src=["c08.cpp"], lib=ABI, fuzz=True, oracle="independent ABI validator; reference codec for accepted ABIs",
                note="Generated ABI definitions with one or two edits to versions, names, references, bases, aliases and cycles; verdict from an independent validator for JSON and binary forms, and every type of an accepted ABI converted. Reference chains beyond 13 levels are not judged. Not exhaustive.",
                rule="well-formed generated definition plus 0-2 edits; non-trivial = edited or a definition with references; distinct by definition",
                quick=dict(cases=60000, fuzz_runs=4000), thorough=dict(cases=4000000, fuzz_runs=400000, time=900, fuzz_time=900)),
    "C09": dict(src=["c09.cpp"], lib=ABI, fuzz=True, oracle="three-way differential, reference ABI encoding and reference codec",
                note="Generated definitions (some ill-formed) given as JSON in any spelling, binary and hex to three contexts; acceptance, lookups and conversions compared with each other and with the reference; native reading and writing of definitions against the documented layout. Not exhaustive.",
                rule="generated definition + equivalent spellings; non-trivial = more than one type defined (or over 40 encoded bytes); distinct by encoding and spelling",
                quick=dict(cases=40000, fuzz_runs=3000), thorough=dict(cases=3000000, fuzz_runs=300000, time=900, fuzz_time=900)),
    "C10": dict(src=["c10.cpp"], lib=ABI, fuzz=True, oracle="model of each context (ABI in force per contract, result, error) checked after every call",
                note="Model-based histories of up to 60 calls over up to 3 contexts and 4 contracts, with replacements, failed replacements, lookups, conversions, null arguments and re-created contexts; results compared with the reference codec for the ABI in force. Not exhaustive.",
                rule="generated ABIs + call history; non-trivial = at least two conversions under a loaded ABI; distinct by ABIs and history",
                quick=dict(cases=60000, fuzz_runs=3000), thorough=dict(cases=2000000, fuzz_runs=300000, time=900, fuzz_time=900)),
    "C11": dict(src=["c11.cpp", "c11_1.cpp", "c11_2.cpp", "c11_3.cpp", "c11_4.cpp", "c11_5.cpp"], lib=ABI, fuzz=True, oracle="independent wire encoder per C++ type; agreement of all sinks; exact-consumption round trip",
                note="95 native types covering every to_bin/from_bin overload (containers, maps, variants of 130 alternatives, tuples, C arrays, nested and recursive reflected structs, chain types); bytes compared with a hand-written encoder, decoded into fresh and into used objects, truncated and into short buffers. Not exhaustive.",
                rule="a type of the family and a generated value; non-trivial = more than one byte; distinct by (type, bytes)",
                quick=dict(cases=400000, fuzz_runs=4000), thorough=dict(cases=20000000, fuzz_runs=300000, time=900, fuzz_time=600)),
    "C12": dict(src=["c12.cpp"] + [f"c12_{i}.cpp" for i in range(1, 8)], lib=ABI, fuzz=True, oracle="strict JSON parser and per-type meaning; round trip; metamorphic respelling, member permutation, omission and wrong-kind edits",
                note="57 native types covering every to_json/from_json overload; compact and indented output compared as documents and against the value; own output, respelled and member-permuted text (with unknown members) read back into fresh and used objects; partial objects; wrong kinds, cut and trailing text rejected. Not exhaustive.",
                rule="a type of the family and a generated value; non-trivial = more than one wire byte; distinct by (type, bytes)",
                quick=dict(cases=240000, fuzz_runs=3000), thorough=dict(cases=12000000, fuzz_runs=300000, time=900, fuzz_time=600)),
    "C14": dict(src=["c14.cpp"] + [f"c14_{i}.cpp" for i in range(1, 6)], lib=[], fuzz=True, oracle="reference three-way comparison of values, independent of the library's operators",
                note="About 90 key-capable native types; pairs and triples mostly differ in one place. Byte order, equality and prefix-freedom of the keys against a reference order, plus agreement of all sinks. NaNs excluded (they have no order). Not exhaustive.",
                rule="type + value + near or independent second and third value; non-trivial = the first two values differ; distinct by (type, both values)",
                quick=dict(cases=200000, fuzz_runs=4000), thorough=dict(cases=8000000, fuzz_runs=400000, time=900, fuzz_time=900)),
    "C24": dict(src=["c24.cpp", "c24_1.cpp", "c24_2.cpp"], lib=["crypto", "fpconv"], fuzz=True, oracle="hand-written member lists (names, addresses, types) and a reference member-wise comparison",
                note="45 comparable types against all six operators on equal, near-equal and independent values; 30 reflected structs (inheritance, methods, 72 members, names resembling keywords) enumerated through every for_each_field form. NaNs excluded. Not exhaustive.",
                rule="type + two values, or a reflected struct and a value; non-trivial = the values differ, or a struct is enumerated; distinct by (type, values)",
                quick=dict(cases=200000, fuzz_runs=4000), thorough=dict(cases=8000000, fuzz_runs=400000, time=900, fuzz_time=600)),
    "C15": dict(src=["c15.cpp"], lib=ABI, fuzz=True, oracle="independent name codec, text order and hash written from the definition",
                note="Every conversion entry point (strict, lenient, fallback, JSON, C API, literals) on generated values and on valid and nearly valid text, with parts and order against the text form. The fallback hash is pinned as currently defined. Not exhaustive over 2^64 values.",
                rule="name value, pair of values, or text near the validity boundary; non-trivial = text longer than one character / values differ / non-empty; distinct by value or text",
                quick=dict(cases=1500000, fuzz_runs=20000), thorough=dict(cases=60000000, fuzz_runs=2000000, time=600, fuzz_time=600)),
    "C16": dict(src=["c16.cpp"], lib=ABI, fuzz=True, oracle="exact big-integer comparison with the midpoints to the neighbouring values; strict JSON parser",
                note="Printed text of float32/float64 (all classes, powers of two and ten and their neighbours, runs of consecutive values) and decimal text (short, long, exactly halfway and beside it, at the range limits, malformed) judged by exact arithmetic, natively and through an ABI; float128 as hex. Only decimal text is judged for acceptance. Not exhaustive.",
                rule="a floating-point value of a chosen class or a decimal text; non-trivial = every value, and text of more than one character; distinct by bits or text",
                quick=dict(cases=700000, fuzz_runs=15000), thorough=dict(cases=40000000, fuzz_runs=1000000, time=900, fuzz_time=600)),
    "C17": dict(src=["c17.cpp"], lib=ABI, fuzz=True, oracle="calendar by counting days per month and year; integer arithmetic",
                note="Times over the whole year 0000-9999 range, all seconds, all slots; text near every field limit and leap day with edits, natively and through an ABI; every operator and conversion where the exact result is representable. Text with a point but no digits is not judged. Not exhaustive.",
                rule="a time value, a text, or operand pair; non-trivial = any time, text of 10 or more characters, non-zero operands; distinct by value or text",
                quick=dict(cases=1000000, fuzz_runs=15000), thorough=dict(cases=50000000, fuzz_runs=1000000, time=600, fuzz_time=600)),
    "C18": dict(src=["c18.cpp"], lib=ABI, fuzz=True, oracle="reference grammar and printer with 128-bit arithmetic",
                note="Every printing, parsing and validity entry point (free functions in whole and prefix form, JSON, from_string, constructors, ABI) on generated amounts, precisions 0-255 and codes, and on text edited near the limits. Asset text without any digit is not judged. Not exhaustive.",
                rule="a value, a text near the acceptance boundary, or a raw code; non-trivial = any value, text longer than 3 characters, non-zero raw code; distinct by text or value",
                quick=dict(cases=700000, fuzz_runs=15000), thorough=dict(cases=40000000, fuzz_runs=1000000, time=600, fuzz_time=600)),
    "C19": dict(src=["c19.cpp"], lib=[], fuzz=True, oracle="model with 128-bit integers: exact result or failure, operands checked after every step",
                note="Histories of up to 12 arithmetic, assignment and comparison operations on four (extended) assets of near-limit amounts and up to four symbols; products near 2^62, 2^63 and 2^64. For operands outside the permitted range only wrong results and undefined behaviour count. Not exhaustive.",
                rule="operands and an operation history; non-trivial = at least two operations that succeed, or differing amounts; distinct by history",
                quick=dict(cases=700000, fuzz_runs=15000), thorough=dict(cases=40000000, fuzz_runs=1000000, time=600, fuzz_time=600)),
    "C20": dict(src=["c20.cpp"], lib=ABI, fuzz=True, oracle="independent base58, RIPEMD-160, SHA-256 and layout check",
                note="Keys and signatures of all kinds printed and read through every entry point; text with edits, damaged checksums, correct checksums over wrong payloads, wrong algorithm names; base58 and RIPEMD-160 (split updates, block boundaries) on generated bytes. Damage to legacy private keys is a recorded finding and not judged. Not exhaustive.",
                rule="a key, edited text, or byte string; non-trivial = any key or text, non-empty bytes; distinct by text or bytes",
                quick=dict(cases=300000, fuzz_runs=8000), thorough=dict(cases=15000000, fuzz_runs=600000, time=900, fuzz_time=600)),
    "C21": dict(src=["c21.cpp"], lib=ABI, fuzz=True, oracle="reference base-128/zigzag codec and plain integers",
                note="Values around every length boundary through every encoder and decoder (all sinks, all prefixes, JSON, ABI), arbitrary continuation-bit patterns of up to 8 bytes, every operator overload that exists, text around the 32-bit limits. Five-byte encodings of more than 32 bits are not judged. Not exhaustive.",
                rule="a value, a byte pattern, an operand pair or a number text; non-trivial = more than one byte or differing operands; distinct by value or bytes",
                quick=dict(cases=1000000, fuzz_runs=15000), thorough=dict(cases=60000000, fuzz_runs=1000000, time=600, fuzz_time=600)),
    "C22": dict(src=["c22.cpp", "c22_1.cpp", "c22_2.cpp", "c22_3.cpp"], lib=ABI, fuzz=True, oracle="plain byte strings: big-endian words, std::string comparison, hex",
                note="15 size/word combinations (1 to 64 bytes, words of 8 to 128 bits, with and without padding): construction from and extraction to words of every width, partial arrays, comparison operators, binary, key, JSON text and the ABI checksum types. Source words with non-zero bits beyond the size are a precondition and not generated. Not exhaustive.",
                rule="size + two byte strings that mostly differ in one byte + hex text with edits; non-trivial = not all zero; distinct by size and bytes",
                quick=dict(cases=500000, fuzz_runs=10000), thorough=dict(cases=30000000, fuzz_runs=600000, time=600, fuzz_time=600)),
    "C25": dict(src=["c25.cpp"] + [f"c25_{i}.cpp" for i in range(1, 6)], lib=ABI, fuzz=True, oracle="hand-written protocol layout encoded, printed and converted by the reference codec",
                note="Every state-history message type: generated messages in the hand-written layout decoded natively (fresh and used objects, exact buffers, truncations), re-encoded, printed and compared member by member, and converted through an ABI of the same layout; opaque parts from every constructor, element-wise and whole, truncated inside and outside. The library has no JSON reader for these messages; their text is read back through the ABI. Not exhaustive.",
                rule="a message type and a generated message; non-trivial = more than one byte; distinct by (type, bytes)",
                quick=dict(cases=120000, fuzz_runs=3000), thorough=dict(cases=8000000, fuzz_runs=300000, time=900, fuzz_time=600)),
    "C26": dict(src=["c26.cpp"], lib=[], fuzz=True, oracle="byte-string model of position and contents after every step, under AddressSanitizer",
                note="Histories of up to 14 reads, raw reads, skips, storage reuses, availability checks, slices, copies and restores (lengths up to 2^64-1) on an input stream, and of up to 16 writes of every form on fixed, counting and vector streams alike; indentation histories. Exact-size heap buffers. Not exhaustive.",
                rule="buffer and operation history; non-trivial = at least two operations that succeed; distinct by contents and history",
                quick=dict(cases=1500000, fuzz_runs=20000), thorough=dict(cases=80000000, fuzz_runs=2000000, time=600, fuzz_time=600)),
    "C23": dict(src=["c23.cpp"], lib=ABI, fuzz=True, oracle="strict JSON parser and UTF-8 validator written from the standards",
                note="Strings of every character class and ill-formed UTF-8 at every alignment written natively as value, member, element, optional and alternative; every spelling read back; single edits of strings and of whole documents accepted exactly when well-formed; arbitrary field names and variant tags through an ABI. Lone low surrogate escapes and extreme exponents are left to RapidJSON. Not exhaustive.",
                rule="strings, an edited string text, an edited document, or ABI names; non-trivial = not empty; distinct by text",
                quick=dict(cases=500000, fuzz_runs=8000), thorough=dict(cases=30000000, fuzz_runs=800000, time=900, fuzz_time=600)),
    "C27": dict(src=["c27.cpp"], lib=[], fuzz=True, oracle="member-by-member model of the destination; hand-encoded old format",
                note="Five pairs of struct versions (widening, narrowing, strict, nested, inherited) with members in vectors, optionals, vectors of optionals, optional vectors, variants and raw data, converted into fresh and used destinations, both ways and under both choosers; types that name their serialized form read from that form, whole and truncated. Not exhaustive.",
                rule="a source value (and a used destination); non-trivial = has elements or text; distinct by contents",
                quick=dict(cases=400000, fuzz_runs=10000), thorough=dict(cases=20000000, fuzz_runs=600000, time=600, fuzz_time=600)),
    "C13": dict(src=["c13.cpp"], lib=ABI, fuzz=True, oracle="native writer and hand-written type descriptions; reference codec for exported definitions",
                note="22 native types (structs of every scalar whose add_type compiles, containers, variants, inherited, mixed-order bases, recursive) added to empty and generated ABIs: names, fields, native binary and JSON against the generated ABI and against it exported and imported again (plain and binary); trailing members old data lacks; nestings an ABI cannot express; any generated definition exported and imported twice with values converted both ways. Types whose add_type does not compile (bytes, checksums, float128, keys) are out of reach. Not exhaustive.",
                rule="a native type and value, or a generated ABI with root types and values; non-trivial = more than two bytes, or any user type; distinct by type and bytes, or definition",
                quick=dict(cases=80000, fuzz_runs=4000), thorough=dict(cases=10000000, fuzz_runs=400000, time=900, fuzz_time=600)),
    "C28": dict(src=["c28.cpp"], lib=[], fuzz=False, oracle="option semantics and name codec written from the documentation",
                note="The tool's main runs in a child process with its own standard streams: every program name, up to three options (long, short, combined, unknown, help) before, between and after up to 40 values of the asked direction (any 64-bit value; decimal, hexadecimal and octal spellings; trailing dots) mixed with invalid ones, as arguments or standard input; output, order, messages and exit status compared, and the output converted back. Signed or space-led numbers, which the number parser also takes, are not generated. Not exhaustive.",
                rule="a command line and standard input; non-trivial = some value above 9 is converted; distinct by command line and input",
                quick=dict(cases=40000, fuzz_runs=0), thorough=dict(cases=2000000, fuzz_runs=0, time=900)),
    "C29": dict(src=["c29.cpp", "c29_1.cpp", "c29_2.cpp", "c29_3.cpp"], lib=ABI, fuzz=True, ldflags=["-Wl,--allow-multiple-definition"], oracle="differential: the ordinary build in the same process; compiler 128-bit arithmetic for the helpers",
                note="The library is compiled a second time without compiler 128-bit integers, under other namespace and function names, and linked beside the ordinary build: spellings of integers around every power of two and ten (in range, out of range, ill-formed), alone and in structs, arrays, optionals, variants and extensions, both JSON modes, C API and native reader; generated ABIs with valid and damaged binary and JSON: same acceptance, same results. Error texts are not compared. Not exhaustive.",
                rule="a number text and 16 bytes, or a generated ABI and value; non-trivial = more than 20 digits, above 64 bits, or a composite value; distinct by text and bytes",
                quick=dict(cases=60000, fuzz_runs=2500), thorough=dict(cases=8000000, fuzz_runs=400000, time=900, fuzz_time=600)),
    "C30": dict(src=["c30.cpp"], lib=ABI, fuzz=False, san=["-fsanitize=thread"], oracle="the same calls run alone; ThreadSanitizer's happens-before analysis",
                note="Two to four threads, each with its own context and a history of up to 14 calls (ABIs in every form, both JSON modes, binary, hex, names, lookups, failures, destroy and create) on generated ABIs and values, alike or different, with random yields; each case in a process of its own, so that first calls also meet. Or two to four threads share types looked up beforehand (all three conversions), native values of 25 types (printed, packed, read from good and edited text and cut bytes) and texts given to every text function. Every result and error text is compared with the same run alone afterwards; a case that failed is run again (up to 40 times when replayed), since a race may need luck where code that is not instrumented is involved. Interleavings are those the scheduler gives; data races are found by ordering, not by luck of timing. Not exhaustive.",
                rule="ABIs, values and thread histories; every case is non-trivial (at least two threads convert); distinct by ABIs, values and number of calls",
                quick=dict(cases=6000, fuzz_runs=0), thorough=dict(cases=300000, fuzz_runs=0, time=900)),
    "C31": dict(src=["c31.cpp"], lib=[], fuzz=True, oracle="the message given; hand-written decimal text",
                note="Every overload of check (view, C string, string lvalue, rvalue and temporary, pointer and length, string and length, code) with generated messages (empty, NUL, long, around the small-string size, not NUL-terminated in exact heap buffers), lengths inside and past the end, and conditions: nothing happens, or the exact text is thrown. Every pair of codes of each error family has two texts, none of them the fallback. Not exhaustive.",
                rule="an overload, a condition and a message, or two error codes; non-trivial = fails with a text; distinct by overload, condition and text",
                quick=dict(cases=400000, fuzz_runs=4000), thorough=dict(cases=20000000, fuzz_runs=200000, time=600, fuzz_time=300)),
    "C32": dict(src=["c32.cpp"], lib=[], fuzz=True, oracle="token list of an independent strict JSON parser",
                note="Generated documents (every kind of token, any spelling and spacing, up to 400 levels) read by random histories: peeks, reads of the wrong kind, predicates, early get_end, dropped tokens, skipped values, from_json_object, and reads past the end; every string handed out is compared again at the end. Cut and edited texts: well-formed ones give their tokens, the others are refused before get_end passes. Lone low surrogates and extreme exponents are left to RapidJSON. Not exhaustive.",
                rule="a document and a history of calls; non-trivial = more than two tokens or characters; distinct by text",
                quick=dict(cases=400000, fuzz_runs=8000), thorough=dict(cases=20000000, fuzz_runs=600000, time=900, fuzz_time=600)),
    "C33": dict(src=["c33.cpp"], lib=ABI, fuzz=True, oracle="the reference ABI model, codec and step count; the same conversion without a callback",
                note="The C++ interface used directly on generated ABIs (from JSON and binary definitions): conversions in the three directions with a callback that counts, or throws (a std::exception or not) at a chosen call - first, last, any; long arrays of every kind of element; histories of lookups, failed lookups and uses of one abi object, whose types are compared with the model member by member and keep their identity; several values after one another in one stream. Not exhaustive.",
                rule="an ABI with a value, a list of lookups, or a list of values; non-trivial = several callback calls, a struct among the lookups, or several values; distinct by ABI and bytes",
                quick=dict(cases=60000, fuzz_runs=2500), thorough=dict(cases=6000000, fuzz_runs=300000, time=900, fuzz_time=600)),
    "C34": dict(driver="c34", src=[], fuzz=False, oracle="the naming, symbol and conversion rules written down in the check; the compiler is the observer",
                note="Generated programs: name literals, constexpr names, hashed names, symbol codes and symbols from valid texts and near misses (13th character, length, every foreign byte), constants computed from 64-bit values, and conversions between struct pairs of every member overlap and conversion kind. What must compile is compiled, run and its values compared; what must not is compiled in batches whose items are wrong for different reasons. Every verdict is confirmed in a program with that item alone. clang++ and g++. Not exhaustive.",
                rule="one declaration; non-trivial = a text of more than one character, a value above 31 or a conversion; distinct by kind and argument",
                quick=dict(rounds=6), thorough=dict(rounds=400, time=800)),
    "C35": dict(src=["c35.cpp"], lib=ABI, fuzz=True, oracle="metamorphic: the same calls in the C locale, UTC, with errno 0",
                locales=[("vf_de.UTF-8", "de_DE", "UTF-8"), ("vf_de", "de_DE", "ISO-8859-1"), ("vf_ps.UTF-8", "ps_AF", "UTF-8"), ("vf_tr", "tr_TR", "ISO-8859-9"), ("vf_tr.UTF-8", "tr_TR", "UTF-8"), ("vf_fr.UTF-8", "fr_FR", "UTF-8"), ("vf_ch.UTF-8", "de_CH", "UTF-8"), ("vf_gbk", "zh_CN", "GBK"), ("vf_sjis", "ja_JP", "SHIFT_JIS"), ("vf_et", "et_EE", "ISO-8859-1"), ("vf_ru", "ru_RU", "CP1251"), ("vf_hu", "hu_HU", "ISO-8859-2"), ("vf_ru8", "ru_RU", "KOI8-R")],
                note="Thirteen locales with other decimal points (',', the two-byte Arabic one), grouping, letter cases and multi-byte codes, compiled for the check with localedef and made current for the process, the thread or the C++ streams, or a C++ locale with facets of its own; five time zones; leftover errno values: numbers in many national spellings through the C API and the native readers, the text functions on foreign bytes, 25 native types printed, packed and read from good and edited text, and histories of C API calls on generated ABIs. Same results and messages; foreign punctuation is never read; the environment is as before. Not exhaustive.",
                rule="an environment with a number or other text, a typed value, or a history of calls; non-trivial = text that is not only digits, more than one byte, any history; distinct by text, bytes or ABIs",
                quick=dict(cases=120000, fuzz_runs=3000), thorough=dict(cases=10000000, fuzz_runs=300000, time=900, fuzz_time=600)),
    "C36": dict(src=["c36.cpp"], lib=ABI, probe="c36_probe.cpp", nosan=True, fuzz=False, ldflags=["-ldl", "-Wl,--export-dynamic-symbol=_Znw*", "-Wl,--export-dynamic-symbol=_Zna*", "-Wl,--export-dynamic-symbol=_Zdl*", "-Wl,--export-dynamic-symbol=_Zda*"], oracle="differential: four builds of the library in one process",
                builds=[("gcc_O0_zero", "g++", "-std=gnu++17", ["-O0", "-ftrivial-auto-var-init=zero"]),
                        ("clang_O2_unsigned_char_pattern", "clang++", "-std=gnu++17", ["-O2", "-funsigned-char", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"]),
                        ("gcc_O3_cxx20_pattern", "g++", "-std=gnu++20", ["-O3", "-ftrivial-auto-var-init=pattern"]),
                        ("clang_O0_cxx20_debug_containers", "clang++", "-std=gnu++20", ["-O0", "-D_GLIBCXX_DEBUG", "-ftrivial-auto-var-init=zero"])],
                note="gcc and clang, -O0 to -O3, C++17 and C++20, signed and unsigned char, with and without assertions and checked containers, uninitialised variables set to zero or a pattern, and new heap memory filled with another byte in each build: the text functions, 23 native types from good and edited bytes and text, and histories of C API calls on good and edited ABIs and values give the same results and messages. One machine: word size, byte order and C library are not varied. Not exhaustive.",
                rule="a text, a typed value, or a history of calls; non-trivial = more than one byte, any history; distinct by text, bytes or ABIs",
                quick=dict(cases=80000, fuzz_runs=0), thorough=dict(cases=8000000, fuzz_runs=0, time=1200)),
    "C37": dict(src=["c37.cpp"], lib=ABI, fuzz=False, oracle="fault injection: the nth operator new, or all from it on, throws; the calls' own results without it",
                note="every allocation made through operator new inside a C API call, a native writer or reader; malloc inside RapidJSON is not failed (it does not survive that by design). After each failure the same and other calls must give what they give in an undisturbed history, and no memory stays allocated at the end. Not exhaustive.",
                rule="a history of C API calls or a native value, and failing allocations in it; non-trivial = at least one allocation failed; distinct by ABIs, values or bytes",
                quick=dict(cases=30000, fuzz_runs=0), thorough=dict(cases=3000000, fuzz_runs=0, time=1200)),
    "C38": dict(src=["c38.cpp"], lib=ABI, fuzz=False, oracle="table of faults: one fault put into a good ABI, value, text or name, and the message that names it",
                note="good inputs with exactly one fault of a known kind, in JSON (ordered and reorderable), bytes, hex, ABI definitions and lookups. The wording is the library's own error table (convert_json_error, convert_abi_error, convert_stream_error) and the texts of the C API; where an input has several faults no message is judged. Not exhaustive.",
                rule="an ABI, a value and one fault; non-trivial = always (discarded when the fault leaves the input good); distinct by ABI, type, wire and damaged text",
                quick=dict(cases=120000, fuzz_runs=0), thorough=dict(cases=12000000, fuzz_runs=0, time=1200)),
    "C39": dict(src=["c39.cpp"], lib=ABI, fuzz=False, san=["-fsanitize-coverage=trace-pc", "-fno-builtin"],
                oracle="metamorphic: the same input at sizes n, 4n and 16n; branches executed, bytes handled and peak memory may grow in proportion only",
                note="arrays of any element in all conversions, long texts for every scalar, type names and names, ABI definitions with many of each part, structs of many members, many unknown or repeated members, histories of many calls, native containers, the token reader. Work is counted (coverage callbacks and the memory functions of libc), so results do not depend on the machine's load; the growth allowed between sizes is 1.8 times proportional (observed: at most 1.4 for memory, 1.1 for work; growth with the square is 4). Base58 text (keys, signatures) is left out: its cost is quadratic in its length by nature. Sizes up to about 20000 elements. Not exhaustive.",
                rule="an input and its size n; non-trivial = measured at three sizes; distinct by family, element and n",
                quick=dict(cases=30000, fuzz_runs=0), thorough=dict(cases=1500000, fuzz_runs=0, time=1200)),
    "C40": dict(src=["c40.cpp"], lib=ABI, fuzz=True, oracle="differential and metamorphic: ordered and reorderable mode, binary and hex, native and ABI-driven routes; conversion to and fro",
                note="Bytes and JSON texts of generated values of generated ABIs (every built-in, structs, variants, optionals, arrays, extensions, aliases) and of 14 native types, untouched or with one to four edits: bytes changed, inserted, removed, repeated, longer spellings of counts; members and elements removed, repeated, swapped, exchanged, grafted; near misses of numbers, times, amounts, hex; characters. What is accepted is compared between all routes and converted to and fro until it must be the same. Values without a text (invalid symbols, years past 9999) and times finer than their text are left out of the last step only. Structs without any bytes are excluded (C05 finding). Not exhaustive.",
                rule="an ABI or native type and edited bytes or text; non-trivial = edited; distinct by ABI, type and bytes or text",
                quick=dict(cases=200000, fuzz_runs=3000), thorough=dict(cases=15000000, fuzz_runs=300000, time=900, fuzz_time=600)),
}
