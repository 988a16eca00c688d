"""What each check analyses: feature configurations, entry points of the harness, obligation kinds, floors."""

LIB = ["m_bus_core", "wired_mbus_link_layer", "wireless_mbus_link_layer", "m_bus_application_layer", "m_bus_parser"]
FRONT = ["m_bus_parser_cli", "m_bus_parser_wasm_pack", "pymbusparser"]
CONFIGS = {
    "std": {"dir": "harness", "target": "std", "cargo": [], "records": LIB, "what": "std, serde, decryption"},
    "core": {"dir": "harness", "target": "core", "cargo": ["--no-default-features"], "records": LIB, "what": "no optional features"},
    "pbe": {"dir": "harness", "target": "pbe", "cargo": ["-F", "pbe"], "records": LIB, "what": "std, serde, decryption, plaintext-before-extension"},
    "web": {"dir": "harness", "target": "web", "cargo": ["-F", "web"], "records": LIB + ["m_bus_parser_wasm_pack"], "what": "std, serde, decryption and the WebAssembly front end"},
    "cli": {"dir": "build/front-cli", "target": "cli", "front": ("/repo/cli", "main.rs", "cli"), "cargo": ["-F", "full"], "crate": "m_bus_parser_cli", "records": LIB, "what": "the command line program"},
    "python": {"dir": "build/front-python", "target": "python", "front": ("/repo/python", "lib.rs", "python"), "cargo": ["-F", "full"], "crate": "pymbusparser", "records": LIB, "what": "the Python bindings"},
    "front": {"dir": "/repo", "target": "front", "cargo": ["--workspace", "--lib", "--bins"], "crate": "m_bus_parser_cli", "records": LIB + FRONT, "what": "the whole workspace with its command line, WebAssembly and Python front ends"},
    "fix": {"dir": "fixtures", "target": "fix", "cargo": [], "crate": "fixtures", "records": [], "what": "examples of what the rules report"},
}

TRUSTED = [
    "the front end of rustc (types, MIR construction, trait resolution)",
    "the analyser in /verif/driver (term normalisation, fact entailment, transfer functions)",
    "the models of library operations in driver/src/models.rs and harness/src/models.rs",
    "the specifications in harness/src/c*.rs",
]

PARSE = [(c, "c01::" + f) for c in ("std", "core", "pbe") for f in ("wired", "wireless", "strip", "app", "record", "record_with_header", "records", "records_with_header", "codes")
         if c != "pbe" or "record" in f] + [("std", "c01::echo"), ("std", "c01::decrypt")]

PROPS = {
    "C01": {
        "jobs": PARSE,
        "kinds": ["panic"],
        "rule": "every panic edge (overflow, bounds, unwrap, capacity, division, slice range) reachable from the parsing entry points and accessors is refuted by the facts holding there",
        "floor": 3000,
    },
    "C03": {
        "jobs": PARSE,
        "kinds": ["loop", "recursion"],
        "rule": "every loop reachable from the parsing entry points has a quantity that strictly changes with each round and is bounded, or a fixed number of rounds; no call path re-enters a function",
        "floor": 150,
    },
    "C04": {
        "jobs": [("std", "c04::accepted"), ("std", "c04::long"), ("std", "c04::short"), ("std", "c04::single")],
        "kinds": ["verify"],
        "rule": "the facts holding wherever the parser returns a frame imply every integrity condition, and those conditions imply that a frame is returned",
        "reach": [("c04::accepted", "single"), ("c04::accepted", "short"), ("c04::accepted", "long"), ("c04::long", "control"), ("c04::long", "long"), ("c04::short", "short"), ("c04::single", "single")],
        "floor": 24,
    },
    "C05": {
        "jobs": [("std", "c05::" + f) for f in ("accepted", "wellformed", "trailing", "first_block", "strips", "one_block", "two_blocks", "tail", "unverified")],
        "kinds": ["verify"],
        "rule": "frames: the length byte, the header and an independently written checksum decide acceptance and the extent of the payload, for every length; format A: the first block for every length, the data of all blocks for frames of one and two blocks of each length",
        "reach": [("c05::accepted", "trailing checksum"), ("c05::accepted", "no trailing checksum"), ("c05::wellformed", "accepted"), ("c05::trailing", "found"), ("c05::trailing", "not found"), ("c05::first_block", "stripped"), ("c05::strips", "stripped"), ("c05::one_block", "stripped"), ("c05::two_blocks", "stripped"), ("c05::tail", "stripped"), ("c05::unverified", "stripped")],
        "floor": 30,
    },
    "C06": {
        "jobs": [("std", "c06::" + f) for f in ("wireless_function", "wired", "wireless", "long_header", "short_header", "no_header", "fixed", "complete", "reset", "ell1", "ell2", "ell3", "kinds")],
        "kinds": ["verify"],
        "rule": "every field of a typed header derived from the parser is the term of the bytes at its place in the frame, for every content and length; headers that do not fit are refused and complete ones are accepted",
        "reach": [("c06::wired", "short"), ("c06::wired", "long"), ("c06::wireless", "wireless"), ("c06::wireless_function", "function"), ("c06::wireless_function", "no function"), ("c06::long_header", "long header"), ("c06::long_header", "no manufacturer"), ("c06::long_header", "refused"), ("c06::short_header", "short header"), ("c06::no_header", "no header"), ("c06::fixed", "fixed"), ("c06::fixed", "refused"), ("c06::complete", "complete"), ("c06::reset", "reset"), ("c06::ell1", "short header"), ("c06::ell1", "no header"), ("c06::ell2", "session"), ("c06::ell3", "receiver"), ("c06::kinds", "short"), ("c06::kinds", "refused")],
        "floor": 40,
    },
    "C07": {
        "jobs": [("std", "c07::" + f) for f in ("records", "second", "first", "record", "record_with_header", "field", "special", "fixed", "extended", "variable", "short", "chains", "tables", "text_units", "text_unit_alone")],
        "kinds": ["verify"],
        "rule": "for payloads of any length: records are parts of the payload, start with its bytes, do not overlap, are not empty, start at the first byte that has a meaning, and nothing follows an error; for every coding, every announced length and every chain of up to ten extension bytes a record is exactly its header and data and the next one starts where it ends",
        "reach": [("c07::records", "record"), ("c07::records", "error"), ("c07::records", "end"), ("c07::record", "record"), ("c07::first", "record"), ("c07::second", "record"), ("c07::special", "record")] + [("c07::" + f, l) for f in ("fixed", "extended", "variable", "chains", "tables", "text_units") for l in ("record", "following", "last")] + [("c07::short", "short")],
        "floor": 60,
        "note": "position, order, extent and the effect of an error are shown for payloads of any length; that a record is exactly its header and data is shown for every coding, announced length, table entry and chain of up to ten extension bytes, with the record and its successor at the start of the payload; nothing is executed",
    },
    "C08": {
        "jobs": [("std", "c08::" + f) for f in ("int8", "int16", "int24", "int32", "int48", "int64", "with_header", "bcd2", "bcd4", "bcd6", "bcd8", "bcd12", "bcd_with_header", "not_bcd", "real", "widths")],
        "kinds": ["verify"],
        "rule": "for every content of the field the value derived from the decoder is the same term as the one of an independently written decoder, its size is the declared width, and short fields and digits above nine are errors",
        "reach": [("c08::int8", "integer"), ("c08::int64", "integer"), ("c08::bcd2", "number"), ("c08::bcd12", "number"), ("c08::bcd_with_header", "number"), ("c08::not_bcd", "not decimal"), ("c08::real", "real"), ("c08::widths", "record")],
        "floor": 40,
    },
    "C09": {
        "jobs": [("std", "c09::" + f) for f in ("date", "date_time", "date_time_seconds", "time", "records")],
        "kinds": ["verify"],
        "rule": "every component of a date or time derived from the decoder is the term of the bits the standard assigns to it, for every bit pattern",
        "reach": [("c09::date", "date"), ("c09::date_time", "date-time"), ("c09::date_time_seconds", "date-time with seconds"), ("c09::time", "time"), ("c09::records", "record")],
        "floor": 20,
    },
    "C10": {
        "jobs": [("std", "c10::" + f) for f in ("field", "chain", "endless")],
        "kinds": ["verify"],
        "rule": "storage number, tariff and subunit derived from the parser are the terms of an independently written assembly for every chain of up to ten extension bytes; function and coding for every information byte; chains that do not end are errors",
        "reach": [("c10::field", "field"), ("c10::chain", "chain"), ("c10::endless", "endless")],
        "floor": 10,
    },
    "C11": {
        "jobs": [("std", "c11::" + f) for f in ("device_type", "security_mode", "configuration", "manufacturer", "function", "format_names")],
        "kinds": ["verify"],
        "rule": "for every code the typed value derived from the conversion functions is the one of the standard's table, and the inverse conversion yields the code",
        "reach": [("c11::device_type", "device type"), ("c11::security_mode", "security mode"), ("c11::configuration", "configuration field"), ("c11::manufacturer", "manufacturer"), ("c11::manufacturer", "no manufacturer"), ("c11::function", "function"), ("c11::format_names", "format")],
        "floor": 30,
    },
    "C12": {
        "jobs": [("std", "c12::" + f) for f in ("primary", "main_table", "alternate_table", "extensions", "offsets")],
        "kinds": ["verify"],
        "rule": "for every code the quantity, the units with their exponents and the power of ten derived from the decoder are the ones of an independently written table, alone and with the extension bit set",
        "reach": [("c12::" + f, l) for f in ("primary", "main_table", "alternate_table") for l in ("alone", "extended")] + [("c12::extensions", l) for l in ("primary", "continued", "second", "main table", "alternate table")] + [("c12::offsets", "offset")],
        "floor": 40,
    },
    "C13": {
        "jobs": [("std", "c13::" + f) for f in ("block_long", "block_short", "short_header", "long_header", "wired", "wired_short", "extended", "extended_address", "short_header_key", "wired_key")],
        "kinds": ["verify"],
        "rule": "for every security mode but 0 and every ciphertext, a block exposes no records and the document of a frame decoded without a key has none, is partial and says why; with a key the records and the plaintext shown are those the cipher left, and a mode that cannot be decrypted is refused",
        "reach": [("c13::block_long", "long block"), ("c13::block_short", "short block")] + [("c13::" + f, "no key") for f in ("short_header", "long_header", "wired", "wired_short", "extended", "extended_address")] + [("c13::" + f, l) for f in ("short_header_key", "wired_key") for l in ("key", "records", "records with a vector", "error")],
        "floor": 40,
        "budget": 150,
        "note": "every security mode and every ciphertext, on radio and wired frames with a short, long or extended header and a payload of two cipher blocks (the blocks themselves: any length); the fields of the link layer are fixed where they only select how identity is printed; nothing is executed",
        "trusted": ["the block cipher of the crates aes and cbc, replaced by a stand-in that leaves the vector and the key"],
    },
    "C16": {
        "jobs": [("std", "c16::" + f) for f in ("mermaid_text", "mermaid_unit", "mermaid_marks", "xml_text", "xml_unit", "xml_marks", "xml_header", "older_text")] + [("web", "web::highlight")],
        "kinds": ["verify"],
        "rule": "the text of the rendered document, exact for every choice of the meter's text, has the quotes, tags and lines it has for a harmless text, and every ampersand in it starts a predefined or numeric entity",
        "reach": [("c16::mermaid_text", "text"), ("c16::mermaid_unit", "unit"), ("c16::mermaid_marks", "text"), ("c16::xml_text", "text"), ("c16::xml_unit", "unit"), ("c16::xml_marks", "text"), ("c16::xml_header", "header"), ("c16::older_text", "text"), ("web::highlight", "csv")],
        "floor": 30,
        "budget": 300,
        "note": "text values and text units with any byte at any of three places and any three of twelve significant characters; every byte of the header that reaches the XML; the comma separated values the browser highlights. JSON, YAML and the highlighting of those are written by libraries that escape on their own and are trusted; nothing is executed",
    },
    "C17": {
        "jobs": [("std", "c17::" + f) for f in ("table", "inputs", "formats", "special", "modes", "records", "widths")]
        + [("web", "web::" + f) for f in ("failures", "keys", "decode")]
        + [("cli", "front::" + f) for f in ("failures", "keys", "no_file", "no_input")]
        + [("python", "front::" + f) for f in ("failures", "keys", "byte_keys", "decode", "records")],
        "kinds": ["verify"],
        "rule": "every kind of failure has its code and its layer whatever it says; what is wrong with the input, the format, the key or the width decides which it is; the error a front end raises, followed from the library to the object it throws or the text and status it ends with, carries that same code",
        "reach": [("c17::" + a, b) for a, b in (("table", "table"), ("inputs", "failure"), ("formats", "failure"), ("special", "failure"), ("modes", "failure"), ("modes", "decrypted"), ("records", "failure"), ("widths", "failure"))] + [("web::failures", "failure"), ("web::keys", "refused"), ("front::failures", "failure"), ("front::keys", "refused"), ("front::no_file", "failure"), ("front::no_input", "failure"), ("front::byte_keys", "failure"), ("front::records", "failure")],
        "floor": 30,
        "note": "every kind of failure; fourteen broken inputs in eight formats through each front end, twelve malformed keys; the objects of Python and JavaScript and the process's output are modelled, nothing is executed",
        "trusted": ["the models of the surroundings of the front ends in driver/src/front.rs: argument parsing by clap, JavaScript values, Python exceptions, printing, reading a file"],
    },
    "C18": {
        "jobs": [("web", "web::" + f) for f in ("render", "choices", "keys", "decode")]
        + [("cli", "front::" + f) for f in ("render", "choices", "terminal", "keys", "file")]
        + [("python", "front::" + f) for f in ("choices", "byte_choices", "older", "keys", "byte_keys", "decode", "records")],
        "kinds": ["verify"],
        "rule": "what an entry point returns, throws or prints equals what the library makes of the same frame with the caller's format, key, width and choice of names; a malformed key is refused whatever the frame",
        "reach": [("web::render", "text"), ("web::choices", "text"), ("web::keys", "refused"), ("web::decode", "decoded"), ("front::render", "text"), ("front::choices", "text"), ("front::terminal", "text"), ("front::keys", "refused"), ("front::file", "text"), ("front::byte_choices", "text"), ("front::older", "text"), ("front::decode", "decoded"), ("front::records", "records")],
        "floor": 30,
        "note": "eight formats, three frames (with a name to enrich, in the clear, encrypted), five widths, with and without a key and names, for every entry point; twelve malformed keys; serialised text is compared by the value that was serialised, CSV and annotated JSON are not compared; nothing is executed",
        "trusted": ["the models of the surroundings of the front ends in driver/src/front.rs: argument parsing by clap, JavaScript values, Python objects and exceptions, printing, reading a file", "equal values are serialised to equal text by serde_json, serde_yaml and serde_wasm_bindgen"],
    },
    "C20": {
        "jobs": [("std", "c20::" + f) for f in ("single", "short", "headers", "records", "records_extended", "records_special", "extended", "plain_radio", "checked_radio", "checked_blocks", "more_bytes")],
        "kinds": ["verify"],
        "rule": "the segments derived for a frame begin at zero, each begins where the one before ends, and the last ends with the frame: short frames with any content; every control information code with its header cut off at every length, with and without encryption; every first byte of a record with 14 second bytes (tables, extensions, text units, special functions) and 10 third bytes, cut off at every length; radio frames of up to 52 bytes of payload without checksums, with one at the end and with one after each block, the records straddling the blocks",
        "reach": [("c20::" + f, "annotated") for f in ("single", "short", "headers", "records", "records_extended", "records_special", "extended", "plain_radio", "checked_radio", "checked_blocks", "more_bytes")],
        "floor": 25,
    },
    "C21": {
        "jobs": [("std", "c21::" + f) for f in ("wired_records", "radio_records", "unknown", "headers", "encrypted", "unused", "bare")],
        "kinds": ["verify"],
        "rule": "the state and the diagnostics of the document, as terms of the frame, are complete and without warnings if and only if the application layer parses, every record parses and nothing is left encrypted; the one warning names which of them failed",
        "reach": [("c21::" + a, b) for a, b in (("wired_records", "complete"), ("wired_records", "partial"), ("radio_records", "complete"), ("radio_records", "partial"), ("headers", "complete"), ("headers", "partial"), ("unknown", "parsed"), ("unknown", "not parsed"), ("encrypted", "encrypted"), ("unused", "unused"), ("unused", "partial"), ("bare", "short"), ("bare", "acknowledgement"))],
        "floor": 25,
        "note": "twenty payloads, whole and broken in every coding, behind every header that carries records, wired and wireless; every control information byte over a free payload; every security mode over a free ciphertext; header fields free; nothing is executed",
    },
    "C23": {
        "jobs": [("std", "c23::" + f) for f in ("long", "long_payload", "short", "single", "control", "wireless", "blocks", "record", "hex3", "hex4", "hex5", "hex6", "prefixed", "foreign", "blank")],
        "kinds": ["verify"],
        "rule": "the text of the echoed frame, payload and record, kept as terms of the input bytes, is their upper-case hexadecimal; a text of hexadecimal digits, separators, prefixes and foreign characters is read as exactly the bytes it spells, or refused",
        "reach": [("c23::" + a, b) for a, b in (("long", "long"), ("long_payload", "payload"), ("short", "short"), ("single", "single"), ("control", "control"), ("wireless", "radio"), ("blocks", "blocks"), ("record", "record"), ("record", "record with data"), ("hex3", "bytes"), ("hex3", "refused"), ("hex4", "bytes"), ("hex4", "refused"), ("hex5", "bytes"), ("hex5", "refused"), ("hex6", "bytes"), ("hex6", "refused"), ("prefixed", "prefixed"), ("prefixed", "comma"), ("foreign", "foreign"), ("blank", "blank"))],
        "floor": 40,
        "note": "frames of one length per kind with every byte of the payload free; every text of up to four characters, classed as zero, digit, upper, lower, space, colon, x or other, of five without other and of six of zeros, letters, spaces and x, every character of its class at once; nothing is executed",
    },
    "C24": {
        "jobs": [("std", "c24::" + f) for f in ("number", "vector", "long_header", "long_device", "short_header", "keys", "extent", "table")],
        "kinds": ["verify"],
        "rule": "the key and the vector that reach the block cipher, followed through decryption as terms of the header bytes, are the ones of the standard for mode 5 and mode 7; every other mode, a missing key and a key of another length are refused with nothing written; the extent of the plaintext for every payload of up to 80 bytes",
        "reach": [("c24::number", "number"), ("c24::vector", "zero"), ("c24::vector", "derived")] + [("c24::" + f, l) for f in ("long_header", "short_header") for l in ("derived", "zero", "refused")] + [("c24::long_device", "decrypted"), ("c24::keys", "none"), ("c24::keys", "length"), ("c24::extent", "room"), ("c24::extent", "no room"), ("c24::extent", "blocks")] + [("c24::table", l) for l in ("first", "second", "another manufacturer", "another number")],
        "floor": 45,
        "note": "every header and every key symbolically; payloads of every length up to 80 bytes; nothing is executed",
        "trusted": ["the block cipher of the crates aes and cbc, replaced by a stand-in that records the key and the vector it is given"],
    },
    "C25": {
        "jobs": [("std", "c25::" + f) for f in ("byte", "word", "three", "four", "six", "eight", "bcd2", "bcd4", "bcd6", "bcd8", "bcd12", "variable", "variable_bcd", "long_bcd", "scales", "offsets")],
        "kinds": ["verify"],
        "rule": "the text of the value, followed through the decimal arithmetic by propagation of constants and digit strings, is the shortest decimal of the transmitted integer times the power of ten of its unit and corrections",
        "reach": [("c25::" + a, b) for a, b in (("byte", "one byte"), ("word", "two bytes"), ("three", "three bytes"), ("four", "four bytes"), ("six", "six bytes"), ("eight", "eight bytes"), ("bcd2", "two digits"), ("bcd4", "four digits"), ("bcd6", "six digits"), ("bcd8", "eight digits"), ("bcd12", "twelve digits"), ("variable", "an integer with its length"), ("variable_bcd", "digits with their length"), ("scales", "a corrected scale"), ("offsets", "an added constant"))],
        "floor": 35,
        "note": "a finite set of values: every byte and every two-digit number at eight scales; wider codings over the edge values of each of their bytes (9800 values in all), every scale of energy and volume with every correction; nothing is executed",
    },
    "C26": {
        "jobs": [("std", "c26::" + f) for f in ("records", "header", "bare", "text", "broken", "refused", "preset")],
        "kinds": ["verify"],
        "rule": "the text of the table, exact for every width, has no line with more characters than the width, and as many letters and digits as at any other width of the same layout; below 32 columns the result is the error for an invalid option",
        "reach": [("c26::" + a, b) for a, b in (("records", "table"), ("header", "table"), ("bare", "table"), ("text", "table"), ("broken", "table"), ("refused", "refused"), ("preset", "preset"))],
        "floor": 12,
        "budget": 300,
        "note": "every width from 0 to 140 for documents with and without records, header, enrichment and diagnostics; twelve widths of the three layouts for texts of forty control or printable characters and a line break at any place; characters of the Latin alphabet, nothing is executed",
    },
}

TECH = "abstract interpretation of monomorphic MIR (value numbering, linear inequalities, value sets) against specifications"
NOTE = "every obligation is discharged for all inputs of any length by a sound dataflow analysis of the compiled MIR; nothing is executed"
PROPS["C02"] = {
    "jobs": [("std", "c02::" + f) for f in ("json", "csv", "mermaid", "annotated_text")] + [j for p in ("C13", "C16", "C17", "C18", "C20", "C21", "C23", "C25", "C26") for j in PROPS[p]["jobs"]],
    "kinds": ["panic"],
    "rule": "every arithmetic overflow, index, slice boundary, unwrap, character boundary and explicit panic that a path from an entry point reaches is discharged",
    "note": "the frames and choices of the checks C13, C16, C17, C18, C20, C21, C23, C25 and C26 through the library and the three front ends, and records with 64 first bytes, nine units and two values as JSON, CSV, Mermaid and annotated text; the serialisers are trusted; nothing is executed",
    "trusted": ["serde_json, serde_yaml and csv do not panic on the documents", "the models of the surroundings of the front ends in driver/src/front.rs"],
    "reach": [("c02::" + f, "text") for f in ("json", "csv", "mermaid", "annotated_text")] + [r for p in ("C13", "C16", "C17", "C18", "C20", "C21", "C23", "C25", "C26") for r in PROPS[p]["reach"]],
    "floor": 400,
}
PROPS["C02"]["jobs"] = sorted(set(PROPS["C02"]["jobs"]))

NA = {}

FRONTEND = "the front end of rustc (types, MIR construction, trait resolution)"
QUERY = {
    "C14": {"technique": "interprocedural dataflow (taint) analysis over monomorphic MIR with access paths and function summaries",
            "note": "Every path of every function reached from an entry point that is given a key, in the library and the three front ends; explicit flows, branches and panic messages. The ciphers' own code is trusted to mix the key only into the plaintext.",
            "trusted": [FRONTEND, "the flow analysis in driver/src/taint.rs", "the crates aes, cbc, cipher and crypto_common use the key only to transform the payload", "the error of the hexadecimal decoders names a position or a character, not the key", "library functions without a body write only to what they are given"]},
    "C15": {"technique": "effect analysis: reachability over the call graph of monomorphic MIR from every function of the library",
            "note": "Every function of every library crate, with and without features; effects of the standard library are judged at the call that enters it.",
            "trusted": [FRONTEND, "the call graph collector in driver/src/query.rs", "library functions without a body in core and alloc, and those of std listed in tools/query.py, are pure", "processor feature detection in memchr, std_detect, aes and zmij selects between equivalent implementations"]},
    "C19": {"technique": "query over the crates the compiler resolved, and reachability over the call graph of monomorphic MIR",
            "note": "The configuration without optional features, all five library crates and their dependencies.",
            "trusted": [FRONTEND, "the list of linked crates the compiler resolved"]},
    "C22": {"technique": "query over the expanded and type-checked syntax tree of every crate of the workspace",
            "note": "All crates in all feature configurations; code generated by derive macros of the language and by the binding generators is listed, not judged.",
            "trusted": [FRONTEND, "the walk over the expanded syntax tree in driver/src/query.rs", "code generated by derive macros of core and by the binding generators of the front ends"]},
}
