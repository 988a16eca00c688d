import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=[],observe=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=hook)))
CORE='crates/m-bus-core/src/lib.rs'; DEC='crates/m-bus-core/src/decryption.rs'
WI='crates/wired-mbus-link-layer/src/lib.rs'; WL='crates/wireless-mbus-link-layer/src/lib.rs'
APP='crates/m-bus-application-layer/src/lib.rs'; DI='crates/m-bus-application-layer/src/data_information.rs'
VI='crates/m-bus-application-layer/src/value_information.rs'; DR='crates/m-bus-application-layer/src/data_record.rs'
VUD='crates/m-bus-application-layer/src/variable_user_data.rs'; ELL='crates/m-bus-application-layer/src/extended_link_layer.rs'
OUT='src/output.rs'; ANN='src/annotate.rs'; MD='src/mbus_data.rs'; XML='src/rscada_xml.rs'
CLI='cli/src/main.rs'; PY='python/src/lib.rs'; WA='wasm/src/lib.rs'; HL='wasm/src/highlight.rs'

p('C01','Parsing never panics on any byte string',
 'Whatever bytes are handed to the frame parsers, the application-layer parser, the data-record parser or the typed accessors and conversions on their results, the call returns a value or an error. It never panics, overflows an arithmetic operation, indexes out of range or overruns a fixed-capacity buffer.',
 ['inputs','configurations'],'all byte slices of every length, in every feature configuration of the parser crates',
 'The set of byte strings is unbounded and the failing ones are single points (a four-byte frame, an eleventh extension byte, a zero length code); a test corpus of real meter frames contains none of them.',
 [WI,WL,APP,DI,VI,DR,VUD,ELL,CORE],
 [('frame parsing',WI+': WiredFrame::try_from, validate_checksum'),('wireless parsing',WL+': WirelessFrame::try_from, strip_format_a_crcs'),('application layer',APP+': UserDataBlock::try_from'),('records',DR+': DataRecord::parse; '+DI+': DataFieldCoding::parse; '+VI+': ValueInformation::try_from')],
 [],['return value of each public parsing function'])
p('C02','Decoding and rendering never panic in any output format',
 'Decoding a frame or a record payload and rendering it in any of the output formats (JSON, YAML, table, CSV, Mermaid, XML, annotated JSON, annotated text), with or without a key and at any width a terminal has, returns text or an error for every input. It never panics.',
 ['inputs','configurations'],'all byte strings and hex strings, all formats, all keys, all widths of a terminal',
 'Rendering code slices strings, pads columns and shifts decimals based on values that come from the frame; only particular lengths, exponents or widths hit the failing slice.',
 [OUT,ANN,MD,XML],
 [('decode',OUT+': decode_bytes, build_output, value_output'),('render',OUT+': render_bytes, render_table, apply_power10'),('annotation',ANN+': annotate_frame, render_annotations'),('xml',XML+': render_from_bytes'),('legacy wrappers',MD+': serialize_mbus_data')],
 [],['return of decode_*/render_* and of the legacy wrappers'])
p('C03','Every parse terminates with bounded work and stack',
 'Every loop and iterator in the parser makes progress on every input: the record iterator strictly advances through its payload until it is exhausted, so it yields at most one item per payload byte. Call depth does not grow with the input.',
 ['inputs'],'all byte strings, including nested layers and zero-length records',
 'Non-termination and stack exhaustion need adversarial repetition that no sample frame contains, and a test can only time out, not show termination.',
 [APP,DI,VI,WL,ANN,OUT,XML],
 [('record iteration',APP+': DataRecords::next'),('layer nesting',APP+': UserDataBlock::try_from; '+ANN+': annotate_application_layer'),('CRC block walk',WL+': strip_format_a_crcs')],
 [('record offset','position of the next unread payload byte',APP+': DataRecords.offset')],['iterator next()'])
p('C04','A wired frame is accepted only if every integrity check holds',
 'A wired long or control frame is accepted only when both start bytes are 0x68, both length bytes agree and match the actual size, the checksum byte equals the modulo-256 sum of all bytes from the control field up to the checksum, and the last byte is 0x16. A short frame is accepted only when it is exactly five bytes starting 0x10 with a correct checksum over control and address and stop byte 0x16, and the single-character frame only for 0xE5; everything else is an error.',
 ['inputs'],'all byte strings',
 'Tests try a few corrupted frames; a dropped or weakened check only shows for the corruption it guarded against.',
 [WI],[('acceptance checks',WI+': WiredFrame::try_from'),('checksum',WI+': validate_checksum')],[],['Ok result of the wired frame parser'])
p('C05','Wireless framing: CRC-checked blocks and exact length',
 'Stripping of the block checksums yields a result only if the first ten bytes verify against their CRC, and a later block is shortened by its two CRC bytes only if exactly those bytes verify; no payload byte is dropped, duplicated or reordered otherwise. A wireless frame is accepted only when its length byte equals the number of bytes that follow, and its payload is everything after the ten-byte header except a trailing frame CRC that verifies over all preceding bytes.',
 ['inputs'],'all byte strings and all output buffer sizes',
 'Block boundaries, partial last blocks and wrong CRCs multiply; fixtures cover a handful of intact frames.',
 [WL],[('CRC stripping',WL+': strip_format_a_crcs'),('frame CRC',WL+': trailing_frame_crc_start'),('frame parse',WL+': WirelessFrame::try_from')],[],['returned slice / Ok result'])
p('C06','Link and transport header fields come from their specified bytes',
 'For every accepted frame the reported function, address, manufacturer, identification number, version, device type, access number, status, configuration field and extended-link-layer fields are decoded from exactly the bytes and bits the standard assigns to them, and the payload handed to the record layer starts right after the header and ends at the end of the block.',
 ['inputs'],'all byte strings accepted by the parsers, for every control-information value',
 'A swapped or shifted byte yields plausible values; tests check a few frames in which neighbouring fields often coincide or are zero.',
 [WI,WL,APP,ELL,CORE],[('wired fields',WI+': WiredFrame::try_from, Address::from'),('wireless fields',WL+': ManufacturerId::try_from'),('transport header',APP+': UserDataBlock::try_from'),('ELL',ELL+': ExtendedLinkLayer::parse'),('configuration',CORE+': ConfigurationField')],[],['public fields of parsed frames and blocks'])
p('C07','Records tile the payload without gaps, overlaps or overruns',
 'The records produced from a payload cover it left to right: each record consists of the bytes immediately following the previous one apart from skipped idle fillers and reserved single-byte codes, its header and data parts partition its bytes, and no record reaches beyond the payload. When a record cannot be parsed, an error is reported instead of silently ending or resynchronising, and nothing after it is presented as a record.',
 ['inputs'],'all payload byte strings',
 'A wrong size by one byte only shifts the remaining records, which then still decode into plausible values.',
 [APP,DR,DI,VI],[('iteration',APP+': DataRecords::next'),('record sizes',DR+': DataRecord::parse, DataRecordHeader::get_size; '+DI+': DataFieldCoding::parse; '+VI+': ValueInformationBlock::get_size')],[('offset','next unread byte',APP+': DataRecords.offset')],['raw_bytes of each record'])
p('C08','Integer, BCD and real values decode to the exact transmitted number',
 'An integer field of 1, 2, 3, 4, 6 or 8 bytes decodes to the little-endian two\'s-complement number in those bytes, a BCD field of 2 to 12 digits to the decimal number of its digits with invalid digits rejected, and a 32-bit real to the float with those bits. A field shorter than its declared width is an error, and each consumes exactly its declared width.',
 ['inputs'],'all values of all fixed-width codings, and all field lengths',
 'The value space is up to 2^64 per coding; tests sample a few values and sign or carry errors hide in particular widths.',
 [DI],[('decoding',DI+': integer_to_value_internal, bcd_to_value_internal, DataFieldCoding::parse')],[],['DataType value and size'])
p('C09','Dates and times decode from the specified bit fields',
 'Type G dates, type F and type I date-times and times decode day, month, year, hour, minute and second from exactly the bits EN 13757-3 assigns to them, all-ones or zero wildcard patterns being reported as "every", for every bit pattern.',
 ['inputs'],'all bit patterns of all date/time codings',
 'Each coding has 2^16 to 2^48 patterns; a misplaced year bit is only visible for years and bytes no test uses.',
 [DI,XML],[('date decoding',DI+': DataFieldCoding::parse'),('xml dates',XML+': date_g_decode, date_f_decode, date_i_decode')],[],['DataType date values'])
p('C10','Storage, tariff and subunit numbers are assembled from all extension bytes',
 'The storage number of a record consists of bit 6 of the DIF followed by four bits per extension byte, the tariff of two bits per extension byte and the subunit of one bit per extension byte, least significant first, for every extension chain up to the maximum; function and data coding come from DIF bits 5-4 and 3-0.',
 ['inputs'],'all DIF/DIFE chains',
 'Chains of several extension bytes with distinct bits in every position do not occur in the corpus.',
 [DI,XML],[('assembly',DI+': DataInformation::try_from'),('xml assembly',XML+': storage_number, tariff, device')],[],['DataInformation fields'])
p('C11','Code tables are total and round-trip',
 'Device type, security mode, manufacturer code, function code, output-format name and similar code tables map every code to the same meaning in both directions: converting a code to its typed value and back yields the code, distinct codes never collapse into one named meaning, and reserved codes keep their numeric value.',
 ['inputs'],'all values of every code',
 'Tests look at a few entries per table; one wrong entry among 256 is invisible to them.',
 [CORE,APP,OUT],[('device types',CORE+': DeviceType From<u8>/From<DeviceType>'),('security modes',CORE+': SecurityMode, ConfigurationField'),('manufacturer codes',CORE+': ManufacturerCode::from_id/to_id'),('formats',OUT+': OutputFormat::as_str/from_str')],[],['conversion results'])
p('C12','Value information gives the standard unit and scale for every code',
 'For every primary value-information code, and for the codes of the two extension tables and the combinable extensions that carry a unit or a scale, the typed record reports the quantity, units and power-of-ten scale of EN 13757-3, and the extension bit never changes them.',
 ['inputs'],'all primary codes, the codes of the FD and FB tables and the combinable extensions, with and without further extensions',
 'Each of the several hundred codes is its own case and the corpus exercises a few dozen.',
 [VI],[('primary and extension tables',VI+': ValueInformation::try_from'),('combinable extensions',VI+': consume_orthhogonal_vife')],[],['ValueInformation: labels, units, decimal_scale_exponent, decimal_offset_exponent'])
p('C13','Encrypted payload is never presented as decoded records',
 'When the transport header announces encryption and the payload has not been decrypted with a supplied key, no record, value or unit is decoded from the ciphertext: the block exposes no records, and the canonical document has none, reports the payload as encrypted and is marked partial. Records of an encrypted frame are always derived from the decrypted bytes.',
 ['inputs','configurations'],'all frames whose configuration field selects a security mode, with no key, wrong key or right key, all canonical formats',
 'Ciphertext is arbitrary bytes, so only a path argument shows that it can never reach the record decoder; tests cover a few encrypted frames.',
 [APP,OUT,MD,ANN],[('gate',APP+': UserDataBlock::data_records, is_encrypted'),('decode',OUT+': decode_bytes, prepare_security, build_output')],[],['records in DecodedOutput'])
p('C14','Key material never leaves through any output',
 'The bytes of a supplied decryption key flow only into the cipher: no rendered document, diagnostic, error or exception contains them or depends on them other than through the decrypted plaintext, the fact that a key was supplied and the refusal of malformed key text.',
 ['inputs','configurations'],'all keys and all frames, all formats and all error paths',
 'A leak on one error or debug path needs that path to be taken with a known key and the text to be searched; tests do not enumerate paths.',
 [OUT,MD,DEC,CLI,PY,WA],[('key plumbing',OUT+': DecodeOptions.key, decrypt_user_data; '+DEC+': StaticKeyProvider, EncryptedPayload::decrypt_into')],[('key','16 key bytes',OUT+': DecodeOptions.key')],['documents, errors, Debug impls'])
p('C15','Results depend only on the arguments',
 'Parsing, decoding and rendering are pure: the result is a function of the input bytes and the options, independent of earlier calls, other threads, the clock, the environment, randomness, files or memory addresses.',
 ['histories','schedules','inputs'],'all call histories and thread interleavings',
 'Hidden state or iteration-order dependence shows only across particular histories, processes or schedules.',
 [CORE,WI,WL,APP,OUT,ANN,MD,XML],[('library code','all library crates')],[],['any public function'])
p('C16','Text from the meter is escaped in every markup format',
 'Any text that can be influenced by the frame is escaped for the markup it is placed into: it cannot open or close an XML element or entity, terminate a Mermaid label, or open an HTML tag in highlighted output.',
 ['inputs'],'all text values, units and labels a frame can carry',
 'Injection needs specific characters in specific fields; fixtures carry none.',
 [XML,OUT,MD,HL],[('xml',XML+': xml_encode'),('mermaid',OUT+': mermaid_escape'),('html',HL+': push_escaped_html')],[],['rendered XML, Mermaid, HTML'])
p('C17','Each failure keeps its stable code and layer in every front end',
 'Every error carries a stable machine-readable code and layer determined by the kind of failure alone, and the command line, Python and WebAssembly front ends report that same code instead of replacing, translating or swallowing it.',
 ['inputs','configurations'],'all error variants and all front ends',
 'Error paths are many and each front end wraps them separately; tests trigger a few.',
 [OUT,CLI,PY,WA],[('codes',OUT+': OutputError::code, layer'),('front ends',CLI+': main; '+PY+': error conversion; '+WA+': error_to_js')],[],['error code and layer'])
p('C18','Front ends pass the caller\'s options to the shared decoder unchanged',
 'The command line, Python and WebAssembly entry points decode and render through the one shared implementation and pass it the caller\'s format, key, width and enrichment choice; a malformed key is an error and is never ignored, truncated or padded. A blank key in the WebAssembly entry points counts as no key.',
 ['inputs','configurations'],'all option combinations of all entry points',
 'The number of option and entry-point combinations is large and the front ends are barely unit-tested.',
 [CLI,PY,WA,MD],[('cli',CLI+': main, parse_key'),('python',PY+': parse, render, extract_key'),('wasm',WA+': m_bus_decode, m_bus_render, parse_key')],[],['arguments of the shared entry points'])
p('C19','The core parser needs neither an operating system nor a heap',
 'Built without optional features, the frame, application-layer and record parsers allocate no memory and use nothing outside the core library.',
 ['configurations','inputs'],'all code reachable in the default configuration',
 'Host tests always link the standard library, so an allocation or std dependency never fails them.',
 [CORE,WI,WL,APP,'src/lib.rs'],[('crate attributes','src/lib.rs and crates/*/src/lib.rs'),('fixed-capacity buffers',VI+': ArrayVec')],[],['linkage'])
p('C20','Annotations cover every input byte exactly once, in order',
 'For every input that is annotated, the segments start at offset zero, are contiguous, do not overlap, lie within the input and end at its last byte.',
 ['inputs'],'all byte strings accepted by the annotator',
 'Truncated records, nested layers and block checksums change the segment arithmetic; tests check coverage on a few complete frames.',
 [ANN],[('segment emission',ANN+': annotate_frame and helpers')],[],['returned segments'])
p('C21','The decode state is complete only if nothing was lost',
 'A decoded document is marked complete only if the application layer parsed, every record parsed and no encrypted payload was left undecrypted; otherwise it is marked partial and carries a diagnostic that names the reason.',
 ['inputs','configurations'],'all frames, with and without key',
 'The state combines several independent failure sources over all inputs.',
 [OUT],[('state',OUT+': build_output, collect_records')],[],['decode_state and diagnostics'])
p('C22','No use of unchecked memory operations',
 'The library contains no unchecked memory access: memory safety for every input follows from the language rules alone, and no dependency is called through an unsafe interface.',
 ['inputs','schedules'],'all library code in all configurations',
 'Undefined behaviour need not fail a test that executes it.',
 [CORE,WI,WL,APP,OUT,ANN,MD,XML],[('all library code','workspace crates')],[],['-'])
p('C23','Raw bytes are echoed exactly in the canonical document',
 'Hex input is accepted only if every byte token is complete and valid, and decodes to exactly those bytes; the document echoes the original frame as upper-case hex of exactly the input bytes, and each record echoes its own header and data bytes.',
 ['inputs'],'all hex strings and frames',
 'Lenient parsing shows only for particular separators, prefixes or odd digits.',
 [OUT],[('hex input',OUT+': decode_hex_bytes, push_hex_token'),('hex output',OUT+': hex_string')],[],['bytes decoded from hex; *_hex fields'])
p('C24','Decryption uses the right IV and mode and never returns ciphertext as plaintext',
 'Decryption succeeds only for the security modes it implements, only with a key of the required length and an output buffer large enough, with the initialisation vector built from the manufacturer, identification number, version, device type and access number in the order of the standard; in every other case it returns an error.',
 ['inputs','configurations'],'all security modes, headers, payload lengths, keys and buffer sizes',
 'There are 32 modes and unbounded payload lengths; tests decrypt a few mode 5 frames.',
 [DEC,APP,OUT],[('decrypt',DEC+': EncryptedPayload::decrypt_into'),('context',APP+': decrypt_variable_data, decrypt_variable_data_with_context')],[],['DecryptionError / plaintext length'])
p('C25','Scaled values are exact decimals',
 'The decimal value in the canonical document equals the transmitted integer times its power of ten exactly: it is produced by decimal string arithmetic, never through binary floating point, for every integer and BCD coding and every scale.',
 ['inputs'],'all transmitted integers and scales',
 'Rounding only shows for large magnitudes or particular digits.',
 [OUT],[('decimal arithmetic',OUT+': exact_significand, scaled_decimal, apply_power10, signed_le_decimal')],[],['value.value of records'])
p('C26','Tables never exceed the requested width',
 'Every line of a rendered table is at most as wide as the requested width, whatever characters its cells contain, and wrapping loses no text. A requested width too small for a table is refused with an error.',
 ['inputs','configurations'],'all documents and all widths',
 'Widths and cell contents are unbounded; tests try a few widths.',
 [OUT],[('layout',OUT+': render_table, box_table, key_value_box, wrap_display')],[],['rendered table lines'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
