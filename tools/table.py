DV = "deductive verification: Verus contracts on functions extracted from the source on every run"
BS = "; beside it a bounded search on the real crate, which supplies failing inputs and is never counted as proved"
RULE = "Cases are generated from the seed: values, documents, token strings and event lists with hostile contents (quotes, delimiters, brackets, number look-alikes, multi-byte text, literals found in the current source); a case counts as distinct and non-trivial when it was not seen before in its thread and is more than an empty text or a bare scalar."
ASSUME = [
 "std functions behave as their contracts in contracts/01_stubs.rs state (str slicing, find, trim, parse, chars, formatting); f64 parsing and printing are uninterpreted functions",
 "a str holds at most isize::MAX bytes; memory is not exhausted",
 "error values are abstracted to 'is an error'; messages are not verified",
 "the extraction rules (DESIGN.md) preserve meaning",
]
T_PRIM = "thm_prim: reading the text written for a primitive gives the primitive back (p_prim(enc_prim(p, d)) == norm(p)), for every primitive and delimiter"
T_TYPE = "thm_prim_type: what is written for a string never reads back as a number, boolean or null, and conversely"
T_NUM = "thm_number: reading the text written for a number gives the normalised number back"
T_ROW = "thm_row: splitting and reading the text of a joined row gives the row back"
T_KEY = "thm_key: reading the text written for a key gives the key and its quoting flag back"
T_HDR = "thm_header: reading the text written for an array header gives its key, length, delimiter and fields back"
T_CAP = "thm_cap, thm_cap_exact: a header is read only when its declared length is at most 100,000,000, and a larger one is an error"
T_DEC = "decode_stream_sync (postcondition): the events are exactly flat(d_doc(lines, indent, strict)), and it fails only where d_doc is undefined"
T_SL = "thm_strict_lenient: where strict d_doc is defined, lenient d_doc is the same tree"
T_COUNT = "thm_counts: in every tree strict d_doc accepts, each array at any depth declares exactly the number of its items; thm_row_width: every accepted row has one cell per field; thm_array_end: no further item or row and no blank line within"
T_BLANK = "thm_blank_lenient: removing a blank line anywhere leaves the lenient tree unchanged; thm_blank_end: blank lines at the end change nothing in either mode"
T_IND = "thm_indent: strict d_doc is defined only if no content line has a tab in its indentation or an indentation that is not a multiple of the indent; thm_indent_lenient: lenient mode refuses no line for its indentation, and the spaces over a whole number of levels change nothing"
T_CAPP = "thm_cap_positions: a header above the cap makes the document, field or item undefined in both modes"
T_VALUE = "decode::try_decode (postcondition): try_decode(text, options) is Ok(v) exactly when dec_text(text, indent, strict, safe) is defined, and v is then that value; dec_text is d_doc, node and, with safe expansion, x_val"
T_BUILD = "thm_build: building from the events of a tree gives exactly its value; thm_build_refused: in an event list that becomes a value every end ends the matching start, nothing is left open, keys stand only in objects, a value in an object directly follows a key, and the list is not empty"
T_VSL = "thm_value_lenient: where the strict value of a document is defined, the lenient value is the same, with and without expansion"
T_EXP = "thm_expand_plain: where no key is an unquoted identifier path (and none is repeated) expansion changes nothing; thm_path_set: after expanding a path the value is found at it unless merged with the object there; thm_path_frame: every path neither along nor below it is unchanged; thm_path_conflict: in strict mode a path that runs into a non-object, or an object and a non-object at one place, is an error; thm_expand_lenient: what strict expansion accepts lenient expansion makes as well"
SHARED = ["shared::*"]
TOKW = ["encode::primitives::encode_primitive", "encode::primitives::encode_key", "encode::primitives::encode_and_join_primitives", "encode::primitives::format_header"]
TOKR = ["decode::parser::parse_primitive_token", "decode::parser::parse_string_literal", "decode::parser::parse_key_token", "decode::parser::parse_delimited_values", "decode::parser::map_row_values_to_primitives", "decode::parser::is_key_value_content", "decode::parser::is_array_header_content"]
HDR = ["decode::parser::parse_array_header_line"]
DEC = ["decode::decoders::*", "decode::scanner::*", "decode::validation::*", "options::resolve_decode_options"]
VAL = ["decode::event_builder::*", "decode::expand::*", "decode::try_decode", "decode::try_decode_from_lines", "decode::try_decode_stream_sync"]
VALE = [x for x in VAL if not x.startswith("decode::expand")]  # expansion taken by contract, discharged by C06, C07 and C16
NOX = ["decode::expand::"]
ENC = ["encode::encoders::*", "encode::folding::*", "encode::normalize::*", "encode::encode", "encode::encode_lines", "encode::encode_stream_events", "encode::emit_events", "options::resolve_encode_options"]
REP = ["encode::replacer::*"]
LIB = ["::json_to_toon", "::toon_to_json", "::impl_From<serde_json::Value>_for_JsonValue::from", "::impl_From<JsonValue>_for_serde_json::Value::from"]
CLI = ["cli::run*", "cli::read_*", "cli::write_*", "cli::format_input_label", "cli::estimate_tokens", "cli::args::*", "cli::conversion::*", "bin::main"]
T_ENC = "encode::encode (postcondition): the text is join(enc_lines(x, options), newline) where x is the normalised value, or what the replacer makes of it; enc_lines is the layout lay_root (array forms, folding) written line by line by w_doc"
T_EV = "encode::encode_stream_events (postcondition): the events are exactly ev(x), the pre-order of the value that would be written"
T_REP = "encode::replacer::apply_replacer (postcondition): the calls made are exactly the documented ones (root with empty key and path, then every member and element once, pre-order, with its key or decimal index and full path, children of the replaced value), and the result follows the answers (rp_root); thm_ident_v: a replacer that answers each value with itself changes nothing"
D_DEC = "decode_stream_sync is proved equal to the specification function d_doc (lines to tree) laid flat: Ok gives exactly flat(d_doc(lines, indent, strict)), Err only when d_doc is undefined"
T_RT = "thm_roundtrip: for every value whose arrays have at most 100,000,000 items, every delimiter, every indent of at least one and folding off, dec_text(join(enc_lines(nrm v))) is canon(nrm v) in strict and in lenient mode; canon only puts the members of tabular rows in the order of the first row"
T_SAME = "thm_same: where object keys are unique, canon(nrm v) is the same value as nrm v: every member and element, nothing added or lost"
T_LAYOUT = "thm_layout, thm_text: the lines of any layout of a value are read back as that layout's tree"
T_EVT = "thm_events: the events of the decoded text (flat of d_doc) are ev of the value, under the conditions of thm_roundtrip"
T_LINES = "thm_lines: every line written is a multiple of the indent followed by text that begins and ends visibly, without a line break; none is empty, the text ends visibly and its lines are exactly the lines written; thm_forms: primitives are written inline, uniform objects of primitives as rows with one cell per field, all else as a list, with the declared length the number of items"
T_FOLD = "thm_fold: for every value with dot-free keys that are unique in each object, arrays of at most 100,000,000 items and at most 120 levels, every delimiter, every indent of at least one, folding on or off and every flatten depth, dec_text(join(enc_lines(nrm v)), safe expansion) is canon(nrm v) in strict and in lenient mode"
T_FKEYS = "thm_fold_keys: for every value with unique keys (dots allowed) the folded text read without expansion has unique keys and is the value with chains of single-member objects under dotted keys, member for member"
T_CONF = "thm_conforming: every document built by the generic layout grammar (any spelling of keys, scalars and headers that the token readers accept, any of the three array forms, blank lines where allowed) is read as the tree it denotes"
T_FREE = "thm_any_layout: for every value, every layout of it (an explicit data type: per scalar and key any permitted spelling, with any number of blanks around it; per array the inline, tabular or list form where it fits, and a delimiter), every indent above 0, both modes, and blank lines anywhere outside array bodies (lenient: anywhere), the text decodes to that value"
T_AHDR = "thm_any_header: a header with any spelling of its key and column names, blanks around the names, and any text after the colon is read as that header"
T_JSON = "thm_json_tree, thm_json_stream: the text of the tree renderer, and of the stream renderer on the events of any decoded tree, is a JSON text (RFC 8259 as a relation) that stands for the value, members in order, at every indent; non-finite numbers become null"
T_CHUNKS = "cli::conversion::decode_to_json_chunks (postcondition): Ok exactly when the document has a value; the chunks joined are the tree renderer's text of dec_text (with expansion) or the stream renderer's text of the decoded tree (without)"
T_ENTRY = "thm_json_entry: for every JSON text whose value has arrays of at most 100,000,000 items, what json_to_toon writes is read by toon_to_json as the same value, and serde_json's own object type loses nothing of it"
T_CLI = "cli::run, bin::main (postcondition io_done): with the arguments parsed, the program returns normally (status 0) only when the sink the arguments name holds every byte of the document the conversion contract relates to the input, was flushed, and no write failed; in every other case it has written a message to standard error and leaves through process::exit with a non-zero code"
T_JREF = "json_stream_from_events (postcondition): Ok exactly when the renderer's state machine s_text is defined, and the chunks are its text; thm_json_refused: then every end ends the matching start, nothing is left open, keys stand only in objects and a value in an object directly follows a key"
T_ASTREAM = "decode::async_decode::thm_stream (a loop that polls an AsyncDecodeStream to its end): the items are exactly the events of d_doc when it is defined, in order; when it is undefined an error comes and nothing after it"
T_AENC = "encode::async_encode::thm_lines, thm_events (loops that poll the encode streams to their end): the items are exactly the lines of encode_lines and the events ev(x)"
T_APRE = "thm_prefix, thm_bad, thm_all: the events given out after any number of lines are a prefix of the events of every document that begins with those lines, for the documents that can still be accepted; thm_all: at the end of the lines they are all of them"
T_ABATCH = "try_decode_stream_async, try_decode_async, encode_lines_async, encode_async, encode_events_async and their try_ forms (postconditions): the result is that of the synchronous function's contract"
B = "the functions of this property without a contract are decided by bounded search only"
def E(roots, note, tech=DV + BS, level="exploration", **k): return dict(roots=roots, note=note, tech=tech, level=level, **k)
TABLE = {
 "C01": E(SHARED + TOKW + TOKR + HDR + DEC + VALE + ENC + LIB, "The encoder from value to text and the decoder from text to value are both proved equal to their specification functions, and a theorem over the two, by induction on the value, gives back the value for all values and options with folding off. The JSON-text entry points and the conversions from and to serde_json values are under contract too; serde_json's own reader and writer are assumed (json_read, json_write). Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_RT, T_SAME, T_ENTRY, T_PRIM, T_ROW, T_KEY, T_HDR, T_VALUE, T_ENC], stop=[*NOX]),
 "C02": E(["*"], "Absence of panics, arithmetic overflow, out-of-bounds access and non-termination is an obligation of every function under contract, and every function of the library (feature async-stream included) and of the tool is under contract except the constructors and messages of errors and the wrappers documented to panic on an error (decode, decode_from_lines, decode_stream_sync, decode_stream and decode_stream_async, which call the functions proved). Rendering with an indent above 65535, resource exhaustion and a replacer that panics or never ends are excluded. Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_VALUE, T_DEC, T_ENC, T_JREF]),
 "C03": E(SHARED + TOKW + TOKR + DEC + VALE + ENC, "Quoting, escaping, literal classification, token parsing, the whole encoder and the whole decoder are proved equal to their specification functions; that what was written is read back with its type is a theorem for tokens, keys and rows, and for whole documents. Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_RT, T_PRIM, T_TYPE, T_ROW, T_KEY, T_VALUE, T_ENC], stop=[*NOX]),
 "C04": E(TOKR + DEC + VALE, "The decoder is proved equal to its specification function from text to value, and the counting guarantee is a theorem over it for all documents. The panicking wrappers and the tool call the functions proved; bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_VALUE, T_DEC, T_COUNT], stop=[*NOX]),
 "C05": E(TOKR + DEC + VALE, "The event stream is proved to be the flattening of one tree, so starts and ends nest, members alternate key and value and there is one root; declared counts are a theorem; the event machine is proved to build exactly that tree's value and to refuse unbalanced lists. Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_DEC, T_VALUE, T_BUILD, T_COUNT], stop=[*NOX]),
 "C06": E(SHARED + TOKW + TOKR + HDR + DEC + VAL + ENC, "The encoder with folding, the decoder and path expansion are proved equal to their specification functions from value to text and back, and two theorems over them, by induction on the value, give that expansion undoes folding and that folding alone loses and merges nothing. Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_FOLD, T_FKEYS, T_SAME, T_LAYOUT, T_ENC, T_VALUE]),
 "C07": E(["shared::validation::is_identifier_segment"] + TOKR + DEC + VAL, "Expansion is proved equal to its specification function for all nodes, and the guarantees are theorems over it; the decoder that records which keys were quoted is proved too. Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_VALUE, T_EXP]),
 "C08": E(TOKW + ENC, "The text is proved equal to the layout specification, which states array forms, markers and separators line by line; that its lines have the canonical shape is a theorem for all values and options, folding included. Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_LINES, T_HDR, T_ENC], stop=["decode::"]),
 "C09": E(["cli::json_stringify::*", "cli::json_stream::*", "cli::conversion::*"] + LIB[1:] + TOKR + DEC + VAL, "Both renderers and the conversion that calls them are proved equal to their specification functions on every value, event list and indent up to 65535, and a theorem gives that the text is JSON for the value. That serde_json writes a string as a JSON string and a finite number as a JSON number of the same value is assumed (ax_serde_str, ax_show_json); toon_to_json is proved to hand the decoded value, member for member, to serde_json's writer, which is assumed. Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_JSON, T_CHUNKS, T_JREF], stop=["encode::", "options::resolve_encode"]),
 "C10": E(["encode::async_encode::*", "decode::async_decode::*", "decode::try_decode_stream", "decode::feat::try_decode_stream"], "Every function of the two asynchronous modules is under contract (except the wrapper decode_stream_async, documented to panic on an error), extracted as the feature async-stream compiles them: the batch functions carry the contracts of the synchronous ones, and each poll function is proved to give the next item of the synchronous list from any state it can be in, the decode stream having looked at no more than the lines taken so far (thm_prefix). Three drain loops verified with the same contracts state the whole-stream equality. The synchronous functions called are taken by contract and discharged by the checks of C01, C04, C05 and C17. Bounded search polls the real streams and futures to their end beside the proof and supplies failing inputs.", level="proof", theorems=[T_ASTREAM, T_AENC, T_APRE, T_ABATCH], stop=["encode::encoders::", "encode::replacer::", "encode::normalize::", "encode::folding::", "encode::primitives::", "encode::encode", "encode::emit", "decode::decoders::", "decode::scanner::", "decode::parser::", "decode::validation::", "decode::event_builder::", "decode::expand::", "decode::try_decode", "decode::decode", "options::", "shared::", "cli::", "::"], assume=["suspension points, Pin and the waker are dropped by the extraction (R28): a poll function is verified as the body it runs, for every state; these functions hold no await points and never register a waker, so a poll schedule is a sequence of such calls", "awaiting a future runs it to its value; asupersync's iter and count complete and keep the items", "std's vec::IntoIter, VecDeque and mem::take behave as the contracts in contracts/09_async.rs state", "the source of lines is instantiated with vec::IntoIter<String> (R29)", "the quick search links a small stand-in for asupersync with the same stream trait, the thorough one the real crate"]),
 "C11": E(REP + ENC, "The replacer traversal is proved equal to its specification over the log of calls, for every replacer function (an opaque function whose answers may depend on everything); encode, encode_lines and encode_stream_events are proved to write its result. Termination depends on the replacer and is not proved. Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_REP, T_ENC, T_EV], stop=["decode::"]),
 "C12": E(["encode::primitives::format_number", "encode::primitives::encode_primitive", "encode::normalize::normalize_primitive", "decode::parser::parse_primitive_token", "shared::*"], "format_number and the reader are proved against the number grammar for every f64. That std prints a finite f64 as its shortest plain decimal and parses it back to the same f64 is assumed (ax_show_f64); bounded search checks it on random and boundary bit patterns.", level="proof", theorems=[T_NUM, T_TYPE], stop=["decode::scanner::"]),
 "C13": E(DEC + VALE, "The decoder is proved equal to its specification function from text to value; the indentation and blank-line guarantees are theorems over it. Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_VALUE, T_DEC, T_IND, T_BLANK, T_COUNT], stop=[*NOX]),
 "C14": E(CLI, "The whole command line program except clap's argument parser is under contract: a ghost token records what each sink has accepted, what was flushed and whether an operation failed, every I/O call of std is a stub whose contract says how it moves that record (a failed write leaves any prefix, Ok means accepted), and main is proved to end with status 0 only when the sink holds the whole document. The conversions called are taken by contract and discharged by the checks of C01, C04 and C09. Fault enumeration on the real binary (every write of the output made to fail by a file size limit or a full device) runs beside the proof and supplies failing inputs.", tech=DV + "; fault planting on the real tool beside it", level="proof", theorems=[T_CLI, T_CHUNKS], stop=["encode::", "decode::", "shared::", "options::", "cli::json_str", "::"], assume=["an Ok from write(2) and from flush means the bytes are accepted by the file or pipe; nobody else writes to the output file meanwhile", "std's LineWriter, BufWriter, File and Stdin behave as the contracts in contracts/09_io.rs state", "clap's parser fills Args from the command line or ends the program itself", "the contracts of the library functions the tool calls (encode_lines, try_decode, decode_stream_sync, the JSON renderers) are discharged by the checks of C01, C04 and C09, not again here"], secs={"quick": 25, "thorough": 200}),
 "C15": E(HDR + DEC + VALE, "The header parser is proved to refuse exactly the lengths above the cap, the decoder is proved equal to its specification, and a header above the cap makes every position undefined. That nothing is allocated before the check follows from the parser's contract (the length is returned only below the cap). Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_CAP, T_VALUE, T_DEC, T_CAPP], stop=[*NOX]),
 "C16": E(TOKR + DEC + VAL, "The decoder is proved equal to its specification function for events and values, and strict acceptance implies the same lenient tree, events and value by theorem. Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_VALUE, T_DEC, T_SL, T_VSL]),
 "C17": E(SHARED + TOKW + TOKR + HDR + DEC + ENC, "Direct event emission, the encoder and the decoder are proved equal to their specification functions, and a theorem gives that decoding the text yields the emitted events. Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_EVT, T_LAYOUT, T_DEC, T_EV, T_ENC, T_KEY, T_PRIM]),
 "C18": E(TOKR + HDR + DEC + VALE, "The decoder is proved equal to its specification function from text to value, and a theorem over it, by induction on the value, says that every document in every layout of a value (any spelling of scalars and keys, any of the three array forms that fits, a delimiter per array, blanks around tokens, blank lines outside arrays) is read as that value, with path expansion off. Bounded search runs beside the proof and supplies failing inputs.", level="proof", theorems=[T_FREE, T_CONF, T_AHDR, T_BLANK, T_VALUE], stop=[*NOX]),
}
NOTES = "Each check rebuilds the extractor and the harness and works from /repo's current tree; see DESIGN.md."
