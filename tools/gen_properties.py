#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as a script so the long texts stay reviewable)."""
import json, os
L = "crates/sourisdb/src/"
D = "crates/sourisd/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "A store read back from its bytes is the store that was written",
  "For every store whose values mix any of the sixteen value kinds (containers nested up to 64 levels, JSON values up to 100), serialising it and deserialising the bytes gives a store with exactly the same keys and, under each key, a value of the same kind and content. Text, binary data, array order, addresses, time zones and timestamps (to the nanosecond, leap seconds included) are identical, floats and polar numbers are bit-identical, and integers have the same numeric value. This includes empty stores, empty containers and empty strings, texts that use a single distinct character, and texts and blobs of several megabytes.",
  ["inputs"], "every store over all value kinds, any key, any nesting up to the stated depth, sizes from empty to megabytes",
  "The unit tests never serialise a store, a map, an array, JSON, a timestamp, a time zone or an address, and never pass a text code to the value serialiser; they sample short random strings and integers one at a time.",
  [L+"store.rs", L+"values.rs", L+"types/integer.rs", L+"types/imaginary.rs", L+"types/binary.rs", L+"utilities/huffman.rs", L+"utilities/bits.rs"],
  [("whole-store text code + compressed body", L+"store.rs ser/deser"), ("per-kind encoding, iterative decoder", L+"values.rs ser/deser")],
  ["Store::ser", "Store::deser"])

p("C02", "An encoded value is self-delimiting, with or without a text code",
  "For every value and every text code (none, one built from the value's own text, one built from other text, or the preset English code), decoding the value's encoding with the same code gives the value back and consumes exactly the bytes of that encoding, whatever bytes follow it. Hence several values written one after another can be read back one after another. A text that the code cannot express is still stored losslessly, and an encoding that did use a text code is refused with an error, not misread, when it is decoded without one.",
  ["inputs"], "every value, every text code, every trailing byte string",
  "The tests decode a value alone from a buffer that holds nothing else, always without a text code; position after decoding is never looked at.",
  [L+"values.rs", L+"utilities/huffman.rs", L+"utilities/bits.rs", L+"utilities/cursor.rs", L+"types/binary.rs"],
  [("length prefixes and type byte", L+"values.rs ser/deser"), ("raw fallback when the code lacks a character", L+"values.rs ser (String)")],
  ["Value::ser", "Value::deser", "Cursor::pos"])

p("C03", "No byte sequence makes a decoder crash, overrun memory or run away",
  "For any byte sequence at all, every decoder (store, value, binary data under each compression, integer, complex number, text code, bit sequence, JSON importer) returns a value or an error: it never panics, aborts, exhausts the stack, reads or writes outside its buffers, or loops. It does not reserve memory for a declared length or count that the remaining input could not possibly supply, and a run length that cannot be allocated is reported as an error.",
  ["inputs"], "every byte string: random, truncations and mutations of valid encodings, hand-built adversarial lengths, counts, nestings and trees",
  "The tests only decode bytes the library has just produced; no malformed, truncated or hostile input is decoded anywhere.",
  [L+"store.rs", L+"values.rs", L+"types/binary.rs", L+"types/binary/lz.rs", L+"types/binary/rle.rs", L+"types/binary/huffman.rs", L+"types/integer.rs", L+"types/imaginary.rs", L+"utilities/huffman.rs", L+"utilities/bits.rs", L+"utilities/cursor.rs"],
  [("checked cursor reads", L+"utilities/cursor.rs"), ("typed decode errors", L+"values.rs ValueSerError"), ("LZ block decoder (unsafe code in a dependency)", L+"types/binary/lz.rs un_lz")],
  ["Store::deser", "Value::deser", "BinaryData::deser", "Huffman::deser", "Bits::deser", "Integer::deser", "Imaginary::deser", "Store::from_json_bytes"])

p("C04", "Whatever a decoder accepts is a well-behaved value",
  "If a decoder accepts some bytes as a value or store, then every ordinary operation on the result (cloning, comparing, hashing, formatting, converting to JSON, converting numbers, serialising) completes without panicking. Serialising the accepted value and decoding it again gives an equal value, so accepted data can always be saved again and reloaded.",
  ["inputs"], "every byte string that some decoder accepts, in particular non-canonical encodings no encoder writes",
  "Tests never feed non-canonical encodings; the consequences only show in later operations on the decoded value.",
  [L+"values.rs", L+"types/integer.rs", L+"types/imaginary.rs", L+"utilities/bits.rs", L+"store.rs"],
  [("integer invariants (sign, used bytes) established while decoding", L+"types/integer.rs deser"), ("date, time and character validation", L+"values.rs deser")],
  ["Value::deser", "Store::deser", "Display", "Hash", "to_json", "ser"])

p("C05", "The stored format is stable and independent of the implementation",
  "Bytes written by the library follow the documented layout: the magic SOURISDB, a header byte naming compression and the presence of a text code, then type nibbles, little-endian integers of 0..=239 in one byte and longer ones with a size byte, short lengths packed in the type byte, text codes as pre-order trees. An independent decoder of that layout reads everything the library writes, the library reads every alternative encoding that layout allows, and byte strings recorded from earlier builds keep decoding to the same contents.",
  ["inputs"], "every store and value, every permitted encoding choice (compression method, packed or explicit length, coded or raw text), and a recorded corpus",
  "Round-trip tests cannot see a change made symmetrically to encoder and decoder, which would orphan every database already on disk; the one documented example has its assertion commented out.",
  [L+"store.rs", L+"values.rs", L+"types/integer.rs", L+"types/imaginary.rs", L+"types/binary.rs", L+"types/binary/rle.rs", L+"types/binary/lz.rs", L+"types/binary/huffman.rs", L+"utilities/huffman.rs", L+"utilities/bits.rs"],
  [("type discriminants", L+"values.rs ValueTy"), ("integer layout", L+"types/integer.rs ser/deser"), ("tree layout", L+"utilities/huffman.rs Node::ser")],
  ["Store::ser", "Store::deser", "Value::ser", "Value::deser"])

p("C06", "Binary compression is lossless, labelled and never chosen worse",
  "For every byte string each compression method (none, run-length, LZ, Huffman) decompresses to exactly the original and consumes exactly its own output. Storing binary data picks a method whose output is as short as the shortest of the four, so the stored form is never longer than the raw bytes plus their length prefix, and the label returned is the one that decodes it.",
  ["inputs"], "every byte string: empty, constant, long runs across the 255 boundary, periodic, incompressible, skewed, megabytes long",
  "Tests try five fixed inputs and random arrays of length 1, 2, 10 and 256, which contain no runs, no repetition and no length that needs a multi-byte prefix, and never the method selection.",
  [L+"types/binary.rs", L+"types/binary/rle.rs", L+"types/binary/lz.rs", L+"types/binary/huffman.rs"],
  [("pick the shortest", L+"types/binary.rs ser"), ("run splitting at 255", L+"types/binary/rle.rs"), ("empty and constant special cases", L+"types/binary/huffman.rs")],
  ["BinaryData::ser", "BinaryData::deser", "rle/un_rle", "lz/un_lz", "huffman/un_huffman"])

p("C07", "Integers keep their numeric value through every conversion",
  "An integer made from any Rust integer type, parsed from decimal text, or decoded from bytes denotes one number, and it prints as that number in decimal, parses back from it, and serialises and deserialises to it. Converting it to a Rust integer type yields exactly that number when it fits in the type and an error when it does not, never a wrapped or sign-flipped number. Two integers are equal, and hash alike, exactly when they denote the same number, whatever type or route they came from.",
  ["inputs"], "every number from -2^127 to 2^128-1, all twelve source and target types, every route of construction",
  "Tests convert each type only back to itself or to one wider type, so narrowing, sign changes and comparisons between integers of different origin (for example an unsigned and a signed zero) are never tried.",
  [L+"types/integer.rs"],
  [("sign state and minimal byte count", L+"types/integer.rs From impls"), ("checked narrowing", L+"types/integer.rs TryFrom impls")],
  ["Integer::from", "TryFrom<Integer>", "FromStr", "Display", "ser/deser", "PartialEq", "Hash"])

p("C08", "Integer arithmetic and float conversions are exact or refused",
  "Adding, subtracting, multiplying or dividing two integers gives the exact mathematical result (division truncating towards zero) whenever operands and result fit the wider of the types involved: 128-bit unsigned when both operands are unsigned, 128-bit signed otherwise. Otherwise no wrong number is returned in a build with overflow checks. Converting a finite float with no fractional part to an integer gives exactly that number when it lies within -2^127 and 2^128-1, floats with a fractional part (beyond the type's machine epsilon, which the documentation tolerates), non-finite and out-of-range floats are refused, and converting an integer to a float gives the nearest float.",
  ["inputs"], "all pairs of integers from all origins, all float bit patterns",
  "No test touches arithmetic or float conversion.",
  [L+"types/integer.rs"],
  [("checked conversion to 128-bit", L+"types/integer.rs integer_trait_impl"), ("range and fraction tests", L+"types/integer.rs TryFrom<f64>/TryFrom<f32>")],
  ["Add/Sub/Mul/Div", "TryFrom<f32>", "TryFrom<f64>", "From<Integer> for f32/f64"])

p("C09", "The text coder is lossless, refuses unknown symbols, and is optimal",
  "For every non-empty training sequence, encoding any sequence over the trained symbols and decoding it gives the sequence back, also after the code and the bits have been serialised and read back, and also when only one distinct symbol was trained. Encoding a symbol that was never trained is an error, and decoding a bit string that stops in the middle of a symbol is an error. No prefix code gives the training sequence a shorter encoding (counting one bit per symbol when there is one distinct symbol).",
  ["inputs"], "every training and message sequence over bytes and Unicode characters, any skew of frequencies",
  "Tests always encode the same text the code was trained on, with at least two distinct symbols, and look neither at optimality nor at errors.",
  [L+"utilities/huffman.rs", L+"utilities/bits.rs"],
  [("greedy merge of the two lightest nodes", L+"utilities/huffman.rs data_with_frequencies_to_node_tree"), ("bit path table and tree walk", L+"utilities/huffman.rs add_node_to_table/decode")],
  ["Huffman::new", "encode", "decode", "ser", "deser"])

p("C10", "A bit sequence behaves exactly like a list of booleans",
  "Under any sequence of pushes, pops, appends, clears, constructions and conversions, a bit sequence holds exactly the booleans a plain list would: same length, same bit at every index, same display, same iteration order, and equal (with equal hashes) exactly to sequences with the same bits. Serialising and deserialising preserves it at every length, including lengths beyond 2^24 bits, and consumes exactly its own bytes.",
  ["histories", "inputs"], "every sequence of operations, every length from 0 to tens of millions of bits, every serialised form including ones with stray bits in the last byte",
  "Tests run one fixed push/pop script and compare 32-bit patterns; no long sequence and no serialised form is tried beyond short texts.",
  [L+"utilities/bits.rs"],
  [("bit packing and masking of the last byte", L+"utilities/bits.rs push/pop/get_proper_bytes"), ("byte count from bit count", L+"utilities/bits.rs deser")],
  ["Bits::*"])

p("C11", "The cursor never leaves its data and moves exactly as documented",
  "Under any sequence of reads, peeks, moves, position changes, iterations and seeks, the cursor's position stays within the data and equals the position a simple reference cursor has. Every read returns exactly the elements at that position or nothing, and an operation that fails or only peeks leaves the position unchanged. Seeking follows the standard seek contract: from the start, from the end, or relative in both directions, with an error for a position before the start or past the end.",
  ["histories", "inputs"], "every sequence of cursor operations with arguments from 0 to the maximum machine word, on data of any length",
  "One fixed script of moves is tested; seeking, set-position, exact reads and extreme offsets are not.",
  [L+"utilities/cursor.rs"],
  [("checked position arithmetic", L+"utilities/cursor.rs")],
  ["Cursor::*", "std::io::Seek"])

p("C12", "Equality and hashing of values agree and ignore how they were built",
  "Equality of values is symmetric and transitive, and reflexive for values without NaN, and holds exactly when two values are of the same kind with equal content; it does not depend on the order in which maps were filled or on their capacity. Equal values always hash alike, including maps, JSON, floats of either zero sign, and integers of different origin. A value and its clone are equal, and changing one leaves the other untouched.",
  ["inputs", "histories"], "every pair and triple of values, every insertion and removal history of their maps",
  "No test compares or hashes a value other than an integer; map iteration order changes from instance to instance, so any single sample says nothing.",
  [L+"values.rs", L+"types/integer.rs", L+"types/imaginary.rs", L+"store.rs"],
  [("hand-written PartialEq and Hash", L+"values.rs impl Hash for Value"), ("hand-written Hash", L+"types/imaginary.rs")],
  ["PartialEq", "Hash", "Clone"])

p("C13", "JSON import and export preserve what JSON can express",
  "Importing any JSON document that does not itself use the souris_type marker and exporting it again gives the same document. Exporting a value with type markers and importing the result gives an equal value for every value built from null, booleans, strings, 64-bit integers, finite doubles, complex numbers, timestamps (leap seconds only where clocks show them, at second 59), time zones, binary data, addresses, arrays and maps; exporting without markers yields the same document minus the markers. Export is refused exactly when a number is outside the 64-bit range or not finite, and an import with a marker whose data are missing or invalid is refused rather than misread.",
  ["inputs"], "every JSON document without the marker key, every value of the listed kinds, every damaged marker object",
  "There is no JSON conversion test at all.",
  [L+"values.rs", L+"store.rs", L+"types/binary.rs", L+"types/integer.rs"],
  [("type markers", L+"values.rs convert_to_json/convert_from_json"), ("top-level non-object wrapping", L+"store.rs to_json/from_json")],
  ["Store::to_json", "Store::from_json", "Store::from_json_bytes", "Value::convert_to_json", "Value::convert_from_json"])

p("C14", "Serde types survive being stored as store bytes",
  "For every serialisable Rust value that serde_json can represent (structs, enums of all shapes, options, tuples, sequences, maps, strings, chars, booleans, 64-bit integers, finite doubles, and bare top-level scalars; nested less than 100 deep and without fields named souris_type), converting it to store bytes and back gives an equal value. Data that cannot be represented yields an error, never different data. Integers of the library serialise through serde to the number they denote and read back equal when the format can carry them.",
  ["inputs"], "every value of a family of Rust types covering the serde data model",
  "The typed entry points have no test; only the integer type is passed through serde_json alone.",
  [L+"store.rs", L+"types/integer.rs", L+"values.rs"],
  [("serde_json value as intermediate", L+"store.rs to_bytes/from_bytes"), ("integer visitor", L+"types/integer.rs Deserialize")],
  ["Store::to_bytes", "Store::from_bytes", "serde for Integer and Imaginary"])

p("C15", "Complex numbers convert between forms without changing their value",
  "A complex number in cartesian form converts to polar form with the correct modulus and an argument in [-pi, pi] in the right quadrant, including on the axes and at zero. A polar number converts to cartesian form exactly when its two coordinates are whole numbers that fit, to those numbers, and otherwise comes back unchanged with the reason; a number already in the requested form is returned unchanged. Both forms keep their parts through serialisation for every combination of integer origins and signs.",
  ["inputs"], "every pair of integers of every origin and sign, every pair of floats",
  "Three documentation examples cover three points in three quadrants; zero and the axes, large values, and the nine sign combinations of the encoding are not tried.",
  [L+"types/imaginary.rs", L+"types/integer.rs"],
  [("quadrant handling", L+"types/imaginary.rs polar_from_cartesian"), ("sign-combination nibble", L+"types/imaginary.rs ser/deser")],
  ["Imaginary::to_polar_form", "to_cartesian_form", "polar_from_cartesian", "ser", "deser"])

p("C16", "Typed access to a value succeeds for its own kind only",
  "For every value, exactly one of the sixteen kind tests is true; borrowing, mutable borrowing, extracting and the standard conversions to the content type succeed with exactly the stored content for that kind and fail, naming found and expected kinds, for all fifteen others. Building a value from content and extracting it is the identity. Extracting a Rust integer type from a value follows the integer conversion rules.",
  ["inputs"], "all sixteen kinds crossed with all sixteen accessors, over arbitrary content",
  "Tests extract the kind they just built in a few places; no wrong-kind access is tried.",
  [L+"values.rs"],
  [("accessor macro", L+"values.rs as_ty!"), ("integer conversion macro", L+"values.rs from_integer!")],
  ["Value::as_*/to_*/is_*/as_mut_*", "TryFrom<Value>"])

p("C17", "In an axum server, handlers and clients get exactly what was sent",
  "Value and Store as extractors hand a handler the content of the request body, however it is split into pieces or framed, and as responses send content that decodes to what the handler returned. A body that does not decode is refused with 400 and a reason, one that exceeds the server's limit or does not arrive completely with the status axum has for it, and the handler does not run; a handler that looks at the rejection itself sees the same status and text.",
  ["inputs", "fault_sequences"], "every value, store and byte string as a body, every division into pieces, every point of failure",
  "The module has no tests; its two documentation examples are compiled and never called.",
  [L+"axum.rs"],
  [("extraction and rejection", L+"axum.rs FromRequest, SourisRejection::status")],
  ["what the handler receives", "HTTP responses"])

p("D01", "Concurrent requests behave as if executed one at a time",
  "Whatever requests clients send to the daemon concurrently, there is an order of all completed requests, consistent with their real-time order, in which every response is the one a simple map of maps would give. In particular a request that starts after a modification was acknowledged sees that modification, whether it reads one value or a whole database, and a whole-database read never mixes two states.",
  ["schedules", "histories"], "every interleaving of concurrent add, overwrite, remove, clear, replace, merge and read requests on shared databases and keys",
  "The daemon has no tests; stale or torn reads depend on where one request is suspended while another completes.",
  [D+"v1_routes/state.rs", D+"v1_routes/db.rs", D+"v1_routes/value.rs"],
  [("one lock around all databases", D+"v1_routes/state.rs dbs"), ("cache of serialised databases, invalidated on modification", D+"v1_routes/state.rs db_cache")],
  ["HTTP requests and responses at the client"],
  state=[dict(name="dbs", meaning="all databases", where=D+"v1_routes/state.rs"), dict(name="db_cache", meaning="serialised copies of up to 200 databases", where=D+"v1_routes/state.rs")])

p("D02", "Each request has its documented effect and result, on its database only",
  "For every sequence of requests, each response (status code, creation result, value, database, list of names) and the state left behind are those of the documented semantics: create, create-or-clear, replace or merge contents, clear, remove, add or overwrite a key with its five outcomes, remove a key, read, list. Creation reports 201 exactly when the database did not exist and 200 when it did; a missing database gives 410; a missing key gives 400. No request changes any database other than the one it names, also with more databases than the cache holds, and values of every kind and size read back as they were written.",
  ["histories", "inputs"], "every sequence of requests over every endpoint, with any flags, names, keys and values",
  "There are no daemon tests; results depend on the whole history of the named database, the cache and the flags.",
  [D+"main.rs", D+"v1_routes/state.rs", D+"v1_routes/db.rs", D+"v1_routes/value.rs", D+"error.rs", L+"axum.rs"],
  [("routing", D+"main.rs"), ("state transitions", D+"v1_routes/state.rs"), ("error to status mapping", D+"error.rs")],
  ["HTTP requests and responses at the client"])

p("D03", "A graceful stop keeps every acknowledged change",
  "When the daemon is asked to stop by SIGTERM or SIGINT, at any moment and under any load, it exits by itself with success once the requests in progress are answered or dropped, and after a restart every database has exactly the contents that follow from the requests acknowledged before it exited, including those acknowledged after the signal arrived. Only requests that were never answered may or may not have taken effect. Stopping and restarting without changes alters nothing, however often it is repeated.",
  ["schedules", "histories"], "every moment of the signal relative to in-flight and later requests, every database content, any number of restarts",
  "No test starts the daemon; the window between the final save and the last answered request is only reachable with concurrent clients.",
  [D+"main.rs", D+"v1_routes/state.rs"],
  [("final save on shutdown", D+"main.rs"), ("list of databases in the catalogue file", D+"v1_routes/state.rs save/new")],
  ["HTTP responses before exit", "HTTP reads after restart"])

p("D04", "A crash at any point leaves a loadable, consistent earlier state",
  "If the daemon process is killed at any instant, including in the middle of any file operation of a save or a removal, it starts again on the same directory. Each database then has contents it really had at some moment at or after the last completed save (being absent counts as a state only if it was absent at such a moment): never truncated, mixed, empty-instead-of-removed, or missing although saved.",
  ["crash_points", "histories"], "every file operation of a save or removal as crash point, every history before it",
  "No test saves or loads state; the crash windows are between individual file operations.",
  [D+"v1_routes/state.rs", D+"main.rs"],
  [("periodic save", D+"main.rs"), ("file replacement", D+"v1_routes/state.rs write_to_file"), ("catalogue and loading", D+"v1_routes/state.rs new/save")],
  ["files in the data directory", "HTTP reads after restart"])

p("D05", "Disk errors and damaged files stay contained",
  "If writing a database fails (disk full, quota, I/O error) during a save, the daemon keeps serving, every previously saved database including that one can still be loaded in its old or new contents, the other databases of that save are stored, and once the fault has gone the next save stores everything. A damaged or unreadable file of one database never stops the daemon from starting nor changes what the other databases contain.",
  ["fault_sequences", "histories"], "every choice of failing file operations, every damage (truncation, bit flips, garbage, replacement by a directory) of any database file",
  "No test injects a fault or damages a file.",
  [D+"v1_routes/state.rs", D+"main.rs"],
  [("errors of single databases are logged and skipped", D+"v1_routes/state.rs save/get_internal_stores")],
  ["HTTP reads after faults and restarts", "files in the data directory"])

p("D06", "The daemon touches files only for its databases, inside its directory",
  "No request, whatever database name or key it carries, makes the daemon create, change or delete a file outside its data directory, or use its catalogue file as a database. Every endpoint that can create a database refuses the reserved name meta, names that are not ASCII and names that are not a single file name, and creates nothing for them. Every database name that is accepted can be stored: the database is there again after a restart.",
  ["inputs", "histories"], "every database name on every endpoint, including path separators, parent references, absolute paths, control characters, reserved and over-long names",
  "No test sends any name; the name check exists on one endpoint of three.",
  [D+"v1_routes/state.rs", D+"v1_routes/db.rs", D+"v1_routes/value.rs"],
  [("name check", D+"v1_routes/state.rs new_db"), ("file name from database name", D+"v1_routes/state.rs save/remove_db")],
  ["paths passed to file-system calls", "HTTP responses", "HTTP reads after restart"])

p("D07", "A refused, malformed or aborted request changes nothing",
  "Whatever bytes a client sends (unknown routes or methods, missing or malformed parameters, bodies that do not decode, decode to something else, are truncated, huge or hostile, connections dropped midway), the daemon answers well-formed requests with the proper 4xx status when they are not acceptable, never dies, and keeps answering others. A request answered with an error has no effect on any database, and one whose body never arrived completely has none either.",
  ["inputs", "histories", "fault_sequences"], "every request byte stream, including ones cut at any point",
  "There are no daemon tests, valid or otherwise.",
  [D+"main.rs", D+"error.rs", D+"v1_routes/db.rs", D+"v1_routes/value.rs", L+"axum.rs", L+"values.rs"],
  [("extractors and rejections", L+"axum.rs"), ("decode before state change", D+"v1_routes/db.rs add_db_with_content")],
  ["HTTP responses", "state read back over HTTP", "process liveness"])

p("D08", "Both client libraries report exactly what the daemon did",
  "Every method of the synchronous and asynchronous clients performs the request it names on the database and key it was given, whatever characters these contain, and returns what the daemon's state implies: names, creation flags, creation results, stores and values equal to what was stored. The asynchronous client reports a missing database as none or false where documented, removing an absent entry is not an error for it, and failures surface as errors and never as wrong data.",
  ["histories", "inputs"], "every sequence of client calls with any database names, keys and values, against any daemon state",
  "The client examples are compiled but never executed, so nothing has ever been sent by the tests.",
  [L+"client.rs", L+"client/sync_client.rs", L+"client/async_client.rs"],
  [("query encoding", L+"client/*.rs"), ("status to result mapping", L+"client/*.rs")],
  ["client method results", "daemon state over raw HTTP"])

p("D09", "No client starves the others, and serving does not use the daemon up",
  "However many clients stall in the middle of a head or a body, announce immense bodies, go silent, leave their answers unread, or hold every file descriptor there is, the daemon answers everybody else's requests correctly and without waiting for them, goes on saving, and when asked to stop saves everything answered before it waits for anybody; a stalled request takes effect when its last byte arrives and not before. What a request needed is given back: repeating the same work any number of times, databases staying the same size, does not make its memory, open files or threads grow, and when clients that held all descriptors leave, new ones are served and saving resumes.",
  ["histories", "schedules", "fault_sequences"], "every set of clients that misbehave by doing too little, next to every history of others; every number of repetitions",
  "There are no daemon tests, and one well-behaved client at a time would show none of it.",
  [D+"main.rs", D+"v1_routes/state.rs", D+"v1_routes/db.rs", D+"v1_routes/value.rs", L+"axum.rs"],
  [("bodies are read before the lock is taken", D+"v1_routes/value.rs add_kv, "+L+"axum.rs FromRequest"), ("saver saves on the signal, before connections are waited for", D+"main.rs main"), ("bounded cache", D+"v1_routes/state.rs db_cache")],
  ["HTTP responses and their time", "process memory, descriptors, threads", "files after a stop"])

p("M01", "The command-line tool does to the daemon what its user asked",
  "Each command of the command-line client changes the daemon's databases exactly as its name and the user's answers say and prints what happened: creating or clearing a database, adding, updating or removing an entry with the value and type entered, importing a JSON file, exporting one, viewing, removing. A cancelled or declined command changes nothing. Exporting with type markers and importing the file into another database gives an equal database for content JSON can express.",
  ["histories", "inputs"], "every command with every answer to its prompts, over any daemon state",
  "The tool has no tests; it is interactive.",
  ["crates/mouse/src/main.rs", "crates/mouse/src/value_utils.rs", L+"client/sync_client.rs"],
  [("command dispatch", "crates/mouse/src/main.rs fun_main"), ("value entry", "crates/mouse/src/value_utils.rs")],
  ["daemon state over raw HTTP", "tool output on a pseudo-terminal", "exported files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
