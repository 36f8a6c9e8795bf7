"""What each property's check runs."""


def lib(scale=1.0, cap=150, asan=None, thorough_cap=2400, miri=False):
    """cases of libmon in an optimised build with overflow checks; some again under AddressSanitizer"""

    def run(R, prop, tier, seed, work, res, notes):
        b = R.build("libmon")
        c = cap if tier == "quick" else thorough_cap
        R.campaign(b, prop, seed, tier, c, scale, {}, f"{work}/a", res)
        if asan and not res.violations:
            b = R.build("libmon", asan=True)
            R.campaign(b, prop, seed + 1, tier, c, asan, R.ASAN_ENV, f"{work}/b", res, label="asan.", stall=120)
        notes["build"] = "release, debug assertions and overflow checks on, allocation limiter" + (
            "; a second campaign under AddressSanitizer" if asan else "")

    def replay(R, d):
        asan_case = d.get("how") == "asan."
        b = R.build("libmon", asan=asan_case)
        c, out = R.run_one(b, d["property"], d["kind"], d["idx"], d["seed"] + (1 if asan_case else 0), R.ASAN_ENV if asan_case else {})
        R.say(out[-4000:])
        return 0 if c == 0 else 1

    return run, replay


def net(scale=1.0, cap=240, thorough_cap=3000, features="", stall=150):
    """cases of netmon: the real daemon (and client) with a shim between it and libc"""

    def run(R, prop, tier, seed, work, res, notes):
        b, env = R.prepare_net(work, features)
        R.campaign(b, prop, seed, tier, cap if tier == "quick" else thorough_cap, scale, env, f"{work}/a", res, stall=stall)
        notes["build"] = "sourisd and mouse as the repository builds them for development (debug assertions, overflow checks); file calls, clock, listening port and signals through a preloaded shim"

    def replay(R, d):
        work = f"{R.V}/work/replay"
        b, env = R.prepare_net(work, features)
        bad = 0
        # the workload is the same, the scheduling is not
        for _ in range(5):
            c, out = R.run_one(b, d["property"], d["kind"], d["idx"], d["seed"], env)
            R.say(out[-6000:])
            bad |= c != 0
        return int(bad)

    return run, replay


NOT_APPLICABLE = {}

NET_NOTE = ("Holds on every execution generated for the seed; requests, faults, crash points, signals and schedules are sampled (crash points within a save exhaustively "
            "for the sampled states). The daemon is the repository's own binary; the oracle is a separate model with its own codec. Crashes are those of the process: "
            "the kernel keeps what was written. Trusts the kernel, the shim, rustc.")


def D(rule, needs=None, assumptions=None, technique=None, note=None, level="exploration", **k):
    run, replay = net(**k)
    return dict(run=run, replay=replay, level=level, rule=rule, needs=needs or {}, assumptions=assumptions or [], technique=technique, note=note or NET_NOTE)

LIB_NOTE = ("Holds on every execution generated for the seed; the space is sampled, with boundaries and hostile shapes visited on purpose. The real library code runs "
            "optimised with overflow checks and debug assertions; the oracle shares no code with it. Trusts rustc, serde_json, chrono and the harness' model.")


def L(rule, needs=None, assumptions=None, technique=None, note=None, **k):
    run, replay = lib(**k)
    return dict(run=run, replay=replay, level="exploration", rule=rule, needs=needs or {}, assumptions=assumptions or [],
                technique=technique or "runtime monitor: independent model and codec as online oracle over generated executions",
                note=note or LIB_NOTE)


PLAN = {
    "C01": L("Stores generated from a seed: mixed, one kind each, single-character texts, containers nested to 64 and JSON to 100, wide maps, megabyte "
             "texts and blobs; a case is a store, distinct by its bytes. The store is written, read back and compared field by field with the model it was "
             "made from, without the library's own equality.", cap=200),
    "C02": L("Values of every kind under no code, their own, a foreign, and the preset code, followed by random bytes, and several in a row; distinct by bytes and code. "
             "Judged: content, bytes consumed, refusal without the code."),
    "C03": L("Byte strings: all of up to two bytes, random, truncated and mutated valid encodings, hand-built hostile lengths, counts, nestings, trees, LZ blocks, JSON; "
             "each fed to the 22 decoders; distinct by decoder and bytes. Judged: no panic, abort, stack overflow (2 MiB), sanitizer report or endless loop; "
             "memory requested stays in proportion to the input.", asan=0.12,
             technique="AddressSanitizer, allocation limiter, panic and stall monitors over hostile inputs",
             note="Every decoder on every generated input, natively with an allocation limiter and overflow checks, and a share again under AddressSanitizer; "
                  "the space of byte strings is sampled (all strings up to two bytes are exhaustive). Trusts the sanitizer and rustc."),
    "C04": L("Byte strings a decoder accepts: mutated and alternative encodings, padded integers, boundary dates, deep nesting; distinct by bytes. Every ordinary "
             "operation is run on what was accepted, then it is saved and reloaded and compared.", cap=120),
    "C05": L("Stores and values written by the library and read by an independent decoder of the layout; alternative encodings written by an independent encoder and "
             "read by the library; 400 stores recorded with the original build; distinct by bytes."),
    "C06": L("Byte strings: every one of up to two bytes in shares, constant, runs around 255, periodic, skewed, random, up to megabytes; distinct by content. Judged for each "
             "method: content, bytes consumed, an independent decompressor, and the choice of the shortest."),
    "C07": L("Numbers around every power of two, every small number, random widths, from every Rust type and from text; distinct by number. Judged against 128-bit "
             "arithmetic on sign and magnitude.", scale=4),
    "C08": L("Pairs of numbers around every boundary with all four operators, and float bit patterns; distinct by operands. Judged against 256-bit sign-magnitude arithmetic.",
             scale=4),
    "C09": L("Training and message sequences over bytes, characters and other symbols; distinct by training text. Judged: round trip directly and through bytes, refusals, "
             "and the total code length against an independent Huffman cost.", scale=2),
    "C10": L("Scripts of operations on a bit sequence next to a list of booleans, every length to 2200, lengths beyond 2^24; distinct by script.", scale=3),
    "C11": L("Scripts of cursor operations next to a reference cursor, and every state of small cursors with every operation; distinct by script.", scale=3),
    "C12": L("Triples of values, near-equal, retold (other order, capacity, origin, zero sign) or different; distinct by content. Judged against equality of the models, "
             "with two hashers.", scale=4),
    "C13": L("JSON documents, values and stores that JSON can carry, values at the borders of what it can, marked objects with missing or invalid data; distinct by content. "
             "Judged structurally against the document or model.", scale=2),
    "C14": L("Rust values of 55 shapes, wrapped look-alikes, unrepresentable data, and library integers; distinct by shape and JSON form; only shapes serde_json itself "
             "carries are judged for identity.", scale=1.5),
    "C15": L("Pairs of numbers in every quadrant, on the axes and at zero; polar numbers whole, near whole, fractional, huge and not finite; all 169 pairs of origins "
             "through bytes; distinct by parts.", scale=4),
    "C16": L("Values of each kind against all sixteen families of accessors, and integers against twelve types; distinct by content.", scale=4),
    "C17": D("Values and stores of every kind and bytes derived from them, whole, in pieces, failing midway, over the limit by a byte, cut off, to extractors and responses directly and "
             "through a server; distinct by bytes and framing. Judged by the model and an independent codec; bytes left over after a value are not judged.",
             needs={"requests answered": 5000, "values carried": 3000, "stores carried": 3000, "bad requests refused": 1500, "failing bodies refused": 1000, "exactly at the limit": 50, "incomplete bodies refused": 800},
             features="clients", technique="reference-model monitor of axum extractors, responses and rejections in process and through a real server",
             note=LIB_NOTE + " Bytes and framing reach it through axum and hyper."),
    "D01": D("Histories of 2 to 6 clients on 1 to 4 databases under injected delays at lock operations, sends and file calls, while saves run; distinct by the order of "
             "calls and returns and the answers; only histories with overlapping requests count as nontrivial. Judged by a linearizability checker against a map of maps, "
             "with reads of everything at the end.",
             needs={"histories": 2000, "requests": 80000, "overlapping pairs with a change on one database": 40000, "injected delays": 50000},
             technique="offline linearizability checker over recorded concurrent histories of the real daemon with injected delays"),
    "D02": D("Walks of requests of every kind over names and keys with special characters and values of every kind, in every query encoding, plain and chunked, with "
             "more databases than the cache holds; distinct by request and state before it. Judged after every request against the model, and all databases after every "
             "fourth change.",
             needs={"full comparisons": 3000, "get_db -> database": 8000, "wrote Map": 1000},
             technique="online reference-model monitor over raw HTTP traces of the real daemon"),
    "D03": D("Daemons stopped by either signal while idle, in the middle of requests, under load, during a save and with idle connections, then started again; distinct by "
             "requests and the moment of the signal. Judged: exit status, and the state after the restart against what was answered, by the linearizability checker where "
             "requests overlapped.",
             needs={"restarts compared": 250, "changes answered after the signal": 1000, "stops under load compared": 150, "restarts without a change compared": 60},
             assumptions=["a signal that arrives in the microseconds while the handlers are being installed counts as sent before the start"],
             technique="restart-differential monitor: linearizability of answered requests with the state found after a graceful stop"),
    "D04": D("Every file operation of a save, a removal and a final save as a crash point (before, after and in the middle of it) for sampled states, and kills at random "
             "moments under load; distinct by state and crash point. Judged: every database after the restart is one of its past states no older than the last complete "
             "save, removed databases stay removed, temporary files do no harm, later saves are complete.",
             needs={"crash points": 500, "kills": 100, "changes known to be saved": 20000},
             assumptions=["what was handed to the kernel survives: crashes of the process, not of the machine"],
             level="fault_enumeration", scale=0.8,
             technique="crash-point enumeration through an interposed libc with a durability checker over the recorded history"),
    "D05": D("Single and repeated failures (ENOSPC, EIO, EACCES, short writes) of each file operation in saves, removals and stops, files damaged in eight ways before a "
             "start; distinct by state and fault. Judged: the daemon goes on serving correctly, later saves are complete, a damaged database takes no other one with it.",
             needs={"failed operations": 150, "complete saves after a fault compared": 150, "starts with damage compared": 80, "removal answered 500": 8},
             level="fault_enumeration",
             technique="fault injection through an interposed libc with a reference-model monitor of the daemon"),
    "D06": D("Names that are usable, reserved, similar to another, long, hidden, path-like, not ASCII, on every endpoint, while saves run; distinct by name, endpoint and "
             "state. Judged: answers, the shim's log of every path touched, restarts, similar names not mixed up, the lists seen under load.",
             needs={"file operations observed": 60000, "restarts compared": 800, "similar names kept apart": 1500, "refusals under load": 1500, "accepted names kept": 1200},
             technique="file-operation monitor (interposed libc) and reference model over hostile names"),
    "D07": D("Requests that are malformed in route, method, parameters, encoding, body or framing, bodies derived from valid ones by mutation, incomplete and aborted "
             "requests, mixed with good ones; distinct by bytes. Judged: refusal, no state change, restart equal, daemon alive, memory and time bounded.",
             needs={"unknown route -> 404": 800, "missing parameter -> 400": 800, "incomplete request refused": 400, "accepted bodies read back": 500, "restarts compared": 250},
             technique="online state-preservation monitor over hostile HTTP requests to the real daemon"),
    "D08": D("Calls of every method of both clients with special names, keys and values, mixed with requests of others, against the real daemon; clones of a client at work "
             "together; and calls answered by a scripted server with every status, whole, chunked, dribbled, cut or missing answers; distinct by call and state or answer. "
             "Judged: the result, the daemon's whole state after each change, and each request as sent.",
             needs={"full comparisons": 2000, "requests inspected": 1200, "bad answers refused": 500, "calls through clones at once": 1500, "calls without a daemon refused": 60, "clients refused": 30},
             features="clients", technique="reference-model monitor of client calls against the real daemon, and trace inspection with a fault-injecting server"),
    "D09": D("Up to 150 clients at once that stall at every point of a request, go silent or announce immense bodies, clients that leave up to 60 answers unread, all descriptors "
             "taken, and eight kinds of work repeated thousands of times; distinct by state and number of clients, or by the memory measured. Judged: the answers to everybody else "
             "and their time (a minute, which nothing but waiting takes), saves and stops meanwhile, late requests applied when complete, memory, descriptors and threads.",
             needs={"requests served next to stalled ones": 3000, "stalled requests finished": 300, "stops next to stalled clients": 15, "repetitions measured": 16,
                    "answers read late": 600, "times no descriptor was left": 30, "recoveries": 30},
             technique="reference-model and resource monitor (RSS, descriptors, threads, latency) of the real daemon next to stalling clients and under repetition"),
    "M01": D("Sessions of commands of the command-line client on a pseudo-terminal, answered by typing and by walking through lists, with wrong answers first, declined, "
             "interrupted and hung up at each prompt, values of every kind entered, files of every size imported and exported, and no daemon at all; distinct by state and "
             "answers. Judged: exit status, what it says, the files, and the daemon's whole state after every command.",
             needs={"states compared": 3500, "prompts answered": 15000, "exports imported": 120, "commands without a daemon fail": 180, "entered Map": 45, "refused exports": 24},
             scale=3,
             technique="reference-model monitor of the real command-line client on a pseudo-terminal against the real daemon"),
}
