"""What decides each property: the programs, and what they enumerate."""
import fcntl, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(VERIF, ".cache")


class BuildError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("GO") and k not in ("GOMAXPROCS",):
            del env[k]
    home = env.get("HOME") or "/root"
    env.update(HOME=home, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GO111MODULE="on",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.path.join(CACHE, "gocache"),
               GOFLAGS="-mod=mod", GONOSUMDB="*", GOTELEMETRY="off")
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:" + env.get("PATH", "/usr/bin:/bin")
    return env


def _run(cmd, timeout=600):
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "mc"), env=go_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError(p.stdout.decode("utf-8", "replace"))


def build_binary(name):
    """Build one of the exploring programs from /repo's working tree."""
    bindir = os.path.join(CACHE, "bin")
    os.makedirs(bindir, exist_ok=True)
    out = os.path.join(bindir, name)
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if name == "mc":
            _run(["go", "build", "-o", out, "./cmd/mc"])
        elif name in ("mcsched", "mcsched-race"):
            ov = os.path.join(CACHE, "overlay")
            try:
                subprocess.run([sys.executable, os.path.join(VERIF, "mc/overlay/mkoverlay.py"), ov], check=True,
                               env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            except subprocess.CalledProcessError as e:
                raise BuildError(e.stdout.decode("utf-8", "replace"))
            race = ["-race", "-gcflags=all=-d=checkptr=0"] if name.endswith("race") else []
            _run(["go", "build", "-tags", "verifsched", "-overlay", os.path.join(ov, "overlay.json")] + race + ["-o", out, "./cmd/mcsched"])
        else:
            raise BuildError("unknown program " + name)
    return out


def mc(pid, **kw):
    return dict({"name": "mc", "binary": "mc", "prop": pid, "unit_limit": 200}, **kw)


def sched(pid, name="schedules", binary="mcsched", args=(), **kw):
    return dict({"name": name, "binary": binary, "prop": pid, "shards": 8, "unit_limit": 300,
                 "args": ["-workers", "1"] + list(args), "env": {"GOMAXPROCS": "1", "GOGC": "400"}}, **kw)


TRUST_FM = "the in-memory master of mc/fm speaks the protocol as a MySQL 5.6-8.0 master does; the driver (Breeze0806/mysql v1.4.2) and the Go runtime are part of the executions and trusted"
TRUST_REF = "the reference encoders of mc/ref, written from the MySQL binlog documentation, are the oracle for what bytes denote"
TRUST_SCHED = "the scheduler overlay of the Go runtime (mc/overlay) makes channel, select, mutex, goroutine and fake-network operations the only points where threads switch; code between two of them is atomic unless the race detector objects"
SCHED = "the executions are of the real code (Streamer, reader goroutine and driver) under a scheduler built into the Go runtime by an overlay: every channel operation, select, lock, once, goroutine start and network call of the library is a decision point, time is simulated; a decision sequence is replayed exactly and all sequences within the preemption bound are run. States are hashes of progress at each decision, every trace is an execution of the implementation"
HIST = "every execution runs the real Streamer (real driver, real parser) against the in-memory master; model states are hashed reference-master histories, each history is replayed on the code and every delivered transaction compared with the reference model"

PLAN = {
    "C01": {"level": "model_checking", "parts": [mc("C01"), sched("C01", "time")],
            "technique": "explicit enumeration of all bounded master histories, replayed on the real streamer against a reference model",
            "bounds": {"quick": "every history of 4 operations out of 24, of 5 row operations and of 6 transaction-control, rotation and crash operations, in six formats (checksum, rows version, table-id width) and three ways of naming the files; every column type in every position pair; wide tables; packet sizes around each protocol boundary; lives of one to twelve attempts in which any one or two of the places (the master before each packet or piece of one, each handler call, each lookup, before Stream, before Error()) take 1 ms to 400 days of simulated time",
                       "thorough": "the same with histories one operation longer and every format for every history; three places at a time"},
            "note": HIST, "assumptions": [TRUST_FM, TRUST_REF]},
    "C02": {"level": "model_checking", "parts": [mc("C02"), sched("C02", "time")],
            "technique": "explicit enumeration of all bounded statement/event histories, replayed on the real streamer against a reference model",
            "bounds": {"quick": "all event histories of 5, ignorable-event histories of 6, statement histories of 5 and grouping histories of 7 operations; every letter case of every keyword; every event type code at every place; every separator after the keyword; lives in which any one or two of the places (the master before each packet or piece of one, each handler call, each lookup, before Stream, before Error()) take 1 ms to 400 days of simulated time",
                       "thorough": "the same one operation longer; three places at a time"},
            "note": HIST, "assumptions": [TRUST_FM, TRUST_REF]},
    "C03": {"level": "model_checking", "parts": [mc("C03"), sched("C03", "time")],
            "technique": "explicit enumeration of histories, and resumption from every delivered label of each, on the real streamer",
            "bounds": {"quick": "all histories of 5 operations (rotations, restarts and crashes of the master among them, files named so that they do not sort) with a resume from every delivered label, label histories of 7, offsets around every power of two up to 2^32, file names of every length up to 255, a start at every boundary; lives in which any one or two of the places (the master before each packet or piece of one, each handler call, each lookup, before Stream, before Error()) take 1 ms to 400 days of simulated time",
                       "thorough": "one operation longer, every offset delta; three places at a time"},
            "note": HIST, "assumptions": [TRUST_FM, TRUST_REF]},
    "C04": {"level": "model_checking", "parts": [mc("C04"), sched("C04")],
            "technique": "enumeration of every failure kind at every point of every bounded history, and every sequence of two failures, on the real streamer",
            "bounds": {"quick": "every failure (EOF, ERR, reset, cancellation, handler error, mapper error, undecodable event, column-count mismatch) at every packet/transaction of the rich histories, every ordered pair of failures, every ordered triple on a log of one statement, every failure in all histories of 4 operations; every refusal of every transaction and lookup with 22 kinds of error; the schedules with at most 2 preemptions (1 for the larger scenarios); lives of one to twelve attempts in which any one or two of the places (the master before each packet or piece of one, each handler call, each lookup, before Stream, before Error()) take 1 ms to 400 days of simulated time",
                       "thorough": "every ordered triple of failures on four small logs, every pair of refusals, histories of 5 operations, one preemption more; three places at a time"},
            "note": HIST + "; each chain of failed attempts ends with a clean attempt and the accepted transactions of all attempts are compared with the model", "assumptions": [TRUST_FM, TRUST_REF]},
    "C05": {"level": "model_checking",
            "parts": [sched("C05"),
                      sched("C05", "schedules under the race detector", "mcsched-race", ["-less", "1"],
                            env={"GOMAXPROCS": "1", "GORACE": "halt_on_error=1 exitcode=66"})],
            "technique": "stateless preemption-bounded exploration of all interleavings of the real code under a controlled scheduler in the Go runtime, repeated under the race detector",
            "bounds": {"quick": "every stop cause (EOF, ERR, close, reset, truncated, out of sequence, empty packet, silence; handler failing, cancelling, waiting; lookup failure; malformed and unsupported events; every fault of the connection phase; two attempts) with and without a cancellation at any time: all interleavings with at most 2 preemptions (1 for the larger scenarios), and one fewer under the race detector; lives of one to twelve attempts in which any one or two of the places (the master before each packet or piece of one, each handler call, each lookup, before Stream, before Error()) take 1 ms to 400 days of simulated time",
                       "thorough": "one preemption more; three places at a time"},
            "note": SCHED, "assumptions": [TRUST_FM, TRUST_SCHED]},
    "C06": {"level": "model_checking", "parts": [mc("C06"), sched("C06")],
            "technique": "enumeration of every stop cause at every packet of the bounded histories and of pairs of them, and preemption-bounded exploration of all interleavings, on the real streamer",
            "bounds": {"quick": "every failure at every point of the rich histories, every ordered pair of failures, every failure in all histories of 4 operations; every refusal with 22 kinds of error; master messages over all byte values, many lengths, every error code; 13 kinds of read error at every packet; the schedules of C05's scenarios with at most 2 preemptions (1 for the larger ones); lives of one to twelve attempts in which any one or two of the places (the master before each packet or piece of one, each handler call, each lookup, before Stream, before Error()) take 1 ms to 400 days of simulated time",
                       "thorough": "every format, histories of 5 operations, one preemption more; three places at a time"},
            "note": SCHED, "assumptions": [TRUST_FM, TRUST_SCHED]},
    "C07": {"level": "model_checking", "parts": [mc("C07"), sched("C07", "time")],
            "technique": "enumeration of all bounded sequences of attempts, failures and repositionings; every packet the master receives is compared with the model",
            "bounds": {"quick": "all sequences of 4 actions out of 10, every bit pattern of server id and offset, every file name length, faults at every packet of the handshake; lives of one to twelve attempts in which any one or two of the places (the master before each packet or piece of one, each handler call, each lookup, before Stream, before Error()) take 1 ms to 400 days of simulated time",
                       "thorough": "sequences of 6 actions; three places at a time"},
            "note": HIST, "assumptions": [TRUST_FM]},
    "C08": {"level": "exploration", "parts": [mc("C08"), sched("C08", "time")],
            "technique": "exhaustive enumeration of bounded histories; deep copies compared after every later delivery and after overwriting every delivered value",
            "rule": "a case is a master history with its format and handler behaviour (observe, or overwrite every delivered value); every case delivers at least one value and differs from all others in history, format or behaviour",
            "bounds": {"quick": "all histories of 4 operations, every pair of kinds of value, transactions of many sizes, buffer-size boundaries; lives in which any one or two of the places (the master before each packet or piece of one, each handler call, each lookup, before Stream, before Error()) take 1 ms to 400 days of simulated time",
                       "thorough": "all histories of 5 operations, every pair of kinds; three places at a time"},
            "note": "Every value of every delivered transaction is copied on delivery and compared with its copy after every later delivery and after the end; then overwritten, with all other values compared. Stability is not judged for writes beyond the length of a delivered slice.", "assumptions": [TRUST_FM, TRUST_REF]},
    "C09": {"level": "exploration", "parts": [mc("C09")],
            "technique": "exhaustive enumeration of table shapes, presence bitmaps, NULL patterns and metadata within bounds, decoded by the real splitter and decoders",
            "rule": "a case is one rows event (shape, kind, presence bitmaps, NULL patterns, row count, format); cases differ in at least one of these",
            "bounds": {"quick": "all presence and NULL patterns up to 4 columns, row counts to 300, column counts 1 to 130 and 16 more to 4096, each column alone present, absent or NULL (at most 130 of a table), every metadata value of every type", "thorough": "up to 5 columns, every column of the wide tables, every declared length"},
            "note": "Counts, images, NULL bitmaps and consumed lengths are compared with the encoder's. Values are drawn from a fixed alphabet per type.", "assumptions": [TRUST_REF]},
    "C10": {"level": "exploration", "parts": [mc("C10")],
            "technique": "exhaustive enumeration of encoded values (complete for 8-24 bit integers, YEAR, small BIT, ENUM, SET; structured bit patterns above) against an independent reference",
            "rule": "a case is one (type, metadata, value); pairwise distinct by construction, repetitions are not counted",
            "bounds": {"quick": "all 8/16/24-bit integers, all YEAR, 32/64-bit: all values with few set/clear bits and windows around boundaries; FLOAT/DOUBLE: every sign and exponent with structured mantissas", "thorough": "all 2^32 INT values and FLOAT bit patterns; more 64-bit patterns"},
            "note": "Complete where the value space is small; for 64-bit integers and DOUBLE only the stated patterns. NaN and infinities are not storable and are not judged.", "assumptions": [TRUST_REF]},
    "C11": {"level": "exploration", "parts": [mc("C11")],
            "technique": "exhaustive enumeration over every (precision, scale) with all digit-group boundary values, against an independent reference encoder",
            "rule": "a case is (precision, scale, sign, digits); duplicates are not counted",
            "bounds": {"quick": "every precision 1..65 and scale; every value up to 5 digits; each digit group through its rich value list with the others extreme", "thorough": "every value up to 7 digits; pairs of groups"},
            "note": "Complete for small precisions; group-wise complete above. The encoded group values come from a fixed list per group.", "assumptions": [TRUST_REF]},
    "C12": {"level": "exploration", "parts": [mc("C12")],
            "technique": "exhaustive enumeration of temporal values per encoding, fractional precision and time zone, against an independent reference",
            "rule": "a case is (type, fsp, value, zone); distinct by construction",
            "bounds": {"quick": "every date, every old TIME, every h:m:s of TIME(0..6) with boundary fractions, every DATETIME day and second-of-day, timestamps around every zone transition of several zones", "thorough": "every fraction for every precision, more zones"},
            "note": "DATE, TIME and YEAR are complete; DATETIME and TIMESTAMP are complete per field with boundary combinations. The process time zone is set by the harness.", "assumptions": [TRUST_REF]},
    "C13": {"level": "exploration", "parts": [mc("C13")],
            "technique": "exhaustive enumeration of declared and actual lengths and of NULL/empty/absent combinations, end to end and on the cell decoder",
            "rule": "a case is (type, declared length, actual length, content pattern) or a NULL/empty/absent pattern; distinct by construction",
            "bounds": {"quick": "every declared length 0..65535 with boundary actual lengths, every actual length at the prefix boundaries, every byte value, all NULL/empty/absent patterns of the small tables", "thorough": "more actual lengths per declared length"},
            "note": "Content bytes follow fixed patterns that differ at every offset.", "assumptions": [TRUST_REF]},
    "C14": {"level": "exploration", "parts": [mc("C14")],
            "technique": "exhaustive enumeration of document trees up to a size bound, encoded by an independent encoder in both formats and decoded by the real printer",
            "rule": "a case is one (document, storage format); distinct by construction",
            "bounds": {"quick": "every document tree of <=3 nodes over 16 leaves, every leaf in every context, every 16-bit integer, string/key/element counts around every size boundary, both formats", "thorough": "trees of 4 nodes, more lengths"},
            "note": "The rendered text is parsed by an independent reader of the printer's grammar and compared with the document. Strings with quotes, backslashes or control characters are outside (the printer's SQL-ish escaping is ambiguous, see DESIGN).", "assumptions": [TRUST_REF]},
    "C15": {"level": "exploration", "parts": [mc("C15")],
            "technique": "exhaustive enumeration of table maps within bounds and of announce/re-announce/rows histories, on the real decoder and streamer",
            "rule": "a case is one table map, or one history of table maps and rows; distinct by construction",
            "bounds": {"quick": "every name length, column counts to 600, every metadata value, every ordered triple of metadata shapes, histories of 6 announcements and rows over several tables and ids, up to 140 tables announced at once, 3000 ids in a row, every kind announced again as every other under its id, ids that differ in one bit, unsigned columns in eleven patterns over many widths to 300", "thorough": "every column count to 4096, longer histories"},
            "note": "Both the decoded schema and the attribution end to end are compared with the model; mapper calls are recorded.", "assumptions": [TRUST_FM, TRUST_REF]},
    "C16": {"level": "exploration", "parts": [mc("C16")],
            "technique": "exhaustive enumeration of header fields and of every subset of status variables, with and without checksum, on the real accessors",
            "rule": "a case is one encoded event with one checksum setting; distinct by construction",
            "bounds": {"quick": "every single byte of each header field, every event length, every subset of 18 status variables, every byte of each, all 65536 charset numbers, every byte in database, statement, file name and server version, rotate/query/int-var/rand/XID boundaries", "thorough": "longer histories end to end"},
            "note": "Each event is decoded with the announced algorithm and without and both compared with what was written.", "assumptions": [TRUST_REF]},
    "C17": {"level": "exploration", "parts": [mc("C17")],
            "technique": "exhaustive enumeration of buffer lengths and length fields for the gate, and of every malformed packet at every place of a stream",
            "rule": "a case is (buffer length, length field, content pattern) or (stream, place, malformation); distinct by construction",
            "bounds": {"quick": "every buffer of 0..40 bytes with every 16-bit length field, 0..600 x 0..700, every type byte and header byte; in streams every truncation, extension and length change of every packet", "thorough": "larger buffers, every format"},
            "note": "A packet whose length field matches is outside this property even when its body is garbage (see DESIGN).", "assumptions": [TRUST_FM]},
    "C18": {"level": "model_checking", "parts": [mc("C18")],
            "technique": "explicit-state enumeration of every GTID set of a finite universe; every operation on every set (pair) compared with the set model",
            "bounds": {"quick": "all subsets of 2 uuids x 6 numbers, 3 x 4 and 1 x 11, built in 5 ways; every pair; every addition; lists of up to 24 intervals with every number at and around each end", "thorough": "2 x 7, 3 x 4, 1 x 14, all construction pairs, lists of up to 70 intervals"},
            "note": "States are sets, transitions are operations executed on the real implementation; every transition is an implementation step compared with the model.", "assumptions": ["sequence numbers outside the universe behave like those inside (the code compares and adds 1)"]},
    "C19": {"level": "model_checking", "parts": [mc("C19")],
            "technique": "explicit-state enumeration of GTIDs and GTID sets of a finite universe through every encoding, compared with the model",
            "bounds": {"quick": "every uuid byte shape x sequence numbers at every digit count; all subsets of 2x6, 3x4, 1x9 wide numbers through text, tagged text, SID block and events; MariaDB sets by every sequence of 4 additions and every pair", "thorough": "larger universes"},
            "note": "States are sets reached by additions, transitions are operations on the implementation.", "assumptions": []},
    "C20": {"level": "exploration", "parts": [mc("C20")],
            "technique": "exhaustive enumeration of bounded histories and of data bytes/code points; every transaction is serialised, parsed back and compared",
            "rule": "a case is one serialised transaction differing in history, format or data",
            "bounds": {"quick": "all histories of 3 operations, every pair of kinds of value (a quarter), every byte, pairs and triples of bytes, code points to U+3000 and the ends of every block above, every type code and statement", "thorough": "histories of 4 operations, every pair, every code point"},
            "note": "The serialised text is parsed with encoding/json and compared field by field.", "assumptions": [TRUST_FM, TRUST_REF]},
}

SCALE = {"C01": "counts of rows events, statements, rows, transactions, ignorable events, rotations and tables around every power of two and ten up to 65537 (thorough 10^6); texts of statements of every length around the powers of two, after every kind of white space; every presence, NULL and signedness pattern of up to 4 (thorough 5) columns and each column alone absent, NULL or empty in tables of 7 to 300 (600) columns; origins and flags of events, fields of query events, flags of table maps and rows, XID numbers",
         "C02": "counts of changes and statements of a group up to 200001; texts of statements; origins and flags of events, fields of query events, flags of table maps and rows, XID numbers",
         "C03": "resumption from labels near every power of two among up to 65537 transactions; origins and flags of events, fields of query events, flags of table maps and rows, XID numbers",
         "C04": "failures in the last of up to 65537 transactions or changes; 65600 attempts of one streamer",
         "C06": "65600 attempts of one streamer; messages masters send; payloads that are no events",
         "C07": "65600 attempts of one streamer", "C08": "stability across up to 65537 later transactions",
         "C09": "row counts up to 100001; every presence, NULL and signedness pattern of up to 4 (thorough 5) columns and each column alone absent, NULL or empty in tables of 7 to 300 (600) columns; origins and flags of events, fields of query events, flags of table maps and rows, XID numbers", "C10": "every presence, NULL and signedness pattern of up to 4 (thorough 5) columns and each column alone absent, NULL or empty in tables of 7 to 300 (600) columns", "C13": "every presence, NULL and signedness pattern of up to 4 (thorough 5) columns and each column alone absent, NULL or empty in tables of 7 to 300 (600) columns", "C15": "up to 65537 tables, announcements and rows; every presence, NULL and signedness pattern of up to 4 (thorough 5) columns and each column alone absent, NULL or empty in tables of 7 to 300 (600) columns; origins and flags of events, fields of query events, flags of table maps and rows, XID numbers",
         "C12": "TIMESTAMP seconds up to 2^32-1", "C18": "sets of 25 to 65537 (thorough 10^6) intervals or uuids; sets derived from one set watched while others are derived from it", "C19": "sets of up to 70000 intervals, 65537 uuids, 300x300 (thorough 10^6, 2^18, 1000x1000)",
         "C17": "payloads that are no events: every first byte, 0 to 12 bytes after it", "C20": "transactions of up to 10001 changes"}
for _k, _p in PLAN.items():
    _p.setdefault("rule", "")
    if _k in SCALE:
        _b = _p["bounds"]
        for _t in _b:
            _b[_t] += "; " + SCALE[_k]

if __name__ == "__main__":
    for b in sys.argv[1:]:
        print("built", build_binary(b))
