#!/usr/bin/env python3
"""Writes DESIGN.md from the properties, the harness and the text below."""
import json, os, re, glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools/notes.json")))

# What the search is judged by, and its bounds.
TEXT = {
"P01": ("An independent bencoder/decoder (`refEncode`, `refDecode` in gen.go). Encode must give its bytes, Decode its value; the bytes are overwritten and the decoded value is wrecked afterwards, and the same input must still give the same results.",
        "Values up to 16 MB, 2^17 elements, 10000 levels; all integer widths."),
"P02": ("The strict reference decoder says for each input: value (which one, how many bytes), refused, or grey (see below); slices are given spare capacity with foreign bytes behind them; a watchdog decides on hangs and a memory limit on blow-ups.",
        "All strings up to length 6 over 9 telling bytes; random ones up to some hundred bytes; nesting and digit runs up to millions."),
"P03": ("Torrent files come from the reference encoder, so the harness knows the exact bytes of the info dictionary (SHA-1 of that slice) and every field.",
        "Up to thousands of files and megabytes of hashes; names of any bytes."),
"P04": ("A coherence predicate on what loads, plus field-by-field comparison with what an independent parser finds in the file; every file that is coherent must load.",
        "One to several fields broken per file; random byte mutations."),
"P05": ("Paths are judged lexically by the harness against the working directory; nothing is opened.",
        "Names and path lists over hostile and ordinary components, several forms of working directory."),
"P06": ("A byte-by-byte reference layout (or interval arithmetic for huge ones).",
        "All layouts of up to 4 files of length 0..6 with piece lengths 1..7 enumerated; random ones up to terabytes."),
"P07": ("Reference SHA-1 over the concatenated content that the harness wrote; reloading; snapshot of the directory and count of open files.",
        "Files up to some MB, and sparse ones beyond 4 GiB."),
"P08": ("A byte array in memory is the model; ReadPiece and the disk are compared with it after every step. Faults are injected with sealed memory files (`memfd`, F_SEAL_WRITE/GROW) behind the paths: writes to them fail, others do not.",
        "Histories of up to 60 operations, 8 files; sparse files up to 9 GiB."),
"P09": ("A snapshot of every file before and after each refused write.",
        "Seven kinds of wrong data per layout."),
"P10": ("The prepared state is computed from the state before; directory snapshots find strays.",
        "Lengths to 3 MiB around 1 MiB boundaries, sparse to 9 GiB; failures through /dev/full, sealed memory files, link loops, files and directories in the way."),
"P11": ("Content at rest is known; every read during the run must give exactly its piece; race detector.",
        "2-8 goroutines, some hundred operations; schedules as the Go scheduler gives them."),
"P12": ("The harness hashes what it put on disk; the real NewSwarm runs against a harness tracker, whose request line says what is announced.",
        "Up to 60 pieces, and sparse torrents beyond 4 GiB."),
"P13": ("An array of booleans and the BEP 3 layout.", "Up to 2000 bits in histories, more in the large ones."),
"P14": ("An independent encoder.", "All types; payloads to 200 KB."),
"P15": ("An independent decoder, watchdog, foreign bytes behind the slice.", "Inputs to some hundred bytes, headers to 2^32-1."),
"P16": ("Batch against single decoding; overwriting of the buffer.", "Up to thousands of messages."),
"P17": ("The reference handshake and bitfield; a scripted net.Conn sees every byte the client writes and whether it closed.",
        "All 68 bytes damaged one at a time, all lengths, any segmentation; silent ones in real time and on the virtual clock."),
"P18": ("As P17, over loopback listeners.", "As P17."),
"P19": ("The content is generated, so each answer is known byte for byte and in order.",
        "Requests around every edge, 32-bit wrap-arounds, sessions of thousands of requests, torrents beyond 4 GiB, files cut while served."),
"P20": ("Metamorphic: the answers of the unsegmented stream.", "Streams to 600 KB, cuts down to single bytes, messages to the longest allowed."),
"P21": ("A witness session that must be served before, during and after; newcomers; the process must live (both in process and the real program).",
        "Streams of up to some hundred KB, up to 8 peers, more visitors than open files allowed."),
"P22": ("Each session's own script of answers; race detector.", "2-6 sessions of up to 40 requests."),
"P23": ("A model of the picker (sets of announcers, assignments); the piece given must be among the model's candidates.",
        "Up to 90 peers, 1100 pieces, 50 operations; several sessions of one peer."),
"P24": ("Exclusive ownership is tracked with atomics during the run, the rest is counted at the end; race detector.", "Up to 8 goroutines."),
"P25": ("All requests are recorded and compared with what was announced and is lacking; coverage of pieces by blocks is computed.",
        "Up to 6 peers and 40 pieces."),
"P26": ("After each end the next peer must be asked for the pieces; connections and goroutines of the client are counted until they are gone.",
        "Chains of up to 8 peers, 60 sessions at once, on real and virtual clocks."),
"P27": ("An accounting model. Without the ticking goroutine what gets through is exact; with it, bounded by ticks; each message must arrive whole, once.",
        "Up to 8 writers, messages to 260 KB, limits from 0."),
"P28": ("The scripted stream; the chunk in hand must not change.", "Up to 60 segments, buffers of 1 to 16384 bytes."),
"P29": ("An HTTP server of the harness keeps the raw request line and takes it apart itself.", "Any bytes in identities, any totals, odd URLs."),
"P30": ("Answers come from the reference encoder; broken ones are known to be broken.", "Up to thousands of peers, answers cut anywhere, chunked, compressed."),
"P31": ("A reference parser with big integers; each command line in a process of its own; what the real program uploads is measured.", "Strings over the grammar and around 2^63."),
"P32": ("A map and slices.", "Up to 60 operations, large ones to 10^4."),
"P33": ("Reference computations.", "Data to 300 bytes, sizes to 2^63."),
"P34": ("The real program with a tracker and peers of the harness: requests, handshakes, dials, exit status.", "Up to 2500 listed peers, on several local addresses, and as many visitors."),
"P35": ("Output is searched for what the file says; directory snapshots; no connection to the tracker.", "Torrents with thousands of files."),
"P36": ("The dictionary that was drawn.", "Any types at any keys."),
"P37": ("Scripts of what peers send and take, on a virtual clock (testing/synctest-like bubble); time stamps of every byte of the client.",
        "Sessions of hours of virtual time; a few in real time in the thorough tier."),
"P38": ("What the harness put on disk, and what the process said it had stored before it was killed, decides byte by byte what must be there; then the real program is started on it, and its announce and bitfield are compared with hashes made by the harness. The process is traced (ptrace); it is killed at the n-th system call that changes files, either before it or after only a part of a write. Where tracing is not allowed it is killed after a drawn time.",
        "Up to three kills in a row, torrents up to 5 MB; SIGKILL only, power loss is not claimed."),
"P39": ("Everything that two clients say passes through the harness, which keeps it, takes it apart itself and compares requests with the sets of pieces that were drawn and answers with the content of the torrent.",
        "Up to four clients, torrents up to 200 KB."),
"P40": ("The process is traced (ptrace); the n-th system call on its files (of any or of a drawn kind) is not made but returns a drawn error, or transfers only a part of its data. What the process says it did (announce, exit status, stored, read) is compared with the bytes on disk, which a model follows; then the real program is started again without failures. Every claim of success must be exact; any error is accepted if something did fail.",
        "Six errors, one failing call or all of its kind; torrents up to 5 MB."),
"P41": ("The runtime's own accounts: bytes allocated while decoding (runtime/metrics), which may be a generous linear function of the input (1 MiB and 2000 bytes per byte; what is not in proportion is off by claims of 64 MiB and more), and bytes held after garbage collection before and after a flood or many sessions, which may differ by the size of the torrent and 256 or 640 KiB.",
        "Floods of up to 150000 messages or 60 MB, up to 1500 sessions; leaks of less than a few bytes per message or a few hundred per session are below the threshold."),
"P42": ("A metamorphic relation: work on an input 16 times as large may take at most 7 times the processor time (of the thread, or of the process for sessions and answers) of 16 times the work on the smaller one; in proportion is 1, quadratic growth is 16. What takes less than 28 ms at the larger size is not judged. Processor time does not count waiting, so a busy machine does not matter much; what is over is measured again, best of several, and must recur in a second run of the case.",
        "Up to 80000 elements or 4 MB."),
}

def subs():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "harness/p_*.go"))):
        s = open(f).read()
        for m in re.finditer(r'register\(&Prop\{(.*?)\n\t\}\)', s, re.S):
            b = m.group(1)
            pid = re.search(r'ID:\s*"(P\d+)"', b).group(1)
            rule = "".join(json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"', re.search(r'Rule:(.*?),\n', b + ",\n", re.S).group(1)))
            out[pid] = (rule, re.findall(r'\{"(\w+)", (\d+), (\d+),', b))
    return out

S = subs()
w = []
w.append(open(os.path.join(V, "tools/design_head.md")).read())
w.append("## The properties, one by one\n")
w.append("\"Cases\" are the upper bounds of cases per run (quick / thorough); evidence/<id>.json has what a run did. Rules of non-triviality are in the evidence as well.\n")
for p in props:
    i = p["id"]
    rule, ss = S[i]
    o, b = TEXT[i]
    w.append(f"### {i} {p['title']}\n")
    w.append(f"- *Deciding method:* {notes[i]['technique']}.")
    w.append(f"- *Generated:* {rule}")
    w.append(f"- *Oracle:* {o}")
    w.append(f"- *Bounds:* {b} Sub-checks (cases quick/thorough): " + ", ".join(f"{n} {q}/{t}" for n, q, t in ss) + ".")
    w.append(f"- *Beyond the tests:* {p['why_tests_cant']}\n")
w.append(open(os.path.join(V, "tools/design_tail.md")).read())
seeded = os.path.join(V, "seeded")
if os.path.isdir(seeded):
    w.append("### Planted bugs kept in /verif/seeded (each is caught by the check of its property, seed 1)\n")
    w.append("| Bug | Check | Needs |\n|---|---|---|")
    for d in sorted(os.listdir(seeded)):
        m = json.load(open(os.path.join(seeded, d, "meta.json")))
        w.append(f"| {d} | {m['property']} | {m['needs']} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(w) + "\n")
