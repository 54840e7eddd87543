#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because JSON lines are awkward to edit)."""
import json, os

P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Bencode round trip and canonical encoding",
  "Encoding any value built from non-empty strings, integers, lists and dictionaries and decoding the result gives back an equal value (every signed integer width, up to both 64-bit extremes, comes back as the same number), and decoding then re-encoding any canonical bencoding without empty strings (nested at most 10000 deep) reproduces its bytes. The encoding produced is the canonical one of BEP 3 (dictionary keys in byte order, minimal integers, exact byte lengths) however the value was built. Values that cannot be encoded (an empty string or key, an unsupported type, at any depth) are refused with an error. Encoding and decoding keep nothing between calls: results stay as they are whatever is encoded or decoded afterwards, and any number of callers may encode and decode at the same time.",
  ["inputs"], "all encodable value trees, all canonical byte strings, all unencodable values at any position",
  "The tests encode a dozen fixed values and re-encode three torrent files; the claim is over all value trees, including extreme integers, binary strings, keys that are prefixes of each other, and deep mixes of containers.",
  ["src/bencode/encode.go", "src/bencode/decode.go"],
  [("type switch and key sort", "src/bencode/encode.go encode/encodeDict"), ("recursive descent", "src/bencode/decode.go")],
  observe=["bencode.Encode", "bencode.Decode"])

p("P02", "Decoding arbitrary bytes is total and accepts only bencoding",
  "Decoding any byte string returns either a value or an error; it never crashes the process, runs out of stack or fails to return, however truncated, deeply nested or malformed the input is. A value is returned only if the input starts with one complete well-formed bencoding, and it is exactly the value that bencoding denotes. Truncated data, integers that are empty, have leading zeros, are minus zero or do not fit 64 bits, string lengths running past the end, and misplaced or missing delimiters are refused.",
  ["inputs"], "all byte strings, in particular mutations, truncations and splices of valid bencodings and very deep nesting",
  "The tests feed about fifteen short malformed inputs; crashes and wrong acceptances hide in the rest of the input space (nesting depth, number boundaries, truncation at every offset).",
  ["src/bencode/decode.go"],
  [("bounds panic turned into an error", "src/bencode/decode.go Decode (recover)"), ("digit and delimiter checks", "src/bencode/decode.go decodeInt/decodeString")],
  observe=["bencode.Decode"])

p("P03", "A torrent's identity and metadata are exactly those in its file",
  "Every well-formed torrent file loads, and the infohash is the SHA-1 of the info dictionary's bytes exactly as they stand in the file, whatever key order, unknown keys, empty strings or look-alike content surround or fill it. The announce URL, name, piece length, piece hashes, total length and ordered file list (paths and lengths) are those the file states. The infohash of a torrent built from metadata is the SHA-1 of that metadata's bencoding.",
  ["inputs"], "all well-formed torrent files, single- and multi-file, with arbitrary extra keys, key order and nesting",
  "The tests check the infohash of three transmission-made files; other writers use other keys, orders and empty values.",
  ["src/torrent/torrent.go", "src/torrent/info/info.go", "src/torrent/filesd/entrybase.go"],
  [("hash of the info dictionary", "src/torrent/torrent.go FromTorrentFile/NewTorrent"), ("field extraction", "src/torrent/info/info.go FromDict")],
  observe=["torrent.FromTorrentFile", "torrent.NewTorrent"])

p("P04", "Loading any torrent file fails cleanly or gives coherent metadata",
  "Loading arbitrary file content as a torrent returns either an error or a torrent; it never crashes or hangs, whichever fields are missing, mistyped, negative, zero, huge or mutually inconsistent. A torrent that loads is coherent: its piece length is positive, no file length is negative, the total is the sum of the file lengths, it has exactly one 20-byte hash per piece of the total, and its last piece is the remainder (between one byte and a full piece). What loads is what the file states, field by field: a file that lacks one of the required fields, or has it with another type, does not load.",
  ["inputs"], "all file contents, in particular valid torrents with one or several fields removed, retyped or made inconsistent",
  "The tests only load valid files; every malformed combination of fields is untested, and a torrent is untrusted input.",
  ["src/torrent/torrent.go", "src/torrent/info/info.go", "src/torrent/info/piecemap.go", "src/torrent/filesd/entrybase.go"],
  [("validation of the info dictionary", "src/torrent/info/info.go FromDict/NewTorInfo"), ("byte accounting", "src/torrent/info/piecemap.go MakePieceMap")],
  observe=["torrent.FromTorrentFile", "gotor -cmd info"])

p("P05", "A torrent's files stay inside the working directory",
  "Every file of a torrent that loads resolves to a path strictly inside the working directory, and for a multi-file torrent strictly inside the sub-directory of it that bears the torrent's name. This holds for every name and path list a torrent can carry: absolute names, '..' and '.' components, empty components, components containing separators and empty path lists are refused or contained. Ordinary nested paths resolve to exactly working directory / name / components, in order.",
  ["inputs"], "all torrent names, path component lists and working directories",
  "The tests use four benign names; path traversal needs a hostile name or component.",
  ["src/torrent/info/info.go", "src/torrent/filesd/entrybase.go"],
  [("local path construction", "src/torrent/info/info.go FromDict"), ("path list checks", "src/torrent/filesd/entrybase.go FromBenList")],
  observe=["torrent.FromTorrentFile, Files()[i].LocalPath()"])

p("P06", "Pieces and files partition the content exactly",
  "For every list of file lengths (including empty files) and every piece length, the locations listed for piece 0, 1, 2, ... cover every byte of every file exactly once, in file order, and each piece except the last accounts for exactly one piece length. Looking up a piece outside the torrent is an error. The set of files reported for a piece is exactly the set of non-empty files with a byte in it, in order, with empty files adding nothing but themselves.",
  ["inputs", "configurations"], "all file-length lists and piece lengths, all piece indices",
  "The tests check about ten hand-made layouts, none with empty files or piece length 1; off-by-one errors depend on the exact alignment of file boundaries.",
  ["src/torrent/filesd/flist.go", "src/torrent/filesd/entry.go", "src/torrent/info/piecemap.go", "src/torrent/info/info.go"],
  [("start/end piece and offset per file", "src/torrent/filesd/flist.go MakeFileList"), ("seek/read amounts", "src/torrent/filesd/entry.go PieceInfo"), ("piece map", "src/torrent/info/piecemap.go")],
  observe=["info.TorInfo.PieceLookup", "filesd.FileList.GetFiles", "filesd.Entry.PieceInfo", "filesd.CalcNumPieces"])

p("P07", "Metadata created from files describes those files",
  "Creating torrent metadata from any set of files and any positive piece length terminates and yields the SHA-1 of every piece of the files' concatenated content, in order, with the right piece count, last piece length, file list and total. Bencoding that metadata and loading it back as a torrent gives the same name, piece length, hashes and files, resolving to the same files on disk. The files are not changed and none is left open. A missing or unreadable file, or a non-positive piece length, is an error.",
  ["inputs", "configurations"], "all file sets (sizes around buffer and piece boundaries, empty files), all piece lengths including those above any internal buffer size",
  "The tests hash three prepared media sets whose sizes and piece lengths never meet the interesting boundaries together.",
  ["src/torrent/info/info.go", "src/utils/utils.go", "src/torrent/filesd/entrybase.go"],
  [("buffered read across files", "src/torrent/info/info.go CreateTorInfo"), ("segmentation", "src/utils/utils.go SegmentData")],
  observe=["info.CreateTorInfo", "info.TorInfo.Bencode", "info.FromDict"])

p("P08", "Stored pieces read back exactly, in any order of operations",
  "After any sequence of piece writes, re-writes and reads in any order over any file layout, reading a piece returns exactly the bytes last stored there (zeros or the files' previous content where nothing was stored) and the number of bytes of that piece. Once all pieces are stored the files on disk are byte for byte the torrent's files, with their exact lengths. A write changes no byte outside its piece, and closing and reopening the files preserves everything. All of this also holds beyond 4 GiB. A piece that cannot be read or written because a file of it was closed, cut short or fails is reported as an error. Closing all files releases every one of them.",
  ["histories", "configurations"], "all file layouts, all orders of writes/reads/reopens over all pieces",
  "The tests write pieces once in order over two tiny layouts; corruption of neighbours or files needs particular boundaries and orders.",
  ["src/torrent/fileio/fileio.go", "src/torrent/info/piecemap.go", "src/utils/futils.go"],
  [("piece location walk", "src/torrent/fileio/fileio.go ReadPiece/WritePiece")],
  state=[("open files", "one handle and lock per local path", "src/torrent/fileio/fileio.go lfps")],
  observe=["fileio.FileIO.ReadPiece/WritePiece", "file contents"])

p("P09", "Only data matching the torrent's hash is ever stored",
  "A piece write succeeds only if the data is exactly the piece the torrent's hash names, of exactly that piece's length; otherwise it fails with an error and leaves every file unchanged, byte for byte. Bit flips, truncations, extensions, another piece's valid data and out-of-range indices are all refused without crashing. This holds even if the torrent's own hash was made from data of the wrong length.",
  ["inputs", "histories"], "all data offered for all piece indices over all layouts and stored states",
  "No test offers bad data at all.",
  ["src/torrent/fileio/fileio.go"],
  [("hash gate before any write", "src/torrent/fileio/fileio.go WritePiece")],
  observe=["fileio.FileIO.WritePiece", "file contents"])

p("P10", "Preparing files preserves data and gives exact lengths",
  "Preparing a file to a length leaves it with exactly that length: the bytes that were there up to that length are kept, what is missing is filled with zeros, anything beyond is cut, and missing files and directories are created. Preparing again changes nothing, and files that are not named are not touched. The returned handle reads and writes that file. What cannot be prepared (a directory in its place, a file where a directory is needed, no space) is reported as an error, never as a file of another length.",
  ["inputs", "histories"], "all previous states of a path (absent, shorter, equal, longer, with arbitrary content) and all target lengths, in sequences",
  "The tests create zero-filled files of four sizes; none opens an existing file of another size with content.",
  ["src/utils/futils.go", "src/torrent/fileio/fileio.go"],
  [("open/create/append/truncate", "src/utils/futils.go OCAT, AppendZeros, CreateZeroFilledFile")],
  observe=["utils.OCAT", "fileio.FileIO.OCATAll", "file contents"])

p("P11", "Concurrent piece reads and writes do not disturb each other",
  "When any number of goroutines read and write pieces at the same time, every read of a piece that is already stored returns exactly that piece, every valid write succeeds, and when all are done the files hold exactly what was stored. No operation observes or corrupts another piece's bytes, and none blocks forever.",
  ["schedules", "histories"], "all interleavings of concurrent piece reads and writes over shared files",
  "All tests are single threaded; a seek shared between readers or a missing lock would pass every one of them.",
  ["src/torrent/fileio/fileio.go"],
  [("positioned I/O under a per-file lock", "src/torrent/fileio/fileio.go read/write")],
  observe=["fileio.FileIO.ReadPiece/WritePiece under concurrency, race detector"])

p("P12", "Start-up counts exactly the pieces that are intact on disk",
  "After start-up on any state of the download directory (complete, partial, corrupted, missing, oversized files) a piece counts as owned if and only if the bytes on disk hash to the torrent's hash for it. Start-up never alters an intact piece's bytes. The amount left announced to the tracker is the total size of the pieces not owned. Nothing counts as uploaded or downloaded yet.",
  ["histories", "configurations", "crash_points"], "all on-disk states, in particular those an interrupted or corrupted download leaves",
  "No test starts a client; resume after a crash or corruption is never exercised.",
  ["src/swarm/swarm.go", "src/torrent/fileio/fileio.go", "src/bf/bitfield.go"],
  [("hash check of every piece", "src/swarm/swarm.go Validate"), ("file preparation", "src/swarm/swarm.go NewSwarm")],
  observe=["swarm.Swarm.Bf after NewSwarm", "announce query seen by the tracker", "bitfield sent to peers"])

p("P13", "Bitfields behave as fixed-size sets of bits",
  "Over any sequence of operations a bitfield behaves as a fixed-size array of booleans: reading an index gives what was last set there, the count of set bits and the completeness test agree with it, and its bytes are the BEP 3 layout (first index in the high bit) with every spare bit zero unless the bytes it was built from had them set. Building from bytes accepts exactly the bit counts that need that many bytes and counts only the bits in range; changing the bit count is possible exactly within the same number of bytes. Filling sets every bit in range and nothing else.",
  ["histories", "inputs"], "all sizes, all operation sequences, all byte strings",
  "The tests look at three fixed one- and two-byte fields; counters drift only under particular sequences and sizes.",
  ["src/bf/bitfield.go"],
  [("bit masks and running count", "src/bf/bitfield.go Set/Get/calcNset/Fill/SetNbits")],
  state=[("nset", "number of set bits", "src/bf/bitfield.go")],
  observe=["bf.Bitfield API"])

p("P14", "Peer messages have the BEP 3 layout and round trip",
  "Every peer message (keep-alive, choke, unchoke, interested, not interested, have, bitfield, request, piece) with any field values encodes to exactly the BEP 3 wire format, and decoding that encoding gives a message of the same type with the same fields and the length encoded, consuming exactly the encoded bytes. Encodings and messages stay as they are whatever is encoded or decoded afterwards, and any number of sessions may encode and decode at the same time.",
  ["inputs"], "all message types and all field values and payload sizes",
  "The tests encode a handful of messages and never encode a request or decode a piece or request.",
  ["src/p2p/message.go", "src/p2p/have.go", "src/p2p/request.go", "src/p2p/piece.go", "src/p2p/bitfield.go", "src/p2p/no_payload.go", "src/p2p/keepalive.go"],
  [("length/type header and payload fields", "src/p2p/*.go Encode"), ("dispatch by type", "src/p2p/message.go Decode")],
  observe=["p2p constructors, Message.Encode, p2p.Decode"])

p("P15", "Decoding arbitrary peer bytes never crashes, hangs or invents data",
  "Decoding any byte string as one message or as a batch returns without crashing or looping, whatever the length prefix, type and truncation are. A message is only produced if its bytes are present in the input in full and valid for its type, and its fields are those bytes. A truncated or malformed message is reported as an error.",
  ["inputs"], "all byte strings, in particular headers with extreme lengths, empty payloads, wrong payload sizes and truncations",
  "The tests decode about a dozen short inputs; length overflow, empty bitfields and piece messages are never tried.",
  ["src/p2p/message.go", "src/p2p/bitfield.go", "src/p2p/piece.go", "src/p2p/request.go", "src/p2p/have.go"],
  [("length checks before slicing", "src/p2p/message.go Decode"), ("progress of the batch loop", "src/p2p/message.go DecodeAll")],
  observe=["p2p.Decode", "p2p.DecodeAll"])

p("P16", "A batch of peer messages decodes completely, in order, and independently",
  "Decoding the concatenation of any valid messages gives all of them, in order, and reports all bytes read; a truncated last message costs only itself. The decoded messages do not change when the buffer they were decoded from is overwritten.",
  ["inputs", "histories"], "all sequences of messages, all truncation points, all reuses of the receive buffer",
  "One fixed batch of four messages and one buffer reuse with two bitfields are tested; no batch contains requests or pieces.",
  ["src/p2p/message.go", "src/p2p/bitfield.go", "src/p2p/piece.go"],
  [("batch loop", "src/p2p/message.go DecodeAll"), ("copying of payloads", "src/p2p/bitfield.go, src/p2p/piece.go")],
  observe=["p2p.DecodeAll"])

p("P17", "Incoming peers are admitted exactly on a valid handshake",
  "A connecting peer becomes a session if and only if the first 68 bytes it sends are the BitTorrent handshake for this torrent's infohash (any reserved bytes, any peer id), however those bytes are split across network segments; it is then sent our handshake (same infohash, our peer id, zero reserved bytes) followed by a bitfield message stating exactly the pieces we own, and told that it may request (unchoke). Any other or incomplete opening is refused: the connection is closed and no handshake or other data is sent to it. Bytes following the handshake are treated as the peer's first messages.",
  ["inputs", "schedules"], "all opening byte strings and segmentations, all owned-piece sets",
  "No test opens a connection or checks a handshake.",
  ["src/swarm/handshake.go", "src/swarm/peerhandler.go"],
  [("handshake layout and check", "src/swarm/handshake.go"), ("admission", "src/swarm/peerhandler.go FromIncoming")],
  observe=["bytes on the peer's TCP connection", "swarm.MakeHandshake/ValidHandshake"])

p("P18", "Peers we dial must answer with a valid handshake",
  "For a peer we connect to, a session is established only after we have sent our handshake and the peer has answered with a valid handshake for this torrent's infohash, however segmented; nothing but our handshake is sent to it before that, and then it is told that it may request (unchoke). A peer that answers with anything else, closes, or stays silent is dropped with its connection closed, and this does not affect the client or its other peers.",
  ["inputs", "schedules", "fault_sequences"], "all answers a dialled peer can give, segmentations, refusals and silences",
  "No test dials a peer.",
  ["src/swarm/peerhandler.go", "src/swarm/handshake.go"],
  [("outgoing connection", "src/swarm/peerhandler.go FromBootstrap")],
  observe=["bytes on the dialled TCP connection"])

p("P19", "A seeder serves exactly the requested bytes, and only valid requests",
  "A request for a block inside an owned piece is answered with one piece message carrying the same index and begin and exactly those bytes of the torrent's content, and answers come in request order. A request that is not entirely inside its piece (including the shorter last piece, and any 32-bit begin and length), for an index outside the torrent, or for a piece not owned is never answered with data. No other byte of memory or disk is ever sent.",
  ["inputs", "histories", "configurations"], "all request triples over all torrents, layouts and owned sets",
  "No test serves a request.",
  ["src/swarm/msghandler.go", "src/torrent/fileio/fileio.go", "src/p2p/piece.go"],
  [("request handling", "src/swarm/msghandler.go handleRequest")],
  observe=["piece messages on the peer connection"])

p("P20", "A peer's byte stream is understood however it is segmented",
  "The client's reaction to a sequence of peer messages depends only on the bytes sent, not on how they are cut into segments or coalesced: any split, down to single bytes, and messages larger than the receive buffer, give the same answers as sending each message whole. Well-framed messages of types the client does not handle are skipped and do not affect those around them.",
  ["inputs", "schedules"], "all message sequences and all ways of splitting their bytes",
  "No test feeds a session; decoding tests always pass whole messages in one buffer.",
  ["src/swarm/peerhandler.go", "src/swarm/msghandler.go", "src/io/readloop.go", "src/p2p/message.go"],
  [("receive loop and message handling", "src/swarm/peerhandler.go recvLoop, src/swarm/msghandler.go handleMessage")],
  observe=["answers on the peer connection"])

p("P21", "No peer can crash or stall the client",
  "Whatever bytes a connected peer sends, in any order, before or after the handshake, and however it disconnects, the client process keeps running and keeps serving its other peers correctly, including peers that connect afterwards, also after more peers connected than the process may have files open.",
  ["inputs", "fault_sequences", "histories"], "all byte streams and disconnections from any number of hostile peers, complete and incomplete clients",
  "No test runs a session; a panic in one session's goroutine ends the whole process.",
  ["src/swarm/msghandler.go", "src/swarm/peerhandler.go", "src/swarm/piecetracker.go", "src/p2p/message.go", "src/bf/bitfield.go"],
  [("validation of indices, lengths and bitfields", "src/swarm/msghandler.go, src/p2p/message.go")],
  observe=["liveness and answers of a real client process"])

p("P22", "Concurrent peer sessions are independent",
  "When any number of peers are connected and request blocks at the same time, each receives exactly the answers to its own requests, in its own order and with the right bytes, as if it were the only peer. One session ending, in whatever way, does not disturb the others.",
  ["schedules", "histories"], "all interleavings of concurrent sessions and their endings",
  "No test runs two sessions; buffers or state shared between sessions only show under concurrency.",
  ["src/swarm/peerhandler.go", "src/swarm/msghandler.go", "src/io/ratelimit.go", "src/torrent/fileio/fileio.go"],
  [("per-session buffer", "src/swarm/peerhandler.go NewPeerHandler"), ("whole-message writes", "src/io/ratelimit.go Write")],
  observe=["answers on each peer connection"])

p("P23", "The piece picker assigns rarest needed pieces exclusively",
  "Over any history of peers announcing pieces, leaving and asking for work, the piece assigned to a peer is one the peer has, that we lack, and that no peer currently holds an assignment for, and it is among the rarest such pieces (availabilities of 63 and above counting as equal); if such a piece exists one is assigned. An assignment lasts until its peer leaves, at which point exactly that peer's pieces become available again and its announcements stop counting, even if it comes back later. Announcing twice counts once, and any number of peers may hold a piece.",
  ["histories"], "all sequences of announcements, departures, returns and requests for work by any number of peers, including more than 64",
  "The tests run five short fixed scripts with at most four peers and ask each peer once.",
  ["src/swarm/piecetracker.go", "src/utils/ds/linklist.go", "src/utils/ds/set.go"],
  [("buckets by availability", "src/swarm/piecetracker.go register/Unregister"), ("exclusive claim", "src/swarm/piecetracker.go NextPiece")],
  state=[("requests", "pieces claimed by each peer", "src/swarm/piecetracker.go"), ("buckets", "pieces by availability", "src/swarm/piecetracker.go")],
  observe=["swarm.PeerPieceTracker API"])

p("P24", "Concurrent peers never share a piece assignment",
  "When peers announce, leave and ask for pieces from different goroutines at the same time, no piece is ever assigned to two peers at once, every assignment is of a piece that peer announced and we lack, no assignable piece is lost once things are quiet, and no operation crashes or blocks forever.",
  ["schedules", "histories"], "all interleavings of picker operations by concurrent peers",
  "Every tracker test is single threaded.",
  ["src/swarm/piecetracker.go"],
  [("one lock around every operation", "src/swarm/piecetracker.go mutex")],
  observe=["swarm.PeerPieceTracker API under concurrency, race detector"])

p("P25", "Download requests cover needed pieces exactly and once",
  "A client that lacks pieces asks a connected peer only for pieces that peer has announced and the client lacks, and never has two peers working on the same piece. For each piece it asks for, the block requests are non-overlapping, in bounds, at most 16 KiB each and together cover the piece (shorter last piece included) exactly. A peer whose bitfield has a needed piece that no other peer was asked for is asked for a piece.",
  ["inputs", "histories", "configurations"], "all torrents, owned sets and sets announced by any number of peers",
  "No test runs the request loop or builds a request list.",
  ["src/swarm/peerhandler.go", "src/swarm/msghandler.go", "src/swarm/piecetracker.go", "src/p2p/request.go"],
  [("request loop", "src/swarm/peerhandler.go requestLoop/createReqMessages"), ("peer bitfield registration", "src/swarm/msghandler.go handleBitfield")],
  observe=["request messages on the peer connections"])

p("P26", "An ended session releases its connection and its pieces",
  "When a session ends because the peer closes, resets, or sends something the client treats as fatal, the client closes that connection and stops everything it ran for it, and the pieces that peer was assigned become available to other peers at once and are asked of a peer that has them. Repeating this any number of times leaves no connection open.",
  ["histories", "fault_sequences"], "all ways and times a session can end, repeated, with other peers waiting for the same pieces",
  "No test starts or ends a session.",
  ["src/swarm/peerhandler.go", "src/io/readloop.go", "src/swarm/piecetracker.go"],
  [("session loop teardown", "src/swarm/peerhandler.go Loop"), ("Unregister", "src/swarm/piecetracker.go")],
  observe=["connection state seen by the peer", "open descriptors of the client", "requests sent to other peers"])

p("P27", "Rate limiting bounds throughput without losing data",
  "With a write (or read) limit of R bytes per second, the data let through between two consecutive one-second ticks is less than R plus one message, for any number of concurrent writers; without a limit (or a negative one) nothing is delayed. Limits on reading and writing are independent. Every write delivers its data whole, unmodified and exactly once, errors of the underlying stream are reported, and writers held back proceed after a tick. A stream that takes its time or is stuck holds up nobody but those that use it.",
  ["schedules", "inputs", "configurations"], "all limits, message sizes and numbers of concurrent writers and readers",
  "The package has no tests.",
  ["src/io/ratelimit.go"],
  [("used counter and lock", "src/io/ratelimit.go Read/Write"), ("tick reset", "src/io/ratelimit.go Run")],
  state=[("wUsed/rUsed", "bytes let through since the last tick", "src/io/ratelimit.go")],
  observe=["io.RateLimitIO API"])

p("P28", "The read loop delivers the stream exactly and stops on request",
  "The chunks a read loop hands out are, concatenated, exactly the bytes that arrived on the connection, in order, without loss or duplication, and a chunk does not change until its consumer says it is ready for more. The end of the stream, an error or the read timeout is reported once as an error after all data. Finishing, at any moment, promptly returns and makes the loop end, even while it waits for data.",
  ["inputs", "schedules"], "all byte streams, segmentations, consumer paces and moments of finishing",
  "The package has no tests.",
  ["src/io/readloop.go"],
  [("buffer hand-over protocol", "src/io/readloop.go Run/Ready"), ("cancellation", "src/io/readloop.go Finish")],
  observe=["io.ReadLoop API over a pipe or TCP connection"])

p("P29", "Announces carry exactly the client's identity and totals",
  "An announce is one HTTP GET to the torrent's announce URL, keeping its path and any query already in it, with parameters that decode to exactly the torrent's 20 raw infohash bytes, the client's peer id, its port, its uploaded, downloaded and left totals, and compact=1, for every infohash and peer id byte content. Totals reflect every change made to them, with left never going below zero. An unusable announce URL or an unreachable tracker is an error, not a crash.",
  ["inputs", "histories"], "all infohashes, peer ids, ports, totals histories and announce URLs",
  "No test builds a request; escaping errors depend on the byte values.",
  ["src/tracker/tracker.go", "src/tracker/stats.go"],
  [("query construction", "src/tracker/tracker.go newRequest"), ("totals", "src/tracker/stats.go")],
  observe=["request received by an HTTP server", "tracker.Get"])

p("P30", "Tracker answers are read exactly or refused",
  "From any well-formed tracker answer, compact or with a list of peer dictionaries, the client gets exactly the listed peers in order (address and port, and id where given) and the interval, minimum interval, warning and seeder/leecher counts stated (addresses in dictionaries being IP literals). A failure reason is returned as an error containing it. Any other answer (not bencoded, not a dictionary, missing or mistyped required fields, negative numbers, compact data not a multiple of six, ports out of range) is an error, never a crash or an invented peer. This holds however the answer arrives (in pieces, with or without a length stated, by way of a redirect) and for any number of peers, and a peer's dial address is usable for IPv4 and IPv6.",
  ["inputs"], "all tracker answers, well-formed or not",
  "One compact answer with four peers is tested; dictionaries, IPv6, failures and malformed answers are not.",
  ["src/tracker/tracker.go", "src/peer/info.go", "src/bencode/dict.go"],
  [("field extraction", "src/tracker/tracker.go newResponse"), ("peer list parsing", "src/tracker/tracker.go GetPeers"), ("dial address", "src/peer/info.go MakePeer")],
  observe=["tracker.Get against an HTTP server", "peer.Info"])

p("P31", "Command line limits and ports mean what they say or are refused",
  "A transfer limit written as digits with an optional sign and an optional unit letter (B, K, M, G, either case) is exactly that number times 1, 1024, 1024^2 or 1024^3 bytes; the default is no limit. Anything else, including values that do not fit, is refused, as are ports above 65535, unknown commands and a missing torrent path. The upload and download limits, port, command, torrent path and working directory given are those the client is set up with, and what it uploads keeps to the upload limit.",
  ["inputs", "configurations"], "all argument strings and combinations",
  "Option parsing has no tests.",
  ["src/utils/opts.go"],
  [("size parsing", "src/utils/opts.go parseSizeUnits"), ("validation", "src/utils/opts.go Validate")],
  observe=["utils.GetOpts in a fresh process"])

p("P32", "Sets and linked lists behave as mathematical sets and sequences",
  "Over any sequence of operations a set reports membership, size and exactly its elements (each once, no others) like a mathematical set keyed by the element's key, with additions and removals telling whether they changed anything. A linked list stays, forwards and backwards, exactly the sequence its front insertions and node removals describe, also when nodes move between lists.",
  ["histories"], "all operation sequences over several sets and lists",
  "The tests run short fixed scripts; pointer errors show only in particular sequences.",
  ["src/utils/ds/set.go", "src/utils/ds/linklist.go"],
  [("map keyed by Key()", "src/utils/ds/set.go"), ("node links", "src/utils/ds/linklist.go")],
  observe=["ds.Set and ds.LinkedList APIs"])

p("P33", "Segmenting, hashing and identity helpers are exact",
  "Segmenting data gives consecutive segments whose concatenation is the data, all of the segment size except a shorter, non-empty last one; hashing segments gives the concatenation of their 20-byte SHA-1 digests. Removing by swap removes exactly the one element and keeps the others. Every generated peer id is 20 bytes, the client prefix and 12 letters, and differs from the one before; human-readable sizes denote the number of bytes given, scaled to the largest unit not exceeding it.",
  ["inputs"], "all data, segment sizes, slices, indices and byte counts",
  "Three segmentations and five removals are tested; hashing, ids and sizes are not.",
  ["src/utils/utils.go"],
  [("segment loop", "src/utils/utils.go SegmentData"), ("swap remove", "src/utils/utils.go RemoveSwap"), ("peer id", "src/utils/utils.go NewPeerId")],
  observe=["utils API"])

p("P34", "A started client announces, listens and dials every listed peer",
  "Starting the program on a valid torrent announces once to its tracker with the listening port and identity it then uses, listens on the configured port, and dials every peer the tracker listed, regardless of how many of them are unreachable, slow or hostile. It then serves peers that connect to it and peers it dialled alike. If the torrent cannot be loaded, its files cannot be prepared or the tracker refuses, the program ends with an error and an exit status that says so, without crashing, and does not start listening.",
  ["configurations", "fault_sequences"], "all torrents, ports, peer lists and peer failures",
  "No test starts the program.",
  ["src/main.go", "src/swarm/swarm.go", "src/swarm/peerhandler.go", "src/tracker/tracker.go"],
  [("construction and start", "src/swarm/swarm.go NewSwarm/Start/runListener")],
  observe=["a real client process, its tracker and its peers"])

p("P35", "The info command reports the torrent and changes nothing",
  "For every torrent that loads, the info command ends successfully after printing its name, announce URL, infohash in hexadecimal, piece count, total length in bytes and, for several files, every file path; for anything else it ends unsuccessfully with an error message, without crashing. It never creates, changes or removes any file and contacts no tracker.",
  ["inputs"], "all torrent files, valid or not, and all working directories",
  "The command has no tests.",
  ["src/main.go", "src/torrent/torrent.go", "src/utils/utils.go"],
  [("info command", "src/main.go CmdTorInfo"), ("rendering", "src/torrent/torrent.go String")],
  observe=["output, exit status and file system effects of the real program"])

p("P36", "Typed dictionary access never misreports",
  "Reading a key of a decoded dictionary as a string, integer, unsigned integer, list or dictionary returns exactly the stored value if it is present with that type, and otherwise an error that distinguishes a missing key from a wrong type. No value is converted from another type, and a negative integer is never returned as an unsigned one.",
  ["inputs"], "all dictionaries, keys and requested types",
  "The tests read one fixed dictionary; negative numbers as unsigned, empty containers and near-miss keys are not tried.",
  ["src/bencode/dict.go"],
  [("type assertions", "src/bencode/dict.go Get*")],
  observe=["bencode.Dict getters"])

p("P37", "Idle sessions are kept alive and silent peers are dropped",
  "While a session lasts the client never leaves its peer without a message for more than two minutes (it sends keep-alives when there is nothing else), and what it sends stays a sequence of whole messages. A peer that at intervals of less than two minutes sends anything at all, even part of a message, and takes some of what it is sent, however slowly, stays connected for as long as it likes. One that sends nothing for two minutes after it has been sent all it asked for, or takes nothing of what it is being sent for two minutes, is dropped, not earlier and within a few seconds, its connection is closed and its session ends, and other sessions are unaffected.",
  ["schedules", "histories"], "all timings of what peers send, over any length of time",
  "No test runs a session, let alone for minutes.",
  ["src/swarm/peerhandler.go", "src/io/readloop.go", "src/p2p/keepalive.go"],
  [("keep-alive ticker", "src/swarm/peerhandler.go pingLoop"), ("read timeout", "src/swarm/peerhandler.go recvLoop GetKeepAlive, src/io/readloop.go Run"), ("write timeout", "src/swarm/takenconn.go")],
  observe=["times and bytes of what is written to the peer's connection", "connection state seen by the peer"])

p("P38", "Killing the client at any moment loses no data",
  "Killing the client at any moment, however often, while it prepares its files or stores pieces (even in the middle of a write), loses nothing: every byte that a file held within its wanted length before preparing is still there, every piece whose storing was reported as done is there in full, no piece other than the one being stored has changed, and of that one each byte is what it was before or what was being stored. The next start succeeds, completes the files, and counts exactly the pieces that are intact.",
  ["crash_points", "histories", "inputs"], "all moments of being killed, in all states of the files and of the storing of any sequence of pieces",
  "No test ends a process in the middle of anything.",
  ["src/utils/futils.go", "src/torrent/fileio/fileio.go", "src/swarm/swarm.go"],
  [("preparing files", "src/utils/futils.go OCAT, AppendZeros"), ("writing pieces", "src/torrent/fileio/fileio.go WritePiece, write"), ("validation at start-up", "src/swarm/swarm.go Validate")],
  observe=["files on disk after SIGKILL", "announced left and bitfield after the next start"])

p("P39", "Clients that are told of each other exchange requests and blocks",
  "When the tracker tells a client of others that run with the same torrent, it connects to each of them, both sides accept each other, the one that is dialled states exactly the pieces it has and each unchokes the other. The client that dialled asks only for pieces that it needs and the other has, each of at most one other client, in blocks that cover a piece exactly; it asks any other that has a needed piece which nobody was asked for; and every request is answered with exactly those bytes of the torrent. This holds for any torrent, any distribution of pieces, any number of clients and however the network cuts up or delays what they say; when one of them ends, the others go on. All the clients keep running, serve others meanwhile and leave their files as they were.",
  ["inputs", "configurations", "schedules"], "all torrents, distributions of pieces among the clients and ways the network delivers",
  "No test has two clients talk to each other.",
  ["src/swarm/swarm.go", "src/swarm/peerhandler.go", "src/swarm/msghandler.go", "src/swarm/handshake.go", "src/p2p/message.go"],
  [("dialling listed peers", "src/swarm/swarm.go Start"), ("handshakes", "src/swarm/peerhandler.go FromBootstrap, FromIncoming"), ("requests", "src/swarm/peerhandler.go requestLoop"), ("answers", "src/swarm/msghandler.go handleRequest")],
  observe=["bytes on the connections between the running clients", "files of the clients"])

p("P40", "A file operation that fails is reported and loses nothing",
  "Whatever operation on the files of a download fails or is cut short (no space, an I/O error, no permission, too many open files, a short read or write), once or from then on, at any moment while the client prepares its files, counts what it has, stores, reads or serves pieces: what it reports as done is done exactly, everything else is reported as an error, and it does not crash. No byte that a file held within its wanted length is lost, except inside a piece that was being stored, whose bytes are then old or new ones. No piece is counted that is not intact, and no peer is sent anything but the torrent's bytes. A failure that is over affects nothing that follows: the same process stores, reads and serves again, and the next start succeeds.",
  ["faults", "histories", "inputs"], "all operations on files, all ways in which they fail, in all states of the files and after any history",
  "No test has a file operation fail.",
  ["src/utils/futils.go", "src/torrent/fileio/fileio.go", "src/swarm/swarm.go", "src/swarm/msghandler.go"],
  [("preparing files", "src/utils/futils.go OCAT, CreateZeroFilledFile, AppendZeros"), ("pieces", "src/torrent/fileio/fileio.go WritePiece, ReadPiece"), ("validation at start-up", "src/swarm/swarm.go Validate"), ("serving", "src/swarm/msghandler.go handleRequest")],
  observe=["exit status and announce of the program", "what storing and reading report", "files on disk", "answers to requests"])

p("P41", "Memory use follows what is there, not what others claim or sent before",
  "Decoding any bytes (bencoding, torrent files, peer messages) allocates memory in proportion to their number, whatever lengths and counts they claim, and nothing of it is kept once the result (also of a tracker's answer) is no longer used. A message that a peer announces but does not send takes at most a few megabytes, however long it is said to be. While a session lasts, what the client holds for it is bounded however many messages the peer sends, and a session that has ended (or was refused) leaves nothing behind: after any number of sessions, whatever they sent and however they ended, the client holds no more memory and runs no more goroutines than before.",
  ["inputs", "histories"], "all inputs and claims in them, all histories of messages and sessions, of any length",
  "Tests decode small well-formed inputs and do not measure memory; growth shows after thousands of messages or sessions.",
  ["src/bencode/decode.go", "src/torrent/info/info.go", "src/p2p", "src/swarm/msghandler.go", "src/swarm/peerhandler.go", "src/swarm/piecetracker.go", "src/io/readloop.go", "src/io/ratelimit.go"],
  [("decoding", "src/bencode/decode.go Decode; src/p2p Decode, DecodeAll"), ("partial messages", "src/swarm/msghandler.go handleData, maxMsgLen"), ("end of a session", "src/swarm/peerhandler.go Loop; src/swarm/piecetracker.go Unregister")],
  observe=["bytes allocated by decoding", "bytes held after garbage collection", "number of goroutines"])

p("P42", "Work grows in proportion to the data, however it is shaped",
  "Decoding and encoding bencoding, loading a torrent, reading a tracker's answer, decoding peer messages, using bitfields and sets, and handling what a peer sends in a session take processor time about in proportion to the amount of data, whatever its shape (many elements, long elements, deep nesting, many files, pieces, keys, peers or messages; accepted or refused): nobody can make the client work for long by sending it little.",
  ["inputs", "histories"], "all inputs and streams, of all sizes and shapes",
  "Tests use inputs of a few hundred bytes, on which work that grows with the square of the input is as fast as any.",
  ["src/bencode/decode.go", "src/bencode/encode.go", "src/torrent/info/info.go", "src/torrent/info/piecemap.go", "src/torrent/torrent.go", "src/tracker/tracker.go", "src/p2p", "src/swarm/msghandler.go", "src/bf/bitfield.go"],
  [("decoding", "src/bencode/decode.go Decode, DictValueBytes; src/p2p Decode, DecodeAll"), ("metadata", "src/torrent/info/info.go NewTorInfo; src/torrent/info/piecemap.go MakePieceMap"), ("stream of a peer", "src/swarm/msghandler.go handleData")],
  observe=["processor time of the same work at two sizes"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
