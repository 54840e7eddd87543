From ec232ecc195527069d6a285f8410d52a9d08c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 01/39] fix: decode the smallest 64-bit integer

Parsing the digits without their sign overflowed for -9223372036854775808,
which the encoder writes.
---
 src/bencode/decode.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 3e86f01..1585f91 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -166,11 +166,10 @@ func (dc *decoder) decodeInt() (int64, error) {
 
 	dc.curs++
 	var strInt string
-	negMult := int64(1)
 
 	// Handle negative ints
 	if dc.curByte() == '-' {
-		negMult = -1
+		strInt += string(dc.curByte())
 		dc.curs++
 	}
 
@@ -201,7 +200,7 @@ func (dc *decoder) decodeInt() (int64, error) {
 		return 0, err
 	}
 
-	return val * negMult, nil
+	return val, nil
 }
 
 // ============================================================================
-- 
2.43.0


From 428020cee87f49128c3fe90954e9fd1a506f0399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 02/39] fix: refuse minus zero and negative integers with
 leading zeros as BEP 3 requires

---
 src/bencode/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 1585f91..053dfde 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -175,6 +175,9 @@ func (dc *decoder) decodeInt() (int64, error) {
 
 	// Should not have leading 0s, unless value is 0
 	if dc.curByte() == '0' {
+		if strInt == "-" {
+			return 0, &DecoderError{"bad int (negative zero) at byte " + strconv.FormatUint(dc.curs, 10)}
+		}
 		strInt += string(dc.curByte())
 		dc.curs++
 		if dc.curByte() != 'e' {
-- 
2.43.0


From 8cf584cd62ce65ae46d26244c3c58231db6c8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 03/39] fix: refuse bencodings nested so deeply that decoding
 exhausts the stack

A few megabytes of 'l' from a tracker or torrent file ended the process with an
unrecoverable stack overflow.
---
 src/bencode/decode.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 053dfde..d3eb253 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -13,6 +13,10 @@ func (de *DecoderError) Error() string {
 	return "decoder error: " + de.msg
 }
 
+// maxDepth is how deeply lists and dictionaries may be nested. A goroutine that
+// runs out of stack cannot be recovered, it takes down the whole process.
+const maxDepth = 10000
+
 // ============================================================================
 // Public =====================================================================
 
@@ -57,6 +61,11 @@ func (dc *decoder) decodeDict() (Dict, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if err := dc.enter(); err != nil {
+		return nil, err
+	}
+	defer dc.leave()
+
 	dc.curs++
 	dict := make(map[string]interface{})
 
@@ -98,6 +107,11 @@ func (dc *decoder) decodeList() (List, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if err := dc.enter(); err != nil {
+		return nil, err
+	}
+	defer dc.leave()
+
 	dc.curs++
 	var list List
 
@@ -210,8 +224,22 @@ func (dc *decoder) decodeInt() (int64, error) {
 // Decoder Struct =============================================================
 
 type decoder struct {
-	data []byte
-	curs uint64
+	data  []byte
+	curs  uint64
+	depth int // How many lists and dictionaries are open
+}
+
+// enter opens a nested list or dictionary.
+func (dc *decoder) enter() error {
+	if dc.depth >= maxDepth {
+		return &DecoderError{"nested too deeply at byte " + strconv.FormatUint(dc.curs, 10)}
+	}
+	dc.depth++
+	return nil
+}
+
+func (dc *decoder) leave() {
+	dc.depth--
 }
 
 func (dc *decoder) curByte() byte {
-- 
2.43.0


From 0250ad4e62b2820848d8b1bfa78ce58a006decc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 04/39] fix: read numbers in linear time when decoding

Growing a string digit by digit took quadratic time: a megabyte of digits from a
tracker kept the client busy for minutes.
---
 src/bencode/decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index d3eb253..0fba374 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -146,12 +146,13 @@ func (dc *decoder) decodeList() (List, error) {
 
 func (dc *decoder) decodeString() (string, error) {
 	var strLen string
+	start := dc.curs
 
 	for {
 		if dc.curByte() >= '0' && dc.curByte() <= '9' {
-			strLen += string(dc.curByte())
 			dc.curs++
 		} else if dc.curByte() == ':' {
+			strLen = string(dc.data[start:dc.curs])
 			dc.curs++
 			break
 		} else {
@@ -180,19 +181,18 @@ func (dc *decoder) decodeInt() (int64, error) {
 
 	dc.curs++
 	var strInt string
+	start := dc.curs
 
 	// Handle negative ints
 	if dc.curByte() == '-' {
-		strInt += string(dc.curByte())
 		dc.curs++
 	}
 
 	// Should not have leading 0s, unless value is 0
 	if dc.curByte() == '0' {
-		if strInt == "-" {
+		if dc.curs > start {
 			return 0, &DecoderError{"bad int (negative zero) at byte " + strconv.FormatUint(dc.curs, 10)}
 		}
-		strInt += string(dc.curByte())
 		dc.curs++
 		if dc.curByte() != 'e' {
 			return 0, &DecoderError{"bad int (leading 0s) at byte " + strconv.FormatUint(dc.curs, 10)}
@@ -202,9 +202,9 @@ func (dc *decoder) decodeInt() (int64, error) {
 	// Read remaining bytes until 'e'
 	for {
 		if dc.curByte() >= '0' && dc.curByte() <= '9' {
-			strInt += string(dc.curByte())
 			dc.curs++
 		} else if dc.curByte() == 'e' {
+			strInt = string(dc.data[start:dc.curs])
 			dc.curs++
 			break
 		} else {
-- 
2.43.0


From f2a4371567655345e6283ad340f7bd535e72d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 05/39] fix: do not return negative integers as huge unsigned
 ones

---
 src/bencode/dict.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bencode/dict.go b/src/bencode/dict.go
index fb0fe1c..7e5ed53 100644
--- a/src/bencode/dict.go
+++ b/src/bencode/dict.go
@@ -75,6 +75,14 @@ func (d Dict) GetUint(key string) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v < 0 {
+		return 0, &DictBadTypeError{
+			key:   key,
+			tWant: "uint64",
+			tHave: "negative int64",
+			dict:  d,
+		}
+	}
 	return uint64(v), nil
 }
 
-- 
2.43.0


From 9091f656edc38e80d76b3d5dbbc8909688e72b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 06/39] fix: hash the info dictionary as it stands in the
 torrent file

---
 src/bencode/decode.go  | 51 ++++++++++++++++++++++++++++++++++++++++++
 src/torrent/torrent.go |  9 ++++++--
 2 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 0fba374..b12124d 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -52,6 +52,57 @@ func Decode(data []byte) (ret interface{}, err error) {
 	return ret, err
 }
 
+// DictValueBytes returns the bytes that encode the value of the given key, as
+// they stand in the bencoded dictionary in data. These are not necessarily the
+// bytes that Encode would produce for that value.
+func DictValueBytes(data []byte, key string) (ret []byte, err error) {
+
+	dc := decoder{data: data, curs: 0}
+
+	defer func() {
+		if r := recover(); r != nil {
+			ret, err = nil, &DecoderError{"read end of data before completion"}
+		}
+	}()
+
+	if dc.curByte() != 'd' {
+		return nil, &DecoderError{"not pointing to dict"}
+	}
+	dc.curs++
+
+	for dc.curByte() != 'e' {
+		k, err := dc.decodeString()
+		if err != nil {
+			return nil, err
+		}
+
+		start := dc.curs
+
+		switch dc.curByte() {
+		case 'i':
+			_, err = dc.decodeInt()
+		case 'l':
+			_, err = dc.decodeList()
+		case 'd':
+			_, err = dc.decodeDict()
+		default: // another string
+			_, err = dc.decodeString()
+		}
+
+		if err != nil {
+			return nil, err
+		}
+		if k == key {
+			ret = data[start:dc.curs]
+		}
+	}
+
+	if ret == nil {
+		return nil, &DictMissingKeyError{key: key}
+	}
+	return ret, nil
+}
+
 // ============================================================================
 // Private ====================================================================
 
diff --git a/src/torrent/torrent.go b/src/torrent/torrent.go
index 3fd7168..825b976 100644
--- a/src/torrent/torrent.go
+++ b/src/torrent/torrent.go
@@ -97,8 +97,13 @@ func FromTorrentFile(torpath string, workingDir string) (*Torrent, error) {
 		return nil, err
 	}
 
-	enc, _ := bencode.Encode(infodict)
-	tor.infohash = utils.SHA1(enc)
+	// The infohash is that of the bytes in the file. Encoding the dictionary
+	// again may give different ones (unsorted keys), or none (empty strings).
+	infobytes, err := bencode.DictValueBytes(fdata, "info")
+	if err != nil {
+		return nil, err
+	}
+	tor.infohash = utils.SHA1(infobytes)
 
 	torInfo, err := info.FromDict(infodict, workingDir)
 	if err != nil {
-- 
2.43.0


From 5b61bb7008ea81a4fc2ec2ab23c672e483b56ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 07/39] fix: refuse torrents whose lengths and hashes are not
 coherent

---
 src/torrent/info/info.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index c948d57..dcb07b6 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -160,12 +161,26 @@ func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.Entry
 		return nil, errors.New("hashes must be multiple of 20")
 	}
 
+	if pieceLen <= 0 {
+		return nil, fmt.Errorf("piece length must be positive, got %v", pieceLen)
+	}
+
 	length := int64(0)
 
 	for _, fentry := range files {
+		if fentry.Length() < 0 {
+			return nil, fmt.Errorf("negative length of file [%v]", fentry.TorPath())
+		}
+		if fentry.Length() > math.MaxInt64-length {
+			return nil, errors.New("total length of files is too large")
+		}
 		length += fentry.Length()
 	}
 
+	if want := filesd.CalcNumPieces(files, pieceLen); int64(len(hashes)/20) != want {
+		return nil, fmt.Errorf("%v bytes in pieces of %v need %v hashes, got %v", length, pieceLen, want, len(hashes)/20)
+	}
+
 	flist := filesd.MakeFileList(files, pieceLen)
 
 	npieces := int64(len(hashes) / 20)
-- 
2.43.0


From 399a808bf3bac09c5add3b721cc52532115c6def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 08/39] fix: find the place of a piece in its file in constant
 time

Loading a torrent took time quadratic in its number of pieces.
---
 src/torrent/filesd/entry.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/torrent/filesd/entry.go b/src/torrent/filesd/entry.go
index 4719137..5efd63f 100644
--- a/src/torrent/filesd/entry.go
+++ b/src/torrent/filesd/entry.go
@@ -99,14 +99,9 @@ func (few *Entry) PieceInfo(index int64, pieceLen int64) (PieceInfo, error) {
 	cursorOff := few.startPieceOff
 
 	// Adjust seekAmnt
-	for {
-		if cursorIdx == index {
-			break
-		}
-
-		seekAmnt += pieceLen - cursorOff
+	if cursorIdx < index {
+		seekAmnt = (index-cursorIdx)*pieceLen - cursorOff
 		cursorOff = 0
-		cursorIdx++
 	}
 
 	// Adjust readAmnt
-- 
2.43.0


From 8db758c47313e0fb18805bc18042f0560ed226ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 09/39] fix: keep the files of a torrent inside the working
 directory

---
 src/torrent/filesd/entrybase.go | 18 ++++++++++++++++++
 src/torrent/info/info.go        |  5 +++++
 2 files changed, 23 insertions(+)

diff --git a/src/torrent/filesd/entrybase.go b/src/torrent/filesd/entrybase.go
index 269abcd..196d8e2 100644
--- a/src/torrent/filesd/entrybase.go
+++ b/src/torrent/filesd/entrybase.go
@@ -3,6 +3,7 @@ package filesd
 import (
 	"errors"
 	"fmt"
+	"os"
 	"strings"
 
 	"gotor/bencode"
@@ -51,6 +52,16 @@ func MakeFileEntry(torPath string, length int64) EntryBase {
 	}
 }
 
+// CheckPathComponent returns an error if the given name of a file or directory,
+// as found in a torrent file, is not the name of a single entry of its parent
+// directory. Joining such a name to a path could lead out of that directory.
+func CheckPathComponent(name string) error {
+	if name == "" || name == "." || name == ".." || strings.ContainsRune(name, '/') || strings.ContainsRune(name, os.PathSeparator) {
+		return fmt.Errorf("invalid path component [%v]", name)
+	}
+	return nil
+}
+
 func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 	entries := make([]EntryBase, 0, 1)
 
@@ -70,6 +81,10 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			return nil, err
 		}
 
+		if len(fPathList) == 0 {
+			return nil, errors.New("file entry contains an empty path")
+		}
+
 		// Read through list of path strings
 		strb := strings.Builder{}
 
@@ -78,6 +93,9 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			if !ok {
 				return nil, fmt.Errorf(fmt.Sprintf("file entry contains invalid path [%v]", fPathEntry))
 			}
+			if err := CheckPathComponent(pathPiece); err != nil {
+				return nil, err
+			}
 			strb.WriteString(pathPiece)
 			strb.WriteByte('/')
 		}
diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index dcb07b6..6186bb3 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -215,6 +215,11 @@ func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
 		return nil, err
 	}
 
+	// The name becomes part of the path of every file
+	if err := filesd.CheckPathComponent(name); err != nil {
+		return nil, err
+	}
+
 	pieceLen, err := info.GetInt("piece length")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From bebea655174c98aee65ca21acb14955df1a28d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 10/39] fix: hash pieces larger than the buffer when creating
 metadata

A piece length above 5 MiB made the buffer empty and never ended, one below
one panicked.
---
 src/torrent/info/info.go | 49 +++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 6186bb3..2f8ebfe 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -1,6 +1,7 @@
 package info
 
 import (
+	"crypto/sha1"
 	"errors"
 	"fmt"
 	"io"
@@ -11,7 +12,6 @@ import (
 
 	"gotor/bencode"
 	"gotor/torrent/filesd"
-	"gotor/utils"
 )
 
 // ============================================================================
@@ -84,11 +84,13 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 	const mib = 1048576
 	const maxBuf = 5 * mib
 
-	npieces := maxBuf / pieceLen
-	bufSize := npieces * pieceLen
+	if pieceLen <= 0 {
+		return nil, fmt.Errorf("piece length must be positive, got %v", pieceLen)
+	}
 
-	buf := make([]byte, bufSize, bufSize)
-	buflen := int64(0)
+	buf := make([]byte, maxBuf, maxBuf)
+	hasher := sha1.New()
+	pieceRem := pieceLen // How much of the current piece is missing from hasher
 	pieceHashes := strings.Builder{}
 
 	// Multifile torrents don't include the base directory in the files dictionary.
@@ -116,7 +118,7 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 
 		for {
 			// Fill buffer with data
-			n, e := fptr.Read(buf[buflen:])
+			n, e := fptr.Read(buf)
 			if e != nil {
 				if e != io.EOF {
 					return nil, e
@@ -125,17 +127,24 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 				// next file.
 				break
 			}
-			buflen += int64(n)
-
-			// If the buffer is now full, process the pieces.
-			// then "clear" the buffer and loop again.
-			if buflen == bufSize {
-				pieces := utils.SegmentData(buf, pieceLen)
-				for _, piece := range pieces {
-					pieceHash := utils.SHA1(piece)
-					pieceHashes.WriteString(pieceHash)
+
+			// Hash the data up to the end of each piece. Pieces may be larger
+			// than the buffer, and span several files.
+			for data := buf[:n]; len(data) > 0; {
+				part := data
+				if int64(len(part)) > pieceRem {
+					part = part[:pieceRem]
+				}
+				data = data[len(part):]
+
+				hasher.Write(part)
+				pieceRem -= int64(len(part))
+
+				if pieceRem == 0 {
+					pieceHashes.Write(hasher.Sum(nil))
+					hasher.Reset()
+					pieceRem = pieceLen
 				}
-				buflen = 0
 			}
 		}
 
@@ -145,11 +154,9 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 		}
 	}
 
-	// Process anything remaining in the buffer
-	pieces := utils.SegmentData(buf[:buflen], pieceLen)
-	for _, piece := range pieces {
-		pieceHash := utils.SHA1(piece)
-		pieceHashes.WriteString(pieceHash)
+	// The last piece may be shorter
+	if pieceRem < pieceLen {
+		pieceHashes.Write(hasher.Sum(nil))
 	}
 
 	return NewTorInfo(name, pieceLen, pieceHashes.String(), fentries)
-- 
2.43.0


From 5a97043ea6a2b6c6064abff27ac47a156256def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 11/39] fix: refuse to write pieces of the wrong length

---
 src/torrent/fileio/fileio.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/torrent/fileio/fileio.go b/src/torrent/fileio/fileio.go
index 38eedcc..a523999 100644
--- a/src/torrent/fileio/fileio.go
+++ b/src/torrent/fileio/fileio.go
@@ -171,6 +171,15 @@ func (fio *FileIO) WritePiece(index int64, data []byte) (int64, error) {
 
 	knownHash := fio.torInfo.PieceHash(index)
 
+	// A torrent may well name the hash of data of another length
+	pieceLen := int64(0)
+	for _, ploc := range plocs {
+		pieceLen += ploc.Loc.ReadAmnt
+	}
+	if int64(len(data)) != pieceLen {
+		return 0, fmt.Errorf("invalid length %v of piece %v, refusing write", len(data), index)
+	}
+
 	if utils.SHA1(data) != knownHash {
 		return 0, errors.New("invalid hash, refusing write")
 	}
-- 
2.43.0


From 36c495a3d470df05ee14d4187d13b81eccf2eeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 12/39] fix: decode piece messages, and malformed messages
 without crash or endless loop

The length prefix overflowed when added to, piece messages were always
refused (and the nil message dereferenced), and an empty bitfield message
was decoded over and over again.
---
 src/p2p/message.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index 2f4c281..313265c 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -165,13 +165,13 @@ func Decode(data []byte) (DecodeResult, error) {
 		// Type 2 = Interested
 		// Type 3 = Not Interested
 		return badResult, fmt.Errorf("invalid message, length for id [0-3] must be 1, got %v", msglen)
-	} else if uint32(len(data)) < 4+msglen {
+	} else if uint64(len(data)) < 4+uint64(msglen) {
 		// Messages with payload
 		return badResult, fmt.Errorf("length specified as %v, payload length is %v", msglen, len(data))
 	}
 
 	// msglen includes length byte, -1 to exclude it
-	payload := data[PayloadStart : PayloadStart+msglen-1]
+	payload := data[PayloadStart : 4+uint64(msglen)]
 
 	var msg Message
 	var n uint64
@@ -200,15 +200,13 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(MsgHaveTotalLen)
 	case TypeBitfield:
 		msg, err = DecodeMsgBitfield(data, msglen)
-		if err == nil {
-			n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
-		}
+		n = uint64(MsgLengthPrefixLen) + uint64(msglen)
 	case TypeRequest:
 		msg, err = DecodeMsgRequest(payload)
 		n = uint64(MsgRequestTotalLen)
 	case TypePiece:
-		msg, err = DecodeMsgPiece(payload, msglen)
-		n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
+		msg, err = DecodeMsgPiece(payload, msglen-1)
+		n = uint64(MsgLengthPrefixLen) + uint64(msglen)
 	default:
 		msg = nil
 		err = fmt.Errorf("unknown message type %v", mtype)
-- 
2.43.0


From 31d6e2dd0bbec5da9bc36faccf24c6ff017b4de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 13/39] fix: encode request messages

---
 src/p2p/request.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/p2p/request.go b/src/p2p/request.go
index d494bce..5cfeef7 100644
--- a/src/p2p/request.go
+++ b/src/p2p/request.go
@@ -61,10 +61,11 @@ func (mr *MsgRequest) ReqLen() uint32 {
 // IMPL =======================================================================
 
 func (mr *MsgRequest) Encode() []byte {
-	pl := mr.msgBase.Encode()
-	binary.BigEndian.PutUint32(pl, mr.index)
-	binary.BigEndian.PutUint32(pl, mr.begin)
-	binary.BigEndian.PutUint32(pl, mr.reqlen)
+	pl := make([]byte, MsgRequestTotalLen, MsgRequestTotalLen)
+	mr.msgBase.fillBase(pl)
+	binary.BigEndian.PutUint32(pl[PayloadStart:], mr.index)
+	binary.BigEndian.PutUint32(pl[PayloadStart+4:], mr.begin)
+	binary.BigEndian.PutUint32(pl[PayloadStart+8:], mr.reqlen)
 	return pl
 }
 
-- 
2.43.0


From 57ac431849a4477a4f9a58e9d128a9d726ca40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 14/39] fix: do not let decoded pieces share the receive buffer

---
 src/p2p/piece.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/p2p/piece.go b/src/p2p/piece.go
index 85ff91f..1f6aab5 100644
--- a/src/p2p/piece.go
+++ b/src/p2p/piece.go
@@ -86,6 +86,10 @@ func DecodeMsgPiece(payload []byte, length uint32) (*MsgPiece, error) {
 	}
 	index := binary.BigEndian.Uint32(payload[0:4])
 	begin := binary.BigEndian.Uint32(payload[4:8])
-	block := payload[8:]
+
+	// The payload is usually a part of a buffer that is read into over and
+	// over again, which must not change the message.
+	block := make([]byte, len(payload)-8)
+	copy(block, payload[8:])
 	return NewMsgPiece(index, begin, block), nil
 }
-- 
2.43.0


From d40792af58d942000b43aa8e4261f2367e9f3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 15/39] fix: fill only the bits in range of a bitfield, keep
 its number of bytes

The header that precedes the bits and the spare bits after them were
overwritten as well, and SetNbits accepted a number of bits that needs one byte less.
---
 src/bf/bitfield.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bf/bitfield.go b/src/bf/bitfield.go
index 5a4ab05..f5cce27 100644
--- a/src/bf/bitfield.go
+++ b/src/bf/bitfield.go
@@ -101,10 +101,9 @@ func (bf *Bitfield) calcNset() {
 }
 
 func (bf *Bitfield) Fill() {
-	for i, _ := range bf.data5 {
-		bf.data5[i] = 255
+	for i := int64(0); i < bf.nbits; i++ {
+		bf.Set(i, true)
 	}
-	bf.nset = bf.nbits
 }
 
 func (bf *Bitfield) Get(idx int64) bool {
@@ -162,7 +161,7 @@ func (bf *Bitfield) Nset() int64 {
 // 00000000 00000000 00000xxx
 
 func (bf *Bitfield) SetNbits(nbits int64) {
-	if nbits < (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
+	if nbits <= (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
 		panic("cannot set nbits such that nbytes would change")
 	}
 	bf.nbits = nbits
-- 
2.43.0


From 8f37c1cae72c49d5b34170c380a072c165ed9f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 16/39] fix: list only the elements of a set

---
 src/utils/ds/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/ds/set.go b/src/utils/ds/set.go
index 9bb8687..5f593c0 100644
--- a/src/utils/ds/set.go
+++ b/src/utils/ds/set.go
@@ -38,7 +38,7 @@ func (s *Set[T]) Size() int {
 }
 
 func (s *Set[T]) Items() []T {
-	items := make([]T, len(s.set))
+	items := make([]T, 0, len(s.set))
 	for _, v := range s.set {
 		items = append(items, v)
 	}
-- 
2.43.0


From 42ee5e2c97dd753daf64ace14b591cc4f1d1ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 17/39] fix: assign a piece to one peer only, until that peer
 leaves

The piece marked as requested was a copy, and the assignments of a peer that
left were kept, to be given up again with those of another one when it comes back.
---
 src/swarm/piecetracker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index d18999d..7d5cfd4 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -123,6 +123,7 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 	for _, p := range ppt.requests[whom] {
 		p.active = false
 	}
+	delete(ppt.requests, whom)
 
 	// Remove peer from all index peer sets
 	for _, node := range ppt.nodes {
@@ -155,14 +156,14 @@ func (ppt *PeerPieceTracker) NextPiece(whom *PeerHandler) (uint32, bool) {
 
 		cur := ppt.buckets[i].Head()
 		for cur != nil {
-			curPiece := cur.Data
+			curPiece := &cur.Data
 			// If the piece is needed
 			if !ppt.bf.Get(int64(curPiece.index)) {
 				// If the piece isn't taken by another peer, and
 				// the peer has the piece
 				if !curPiece.active && curPiece.peerSet.Has(whom) {
 					curPiece.active = true
-					ppt.requests[whom] = append(ppt.requests[whom], &curPiece)
+					ppt.requests[whom] = append(ppt.requests[whom], curPiece)
 					return curPiece.index, true
 				}
 			}
-- 
2.43.0


From 03cc8de16014d0f30c2e6b8588083ac3a4c66ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 18/39] fix: let 64 and more peers have the same piece

---
 src/swarm/piecetracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index 7d5cfd4..aa80468 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -104,7 +104,7 @@ func (ppt *PeerPieceTracker) register(whom *PeerHandler, index uint32) {
 	if !node.Data.peerSet.Has(whom) {
 		// Move to next bucket, unless this is the largest bucket
 		oldCount := node.Data.peerSet.Size()
-		if oldCount < numBuckets {
+		if oldCount < numBuckets-1 {
 			ppt.buckets[oldCount].Remove(node)
 			ppt.buckets[oldCount+1].AddNodeFront(node)
 		}
@@ -133,7 +133,7 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 			// leaves it in the largest bucket. I.e, numBuckets = 50
 			// and oldCount = 52, then the node should remain in bucket 50.
 			oldCount := node.Data.peerSet.Size()
-			if oldCount <= numBuckets {
+			if oldCount < numBuckets {
 				ppt.buckets[oldCount].Remove(node)
 				ppt.buckets[oldCount-1].AddNodeFront(node)
 			}
-- 
2.43.0


From 45beb3d8cd54f100b48e2aa42fa31df35e7d040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 19/39] fix: serve only requests inside a piece

Others crashed the client, or were answered with what was left in the buffer
from another piece.
---
 src/swarm/msghandler.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index d2bfadc..9e9348e 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -59,12 +59,22 @@ func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 	// TODO: Cache pieces
 	s := ph.swarm
 	idx := int64(reqMsg.Index())
-	if s.Bf.Complete() || s.Bf.Get(idx) {
-		_, e := s.Fileio.ReadPiece(idx, ph.buf)
+	if idx < s.Bf.Nbits() && s.Bf.Get(idx) {
+		n, e := s.Fileio.ReadPiece(idx, ph.buf)
 		if e != nil {
 			return e
 		}
-		subdata := ph.buf[reqMsg.Begin() : reqMsg.Begin()+reqMsg.ReqLen()]
+
+		// The block must be inside the piece, which may be shorter than the
+		// buffer (last piece)
+		begin := int64(reqMsg.Begin())
+		end := begin + int64(reqMsg.ReqLen())
+		if end > n {
+			log.Printf("ignoring request for [%v, %v) of piece %v from %v", begin, end, idx, ph.peerInfo.Addr())
+			return nil
+		}
+
+		subdata := ph.buf[begin:end]
 		mPiece := p2p.NewMsgPiece(reqMsg.Index(), reqMsg.Begin(), subdata)
 		e = s.RLIO.Write(ph.conn, mPiece.Encode())
 		if e != nil {
-- 
2.43.0


From cb34240875f5b66338b6dc2ea181192cef93f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 20/39] fix: read the whole handshake of incoming peers, close
 refused connections

A handshake may arrive in several segments.
---
 src/swarm/peerhandler.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 0eb1fdc..f5ae3d6 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -3,6 +3,7 @@ package swarm
 import (
 	"errors"
 	"fmt"
+	stdio "io"
 	"log"
 	"math"
 	"net"
@@ -65,7 +66,14 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 
 // FromIncoming receives a new peer connection. It will first check for the correct
 // BitTorrent handshake, add to the peer list, then send a handshake and bitfield back.
-func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
+func FromIncoming(conn net.Conn, swarm *Swarm) (ph *PeerHandler, e error) {
+
+	// Nobody else closes the connection if there is no handler for it
+	defer func() {
+		if e != nil {
+			_ = conn.Close()
+		}
+	}()
 
 	// Must be using TCP (for now atleast)
 	tcpAddr, ok := conn.RemoteAddr().(*net.TCPAddr)
@@ -76,19 +84,18 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 	buf := make([]byte, HandshakeLen)
 
 	// Set timeout
-	e := conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
+	e = conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
 	if e != nil {
 		return nil, e
 	}
 
 	// Read the handshake
-	_, e = conn.Read(buf)
+	_, e = stdio.ReadFull(conn, buf)
 	if e != nil {
 		return nil, e
 	}
 	peerHs := Handshake(buf)
 	if !ValidHandshake(peerHs, swarm.Tor.Infohash()) {
-		_ = conn.Close() // TODO: Handle?
 		return nil, fmt.Errorf("bad peer handshake")
 	}
 	log.Printf("good handshake from %v", conn.RemoteAddr())
-- 
2.43.0


From be31b08d82a15621e0fe5de5bb44575aacee9b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 21/39] fix: check the handshake of the peers we connect to

It was taken for messages of the peer.
---
 src/swarm/peerhandler.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index f5ae3d6..91cc6dc 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -47,13 +47,20 @@ type PeerHandler struct {
 // FUNK =======================================================================
 
 // FromBootstrap creates a TCP connection with the peer, then sends the BitTorrent
-// handshake.
-func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
+// handshake and checks the one the peer sends back.
+func FromBootstrap(pInfo peer.Info, swarm *Swarm) (ph *PeerHandler, e error) {
 	conn, e := net.Dial("tcp", pInfo.Addr())
 	if e != nil {
 		return nil, e
 	}
 
+	// Nobody else closes the connection if there is no handler for it
+	defer func() {
+		if e != nil {
+			_ = conn.Close()
+		}
+	}()
+
 	hs := MakeHandshake(swarm.Tor.Infohash(), swarm.Id)
 
 	_, e = conn.Write(hs)
@@ -61,6 +68,23 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 		return nil, e
 	}
 
+	// Set timeout
+	e = conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
+	if e != nil {
+		return nil, e
+	}
+
+	// Read the handshake
+	peerHs := make(Handshake, HandshakeLen)
+	_, e = stdio.ReadFull(conn, peerHs)
+	if e != nil {
+		return nil, e
+	}
+	if !ValidHandshake(peerHs, swarm.Tor.Infohash()) {
+		return nil, fmt.Errorf("bad peer handshake")
+	}
+	log.Printf("good handshake from %v", conn.RemoteAddr())
+
 	return NewPeerHandler(pInfo, swarm, conn), nil
 }
 
-- 
2.43.0


From fab2ac1f40c5ea370c104e88cd60859e308057b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 22/39] fix: let the read loop finish at any moment, and
 deliver data that comes with an error

Finish waited for a loop that was itself waiting for data.
---
 src/io/readloop.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/io/readloop.go b/src/io/readloop.go
index c1e5ea8..0a82dfc 100644
--- a/src/io/readloop.go
+++ b/src/io/readloop.go
@@ -3,6 +3,7 @@ package io
 import (
 	"log"
 	"net"
+	"sync"
 	"time"
 )
 
@@ -17,6 +18,7 @@ type ReadLoop struct {
 	chReady chan struct{} // Once data in chBuf is processed, this signals user is ready to read again
 	chErr   chan error    // Errors encountered when reading
 	chDone  chan struct{} // Once user is done, Run() will exit
+	finish  sync.Once     // Closes chDone
 
 	conn    net.Conn
 	timeout time.Duration
@@ -27,7 +29,7 @@ func NewReadLoop(bufSize int64, conn net.Conn, timeout time.Duration) *ReadLoop
 		buf:     make([]byte, bufSize, bufSize),
 		chBuf:   make(chan []byte, 1),
 		chReady: make(chan struct{}, 1),
-		chErr:   make(chan error),
+		chErr:   make(chan error, 1), // Only one is sent, even if nobody listens
 		chDone:  make(chan struct{}),
 		conn:    conn,
 		timeout: timeout,
@@ -52,7 +54,7 @@ func (rl *ReadLoop) ReadError() <-chan error {
 
 // Finish cancels the current conn.Read() call and terminates the call to Run().
 func (rl *ReadLoop) Finish() {
-	rl.chDone <- struct{}{}
+	rl.finish.Do(func() { close(rl.chDone) })
 	// Set the cancel time to now. Rather than using time.Now() which involves
 	// a syscall, use Unix(1,0)
 	_ = rl.conn.SetReadDeadline(time.Unix(1, 0))
@@ -74,11 +76,15 @@ func (rl *ReadLoop) Run() {
 			break
 		}
 
+		// Finish may have set its deadline before we did
+		select {
+		case <-rl.chDone:
+			return
+		default:
+		}
+
 		n, e := rl.conn.Read(rl.buf)
-		if n == 0 || e != nil {
-			rl.chErr <- e
-			break
-		} else {
+		if n > 0 {
 			rl.chBuf <- rl.buf[:n]
 
 			select {
@@ -87,5 +93,9 @@ func (rl *ReadLoop) Run() {
 				done = true
 			}
 		}
+		if e != nil {
+			rl.chErr <- e
+			break
+		}
 	}
 }
-- 
2.43.0


From dfc5c119a1ab13509b14e9c24f5c57adf405a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 23/39] fix: share the state of the rate limiter between
 goroutines safely

Waiting for the limit was a race (and kept a core busy), and the limit could
not be changed or lifted while somebody was waiting for it.
---
 src/io/ratelimit.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 5edfe5a..c5c46b5 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -40,25 +40,23 @@ func (rl *RateLimitIO) SetReadRate(limit int64) {
 	if limit < NoLimit {
 		limit = NoLimit
 	}
-	rl.rlock.Lock()
-	defer rl.rlock.Unlock()
-	rl.rRate = limit // Only place this is modified, don't need atomic
+	// No locking, whoever waits for the limit holds the lock
+	atomic.StoreInt64(&rl.rRate, limit)
 }
 
 func (rl *RateLimitIO) SetWriteRate(limit int64) {
 	if limit < NoLimit {
 		limit = NoLimit
 	}
-	rl.wlock.Lock()
-	defer rl.wlock.Unlock()
-	rl.wRate = limit // Only place this is modified, don't need atomic
+	// No locking, whoever waits for the limit holds the lock
+	atomic.StoreInt64(&rl.wRate, limit)
 }
 
 // Run will maintain the set rate limit in an infinite loop, until Stop() is
 // called. This method should almost certainly be in its own goroutine.
 func (rl *RateLimitIO) Run() {
-	rl.rUsed = 0
-	rl.wUsed = 0
+	atomic.StoreInt64(&rl.rUsed, 0)
+	atomic.StoreInt64(&rl.wUsed, 0)
 
 	done := false
 	for !done {
@@ -88,7 +86,7 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	// No sense locking here, if we introduce a limit during a call to Write,
 	// the lock would only be acquired after the in-progress Write finishes
 	// and the rate-limit would be effectively ignored.
-	if rl.wRate == NoLimit {
+	if atomic.LoadInt64(&rl.wRate) == NoLimit {
 		_, e := writer.Write(data)
 		atomic.AddInt64(&rl.wUsed, lenData)
 		atomic.AddInt64(&rl.wTotal, lenData)
@@ -101,9 +99,11 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	defer unlocker.Do(rl.wlock.Unlock)
 
 	for {
-		if rl.wUsed < rl.wRate {
+		rate := atomic.LoadInt64(&rl.wRate)
+		if rate == NoLimit || atomic.LoadInt64(&rl.wUsed) < rate {
 			break
 		}
+		time.Sleep(time.Millisecond)
 	}
 
 	atomic.AddInt64(&rl.wUsed, lenData)
@@ -125,7 +125,7 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	// No sense locking here, if we introduce a limit during a call to Read,
 	// the lock would only be acquired after the in-progress Read finishes
 	// and the rate-limit would be effectively ignored.
-	if rl.rRate == NoLimit {
+	if atomic.LoadInt64(&rl.rRate) == NoLimit {
 		_, e := reader.Read(buf)
 		atomic.AddInt64(&rl.rUsed, lenBuf)
 		atomic.AddInt64(&rl.rTotal, lenBuf)
@@ -138,9 +138,11 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	defer unlocker.Do(rl.rlock.Unlock)
 
 	for {
-		if rl.rUsed < rl.rRate {
+		rate := atomic.LoadInt64(&rl.rRate)
+		if rate == NoLimit || atomic.LoadInt64(&rl.rUsed) < rate {
 			break
 		}
+		time.Sleep(time.Millisecond)
 	}
 
 	atomic.AddInt64(&rl.rUsed, lenBuf)
-- 
2.43.0


From e8e4f8266773f811efd20780cb8456b1fda40783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 24/39] fix: understand messages however they are cut into
 segments

Messages that were received in several parts were lost, and so were those that
came in the same segment after one we do not know.
---
 src/swarm/msghandler.go  | 62 ++++++++++++++++++++++++++++++----------
 src/swarm/peerhandler.go | 17 ++++-------
 2 files changed, 53 insertions(+), 26 deletions(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index 9e9348e..a71c7d4 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -1,32 +1,64 @@
 package swarm
 
 import (
+	"encoding/binary"
 	"errors"
+	"fmt"
 	"log"
 
 	"gotor/p2p"
 )
 
-// handleMessage decodes the data in the buffer and handles the messages appropriately.
-func (ph *PeerHandler) handleMessage(buf []byte) error {
-	var e error
-	dar := p2p.DecodeAll(buf)
-	pcent := 100.0 * float32(dar.Read) / float32(len(buf))
-	log.Printf("Decoded %v/%v (%v%%) bytes from %v\n", dar.Read, len(buf), pcent, ph.peerInfo.Addr())
-
-	for _, msg := range dar.Msgs {
-		switch msg.Mtype() {
-		case p2p.TypeRequest:
-			mreq := msg.(*p2p.MsgRequest)
-			e = ph.handleRequest(mreq)
-		case p2p.TypeBitfield:
-			mbf := msg.(*p2p.MsgBitfield)
-			e = ph.handleBitfield(mbf)
+// handleData handles all the messages that are complete with the data received.
+// The data need not start or end where a message does, what is left is kept
+// until the rest of it has been received.
+func (ph *PeerHandler) handleData(data []byte) error {
+	ph.recvd = append(ph.recvd, data...)
+	buf := ph.recvd
+
+	for len(buf) >= int(p2p.MsgLengthPrefixLen) {
+		msgLen := uint64(p2p.MsgLengthPrefixLen) + uint64(binary.BigEndian.Uint32(buf))
+		if msgLen > ph.maxMsgLen() {
+			return fmt.Errorf("message of %v bytes is too long", msgLen)
+		}
+		if msgLen > uint64(len(buf)) {
+			break
 		}
 
+		e := ph.handleMessage(buf[:msgLen])
 		if e != nil {
 			return e
 		}
+		buf = buf[msgLen:]
+	}
+
+	ph.recvd = ph.recvd[:copy(ph.recvd, buf)]
+	return nil
+}
+
+// maxMsgLen is the total length of the longest message we receive.
+func (ph *PeerHandler) maxMsgLen() uint64 {
+	bfLen := uint64(p2p.MsgBitfieldMinLen) + uint64(ph.swarm.Bf.Nbytes())
+	if bfLen > maxMsgLen {
+		return bfLen
+	}
+	return maxMsgLen
+}
+
+// handleMessage decodes the message in the buffer and handles it appropriately.
+func (ph *PeerHandler) handleMessage(buf []byte) error {
+	res, e := p2p.Decode(buf)
+	if e != nil {
+		// Not necessarily garbage, may be part of some extension
+		log.Printf("skipping %v bytes from %v: %v\n", len(buf), ph.peerInfo.Addr(), e)
+		return nil
+	}
+
+	switch msg := res.Msg.(type) {
+	case *p2p.MsgRequest:
+		return ph.handleRequest(msg)
+	case *p2p.MsgBitfield:
+		return ph.handleBitfield(msg)
 	}
 
 	return nil
diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 91cc6dc..db5b99a 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -26,6 +26,10 @@ const (
 
 	// requestLength is the same piece request length as qBittorrent
 	requestLength = 16384
+
+	// maxMsgLen is the total length of the longest message we receive, unless
+	// our bitfield is longer. The same maximum is used by libtorrent.
+	maxMsgLen = 1048576
 )
 
 // ============================================================================
@@ -39,6 +43,7 @@ type PeerHandler struct {
 	bf        *bf.Bitfield
 	procs     sync.WaitGroup // How many loops are running for this handler
 	buf       []byte         // Buffer for file io operations
+	recvd     []byte         // Start of a message that was not received in full yet
 
 	chErr chan<- error // Report errors
 }
@@ -217,16 +222,6 @@ func (ph *PeerHandler) Loop() {
 // recvLoop handles reading in data from the peer and sending
 // replies if needed.
 func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
-	// TODO: Should probably handle split messages
-	// What if we need to recv more than we can handle?
-	// 1. Decode all messages
-	// 2. Any subsections of bytes that were not decoded AND come
-	//    before any successfully decoded messages are discarded
-	// 3. This could leave a tail of non-decoded bytes. These should
-	//    be stored in another buffer. When we go to read again,
-	//    append new data to previous data and try decoding all again.
-	// 4. Rinse repeat.
-
 	ph.procs.Add(1)
 	defer ph.procs.Done()
 
@@ -242,7 +237,7 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 		select {
 		case buf := <-readLoop.ReadData():
-			e = ph.handleMessage(buf)
+			e = ph.handleData(buf)
 			readLoop.Ready()
 		case e = <-readLoop.ReadError():
 			done = true
-- 
2.43.0


From 25e5d58b367706200cd7a8ccc4db4bd075d77fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 25/39] fix: request the blocks of a piece one after the other

The same one was appended over and over, until memory ran out.
---
 src/swarm/peerhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index db5b99a..3535235 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -302,6 +302,7 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 	for offset < length {
 		reqlen := uint32(math.Min(requestLength, float64(length-offset)))
 		msgs = append(msgs, p2p.NewMsgRequest(index, offset, reqlen))
+		offset += reqlen
 	}
 
 	return msgs
-- 
2.43.0


From 635c4f5e4012fbeb81bc74ee29a9742612e2dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 26/39] fix: end a session and release what it holds when its
 peer fails

A goroutine of the session kept waiting, the connection was never closed, and
the pieces assigned to the peer were never given to another one.
---
 src/swarm/peerhandler.go | 67 ++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 3535235..d730b7d 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -27,6 +27,9 @@ const (
 	// requestLength is the same piece request length as qBittorrent
 	requestLength = 16384
 
+	// requestInterval is how often we look for pieces to request
+	requestInterval = 100 * time.Millisecond
+
 	// maxMsgLen is the total length of the longest message we receive, unless
 	// our bitfield is longer. The same maximum is used by libtorrent.
 	maxMsgLen = 1048576
@@ -177,8 +180,9 @@ func (ph *PeerHandler) Choke() error {
 
 func (ph *PeerHandler) Loop() {
 
-	// Any goroutines spawned should report errors on this chan
-	chErr := make(chan error)
+	// Any goroutines spawned should report errors on this chan, at most one
+	// each, and we only listen to the first
+	chErr := make(chan error, 3)
 
 	// Use to stop to all spawned goroutines
 	chDone := make(chan bool)
@@ -190,30 +194,32 @@ func (ph *PeerHandler) Loop() {
 		log.Printf("error unchoking: %v\n", e)
 	}
 
+	ph.procs.Add(3)
+
 	go ph.pingLoop(chErr, chDone)
 
 	go ph.recvLoop(chErr, chDone)
 
 	go ph.requestLoop(chErr, chDone)
 
-	done := false
-	for {
-		if done {
-			break
-		}
+	// For now, just kill ourselves if we receive any error.
+	// We will fine-tune this later
+	e = <-chErr
+	log.Printf("error peer [%v] (killing): %v", ph.peerInfo.String(), e)
 
-		select {
-		// For now, just kill ourselves if we receive any error.
-		// We will fine-tune this later
-		case e = <-chErr:
-			done = true
-			log.Printf("error peer [%v] (killing): %v", ph.peerInfo.String(), e)
-			chDone <- true
-			ph.procs.Wait()
-			// We will eventually wrap this in a struct so that we can
-			// tell the main loop which PeerHandler has errored
-			ph.chErr <- e
-		}
+	// Stop everyone, closing the connection ends pending reads and writes
+	close(chDone)
+	_ = ph.conn.Close()
+	ph.procs.Wait()
+
+	// Others may have the pieces that the peer was assigned
+	ph.swarm.PPT.Unregister(ph)
+
+	// We will eventually wrap this in a struct so that we can
+	// tell the main loop which PeerHandler has errored
+	select {
+	case ph.chErr <- e:
+	default: // Nobody is listening
 	}
 
 	log.Printf("peer %v done", ph.peerInfo.Addr())
@@ -222,7 +228,6 @@ func (ph *PeerHandler) Loop() {
 // recvLoop handles reading in data from the peer and sending
 // replies if needed.
 func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	defer log.Printf("end recvLoop [%v]", ph.peerInfo.String())
@@ -230,6 +235,7 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 	readLoop := io.NewReadLoop(RecvBufSize, ph.conn, GetKeepAlive)
 	go readLoop.Run()
+	defer readLoop.Finish()
 
 	var e error
 	done := false
@@ -242,7 +248,6 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 		case e = <-readLoop.ReadError():
 			done = true
 		case <-chKill:
-			readLoop.Finish()
 			done = true
 		}
 
@@ -255,7 +260,6 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 // requestLoop sends out piece requests to the peer.
 func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	log.Printf("start requestLoop [%v]", ph.peerInfo.String())
@@ -263,7 +267,9 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 
 	reqs := make([]uint32, 0, 5)
 
-	// TODO: Yikes
+	ticker := time.NewTicker(requestInterval)
+	defer ticker.Stop()
+
 	for !ph.swarm.Bf.Complete() {
 
 		// Fill up requests
@@ -278,13 +284,22 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 			// Make the request. qBittorrent uses 16KiB requests
 			msgs := ph.createReqMessages(next)
 			for _, msg := range msgs {
-				// TODO: Handle
-				_ = ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				e := ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				if e != nil {
+					chErr <- e
+					return
+				}
 				fmt.Printf("sent request for %v : %v", msg.Index(), msg.ReqLen())
 			}
 			fmt.Printf("sent %v msgs", len(msgs))
 		}
 
+		// There may be other pieces to request later on
+		select {
+		case <-ticker.C:
+		case <-chDone:
+			return
+		}
 	}
 }
 
@@ -312,7 +327,6 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 // defined by SendKeepAlive.
 func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 	defer log.Printf("end pingLoop [%v]", ph.peerInfo.String())
 
@@ -320,6 +334,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
 	addr := ph.peerInfo.Addr()
 	ticker := time.NewTicker(SendKeepAlive)
+	defer ticker.Stop()
 	ka := p2p.KeepAliveSingleton
 	data := ka.Encode()
 
-- 
2.43.0


From 284f8526f65ac550c40ee3969298de6c419dfcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 27/39] fix: keep running when a connection cannot be accepted

As many connections as the client may have files open crashed it, and every
handler was kept (unsafely) after its session.
---
 src/swarm/swarm.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index fa301a1..d8af9a9 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"net"
 	"strings"
+	"time"
 
 	"gotor/bf"
 	"gotor/io"
@@ -15,6 +16,9 @@ import (
 	"gotor/utils"
 )
 
+// acceptDelay is how long we wait after a connection could not be accepted
+const acceptDelay = 100 * time.Millisecond
+
 // ============================================================================
 // STRUCTS ====================================================================
 
@@ -144,12 +148,14 @@ func (s *Swarm) runListener() {
 	}
 	log.Printf("Listening on port %v\n", opts.Port())
 
-	phs := make([]*PeerHandler, 0, 4)
-
 	for {
 		conn, err := listener.Accept()
 		if err != nil {
-			panic(err)
+			// The peer may be gone already, or we have too many connections
+			// for now
+			log.Printf("failed to accept a peer: %v", err)
+			time.Sleep(acceptDelay)
+			continue
 		}
 		log.Printf("new client @ %v", conn.RemoteAddr())
 
@@ -158,7 +164,6 @@ func (s *Swarm) runListener() {
 			if e != nil {
 				log.Println(e)
 			} else {
-				phs = append(phs, ph)
 				ph.Loop()
 			}
 		}(conn)
-- 
2.43.0


From bc888bfeb599a5302e3c12e4513de5af3306aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 28/39] fix: tell the tracker how many bytes are left

---
 src/swarm/swarm.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index d8af9a9..1d7f187 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -76,9 +76,7 @@ func NewSwarm(opts *utils.Opts) (*Swarm, error) {
 	pcent := 100 * float64(_bf.Nset()) / float64(_bf.Nbits())
 	log.Printf("have %v/%v (%v%%) pieces", _bf.Nset(), _bf.Nbits(), pcent)
 
-	// TODO: Compute remaining bytes left
-	//swarm.Stats = tracker.NewStats(0, 0, swarm.Tor.Length())  // Full leech
-	swarm.Stats = tracker.NewStats(0, 0, 0) // Seed
+	swarm.Stats = tracker.NewStats(0, 0, swarm.left())
 
 	// Make first contact with tracker
 	log.Printf("sending get to tracker [%v]\n", swarm.Tor.Announce())
@@ -121,6 +119,25 @@ func (s *Swarm) Validate() error {
 	return nil
 }
 
+// left returns how many bytes there are in the pieces that we don't have.
+func (s *Swarm) left() uint64 {
+	torInfo := s.Tor.Info()
+	left := int64(0)
+
+	for i := int64(0); i < torInfo.NumPieces(); i++ {
+		if s.Bf.Get(i) {
+			continue
+		}
+		if i == torInfo.NumPieces()-1 {
+			left += torInfo.LastPieceLen()
+		} else {
+			left += torInfo.PieceLen()
+		}
+	}
+
+	return uint64(left)
+}
+
 func (s *Swarm) Start() {
 
 	go s.runListener()
-- 
2.43.0


From 3ec4780729c908b09d48a16a0b44c6d2087ebffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 29/39] fix: size piece buffers by the pieces, not by the piece
 length alone

A torrent may have a huge piece length and a single, small piece.
---
 src/swarm/peerhandler.go | 2 +-
 src/swarm/swarm.go       | 2 +-
 src/torrent/info/info.go | 9 +++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index d730b7d..51e909f 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -161,7 +161,7 @@ func NewPeerHandler(pInfo peer.Info, swarm *Swarm, conn net.Conn) *PeerHandler {
 		conn:     conn,
 		chErr:    swarm.ChErr,
 		procs:    sync.WaitGroup{},
-		buf:      make([]byte, torInfo.PieceLen(), torInfo.PieceLen()),
+		buf:      make([]byte, torInfo.MaxPieceLen(), torInfo.MaxPieceLen()),
 		bf:       bf.NewBitfield(torInfo.NumPieces()),
 	}
 }
diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index 1d7f187..67e4782 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -100,7 +100,7 @@ func NewSwarm(opts *utils.Opts) (*Swarm, error) {
 func (s *Swarm) Validate() error {
 
 	torInfo := s.Tor.Info()
-	buf := make([]byte, torInfo.PieceLen(), torInfo.PieceLen())
+	buf := make([]byte, torInfo.MaxPieceLen(), torInfo.MaxPieceLen())
 
 	var i int64
 	for i = 0; i < torInfo.NumPieces(); i++ {
diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 2f8ebfe..c7456aa 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -75,6 +75,15 @@ func (ti *TorInfo) LastPieceLen() int64 {
 	return ti.lastPieceLen
 }
 
+// MaxPieceLen returns the length of the longest piece. This is less than the
+// piece length if there is only one, shorter piece.
+func (ti *TorInfo) MaxPieceLen() int64 {
+	if ti.length < ti.pieceLen {
+		return ti.length
+	}
+	return ti.pieceLen
+}
+
 // ============================================================================
 // CONSTRUCTOR ================================================================
 
-- 
2.43.0


From a4009897de973f971f0d3fe673351146e6868856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 30/39] fix: announce the peer id as it is, refuse unusable
 announce URLs

The id was escaped twice, an announce URL that is none was dereferenced, part
of its query could be lost, and the connection was leaked.
---
 src/tracker/tracker.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 0ccb16a..b09db6a 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -75,7 +75,10 @@ func (s State) Leechers() uint64 {
 // FUNK =======================================================================
 
 func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Response, error) {
-	req := newRequest(tor, stats, port, peerId)
+	req, e := newRequest(tor, stats, port, peerId)
+	if e != nil {
+		return nil, e
+	}
 	resp, e := do(req)
 	if e != nil {
 		return nil, e
@@ -83,18 +86,25 @@ func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Respo
 	return resp, nil
 }
 
-func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) *http.Request {
-	req, _ := http.NewRequest("GET", tor.Announce(), nil)
-	query := req.URL.Query()
+func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*http.Request, error) {
+	req, e := http.NewRequest("GET", tor.Announce(), nil)
+	if e != nil {
+		return nil, e
+	}
+	query := make(url.Values)
 	query.Add("info_hash", tor.Infohash())
-	query.Add("peer_id", url.QueryEscape(peerId))
+	query.Add("peer_id", peerId)
 	query.Add("port", fmt.Sprintf("%v", port))
 	query.Add("uploaded", fmt.Sprintf("%v", stats.Uploaded()))
 	query.Add("downloaded", fmt.Sprintf("%v", stats.Dnloaded()))
 	query.Add("left", fmt.Sprintf("%v", stats.Left()))
 	query.Add("compact", "1") // For compact peer list (BEP_0023)
-	req.URL.RawQuery = query.Encode()
-	return req
+	// Keep the query of the announce URL as it is
+	if req.URL.RawQuery != "" {
+		req.URL.RawQuery += "&"
+	}
+	req.URL.RawQuery += query.Encode()
+	return req, nil
 }
 
 func do(req *http.Request) (*Response, error) {
@@ -105,6 +115,8 @@ func do(req *http.Request) (*Response, error) {
 		return nil, err
 	}
 
+	defer resp.Body.Close()
+
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 0e11b2f524fd4ed27edc00b79aae919aaed6523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 31/39] fix: refuse peer lists with ports out of range

---
 src/tracker/tracker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index b09db6a..3f3fb9d 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"net/http"
 	"net/url"
@@ -252,6 +253,9 @@ func (l listSource) GetPeers() (peer.List, error) {
 		if err != nil {
 			return nil, err
 		}
+		if port > math.MaxUint16 {
+			return nil, &Error{msg: fmt.Sprintf("invalid port [%v] in peer list", port)}
+		}
 		id, err := peerDict.GetString("peer id")
 		if err != nil {
 			return nil, err
-- 
2.43.0


From edbd010cd467636fdc0961abb4521a79f8957749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 32/39] fix: make the address of IPv6 peers one that can be
 dialed

---
 src/peer/info.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/peer/info.go b/src/peer/info.go
index 927832c..8ccc150 100644
--- a/src/peer/info.go
+++ b/src/peer/info.go
@@ -3,7 +3,6 @@ package peer
 import (
 	"fmt"
 	"net"
-	"strings"
 )
 
 type Info struct {
@@ -15,16 +14,11 @@ type Info struct {
 }
 
 func MakePeer(id string, ip net.IP, port uint16) Info {
-	strb := strings.Builder{}
-	strb.WriteString(ip.String())
-	strb.WriteByte(':')
-	strb.WriteString(fmt.Sprintf("%v", port))
-
 	return Info{
 		id:   id,
 		ip:   ip,
 		port: port,
-		addr: strb.String(),
+		addr: net.JoinHostPort(ip.String(), fmt.Sprintf("%v", port)),
 		str:  fmt.Sprintf("%v @ %v:%v", id, ip, port),
 	}
 }
-- 
2.43.0


From 0555e3f1fa1d653815ad32868ed00d415e2a87fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 33/39] fix: refuse limits that do not fit 64 bits

---
 src/utils/opts.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index 92f3bb4..d25af58 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"flag"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -134,18 +135,24 @@ func parseSizeUnits(str string) (int64, error) {
 	}
 
 	lastChar := str[i]
+	unit := int64(1)
 	switch lastChar {
 	case 'B':
-		return val, nil
+		unit = 1
 	case 'K':
-		return val * 1024, nil
+		unit = 1024
 	case 'M':
-		return val * 1024 * 1024, nil
+		unit = 1024 * 1024
 	case 'G':
-		return val * 1024 * 1024 * 1024, nil
+		unit = 1024 * 1024 * 1024
 	default:
 		return 0, errors.New("invalid units")
 	}
+
+	if int64(v) > math.MaxInt64/unit {
+		return 0, errors.New("value out of range")
+	}
+	return val * unit, nil
 }
 
 func (o *Opts) Input() string {
-- 
2.43.0


From ef55bbcbbae1d08225a9d002ef42ea5b26fea34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 34/39] fix: refuse ports that are out of range

---
 src/utils/opts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index d25af58..3b42d5f 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -66,6 +66,10 @@ func (o *Opts) Validate() error {
 		return errors.New("missing argument 'working directory'")
 	}
 
+	if *o.port > math.MaxUint16 {
+		return fmt.Errorf("invalid port given, [%v]", *o.port)
+	}
+
 	switch *o.cmd {
 	case StartSwarm, TorInfo:
 		break
-- 
2.43.0


From d644cd9446e83831f175007aec5bc195840652e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 35/39] fix: do not decode strings that run past the end of the
 data

---
 src/bencode/decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index b12124d..40c6484 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -216,6 +216,11 @@ func (dc *decoder) decodeString() (string, error) {
 		return "", err
 	}
 
+	// Slicing alone would accept to read past the end, up to the capacity
+	if uint64(lenVal) > uint64(len(dc.data))-dc.curs {
+		return "", &DecoderError{"string runs past the end at byte " + strconv.FormatUint(dc.curs, 10)}
+	}
+
 	str := string(dc.data[dc.curs : dc.curs+uint64(lenVal)])
 	dc.curs += uint64(lenVal)
 
-- 
2.43.0


From 7dd5046eec3cf47a3c0024a1167f264e8357d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 36/39] fix: encode bitfield messages in a buffer of their own

---
 src/p2p/bitfield.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/p2p/bitfield.go b/src/p2p/bitfield.go
index 214c661..67785b0 100644
--- a/src/p2p/bitfield.go
+++ b/src/p2p/bitfield.go
@@ -41,7 +41,10 @@ func (bf *MsgBitfield) Bitfield() *bf.Bitfield {
 // IMPL =======================================================================
 
 func (bf *MsgBitfield) Encode() []byte {
-	data := bf.bitfield.Data5()
+	// The bitfield may be shared with other messages, fill in a copy
+	data5 := bf.bitfield.Data5()
+	data := make([]byte, len(data5))
+	copy(data, data5)
 	bf.msgBase.fillBase(data[:5])
 	return data
 }
-- 
2.43.0


From ffdb4cacc10aa285776eeab7a3be08af26c8bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:16 +0000
Subject: [PATCH 37/39] fix: keep sessions with the same listed peer apart in
 the piece tracker

---
 src/swarm/peerhandler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 51e909f..23d7e13 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -355,6 +355,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 	}
 }
 
+// Key identifies the session, we may have several with the same peer.
 func (ph *PeerHandler) Key() string {
-	return ph.peerInfo.String()
+	return fmt.Sprintf("%v (%p)", ph.peerInfo.String(), ph)
 }
-- 
2.43.0


From 8c602f0857cc3ef669cf0adfe8af8decaea036b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 38/39] fix: drop peers that take nothing of what they are sent

A session whose peer stopped reading waited in conn.Write for as long as the
peer kept the connection open, without noticing that the peer was silent.
---
 src/swarm/peerhandler.go |  4 +++-
 src/swarm/takenconn.go   | 46 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 1 deletion(-)
 create mode 100644 src/swarm/takenconn.go

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 23d7e13..5ca958f 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -57,10 +57,11 @@ type PeerHandler struct {
 // FromBootstrap creates a TCP connection with the peer, then sends the BitTorrent
 // handshake and checks the one the peer sends back.
 func FromBootstrap(pInfo peer.Info, swarm *Swarm) (ph *PeerHandler, e error) {
-	conn, e := net.Dial("tcp", pInfo.Addr())
+	tcpConn, e := net.Dial("tcp", pInfo.Addr())
 	if e != nil {
 		return nil, e
 	}
+	conn := newTakenConn(tcpConn)
 
 	// Nobody else closes the connection if there is no handler for it
 	defer func() {
@@ -113,6 +114,7 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (ph *PeerHandler, e error) {
 		return nil, errors.New("connection is not TCP")
 	}
 
+	conn = newTakenConn(conn)
 	buf := make([]byte, HandshakeLen)
 
 	// Set timeout
diff --git a/src/swarm/takenconn.go b/src/swarm/takenconn.go
new file mode 100644
index 0000000..70e0b6a
--- /dev/null
+++ b/src/swarm/takenconn.go
@@ -0,0 +1,46 @@
+package swarm
+
+import (
+	"errors"
+	"net"
+	"os"
+	"time"
+)
+
+// takenInterval is how often we look whether a peer takes what we send it.
+const takenInterval = 1 * time.Second
+
+// takenConn is a connection whose peer has to take what it is sent, however
+// slowly. A Write of which nothing is taken for as long as GetKeepAlive fails.
+type takenConn struct {
+	net.Conn
+	turn chan struct{} // One Write at a time, they would share the deadline
+}
+
+func newTakenConn(conn net.Conn) *takenConn {
+	return &takenConn{Conn: conn, turn: make(chan struct{}, 1)}
+}
+
+func (tc *takenConn) Write(data []byte) (int, error) {
+	tc.turn <- struct{}{}
+	defer func() { <-tc.turn }()
+
+	sent := 0
+	last := time.Now() // When some of it was taken
+
+	for {
+		e := tc.SetWriteDeadline(time.Now().Add(takenInterval))
+		if e != nil {
+			return sent, e
+		}
+
+		n, e := tc.Conn.Write(data[sent:])
+		sent += n
+		if n > 0 {
+			last = time.Now()
+		}
+		if !errors.Is(e, os.ErrDeadlineExceeded) || time.Since(last) >= GetKeepAlive {
+			return sent, e
+		}
+	}
+}
-- 
2.43.0


From def69bc902092500adb065045933c87c1c4833d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:07 +0000
Subject: [PATCH 39/39] fix: don't truncate a file that can't be opened

Any failure to open a file (too many open files, an I/O error) had it
created, which truncates it if it is there and can be opened by then.
---
 src/utils/futils.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/utils/futils.go b/src/utils/futils.go
index 787af5c..657fdb0 100644
--- a/src/utils/futils.go
+++ b/src/utils/futils.go
@@ -67,12 +67,13 @@ func OCAT(fpath string, length int64) (*os.File, error) {
 
 	fp, e := os.OpenFile(fpath, os.O_RDWR, 0666)
 
-	// Create new file
-	if e != nil {
+	// Create new file. If it is there but can't be opened (for now), then
+	// creating it would truncate it
+	if os.IsNotExist(e) {
 		fp, e = CreateZeroFilledFile(fpath, length)
-		if e != nil {
-			return nil, e
-		}
+	}
+	if e != nil {
+		return nil, e
 	}
 
 	// Check size
-- 
2.43.0

