From 6814b2ff89d7f38984d94d363f651ca0d32d4921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 01/10] fix: autoversion AllTokens must not return slices of
 the scanner's reused buffer

For inputs longer than bufio.Scanner's initial 4 KiB buffer the tokens
returned earlier were overwritten by later data.
---
 autoversion/textseg/version_agnostic.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/autoversion/textseg/version_agnostic.go b/autoversion/textseg/version_agnostic.go
index 3681403..122aa36 100644
--- a/autoversion/textseg/version_agnostic.go
+++ b/autoversion/textseg/version_agnostic.go
@@ -7,6 +7,7 @@ package textseg
 
 import (
 	"bufio"
+	"bytes"
 
 	realImpl "github.com/apparentlymart/go-textseg/v15/textseg"
 )
@@ -31,5 +32,14 @@ func TokenCount(buf []byte, splitFunc bufio.SplitFunc) (int, error) {
 //
 // Deprecated: This will be removed in a future version.
 func AllTokens(buf []byte, splitFunc bufio.SplitFunc) ([][]byte, error) {
-	return realImpl.AllTokens(buf, splitFunc)
+	// This doesn't just call v15's implementation because that one returns
+	// slices of the scanner's internal buffer, which the scanner overwrites
+	// once the input is too large to fit in that buffer all at once.
+	scanner := bufio.NewScanner(bytes.NewReader(buf))
+	scanner.Split(splitFunc)
+	var ret [][]byte
+	for scanner.Scan() {
+		ret = append(ret, bytes.Clone(scanner.Bytes()))
+	}
+	return ret, scanner.Err()
 }
-- 
2.43.0


From 8f3b670dbfa653118f106ea4bcd6d3469200c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 02/10] fix: autoversion ScanUTF8Sequences must not stall at
 U+FFFD or an invalid byte

It asked for more data until end of input, so a bufio.Scanner failed with
ErrTooLong when enough valid text followed.
---
 autoversion/textseg/version_agnostic.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/autoversion/textseg/version_agnostic.go b/autoversion/textseg/version_agnostic.go
index 122aa36..258d575 100644
--- a/autoversion/textseg/version_agnostic.go
+++ b/autoversion/textseg/version_agnostic.go
@@ -8,6 +8,7 @@ package textseg
 import (
 	"bufio"
 	"bytes"
+	"unicode/utf8"
 
 	realImpl "github.com/apparentlymart/go-textseg/v15/textseg"
 )
@@ -18,7 +19,17 @@ import (
 //
 // Deprecated: This will be removed in a future version.
 func ScanUTF8Sequences(data []byte, atEOF bool) (int, []byte, error) {
-	return realImpl.ScanUTF8Sequences(data, atEOF)
+	// This doesn't just call v15's implementation because that one can't tell
+	// an invalid byte or an encoded U+FFFD from an incomplete sequence, and so
+	// asks for more data until the end of the input when it finds either.
+	if len(data) == 0 {
+		return 0, nil, nil
+	}
+	if !atEOF && !utf8.FullRune(data) {
+		return 0, nil, nil
+	}
+	_, seqLen := utf8.DecodeRune(data)
+	return seqLen, data[:seqLen], nil
 }
 
 // TokenCount is a utility that uses a bufio.SplitFunc to count the number of recognized tokens in the given buffer.
-- 
2.43.0


From fd1187e51aa675d85f634a7dfb0621a63ef14bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 03/10] fix: table generator must not overflow uint16 offsets
 beyond 1023 blocks

srcBlockIdx << blockShift was computed as uint16, so character data with
more than 65536 assigned code points' worth of blocks read the wrong block
(or panicked) during compaction.
---
 textseg/internal/charprops/gentable/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 07cd1e8..18392a9 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -246,7 +246,7 @@ func (t *treeInProgress) buildCompactedBlocks(ret *RawPropertyTree, indexLevels
 			// property block.
 			srcBlock = make([]uint16, blockSize)
 		} else {
-			srcBlockStart := srcBlockIdx << blockShift
+			srcBlockStart := int(srcBlockIdx) << blockShift
 			srcBlock = t.indices[srcBlockStart : srcBlockStart+blockSize]
 		}
 
@@ -280,7 +280,7 @@ func (t *treeInProgress) buildCompactedBlocks(ret *RawPropertyTree, indexLevels
 		// property block.
 		srcBlock = make([]uint8, blockSize)
 	} else {
-		srcBlockStart := srcBlockIdx << blockShift
+		srcBlockStart := int(srcBlockIdx) << blockShift
 		srcBlock = t.rawProps[srcBlockStart : srcBlockStart+blockSize]
 	}
 
-- 
2.43.0


From 2f9badb91b9f1e170dd046123edcec0c6c4e84c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 04/10] fix: LookupFirstChar must report a sequence already cut
 short as an error

A lead byte followed by a non-continuation byte cannot be extended to a
valid sequence, but was reported as incomplete (length zero) when fewer
bytes than the sequence's nominal length followed, so ScanGraphemeClusters
asked for more data although the boundary was already decided.
---
 textseg/internal/charprops/property_table.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/textseg/internal/charprops/property_table.go b/textseg/internal/charprops/property_table.go
index 0aa85ee..edb790c 100644
--- a/textseg/internal/charprops/property_table.go
+++ b/textseg/internal/charprops/property_table.go
@@ -33,17 +33,17 @@ func LookupFirstChar(p []byte) (props CharProperties, length int) {
 		return Error, 1
 	}
 
-	if len(p) < length {
-		// Buffer begins with incomplete UTF-8 sequence.
-		return zeroProperties, 0
-	}
 	// All of the subsequent bytes of the sequence we're decoding (if any)
 	// must be UTF-8 continuation bytes.
-	for i := 1; i < length; i++ {
+	for i := 1; i < length && i < len(p); i++ {
 		if (p[i] & 0b11000000) != 0b10000000 {
 			return Error, 1
 		}
 	}
+	if len(p) < length {
+		// Buffer begins with incomplete UTF-8 sequence.
+		return zeroProperties, 0
+	}
 
 	switch length {
 	case 1:
-- 
2.43.0


From 79e13c7bfd1c530c26c8488cfb90ffaf63fad345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 05/10] fix: ucdparse must reject code points beyond U+10FFFF

Values up to FFFFFFFF were accepted and converted to rune, yielding entries
for characters that do not exist or, for 80000000 and above, an empty range
that silently drops the line.
---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index e2f3dd2..7d2ae94 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"iter"
 	"strconv"
+	"unicode"
 )
 
 type Scanner struct {
@@ -41,12 +42,18 @@ func (sc Scanner) NextEntry() (Entry, error) {
 		if err != nil {
 			return Entry{}, fmt.Errorf("invalid start of character range %q: %s", startHex, err)
 		}
+		if startInt > unicode.MaxRune {
+			return Entry{}, fmt.Errorf("invalid start of character range %q: not a Unicode code point", startHex)
+		}
 		start = rune(startInt)
 		if isRange {
 			endInt, err := strconv.ParseUint(string(endHex), 16, 32)
 			if err != nil {
 				return Entry{}, fmt.Errorf("invalid end of character range %q: %s", endHex, err)
 			}
+			if endInt > unicode.MaxRune {
+				return Entry{}, fmt.Errorf("invalid end of character range %q: not a Unicode code point", endHex)
+			}
 			end = rune(endInt)
 		} else {
 			end = start
-- 
2.43.0


From f1eb60ab944ced5af5cb1b1e27445ba19c95a7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 06/10] fix: test data scanner must reject values that are not
 Unicode scalar values

They were silently encoded as U+FFFD, so the resulting entry tested
something other than the line it was read from.
---
 textseg/internal/charprops/ucdparse/testdata_scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/ucdparse/testdata_scan.go b/textseg/internal/charprops/ucdparse/testdata_scan.go
index 6e138f9..b63f57a 100644
--- a/textseg/internal/charprops/ucdparse/testdata_scan.go
+++ b/textseg/internal/charprops/ucdparse/testdata_scan.go
@@ -45,7 +45,7 @@ func (sc TestDataScanner) NextEntry() (TestDataEntry, error) {
 					continue
 				}
 				charInt, err := strconv.ParseInt(charHexStr, 16, 32)
-				if err != nil {
+				if err != nil || !utf8.ValidRune(rune(charInt)) {
 					return TestDataEntry{}, fmt.Errorf("invalid character reference %q", charHexStr)
 				}
 				buf := make([]byte, 4)
-- 
2.43.0


From 2bb27ef30db777db5255b2517b092d98fa08bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 07/10] fix: table generator must not apply properties of
 surrogates to U+FFFD

utf8.EncodeRune substitutes U+FFFD for surrogate code points, so a data file
assigning a property to them (as GraphemeBreakProperty.txt did in earlier
Unicode versions) changed the properties of the replacement character.
---
 textseg/internal/charprops/gentable/generate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 18392a9..c181171 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -113,6 +113,9 @@ func newTreeInProgress() *treeInProgress {
 }
 
 func (t *treeInProgress) Set(r rune, v uint8) {
+	if !utf8.ValidRune(r) {
+		return // surrogates have no UTF-8 encoding, so can't be looked up
+	}
 	rawProps := t.ensureProps(r)
 	if v == 4 && *rawProps != 0 {
 		panic(fmt.Sprintf("conflicting properties for U+%04X: already had %02x, but now have %02x", r, *rawProps, v))
@@ -121,6 +124,9 @@ func (t *treeInProgress) Set(r rune, v uint8) {
 }
 
 func (t *treeInProgress) BitwiseOr(r rune, propMask uint8) {
+	if !utf8.ValidRune(r) {
+		return // surrogates have no UTF-8 encoding, so can't be looked up
+	}
 	rawProps := t.ensureProps(r)
 	*rawProps |= propMask
 }
-- 
2.43.0


From d3802a9b827196a5582810159b697fa6f4e78bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:01 +0000
Subject: [PATCH 08/10] fix: table generator must not refuse data that gives
 U+0000..U+003F no properties

---
 textseg/internal/charprops/gentable/generate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index c181171..da5ed10 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -183,8 +183,9 @@ func (t *treeInProgress) Compact() RawPropertyTree {
 	indexBlockIdxs := make(map[string]uint16)
 
 	// The first 128 property values are fixed in place to represent the
-	// properties for the ASCII characters.
-	propBlockIdxs[propertyBlockKey(t.rawProps[:blockSize])] = 0
+	// properties for the ASCII characters. The first block of these is not
+	// offered for reuse, because an index of zero means that nothing has been
+	// assigned: see the consistency check below.
 	propBlockIdxs[propertyBlockKey(t.rawProps[blockSize:blockSize*2])] = 1
 	props = append(props, t.rawProps[:128]...)
 
-- 
2.43.0


From 704a5a94959399ab2f573c45f4bc5ea9b1927da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 09/10] fix: table generator must report a failure to write the
 table

It ignored errors of writing, and so reported success and left a truncated
table when, for example, the device was full.
---
 textseg/internal/charprops/generate.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/generate.go b/textseg/internal/charprops/generate.go
index a500931..a07db4d 100644
--- a/textseg/internal/charprops/generate.go
+++ b/textseg/internal/charprops/generate.go
@@ -74,5 +74,12 @@ func main() {
 		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 		os.Exit(1)
 	}
-	f.Write(src)
+	_, err = f.Write(src)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From e6bc8c5bafcedfae0b5d548d80bddda69301d716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:37 +0000
Subject: [PATCH 10/10] fix: Fields.Strings must give all fields each time it
 is iterated over

---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index 7d2ae94..86e7a9a 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -83,8 +83,8 @@ func (e Entry) AllFields() iter.Seq[string] {
 type Fields []byte
 
 func (f Fields) Strings() iter.Seq[string] {
-	remain := []byte(f)
 	return func(yield func(string) bool) {
+		remain := []byte(f)
 		for {
 			before, after, foundSep := bytes.Cut(remain, fieldSeparator)
 			val := bytes.TrimSpace(before)
-- 
2.43.0

