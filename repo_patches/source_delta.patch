From a9579a0192c8e6bf1a7e2175228620e17a7466f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:54 +0000
Subject: [PATCH 01/92] fix: parser.New ignored the current position of the
 underlying reader

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3b0d6f2..12f9c8e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -44,7 +44,8 @@ func New(r ReadSeekSizer) *Parser {
 	p := &Parser{
 		r: r,
 	}
-	err := p.SeekPos(0)
+	// The underlying reader may not be positioned at the start of the input.
+	_, err := r.Seek(0, io.SeekStart)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From f7805eb1ab198e94fd78220f446f85c806023717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 02/92] fix: Format4.Lookup aliased code points above U+FFFF to
 BMP code points

---
 cmap/format4.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmap/format4.go b/cmap/format4.go
index 21d841a..12bb5ec 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -96,6 +96,9 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 
 // Lookup implements the Subtable interface.
 func (cmap Format4) Lookup(r rune) glyph.ID {
+	if r < 0 || r > 0xFFFF {
+		return 0
+	}
 	return cmap[uint16(r)]
 }
 
-- 
2.43.0


From f444356c935d28f0467b66e8e526df72940f2720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:28 +0000
Subject: [PATCH 03/92] fix: format 4 cmap decoder ignored idDelta for segments
 using the glyph id array

---
 cmap/format4.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmap/format4.go b/cmap/format4.go
index 12bb5ec..e67a682 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -83,8 +83,12 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 				}
 				return nil, errMalformedSubtable
 			}
+			delta := idDelta[k]
 			for idx := start; idx < end; idx++ {
 				c := glyph.ID(glyphIDArray[d+int(idx-start)])
+				if c != 0 {
+					c += glyph.ID(delta)
+				}
 				if c != 0 {
 					cmap[uint16(code2rune(int(idx)))] = c
 				}
-- 
2.43.0


From 14dcd211b4e9ba683c5d56c3e6db7dca5f812dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 04/92] fix: cmap.Format0.Lookup panicked for negative code
 points

---
 cmap/format0.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmap/format0.go b/cmap/format0.go
index 765f596..42fe5d4 100644
--- a/cmap/format0.go
+++ b/cmap/format0.go
@@ -48,7 +48,7 @@ type Format0 struct {
 // Lookup returns the glyph index for the given rune.
 // If the rune is not found, Lookup returns 0 (corresponding to the ".notdef" glyph).
 func (cmap *Format0) Lookup(r rune) glyph.ID {
-	if r > 255 {
+	if r < 0 || r > 255 {
 		return 0
 	}
 	return glyph.ID(cmap.Data[r])
-- 
2.43.0


From 8bc8f722e8c06839fc463b4ff5ed3c8fc809659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 05/92] fix: format 0 Mac Roman cmap subtables were interpreted
 as Unicode

---
 cmap/format0.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmap/format0.go b/cmap/format0.go
index 42fe5d4..4614f2b 100644
--- a/cmap/format0.go
+++ b/cmap/format0.go
@@ -26,15 +26,24 @@ import (
 //
 // https://docs.microsoft.com/en-us/typography/opentype/spec/cmap#format-0-byte-encoding-table
 func decodeFormat0(data []byte, code2rune func(c int) rune) (Subtable, error) {
-	if code2rune == nil {
-		code2rune = unicode
+	if len(data) < 6 {
+		return nil, errMalformedSubtable
 	}
-
 	data = data[6:]
 	if len(data) != 256 {
 		return nil, fmt.Errorf("cmap: format 0: expected 256 bytes, got %d", len(data))
 	}
 
+	if code2rune != nil {
+		res := make(Format4)
+		for code, gid := range data {
+			if gid != 0 {
+				res[uint16(code2rune(code))] = glyph.ID(gid)
+			}
+		}
+		return res, nil
+	}
+
 	res := &Format0{}
 	copy(res.Data[:], data)
 
-- 
2.43.0


From 27ea060d80d488f34f56e33ecdbe98671326730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 06/92] fix: Format12.Encode merged glyph 65535 and a following
 glyph 0 into one group

---
 cmap/format12.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmap/format12.go b/cmap/format12.go
index 06f727b..c617c58 100644
--- a/cmap/format12.go
+++ b/cmap/format12.go
@@ -84,7 +84,7 @@ func (cmap Format12) Encode(language uint16) []byte {
 	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
 	segStart := 0
 	for i := 1; i < len(keys); i++ {
-		if keys[i] != keys[i-1]+1 || cmap[keys[i]] != cmap[keys[i-1]]+1 {
+		if keys[i] != keys[i-1]+1 || cmap[keys[i]] != cmap[keys[i-1]]+1 || cmap[keys[i]] == 0 {
 			ss = append(ss, format12segment{
 				StartCharCode: keys[segStart],
 				EndCharCode:   keys[i-1],
-- 
2.43.0


From 7b292595a90c51281596918e8dc5cf208be0f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 07/92] fix: glyphs with zero contours could not be decoded

---
 glyf/simple.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/glyf/simple.go b/glyf/simple.go
index c0dae8e..e7ab8ff 100644
--- a/glyf/simple.go
+++ b/glyf/simple.go
@@ -48,6 +48,10 @@ func (glyph *SimpleGlyph) Decode() (*GlyphInfo, error) {
 	buf := glyph.Encoded
 
 	numContours := int(glyph.NumContours)
+	if numContours == 0 && len(buf) < 2 {
+		// A glyph with zero contours may consist of the header only.
+		return &GlyphInfo{}, nil
+	}
 	if len(buf) < 2*numContours+2 {
 		return nil, errInvalidGlyphData
 	}
@@ -56,7 +60,10 @@ func (glyph *SimpleGlyph) Decode() (*GlyphInfo, error) {
 		endPtsOfContours[i] = uint16(buf[2*i])<<8 | uint16(buf[2*i+1])
 	}
 	buf = buf[2*numContours:]
-	numPoints := int(endPtsOfContours[numContours-1]) + 1
+	numPoints := 0
+	if numContours > 0 {
+		numPoints = int(endPtsOfContours[numContours-1]) + 1
+	}
 
 	instructionLength := int(buf[0])<<8 | int(buf[1])
 	if len(buf) < 2+instructionLength {
@@ -170,6 +177,11 @@ func (glyph *SimpleGlyph) removePadding() error {
 	buf := glyph.Encoded
 
 	numContours := int(glyph.NumContours)
+	if numContours == 0 && len(buf) < 2 {
+		// A glyph with zero contours may consist of the header only.
+		glyph.Encoded = buf[:0]
+		return nil
+	}
 	if len(buf) < 2*numContours+2 {
 		return errInvalidGlyphData
 	}
-- 
2.43.0


From 186a3aa8583f7953dd2afa984c085ed27cb49c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 08/92] fix: SimpleGlyph.Decode panicked for decreasing contour
 end points

---
 glyf/simple.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glyf/simple.go b/glyf/simple.go
index e7ab8ff..554a8be 100644
--- a/glyf/simple.go
+++ b/glyf/simple.go
@@ -58,6 +58,9 @@ func (glyph *SimpleGlyph) Decode() (*GlyphInfo, error) {
 	endPtsOfContours := make([]uint16, numContours)
 	for i := 0; i < numContours; i++ {
 		endPtsOfContours[i] = uint16(buf[2*i])<<8 | uint16(buf[2*i+1])
+		if i > 0 && endPtsOfContours[i] < endPtsOfContours[i-1] {
+			return nil, errInvalidGlyphData
+		}
 	}
 	buf = buf[2*numContours:]
 	numPoints := 0
-- 
2.43.0


From e6df2dc92a08082d74324fcfa68b09e7373a57da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 09/92] fix: hhea minRightSideBearing and xMaxExtent ignored
 explicitly given left side bearings

---
 hmtx/hmtx.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hmtx/hmtx.go b/hmtx/hmtx.go
index ec247c7..4b1819a 100644
--- a/hmtx/hmtx.go
+++ b/hmtx/hmtx.go
@@ -195,7 +195,7 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 			if ext.IsZero() {
 				continue
 			}
-			rsb := info.Widths[i] - ext.URx
+			rsb := info.Widths[i] - (lsbs[i] + ext.URx - ext.LLx)
 			if first || rsb < hhea.MinRightSideBearing {
 				hhea.MinRightSideBearing = rsb
 			}
@@ -205,12 +205,13 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 
 	if info.GlyphExtents != nil {
 		first = true
-		for _, ext := range info.GlyphExtents {
+		for i, ext := range info.GlyphExtents {
 			if ext.IsZero() {
 				continue
 			}
-			if first || ext.URx > hhea.XMaxExtent {
-				hhea.XMaxExtent = ext.URx
+			extent := lsbs[i] + ext.URx - ext.LLx
+			if first || extent > hhea.XMaxExtent {
+				hhea.XMaxExtent = extent
 			}
 			first = false
 		}
-- 
2.43.0


From b066c67ceb746cf0ee32aa69580ad944331e0de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 10/92] fix: code page ranges of version 1 OS/2 tables were
 ignored

---
 os2/os2.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/os2/os2.go b/os2/os2.go
index 1a96d29..7549b21 100644
--- a/os2/os2.go
+++ b/os2/os2.go
@@ -163,13 +163,15 @@ func Read(r io.Reader) (*Info, error) {
 	info.WinAscent = v0ms.WinAscent
 	info.WinDescent = v0ms.WinDescent
 
-	if v0.Version < 2 {
+	if v0.Version < 1 {
 		return info, nil
 	}
 
 	var codePageRange [8]byte
 	err = binary.Read(r, binary.BigEndian, codePageRange[:])
-	if err != nil {
+	if err == io.EOF && v0.Version < 2 {
+		return info, nil
+	} else if err != nil {
 		if err == io.EOF {
 			err = io.ErrUnexpectedEOF
 		}
@@ -184,6 +186,10 @@ func Read(r io.Reader) (*Info, error) {
 		CodePageRange(codePageRange[6])<<40 |
 		CodePageRange(codePageRange[7])<<32
 
+	if v0.Version < 2 {
+		return info, nil
+	}
+
 	v2 := &v2Data{}
 	err = binary.Read(r, binary.BigEndian, v2)
 	if err != nil {
-- 
2.43.0


From d4011a1b257ecc7160a08a98503612a8f2e6e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 11/92] fix: cmap.Format0.CodeRange did not depend on the
 mapped codes

---
 cmap/format0.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmap/format0.go b/cmap/format0.go
index 4614f2b..f0c68e3 100644
--- a/cmap/format0.go
+++ b/cmap/format0.go
@@ -78,5 +78,16 @@ func (cmap *Format0) Encode(language uint16) []byte {
 
 // CodeRange returns the smallest and largest code point in the subtable.
 func (cmap *Format0) CodeRange() (low rune, high rune) {
-	return 0, 255
+	first := true
+	for code, gid := range cmap.Data {
+		if gid == 0 {
+			continue
+		}
+		if first {
+			low = rune(code)
+			first = false
+		}
+		high = rune(code)
+	}
+	return low, high
 }
-- 
2.43.0


From 4dd3200695d57272440d683fb8b0bb57a3968b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 12/92] fix: format 12 cmap decoder listed code points mapped
 to glyph 0 as mapped

---
 cmap/format12.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmap/format12.go b/cmap/format12.go
index c617c58..1691ae9 100644
--- a/cmap/format12.go
+++ b/cmap/format12.go
@@ -71,7 +71,9 @@ func decodeFormat12(data []byte, code2rune func(c int) rune) (Subtable, error) {
 		}
 
 		for c := startCharCode; c <= endCharCode; c++ {
-			cmap[c] = glyph.ID(startGlyphID + c - startCharCode)
+			if gid := glyph.ID(startGlyphID + c - startCharCode); gid != 0 {
+				cmap[c] = gid
+			}
 		}
 	}
 
-- 
2.43.0


From e1ab79fdb7b1ce146418850a60bf2406d9f7e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 13/92] fix: hhea aggregates were computed with 16 bit overflow

---
 hmtx/hmtx.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hmtx/hmtx.go b/hmtx/hmtx.go
index 4b1819a..d8b516c 100644
--- a/hmtx/hmtx.go
+++ b/hmtx/hmtx.go
@@ -195,7 +195,7 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 			if ext.IsZero() {
 				continue
 			}
-			rsb := info.Widths[i] - (lsbs[i] + ext.URx - ext.LLx)
+			rsb := clamp(int(info.Widths[i]) - (int(lsbs[i]) + int(ext.URx) - int(ext.LLx)))
 			if first || rsb < hhea.MinRightSideBearing {
 				hhea.MinRightSideBearing = rsb
 			}
@@ -209,7 +209,7 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 			if ext.IsZero() {
 				continue
 			}
-			extent := lsbs[i] + ext.URx - ext.LLx
+			extent := clamp(int(lsbs[i]) + int(ext.URx) - int(ext.LLx))
 			if first || extent > hhea.XMaxExtent {
 				hhea.XMaxExtent = extent
 			}
@@ -256,6 +256,10 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 
 const hheaLength = 36
 
+func clamp(x int) funit.Int16 {
+	return funit.Int16(min(max(x, math.MinInt16), math.MaxInt16))
+}
+
 func toAngle(rise, run int16) float64 {
 	// slope = rise / run (rise = 1, run = 0 for vertical)
 	// angle = 0 for vertical, angle<0 for italic
-- 
2.43.0


From c43923199a74c8f0797bc2b290beb85cd7f78fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 14/92] fix: Version.Round disagreed with Version.String for
 exact ties

---
 head/head.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/head/head.go b/head/head.go
index de82167..1482fbd 100644
--- a/head/head.go
+++ b/head/head.go
@@ -229,7 +229,7 @@ func (v Version) String() string {
 // Round removes all information from v which is not visible in the string
 // representation.
 func (v Version) Round() Version {
-	x := math.Round(float64(v)/65536*1000) / 1000
+	x := math.RoundToEven(float64(v)/65536*1000) / 1000
 	return Version(math.Round(x * 65536))
 }
 
-- 
2.43.0


From 7a944ad860b47dd695ea79c4449ae54c206a0c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:53 +0000
Subject: [PATCH 15/92] fix: the order of strings in encoded name tables was
 random

---
 name/name.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/name/name.go b/name/name.go
index 6515f8c..e538dff 100644
--- a/name/name.go
+++ b/name/name.go
@@ -23,6 +23,9 @@ import (
 	"sort"
 	"unicode/utf16"
 
+	"golang.org/x/exp/maps"
+	"golang.org/x/exp/slices"
+
 	"seehuhn.de/go/sfnt/mac"
 	"seehuhn.de/go/sfnt/parser"
 )
@@ -156,8 +159,8 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 	b := newNameBuilder()
 
 	// platform ID 1 (Macintosh)
-	for languageID, tag := range appleBCP {
-		t := info.Mac[tag]
+	for _, languageID := range sortedKeys(appleBCP) {
+		t := info.Mac[appleBCP[languageID]]
 		if t == nil {
 			continue
 		}
@@ -179,8 +182,8 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 	// Platform ID 3 (Windows).
 	// Encoding IDs for platform 3 'name' entries must match the encoding IDs
 	// used for platform 3 subtables in the 'cmap' table.
-	for languageID, tag := range msBCP {
-		t := info.Windows[tag]
+	for _, languageID := range sortedKeys(msBCP) {
+		t := info.Windows[msBCP[languageID]]
 		if t == nil {
 			continue
 		}
@@ -243,6 +246,15 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 	return res
 }
 
+// sortedKeys returns the language IDs in increasing order.  This is used to
+// make sure that the order of strings in the encoded table does not depend on
+// the map iteration order.
+func sortedKeys(languages map[uint16]string) []uint16 {
+	keys := maps.Keys(languages)
+	slices.Sort(keys)
+	return keys
+}
+
 type nameBuilder struct {
 	data []byte
 	idx  map[string]uint16
-- 
2.43.0


From e8e671f35ab0cdafecf7075b446d1ed9ddc72e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 16/92] fix: name strings encoded with Windows encoding IDs 0
 and 10 could not be read back

---
 name/name.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/name/name.go b/name/name.go
index e538dff..3dc046e 100644
--- a/name/name.go
+++ b/name/name.go
@@ -107,7 +107,8 @@ recLoop:
 
 		// We ignore encodings we don't understand.
 		var val string
-		if platformID == 3 && encodingID == 1 { // Windows, Unicode BMP
+		if platformID == 3 && (encodingID == 0 || encodingID == 1 || encodingID == 10) {
+			// Windows: Symbol, Unicode BMP, and Unicode full repertoire
 			val = utf16Decode(nameBytes)
 		} else if platformID == 1 && encodingID == 0 { // Macintosh, Roman
 			val = mac.Decode(nameBytes)
-- 
2.43.0


From a9045df3f4d24c51cb7bd0adb1837391e940cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 17/92] fix: the two Windows language IDs for Spanish were
 mapped to the same language tag

---
 name/locale.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/name/locale.go b/name/locale.go
index 51ba707..a0f2e0c 100644
--- a/name/locale.go
+++ b/name/locale.go
@@ -319,7 +319,6 @@ var msBCP = map[uint16]string{
 	0x280a: "es-PE",       // Spanish, Peru
 	0x500a: "es-PR",       // Spanish, Puerto Rico
 	0x0c0a: "es-ES",       // Spanish (Modern Sort), Spain
-	0x040a: "es-ES",       // Spanish (Traditional Sort), Spain
 	0x540a: "es-US",       // Spanish, United States
 	0x380a: "es-UY",       // Spanish, Uruguay
 	0x200a: "es-VE",       // Spanish, Venezuela
@@ -347,4 +346,7 @@ var msBCP = map[uint16]string{
 	0x0485: "sah-RU",      // Yakut, Russia
 	0x0478: "ii-CN",       // Yi, PRC
 	0x046a: "yo-NG",       // Yoruba, Nigeria
+
+	// Spanish (Traditional Sort), Spain
+	0x040a: "es-ES-u-co-trad",
 }
-- 
2.43.0


From 4e54b3f6221b7845d2e40c77c21e5f3a5c0083c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 18/92] fix: BCP 47 conversion of OpenType tags lost scripts
 with trailing spaces and picked random tags

---
 opentype/gtab/locale.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/opentype/gtab/locale.go b/opentype/gtab/locale.go
index 01b5e93..3a2c9e4 100644
--- a/opentype/gtab/locale.go
+++ b/opentype/gtab/locale.go
@@ -41,7 +41,7 @@ func otfToBCP47(script otfScript, lang otfLang) (language.Tag, error) {
 		tag += "-" + bcpScript
 	}
 
-	tag += "-x-" + string(script)
+	tag += "-x-" + strings.TrimRight(string(script), " ")
 	for len(lang) > 0 && lang[len(lang)-1] == ' ' {
 		lang = lang[:len(lang)-1]
 	}
@@ -66,6 +66,9 @@ func bcp47ToOtf(tag language.Tag) (otfScript, otfLang, error) {
 		if script == "dflt" {
 			script = "DFLT"
 		}
+		for len(script) < 4 {
+			script += " "
+		}
 		if len(m) > 2 {
 			lang = strings.ToUpper(m[2])
 			for len(lang) < 4 {
@@ -87,17 +90,17 @@ func bcp47ToOtf(tag language.Tag) (otfScript, otfLang, error) {
 		scriptTag, _ := tag.Script()
 		bcpScript := scriptTag.String()
 
+		// If there is more than one matching tag, use the first one in
+		// alphabetical order, so that the result is always the same.
 		for key, val := range langBcp47 {
-			if val == bcpLang {
+			if val == bcpLang && (lang == "" || string(key) < lang) {
 				lang = string(key)
-				break
 			}
 		}
 
 		for key, val := range scriptBcp47 {
-			if val == bcpScript {
+			if val == bcpScript && (script == "" || string(key) < script) {
 				script = string(key)
-				break
 			}
 		}
 	}
-- 
2.43.0


From 999cd00c11574ab9cd08a4cfba35e23d31d9f0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 19/92] fix: CFF default and nominal widths were truncated to
 integers (or infinite), changing glyph widths

---
 cff/write.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cff/write.go b/cff/write.go
index 8a83315..a4d525d 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -238,20 +238,18 @@ func (f *Font) Write(w io.Writer) error {
 	return nil
 }
 
+// selectWidths chooses the values for the defaultWidthX and nominalWidthX
+// entries of the private dictionaries.  Since these are stored as integers,
+// both returned values are always integers.
 func (f *Font) selectWidths() (float64, float64) {
 	numGlyphs := int32(len(f.Glyphs))
-	if numGlyphs == 0 {
-		return 0, 0
-	} else if numGlyphs == 1 {
-		return f.Glyphs[0].Width, f.Glyphs[0].Width
-	}
 
 	widthHist := make(map[float64]int32)
 	var mostFrequentCount int32
 	var defaultWidth float64
 	for _, glyph := range f.Glyphs {
 		w := glyph.Width
-		if math.Abs(w) > 32767 {
+		if math.Abs(w) > 32767 || w != math.Trunc(w) {
 			continue
 		}
 		widthHist[w]++
@@ -278,11 +276,15 @@ func (f *Font) selectWidths() (float64, float64) {
 			maxWidth = w
 		}
 	}
+	if minWidth > maxWidth {
+		// all glyphs have the default width
+		return defaultWidth, defaultWidth
+	}
 	nominalWidth := math.Round(sum / float64(numGlyphs))
 	if nominalWidth < minWidth+107 {
-		nominalWidth = minWidth + 107
+		nominalWidth = math.Floor(minWidth + 107)
 	} else if nominalWidth > maxWidth-107 {
-		nominalWidth = maxWidth - 107
+		nominalWidth = math.Ceil(maxWidth - 107)
 	}
 	return defaultWidth, nominalWidth
 }
-- 
2.43.0


From 39f7c7e4f14b300076b105c75b7d44e41f8d3b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 20/92] fix: rounding errors accumulated over the stem hints of
 a glyph

---
 cff/t2encode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cff/t2encode.go b/cff/t2encode.go
index e803fd9..a524649 100644
--- a/cff/t2encode.go
+++ b/cff/t2encode.go
@@ -72,8 +72,9 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 			stems = stems[2*k:]
 			prev := 0.0
 			for _, x := range chunk {
-				header = append(header, encodeNumber(x-prev).Code)
-				prev = x
+				delta := encodeNumber(x - prev)
+				header = append(header, delta.Code)
+				prev += delta.Val
 			}
 
 			canOmitVStem := (i == 1 &&
-- 
2.43.0


From 1ee82a6983495977c863b31df671b6f69942782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 21/92] fix: fractional underline positions and thicknesses
 were truncated in CFF top DICTs

---
 cff/dict.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index 76c3194..06ba119 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -478,6 +478,21 @@ func (d cffDict) sortedKeys() []dictOp {
 	return keys
 }
 
+// dictNumber returns the shortest faithful DICT operand for x, either an
+// int32 or a float64.
+func dictNumber(x float64) interface{} {
+	if i := int32(x); float64(i) == x {
+		return i
+	}
+	return x
+}
+
+// sameReal returns true, if x and y have the same representation as a real
+// number operand in a DICT.
+func sameReal(x, y float64) bool {
+	return x == y || bytes.Equal(encodeFloat(x), encodeFloat(y))
+}
+
 func makeTopDict(info *type1.FontInfo) cffDict {
 	topDict := cffDict{}
 	if info.Version != "" {
@@ -504,11 +519,11 @@ func makeTopDict(info *type1.FontInfo) cffDict {
 	if info.ItalicAngle != 0 {
 		topDict[opItalicAngle] = []interface{}{info.ItalicAngle}
 	}
-	if info.UnderlinePosition != defaultUnderlinePosition {
-		topDict[opUnderlinePosition] = []interface{}{int32(info.UnderlinePosition)}
+	if !sameReal(float64(info.UnderlinePosition), defaultUnderlinePosition) {
+		topDict[opUnderlinePosition] = []interface{}{dictNumber(float64(info.UnderlinePosition))}
 	}
-	if info.UnderlineThickness != defaultUnderlineThickness {
-		topDict[opUnderlineThickness] = []interface{}{int32(info.UnderlineThickness)}
+	if !sameReal(float64(info.UnderlineThickness), defaultUnderlineThickness) {
+		topDict[opUnderlineThickness] = []interface{}{dictNumber(float64(info.UnderlineThickness))}
 	}
 	// if info.IsOutlined {
 	// 	topDict[opPaintType] = []interface{}{int32(2)} // per font
-- 
2.43.0


From 51fe08807062e20b2b146e156d93d4970651ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 22/92] fix: CFF font matrices close to the default were
 dropped on writing, and matrices with integer operands ignored on reading

---
 cff/dict.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index 06ba119..c492f17 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -407,14 +407,17 @@ func (d cffDict) getFontMatrix(op dictOp, isCIDKeyed bool) (res matrix.Matrix) {
 	}
 
 	for i, x := range xx {
-		xi, ok := x.(float64)
-		if !ok {
+		switch x := x.(type) {
+		case int32:
+			res[i] = float64(x)
+		case float64:
+			res[i] = x
+		default:
 			if isCIDKeyed {
 				return matrix.Identity
 			}
 			return defaultFontMatrix
 		}
-		res[i] = xi
 	}
 
 	return res
@@ -443,7 +446,7 @@ func (d cffDict) setFontMatrix(op dictOp, fm matrix.Matrix, isCIDKeyed bool) {
 		} else {
 			def = defaultFontMatrix[i]
 		}
-		if math.Abs(xi-def) > 1e-5 {
+		if !sameReal(xi, def) {
 			needed = true
 			break
 		}
-- 
2.43.0


From 18e0eee443b8239626984227390d48920547e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 23/92] fix: BlueScale values close to the default were dropped
 from CFF private dictionaries

---
 cff/font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cff/font.go b/cff/font.go
index 3b4cf17..81e7e9f 100644
--- a/cff/font.go
+++ b/cff/font.go
@@ -130,7 +130,7 @@ func (f *Font) makePrivateDict(idx int, defaultWidth, nominalWidth float64) cffD
 
 	privateDict.setDeltaF16(opBlueValues, private.BlueValues)
 	privateDict.setDeltaF16(opOtherBlues, private.OtherBlues)
-	if math.Abs(private.BlueScale-defaultBlueScale) > 1e-6 {
+	if !sameReal(private.BlueScale, defaultBlueScale) {
 		privateDict[opBlueScale] = []interface{}{private.BlueScale}
 	}
 	if private.BlueShift != defaultBlueShift {
-- 
2.43.0


From 4c86ebba44b2184466004afe58fd3d5600b24498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 24/92] fix: delta-encoded CFF private dictionary values
 overflowed 16 bits on writing

---
 cff/dict.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cff/dict.go b/cff/dict.go
index c492f17..a62e26f 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -431,7 +431,7 @@ func (d cffDict) setDeltaF16(op dictOp, val []funit.Int16) {
 	res := make([]interface{}, len(val))
 	var prev funit.Int16
 	for i, x := range val {
-		res[i] = int32(x - prev)
+		res[i] = int32(x) - int32(prev)
 		prev = x
 	}
 	d[op] = res
-- 
2.43.0


From e28e1cdc0053d115e752a3d1750eca68fbcf56b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:18 +0000
Subject: [PATCH 25/92] fix: small italic angles lost precision when reading
 CFF fonts

---
 cff/read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cff/read.go b/cff/read.go
index 53da4bf..4bffd78 100644
--- a/cff/read.go
+++ b/cff/read.go
@@ -328,6 +328,9 @@ func fdSelectSimple(git glyph.ID) int {
 }
 
 func normaliseAngle(x float64) float64 {
+	if x >= -180 && x < 180 {
+		return x
+	}
 	y := math.Mod(x+180, 360)
 	if y < 0 {
 		y += 360
-- 
2.43.0


From c08db180313273930ce01966882365abe0300374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:15 +0000
Subject: [PATCH 26/92] fix: the Type 2 charstring operator mul returned wrong
 values

---
 cff/t2decode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 9792159..04cdb57 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -465,7 +465,7 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				if k < 0 {
 					return nil, errStackUnderflow
 				}
-				stack[k] = float64(int64(stack[k]) * int64(stack[k+1]) >> 16)
+				stack[k] = clampFixed(stack[k] * stack[k+1])
 				stack = stack[:k+1]
 			case t2sqrt:
 				k := len(stack) - 1
@@ -655,6 +655,12 @@ func fix(x float64) float64 {
 	return math.Round(x*65536) / 65536
 }
 
+// clampFixed clamps the result of an arithmetic operation to the range of
+// 16.16 fixed point numbers.
+func clampFixed(x float64) float64 {
+	return clamp(x, -32768, 32768-1.0/65536)
+}
+
 func getSubr(subrs cffIndex, biased int) ([]byte, error) {
 	var offset int
 	nSubrs := len(subrs)
-- 
2.43.0


From b4e87c4ac64243bca28e85b9e0cafb96afdccb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:18 +0000
Subject: [PATCH 27/92] fix: the Type 2 charstring operator flex1 did not
 return to the starting coordinate

---
 cff/t2decode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 04cdb57..fa06e3b 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -297,14 +297,15 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 					extra := stack[10]
 					dx := stack[0] + stack[2] + stack[4] + stack[6] + stack[8]
 					dy := stack[1] + stack[3] + stack[5] + stack[7] + stack[9]
+					// the end point is aligned with the starting point
 					if math.Abs(dx) > math.Abs(dy) {
 						rCurveTo(stack[6], stack[7],
 							stack[8], stack[9],
-							extra, 0)
+							extra, -dy)
 					} else {
 						rCurveTo(stack[6], stack[7],
 							stack[8], stack[9],
-							0, extra)
+							-dx, extra)
 					}
 					// fd = 0.5
 				}
-- 
2.43.0


From 1e2d50fc28a9e6b96d14efce2f438d9bcede3239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 28/92] fix: the Type 2 charstring operator roll rejected N=0

---
 cff/t2decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index fa06e3b..3878921 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -510,10 +510,12 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				}
 				n := int(stack[k])
 				j := int(stack[k+1])
-				if n <= 0 || n > k {
+				if n < 0 || n > k {
 					return nil, errors.New("invalid roll count")
 				}
-				roll(stack[k-n:k], j)
+				if n > 0 {
+					roll(stack[k-n:k], j)
+				}
 				stack = stack[:k]
 			case t2dup:
 				k := len(stack) - 1
-- 
2.43.0


From 59bf3eaa6f0e317e058aeb3982341f55fd702abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:43 +0000
Subject: [PATCH 29/92] fix: path operators of Type 2 charstrings silently
 ignored a stack underflow

---
 cff/t2decode.go | 129 +++++++++++++++++++++++++++++-------------------
 1 file changed, 77 insertions(+), 52 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 3878921..b0ac3da 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -169,27 +169,33 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 
 			switch op {
 			case t2rmoveto:
-				setGlyphWidth(len(stack) > 2)
-				if len(stack) >= 2 {
-					rMoveTo(stack[0], stack[1])
+				if len(stack) < 2 {
+					return nil, errStackUnderflow
 				}
+				setGlyphWidth(len(stack) > 2)
+				rMoveTo(stack[0], stack[1])
 				clearStack()
 
 			case t2hmoveto:
-				setGlyphWidth(len(stack) > 1)
-				if len(stack) >= 1 {
-					rMoveTo(stack[0], 0)
+				if len(stack) < 1 {
+					return nil, errStackUnderflow
 				}
+				setGlyphWidth(len(stack) > 1)
+				rMoveTo(stack[0], 0)
 				clearStack()
 
 			case t2vmoveto:
-				setGlyphWidth(len(stack) > 1)
-				if len(stack) >= 1 {
-					rMoveTo(0, stack[0])
+				if len(stack) < 1 {
+					return nil, errStackUnderflow
 				}
+				setGlyphWidth(len(stack) > 1)
+				rMoveTo(0, stack[0])
 				clearStack()
 
 			case t2rlineto:
+				if len(stack) < 2 {
+					return nil, errStackUnderflow
+				}
 				pos := 0
 				for pos+1 < len(stack) {
 					rLineTo(stack[pos], stack[pos+1])
@@ -198,6 +204,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2hlineto, t2vlineto:
+				if len(stack) < 1 {
+					return nil, errStackUnderflow
+				}
 				horizontal := op == t2hlineto
 				for _, z := range stack {
 					if horizontal {
@@ -210,6 +219,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2rrcurveto, t2rcurveline, t2rlinecurve:
+				if len(stack) < 6 || op != t2rrcurveto && len(stack) < 8 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				for op == t2rlinecurve && len(tmp) >= 8 {
 					rLineTo(tmp[0], tmp[1])
@@ -227,6 +239,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2hhcurveto:
+				if len(stack) < 4 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				var dy1 float64
 				if len(tmp)%4 != 0 {
@@ -242,6 +257,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2vvcurveto:
+				if len(stack) < 4 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				var dx1 float64
 				if len(tmp)%4 != 0 {
@@ -257,6 +275,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2hvcurveto, t2vhcurveto:
+				if len(stack) < 4 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				horizontal := op == t2hvcurveto
 				for len(tmp) >= 4 {
@@ -279,59 +300,63 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2flex:
-				if len(stack) >= 13 {
-					rCurveTo(stack[0], stack[1],
-						stack[2], stack[3],
-						stack[4], stack[5])
-					rCurveTo(stack[6], stack[7],
-						stack[8], stack[9],
-						stack[10], stack[11])
-					// fd = stack[12] / 100
+				if len(stack) < 13 {
+					return nil, errStackUnderflow
 				}
+				rCurveTo(stack[0], stack[1],
+					stack[2], stack[3],
+					stack[4], stack[5])
+				rCurveTo(stack[6], stack[7],
+					stack[8], stack[9],
+					stack[10], stack[11])
+				// fd = stack[12] / 100
 				clearStack()
 			case t2flex1:
-				if len(stack) >= 11 {
-					rCurveTo(stack[0], stack[1],
-						stack[2], stack[3],
-						stack[4], stack[5])
-					extra := stack[10]
-					dx := stack[0] + stack[2] + stack[4] + stack[6] + stack[8]
-					dy := stack[1] + stack[3] + stack[5] + stack[7] + stack[9]
-					// the end point is aligned with the starting point
-					if math.Abs(dx) > math.Abs(dy) {
-						rCurveTo(stack[6], stack[7],
-							stack[8], stack[9],
-							extra, -dy)
-					} else {
-						rCurveTo(stack[6], stack[7],
-							stack[8], stack[9],
-							-dx, extra)
-					}
-					// fd = 0.5
+				if len(stack) < 11 {
+					return nil, errStackUnderflow
 				}
+				rCurveTo(stack[0], stack[1],
+					stack[2], stack[3],
+					stack[4], stack[5])
+				extra := stack[10]
+				dx := stack[0] + stack[2] + stack[4] + stack[6] + stack[8]
+				dy := stack[1] + stack[3] + stack[5] + stack[7] + stack[9]
+				// the end point is aligned with the starting point
+				if math.Abs(dx) > math.Abs(dy) {
+					rCurveTo(stack[6], stack[7],
+						stack[8], stack[9],
+						extra, -dy)
+				} else {
+					rCurveTo(stack[6], stack[7],
+						stack[8], stack[9],
+						-dx, extra)
+				}
+				// fd = 0.5
 				clearStack()
 			case t2hflex:
-				if len(stack) >= 7 {
-					rCurveTo(stack[0], 0,
-						stack[1], stack[2],
-						stack[3], 0)
-					rCurveTo(stack[4], 0,
-						stack[5], -stack[2],
-						stack[6], 0)
-					// fd = 0.5
+				if len(stack) < 7 {
+					return nil, errStackUnderflow
 				}
+				rCurveTo(stack[0], 0,
+					stack[1], stack[2],
+					stack[3], 0)
+				rCurveTo(stack[4], 0,
+					stack[5], -stack[2],
+					stack[6], 0)
+				// fd = 0.5
 				clearStack()
 			case t2hflex1:
-				if len(stack) >= 9 {
-					rCurveTo(stack[0], stack[1],
-						stack[2], stack[3],
-						stack[4], 0)
-					dy := stack[1] + stack[3] + stack[7]
-					rCurveTo(stack[5], 0,
-						stack[6], stack[7],
-						stack[8], -dy)
-					// fd = 0.5
+				if len(stack) < 9 {
+					return nil, errStackUnderflow
 				}
+				rCurveTo(stack[0], stack[1],
+					stack[2], stack[3],
+					stack[4], 0)
+				dy := stack[1] + stack[3] + stack[7]
+				rCurveTo(stack[5], 0,
+					stack[6], stack[7],
+					stack[8], -dy)
+				// fd = 0.5
 				clearStack()
 
 			case t2dotsection: // deprecated
-- 
2.43.0


From 6897d95be3352c5c8879fe94b3d04cb6fe33aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:45 +0000
Subject: [PATCH 30/92] fix: overflowing Type 2 charstring arithmetic could
 lead to infinite and NaN glyph widths

---
 cff/t2decode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index b0ac3da..73b9da5 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -458,14 +458,14 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				if k < 0 {
 					return nil, errStackUnderflow
 				}
-				stack[k] += stack[k+1]
+				stack[k] = clampFixed(stack[k] + stack[k+1])
 				stack = stack[:k+1]
 			case t2sub:
 				k := len(stack) - 2
 				if k < 0 {
 					return nil, errStackUnderflow
 				}
-				stack[k] -= stack[k+1]
+				stack[k] = clampFixed(stack[k] - stack[k+1])
 				stack = stack[:k+1]
 			case t2div:
 				k := len(stack) - 2
@@ -474,7 +474,7 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				}
 				var x float64
 				if stack[k+1] != 0 {
-					x = stack[k] / stack[k+1]
+					x = clampFixed(stack[k] / stack[k+1])
 				}
 				stack[k] = x
 				stack = stack[:k+1]
-- 
2.43.0


From 566e65a40644b149eb3f0d5912a36cb9949fb6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 31/92] fix: bounding boxes of CFF glyphs ignored the extrema
 of curves

---
 cff/glyph.go    | 105 +++++++++++++++++++++++++++++++++++-------------
 cff/outlines.go |  34 +---------------
 2 files changed, 79 insertions(+), 60 deletions(-)

diff --git a/cff/glyph.go b/cff/glyph.go
index 2b0fda4..ccec2ec 100644
--- a/cff/glyph.go
+++ b/cff/glyph.go
@@ -21,6 +21,8 @@ import (
 	"math"
 	"strings"
 
+	"seehuhn.de/go/geom/matrix"
+	"seehuhn.de/go/geom/rect"
 	"seehuhn.de/go/postscript/funit"
 )
 
@@ -79,41 +81,90 @@ func (g *Glyph) CurveTo(x1, y1, x2, y2, x3, y3 float64) {
 
 // Extent computes the Glyph extent in font design units
 func (g *Glyph) Extent() funit.Rect16 {
-	var left, right, top, bottom float64
+	bbox := g.bbox(matrix.Identity)
+	return funit.Rect16{
+		LLx: funit.Int16(math.Floor(bbox.LLx)),
+		LLy: funit.Int16(math.Floor(bbox.LLy)),
+		URx: funit.Int16(math.Ceil(bbox.URx)),
+		URy: funit.Int16(math.Ceil(bbox.URy)),
+	}
+}
+
+// bbox returns the bounding box of the glyph outline after M is applied.
+// If the glyph is blank, the zero rectangle is returned.
+func (g *Glyph) bbox(M matrix.Matrix) (bbox rect.Rect) {
 	first := true
-cmdLoop:
-	for _, cmd := range g.Cmds {
-		var x, y float64
-		switch cmd.Op {
-		case OpMoveTo, OpLineTo:
-			x = cmd.Args[0]
-			y = cmd.Args[1]
-		case OpCurveTo:
-			x = cmd.Args[4]
-			y = cmd.Args[5]
-		default:
-			continue cmdLoop
-		}
-		if first || x < left {
-			left = x
+	addPoint := func(x, y float64) {
+		if first || x < bbox.LLx {
+			bbox.LLx = x
 		}
-		if first || x > right {
-			right = x
+		if first || x > bbox.URx {
+			bbox.URx = x
 		}
-		if first || y < bottom {
-			bottom = y
+		if first || y < bbox.LLy {
+			bbox.LLy = y
 		}
-		if first || y > top {
-			top = y
+		if first || y > bbox.URy {
+			bbox.URy = y
 		}
 		first = false
 	}
-	return funit.Rect16{
-		LLx: funit.Int16(math.Floor(left)),
-		LLy: funit.Int16(math.Floor(bottom)),
-		URx: funit.Int16(math.Ceil(right)),
-		URy: funit.Int16(math.Ceil(top)),
+
+	var x0, y0 float64 // the current point
+	for _, cmd := range g.Cmds {
+		switch cmd.Op {
+		case OpMoveTo, OpLineTo:
+			x0, y0 = M.Apply(cmd.Args[0], cmd.Args[1])
+			addPoint(x0, y0)
+		case OpCurveTo:
+			x1, y1 := M.Apply(cmd.Args[0], cmd.Args[1])
+			x2, y2 := M.Apply(cmd.Args[2], cmd.Args[3])
+			x3, y3 := M.Apply(cmd.Args[4], cmd.Args[5])
+			addPoint(x3, y3)
+			// add the points where the curve has a horizontal or vertical tangent
+			for _, t := range bezierExtrema(x0, x1, x2, x3) {
+				addPoint(bezier(x0, x1, x2, x3, t), y3)
+			}
+			for _, t := range bezierExtrema(y0, y1, y2, y3) {
+				addPoint(x3, bezier(y0, y1, y2, y3, t))
+			}
+			x0, y0 = x3, y3
+		}
+	}
+	return bbox
+}
+
+// bezier evaluates a cubic Bezier polynomial at t.
+func bezier(p0, p1, p2, p3, t float64) float64 {
+	s := 1 - t
+	return s*s*s*p0 + 3*s*s*t*p1 + 3*s*t*t*p2 + t*t*t*p3
+}
+
+// bezierExtrema returns the critical points in (0, 1) of a cubic Bezier
+// polynomial which leaves the range spanned by its end points.
+func bezierExtrema(p0, p1, p2, p3 float64) []float64 {
+	lo, hi := min(p0, p3), max(p0, p3)
+	if p1 >= lo && p1 <= hi && p2 >= lo && p2 <= hi {
+		return nil
+	}
+
+	// one third of the derivative is a*t^2 + 2*b*t + c
+	a := p3 - 3*p2 + 3*p1 - p0
+	b := p2 - 2*p1 + p0
+	c := p1 - p0
+	d := b*b - a*c
+	if d < 0 {
+		return nil
+	}
+
+	var res []float64
+	q := -(b + math.Copysign(math.Sqrt(d), b))
+	for _, t := range []float64{q / a, c / q} {
+		if t > 0 && t < 1 {
+			res = append(res, t)
+		}
 	}
+	return res
 }
 
 // GlyphOp is a CFF glyph drawing command.
diff --git a/cff/outlines.go b/cff/outlines.go
index 24af24e..b272370 100644
--- a/cff/outlines.go
+++ b/cff/outlines.go
@@ -138,37 +138,5 @@ func (o *Outlines) GlyphBBoxPDF(fm matrix.Matrix, gid glyph.ID) (bbox rect.Rect)
 	}
 	M = M.Mul(matrix.Scale(1000, 1000))
 
-	first := true
-cmdLoop:
-	for _, cmd := range g.Cmds {
-		var x, y float64
-		switch cmd.Op {
-		case OpMoveTo, OpLineTo:
-			x = cmd.Args[0]
-			y = cmd.Args[1]
-		case OpCurveTo:
-			x = cmd.Args[4]
-			y = cmd.Args[5]
-		default:
-			continue cmdLoop
-		}
-
-		x, y = M.Apply(x, y)
-
-		if first || x < bbox.LLx {
-			bbox.LLx = x
-		}
-		if first || x > bbox.URx {
-			bbox.URx = x
-		}
-		if first || y < bbox.LLy {
-			bbox.LLy = y
-		}
-		if first || y > bbox.URy {
-			bbox.URy = y
-		}
-		first = false
-	}
-
-	return bbox
+	return g.bbox(M)
 }
-- 
2.43.0


From 6a5bd1f51b4f85171d90e98b3d9095322ab0c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:44 +0000
Subject: [PATCH 32/92] fix: WidthsPDF ignored the font matrices of CID-keyed
 fonts and sheared font matrices, unlike GlyphWidthPDF

---
 cff/font.go | 5 ++---
 font.go     | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/cff/font.go b/cff/font.go
index 81e7e9f..e2ac6ab 100644
--- a/cff/font.go
+++ b/cff/font.go
@@ -76,9 +76,8 @@ func (f *Font) Widths() []float64 {
 // in PDF glyph space units (1/1000th of a text space unit).
 func (f *Font) WidthsPDF() []float64 {
 	widths := make([]float64, f.NumGlyphs())
-	q := f.FontMatrix[0] * 1000
-	for gid, glyph := range f.Glyphs {
-		widths[gid] = glyph.Width * q
+	for gid := range widths {
+		widths[gid] = f.GlyphWidthPDF(glyph.ID(gid))
 	}
 	return widths
 }
diff --git a/font.go b/font.go
index 95e0adb..af5cbc1 100644
--- a/font.go
+++ b/font.go
@@ -278,8 +278,8 @@ func (f *Font) WidthsPDF() []float64 {
 	widths := make([]float64, f.NumGlyphs())
 	switch outlines := f.Outlines.(type) {
 	case *cff.Outlines:
-		for gid, g := range outlines.Glyphs {
-			widths[gid] = g.Width * f.FontMatrix[0]
+		for gid := range widths {
+			widths[gid] = f.GlyphWidthPDF(glyph.ID(gid)) / 1000
 		}
 		return widths
 	case *glyf.Outlines:
-- 
2.43.0


From 05cc9758b4d0ca42305cd3d112fc006d0584b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:50 +0000
Subject: [PATCH 33/92] fix: CFF fonts where the encoded glyphs are not
 contiguous (for example subsets) could not be written

---
 cff/encoding.go | 54 +++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/cff/encoding.go b/cff/encoding.go
index e2aee37..f7f9d2f 100644
--- a/cff/encoding.go
+++ b/cff/encoding.go
@@ -107,9 +107,6 @@ func readEncoding(p *parser.Parser, charset []int32) ([]glyph.ID, error) {
 				return nil, err
 			}
 			gid := lookup[sid]
-			if gid >= currentGid {
-				return nil, invalidSince("invalid encoding supplement")
-			}
 			if gid != 0 {
 				res[code] = gid
 			}
@@ -123,31 +120,43 @@ func readEncoding(p *parser.Parser, charset []int32) ([]glyph.ID, error) {
 // The encoding vector is given as a slice of glyph IDs (length 256),
 // where the glyph ID 0 is used to indicate a missing glyph.
 //
-// The encoded glyphs must form a contiguous range starting at glyph ID 1.
-//
 // The glyphNames argument is only used for supplemented encodings, where
-// one or more glyphs have multiple codes.
+// one or more glyphs have multiple codes, or where the encoded glyphs do
+// not form a contiguous range starting at glyph ID 1.
 func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
-	var maxGid glyph.ID
 	codes := map[glyph.ID]uint8{}
+	for code, gid := range encoding {
+		if gid == 0 {
+			continue
+		}
+		if _, ok := codes[gid]; !ok {
+			codes[gid] = uint8(code)
+		}
+	}
+
+	// The main part of the encoding covers glyphs 1, ..., maxGid.
+	var maxGid glyph.ID
+	for maxGid < 255 {
+		if _, ok := codes[maxGid+1]; !ok {
+			break
+		}
+		maxGid++
+	}
+
+	// All remaining codes are listed in the supplement.
 	type suppl struct {
 		code uint8
 		gid  glyph.ID
 	}
 	var extra []suppl
 	for code, gid := range encoding {
-		if gid == 0 {
+		if gid == 0 || gid <= maxGid && codes[gid] == uint8(code) {
 			continue
 		}
-		c8 := uint8(code)
-		if _, ok := codes[gid]; ok {
-			extra = append(extra, suppl{c8, gid})
-			continue
-		}
-		codes[gid] = c8
-		if gid > maxGid {
-			maxGid = gid
-		}
+		extra = append(extra, suppl{uint8(code), gid})
+	}
+	if len(extra) > 255 {
+		return nil, invalidSince("too many supplemental codes")
 	}
 
 	type seg struct {
@@ -159,11 +168,7 @@ func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 	startGid := glyph.ID(1)
 	startCode := codes[startGid]
 	for gid := glyph.ID(1); gid <= maxGid; gid++ {
-		code, ok := codes[gid]
-		if !ok {
-			msg := fmt.Sprintf("encoded glyphs not contiguous (glyph %d not encoded)", gid)
-			return nil, invalidSince(msg)
-		}
+		code := codes[gid]
 		if int(gid-startGid) != int(code)-int(startCode) {
 			ss = append(ss, seg{startCode, uint8(gid - startGid - 1)})
 			startGid = gid
@@ -171,9 +176,6 @@ func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 		}
 	}
 	ss = append(ss, seg{startCode, uint8(maxGid - startGid)})
-	if len(ss) > 255 {
-		return nil, invalidSince("too many segments")
-	}
 
 	format0Len := 2 + int(maxGid)
 	format1Len := 2 + len(ss)*2
@@ -183,7 +185,7 @@ func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 	}
 	var buf []byte
 	var extraBase int
-	if format0Len <= format1Len && maxGid <= 255 {
+	if format0Len <= format1Len {
 		extraBase = format0Len
 		buf = make([]byte, format0Len+extraLen)
 		// buf[0] = 0
-- 
2.43.0


From 25d0267bb1d02d99a37eda2c1a163d09cb0de3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 34/92] fix: class contexts with classes that have no rule set
 do not match

---
 opentype/gtab/nested.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 8a6ab08..04ee607 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -392,6 +392,9 @@ func (l *SeqContext2) apply(ctx *Context, a, b int) int {
 		return -1
 	}
 	ruleIdx := l.Input[gid]
+	if int(ruleIdx) >= len(l.Rules) {
+		return -1
+	}
 	rules := l.Rules[ruleIdx]
 
 	matchPos := ctx.scratch
-- 
2.43.0


From 93f7782a127b3bc3416897e23a7bc80a6ac7dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:26 +0000
Subject: [PATCH 35/92] fix: coverage-based chained contexts: sequence index 1
 is the second input glyph, and ignored glyphs before the lookahead are
 skipped

---
 opentype/gtab/nested.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 04ee607..cf6c96d 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -1427,33 +1427,41 @@ func (l *ChainedSeqContext3) apply(ctx *Context, a, b int) int {
 	}
 
 	p = a
+	if len(l.Input) == 0 || !l.Input[0][seq[p].GID] {
+		return -1
+	}
 	matchPos := append(ctx.scratch[:0], p)
-	glyphsNeeded = len(l.Input)
-	for _, cov := range l.Input {
-		if p+glyphsNeeded-1 >= b || !cov[seq[p].GID] {
-			ctx.scratch = matchPos // return the scratch space
-			return -1
-		}
-		matchPos = append(matchPos, p)
+	glyphsNeeded = len(l.Input) - 1
+	for _, cov := range l.Input[1:] {
 		glyphsNeeded--
 		p++
 		for p+glyphsNeeded < b && !keep.Keep(seq[p].GID) {
 			p++
 		}
+		if p+glyphsNeeded >= b || !cov[seq[p].GID] {
+			ctx.scratch = matchPos // return the scratch space
+			return -1
+		}
+		matchPos = append(matchPos, p)
 	}
 	next := p
 
 	glyphsNeeded = len(l.Lookahead)
 	for _, cov := range l.Lookahead {
-		if p+glyphsNeeded-1 >= len(seq) || !cov[seq[p].GID] {
-			ctx.scratch = matchPos // return the scratch space
-			return -1
-		}
 		glyphsNeeded--
 		p++
 		for p+glyphsNeeded < len(seq) && !keep.Keep(seq[p].GID) {
 			p++
 		}
+		if p+glyphsNeeded >= len(seq) || !cov[seq[p].GID] {
+			ctx.scratch = matchPos // return the scratch space
+			return -1
+		}
+	}
+
+	next++
+	for next < b && !keep.Keep(seq[next].GID) {
+		next++
 	}
 
 	ctx.scratch = nil // claim the scratch space as our own
-- 
2.43.0


From e6be7d09cb4c8064ec17f63ab2e19e66c9b9b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:30 +0000
Subject: [PATCH 36/92] fix: out-of-range sequence indices and abandoned nested
 actions no longer affect later glyphs

---
 opentype/gtab/layout.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index 0b905bc..750b98c 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -121,12 +121,12 @@ func (ctx *Context) applyAtRecursively(pos int) int {
 
 		lookupIndex := ctx.stack[k].Actions[0].LookupListIndex
 		seqIdx := ctx.stack[k].Actions[0].SequenceIndex
+		ctx.stack[k].Actions = ctx.stack[k].Actions[1:]
 		if int(seqIdx) >= len(ctx.stack[k].InputPos) {
 			continue
 		}
 		pos := ctx.stack[k].InputPos[seqIdx]
 		end := ctx.stack[k].EndPos
-		ctx.stack[k].Actions = ctx.stack[k].Actions[1:]
 
 		if int(lookupIndex) >= len(ctx.ll) {
 			continue
@@ -146,6 +146,13 @@ func (ctx *Context) applyAtRecursively(pos int) int {
 		}
 	}
 
+	if len(ctx.stack) > 0 {
+		// The limit on the number of nested actions was reached.  Abandon the
+		// remaining actions, so that they don't leak into the next match.
+		next = ctx.stack[0].EndPos
+		ctx.stack = ctx.stack[:0]
+	}
+
 	return next
 }
 
-- 
2.43.0


From 172b176b8489981ae1121a03e201dbd92b18f595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:13 +0000
Subject: [PATCH 37/92] fix: ligature substitution keeps the ignored glyphs it
 moves behind the ligature

---
 opentype/gtab/gsub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 4b372a9..68e8c52 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -585,7 +585,7 @@ ligLoop:
 		lig := &ligSet[j]
 
 		matchPos = matchPos[:0]
-		skipPos = matchPos[:0]
+		skipPos = skipPos[:0]
 		text = text[:0]
 
 		matchPos = append(matchPos, a)
-- 
2.43.0


From fdd4a225576c85cea0d4372f82b409426efbfb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:16 +0000
Subject: [PATCH 38/92] fix: multiple substitution with an empty replacement
 sequence does not panic

---
 opentype/gtab/gsub.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 68e8c52..7ab8f3a 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -267,6 +267,10 @@ func (l *Gsub2_1) apply(ctx *Context, a, b int) int {
 	}
 
 	repl := l.Repl[idx]
+	if len(repl) == 0 {
+		// This is not allowed by the spec.
+		return -1
+	}
 	seq[a].GID = repl[0]
 	k := len(repl)
 	if k > 1 {
-- 
2.43.0


From ef3092453ef8c42908db48d7242cc55325db5f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:20 +0000
Subject: [PATCH 39/92] fix: lookups which reference a missing mark filtering
 set do not panic

---
 opentype/gtab/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/filter.go b/opentype/gtab/filter.go
index 6b7c5b9..841ad30 100644
--- a/opentype/gtab/filter.go
+++ b/opentype/gtab/filter.go
@@ -86,7 +86,7 @@ func (k *keepFunc) Keep(gid glyph.ID) bool {
 			// If a mark filtering set is specified, this supersedes any mark
 			// attachment type indication in the lookup flag.
 			set := k.Meta.MarkFilteringSet
-			if k.Gdef.MarkGlyphSets == nil || !k.Gdef.MarkGlyphSets[set][gid] {
+			if int(set) >= len(k.Gdef.MarkGlyphSets) || !k.Gdef.MarkGlyphSets[set][gid] {
 				return false
 			}
 		} else if m := flags & MarkAttachTypeMask; m != 0 {
-- 
2.43.0


From d291ae5319bd1c0d15b56c8e290e1b0161b32266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:24 +0000
Subject: [PATCH 40/92] fix: mark-to-mark attachment uses the preceding glyph
 which is not ignored, and takes the position of this mark into account

---
 opentype/gtab/gpos6.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index 29d78da..9c2a522 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -131,26 +131,30 @@ func (l *Gpos6_1) apply(ctx *Context, a, b int) int {
 	if a == 0 {
 		return -1
 	}
+	// mark2 is the preceding glyph, skipping over ignored glyphs
 	p := a - 1
-	var mark2Idx int
-	for p >= 0 {
-		mark2Idx, ok = l.Mark2Cov[seq[p].GID]
-		if ok {
-			break
-		}
+	for p >= 0 && !ctx.keep.Keep(seq[p].GID) {
 		p--
 	}
 	if p < 0 {
 		return -1
 	}
+	mark2Idx, ok := l.Mark2Cov[seq[p].GID]
+	if !ok {
+		return -1
+	}
+	if int(mark1Record.Class) >= len(l.Mark2Array[mark2Idx]) {
+		return -1
+	}
 	mark2Record := l.Mark2Array[mark2Idx][mark1Record.Class]
 	if mark2Record.IsEmpty() {
 		// TODO(voss): verify that this is what others do, too.
 		return -1
 	}
 
-	dx := mark2Record.X - mark1Record.X
-	dy := mark2Record.Y - mark1Record.Y
+	// mark2 may itself be attached to a base glyph
+	dx := seq[p].XOffset + mark2Record.X - mark1Record.X
+	dy := seq[p].YOffset + mark2Record.Y - mark1Record.Y
 	for i := p; i < a; i++ {
 		dx -= seq[i].Advance
 	}
-- 
2.43.0


From f7e7b41e9715dd16f93cfc6509591b09a8f55840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:27 +0000
Subject: [PATCH 41/92] fix: mark-to-base attachment does not reach across an
 unrelated base glyph

---
 opentype/gtab/gpos.go  | 3 +++
 opentype/gtab/gpos4.go | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index dfdf87d..0862617 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -485,6 +485,9 @@ func (l *Gpos2_2) apply(ctx *Context, a, b int) int {
 		return -1
 	}
 	adj := row[class2]
+	if adj == nil {
+		return -1
+	}
 
 	adj.First.Apply(&seq[a])
 	if adj.Second == nil {
diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index 87d534a..fe35c9d 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -19,6 +19,7 @@ package gtab
 import (
 	"seehuhn.de/go/sfnt/opentype/anchor"
 	"seehuhn.de/go/sfnt/opentype/coverage"
+	"seehuhn.de/go/sfnt/opentype/gdef"
 	"seehuhn.de/go/sfnt/opentype/markarray"
 	"seehuhn.de/go/sfnt/parser"
 )
@@ -140,11 +141,19 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 		if ok {
 			break
 		}
+		if ctx.gdef != nil && ctx.gdef.GlyphClass != nil &&
+			ctx.gdef.GlyphClass[seq[p].GID] != gdef.GlyphClassMark {
+			// The mark belongs to this glyph, and there is no anchor for it.
+			return -1
+		}
 		p--
 	}
 	if p < 0 {
 		return -1
 	}
+	if int(markRecord.Class) >= len(l.BaseArray[baseIdx]) {
+		return -1
+	}
 	baseRecord := l.BaseArray[baseIdx][markRecord.Class]
 	if baseRecord.IsEmpty() {
 		// TODO(voss): verify that this is what others do, too.
-- 
2.43.0


From f1c4d05f802bcdf07b4a892dfed1b1760f1effe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:02 +0000
Subject: [PATCH 42/92] fix: the end of a contextual match is adjusted when a
 ligature removes trailing glyphs

---
 opentype/gtab/layout.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index 750b98c..3ea2ce9 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -265,6 +265,7 @@ func (ctx *Context) fixStackMerge(pos []int) {
 		}
 
 		action.InputPos = in
-		action.EndPos -= delta
+		// all glyphs in pos are before action.EndPos, and pos[1:] are removed
+		action.EndPos -= len(pos) - 1
 	}
 }
-- 
2.43.0


From 49992b1d2f3d344d8ed3cdfd40083549835e77c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:26 +0000
Subject: [PATCH 43/92] fix: cursive attachment ignores missing anchors and
 looks past ignored glyphs

---
 opentype/gtab/gpos.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index 0862617..ce14cc8 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -664,20 +664,31 @@ func (l *Gpos3_1) apply(ctx *Context, a, b int) int {
 		return -1
 	}
 	rec := l.Records[idx]
-	if a > 0 {
-		prevGlyph := seq[a-1] // TODO(voss): use ctx.Keep?
-		prev, ok := l.Cov[prevGlyph.GID]
-		if ok {
-			prevRec := l.Records[prev]
-			seq[a].YOffset = prevGlyph.YOffset + prevRec.Exit.Y - rec.Entry.Y
+
+	// Empty anchors indicate that there is no entry or exit point.
+
+	p := a - 1
+	for p >= 0 && !ctx.keep.Keep(seq[p].GID) {
+		p--
+	}
+	if p >= 0 && !rec.Entry.IsEmpty() {
+		prev, ok := l.Cov[seq[p].GID]
+		if ok && !l.Records[prev].Exit.IsEmpty() {
+			seq[a].YOffset = seq[p].YOffset + l.Records[prev].Exit.Y - rec.Entry.Y
 		}
 	}
-	if a < b-1 {
-		nextGlyph := seq[a+1] // TODO(voss): use ctx.Keep?
-		next, ok := l.Cov[nextGlyph.GID]
-		if ok {
-			nextRec := l.Records[next]
-			seq[a].Advance = seq[a].XOffset + rec.Exit.X - nextGlyph.XOffset - nextRec.Entry.X
+
+	p = a + 1
+	for p < b && !ctx.keep.Keep(seq[p].GID) {
+		p++
+	}
+	if p < b && !rec.Exit.IsEmpty() {
+		next, ok := l.Cov[seq[p].GID]
+		if ok && !l.Records[next].Entry.IsEmpty() {
+			seq[a].Advance = seq[a].XOffset + rec.Exit.X - seq[p].XOffset - l.Records[next].Entry.X
+			for i := a + 1; i < p; i++ {
+				seq[a].Advance -= seq[i].Advance
+			}
 		}
 	}
 
-- 
2.43.0


From 73ca7fe2e308137f51bfc20acd3efc56267a3576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 44/92] fix: applying value records with vertical advances or
 device tables does not panic

---
 opentype/gtab/valuerecord.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/opentype/gtab/valuerecord.go b/opentype/gtab/valuerecord.go
index cbf1b4f..a8ec1b9 100644
--- a/opentype/gtab/valuerecord.go
+++ b/opentype/gtab/valuerecord.go
@@ -221,19 +221,14 @@ func (vr *GposValueRecord) String() string {
 }
 
 // Apply adjusts the position of a glyph according to the value record.
+//
+// Vertical advances (which only apply to vertical layout) and device tables
+// (which only apply to specific pixel sizes) are ignored.
 func (vr *GposValueRecord) Apply(glyph *glyph.Info) {
 	if vr == nil {
 		return
 	}
 
-	if vr.YAdvance != 0 ||
-		vr.XPlacementDevOffs != 0 ||
-		vr.YPlacementDevOffs != 0 ||
-		vr.XAdvanceDevOffs != 0 ||
-		vr.YAdvanceDevOffs != 0 {
-		panic("not implemented")
-	}
-
 	glyph.XOffset += vr.XPlacement
 	glyph.YOffset += vr.YPlacement
 	glyph.Advance += vr.XAdvance
-- 
2.43.0


From 7a5508d70785c365e8dd86ffee803dd258b1c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 45/92] fix: reading of mark-to-ligature subtables: use the
 component offsets, no index out of range

---
 opentype/gtab/gpos5.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index a7dd3ed..e7efe75 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -90,6 +90,7 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	}
 
 	ligArray := make([][][]anchor.Table, ligCount)
+	total := 2 + 2*len(offsets)
 	for i := range ligArray {
 		ligAttachPos := ligArrayPos + int64(offsets[i])
 		err = p.SeekPos(ligAttachPos)
@@ -101,20 +102,41 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		if err != nil {
 			return nil, err
 		}
-		ligAttach := make([][]anchor.Table, componentCount)
 
-		for j := 0; j < int(componentCount); j++ {
+		// Array of offsets to the anchor tables, ordered by component and
+		// then by mark class.  Offsets are from the beginning of the
+		// LigatureAttach table.
+		numOffsets := int(componentCount) * markClassCount
+		total += 2 + 2*numOffsets
+		if total > 65535 {
+			return nil, &parser.InvalidFontError{
+				SubSystem: "sfnt/opentype/gtab",
+				Reason:    "GPOS5.1 table too large",
+			}
+		}
+		anchorOffsets := make([]uint16, numOffsets)
+		for j := range anchorOffsets {
+			anchorOffsets[j], err = p.ReadUint16()
+			if err != nil {
+				return nil, err
+			}
+		}
+
+		ligAttach := make([][]anchor.Table, componentCount)
+		for j := range ligAttach {
 			row := make([]anchor.Table, markClassCount)
-			for j := range row {
-				if offsets[j] == 0 {
+			for k := range row {
+				if anchorOffsets[k] == 0 {
 					continue
 				}
-				row[j], err = anchor.Read(p, ligAttachPos+int64(offsets[j]))
+				row[k], err = anchor.Read(p, ligAttachPos+int64(anchorOffsets[k]))
 				if err != nil {
 					return nil, err
 				}
+				total += 6
 			}
-			ligAttach[i] = row
+			ligAttach[j] = row
+			anchorOffsets = anchorOffsets[markClassCount:]
 		}
 
 		ligArray[i] = ligAttach
-- 
2.43.0


From 40058048711a0425286e2cfbf34113f25dfd0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:10 +0000
Subject: [PATCH 46/92] fix: mark-to-ligature subtables can be encoded

---
 opentype/gtab/gpos5.go | 124 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 119 insertions(+), 5 deletions(-)

diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index e7efe75..aaf15d4 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -107,7 +107,7 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		// then by mark class.  Offsets are from the beginning of the
 		// LigatureAttach table.
 		numOffsets := int(componentCount) * markClassCount
-		total += 2 + 2*numOffsets
+		total += 2 + 2*max(numOffsets, int(componentCount))
 		if total > 65535 {
 			return nil, &parser.InvalidFontError{
 				SubSystem: "sfnt/opentype/gtab",
@@ -156,12 +156,126 @@ func (l *Gpos5_1) apply(ctx *Context, a, b int) int {
 	return -1
 }
 
-// encode implements the [Subtable] interface.
-func (l *Gpos5_1) encode() []byte {
-	panic("not implemented")
+func (l *Gpos5_1) countMarkClasses() int {
+	for _, lig := range l.LigArray {
+		if len(lig) > 0 {
+			return len(lig[0])
+		}
+	}
+
+	var maxClass uint16
+	for _, rec := range l.MarkArray {
+		if rec.Class > maxClass {
+			maxClass = rec.Class
+		}
+	}
+	return int(maxClass) + 1
+}
+
+// ligAttachLen returns the length of a LigatureAttach table.
+func ligAttachLen(lig [][]anchor.Table) int {
+	total := 2
+	for _, row := range lig {
+		for _, rec := range row {
+			total += 2
+			if !rec.IsEmpty() {
+				total += 6
+			}
+		}
+	}
+	return total
 }
 
 // encodeLen implements the [Subtable] interface.
 func (l *Gpos5_1) encodeLen() int {
-	panic("not implemented")
+	total := 12
+	total += l.MarkCov.EncodeLen()
+	total += l.LigCov.EncodeLen()
+	total += 2 + (4+6)*len(l.MarkArray)
+	total += 2 + 2*len(l.LigArray)
+	for _, lig := range l.LigArray {
+		total += ligAttachLen(lig)
+	}
+	return total
+}
+
+// encode implements the [Subtable] interface.
+func (l *Gpos5_1) encode() []byte {
+	markCount := len(l.MarkArray)
+	markClassCount := l.countMarkClasses()
+	ligCount := len(l.LigArray)
+
+	markCoverageOffset := 12
+	ligCoverageOffset := markCoverageOffset + l.MarkCov.EncodeLen()
+	markArrayOffset := ligCoverageOffset + l.LigCov.EncodeLen()
+	ligArrayOffset := markArrayOffset + 2 + (4+6)*markCount
+
+	res := make([]byte, 0, l.encodeLen())
+
+	res = append(res,
+		0, 1, // posFormat
+		byte(markCoverageOffset>>8), byte(markCoverageOffset),
+		byte(ligCoverageOffset>>8), byte(ligCoverageOffset),
+		byte(markClassCount>>8), byte(markClassCount),
+		byte(markArrayOffset>>8), byte(markArrayOffset),
+		byte(ligArrayOffset>>8), byte(ligArrayOffset),
+	)
+
+	res = append(res, l.MarkCov.Encode()...)
+	res = append(res, l.LigCov.Encode()...)
+
+	res = append(res,
+		byte(markCount>>8), byte(markCount),
+	)
+	offs := 2 + 4*markCount
+	for _, rec := range l.MarkArray {
+		res = append(res,
+			byte(rec.Class>>8), byte(rec.Class),
+			byte(offs>>8), byte(offs),
+		)
+		offs += 6
+	}
+	for _, rec := range l.MarkArray {
+		res = rec.Append(res)
+	}
+
+	res = append(res,
+		byte(ligCount>>8), byte(ligCount),
+	)
+	offs = 2 + 2*ligCount
+	for _, lig := range l.LigArray {
+		res = append(res,
+			byte(offs>>8), byte(offs),
+		)
+		offs += ligAttachLen(lig)
+	}
+	for _, lig := range l.LigArray {
+		componentCount := len(lig)
+		res = append(res,
+			byte(componentCount>>8), byte(componentCount),
+		)
+		offs := 2 + 2*componentCount*markClassCount
+		for _, row := range lig {
+			for _, rec := range row {
+				if rec.IsEmpty() {
+					res = append(res, 0, 0)
+					continue
+				}
+				res = append(res,
+					byte(offs>>8), byte(offs),
+				)
+				offs += 6
+			}
+		}
+		for _, row := range lig {
+			for _, rec := range row {
+				if rec.IsEmpty() {
+					continue
+				}
+				res = rec.Append(res)
+			}
+		}
+	}
+
+	return res
 }
-- 
2.43.0


From 37f3f158f445925e705a42a6dcd73e4bb6228f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:43 +0000
Subject: [PATCH 47/92] fix: the language system used for unknown languages no
 longer depends on map iteration order

---
 opentype/gtab/lookup.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index bbcbfe0..82a480c 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -18,6 +18,7 @@ package gtab
 
 import (
 	"sort"
+	"strings"
 
 	"golang.org/x/text/language"
 	"seehuhn.de/go/sfnt/parser"
@@ -580,8 +581,17 @@ func (info *Info) FindLookups(lang language.Tag, includeFeature map[string]bool)
 	for tag := range info.ScriptList {
 		tags = append(tags, tag)
 	}
-	// TODO(voss): make sure a sensible default comes first.
-	//     Maybe this could be based on the number of features supported?
+	// The first tag is used, if nothing matches.  Prefer the default script,
+	// and make sure that the result does not depend on the map order.
+	sort.Slice(tags, func(i, j int) bool {
+		a, b := tags[i].String(), tags[j].String()
+		aDefault := strings.HasPrefix(a, "und-Zzzz")
+		bDefault := strings.HasPrefix(b, "und-Zzzz")
+		if aDefault != bDefault {
+			return aDefault
+		}
+		return a < b
+	})
 
 	matcher := language.NewMatcher(tags)
 	_, index, _ := matcher.Match(lang)
-- 
2.43.0


From 90b9f28c211cfd0623eed3da907009143282019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:45 +0000
Subject: [PATCH 48/92] fix: Layout does not panic, when cmap or GSUB refer to
 glyphs which do not exist

---
 font.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/font.go b/font.go
index af5cbc1..2f8e383 100644
--- a/font.go
+++ b/font.go
@@ -343,9 +343,12 @@ func (f *Font) GlyphBBoxes() []funit.Rect16 {
 func (f *Font) GlyphWidth(gid glyph.ID) float64 {
 	switch f := f.Outlines.(type) {
 	case *cff.Outlines:
+		if int(gid) >= len(f.Glyphs) {
+			return 0
+		}
 		return f.Glyphs[gid].Width
 	case *glyf.Outlines:
-		if f.Widths == nil {
+		if int(gid) >= len(f.Widths) {
 			return 0
 		}
 		return float64(f.Widths[gid])
-- 
2.43.0


From 9124197143bc6b9da6033042918a70ff49378e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 49/92] fix: lookup types and formats above 9 are rejected
 instead of being mistaken for other subtables

---
 opentype/gtab/gpos.go | 2 +-
 opentype/gtab/gsub.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index ce14cc8..0a533fe 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -43,7 +43,7 @@ func readGposSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 	}
 
 	reader, ok := gposReaders[10*meta.LookupType+format]
-	if !ok {
+	if !ok || meta.LookupType > 9 || format > 9 {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/opentype/gtab",
 			Reason: fmt.Sprintf("unknown GPOS subtable format %d.%d",
diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 7ab8f3a..c9bb1a8 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -39,7 +39,7 @@ func readGsubSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 	}
 
 	reader, ok := gsubReaders[10*meta.LookupType+format]
-	if !ok {
+	if !ok || meta.LookupType > 9 || format > 9 {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/opentype/gtab",
 			Reason: fmt.Sprintf("unknown GSUB subtable format %d.%d",
-- 
2.43.0


From eef6b789f57a17806ab5d8a745a2355d8ae6846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:24 +0000
Subject: [PATCH 50/92] fix: coverage and class definition tables cannot expand
 out of proportion to the input size

---
 opentype/coverage/coverage.go |  8 ++++++++
 opentype/coverage/set.go      |  8 ++++++++
 parser/parser.go              | 31 +++++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+)

diff --git a/opentype/coverage/coverage.go b/opentype/coverage/coverage.go
index d7672c0..88497a6 100644
--- a/opentype/coverage/coverage.go
+++ b/opentype/coverage/coverage.go
@@ -87,6 +87,10 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 		if err != nil {
 			return nil, err
 		}
+		err = p.Charge(int(glyphCount))
+		if err != nil {
+			return nil, err
+		}
 		prev := -1
 		for i := 0; i < int(glyphCount); i++ {
 			gid, err := p.ReadUint16()
@@ -132,6 +136,10 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 					Reason:    "invalid coverage table (format 2)",
 				}
 			}
+			err = p.Charge(endGlyphID - startGlyphID + 1)
+			if err != nil {
+				return nil, err
+			}
 			for gid := startGlyphID; gid <= endGlyphID; gid++ {
 				table[glyph.ID(gid)] = pos
 				pos++
diff --git a/opentype/coverage/set.go b/opentype/coverage/set.go
index c215732..80fe1e5 100644
--- a/opentype/coverage/set.go
+++ b/opentype/coverage/set.go
@@ -67,6 +67,10 @@ func ReadSet(p *parser.Parser, pos int64) (Set, error) {
 		if err != nil {
 			return nil, err
 		}
+		err = p.Charge(int(glyphCount))
+		if err != nil {
+			return nil, err
+		}
 		for i := 0; i < int(glyphCount); i++ {
 			gid, err := p.ReadUint16()
 			if err != nil {
@@ -100,6 +104,10 @@ func ReadSet(p *parser.Parser, pos int64) (Set, error) {
 					Reason:    "invalid coverage table (format 2)",
 				}
 			}
+			err = p.Charge(endGlyphID - startGlyphID + 1)
+			if err != nil {
+				return nil, err
+			}
 			for gid := startGlyphID; gid <= endGlyphID; gid++ {
 				table[glyph.ID(gid)] = true
 				pos++
diff --git a/parser/parser.go b/parser/parser.go
index 12f9c8e..d475c4b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -30,8 +30,18 @@ type Parser struct {
 	from      int64
 	pos, used int
 	lastRead  int
+
+	charged int64
 }
 
+// Tables in a font can share data, and ranges of glyphs are stored in a compact
+// form.  The following constants limit the total amount of data which can be
+// extracted from an input of a given size.
+const (
+	chargeBase    = 1 << 21
+	chargePerByte = 16
+)
+
 // ReadSeekSizer describes the requirements for a reader that can be used
 // as the input to a Parser.
 type ReadSeekSizer interface {
@@ -57,6 +67,23 @@ func (p *Parser) Size() int64 {
 	return p.r.Size()
 }
 
+// Charge records that n elementary items (e.g. glyphs in a coverage table) have
+// been extracted from the input.  An error is returned if the total number of
+// items is out of proportion to the size of the input.
+//
+// This must be used by code which expands compressed data, or which may read
+// the same part of the input more than once.
+func (p *Parser) Charge(n int) error {
+	p.charged += int64(n)
+	if p.charged > chargeBase+chargePerByte*p.r.Size() {
+		return &InvalidFontError{
+			SubSystem: "sfnt/parser",
+			Reason:    "too much data for the size of the table",
+		}
+	}
+	return nil
+}
+
 // Pos returns the current reading position within the current region.
 func (p *Parser) Pos() int64 {
 	return p.from + int64(p.pos)
@@ -147,6 +174,10 @@ func (p *Parser) ReadUint16Slice() ([]uint16, error) {
 	if err != nil {
 		return nil, err
 	}
+	err = p.Charge(1 + int(n))
+	if err != nil {
+		return nil, err
+	}
 	res := make([]uint16, n)
 	for i := range res {
 		val, err := p.ReadUint16()
-- 
2.43.0


From 3fe41efcbc124cd9ad98cbacc74d0bc5907bb1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:24 +0000
Subject: [PATCH 51/92] fix: class definition tables: explicit class 0 entries,
 the full glyph range, and invalid ranges

---
 opentype/classdef/classdef.go | 46 +++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/opentype/classdef/classdef.go b/opentype/classdef/classdef.go
index 03a3a48..0fffbc7 100644
--- a/opentype/classdef/classdef.go
+++ b/opentype/classdef/classdef.go
@@ -20,6 +20,7 @@ package classdef
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"seehuhn.de/go/sfnt/glyph"
@@ -87,6 +88,10 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 			}
 		}
 
+		err = p.Charge(glyphCount)
+		if err != nil {
+			return nil, err
+		}
 		res := make(Table, glyphCount)
 		for i := 0; i < glyphCount; i++ {
 			classValue, err := p.ReadUint16()
@@ -122,9 +127,19 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 					Reason:    "overlapping ranges in class definition table",
 				}
 			}
+			if endGlyphID < startGlyphID {
+				return nil, &parser.InvalidFontError{
+					SubSystem: "opentype/classdef",
+					Reason:    "invalid range in class definition table",
+				}
+			}
 			prevEnd = endGlyphID
 
 			if classValue != 0 {
+				err = p.Charge(int(endGlyphID) - int(startGlyphID) + 1)
+				if err != nil {
+					return nil, err
+				}
 				for j := int(startGlyphID); j <= int(endGlyphID); j++ {
 					res[glyph.ID(j)] = classValue
 				}
@@ -146,10 +161,17 @@ type encInfo struct {
 	format2Size    int
 }
 
+// getEncInfo returns nil, if there are no glyphs with a non-zero class.
 func (info Table) getEncInfo() *encInfo {
 	minGid := glyph.ID(0xFFFF)
 	maxGid := glyph.ID(0)
-	for key := range info {
+	isEmpty := true
+	for key, class := range info {
+		if class == 0 {
+			// Glyphs in class 0 do not need to be listed.
+			continue
+		}
+		isEmpty = false
 		if key < minGid {
 			minGid = key
 		}
@@ -158,7 +180,15 @@ func (info Table) getEncInfo() *encInfo {
 		}
 	}
 
+	if isEmpty {
+		return nil
+	}
+
 	format1Size := 6 + 2*(int(maxGid)-int(minGid)+1)
+	if int(maxGid)-int(minGid)+1 > 0xFFFF {
+		// The number of glyphs does not fit into the glyphCount field.
+		format1Size = math.MaxInt
+	}
 
 	segCount := 0
 	segStart := -1
@@ -193,11 +223,11 @@ func (info Table) getEncInfo() *encInfo {
 
 // AppendLen returns the size of the binary table representation.
 func (info Table) AppendLen() int {
-	if len(info) == 0 {
+	encInfo := info.getEncInfo()
+	if encInfo == nil {
 		return 4
 	}
-	encInfo := info.getEncInfo()
-	if encInfo.format1Size < encInfo.format2Size {
+	if encInfo.format1Size <= encInfo.format2Size {
 		return encInfo.format1Size
 	}
 	return encInfo.format2Size
@@ -205,12 +235,11 @@ func (info Table) AppendLen() int {
 
 // Append appends the binary table representation to the given buffer.
 func (info Table) Append(buf []byte) []byte {
-	if len(info) == 0 {
+	encInfo := info.getEncInfo()
+	if encInfo == nil {
 		return append(buf, 0, 2, 0, 0)
 	}
 
-	encInfo := info.getEncInfo()
-
 	if encInfo.format1Size <= encInfo.format2Size {
 		count := encInfo.maxGid - encInfo.minGid + 1
 		buf = append(buf,
@@ -225,6 +254,9 @@ func (info Table) Append(buf []byte) []byte {
 	}
 
 	segCount := (encInfo.format2Size - 4) / 6
+	if segCount > 0xFFFF {
+		panic("too many segments in class definition table")
+	}
 	buf = append(buf, 0, 2, byte(segCount>>8), byte(segCount))
 	segStart := -1
 	var segClass uint16
-- 
2.43.0


From 5016a0276c7aa178c27151e3819cec5474ab066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:24 +0000
Subject: [PATCH 52/92] fix: refuse to write GDEF tables with overflowing
 offsets

---
 opentype/gdef/gdef.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opentype/gdef/gdef.go b/opentype/gdef/gdef.go
index 0dd5540..b843826 100644
--- a/opentype/gdef/gdef.go
+++ b/opentype/gdef/gdef.go
@@ -168,6 +168,11 @@ func (table *Table) Encode() []byte {
 		}
 	}
 
+	if glyphClassDefOffset > 0xFFFF || markAttachClassDefOffset > 0xFFFF ||
+		markGlyphSetsDefOffset > 0xFFFF || len(table.MarkGlyphSets) > 0xFFFF {
+		panic("too much data for GDEF table")
+	}
+
 	buf := make([]byte, 12, total)
 	// We always write table version 1.0:
 	buf[0] = byte(version >> 24)
-- 
2.43.0


From 33e4cc40e33651206e829db70f62fea432c68b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:24 +0000
Subject: [PATCH 53/92] fix: GSUB/GPOS: check for 16-bit overflows when reading
 and writing, fix extension subtables

---
 opentype/gtab/featurelist.go |  14 ++++
 opentype/gtab/gidslice.go    |   4 +
 opentype/gtab/gpos.go        | 140 +++++++++++++++++++++++------------
 opentype/gtab/gpos4.go       | 101 +++++++++++++++----------
 opentype/gtab/gpos5.go       |  36 +++++++--
 opentype/gtab/gpos6.go       |  68 ++++++-----------
 opentype/gtab/gsub.go        |  98 ++++++++++++++++--------
 opentype/gtab/gtab.go        |  76 +++++++++++++------
 opentype/gtab/lookup.go      | 128 +++++++++++++++++++++++++++-----
 opentype/gtab/nested.go      | 103 ++++++++++++++++++++++++--
 opentype/gtab/scriptlist.go  |  60 +++++++++++++--
 11 files changed, 608 insertions(+), 220 deletions(-)

diff --git a/opentype/gtab/featurelist.go b/opentype/gtab/featurelist.go
index 91bdd6a..eb6c52c 100644
--- a/opentype/gtab/featurelist.go
+++ b/opentype/gtab/featurelist.go
@@ -114,6 +114,16 @@ func readFeatureList(p *parser.Parser, pos int64) (FeatureListInfo, error) {
 	return info, nil
 }
 
+// encodedLen returns the length of the binary representation of the feature
+// list.
+func (info FeatureListInfo) encodedLen() int {
+	total := 2
+	for _, f := range info {
+		total += 6 + 4 + 2*len(f.Lookups)
+	}
+	return total
+}
+
 func (info FeatureListInfo) encode() []byte {
 	if info == nil {
 		return nil
@@ -136,6 +146,9 @@ func (info FeatureListInfo) encode() []byte {
 	buf[1] = byte(len(info))
 	for i, f := range info {
 		tag := []byte(f.Tag)
+		if len(tag) != 4 {
+			panic("invalid feature tag " + f.Tag)
+		}
 		buf[2+6*i] = tag[0]
 		buf[3+6*i] = tag[1]
 		buf[4+6*i] = tag[2]
@@ -146,6 +159,7 @@ func (info FeatureListInfo) encode() []byte {
 	for i, f := range info {
 		p := int(offs[i])
 		// featureParamsOffset
+		mustFit(len(f.Lookups))
 		buf[p+2] = byte(len(f.Lookups) >> 8)
 		buf[p+3] = byte(len(f.Lookups))
 		for i, l := range f.Lookups {
diff --git a/opentype/gtab/gidslice.go b/opentype/gtab/gidslice.go
index 5a0c916..f6f1981 100644
--- a/opentype/gtab/gidslice.go
+++ b/opentype/gtab/gidslice.go
@@ -27,6 +27,10 @@ func readGIDSlice(p *parser.Parser) ([]glyph.ID, error) {
 	if err != nil {
 		return nil, err
 	}
+	err = p.Charge(1 + int(n))
+	if err != nil {
+		return nil, err
+	}
 	res := make([]glyph.ID, n)
 	for i := range res {
 		val, err := p.ReadUint16()
diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index 0a533fe..36399c9 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -156,6 +156,10 @@ func readGpos1_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	coverageOffset := int64(buf[0])<<8 | int64(buf[1])
 	valueFormat := uint16(buf[2])<<8 | uint16(buf[3])
 	valueCount := int(buf[4])<<8 | int(buf[5])
+	err = p.Charge(valueCount)
+	if err != nil {
+		return nil, err
+	}
 	valueRecords := make([]*GposValueRecord, valueCount)
 	for i := range valueRecords {
 		valueRecords[i], err = readValueRecord(p, valueFormat)
@@ -178,6 +182,10 @@ func readGpos1_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		Cov:    cov,
 		Adjust: valueRecords,
 	}
+	err = checkSubtableSize(res.encodeLen() - cov.EncodeLen())
+	if err != nil {
+		return nil, err
+	}
 	return res, nil
 }
 
@@ -217,6 +225,8 @@ func (l *Gpos1_2) encode() []byte {
 	if len(l.Adjust) > 0 {
 		total += l.Adjust[0].encodeLen(valueFormat) * valueCount
 	}
+	mustFit(valueCount)
+	mustFit(total)
 	coverageOffset := total
 	total += l.Cov.EncodeLen()
 
@@ -313,6 +323,10 @@ func readGpos2_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		if err != nil {
 			return nil, err
 		}
+		err = p.Charge(4 * int(pairValueCount))
+		if err != nil {
+			return nil, err
+		}
 		adj := make(map[glyph.ID]*PairAdjust, pairValueCount)
 		for j := 0; j < int(pairValueCount); j++ {
 			secondGlyph, err := p.ReadUint16()
@@ -341,6 +355,12 @@ func readGpos2_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			res[glyph.Pair{Left: first, Right: second}] = a
 		}
 	}
+
+	_, lastOffset := res.tryEncode()
+	err = checkSubtableSize(lastOffset)
+	if err != nil {
+		return nil, err
+	}
 	return res, nil
 }
 
@@ -370,35 +390,23 @@ func (l Gpos2_1) CovAndAdjust() (coverage.Table, []map[glyph.ID]*PairAdjust) {
 
 // encodeLen implements the [Subtable] interface.
 func (l Gpos2_1) encodeLen() int {
-	cov, adjust := l.CovAndAdjust()
-
-	total := 10 + 2*len(adjust)
-	total += cov.EncodeLen()
-	var valueFormat1, valueFormat2 uint16
-	for _, adj := range adjust {
-		for _, v := range adj {
-			valueFormat1 |= v.First.getFormat()
-			valueFormat2 |= v.Second.getFormat()
-		}
-	}
-	for _, adj := range adjust {
-		total += 2 + 2*len(adj)
-		for _, v := range adj {
-			total += v.First.encodeLen(valueFormat1)
-			total += v.Second.encodeLen(valueFormat2)
-		}
-	}
-	return total
+	buf, _ := l.tryEncode()
+	return len(buf)
 }
 
 // encode implements the [Subtable] interface.
 func (l Gpos2_1) encode() []byte {
+	buf, lastOffset := l.tryEncode()
+	mustFit(lastOffset)
+	return buf
+}
+
+// tryEncode returns the binary representation of the subtable, together with
+// the largest offset used.  The binary representation is only valid, if the
+// offset fits into 16 bits.
+func (l Gpos2_1) tryEncode() ([]byte, int) {
 	cov, adjust := l.CovAndAdjust()
 
-	pairSetCount := len(adjust)
-	total := 10 + 2*pairSetCount
-	coverageOffset := total
-	total += cov.EncodeLen()
 	var valueFormat1, valueFormat2 uint16
 	for _, adj := range adjust {
 		for _, v := range adj {
@@ -406,17 +414,39 @@ func (l Gpos2_1) encode() []byte {
 			valueFormat2 |= v.Second.getFormat()
 		}
 	}
-	pairSetOffsets := make([]uint16, pairSetCount)
+
+	pairSetCount := len(adjust)
+	coverageOffset := 10 + 2*pairSetCount
+	lastOffset := coverageOffset
+	pos := coverageOffset + cov.EncodeLen()
+
+	// Glyphs with the same kerning information share a PairSet table.
+	var pairSets []byte
+	pairSetOffsets := make([]int, pairSetCount)
+	seen := make(map[string]int)
 	for i, adj := range adjust {
-		pairSetOffsets[i] = uint16(total)
-		total += 2 + 2*len(adj)
-		for _, v := range adj {
-			total += v.First.encodeLen(valueFormat1)
-			total += v.Second.encodeLen(valueFormat2)
+		pairValueCount := len(adj)
+		pairSet := []byte{byte(pairValueCount >> 8), byte(pairValueCount)}
+
+		keys := maps.Keys(adj)
+		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
+		for _, secondGlyph := range keys {
+			pairSet = append(pairSet, byte(secondGlyph>>8), byte(secondGlyph))
+			pairSet = append(pairSet, adj[secondGlyph].First.encode(valueFormat1)...)
+			pairSet = append(pairSet, adj[secondGlyph].Second.encode(valueFormat2)...)
 		}
+
+		offset, ok := seen[string(pairSet)]
+		if !ok {
+			offset = pos + len(pairSets)
+			seen[string(pairSet)] = offset
+			pairSets = append(pairSets, pairSet...)
+		}
+		pairSetOffsets[i] = offset
+		lastOffset = max(lastOffset, offset)
 	}
 
-	buf := make([]byte, 0, total)
+	buf := make([]byte, 0, pos+len(pairSets))
 	buf = append(buf,
 		0, 1, // format
 		byte(coverageOffset>>8), byte(coverageOffset),
@@ -427,23 +457,10 @@ func (l Gpos2_1) encode() []byte {
 	for _, offset := range pairSetOffsets {
 		buf = append(buf, byte(offset>>8), byte(offset))
 	}
-
 	buf = append(buf, cov.Encode()...)
+	buf = append(buf, pairSets...)
 
-	for _, adj := range adjust {
-		pairValueCount := len(adj)
-		buf = append(buf, byte(pairValueCount>>8), byte(pairValueCount))
-
-		keys := maps.Keys(adj)
-		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
-		for _, secondGlyph := range keys {
-			buf = append(buf, byte(secondGlyph>>8), byte(secondGlyph))
-			buf = append(buf, adj[secondGlyph].First.encode(valueFormat1)...)
-			buf = append(buf, adj[secondGlyph].Second.encode(valueFormat2)...)
-		}
-	}
-
-	return buf
+	return buf, lastOffset
 }
 
 // Gpos2_2 is a Pair Adjustment Positioning Subtable (format 2).
@@ -517,6 +534,10 @@ func readGpos2_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			Reason:    "GPOS2.1 table too large",
 		}
 	}
+	err = p.Charge(numRecords + int(class1Count))
+	if err != nil {
+		return nil, err
+	}
 	records := make([]*PairAdjust, numRecords)
 	for i := 0; i < numRecords; i++ {
 		first, err := readValueRecord(p, valueFormat1)
@@ -552,12 +573,17 @@ func readGpos2_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		adjust[i] = records[i*int(class2Count) : (i+1)*int(class2Count)]
 	}
 
-	return &Gpos2_2{
+	res := &Gpos2_2{
 		Cov:    cov,
 		Class1: classDef1,
 		Class2: classDef2,
 		Adjust: adjust,
-	}, nil
+	}
+	err = checkSubtableSize(res.encodeLen() - classDef2.AppendLen())
+	if err != nil {
+		return nil, err
+	}
+	return res, nil
 }
 
 // encodeLen implements the [Subtable] interface.
@@ -611,6 +637,9 @@ func (l *Gpos2_2) encode() []byte {
 	classDef1Offset := total
 	total += l.Class1.AppendLen()
 	classDef2Offset := total
+	mustFit(classDef2Offset)
+	mustFit(class1Count)
+	mustFit(class2Count)
 	total += l.Class2.AppendLen()
 
 	res := make([]byte, 0, total)
@@ -625,6 +654,9 @@ func (l *Gpos2_2) encode() []byte {
 		byte(class2Count>>8), byte(class2Count),
 	)
 	for _, row := range l.Adjust {
+		if len(row) != class2Count {
+			panic("inconsistent number of classes")
+		}
 		for _, adj := range row {
 			res = append(res, adj.First.encode(valueFormat1)...)
 			res = append(res, adj.Second.encode(valueFormat2)...)
@@ -703,6 +735,10 @@ func readGpos3_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	coverageOffset := int64(buf[0])<<8 | int64(buf[1])
 	entryExitCount := int(buf[2])<<8 | int(buf[3])
 
+	err = p.Charge(2 * entryExitCount)
+	if err != nil {
+		return nil, err
+	}
 	offsets := make([]uint16, 2*entryExitCount)
 	for i := range offsets {
 		offsets[i], err = p.ReadUint16()
@@ -738,10 +774,15 @@ func readGpos3_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		cov.Prune(entryExitCount)
 	}
 
-	return &Gpos3_1{
+	res := &Gpos3_1{
 		Cov:     cov,
 		Records: records,
-	}, nil
+	}
+	err = checkSubtableSize(res.encodeLen() - cov.EncodeLen())
+	if err != nil {
+		return nil, err
+	}
+	return res, nil
 }
 
 // encodeLen implements the [Subtable] interface.
@@ -777,6 +818,7 @@ func (l *Gpos3_1) encode() []byte {
 			total += 6
 		}
 	}
+	mustFit(total)
 	coverageOffset := total
 	total += l.Cov.EncodeLen()
 
diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index fe35c9d..c94b54c 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -88,6 +88,10 @@ func readGpos4_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			Reason:    "GPOS4.1 table too large",
 		}
 	}
+	err = p.Charge(int(numOffsets) + int(baseCount))
+	if err != nil {
+		return nil, err
+	}
 	offsets := make([]uint16, numOffsets)
 	for i := range offsets {
 		offsets[i], err = p.ReadUint16()
@@ -112,12 +116,21 @@ func readGpos4_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		offsets = offsets[markClassCount:]
 	}
 
-	return &Gpos4_1{
+	res := &Gpos4_1{
 		MarkCov:   markCov,
 		BaseCov:   baseCov,
 		MarkArray: markArray,
 		BaseArray: baseArray,
-	}, nil
+	}
+	err = checkSubtableSize(res.encodeLen() - anchorMatrixLen(baseArray))
+	if err != nil {
+		return nil, err
+	}
+	err = checkSubtableSize(anchorMatrixLen(baseArray) - 6)
+	if err != nil {
+		return nil, err
+	}
+	return res, nil
 }
 
 // apply implements the [Subtable] interface.
@@ -181,7 +194,7 @@ func (l *Gpos4_1) countMarkClasses() int {
 			maxClass = rec.Class
 		}
 	}
-	return int(maxClass) + 1
+	return min(int(maxClass)+1, 0xFFFF)
 }
 
 // encodeLen implements the [Subtable] interface.
@@ -191,15 +204,7 @@ func (l *Gpos4_1) encodeLen() int {
 	total += l.BaseCov.EncodeLen()
 	total += 2 + (4+6)*len(l.MarkArray)
 
-	total += 2
-	for _, row := range l.BaseArray {
-		for _, rec := range row {
-			total += 2
-			if !rec.IsEmpty() {
-				total += 6
-			}
-		}
-	}
+	total += anchorMatrixLen(l.BaseArray)
 	return total
 }
 
@@ -207,7 +212,6 @@ func (l *Gpos4_1) encodeLen() int {
 func (l *Gpos4_1) encode() []byte {
 	markCount := len(l.MarkArray)
 	markClassCount := l.countMarkClasses()
-	baseCount := len(l.BaseArray)
 
 	total := 12
 	markCoverageOffset := total
@@ -217,15 +221,8 @@ func (l *Gpos4_1) encode() []byte {
 	markArrayOffset := total
 	total += 2 + (4+6)*markCount
 	baseArrayOffset := total
-	total += 2
-	for _, row := range l.BaseArray {
-		for _, rec := range row {
-			total += 2
-			if !rec.IsEmpty() {
-				total += 6
-			}
-		}
-	}
+	mustFit(baseArrayOffset)
+	total += anchorMatrixLen(l.BaseArray)
 	res := make([]byte, 0, total)
 
 	res = append(res,
@@ -243,6 +240,8 @@ func (l *Gpos4_1) encode() []byte {
 	res = append(res,
 		byte(markCount>>8), byte(markCount),
 	)
+	mustFit(markClassCount)
+	mustFit(2 + 10*markCount)
 	offs := 2 + 4*markCount
 	for _, rec := range l.MarkArray {
 		res = append(res,
@@ -255,30 +254,56 @@ func (l *Gpos4_1) encode() []byte {
 		res = rec.Append(res)
 	}
 
-	res = append(res,
-		byte(baseCount>>8), byte(baseCount),
-	)
-	offs = 2 + 2*baseCount*markClassCount
-	for _, row := range l.BaseArray {
+	res = appendAnchorMatrix(res, l.BaseArray, markClassCount)
+
+	return res
+}
+
+// anchorMatrixLen returns the length of the binary representation of a
+// BaseArray or Mark2Array table.
+func anchorMatrixLen(rows [][]anchor.Table) int {
+	total := 2
+	seen := make(map[anchor.Table]bool)
+	for _, row := range rows {
 		for _, rec := range row {
-			if rec.IsEmpty() {
-				res = append(res, 0, 0)
-				continue
+			total += 2
+			if !rec.IsEmpty() && !seen[rec] {
+				seen[rec] = true
+				total += 6
 			}
-			res = append(res,
-				byte(offs>>8), byte(offs),
-			)
-			offs += 6
 		}
 	}
-	for _, row := range l.BaseArray {
+	return total
+}
+
+// appendAnchorMatrix appends the binary representation of a BaseArray or
+// Mark2Array table to buf.  Identical anchors are only stored once.
+func appendAnchorMatrix(buf []byte, rows [][]anchor.Table, numCols int) []byte {
+	numRows := len(rows)
+	mustFit(numRows)
+	buf = append(buf, byte(numRows>>8), byte(numRows))
+
+	offs := 2 + 2*numRows*numCols
+	seen := make(map[anchor.Table]int)
+	var anchors []byte
+	for _, row := range rows {
+		if len(row) != numCols {
+			panic("inconsistent number of mark classes")
+		}
 		for _, rec := range row {
 			if rec.IsEmpty() {
+				buf = append(buf, 0, 0)
 				continue
 			}
-			res = rec.Append(res)
+			recOffs, ok := seen[rec]
+			if !ok {
+				recOffs = offs + len(anchors)
+				mustFit(recOffs)
+				seen[rec] = recOffs
+				anchors = rec.Append(anchors)
+			}
+			buf = append(buf, byte(recOffs>>8), byte(recOffs))
 		}
 	}
-
-	return res
+	return append(buf, anchors...)
 }
diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index aaf15d4..cebedab 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -81,6 +81,10 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	}
 	// Array of offsets to LigatureAttach tables.  Offsets are from beginning
 	// of LigatureArray table, ordered by ligatureCoverage index.
+	err = p.Charge(int(ligCount))
+	if err != nil {
+		return nil, err
+	}
 	offsets := make([]uint16, ligCount)
 	for i := range offsets {
 		offsets[i], err = p.ReadUint16()
@@ -108,11 +112,13 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		// LigatureAttach table.
 		numOffsets := int(componentCount) * markClassCount
 		total += 2 + 2*max(numOffsets, int(componentCount))
-		if total > 65535 {
-			return nil, &parser.InvalidFontError{
-				SubSystem: "sfnt/opentype/gtab",
-				Reason:    "GPOS5.1 table too large",
-			}
+		err = checkSubtableSize(total)
+		if err != nil {
+			return nil, err
+		}
+		err = p.Charge(numOffsets + int(componentCount))
+		if err != nil {
+			return nil, err
 		}
 		anchorOffsets := make([]uint16, numOffsets)
 		for j := range anchorOffsets {
@@ -134,6 +140,10 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 					return nil, err
 				}
 				total += 6
+				err = checkSubtableSize(total)
+				if err != nil {
+					return nil, err
+				}
 			}
 			ligAttach[j] = row
 			anchorOffsets = anchorOffsets[markClassCount:]
@@ -142,6 +152,10 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		ligArray[i] = ligAttach
 	}
 
+	err = checkSubtableSize(12 + markCov.EncodeLen() + ligCov.EncodeLen() + 2 + (4+6)*len(markArray))
+	if err != nil {
+		return nil, err
+	}
 	return &Gpos5_1{
 		MarkCov:   markCov,
 		LigCov:    ligCov,
@@ -169,7 +183,7 @@ func (l *Gpos5_1) countMarkClasses() int {
 			maxClass = rec.Class
 		}
 	}
-	return int(maxClass) + 1
+	return min(int(maxClass)+1, 0xFFFF)
 }
 
 // ligAttachLen returns the length of a LigatureAttach table.
@@ -210,6 +224,10 @@ func (l *Gpos5_1) encode() []byte {
 	markArrayOffset := ligCoverageOffset + l.LigCov.EncodeLen()
 	ligArrayOffset := markArrayOffset + 2 + (4+6)*markCount
 
+	mustFit(markClassCount)
+	mustFit(ligCount)
+	mustFit(ligArrayOffset)
+
 	res := make([]byte, 0, l.encodeLen())
 
 	res = append(res,
@@ -244,6 +262,7 @@ func (l *Gpos5_1) encode() []byte {
 	)
 	offs = 2 + 2*ligCount
 	for _, lig := range l.LigArray {
+		mustFit(offs)
 		res = append(res,
 			byte(offs>>8), byte(offs),
 		)
@@ -255,12 +274,17 @@ func (l *Gpos5_1) encode() []byte {
 			byte(componentCount>>8), byte(componentCount),
 		)
 		offs := 2 + 2*componentCount*markClassCount
+		mustFit(componentCount)
 		for _, row := range lig {
+			if len(row) != markClassCount {
+				panic("inconsistent number of mark classes")
+			}
 			for _, rec := range row {
 				if rec.IsEmpty() {
 					res = append(res, 0, 0)
 					continue
 				}
+				mustFit(offs)
 				res = append(res,
 					byte(offs>>8), byte(offs),
 				)
diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index 9c2a522..2b2966f 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -87,6 +87,10 @@ func readGpos6_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			Reason:    "GPOS6.1 table too large",
 		}
 	}
+	err = p.Charge(int(numOffsets) + int(mark2Count))
+	if err != nil {
+		return nil, err
+	}
 	offsets := make([]uint16, numOffsets)
 	for i := range offsets {
 		offsets[i], err = p.ReadUint16()
@@ -111,12 +115,21 @@ func readGpos6_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		offsets = offsets[markClassCount:]
 	}
 
-	return &Gpos6_1{
+	res := &Gpos6_1{
 		Mark1Cov:   mark1Cov,
 		Mark2Cov:   mark2Cov,
 		Mark1Array: mark1Array,
 		Mark2Array: mark2Array,
-	}, nil
+	}
+	err = checkSubtableSize(res.encodeLen() - anchorMatrixLen(mark2Array))
+	if err != nil {
+		return nil, err
+	}
+	err = checkSubtableSize(anchorMatrixLen(mark2Array) - 6)
+	if err != nil {
+		return nil, err
+	}
+	return res, nil
 }
 
 // apply implements the [Subtable] interface.
@@ -174,7 +187,7 @@ func (l *Gpos6_1) countMarkClasses() int {
 			maxClass = rec.Class
 		}
 	}
-	return int(maxClass) + 1
+	return min(int(maxClass)+1, 0xFFFF)
 }
 
 // encodeLen implements the [Subtable] interface.
@@ -184,15 +197,7 @@ func (l *Gpos6_1) encodeLen() int {
 	total += l.Mark2Cov.EncodeLen()
 	total += 2 + (4+6)*len(l.Mark1Array)
 
-	total += 2
-	for _, row := range l.Mark2Array {
-		for _, rec := range row {
-			total += 2
-			if !rec.IsEmpty() {
-				total += 6
-			}
-		}
-	}
+	total += anchorMatrixLen(l.Mark2Array)
 	return total
 }
 
@@ -200,7 +205,6 @@ func (l *Gpos6_1) encodeLen() int {
 func (l *Gpos6_1) encode() []byte {
 	mark1Count := len(l.Mark1Array)
 	markClassCount := l.countMarkClasses()
-	mark2Count := len(l.Mark2Array)
 
 	total := 12
 	mark1CoverageOffset := total
@@ -210,15 +214,8 @@ func (l *Gpos6_1) encode() []byte {
 	mark1ArrayOffset := total
 	total += 2 + (4+6)*mark1Count
 	mark2ArrayOffset := total
-	total += 2
-	for _, row := range l.Mark2Array {
-		for _, rec := range row {
-			total += 2
-			if !rec.IsEmpty() {
-				total += 6
-			}
-		}
-	}
+	mustFit(mark2ArrayOffset)
+	total += anchorMatrixLen(l.Mark2Array)
 	res := make([]byte, 0, total)
 
 	res = append(res,
@@ -236,6 +233,8 @@ func (l *Gpos6_1) encode() []byte {
 	res = append(res,
 		byte(mark1Count>>8), byte(mark1Count),
 	)
+	mustFit(markClassCount)
+	mustFit(2 + 10*mark1Count)
 	offs := 2 + 4*mark1Count
 	for _, rec := range l.Mark1Array {
 		res = append(res,
@@ -248,30 +247,7 @@ func (l *Gpos6_1) encode() []byte {
 		res = rec.Append(res)
 	}
 
-	res = append(res,
-		byte(mark2Count>>8), byte(mark2Count),
-	)
-	offs = 2 + 2*mark2Count*markClassCount
-	for _, row := range l.Mark2Array {
-		for _, rec := range row {
-			if rec.IsEmpty() {
-				res = append(res, 0, 0)
-				continue
-			}
-			res = append(res,
-				byte(offs>>8), byte(offs),
-			)
-			offs += 6
-		}
-	}
-	for _, row := range l.Mark2Array {
-		for _, rec := range row {
-			if rec.IsEmpty() {
-				continue
-			}
-			res = rec.Append(res)
-		}
-	}
+	res = appendAnchorMatrix(res, l.Mark2Array, markClassCount)
 
 	return res
 }
diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index c9bb1a8..a4a874c 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -157,6 +157,10 @@ func readGsub1_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	} else {
 		substituteGlyphIDs = substituteGlyphIDs[:len(cov)]
 	}
+	err = checkSubtableSize(6 + 2*len(substituteGlyphIDs))
+	if err != nil {
+		return nil, err
+	}
 
 	res := &Gsub1_2{
 		Cov:                cov,
@@ -191,6 +195,7 @@ func (l *Gsub1_2) encode() []byte {
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
 	buf[1] = 2
+	mustFit(covOffs)
 	buf[2] = byte(covOffs >> 8)
 	buf[3] = byte(covOffs)
 	buf[4] = byte(n >> 8)
@@ -239,6 +244,7 @@ func readGsub2_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 
 	sequenceCount := len(sequenceOffsets)
 	repl := make([][]glyph.ID, sequenceCount)
+	total := 6 + 2*sequenceCount
 	for i := 0; i < sequenceCount; i++ {
 		err := p.SeekPos(subtablePos + int64(sequenceOffsets[i]))
 		if err != nil {
@@ -248,6 +254,11 @@ func readGsub2_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		if err != nil {
 			return nil, err
 		}
+		total += 2 + 2*len(repl[i])
+		err = checkSubtableSize(total)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	res := &Gsub2_1{
@@ -310,6 +321,7 @@ func (l *Gsub2_1) encode() []byte {
 		sequenceOffsets[i] = uint16(covOffs)
 		covOffs += 2 + 2*len(repl)
 	}
+	mustFit(covOffs)
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -369,22 +381,20 @@ func readGsub3_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 
 	alternateSetCount := len(alternateSetOffsets)
 	alt := make([][]glyph.ID, alternateSetCount)
+	total := 6 + 2*alternateSetCount
 	for i := 0; i < alternateSetCount; i++ {
 		err := p.SeekPos(subtablePos + int64(alternateSetOffsets[i]))
 		if err != nil {
 			return nil, err
 		}
-		glyphCount, err := p.ReadUint16()
+		alt[i], err = readGIDSlice(p)
 		if err != nil {
 			return nil, err
 		}
-		alt[i] = make([]glyph.ID, glyphCount)
-		for j := 0; j < int(glyphCount); j++ {
-			gid, err := p.ReadUint16()
-			if err != nil {
-				return nil, err
-			}
-			alt[i][j] = glyph.ID(gid)
+		total += 2 + 2*len(alt[i])
+		err = checkSubtableSize(total)
+		if err != nil {
+			return nil, err
 		}
 	}
 
@@ -434,6 +444,7 @@ func (l *Gsub3_1) encode() []byte {
 		alternateSetOffsets[i] = uint16(covOffs)
 		covOffs += 2 + 2*len(repl)
 	}
+	mustFit(covOffs)
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -506,6 +517,10 @@ func readGsub4_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		ligatureSetOffsets = ligatureSetOffsets[:len(cov)]
 	}
 
+	// Total is the coverage offset when encoding the subtable without
+	// overlapping data.
+	total := 6 + 2*len(ligatureSetOffsets)
+
 	repl := make([][]Ligature, len(ligatureSetOffsets))
 	for i, ligatureSetOffset := range ligatureSetOffsets {
 		ligatureSetPos := subtablePos + int64(ligatureSetOffset)
@@ -518,6 +533,12 @@ func readGsub4_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			return nil, err
 		}
 
+		total += 2 + 6*len(ligatureOffsets)
+		err = checkSubtableSize(total)
+		if err != nil {
+			return nil, err
+		}
+
 		repl[i] = make([]Ligature, len(ligatureOffsets))
 		for j, ligatureOffset := range ligatureOffsets {
 			err = p.SeekPos(ligatureSetPos + int64(ligatureOffset))
@@ -532,6 +553,17 @@ func readGsub4_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			if err != nil {
 				return nil, err
 			}
+			if componentCount == 0 {
+				return nil, &parser.InvalidFontError{
+					SubSystem: "sfnt/opentype/gtab",
+					Reason:    "invalid componentCount in GSUB 4.1",
+				}
+			}
+			total += 2 * (int(componentCount) - 1)
+			err = checkSubtableSize(total)
+			if err != nil {
+				return nil, err
+			}
 			componentGlyphIDs := make([]glyph.ID, componentCount-1)
 			for k := range componentGlyphIDs {
 				gid, err := p.ReadUint16()
@@ -546,22 +578,6 @@ func readGsub4_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		}
 	}
 
-	total := 6 + 2*len(repl)
-	for _, replI := range repl {
-		total += 2 + 2*len(replI)
-		for _, lig := range replI {
-			total += 4 + 2*len(lig.In)
-		}
-	}
-	// Now total is the coverage offset when encoding the subtable without
-	// overlapping data.
-	if total > 0xFFFF {
-		return nil, &parser.InvalidFontError{
-			SubSystem: "sfnt/opentype/gtab",
-			Reason:    "GSUB 4.1 too large",
-		}
-	}
-
 	return &Gsub4_1{
 		Cov:  cov,
 		Repl: repl,
@@ -727,26 +743,45 @@ func readGsub8_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(input) > len(substituteGlyphIDs) {
+		input.Prune(len(substituteGlyphIDs))
+	} else {
+		substituteGlyphIDs = substituteGlyphIDs[:len(input)]
+	}
+
+	total := 10
+	total += 2 * len(backtrackCoverageOffsets)
+	total += 2 * len(lookaheadCoverageOffsets)
+	total += 2 * len(substituteGlyphIDs)
+	err = checkSubtableSize(total)
+	if err != nil {
+		return nil, err
+	}
+	total += input.EncodeLen()
 
 	backtrack := make([]coverage.Table, len(backtrackCoverageOffsets))
 	for i, offs := range backtrackCoverageOffsets {
+		err = checkSubtableSize(total)
+		if err != nil {
+			return nil, err
+		}
 		backtrack[i], err = coverage.Read(p, subtablePos+int64(offs))
 		if err != nil {
 			return nil, err
 		}
+		total += backtrack[i].EncodeLen()
 	}
 	lookahead := make([]coverage.Table, len(lookaheadCoverageOffsets))
 	for i, offs := range lookaheadCoverageOffsets {
+		err = checkSubtableSize(total)
+		if err != nil {
+			return nil, err
+		}
 		lookahead[i], err = coverage.Read(p, subtablePos+int64(offs))
 		if err != nil {
 			return nil, err
 		}
-	}
-
-	if len(input) > len(substituteGlyphIDs) {
-		input.Prune(len(substituteGlyphIDs))
-	} else {
-		substituteGlyphIDs = substituteGlyphIDs[:len(input)]
+		total += lookahead[i].EncodeLen()
 	}
 
 	res := &Gsub8_1{
@@ -825,15 +860,18 @@ func (l *Gsub8_1) encode() []byte {
 	total += 2 * backtrackGlyphCount
 	total += 2 * lookaheadGlyphCount
 	total += 2 * glyphCount
+	mustFit(total)
 	coverageOffset := total
 	total += l.Input.EncodeLen()
 	backtrackCoverageOffsets := make([]uint16, backtrackGlyphCount)
 	for i, cov := range l.Backtrack {
+		mustFit(total)
 		backtrackCoverageOffsets[i] = uint16(total)
 		total += cov.EncodeLen()
 	}
 	lookaheadCoverageOffsets := make([]uint16, lookaheadGlyphCount)
 	for i, cov := range l.Lookahead {
+		mustFit(total)
 		lookaheadCoverageOffsets[i] = uint16(total)
 		total += cov.EncodeLen()
 	}
diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index a9593fb..3b5c032 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -19,6 +19,7 @@ package gtab
 import (
 	"encoding/binary"
 	"fmt"
+	"sort"
 
 	"seehuhn.de/go/sfnt/parser"
 )
@@ -156,6 +157,20 @@ func readGtab(r parser.ReadSeekSizer, tp Type, sr subtableReader) (*Info, error)
 		return nil, err
 	}
 
+	// Make sure that the data can be written again.
+	sizes := []int{
+		info.ScriptList.encodedLen(),
+		info.FeatureList.encodedLen(),
+		info.LookupList.encodedLen(),
+	}
+	sort.Ints(sizes)
+	if 10+sizes[0]+sizes[1] > 0xFFFF {
+		return nil, &parser.InvalidFontError{
+			SubSystem: "sfnt/opentype/gtab",
+			Reason:    fmt.Sprintf("too much data in %s table", tp),
+		}
+	}
+
 	_ = FeatureVariationsOffset // TODO(voss): implement this
 
 	return info, nil
@@ -163,38 +178,55 @@ func readGtab(r parser.ReadSeekSizer, tp Type, sr subtableReader) (*Info, error)
 
 // Encode returns the binary representation of a "GSUB" or "GPOS" table.
 func (info *Info) Encode() []byte {
-	scriptList := info.ScriptList.encode()
-	featureList := info.FeatureList.encode()
-	lookupList := info.LookupList.encode()
+	if len(info.ScriptList) == 0 && info.FeatureList == nil && info.LookupList == nil {
+		return []byte{0, 1, 0, 0, 0, 0, 0, 0, 0, 0}
+	}
 
-	total := 10
-	var scriptListOffset int
-	if scriptList != nil {
-		scriptListOffset = total
-		total += len(scriptList)
+	// The offsets are not optional, so we need to write empty lists if needed.
+	scripts := info.ScriptList
+	if scripts == nil {
+		scripts = ScriptListInfo{}
+	}
+	features := info.FeatureList
+	if features == nil {
+		features = FeatureListInfo{}
 	}
-	var featureListOffset int
-	if featureList != nil {
-		featureListOffset = total
-		total += len(featureList)
+	lookups := info.LookupList
+	if lookups == nil {
+		lookups = LookupList{}
 	}
-	var lookupListOffset int
-	if lookupList != nil {
-		lookupListOffset = total
-		total += len(lookupList)
+	lists := [][]byte{scripts.encode(), features.encode(), lookups.encode()}
+
+	// The order of the lists is arbitrary.  If needed, move the longest list to
+	// the end, to make sure that all offsets fit into 16 bits.
+	order := []int{0, 1, 2}
+	if 10+len(lists[0])+len(lists[1]) > 0xFFFF {
+		sort.SliceStable(order, func(i, j int) bool {
+			return len(lists[order[i]]) < len(lists[order[j]])
+		})
+	}
+
+	var offsets [3]int
+	total := 10
+	for _, idx := range order {
+		if total > 0xFFFF {
+			panic("too much data for GSUB/GPOS table")
+		}
+		offsets[idx] = total
+		total += len(lists[idx])
 	}
 
 	buf := make([]byte, total)
 	copy(buf, []byte{
 		0, 1, // major version
 		0, 0, // minor version
-		byte(scriptListOffset >> 8), byte(scriptListOffset),
-		byte(featureListOffset >> 8), byte(featureListOffset),
-		byte(lookupListOffset >> 8), byte(lookupListOffset),
+		byte(offsets[0] >> 8), byte(offsets[0]),
+		byte(offsets[1] >> 8), byte(offsets[1]),
+		byte(offsets[2] >> 8), byte(offsets[2]),
 	})
-	copy(buf[scriptListOffset:], scriptList)
-	copy(buf[featureListOffset:], featureList)
-	copy(buf[lookupListOffset:], lookupList)
+	for i, list := range lists {
+		copy(buf[offsets[i]:], list)
+	}
 
 	return buf
 }
diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index 82a480c..8a42dc4 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -163,6 +163,27 @@ type Subtable interface {
 	encode() []byte
 }
 
+// mustFit panics if the given offset or count cannot be represented using 16
+// bits.  This is used when encoding subtables.
+func mustFit(x int) {
+	if x < 0 || x > 0xFFFF {
+		panic("too much data for lookup subtable")
+	}
+}
+
+// checkSubtableSize returns an error if the given offset or count cannot be
+// represented using 16 bits.  This is used when reading subtables, to make sure
+// that the data can be encoded again.
+func checkSubtableSize(x int) error {
+	if x > 0xFFFF {
+		return &parser.InvalidFontError{
+			SubSystem: "sfnt/opentype/gtab",
+			Reason:    "lookup subtable too large",
+		}
+	}
+	return nil
+}
+
 // subtableReader is a function that can decode a subtable.
 // Different functions are required for "GSUB" and "GPOS" tables.
 type subtableReader func(*parser.Parser, int64, *LookupMetaInfo) (Subtable, error)
@@ -237,6 +258,10 @@ func readLookupList(p *parser.Parser, pos int64, sr subtableReader) (LookupList,
 				return nil, err
 			}
 			subtables[j] = subtable
+			err = p.Charge(subtable.encodeLen())
+			if err != nil {
+				return nil, err
+			}
 		}
 
 		if tp, ok := isExtension(subtables); ok {
@@ -261,6 +286,10 @@ func readLookupList(p *parser.Parser, pos int64, sr subtableReader) (LookupList,
 					return nil, err
 				}
 				subtables[j] = subtable
+				err = p.Charge(subtable.encodeLen())
+				if err != nil {
+					return nil, err
+				}
 			}
 		}
 
@@ -302,6 +331,22 @@ const (
 	gsubExtensionLookupType uint16 = 7
 )
 
+// encodedLen returns the length of the binary representation of the lookup list,
+// without extension subtables.
+func (ll LookupList) encodedLen() int {
+	total := 2
+	for _, l := range ll {
+		total += 2 + 6 + 2*len(l.Subtables)
+		if l.Meta.LookupFlags&UseMarkFilteringSet != 0 {
+			total += 2
+		}
+		for _, subtable := range l.Subtables {
+			total += subtable.encodeLen()
+		}
+	}
+	return total
+}
+
 func (ll LookupList) encode() []byte {
 	if ll == nil {
 		return nil
@@ -312,10 +357,22 @@ findTypeLoop:
 	for _, l := range ll {
 		for _, subtable := range l.Subtables {
 			switch subtable.(type) {
+			case *SeqContext1, *SeqContext2, *SeqContext3:
+				extLookupType = gsubExtensionLookupType
+				if l.Meta.LookupType == 7 {
+					extLookupType = gposExtensionLookupType
+				}
+				break findTypeLoop
+			case *ChainedSeqContext1, *ChainedSeqContext2, *ChainedSeqContext3:
+				extLookupType = gsubExtensionLookupType
+				if l.Meta.LookupType == 8 {
+					extLookupType = gposExtensionLookupType
+				}
+				break findTypeLoop
 			case *Gsub1_1, *Gsub1_2, *Gsub2_1, *Gsub3_1, *Gsub4_1, *Gsub8_1:
 				extLookupType = gsubExtensionLookupType
 				break findTypeLoop
-			case *Gpos1_1, *Gpos1_2, *Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
+			case *Gpos1_1, *Gpos1_2, Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
 				extLookupType = gposExtensionLookupType
 				break findTypeLoop
 			}
@@ -356,23 +413,16 @@ findTypeLoop:
 	}
 
 	// If needed, reorder the chunks or introduce extension records.
-	isTooLarge := false
-	var total uint32
-	for i := range chunks {
-		code := chunks[i].code
-		if code&chunkTypeMask == chunkTable && total > 0xFFFF {
-			isTooLarge = true
-			break
-		}
-		total += chunks[i].size
-	}
-	if isTooLarge {
+	if !offsetsFit(chunks) {
 		chunks = ll.tryReorder(chunks)
+		if !offsetsFit(chunks) {
+			panic("too much data for lookup list table")
+		}
 	}
 
 	// Layout the chunks.
 	chunkPos := make(map[chunkCode]uint32, len(chunks))
-	total = 0
+	total := uint32(0)
 	for i := range chunks {
 		code := chunks[i].code
 		chunkPos[code] = total
@@ -447,6 +497,35 @@ type layoutChunk struct {
 	size uint32
 }
 
+// offsetsFit returns true if all offsets for the given layout fit into 16 bits.
+func offsetsFit(chunks []layoutChunk) bool {
+	tablePos := make(map[chunkCode]uint32)
+	isReplaced := make(map[chunkCode]bool)
+	total := uint32(0)
+	for _, chunk := range chunks {
+		tCode := chunk.code & chunkTableMask
+		switch chunk.code & chunkTypeMask {
+		case chunkTable:
+			tablePos[tCode] = total
+			if total > 0xFFFF {
+				return false
+			}
+		case chunkExtReplace:
+			isReplaced[tCode] = true
+			if total-tablePos[tCode] > 0xFFFF {
+				return false
+			}
+		case chunkSubtable:
+			// extension records always come before the subtables
+			if !isReplaced[tCode] && total-tablePos[tCode] > 0xFFFF {
+				return false
+			}
+		}
+		total += chunk.size
+	}
+	return true
+}
+
 func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 	total := uint32(0)
 	for i := range chunks {
@@ -499,6 +578,16 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 	if lastPos > 0xFFFF {
 		panic("too much data for lookup list table")
 	}
+	// Also use extension subtables for the biggest lookup, if the offsets
+	// inside this lookup do not fit.
+	l := ll[biggestLookup>>14]
+	if n := len(l.Subtables); n > 0 {
+		lastLen := uint32(l.Subtables[n-1].encodeLen())
+		if lookupSize[biggestLookup]-lastLen > 0xFFFF {
+			replace[biggestLookup] = true
+			extra += n
+		}
+	}
 
 	res := make([]layoutChunk, 0, len(chunks)+extra)
 	var moved, ext []layoutChunk
@@ -509,19 +598,22 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 		switch {
 		case tp == chunkHeader:
 			res = append(res, chunk)
-		case tCode == biggestLookup:
-			moved = append(moved, chunk)
 		case replace[tCode]:
 			sCode := code & chunkSubtableMask
 			if tp == chunkSubtable {
-				res = append(res, layoutChunk{
+				ext = append(ext, chunk)
+				chunk = layoutChunk{
 					code: chunkExtReplace | tCode | sCode,
 					size: 8,
-				})
-				ext = append(ext, chunk)
+				}
+			}
+			if tCode == biggestLookup {
+				moved = append(moved, chunk)
 			} else {
 				res = append(res, chunk)
 			}
+		case tCode == biggestLookup:
+			moved = append(moved, chunk)
 		default:
 			res = append(res, chunk)
 		}
diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index cf6c96d..f0fb4c2 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -31,6 +31,10 @@ type SeqLookup struct {
 }
 
 func readNested(p *parser.Parser, seqLookupCount int) ([]SeqLookup, error) {
+	err := p.Charge(1 + seqLookupCount)
+	if err != nil {
+		return nil, err
+	}
 	res := make([]SeqLookup, seqLookupCount)
 	for i := range res {
 		buf, err := p.ReadBytes(4)
@@ -43,6 +47,22 @@ func readNested(p *parser.Parser, seqLookupCount int) ([]SeqLookup, error) {
 	return res, nil
 }
 
+// readContextSet reads a coverage table for a SeqContext3 or ChainedSeqContext3
+// subtable.  Total is the offset of the coverage table, when the subtable is
+// encoded.  The length of the coverage table is added to total.
+func readContextSet(p *parser.Parser, pos int64, total *int) (coverage.Set, error) {
+	err := checkSubtableSize(*total)
+	if err != nil {
+		return nil, err
+	}
+	set, err := coverage.ReadSet(p, pos)
+	if err != nil {
+		return nil, err
+	}
+	*total += set.ToTable().EncodeLen()
+	return set, nil
+}
+
 // SeqContext1 is used for GSUB type 5 format 1 subtables and for GPOS type 7 format 1 subtables.
 //
 // https://docs.microsoft.com/en-us/typography/opentype/spec/chapter2#sequence-context-format-1-simple-glyph-contexts
@@ -82,6 +102,7 @@ func readSeqContext1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		Rules: make([][]*SeqRule, len(seqRuleSetOffsets)),
 	}
 
+	total := 6 + 2*len(seqRuleSetOffsets)
 	for i, seqRuleSetOffset := range seqRuleSetOffsets {
 		if seqRuleSetOffset == 0 {
 			continue
@@ -98,6 +119,11 @@ func readSeqContext1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			return nil, err
 		}
 		res.Rules[i] = make([]*SeqRule, len(seqRuleOffsets))
+		total += 2 + 2*len(seqRuleOffsets)
+		err = checkSubtableSize(total)
+		if err != nil {
+			return nil, err
+		}
 		for j, seqRuleOffset := range seqRuleOffsets {
 			err = p.SeekPos(base + int64(seqRuleOffset))
 			if err != nil {
@@ -116,6 +142,11 @@ func readSeqContext1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 				}
 			}
 			seqLookupCount := int(buf[2])<<8 | int(buf[3])
+			total += 4 + 2*(glyphCount-1) + 4*seqLookupCount
+			err = checkSubtableSize(total)
+			if err != nil {
+				return nil, err
+			}
 			inputSequence := make([]glyph.ID, glyphCount-1)
 			for k := range inputSequence {
 				xk, err := p.ReadUint16()
@@ -218,6 +249,7 @@ func (l *SeqContext1) encode() []byte {
 			total += 4 + 2*len(rule.Input) + 4*len(rule.Actions)
 		}
 	}
+	mustFit(total)
 	coverageOffset := total
 	total += l.Cov.EncodeLen()
 
@@ -333,6 +365,10 @@ func readSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		}
 		res.Rules[i] = make([]*ClassSeqRule, len(seqRuleOffsets))
 		total += 2 + 2*len(res.Rules[i])
+		err = checkSubtableSize(total)
+		if err != nil {
+			return nil, err
+		}
 		for j, seqRuleOffset := range seqRuleOffsets {
 			err = p.SeekPos(base + int64(seqRuleOffset))
 			if err != nil {
@@ -350,6 +386,11 @@ func readSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 				}
 			}
 			seqLookupCount := int(buf[2])<<8 | int(buf[3])
+			total += 4 + 2*(glyphCount-1) + 4*seqLookupCount
+			err = checkSubtableSize(total)
+			if err != nil {
+				return nil, err
+			}
 			inputSequence := make([]uint16, glyphCount-1)
 			for k := range inputSequence {
 				xk, err := p.ReadUint16()
@@ -366,7 +407,6 @@ func readSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 				Input:   inputSequence,
 				Actions: actions,
 			}
-			total += 4 + 2*len(inputSequence) + 4*len(actions)
 		}
 	}
 	total += cov.EncodeLen()
@@ -557,8 +597,9 @@ func readSeqContext3(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	}
 
 	cov := make([]coverage.Set, glyphCount)
+	total := 6 + 2*glyphCount + 4*len(actions)
 	for i, offset := range coverageOffsets {
-		cov[i], err = coverage.ReadSet(p, subtablePos+int64(offset))
+		cov[i], err = readContextSet(p, subtablePos+int64(offset), &total)
 		if err != nil {
 			return nil, err
 		}
@@ -628,6 +669,7 @@ func (l *SeqContext3) encode() []byte {
 	total := 6 + 2*len(l.Input) + 4*len(l.Actions)
 	coverageOffsets := make([]uint16, glyphCount)
 	for i, cov := range l.Input {
+		mustFit(total)
 		coverageOffsets[i] = uint16(total)
 		total += cov.ToTable().EncodeLen()
 	}
@@ -691,6 +733,10 @@ func readChainedSeqContext1(p *parser.Parser, subtablePos int64) (Subtable, erro
 	}
 
 	total := 6 + 2*len(chainedSeqRuleSetOffsets)
+	err = checkSubtableSize(total)
+	if err != nil {
+		return nil, err
+	}
 	total += cov.EncodeLen()
 
 	rules := make([][]*ChainedSeqRule, len(chainedSeqRuleSetOffsets))
@@ -733,6 +779,16 @@ func readChainedSeqContext1(p *parser.Parser, subtablePos int64) (Subtable, erro
 			if err != nil {
 				return nil, err
 			}
+			if inputGlyphCount == 0 {
+				return nil, &parser.InvalidFontError{
+					SubSystem: "sfnt/opentype/gtab",
+					Reason:    "invalid glyph count in ChainedSeqContext1",
+				}
+			}
+			err = p.Charge(int(inputGlyphCount))
+			if err != nil {
+				return nil, err
+			}
 			inputSequence := make([]glyph.ID, inputGlyphCount-1)
 			for k := range inputSequence {
 				val, err := p.ReadUint16()
@@ -879,6 +935,7 @@ func (l *ChainedSeqContext1) encodeLen() int {
 func (l *ChainedSeqContext1) encode() []byte {
 	chainedSeqRuleSetCount := len(l.Rules)
 	total := 6 + 2*len(l.Rules)
+	mustFit(total)
 	coverageOffset := total
 	total += l.Cov.EncodeLen()
 	chainedSeqRuleSetOffsets := make([]uint16, chainedSeqRuleSetCount)
@@ -886,6 +943,7 @@ func (l *ChainedSeqContext1) encode() []byte {
 		if rules == nil {
 			continue
 		}
+		mustFit(total)
 		chainedSeqRuleSetOffsets[i] = uint16(total)
 		total += 2 + 2*len(rules)
 		for _, rule := range rules {
@@ -918,7 +976,9 @@ func (l *ChainedSeqContext1) encode() []byte {
 		)
 
 		pos := 2 + 2*chainedSeqRuleCount
+		mustFit(chainedSeqRuleCount)
 		for _, rule := range rules {
+			mustFit(pos)
 			buf = append(buf,
 				byte(pos>>8), byte(pos),
 			)
@@ -929,6 +989,7 @@ func (l *ChainedSeqContext1) encode() []byte {
 		}
 		for _, rule := range rules {
 			backtrackGlyphCount := len(rule.Backtrack)
+			mustFit(backtrackGlyphCount)
 			buf = append(buf,
 				byte(backtrackGlyphCount>>8), byte(backtrackGlyphCount),
 			)
@@ -936,6 +997,7 @@ func (l *ChainedSeqContext1) encode() []byte {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
 			inputGlyphCount := len(rule.Input) + 1
+			mustFit(inputGlyphCount)
 			buf = append(buf,
 				byte(inputGlyphCount>>8), byte(inputGlyphCount),
 			)
@@ -943,6 +1005,7 @@ func (l *ChainedSeqContext1) encode() []byte {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
 			lookaheadGlyphCount := len(rule.Lookahead)
+			mustFit(lookaheadGlyphCount)
 			buf = append(buf,
 				byte(lookaheadGlyphCount>>8), byte(lookaheadGlyphCount),
 			)
@@ -950,6 +1013,7 @@ func (l *ChainedSeqContext1) encode() []byte {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
 			seqLookupCount := len(rule.Actions)
+			mustFit(seqLookupCount)
 			buf = append(buf,
 				byte(seqLookupCount>>8), byte(seqLookupCount),
 			)
@@ -1058,6 +1122,16 @@ func readChainedSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, erro
 			if err != nil {
 				return nil, err
 			}
+			if inputGlyphCount == 0 {
+				return nil, &parser.InvalidFontError{
+					SubSystem: "sfnt/opentype/gtab",
+					Reason:    "invalid glyph count in ChainedSeqContext2",
+				}
+			}
+			err = p.Charge(int(inputGlyphCount))
+			if err != nil {
+				return nil, err
+			}
 			inputSequence := make([]uint16, inputGlyphCount-1)
 			for k := range inputSequence {
 				inputSequence[k], err = p.ReadUint16()
@@ -1091,6 +1165,10 @@ func readChainedSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, erro
 	total += cov.EncodeLen()
 	total += backtrackClassDef.AppendLen()
 	total += inputClassDef.AppendLen()
+	err = checkSubtableSize(total)
+	if err != nil {
+		return nil, err
+	}
 	total += lookaheadClassDef.AppendLen()
 	for _, rr := range rules {
 		if rr == nil {
@@ -1240,6 +1318,7 @@ func (l *ChainedSeqContext2) encode() []byte {
 	inputOffset := total
 	total += l.Input.AppendLen()
 	lookaheadOffset := total
+	mustFit(lookaheadOffset)
 	total += l.Lookahead.AppendLen()
 	chainedSeqRuleSetOffsets := make([]uint16, chainedSeqRuleSetCount)
 	for i, rr := range l.Rules {
@@ -1287,6 +1366,7 @@ func (l *ChainedSeqContext2) encode() []byte {
 		)
 
 		pos := 2 + 2*chainedSeqRuleCount
+		mustFit(chainedSeqRuleCount)
 		for _, rule := range rr {
 			if pos > 0xFFFF {
 				panic("ChainedSeqContext2 too large")
@@ -1301,6 +1381,7 @@ func (l *ChainedSeqContext2) encode() []byte {
 		}
 		for _, rule := range rr {
 			backtrackGlyphCount := len(rule.Backtrack)
+			mustFit(backtrackGlyphCount)
 			buf = append(buf,
 				byte(backtrackGlyphCount>>8), byte(backtrackGlyphCount),
 			)
@@ -1308,6 +1389,7 @@ func (l *ChainedSeqContext2) encode() []byte {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
 			inputGlyphCount := len(rule.Input) + 1
+			mustFit(inputGlyphCount)
 			buf = append(buf,
 				byte(inputGlyphCount>>8), byte(inputGlyphCount),
 			)
@@ -1315,6 +1397,7 @@ func (l *ChainedSeqContext2) encode() []byte {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
 			lookaheadGlyphCount := len(rule.Lookahead)
+			mustFit(lookaheadGlyphCount)
 			buf = append(buf,
 				byte(lookaheadGlyphCount>>8), byte(lookaheadGlyphCount),
 			)
@@ -1322,6 +1405,7 @@ func (l *ChainedSeqContext2) encode() []byte {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
 			seqLookupCount := len(rule.Actions)
+			mustFit(seqLookupCount)
 			buf = append(buf,
 				byte(seqLookupCount>>8), byte(seqLookupCount),
 			)
@@ -1375,9 +1459,15 @@ func readChainedSeqContext3(p *parser.Parser, subtablePos int64) (Subtable, erro
 		return nil, err
 	}
 
+	total := 10
+	total += 2 * len(backtrackCoverageOffsets)
+	total += 2 * len(inputCoverageOffsets)
+	total += 2 * len(lookaheadCoverageOffsets)
+	total += 4 * len(actions)
+
 	backtrackCov := make([]coverage.Set, len(backtrackCoverageOffsets))
 	for i, offset := range backtrackCoverageOffsets {
-		backtrackCov[i], err = coverage.ReadSet(p, subtablePos+int64(offset))
+		backtrackCov[i], err = readContextSet(p, subtablePos+int64(offset), &total)
 		if err != nil {
 			return nil, err
 		}
@@ -1385,7 +1475,7 @@ func readChainedSeqContext3(p *parser.Parser, subtablePos int64) (Subtable, erro
 
 	inputCov := make([]coverage.Set, len(inputCoverageOffsets))
 	for i, offset := range inputCoverageOffsets {
-		inputCov[i], err = coverage.ReadSet(p, subtablePos+int64(offset))
+		inputCov[i], err = readContextSet(p, subtablePos+int64(offset), &total)
 		if err != nil {
 			return nil, err
 		}
@@ -1393,7 +1483,7 @@ func readChainedSeqContext3(p *parser.Parser, subtablePos int64) (Subtable, erro
 
 	lookaheadCov := make([]coverage.Set, len(lookaheadCoverageOffsets))
 	for i, offset := range lookaheadCoverageOffsets {
-		lookaheadCov[i], err = coverage.ReadSet(p, subtablePos+int64(offset))
+		lookaheadCov[i], err = readContextSet(p, subtablePos+int64(offset), &total)
 		if err != nil {
 			return nil, err
 		}
@@ -1509,18 +1599,21 @@ func (l *ChainedSeqContext3) encode() []byte {
 	total += 4 * len(l.Actions)
 	backtrackCoverageOffsets := make([]uint16, backtrackGlyphCount)
 	for i, set := range l.Backtrack {
+		mustFit(total)
 		backtrackCoverageOffsets[i] = uint16(total)
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
 	inputCoverageOffsets := make([]uint16, inputGlyphCount)
 	for i, set := range l.Input {
+		mustFit(total)
 		inputCoverageOffsets[i] = uint16(total)
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
 	lookaheadCoverageOffsets := make([]uint16, lookaheadGlyphCount)
 	for i, set := range l.Lookahead {
+		mustFit(total)
 		lookaheadCoverageOffsets[i] = uint16(total)
 		cov := set.ToTable()
 		total += cov.EncodeLen()
diff --git a/opentype/gtab/scriptlist.go b/opentype/gtab/scriptlist.go
index 51de9bc..171c6d8 100644
--- a/opentype/gtab/scriptlist.go
+++ b/opentype/gtab/scriptlist.go
@@ -92,6 +92,13 @@ func readScriptList(p *parser.Parser, pos int64) (ScriptListInfo, error) {
 		}
 	}
 
+	if info.encodedLen() > 0xFFFF {
+		return nil, &parser.InvalidFontError{
+			SubSystem: "sfnt/gtab",
+			Reason:    "script list too large",
+		}
+	}
+
 	return info, nil
 }
 
@@ -110,7 +117,7 @@ func (info ScriptListInfo) readScriptTable(script otfScript, p *parser.Parser, p
 	defaultLangSysOffset := uint16(data[0])<<8 | uint16(data[1])
 	langSysCount := uint16(data[2])<<8 | uint16(data[3])
 
-	if defaultLangSysOffset > 0 && defaultLangSysOffset < 4+6*langSysCount {
+	if defaultLangSysOffset > 0 && int(defaultLangSysOffset) < 4+6*int(langSysCount) {
 		return &parser.InvalidFontError{
 			SubSystem: "sfnt/gtab",
 			Reason:    "invalid defaultLangSysOffset",
@@ -188,7 +195,11 @@ func readLangSysTable(p *parser.Parser, pos int64) (*Features, error) {
 		}
 	}
 
-	featureIndices := make([]FeatureIndex, featureIndexCount)
+	err = p.Charge(1 + int(featureIndexCount))
+	if err != nil {
+		return nil, err
+	}
+	featureIndices := make([]FeatureIndex, 0, featureIndexCount)
 	for i := 0; i < int(featureIndexCount); i++ {
 		idx, err := p.ReadUint16()
 		if err != nil {
@@ -196,7 +207,7 @@ func readLangSysTable(p *parser.Parser, pos int64) (*Features, error) {
 		} else if idx == 0xFFFF {
 			continue
 		}
-		featureIndices[i] = FeatureIndex(idx)
+		featureIndices = append(featureIndices, FeatureIndex(idx))
 	}
 
 	return &Features{
@@ -205,20 +216,57 @@ func readLangSysTable(p *parser.Parser, pos int64) (*Features, error) {
 	}, nil
 }
 
+// encodedLen returns the length of the binary representation of the script
+// list.
+func (info ScriptListInfo) encodedLen() int {
+	total := 2
+	seen := make(map[otfScript]bool)
+	for tag, langSys := range info {
+		script, lang, err := bcp47ToOtf(tag)
+		if err != nil {
+			continue
+		}
+		if !seen[script] {
+			seen[script] = true
+			total += 6 + 4
+		}
+		if lang != "" {
+			total += 6
+		}
+		total += 6 + 2*len(langSys.Optional)
+	}
+	return total
+}
+
 func (info ScriptListInfo) encode() []byte {
 	if info == nil {
 		return nil
 	}
 
+	type scriptLang struct {
+		script otfScript
+		lang   otfLang
+	}
+	seen := map[scriptLang]language.Tag{}
 	scriptLangs := map[otfScript][]language.Tag{}
 	for tag := range info {
-		script, _, err := bcp47ToOtf(tag)
+		script, lang, err := bcp47ToOtf(tag)
 		if err != nil {
-			// TODO(voss): what to do here?
-			continue
+			panic(err)
+		}
+		if len(script) != 4 {
+			panic("no OpenType script for language tag " + tag.String())
 		}
+		key := scriptLang{script, lang}
+		if other, ok := seen[key]; ok {
+			panic("conflicting language tags " + tag.String() + " and " + other.String())
+		}
+		seen[key] = tag
 		scriptLangs[script] = append(scriptLangs[script], tag)
 	}
+	if info.encodedLen() > 0xFFFF {
+		panic("script list too large")
+	}
 
 	var scriptList []*scriptTableEntry
 	for otfScript := range scriptLangs {
-- 
2.43.0


From a14d8f72b4c882f5a4c4c851276d8e363a4a3b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:12 +0000
Subject: [PATCH 54/92] fix: builder: do not leak a goroutine when a string in
 a description is rejected

---
 opentype/gtab/builder/parser.go | 48 ++++++++++++++-------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index c29a455..fda4de0 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -1122,7 +1122,7 @@ func (p *parser) readGlyphList() []glyph.ID {
 			next = append(next, gid)
 
 		case itemString:
-			for r := range decodeString(item.val) {
+			for _, r := range decodeString(item.val) {
 				gid := p.cmap.Lookup(r)
 				if gid == 0 {
 					p.fatal("rune %q not in mapped in font", r)
@@ -1388,35 +1388,27 @@ func (p *parser) optionalIdentifier(name string) bool {
 	return true
 }
 
-func decodeString(s string) <-chan rune {
-	c := make(chan rune)
-	go func() {
-		s := s[1 : len(s)-1]
-		escape := false
-		for _, r := range s {
-			if escape {
-				escape = false
-				switch r {
-				case 'n':
-					c <- '\n'
-				case 'r':
-					c <- '\r'
-				case 't':
-					c <- '\t'
-				default:
-					c <- r
-				}
-				continue
-			}
-			if r == '\\' {
-				escape = true
-				continue
+func decodeString(s string) []rune {
+	var res []rune
+	escape := false
+	for _, r := range s[1 : len(s)-1] {
+		if escape {
+			escape = false
+			switch r {
+			case 'n':
+				r = '\n'
+			case 'r':
+				r = '\r'
+			case 't':
+				r = '\t'
 			}
-			c <- r
+		} else if r == '\\' {
+			escape = true
+			continue
 		}
-		close(c)
-	}()
-	return c
+		res = append(res, r)
+	}
+	return res
 }
 
 func isIdentifier(i item, val string) bool {
-- 
2.43.0


From c8e3287d7cea6a2d588328339f3b7c4bfb040883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:22 +0000
Subject: [PATCH 55/92] fix: builder: give the line number in lexer errors and
 in errors at the end of the input

---
 opentype/gtab/builder/lexer.go  | 5 +++--
 opentype/gtab/builder/parser.go | 9 ++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/opentype/gtab/builder/lexer.go b/opentype/gtab/builder/lexer.go
index 177f97d..ead2a5f 100644
--- a/opentype/gtab/builder/lexer.go
+++ b/opentype/gtab/builder/lexer.go
@@ -135,8 +135,9 @@ func (l *lexer) backup() {
 
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
 	l.items <- item{
-		typ: itemError,
-		val: fmt.Sprintf(format, args...),
+		typ:  itemError,
+		val:  fmt.Sprintf(format, args...),
+		line: l.line,
 	}
 	return nil
 }
diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index fda4de0..1316bc7 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -54,6 +54,7 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 	_, tokens := lex(input)
 	p := &parser{
 		tokens: tokens,
+		line:   1,
 
 		fontInfo: fontInfo,
 		cmap:     cmap,
@@ -80,6 +81,7 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 type parser struct {
 	tokens  <-chan item
 	backlog []item
+	line    int // line number of the last token received from the lexer
 
 	fontInfo *sfnt.Font
 	cmap     cmap.Subtable
@@ -1343,7 +1345,12 @@ func (p *parser) readItem() item {
 		p.backlog = p.backlog[:n]
 		return item
 	}
-	return <-p.tokens
+	next, ok := <-p.tokens
+	if !ok {
+		return item{typ: itemEOF, line: p.line}
+	}
+	p.line = next.line
+	return next
 }
 
 func (p *parser) peek() item {
-- 
2.43.0


From b5be289bf4d20cd61b280debeed01849c246cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:28 +0000
Subject: [PATCH 56/92] fix: builder: allow to parse descriptions for fonts
 without a character map, reject characters mapped to missing glyphs

---
 opentype/gtab/builder/parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index 1316bc7..1f61b2e 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -46,10 +46,8 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 		}
 	}
 
-	cmap, err := fontInfo.CMapTable.GetBest()
-	if err != nil {
-		return nil, err
-	}
+	// The character map is only needed for quoted strings, and may be missing.
+	cmap, _ := fontInfo.CMapTable.GetBest()
 
 	_, tokens := lex(input)
 	p := &parser{
@@ -1124,9 +1122,12 @@ func (p *parser) readGlyphList() []glyph.ID {
 			next = append(next, gid)
 
 		case itemString:
+			if p.cmap == nil {
+				p.fatal("cannot use %s, the font has no character map", item)
+			}
 			for _, r := range decodeString(item.val) {
 				gid := p.cmap.Lookup(r)
-				if gid == 0 {
+				if gid == 0 || int(gid) >= p.fontInfo.NumGlyphs() {
 					p.fatal("rune %q not in mapped in font", r)
 				}
 				next = append(next, gid)
-- 
2.43.0


From 64003020295fa5a3cbe6997fa3402d23124853e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:58 +0000
Subject: [PATCH 57/92] fix: builder: write the ignore-ligatures flag the way
 Parse expects it

---
 opentype/gtab/builder/explain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 7d9ec60..2bde8ef 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -372,7 +372,7 @@ func (ee *explainer) explainFlags(flags gtab.LookupFlags) {
 		ee.w.WriteString(" -base")
 	}
 	if flags&gtab.IgnoreLigatures != 0 {
-		ee.w.WriteString(" -lig")
+		ee.w.WriteString(" -ligs")
 	}
 	// if flags&UseMarkFilteringSet != 0 {
 	// 	ee.w.WriteString(" -UseMarkFilteringSet")
-- 
2.43.0


From 1991efaed751a97d6bf5f694357e4a95e1d9c60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 58/92] fix: builder: describe several GPOS 2.2 or GPOS 4.1
 subtables in a form which Parse accepts

---
 opentype/gtab/builder/explain.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 2bde8ef..197c797 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -215,7 +215,9 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 
 			case *gtab.Gpos2_2:
 				checkType(2)
-				ee.w.WriteString("\n\t")
+				if i == 0 {
+					ee.w.WriteString("\n\t")
+				}
 				ee.w.WriteRune('/')
 				ee.writeGlyphList(l.Cov.Glyphs())
 				ee.w.WriteRune('/')
@@ -271,21 +273,27 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 			case *gtab.Gpos4_1:
 				checkType(4)
 				markGlyphs := l.MarkCov.Glyphs()
-				for i, gid := range markGlyphs {
-					ee.w.WriteString("\n\tmark ")
+				for j, gid := range markGlyphs {
+					if i == 0 || j > 0 {
+						ee.w.WriteString("\n\t")
+					}
+					ee.w.WriteString("mark ")
 					ee.writeGlyph(gid)
 					ee.w.WriteRune(':')
-					rec := l.MarkArray[i]
+					rec := l.MarkArray[j]
 					fmt.Fprintf(ee.w, " %d@%d,%d", rec.Class, rec.Table.X, rec.Table.Y)
 					ee.w.WriteRune(';')
 				}
 
 				baseGlyphs := l.BaseCov.Glyphs()
-				for i, gid := range baseGlyphs {
-					ee.w.WriteString("\n\tbase ")
+				for j, gid := range baseGlyphs {
+					if i == 0 || j > 0 || len(markGlyphs) > 0 {
+						ee.w.WriteString("\n\t")
+					}
+					ee.w.WriteString("base ")
 					ee.writeGlyph(gid)
 					ee.w.WriteRune(':')
-					anchors := l.BaseArray[i]
+					anchors := l.BaseArray[j]
 					for _, a := range anchors {
 						fmt.Fprintf(ee.w, " @%d,%d", a.X, a.Y)
 					}
-- 
2.43.0


From 1535a0efe0b94a75e53f630a4f25d40f7a9c7a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:25 +0000
Subject: [PATCH 59/92] fix: builder: separate lookup flags from class
 definitions

---
 opentype/gtab/builder/explain.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 197c797..7414452 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -590,6 +590,7 @@ func (ee *explainer) explainSeqContext1(l *gtab.SeqContext1) {
 }
 
 func (ee *explainer) explainSeqContext2(l *gtab.SeqContext2) {
+	ee.w.WriteRune(' ')
 	ee.defineClasses("class", l.Input)
 	ee.w.WriteRune('/')
 	ee.explainCoverage(l.Cov)
@@ -649,6 +650,7 @@ func (ee *explainer) explainChainedSeqContext1(l *gtab.ChainedSeqContext1) {
 }
 
 func (ee *explainer) explainChainedSeqContext2(l *gtab.ChainedSeqContext2) {
+	ee.w.WriteRune(' ')
 	ee.defineClasses("backtrackclass", l.Backtrack)
 	ee.defineClasses("inputclass", l.Input)
 	ee.defineClasses("lookaheadclass", l.Lookahead)
-- 
2.43.0


From b9e0455433b5daccaf328bfdac3e0117980f692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:47 +0000
Subject: [PATCH 60/92] fix: builder: do not combine GSUB4 ligatures into
 ranges

---
 opentype/gtab/builder/explain.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 7414452..8f5a443 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -59,7 +59,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						to:   []glyph.ID{key + l.Delta},
 					})
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, true)
 
 			case *gtab.Gsub1_2:
 				checkType(1)
@@ -70,7 +70,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						to:   []glyph.ID{l.SubstituteGlyphIDs[idx]},
 					})
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, true)
 
 			case *gtab.Gsub2_1:
 				checkType(2)
@@ -111,7 +111,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						})
 					}
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, false)
 
 			case *gtab.SeqContext1:
 				checkType(5)
@@ -395,7 +395,10 @@ type mapping struct {
 	to   []glyph.ID
 }
 
-func (ee *explainer) explainSeqMappings(mm []mapping) {
+// explainSeqMappings writes a list of glyph substitutions.  If canRange is
+// set, all mappings are from one glyph to one glyph and runs of consecutive
+// glyphs are combined into ranges.
+func (ee *explainer) explainSeqMappings(mm []mapping, canRange bool) {
 	sort.SliceStable(mm, func(i, j int) bool {
 		return mm[i].from[0] < mm[j].from[0]
 	})
@@ -405,13 +408,6 @@ func (ee *explainer) explainSeqMappings(mm []mapping) {
 		ee.w.WriteString(sep)
 		sep = ", "
 
-		canRange := len(mm) > 2
-		for i := 1; canRange && i < len(mm); i++ {
-			if len(mm[i].from) != 1 || len(mm[i].to) != 1 {
-				canRange = false
-			}
-		}
-
 		rangeLen := 1
 		if canRange {
 			delta := mm[0].to[0] - mm[0].from[0]
-- 
2.43.0


From 3996bc6986b7f4c0c2942563656f820356b4a0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:50 +0000
Subject: [PATCH 61/92] fix: builder: write ranges of numeric glyph ids in a
 form which Parse accepts

---
 opentype/gtab/builder/explain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 8f5a443..2c5b237 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -422,7 +422,8 @@ func (ee *explainer) explainSeqMappings(mm []mapping, canRange bool) {
 		}
 
 		if rangeLen > 2 {
-			fmt.Fprintf(ee.w, "%s-%s -> %s-%s",
+			// The spaces are needed: "1-3" are the two integers 1 and -3.
+			fmt.Fprintf(ee.w, "%s - %s -> %s - %s",
 				ee.names[mm[0].from[0]],
 				ee.names[mm[rangeLen-1].from[0]],
 				ee.names[mm[0].to[0]],
-- 
2.43.0


From 50d9c68884f35604d0ea65e598738a31d52884a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:52 +0000
Subject: [PATCH 62/92] fix: builder: only use characters in strings which
 Parse understands

---
 opentype/gtab/builder/explain.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 2c5b237..f62e96f 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"unicode"
 
 	"golang.org/x/exp/maps"
 	"seehuhn.de/go/sfnt"
@@ -344,10 +345,13 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 	mappings := make([]string, fontInfo.NumGlyphs())
 	if cmap, _ := fontInfo.CMapTable.GetBest(); cmap != nil {
 		a, b := cmap.CodeRange()
+		b = min(b, unicode.MaxRune)
 		for r := a; r <= b; r++ {
 			gid := cmap.Lookup(r)
-			if gid != 0 {
-				mappings[gid] = fmt.Sprintf("%q", string([]rune{r}))
+			if gid != 0 && int(gid) < len(mappings) {
+				if s := quoteRune(r); s != "" {
+					mappings[gid] = s
+				}
 			}
 		}
 	}
@@ -369,6 +373,25 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 	}
 }
 
+// quoteRune returns the rune as a quoted string in the form understood by
+// Parse, or "" if the rune should not be used in a string.
+func quoteRune(r rune) string {
+	switch {
+	case r == '\n':
+		return `"\n"`
+	case r == '\r':
+		return `"\r"`
+	case r == '\t':
+		return `"\t"`
+	case r == '"' || r == '\\':
+		return `"\` + string(r) + `"`
+	case unicode.IsPrint(r):
+		return `"` + string(r) + `"`
+	default:
+		return ""
+	}
+}
+
 func (ee *explainer) explainFlags(flags gtab.LookupFlags) {
 	if flags&gtab.IgnoreMarks != 0 {
 		ee.w.WriteString(" -marks")
-- 
2.43.0


From 6c197decd3f248c352c1e2d28a2695e1739ad4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:08 +0000
Subject: [PATCH 63/92] fix: builder: only use glyph names which Parse can
 resolve

---
 opentype/gtab/builder/explain.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index f62e96f..23cb36a 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -356,10 +356,15 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 		}
 	}
 
+	// In case of duplicate names, Parse uses the last glyph with this name.
+	byName := make(map[string]int)
 	names := make([]string, fontInfo.NumGlyphs())
+	for i := range names {
+		byName[fontInfo.GlyphName(glyph.ID(i))] = i
+	}
 	for i := range names {
 		name := fontInfo.GlyphName(glyph.ID(i))
-		if name != "" {
+		if isGlyphIdentifier(name) && byName[name] == i {
 			names[i] = name
 		} else {
 			names[i] = fmt.Sprintf("%d", i)
@@ -373,6 +378,21 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 	}
 }
 
+// isGlyphIdentifier returns true if Parse reads the given glyph name as
+// an identifier which refers to a glyph.
+func isGlyphIdentifier(name string) bool {
+	switch name {
+	case "class", "inputclass", "backtrackclass", "lookaheadclass":
+		return false
+	}
+	for i, r := range name {
+		if !(unicode.IsLetter(r) || r == '.' || r == '_' || i > 0 && unicode.IsDigit(r)) {
+			return false
+		}
+	}
+	return name != ""
+}
+
 // quoteRune returns the rune as a quoted string in the form understood by
 // Parse, or "" if the rune should not be used in a string.
 func quoteRune(r rune) string {
-- 
2.43.0


From bedfa1f558cd889378c8360414c3946ab1813b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:41 +0000
Subject: [PATCH 64/92] fix: read fonts where all glyphs are blank

---
 read.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index eff0cae..08248b1 100644
--- a/read.go
+++ b/read.go
@@ -74,7 +74,9 @@ func Read(r io.Reader) (*Font, error) {
 		return nil, fmt.Errorf("sfnt header: %w", err)
 	}
 
-	if !(dir.Has("glyf", "loca") || dir.Has("CFF ")) {
+	// The "glyf" table may be empty, if all glyphs are blank.
+	_, hasGlyf := dir.Toc["glyf"]
+	if !(hasGlyf && dir.Has("loca") || dir.Has("CFF ")) {
 		if dir.Has("CFF2") {
 			return nil, &parser.NotSupportedError{
 				SubSystem: "sfnt",
-- 
2.43.0


From a6f68a7264f2c63a83eb150e63b5bdc44df0c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:54 +0000
Subject: [PATCH 65/92] fix: round non-integer glyph widths in the hmtx table

---
 write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/write.go b/write.go
index 01e0a03..a49994a 100644
--- a/write.go
+++ b/write.go
@@ -178,7 +178,7 @@ func (f *Font) makeHead(locaFormat int16) []byte {
 func (f *Font) makeHmtx() ([]byte, []byte) {
 	widths := make([]funit.Int16, f.NumGlyphs())
 	for i, w := range f.Widths() {
-		widths[i] = funit.Int16(w)
+		widths[i] = funit.Int16(math.Round(w))
 	}
 
 	hmtxInfo := &hmtx.Info{
-- 
2.43.0


From 4b07ab4c22dd5885b9307ed9a1e1e76c4fa791f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 66/92] fix: a font with bold weight must not become bold when
 written and read again

---
 read.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 08248b1..f31980a 100644
--- a/read.go
+++ b/read.go
@@ -421,7 +421,11 @@ func Read(r io.Reader) (*Font, error) {
 	} else if headInfo != nil {
 		info.IsBold = headInfo.IsBold
 	}
-	// TODO(voss): we could also check info.Weight == font.WeightBold
+	// Since the subfamily name of a font with bold weight contains the word
+	// "Bold", these fonts would otherwise become bold when they are written.
+	if info.Weight.Rounded() == os2.WeightBold {
+		info.IsBold = true
+	}
 	if nameTable != nil &&
 		strings.Contains(nameTable.Subfamily, "Bold") &&
 		!strings.Contains(nameTable.Subfamily, "Semi Bold") &&
-- 
2.43.0


From 0760a6c1cc5baa643edb6505acaaad54dcf8f6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:53 +0000
Subject: [PATCH 67/92] fix: use the canonical language tag for kern-only fonts

---
 read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/read.go b/read.go
index f31980a..71d9400 100644
--- a/read.go
+++ b/read.go
@@ -511,7 +511,7 @@ func Read(r io.Reader) (*Font, error) {
 		}
 		info.Gpos = &gtab.Info{
 			ScriptList: map[language.Tag]*gtab.Features{
-				language.MustParse("und-Zzzz"): {Required: 0, Optional: []gtab.FeatureIndex{}},
+				language.MustParse("und-Zzzz-x-dflt"): {Required: 0, Optional: []gtab.FeatureIndex{}},
 			},
 			FeatureList: []*gtab.Feature{
 				{Tag: "kern", Lookups: []gtab.LookupIndex{0}},
-- 
2.43.0


From 6afce711529a4bb9e5a4bf63641611b986af1245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:09 +0000
Subject: [PATCH 68/92] fix: version numbers with more than three decimals or
 too large to be stored

---
 head/head.go | 2 +-
 read.go      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/head/head.go b/head/head.go
index 1482fbd..c572b39 100644
--- a/head/head.go
+++ b/head/head.go
@@ -216,7 +216,7 @@ func VersionFromString(s string) (Version, error) {
 	}
 
 	ver, err := strconv.ParseFloat(m[1], 64)
-	if err != nil {
+	if err != nil || ver*65536+0.5 >= 1<<32 {
 		return 0, errInvalidVersion
 	}
 	return Version(ver*65536 + 0.5), nil
diff --git a/read.go b/read.go
index 71d9400..d98f705 100644
--- a/read.go
+++ b/read.go
@@ -536,7 +536,7 @@ func getNameTableVersion(t *name.Table) (head.Version, bool) {
 	if err != nil {
 		return 0, false
 	}
-	return v, true
+	return v.Round(), true
 }
 
 func getCFFVersion(fontInfo *type1.FontInfo) (head.Version, bool) {
@@ -547,5 +547,5 @@ func getCFFVersion(fontInfo *type1.FontInfo) (head.Version, bool) {
 	if err != nil {
 		return 0, false
 	}
-	return v, true
+	return v.Round(), true
 }
-- 
2.43.0


From b213e4d6152f7359ef3f9f9efce45163cf0efb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:31 +0000
Subject: [PATCH 69/92] fix: read and write TrueType fonts without horizontal
 metrics

---
 font.go  | 4 ++--
 write.go | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 2f8e383..4537298 100644
--- a/font.go
+++ b/font.go
@@ -263,8 +263,8 @@ func (f *Font) Widths() []float64 {
 		}
 		return widths
 	case *glyf.Outlines:
-		for i := range widths {
-			widths[i] = float64(outlines.Widths[i])
+		for i, w := range outlines.Widths {
+			widths[i] = float64(w)
 		}
 		return widths
 	default:
diff --git a/write.go b/write.go
index a49994a..8f61604 100644
--- a/write.go
+++ b/write.go
@@ -176,6 +176,11 @@ func (f *Font) makeHead(locaFormat int16) []byte {
 }
 
 func (f *Font) makeHmtx() ([]byte, []byte) {
+	if o, ok := f.Outlines.(*glyf.Outlines); ok && o.Widths == nil {
+		// the font has no horizontal metrics
+		return nil, nil
+	}
+
 	widths := make([]funit.Int16, f.NumGlyphs())
 	for i, w := range f.Widths() {
 		widths[i] = funit.Int16(math.Round(w))
-- 
2.43.0


From c4407ba0e19bc93e95789f4f8a33feaf51dee02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:42 +0000
Subject: [PATCH 70/92] fix: count only the tables which are actually written
 to an sfnt file

---
 header/write.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/header/write.go b/header/write.go
index e46b5e3..4a77ac4 100644
--- a/header/write.go
+++ b/header/write.go
@@ -19,6 +19,7 @@ package header
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"io"
 	"math/bits"
 	"sort"
@@ -29,15 +30,18 @@ import (
 // to write a table with no data.
 // This changes the checksum in the "head" table in place.
 func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, error) {
-	numTables := len(tables)
-
-	tableNames := make([]string, 0, numTables)
+	tableNames := make([]string, 0, len(tables))
 	for name, data := range tables {
 		if data != nil && len(name) == 4 {
 			tableNames = append(tableNames, name)
 		}
 	}
 
+	numTables := len(tableNames)
+	if numTables == 0 {
+		return 0, errors.New("sfnt/header: no tables to write")
+	}
+
 	// sort the table names in the recommended order
 	sort.Slice(tableNames, func(i, j int) bool {
 		iPrio := ttTableOrder[tableNames[i]]
@@ -122,12 +126,18 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 
 // clearChecksum zeros the checksum field of the head table.
 func clearChecksum(head []byte) {
+	if len(head) < 12 {
+		return
+	}
 	binary.BigEndian.PutUint32(head[8:12], 0)
 }
 
 // patchChecksum updates the checksum of the head table.
 // The argument is the checksum of the entire font before patching.
 func patchChecksum(head []byte, checksum uint32) {
+	if len(head) < 12 {
+		return
+	}
 	binary.BigEndian.PutUint32(head[8:12], 0xB1B0AFBA-checksum)
 }
 
-- 
2.43.0


From 8b2329dc90d608b6bbcff19459e74180960b65e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:01 +0000
Subject: [PATCH 71/92] fix: underline metrics of CFF fonts without post table

---
 read.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index d98f705..eaa481b 100644
--- a/read.go
+++ b/read.go
@@ -394,8 +394,10 @@ func Read(r io.Reader) (*Font, error) {
 		info.UnderlinePosition = funit.Float64(postInfo.UnderlinePosition)
 		info.UnderlineThickness = funit.Float64(postInfo.UnderlineThickness)
 	} else if fontInfo != nil {
-		info.UnderlinePosition = fontInfo.UnderlinePosition
-		info.UnderlineThickness = fontInfo.UnderlineThickness
+		// Round the values so that they can be exactly represented in the
+		// post table.
+		info.UnderlinePosition = roundToInt16(fontInfo.UnderlinePosition)
+		info.UnderlineThickness = roundToInt16(fontInfo.UnderlineThickness)
 	}
 
 	// Currently we set IsItalic if there is any evidence of the font being
@@ -528,6 +530,11 @@ func Read(r io.Reader) (*Font, error) {
 	return info, nil
 }
 
+func roundToInt16(x funit.Float64) funit.Float64 {
+	y := math.Round(float64(x))
+	return funit.Float64(min(max(y, math.MinInt16), math.MaxInt16))
+}
+
 func getNameTableVersion(t *name.Table) (head.Version, bool) {
 	if t == nil {
 		return 0, false
-- 
2.43.0


From c8a3acaa968be28429c8481f64c3e8a8cf47bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:56 +0000
Subject: [PATCH 72/92] fix: do not include the current date in fonts without
 time stamps

---
 write.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/write.go b/write.go
index 8f61604..ae985b9 100644
--- a/write.go
+++ b/write.go
@@ -20,7 +20,6 @@ import (
 	"bytes"
 	"io"
 	"math"
-	"time"
 
 	"seehuhn.de/go/postscript/funit"
 
@@ -274,12 +273,12 @@ func (f *Font) makeName() []byte {
 	if day.IsZero() {
 		day = f.CreationTime
 	}
-	if day.IsZero() {
-		day = time.Now()
-	}
-	dayString := day.Format("2006-01-02")
 
 	fullName := f.FullName()
+	identifier := fullName + "; " + f.Version.String()
+	if !day.IsZero() {
+		identifier += "; " + day.Format("2006-01-02")
+	}
 	nameTable := &name.Table{
 		Family:         f.FamilyName,
 		Subfamily:      f.Subfamily(),
@@ -288,7 +287,7 @@ func (f *Font) makeName() []byte {
 		Trademark:      f.Trademark,
 		License:        f.License,
 		LicenseURL:     f.LicenseURL,
-		Identifier:     fullName + "; " + f.Version.String() + "; " + dayString,
+		Identifier:     identifier,
 		FullName:       fullName,
 		Version:        "Version " + f.Version.String(),
 		PostScriptName: f.PostScriptName(),
-- 
2.43.0


From 5c06325e1880a8ce5968c71d804721d68c00d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:28 +0000
Subject: [PATCH 73/92] fix: use the new glyph IDs for the kerning pairs of
 font subsets

---
 subset.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/subset.go b/subset.go
index 13b21d7..f3a1bcc 100644
--- a/subset.go
+++ b/subset.go
@@ -356,13 +356,15 @@ func (s *subsetter) SubsetGpos(old *gtab.Info) *gtab.Info {
 			case gtab.Gpos2_1:
 				sNew := gtab.Gpos2_1{}
 				for pair, adj := range sOld {
-					if _, ok := s.newGid[pair.Left]; !ok {
+					newLeft, ok := s.newGid[pair.Left]
+					if !ok {
 						continue
 					}
-					if _, ok := s.newGid[pair.Right]; !ok {
+					newRight, ok := s.newGid[pair.Right]
+					if !ok {
 						continue
 					}
-					sNew[pair] = adj
+					sNew[glyph.Pair{Left: newLeft, Right: newRight}] = adj
 				}
 				tNew.Subtables[j] = sNew
 			case *gtab.Gpos2_2:
-- 
2.43.0


From e0ad3a305210df70148f4b3430d35ebb35543b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:30 +0000
Subject: [PATCH 74/92] fix: font subsets had no character map

---
 subset.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/subset.go b/subset.go
index f3a1bcc..8c3b4b9 100644
--- a/subset.go
+++ b/subset.go
@@ -47,10 +47,14 @@ func (f *Font) Subset(glyphs []glyph.ID) *Font {
 		s.newGid[oldGid] = glyph.ID(newgid)
 	}
 
+	res.Gsub = s.SubsetGsub(f.Gsub)
+	// At this point we have the final list of glyphs.
 	if f.CMapTable != nil {
 		res.CMapTable = make(cmap.Table, len(f.CMapTable))
-		for key := range f.CMapTable {
-			c, err := res.CMapTable.Get(key)
+		for key, data := range f.CMapTable {
+			// We need the original character codes here, without conversion
+			// to unicode.
+			c, err := cmap.Table{key: data}.GetNoLang(key.PlatformID, key.EncodingID)
 			if err != nil {
 				continue
 			}
@@ -58,8 +62,6 @@ func (f *Font) Subset(glyphs []glyph.ID) *Font {
 			res.CMapTable[key] = c.Encode(key.Language)
 		}
 	}
-	res.Gsub = s.SubsetGsub(f.Gsub)
-	// At this point we have the final list of glyphs.
 	res.Gpos = s.SubsetGpos(f.Gpos)
 	res.Gdef = s.SubsetGdef(f.Gdef)
 
@@ -99,6 +101,17 @@ func (s *subsetter) SubsetCMap(c cmap.Subtable) cmap.Subtable {
 	}
 
 	switch c := c.(type) {
+	case *cmap.Format0:
+		// The new glyph IDs may be too large for a format 0 subtable.
+		res := cmap.Format4{}
+		for code, oldGid := range c.Data {
+			newGid, ok := s.newGid[glyph.ID(oldGid)]
+			if !ok || newGid == 0 {
+				continue
+			}
+			res[uint16(code)] = newGid
+		}
+		return res
 	case cmap.Format4:
 		res := cmap.Format4{}
 		for key, oldGid := range c {
-- 
2.43.0


From a75e8b1ae6b05d14521e64adbafaff853928373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:33 +0000
Subject: [PATCH 75/92] fix: add and re-number the components and ligatures in
 font subsets

---
 subset.go | 114 +++++++++++++++++++++++++++---------------------------
 1 file changed, 56 insertions(+), 58 deletions(-)

diff --git a/subset.go b/subset.go
index 8c3b4b9..4b07e91 100644
--- a/subset.go
+++ b/subset.go
@@ -18,6 +18,7 @@ package sfnt
 
 import (
 	"fmt"
+	"slices"
 
 	"golang.org/x/exp/maps"
 	"seehuhn.de/go/postscript/cid"
@@ -33,21 +34,23 @@ import (
 
 // Subset returns a subset of the font containing containing the given
 // glyphs at the first positions.  More glyphs may be included in the
-// subset, if they occur as ligatures between the given glyphs.
+// subset, if they occur as ligatures between the given glyphs, or as
+// components of composite glyphs.
 //
 // The slice glyphs must start with glyph ID 0 to represent the notdef glyph.
 func (f *Font) Subset(glyphs []glyph.ID) *Font {
 	res := f.Clone()
 
 	s := subsetter{
-		glyphs: glyphs,
+		glyphs: slices.Clone(glyphs),
 		newGid: map[glyph.ID]glyph.ID{},
 	}
 	for newgid, oldGid := range glyphs {
 		s.newGid[oldGid] = glyph.ID(newgid)
 	}
 
-	res.Gsub = s.SubsetGsub(f.Gsub)
+	s.addComponents(f.Outlines)
+	res.Gsub = s.SubsetGsub(f.Gsub, f.Outlines)
 	// At this point we have the final list of glyphs.
 	if f.CMapTable != nil {
 		res.CMapTable = make(cmap.Table, len(f.CMapTable))
@@ -80,11 +83,6 @@ type subsetter struct {
 	newGid map[glyph.ID]glyph.ID
 }
 
-func (s *subsetter) hasOldGid(oldGid glyph.ID) bool {
-	_, ok := s.newGid[oldGid]
-	return ok
-}
-
 func (s *subsetter) getNewGid(oldGid glyph.ID) glyph.ID {
 	newGid, ok := s.newGid[oldGid]
 	if !ok {
@@ -138,7 +136,7 @@ func (s *subsetter) SubsetCMap(c cmap.Subtable) cmap.Subtable {
 }
 
 // TODO(voss): This is incomplete.  Finish this!
-func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
+func (s *subsetter) SubsetGsub(old *gtab.Info, outlines Outlines) *gtab.Info {
 	if old == nil {
 		return nil
 	}
@@ -154,35 +152,39 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 		for _, sOld := range tOld.Subtables {
 			switch sOld := sOld.(type) {
 			case *gtab.Gsub1_1:
-				for gid := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
 					rules = append(rules, rule{
 						in:  []glyph.ID{gid},
 						out: []glyph.ID{gid + sOld.Delta},
 					})
 				}
 			case *gtab.Gsub1_2:
-				for gid, idx := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
+					idx := sOld.Cov[gid]
 					rules = append(rules, rule{
 						in:  []glyph.ID{gid},
 						out: []glyph.ID{sOld.SubstituteGlyphIDs[idx]},
 					})
 				}
 			case *gtab.Gsub2_1:
-				for gid, idx := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
+					idx := sOld.Cov[gid]
 					rules = append(rules, rule{
 						in:  []glyph.ID{gid},
 						out: sOld.Repl[idx],
 					})
 				}
 			case *gtab.Gsub3_1:
-				for gid, idx := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
+					idx := sOld.Cov[gid]
 					rules = append(rules, rule{
 						in:  []glyph.ID{gid},
 						out: sOld.Alternates[idx],
 					})
 				}
 			case *gtab.Gsub4_1:
-				for gid, idx := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
+					idx := sOld.Cov[gid]
 					for _, lig := range sOld.Repl[idx] {
 						in := make([]glyph.ID, 0, len(lig.In)+1)
 						in = append(in, gid)
@@ -228,21 +230,23 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 	for needsRun {
 		maps.Clear(added)
 
+		numGlyphs := len(s.glyphs)
 		pos := 0
 		for pos < len(rules) {
 			r := rules[pos]
 			if r.nMissing == 0 {
 				for _, gid := range r.out {
-					if !s.hasOldGid(gid) {
-						s.getNewGid(gid)
-						added[gid] = struct{}{}
-					}
+					s.getNewGid(gid)
 				}
 				rules = append(rules[:pos], rules[pos+1:]...)
 			} else {
 				pos++
 			}
 		}
+		s.addComponents(outlines)
+		for _, gid := range s.glyphs[numGlyphs:] {
+			added[gid] = struct{}{}
+		}
 
 		needsRun = false
 		for i, r := range rules {
@@ -273,14 +277,14 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 				sNew := &gtab.Gsub1_2{
 					Cov: make(map[glyph.ID]int),
 				}
-				for oldOrig := range sOld.Cov {
-					newFrom, ok := s.newGid[oldOrig]
-					if !ok {
+				// The coverage index must increase with the (new) glyph ID.
+				for newFrom, oldOrig := range s.glyphs {
+					if !sOld.Cov[oldOrig] {
 						continue
 					}
 
 					newTo := oldOrig + sOld.Delta
-					sNew.Cov[newFrom] = len(sNew.SubstituteGlyphIDs)
+					sNew.Cov[glyph.ID(newFrom)] = len(sNew.SubstituteGlyphIDs)
 					sNew.SubstituteGlyphIDs = append(sNew.SubstituteGlyphIDs, s.getNewGid(newTo))
 				}
 				if len(sNew.Cov) > 0 {
@@ -293,11 +297,12 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 			case *gtab.Gsub3_1:
 				panic("not implemented")
 			case *gtab.Gsub4_1:
-				sNew := gtab.Gsub4_1{
+				sNew := &gtab.Gsub4_1{
 					Cov: make(coverage.Table),
 				}
-				for oldFirst, idx := range sOld.Cov {
-					newFirst, ok := s.newGid[oldFirst]
+				// The coverage index must increase with the (new) glyph ID.
+				for newFirst, oldFirst := range s.glyphs {
+					idx, ok := sOld.Cov[oldFirst]
 					if !ok {
 						continue
 					}
@@ -319,10 +324,13 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 						ligs = append(ligs, newLig)
 					}
 					if len(ligs) > 0 {
-						sNew.Cov[newFirst] = len(sNew.Repl)
+						sNew.Cov[glyph.ID(newFirst)] = len(sNew.Repl)
 						sNew.Repl = append(sNew.Repl, ligs)
 					}
 				}
+				if len(sNew.Cov) > 0 {
+					tNew.Subtables = append(tNew.Subtables, sNew)
+				}
 			case *gtab.Gsub8_1:
 				panic("not implemented")
 			case *gtab.SeqContext1:
@@ -342,9 +350,9 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 			}
 		}
 
-		if len(tNew.Subtables) > 0 {
-			res.LookupList = append(res.LookupList, tNew)
-		}
+		// Empty lookups are kept, so that the lookup indices used in the
+		// feature list stay valid.
+		res.LookupList = append(res.LookupList, tNew)
 	}
 
 	return &res
@@ -468,38 +476,36 @@ func (s *subsetter) SubsetCFF(oldOutlines *cff.Outlines) *cff.Outlines {
 	return newOutlines
 }
 
+// addComponents adds all glyphs which are used as components of composite
+// glyphs to the subset.
+func (s *subsetter) addComponents(outlines Outlines) {
+	glyfOutlines, ok := outlines.(*glyf.Outlines)
+	if !ok {
+		return
+	}
+	for i := 0; i < len(s.glyphs); i++ { // s.glyphs grows during the loop
+		for _, component := range glyfOutlines.Glyphs[s.glyphs[i]].Components() {
+			s.getNewGid(component)
+		}
+	}
+}
+
 func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 	newOutlines := &glyf.Outlines{
 		Tables: oldOutlines.Tables,
 		Maxp:   oldOutlines.Maxp,
 	}
 
-	todo := make(map[glyph.ID]bool, len(s.glyphs))
-	for _, oldGid := range s.glyphs {
-		todo[oldGid] = true
-	}
-	for len(todo) > 0 {
-		oldGid := pop(todo)
-		cc := oldOutlines.Glyphs[oldGid].Components()
-		for _, componentGidOld := range cc {
-			if _, ok := s.newGid[componentGidOld]; ok {
-				continue
-			}
-			componendGidNew := glyph.ID(len(s.glyphs))
-			s.glyphs = append(s.glyphs, componentGidOld)
-			s.newGid[oldGid] = componendGidNew
-			todo[componentGidOld] = true
-		}
-	}
-
 	newOutlines.Glyphs = make([]*glyf.Glyph, len(s.glyphs))
 	for newGid, oldGid := range s.glyphs {
 		newOutlines.Glyphs[newGid] = oldOutlines.Glyphs[oldGid].FixComponents(s.newGid)
 	}
 
-	newOutlines.Widths = make([]funit.Int16, len(s.glyphs))
-	for newGid, oldGid := range s.glyphs {
-		newOutlines.Widths[newGid] = oldOutlines.Widths[oldGid]
+	if oldOutlines.Widths != nil {
+		newOutlines.Widths = make([]funit.Int16, len(s.glyphs))
+		for newGid, oldGid := range s.glyphs {
+			newOutlines.Widths[newGid] = oldOutlines.Widths[oldGid]
+		}
 	}
 
 	if oldOutlines.Names != nil {
@@ -513,11 +519,3 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 
 	return newOutlines
 }
-
-func pop(todo map[glyph.ID]bool) glyph.ID {
-	for key := range todo {
-		delete(todo, key)
-		return key
-	}
-	panic("empty map")
-}
-- 
2.43.0


From 8457080cd67d5b0d95f9272830bad3bd1c91fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:01 +0000
Subject: [PATCH 76/92] fix: average glyph width of fonts with fractional glyph
 widths

---
 write.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/write.go b/write.go
index ae985b9..dbe1cfd 100644
--- a/write.go
+++ b/write.go
@@ -202,6 +202,7 @@ func (f *Font) makeOS2() []byte {
 	count := 0
 	ww := f.Widths()
 	for _, w := range ww {
+		w = math.Round(w) // as in the "hmtx" table
 		if w > 0 {
 			avgGlyphWidth += int(w)
 			count++
-- 
2.43.0


From 1fe20606b367d05a348c0e2d272dc619299f0974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:04 +0000
Subject: [PATCH 77/92] fix: allow to switch off the synthesised ligatures

---
 ligatures.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ligatures.go b/ligatures.go
index 2497dad..de2f8dc 100644
--- a/ligatures.go
+++ b/ligatures.go
@@ -75,7 +75,10 @@ ligLoop:
 	}
 	gsub := &gtab.Info{
 		ScriptList: map[language.Tag]*gtab.Features{
-			language.MustParse("und-Latn-x-latn"): {Optional: []gtab.FeatureIndex{0}},
+			language.MustParse("und-Latn-x-latn"): {
+				Required: 0xFFFF, // no required feature
+				Optional: []gtab.FeatureIndex{0},
+			},
 		},
 		FeatureList: []*gtab.Feature{
 			{Tag: "liga", Lookups: []gtab.LookupIndex{0}},
-- 
2.43.0


From 67252f98bd13e5c936d5b89a1a9a49c3224dffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:11 +0000
Subject: [PATCH 78/92] fix: round fractional advance widths in layout, as in
 the hmtx table

---
 layout.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout.go b/layout.go
index 76483cc..77821f8 100644
--- a/layout.go
+++ b/layout.go
@@ -17,6 +17,8 @@
 package sfnt
 
 import (
+	"math"
+
 	"golang.org/x/text/language"
 	"seehuhn.de/go/postscript/funit"
 	"seehuhn.de/go/sfnt/cmap"
@@ -88,7 +90,7 @@ func (l *Layouter) Layout(s string) []glyph.Info {
 	for i := range seq {
 		gid := seq[i].GID
 		if !font.Gdef.IsMark(gid) {
-			seq[i].Advance = funit.Int16(font.GlyphWidth(gid)) // TODO(voss)
+			seq[i].Advance = funit.Int16(math.Round(font.GlyphWidth(gid)))
 		}
 	}
 
-- 
2.43.0


From 82ac6e2853d22f58626b06609e91410e442f7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:25 +0000
Subject: [PATCH 79/92] fix: use the exact language system, where the font has
 it

---
 opentype/gtab/lookup.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index 8a42dc4..4b774b0 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -669,26 +669,30 @@ func (info *Info) FindLookups(lang language.Tag, includeFeature map[string]bool)
 		return nil
 	}
 
-	tags := make([]language.Tag, 0, len(info.ScriptList))
-	for tag := range info.ScriptList {
-		tags = append(tags, tag)
-	}
-	// The first tag is used, if nothing matches.  Prefer the default script,
-	// and make sure that the result does not depend on the map order.
-	sort.Slice(tags, func(i, j int) bool {
-		a, b := tags[i].String(), tags[j].String()
-		aDefault := strings.HasPrefix(a, "und-Zzzz")
-		bDefault := strings.HasPrefix(b, "und-Zzzz")
-		if aDefault != bDefault {
-			return aDefault
+	// The matcher ignores the private use parts of the language tags, which
+	// distinguish between the language systems of a font.
+	features, ok := info.ScriptList[lang]
+	if !ok {
+		tags := make([]language.Tag, 0, len(info.ScriptList))
+		for tag := range info.ScriptList {
+			tags = append(tags, tag)
 		}
-		return a < b
-	})
-
-	matcher := language.NewMatcher(tags)
-	_, index, _ := matcher.Match(lang)
+		// The first tag is used, if nothing matches.  Prefer the default script,
+		// and make sure that the result does not depend on the map order.
+		sort.Slice(tags, func(i, j int) bool {
+			a, b := tags[i].String(), tags[j].String()
+			aDefault := strings.HasPrefix(a, "und-Zzzz")
+			bDefault := strings.HasPrefix(b, "und-Zzzz")
+			if aDefault != bDefault {
+				return aDefault
+			}
+			return a < b
+		})
 
-	features := info.ScriptList[tags[index]]
+		matcher := language.NewMatcher(tags)
+		_, index, _ := matcher.Match(lang)
+		features = info.ScriptList[tags[index]]
+	}
 	if features == nil {
 		return nil
 	}
-- 
2.43.0


From 3a0f3f21d2ce9ebed933139c08d3b044641bf1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:39 +0000
Subject: [PATCH 80/92] fix: fonts with large kern tables could not be written

---
 read.go | 47 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/read.go b/read.go
index eaa481b..93f384d 100644
--- a/read.go
+++ b/read.go
@@ -23,8 +23,10 @@ import (
 	"io"
 	"math"
 	"os"
+	"slices"
 	"strings"
 
+	"golang.org/x/exp/maps"
 	"golang.org/x/text/language"
 
 	"seehuhn.de/go/postscript/funit"
@@ -33,6 +35,7 @@ import (
 	"seehuhn.de/go/sfnt/cff"
 	"seehuhn.de/go/sfnt/cmap"
 	"seehuhn.de/go/sfnt/glyf"
+	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/head"
 	"seehuhn.de/go/sfnt/header"
 	"seehuhn.de/go/sfnt/hmtx"
@@ -505,12 +508,6 @@ func Read(r io.Reader) (*Font, error) {
 			return nil, fmt.Errorf("kern table: %w", err)
 		}
 
-		subtable := gtab.Gpos2_1{}
-		for pair, val := range kern {
-			subtable[pair] = &gtab.PairAdjust{
-				First: &gtab.GposValueRecord{XAdvance: val},
-			}
-		}
 		info.Gpos = &gtab.Info{
 			ScriptList: map[language.Tag]*gtab.Features{
 				language.MustParse("und-Zzzz-x-dflt"): {Required: 0, Optional: []gtab.FeatureIndex{}},
@@ -521,7 +518,7 @@ func Read(r io.Reader) (*Font, error) {
 			LookupList: []*gtab.LookupTable{
 				{
 					Meta:      &gtab.LookupMetaInfo{LookupType: 2},
-					Subtables: []gtab.Subtable{subtable},
+					Subtables: kernSubtables(kern),
 				},
 			},
 		}
@@ -530,6 +527,42 @@ func Read(r io.Reader) (*Font, error) {
 	return info, nil
 }
 
+// kernSubtables converts kerning information to pair adjustment subtables.
+// The data is split over several subtables, where this is needed to keep the
+// 16-bit offsets inside the subtables in range.
+func kernSubtables(info kern.Info) []gtab.Subtable {
+	numPairs := make(map[glyph.ID]int)
+	for pair := range info {
+		numPairs[pair.Left]++
+	}
+	left := maps.Keys(numPairs)
+	slices.Sort(left)
+
+	const maxSize = 60_000
+	size := 0
+	subtable := gtab.Gpos2_1{}
+	res := []gtab.Subtable{subtable}
+	subtableFor := make(map[glyph.ID]gtab.Gpos2_1, len(left))
+	for _, gid := range left {
+		// an upper bound for the size of the offset, the coverage table entry
+		// and the PairSet table
+		glyphSize := 2 + 6 + 2 + 4*numPairs[gid]
+		if size > 0 && size+glyphSize > maxSize {
+			subtable = gtab.Gpos2_1{}
+			res = append(res, subtable)
+			size = 0
+		}
+		subtableFor[gid] = subtable
+		size += glyphSize
+	}
+	for pair, val := range info {
+		subtableFor[pair.Left][pair] = &gtab.PairAdjust{
+			First: &gtab.GposValueRecord{XAdvance: val},
+		}
+	}
+	return res
+}
+
 func roundToInt16(x funit.Float64) funit.Float64 {
 	y := math.Round(float64(x))
 	return funit.Float64(min(max(y, math.MinInt16), math.MaxInt16))
-- 
2.43.0


From 16c6299fd5e591dc73a1af42761b91606f13ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:04 +0000
Subject: [PATCH 81/92] fix: ignore character codes outside the range of the
 encoding in cmap subtables

---
 cmap/cmap.go    |  3 +++
 cmap/format4.go | 10 ++++++----
 cmap/format6.go |  5 +++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cmap/cmap.go b/cmap/cmap.go
index 3a79b3e..141b204 100644
--- a/cmap/cmap.go
+++ b/cmap/cmap.go
@@ -211,6 +211,9 @@ func (ss Table) Get(key Key) (Subtable, error) {
 	}
 
 	macRoman := func(code int) rune {
+		if code > 0xFF {
+			return -1 // not a valid character code
+		}
 		return mac.DecodeOne(byte(code))
 	}
 
diff --git a/cmap/format4.go b/cmap/format4.go
index e67a682..69c22c8 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -70,8 +70,9 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 			delta := idDelta[k]
 			for idx := start; idx < end; idx++ {
 				c := glyph.ID(uint16(idx) + delta)
-				if c != 0 {
-					cmap[uint16(code2rune(int(idx)))] = c
+				r := code2rune(int(idx))
+				if c != 0 && r >= 0 {
+					cmap[uint16(r)] = c
 				}
 			}
 		} else {
@@ -89,8 +90,9 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 				if c != 0 {
 					c += glyph.ID(delta)
 				}
-				if c != 0 {
-					cmap[uint16(code2rune(int(idx)))] = c
+				r := code2rune(int(idx))
+				if c != 0 && r >= 0 {
+					cmap[uint16(r)] = c
 				}
 			}
 		}
diff --git a/cmap/format6.go b/cmap/format6.go
index 34b0f2c..5f94b3d 100644
--- a/cmap/format6.go
+++ b/cmap/format6.go
@@ -42,8 +42,9 @@ func decodeFormat6(data []byte, code2rune func(c int) rune) (Subtable, error) {
 	res := make(Format4)
 	for i := 0; i < count; i++ {
 		gid := glyph.ID(data[2*i])<<8 | glyph.ID(data[2*i+1])
-		if gid != 0 {
-			res[uint16(code2rune(i+firstCode))] = gid
+		r := code2rune(i + firstCode)
+		if gid != 0 && r >= 0 && r <= 0xFFFF {
+			res[uint16(r)] = gid
 		}
 	}
 	return res, nil
-- 
2.43.0


From 1ac2d5354e63c8a5ed0129da4da3d9e3843da0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 82/92] fix: report short writes as errors

---
 cff/write.go    |  5 ++++-
 header/write.go | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/cff/write.go b/cff/write.go
index a4d525d..af71c00 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -229,10 +229,13 @@ func (f *Font) Write(w io.Writer) error {
 	}
 
 	for i := 0; i < numSections; i++ {
-		_, err = w.Write(blobs[i])
+		n, err := w.Write(blobs[i])
 		if err != nil {
 			return err
 		}
+		if n < len(blobs[i]) {
+			return io.ErrShortWrite
+		}
 	}
 
 	return nil
diff --git a/header/write.go b/header/write.go
index 4a77ac4..d29c30e 100644
--- a/header/write.go
+++ b/header/write.go
@@ -100,7 +100,7 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 
 	// write the tables
 	var totalSize int64
-	n, err := w.Write(headerBytes)
+	n, err := writeAll(w, headerBytes)
 	totalSize += int64(n)
 	if err != nil {
 		return totalSize, err
@@ -108,13 +108,13 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	var pad [3]byte
 	for _, name := range tableNames {
 		body := tables[name]
-		n, err := w.Write(body)
+		n, err := writeAll(w, body)
 		totalSize += int64(n)
 		if err != nil {
 			return totalSize, err
 		}
 		if k := n % 4; k != 0 {
-			l, err := w.Write(pad[:4-k])
+			l, err := writeAll(w, pad[:4-k])
 			totalSize += int64(l)
 			if err != nil {
 				return totalSize, err
@@ -124,6 +124,15 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	return totalSize, nil
 }
 
+// writeAll writes data to w.  Short writes are always reported as an error.
+func writeAll(w io.Writer, data []byte) (int, error) {
+	n, err := w.Write(data)
+	if n < len(data) && err == nil {
+		err = io.ErrShortWrite
+	}
+	return n, err
+}
+
 // clearChecksum zeros the checksum field of the head table.
 func clearChecksum(head []byte) {
 	if len(head) < 12 {
-- 
2.43.0


From b80d6d8cd605bd2a3b4db0cc2c24a10b596bc8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:39 +0000
Subject: [PATCH 83/92] fix: accept readers which return io.EOF together with
 the last bytes of the font

---
 header/tables.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/header/tables.go b/header/tables.go
index 8ae0c9e..667187c 100644
--- a/header/tables.go
+++ b/header/tables.go
@@ -57,7 +57,7 @@ type Record struct {
 // table structure are performed.
 func Read(r io.ReaderAt) (*Info, error) {
 	var buf [16]byte
-	_, err := r.ReadAt(buf[:6], 0)
+	err := readAt(r, buf[:6], 0)
 	if err != nil {
 		return nil, err
 	}
@@ -90,7 +90,7 @@ func Read(r io.ReaderAt) (*Info, error) {
 	}
 	var coverage []alloc
 	for i := 0; i < numTables; i++ {
-		_, err := r.ReadAt(buf[:16], int64(12+i*16))
+		err := readAt(r, buf[:16], int64(12+i*16))
 		if err != nil {
 			return nil, err
 		}
@@ -149,7 +149,7 @@ func Read(r io.ReaderAt) (*Info, error) {
 			}
 		}
 	}
-	_, err = r.ReadAt(buf[:1], int64(coverage[len(coverage)-1].End)-1)
+	err = readAt(r, buf[:1], int64(coverage[len(coverage)-1].End)-1)
 	if err == io.EOF {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/header",
@@ -162,6 +162,16 @@ func Read(r io.ReaderAt) (*Info, error) {
 	return h, nil
 }
 
+// readAt fills buf with the data at the given offset.  In contrast to
+// [io.ReaderAt], no error is returned if all of the bytes could be read.
+func readAt(r io.ReaderAt, buf []byte, off int64) error {
+	n, err := r.ReadAt(buf, off)
+	if n == len(buf) && err == io.EOF {
+		return nil
+	}
+	return err
+}
+
 // Has returns true if all of the given tables are present in the font,
 // and none of them are empty.
 func (h *Info) Has(tableNames ...string) bool {
-- 
2.43.0


From 401641c624f2c300b55d94e281df72064e96f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:56 +0000
Subject: [PATCH 84/92] fix: glyph names of TrueType fonts with short or long
 lists of names

---
 font.go  | 2 +-
 names.go | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index 4537298..5a62405 100644
--- a/font.go
+++ b/font.go
@@ -425,7 +425,7 @@ func (f *Font) GlyphName(gid glyph.ID) string {
 	case *cff.Outlines:
 		return f.Glyphs[gid].Name
 	case *glyf.Outlines:
-		if f.Names == nil {
+		if int(gid) >= len(f.Names) {
 			return ""
 		}
 		return f.Names[gid]
diff --git a/names.go b/names.go
index 80946ee..2d53429 100644
--- a/names.go
+++ b/names.go
@@ -64,9 +64,7 @@ func (f *Font) MakeGlyphNames() []string {
 			glyphNames[gid] = g.Name
 		}
 	case *glyf.Outlines:
-		if len(f.Names) == len(f.Glyphs) {
-			copy(glyphNames, f.Names)
-		}
+		copy(glyphNames, f.Names)
 	default:
 		panic("unexpected font type")
 	}
-- 
2.43.0


From b923c55f8840e35aaa0c6768e2c397a594d0b95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:58 +0000
Subject: [PATCH 85/92] fix: glyph names for fonts where the cmap table
 contains invalid characters or glyphs

---
 names.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/names.go b/names.go
index 2d53429..1d553cc 100644
--- a/names.go
+++ b/names.go
@@ -19,6 +19,7 @@ package sfnt
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	"seehuhn.de/go/postscript/type1/names"
 
@@ -92,9 +93,13 @@ func (f *Font) MakeGlyphNames() []string {
 
 	if cmap, _ := f.CMapTable.GetBest(); cmap != nil {
 		a, b := cmap.CodeRange()
+		if a < 0 || b < 0 || b > unicode.MaxRune {
+			// There are character codes outside the Unicode range.
+			a, b = 0, unicode.MaxRune
+		}
 		for r := a; r <= b; r++ {
 			gid := cmap.Lookup(r)
-			if glyphNames[gid] != "" {
+			if int(gid) >= len(glyphNames) || glyphNames[gid] != "" {
 				// This includes the case of unmapped runes (gid == 0).
 				continue
 			}
-- 
2.43.0


From 8912c7b54c51233e445cb80eefc13f95df669ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:32 +0000
Subject: [PATCH 86/92] fix: glyph names from GSUB tables depended on the map
 order, replaced existing names, and could be too long

---
 names.go | 60 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/names.go b/names.go
index 1d553cc..b4cf9ee 100644
--- a/names.go
+++ b/names.go
@@ -25,6 +25,7 @@ import (
 
 	"seehuhn.de/go/sfnt/cff"
 	"seehuhn.de/go/sfnt/glyf"
+	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/opentype/gtab"
 )
 
@@ -112,56 +113,58 @@ func (f *Font) MakeGlyphNames() []string {
 	}
 
 	if f.Gsub != nil {
+		// getName returns the name of a glyph, or the empty string.
+		getName := func(gid glyph.ID) string {
+			if int(gid) >= len(glyphNames) {
+				return ""
+			}
+			return glyphNames[gid]
+		}
+		// setName names a glyph, if the glyph does not have a name yet.
+		setName := func(gid glyph.ID, basename string) {
+			if int(gid) >= len(glyphNames) || glyphNames[gid] != "" || basename == "" {
+				return
+			}
+			glyphNames[gid] = makeVariant(used, basename)
+		}
+
 		for _, lookup := range f.Gsub.LookupList {
 			for _, subtable := range lookup.Subtables {
 				switch subtable := subtable.(type) {
 				case *gtab.Gsub1_1:
-					for origGid := range subtable.Cov {
-						newGid := origGid + subtable.Delta
-						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
-							continue
-						}
-						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
+					for _, origGid := range subtable.Cov.Glyphs() {
+						setName(origGid+subtable.Delta, getName(origGid))
 					}
 				case *gtab.Gsub1_2:
-					for origGid, idx := range subtable.Cov {
-						newGid := subtable.SubstituteGlyphIDs[idx]
-						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
-							continue
-						}
-						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
+					for _, origGid := range subtable.Cov.Glyphs() {
+						newGid := subtable.SubstituteGlyphIDs[subtable.Cov[origGid]]
+						setName(newGid, getName(origGid))
 					}
 				case *gtab.Gsub3_1:
-					for origGid, idx := range subtable.Cov {
-						if glyphNames[origGid] == "" {
-							continue
-						}
-						for _, newGid := range subtable.Alternates[idx] {
-							if glyphNames[newGid] == "" {
-								glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
-							}
+					for _, origGid := range subtable.Cov.Glyphs() {
+						for _, newGid := range subtable.Alternates[subtable.Cov[origGid]] {
+							setName(newGid, getName(origGid))
 						}
 					}
 				case *gtab.Gsub4_1:
 					var nn []string
-					for origGid, idx := range subtable.Cov {
-						name := glyphNames[origGid]
+					for _, origGid := range subtable.Cov.Glyphs() {
+						name := getName(origGid)
 						if name == "" {
 							continue
 						}
 						nn = append(nn[:0], name)
 					replLoop:
-						for _, lig := range subtable.Repl[idx] {
+						for _, lig := range subtable.Repl[subtable.Cov[origGid]] {
 							nn = nn[:1]
 							for _, gid := range lig.In {
-								if name := glyphNames[gid]; name != "" {
+								if name := getName(gid); name != "" {
 									nn = append(nn, name)
 								} else {
 									continue replLoop
 								}
 							}
-							newName := strings.Join(nn, "_")
-							glyphNames[lig.Out] = makeVariant(used, newName)
+							setName(lig.Out, strings.Join(nn, "_"))
 						}
 					}
 				}
@@ -187,6 +190,8 @@ func (f *Font) MakeGlyphNames() []string {
 	return glyphNames
 }
 
+// makeVariant returns an unused name based on the given name.  The empty string
+// is returned, if the name would exceed the length limit for PostScript names.
 func makeVariant(used map[string]bool, basename string) string {
 	try := 0
 	name := basename
@@ -194,6 +199,9 @@ func makeVariant(used map[string]bool, basename string) string {
 		try++
 		name = fmt.Sprintf("%s.%d", basename, try)
 	}
+	if len(name) > 127 {
+		return ""
+	}
 	used[name] = true
 	return name
 }
-- 
2.43.0


From 0ac5403aa74131faf3ce9a0fd3187ee3ee30a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:54 +0000
Subject: [PATCH 87/92] fix: naming the glyphs of a subset changed the glyph
 names of the original font

---
 cff/convert.go | 5 +++++
 names.go       | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cff/convert.go b/cff/convert.go
index a6fc1b5..97d9045 100644
--- a/cff/convert.go
+++ b/cff/convert.go
@@ -43,6 +43,11 @@ func (o *Outlines) MakeSimple(glyphText map[glyph.ID]string) {
 // If glyphText is not nil, it is used to generate names for glyphs that do not
 // have a name yet.
 func (o *Outlines) makeNames(glyphText map[glyph.ID]string) {
+	// The glyphs may be shared with other fonts.
+	for i, g := range o.Glyphs {
+		o.Glyphs[i] = clone(g)
+	}
+
 	o.Glyphs[0].Name = ".notdef"
 
 	// keep existing names, unless they are invalid or duplicate
diff --git a/names.go b/names.go
index b4cf9ee..658a16b 100644
--- a/names.go
+++ b/names.go
@@ -39,10 +39,13 @@ func (f *Font) EnsureGlyphNames() {
 	switch f := f.Outlines.(type) {
 	case *cff.Outlines:
 		for gid, g := range f.Glyphs {
-			if g == nil {
+			if g == nil || g.Name == glyphNames[gid] {
 				continue
 			}
-			g.Name = glyphNames[gid]
+			// The glyph may be shared with other fonts.
+			newGlyph := *g
+			newGlyph.Name = glyphNames[gid]
+			f.Glyphs[gid] = &newGlyph
 		}
 	case *glyf.Outlines:
 		f.Names = glyphNames
-- 
2.43.0


From dabe2c5abb3291c18a9821f6cff427de8e7da530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:07 +0000
Subject: [PATCH 88/92] fix: converting a cloned CFF font changed the glyphs of
 the original font

---
 cff/convert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cff/convert.go b/cff/convert.go
index 97d9045..0c13fd3 100644
--- a/cff/convert.go
+++ b/cff/convert.go
@@ -18,6 +18,7 @@ package cff
 
 import (
 	"fmt"
+	"slices"
 
 	"seehuhn.de/go/geom/matrix"
 	"seehuhn.de/go/postscript/cid"
@@ -44,6 +45,7 @@ func (o *Outlines) MakeSimple(glyphText map[glyph.ID]string) {
 // have a name yet.
 func (o *Outlines) makeNames(glyphText map[glyph.ID]string) {
 	// The glyphs may be shared with other fonts.
+	o.Glyphs = slices.Clone(o.Glyphs)
 	for i, g := range o.Glyphs {
 		o.Glyphs[i] = clone(g)
 	}
@@ -126,6 +128,7 @@ func (o *Outlines) makeNames(glyphText map[glyph.ID]string) {
 //   - The CID SystemInfo is replaced with the given ros.
 func (o *Outlines) MakeCIDKeyed(ros *cid.SystemInfo, gidToCID []cid.CID) {
 	// remove information onlly relevant for simple fonts
+	o.Glyphs = slices.Clone(o.Glyphs)
 	for i, g := range o.Glyphs {
 		if g.Name == "" {
 			continue
-- 
2.43.0


From 2289ad8f580ea577920248e94190b7efe0041339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:31 +0000
Subject: [PATCH 89/92] fix: cff: bound the work done by nested subroutine
 calls

---
 cff/read.go     |  3 +++
 cff/t2decode.go | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cff/read.go b/cff/read.go
index 4bffd78..7457123 100644
--- a/cff/read.go
+++ b/cff/read.go
@@ -137,6 +137,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 
 	ROS, isCIDKeyed := topDict[opROS]
 	var decoders []*decodeInfo
+	subrBudget := 1<<20 + 32*p.Size()
 	if isCIDKeyed {
 		if len(ROS) != 3 {
 			return nil, invalidSince("wrong number of ROS values")
@@ -187,6 +188,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 				gsubr:        gsubrs,
 				defaultWidth: pInfo.defaultWidth,
 				nominalWidth: pInfo.nominalWidth,
+				budget:       &subrBudget,
 			})
 		}
 
@@ -271,6 +273,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 			gsubr:        gsubrs,
 			defaultWidth: pInfo.defaultWidth,
 			nominalWidth: pInfo.nominalWidth,
+			budget:       &subrBudget,
 		})
 	}
 
diff --git a/cff/t2decode.go b/cff/t2decode.go
index 73b9da5..cfc64fc 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -27,6 +27,12 @@ type decodeInfo struct {
 	gsubr        cffIndex
 	defaultWidth float64
 	nominalWidth float64
+
+	// budget, if non-nil, is the number of bytes of subroutine code which may
+	// still be executed.  The value is shared between all glyphs of a font.
+	// This is needed because nested subroutine calls can describe programs
+	// which are exponentially longer than the font file.
+	budget *int64
 }
 
 type ccStage int
@@ -650,6 +656,12 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				if err != nil {
 					return nil, err
 				}
+				if info.budget != nil {
+					*info.budget -= int64(len(code)) + 1
+					if *info.budget < 0 {
+						return nil, errTooComplex
+					}
+				}
 
 			case t2return:
 				break opLoop
@@ -900,4 +912,5 @@ var (
 	errStackUnderflow    = invalidSince("type 2 stack underflow")
 	errIncomplete        = invalidSince("incomplete type 2 charstring")
 	errInvalidSubroutine = invalidSince("invalid type 2 subroutine index")
+	errTooComplex        = invalidSince("type 2 charstrings too complex")
 )
-- 
2.43.0


From 33cdd81e9b72f0387c7ad36dee433912dd620571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:32 +0000
Subject: [PATCH 90/92] fix: header: reject tables which extend beyond 4 GiB

---
 header/tables.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/header/tables.go b/header/tables.go
index 667187c..6febdc7 100644
--- a/header/tables.go
+++ b/header/tables.go
@@ -85,8 +85,8 @@ func Read(r io.ReaderAt) (*Info, error) {
 		Toc:        make(map[string]Record, numTables),
 	}
 	type alloc struct {
-		Start uint32
-		End   uint32
+		Start uint64
+		End   uint64
 	}
 	var coverage []alloc
 	for i := 0; i < numTables; i++ {
@@ -117,8 +117,8 @@ func Read(r io.ReaderAt) (*Info, error) {
 			Length: length,
 		}
 		coverage = append(coverage, alloc{
-			Start: offset,
-			End:   offset + length,
+			Start: uint64(offset),
+			End:   uint64(offset) + uint64(length),
 		})
 	}
 	if len(h.Toc) == 0 {
-- 
2.43.0


From 0ce96ea9d134ce8e6c4c4eef443d2182bcfc9b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:22 +0000
Subject: [PATCH 91/92] fix: name: limit the amount of data decoded from
 overlapping strings

---
 name/name.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/name/name.go b/name/name.go
index 3dc046e..5838f5f 100644
--- a/name/name.go
+++ b/name/name.go
@@ -78,6 +78,16 @@ func Decode(data []byte) (*Info, error) {
 	macTables := make(map[string]*Table)
 	msTables := make(map[string]*Table)
 
+	// Several records can refer to the same data.  We decode shared strings
+	// only once, and limit the total amount of data decoded, in order to
+	// avoid excessive memory use for malformed tables.
+	type source struct {
+		platformID     uint16
+		offset, length int
+	}
+	decoded := make(map[source]string)
+	budget := 1<<20 + 16*len(data)
+
 recLoop:
 	for i := 0; i < numRec; i++ {
 		pos := recBase + i*12
@@ -106,12 +116,24 @@ recLoop:
 		nameBytes := data[storageOffset+nameOffset : storageOffset+nameOffset+nameLen]
 
 		// We ignore encodings we don't understand.
-		var val string
+		var decode func([]byte) string
 		if platformID == 3 && (encodingID == 0 || encodingID == 1 || encodingID == 10) {
 			// Windows: Symbol, Unicode BMP, and Unicode full repertoire
-			val = utf16Decode(nameBytes)
+			decode = utf16Decode
 		} else if platformID == 1 && encodingID == 0 { // Macintosh, Roman
-			val = mac.Decode(nameBytes)
+			decode = mac.Decode
+		} else {
+			continue recLoop
+		}
+		src := source{platformID, nameOffset, nameLen}
+		val, seen := decoded[src]
+		if !seen {
+			budget -= nameLen
+			if budget < 0 {
+				return nil, errMalformedNames
+			}
+			val = decode(nameBytes)
+			decoded[src] = val
 		}
 		// TODO(voss): implement some more encodings
 		// https://unicode.org/Public/MAPPINGS/VENDORS/APPLE/ReadMe.txt
-- 
2.43.0


From 463ff074979ff28be89ce00835614cdb77e81585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:26 +0000
Subject: [PATCH 92/92] fix: kern: bound the work done for overlapping
 subtables

---
 kern/kern.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kern/kern.go b/kern/kern.go
index 7a474df..1cb386a 100644
--- a/kern/kern.go
+++ b/kern/kern.go
@@ -58,6 +58,7 @@ func Read(r parser.ReadSeekSizer) (Info, error) {
 
 	res := make(Info)
 
+	totalPairs := int64(0)
 	pos := p.Pos()
 	for i := 0; i < int(nTables); i++ {
 		err := p.SeekPos(pos)
@@ -95,6 +96,14 @@ func Read(r parser.ReadSeekSizer) (Info, error) {
 		if err != nil {
 			return nil, err
 		}
+		totalPairs += int64(nPairs)
+		if 6*totalPairs > p.Size() {
+			// avoid excessive work for overlapping subtables
+			return nil, &parser.InvalidFontError{
+				SubSystem: "sfnt/kern",
+				Reason:    "too many kerning pairs",
+			}
+		}
 		for j := 0; j < int(nPairs); j++ {
 			buf, err := p.ReadBytes(6)
 			if err != nil {
-- 
2.43.0

