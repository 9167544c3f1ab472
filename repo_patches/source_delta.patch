From 4a7b77d569e9661bac03ed2aeee6632af8de15d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 001/115] fix: add idDelta to glyph IDs taken from the
 glyphIdArray in cmap format 4

---
 sfnt_cmap.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 265d942..770248e 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -63,7 +63,11 @@ func (subtable *cmapFormat4) Get(r rune) (uint16, bool) {
 			// r-startCode  ->  difference of rune with startCode
 			// -(n-1)  ->  subtract offset from the current idRangeOffset item
 			index := int(subtable.IdRangeOffset[i]/2) + int(uint16(r)-subtable.StartCode[i]) - (n - i)
-			return subtable.GlyphIdArray[index], true // index is always valid
+			glyphID := subtable.GlyphIdArray[index] // index is always valid
+			if glyphID != 0 {
+				glyphID += uint16(subtable.IdDelta[i]) // is modulo 65536
+			}
+			return glyphID, true
 		}
 	}
 	return 0, false
@@ -85,6 +89,9 @@ func (subtable *cmapFormat4) ToUnicode(glyphID uint16) []rune {
 					// -(n-1)  ->  subtract offset from the current idRangeOffset item
 					index := int(subtable.IdRangeOffset[i]/2) + int(uint16(r)-subtable.StartCode[i]) - (n - i)
 					id = subtable.GlyphIdArray[index]
+					if id != 0 {
+						id += uint16(subtable.IdDelta[i]) // is modulo 65536
+					}
 				}
 				subtable.unicodeMap[id] = append(subtable.unicodeMap[id], r)
 			}
-- 
2.43.0


From f98e3cede55a082854cd0bf07f40955cf7a56ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 002/115] fix: reject cmap format 4 segments that start before
 the glyphIdArray

---
 sfnt_cmap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 770248e..e6f4081 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -555,8 +555,9 @@ func (sfnt *SFNT) parseCmap() error {
 					if idRangeOffset%2 != 0 {
 						return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 					} else if idRangeOffset != 0 {
-						index := int(idRangeOffset/2) + int(subtable.EndCode[i]-subtable.StartCode[i]) - (int(segCount) - i)
-						if index < 0 || glyphIdArrayLength <= index {
+						first := int(idRangeOffset/2) - (int(segCount) - i)
+						last := first + int(subtable.EndCode[i]-subtable.StartCode[i])
+						if first < 0 || glyphIdArrayLength <= last {
 							return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 						}
 					}
-- 
2.43.0


From 8cee2ddb5c833a129df7db05689b1cff829d0f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 003/115] fix: reject cmap subtables that extend past the table

---
 sfnt_cmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index e6f4081..659e09a 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -460,7 +460,7 @@ func (sfnt *SFNT) parseCmap() error {
 		} else {
 			return fmt.Errorf("cmap: bad format %d for subtable %d", format, j)
 		}
-		if length < 8 || math.MaxUint32-offset < length {
+		if length < 8 || uint32(len(b))-offset < length {
 			return fmt.Errorf("cmap: bad subtable %d", j)
 		}
 		for i := 0; i < len(offsets); i++ {
-- 
2.43.0


From 1c24eeb467766523586df26f2344b6372a24fefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 004/115] fix: point encoding records that share a cmap
 subtable at the right subtable

---
 sfnt_cmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 659e09a..a391f8c 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -465,7 +465,7 @@ func (sfnt *SFNT) parseCmap() error {
 		}
 		for i := 0; i < len(offsets); i++ {
 			if offset == offsets[i] && length == lengths[i] {
-				subtableID = int(i)
+				subtableID = int(i) - 1 // first entry is the cmap header
 				break
 			} else if offset <= offsets[i] && offsets[i] < offset+length {
 				return fmt.Errorf("cmap: bad subtable %d", j)
-- 
2.43.0


From 1f1b357305bdd3297f9c5340ad06007bf4b31a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:14 +0000
Subject: [PATCH 005/115] fix: leave character codes that are no runes out of
 the cmap format 12 inverse

---
 sfnt_cmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index a391f8c..e385c5c 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -151,7 +151,7 @@ func (subtable *cmapFormat12) ToUnicode(glyphID uint16) []rune {
 	subtable.once.Do(func() {
 		subtable.unicodeMap = map[uint16][]rune{}
 		for i := 0; i < len(subtable.StartCharCode); i++ {
-			for r := subtable.StartCharCode[i]; r <= subtable.EndCharCode[i]; r++ {
+			for r := subtable.StartCharCode[i]; r <= subtable.EndCharCode[i] && r <= math.MaxInt32; r++ {
 				id := uint16((r - subtable.StartCharCode[i]) + subtable.StartGlyphID[i])
 				subtable.unicodeMap[id] = append(subtable.unicodeMap[id], rune(r))
 			}
-- 
2.43.0


From 981c27eb2767aa88373a04fea93be6639c5bc6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 006/115] fix: return zero for side bearings of glyph IDs
 outside the font

---
 sfnt.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index f187967..d20e50f 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -720,7 +720,11 @@ type hmtxTable struct {
 
 func (hmtx *hmtxTable) LeftSideBearing(glyphID uint16) int16 {
 	if uint16(len(hmtx.HMetrics)) <= glyphID {
-		return hmtx.LeftSideBearings[glyphID-uint16(len(hmtx.HMetrics))]
+		i := int(glyphID) - len(hmtx.HMetrics)
+		if len(hmtx.LeftSideBearings) <= i {
+			return 0
+		}
+		return hmtx.LeftSideBearings[i]
 	}
 	return hmtx.HMetrics[glyphID].LeftSideBearing
 }
@@ -778,7 +782,11 @@ type vmtxTable struct {
 
 func (vmtx *vmtxTable) TopSideBearing(glyphID uint16) int16 {
 	if uint16(len(vmtx.VMetrics)) <= glyphID {
-		return vmtx.TopSideBearings[glyphID-uint16(len(vmtx.VMetrics))]
+		i := int(glyphID) - len(vmtx.VMetrics)
+		if len(vmtx.TopSideBearings) <= i {
+			return 0
+		}
+		return vmtx.TopSideBearings[i]
 	}
 	return vmtx.VMetrics[glyphID].TopSideBearing
 }
-- 
2.43.0


From 29975516e1d4b5d87623b95637caaa9cd9fc7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 007/115] fix: vertical metrics of TrueType fonts without OS/2
 table

---
 sfnt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index d20e50f..47de839 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -147,6 +147,10 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 		lineGap = uint16(sfnt.Hhea.LineGap)
 	}
 
+	if sfnt.OS2 == nil {
+		// OS/2 is not required for TrueType
+		return ascender, descender, lineGap
+	}
 	if (sfnt.OS2.FsSelection & 0x0080) != 0 { // USE_TYPO_METRICS
 		if 0 < sfnt.OS2.STypoAscender && sfnt.OS2.STypoDescender < 0 {
 			ascender = uint16(sfnt.OS2.STypoAscender)
-- 
2.43.0


From e58e8a9d11c311c998d6a84ac1613a29f59712f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 008/115] fix: compute the external leading without integer
 wrap-around

---
 sfnt.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 47de839..192cf37 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -164,8 +164,10 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	} else {
 		if sfnt.OS2.UsWinAscent != 0 && sfnt.OS2.UsWinDescent != 0 {
 			ascender, descender = sfnt.OS2.UsWinAscent, sfnt.OS2.UsWinDescent
-			externalLeading := int(sfnt.Hhea.Ascender-sfnt.Hhea.Descender+sfnt.Hhea.LineGap) - int(sfnt.OS2.UsWinAscent+sfnt.OS2.UsWinDescent)
-			if 0 < externalLeading {
+			externalLeading := int(sfnt.Hhea.Ascender) - int(sfnt.Hhea.Descender) + int(sfnt.Hhea.LineGap) - (int(sfnt.OS2.UsWinAscent) + int(sfnt.OS2.UsWinDescent))
+			if math.MaxUint16 < externalLeading {
+				lineGap = math.MaxUint16
+			} else if 0 < externalLeading {
 				lineGap = uint16(externalLeading)
 			} else {
 				lineGap = 0
-- 
2.43.0


From 0ad32a86382be1fb0f1ac2feaecd92e76bf502cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:58 +0000
Subject: [PATCH 009/115] fix: skip kern subtables of unsupported versions and
 formats

---
 sfnt_truetype.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index bb0999c..1744bd7 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -582,15 +582,15 @@ func (sfnt *SFNT) parseKern() error {
 		subtable := kernFormat0{}
 		startPos := r.Pos()
 		subtableVersion := r.ReadUint16()
-		if subtableVersion != 0 {
-			// TODO: supported other kern subtable versions
-			continue
-		}
 		length := r.ReadUint16()
 		format := r.ReadUint8()
 		subtable.Coverage = Uint8ToFlags(r.ReadUint8())
-		if format != 0 {
-			// TODO: supported other kern subtable formats
+		if subtableVersion != 0 || format != 0 {
+			// TODO: supported other kern subtable versions and formats
+			if length < 6 || r.Len() < int64(length)-6 {
+				return fmt.Errorf("kern: bad length for subtable %d", j)
+			}
+			_ = r.ReadBytes(int64(length) - 6)
 			continue
 		} else if r.Len() < 8 {
 			return fmt.Errorf("kern: bad subtable %d", j)
-- 
2.43.0


From eb8f82ed6189cd8de48e7b12d659773905758dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 010/115] fix: honour the coverage flags of kern subtables

---
 sfnt_truetype.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 1744bd7..35e33ed 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -516,6 +516,11 @@ type kernFormat0 struct {
 }
 
 func (subtable *kernFormat0) Get(l, r uint16) int16 {
+	k, _ := subtable.find(l, r)
+	return k
+}
+
+func (subtable *kernFormat0) find(l, r uint16) (int16, bool) {
 	key := uint32(l)<<16 | uint32(r)
 	lo, hi := 0, len(subtable.Pairs)
 	for lo < hi {
@@ -526,10 +531,10 @@ func (subtable *kernFormat0) Get(l, r uint16) int16 {
 		} else if key < pair.Key {
 			hi = mid
 		} else {
-			return pair.Value
+			return pair.Value, true
 		}
 	}
-	return 0
+	return 0, false
 }
 
 type kernTable struct {
@@ -538,10 +543,20 @@ type kernTable struct {
 
 func (kern *kernTable) Get(l, r uint16) (k int16) {
 	for _, subtable := range kern.Subtables {
-		if !subtable.Coverage[1] { // kerning values
-			k += subtable.Get(l, r)
-		} else if min := subtable.Get(l, r); k < min { // minimum values (usually last subtable)
-			k = min // TODO: test minimal kerning
+		if !subtable.Coverage[0] || subtable.Coverage[2] {
+			continue // vertical or cross-stream kerning
+		}
+		v, ok := subtable.find(l, r)
+		if !ok {
+			continue
+		} else if subtable.Coverage[1] { // minimum values (usually last subtable)
+			if k < v {
+				k = v // TODO: test minimal kerning
+			}
+		} else if subtable.Coverage[3] { // override values
+			k = v
+		} else { // kerning values
+			k += v
 		}
 	}
 	return
-- 
2.43.0


From b1b3945fdad4853665afd8dbac67a2d84b47616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:40 +0000
Subject: [PATCH 011/115] fix: rebuild the name lookup in SetGlyphNames

---
 sfnt_subset.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 58f76e4..8a57acf 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"sync"
 
 	"github.com/tdewolff/parse/v2"
 )
@@ -516,22 +517,21 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	sfnt.Post.glyphNameIndex = make([]uint16, sfnt.NumGlyphs())
 	sfnt.Post.stringData = [][]byte{}
 	sfnt.Post.nameMap = nil
+	sfnt.Post.once = sync.Once{} // rebuild the name map on the next lookup
 
-	lastIndex := uint16(258)
+	indices := map[string]uint16{macintoshGlyphNames[0]: 0} // unnamed glyphs refer to .notdef
 	if int(sfnt.NumGlyphs()) < len(names) {
 		names = names[:sfnt.NumGlyphs()]
 	}
 	for glyphID, name := range names {
-		var index uint16
-		if glyphID2, ok := sfnt.Post.Find(name); ok {
-			index = sfnt.Post.glyphNameIndex[glyphID2]
-		} else if math.MaxUint16 < len(sfnt.Post.stringData)-258 {
-			return fmt.Errorf("invalid post table: stringData has too many entries")
-		} else {
+		index, ok := indices[name]
+		if !ok {
+			if math.MaxUint16 < len(sfnt.Post.stringData)+258 {
+				return fmt.Errorf("invalid post table: stringData has too many entries")
+			}
+			index = uint16(len(sfnt.Post.stringData) + 258)
 			sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-			sfnt.Post.nameMap[name] = uint16(glyphID)
-			index = lastIndex
-			lastIndex++
+			indices[name] = index
 		}
 		sfnt.Post.glyphNameIndex[uint16(glyphID)] = index
 	}
-- 
2.43.0


From 26901440f3db0ea81fefce0eb8cb9015bc0a60a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 012/115] fix: write negative italic angles of the post table
 exactly

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 192cf37..97c6e75 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1142,7 +1142,7 @@ func (post *postTable) Write() ([]byte, error) {
 
 	w := parse.NewBinaryWriter(make([]byte, 0, 32))
 	w.WriteUint32(uint32(version))
-	w.WriteUint32(uint32(post.ItalicAngle*(1<<16) + 0.5))
+	w.WriteInt32(int32(math.Round(post.ItalicAngle * (1 << 16))))
 	w.WriteInt16(post.UnderlinePosition)
 	w.WriteInt16(post.UnderlineThickness)
 	w.WriteUint32(post.IsFixedPitch)
-- 
2.43.0


From 6450adb2059bf8b503f6e5866e64c1dcdce78ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 013/115] fix: subset the vertical metrics with the glyphs

---
 sfnt_subset.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 8a57acf..478af2d 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -474,6 +474,28 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				MinMemType1:        sfntOld.Post.MinMemType1,
 				MaxMemType1:        sfntOld.Post.MaxMemType1,
 			}
+		case "vhea":
+			w := parse.NewBinaryWriter(make([]byte, 0, len(sfntOld.Tables["vhea"])))
+			w.WriteBytes(table[:34])
+			w.WriteUint16(uint16(len(glyphIDs))) // numberOfVMetrics
+			w.WriteBytes(table[36:])
+			sfnt.Tables[tag] = w.Bytes()
+
+			vhea := *sfntOld.Vhea
+			sfnt.Vhea = &vhea
+			sfnt.Vhea.NumberOfVMetrics = uint16(len(glyphIDs))
+		case "vmtx":
+			sfnt.Vmtx = &vmtxTable{}
+			sfnt.Vmtx.VMetrics = make([]vmtxLongVerMetric, len(glyphIDs))
+
+			w := parse.NewBinaryWriter(make([]byte, 0, 4*len(glyphIDs)))
+			for subsetGlyphID, glyphID := range glyphIDs {
+				sfnt.Vmtx.VMetrics[subsetGlyphID].AdvanceHeight = sfntOld.Vmtx.Advance(glyphID)
+				sfnt.Vmtx.VMetrics[subsetGlyphID].TopSideBearing = sfntOld.Vmtx.TopSideBearing(glyphID)
+				w.WriteUint16(sfnt.Vmtx.VMetrics[subsetGlyphID].AdvanceHeight)
+				w.WriteInt16(sfnt.Vmtx.VMetrics[subsetGlyphID].TopSideBearing)
+			}
+			sfnt.Tables[tag] = w.Bytes()
 		default:
 			sfnt.Tables[tag] = table
 		}
-- 
2.43.0


From 015450d102036bbf5cb8146c156020cb35271ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:31 +0000
Subject: [PATCH 014/115] fix: keep the version of fonts written without head
 table

---
 sfnt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 97c6e75..ef18362 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -533,7 +533,9 @@ func (sfnt *SFNT) Write() []byte {
 		binary.BigEndian.PutUint32(buf[pos+8:], offsets[i])
 		binary.BigEndian.PutUint32(buf[pos+12:], lengths[i])
 	}
-	binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	if checksumAdjustmentPos != 0 {
+		binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	}
 	return buf
 }
 
-- 
2.43.0


From 8139947a9675ec7c65f0f49c6c19f375dd6777cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:31 +0000
Subject: [PATCH 015/115] fix: accept an empty table at the end of the file

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index ef18362..ecfd858 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -341,7 +341,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		length := r.ReadUint32()
 
 		padding := (4 - length&3) & 3
-		if uint32(len(b)) <= offset || uint32(len(b))-offset < length || uint32(len(b))-offset-length < padding {
+		if uint32(len(b)) < offset || uint32(len(b))-offset < length || uint32(len(b))-offset-length < padding {
 			return nil, ErrInvalidFontData
 		}
 
-- 
2.43.0


From 906889832d3e72a31a87b21127bc084efbeb20c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:30 +0000
Subject: [PATCH 016/115] fix: reject glyphs with unordered end points or too
 many repeated flags

---
 sfnt_truetype.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 35e33ed..b6e0e9d 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -187,6 +187,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 		contour.EndPoints = make([]uint16, numberOfContours)
 		for i := 0; i < int(numberOfContours); i++ {
 			contour.EndPoints[i] = r.ReadUint16()
+			if 0 < i && contour.EndPoints[i] <= contour.EndPoints[i-1] {
+				return nil, fmt.Errorf("glyf: bad end points for glyphID %v", glyphID)
+			}
 		}
 
 		instructionLength := r.ReadUint16()
@@ -208,7 +211,13 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 			contour.OnCurve[i] = flags[i]&0x01 != 0
 			contour.OverlapSimple[i] = flags[i]&0x40 != 0
 			if flags[i]&0x08 != 0 { // REPEAT_FLAG
+				if r.Len() < 1 {
+					return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+				}
 				repeats := r.ReadUint8()
+				if numPoints-i <= int(repeats) {
+					return nil, fmt.Errorf("glyf: bad flags for glyphID %v", glyphID)
+				}
 				for j := 1; j <= int(repeats); j++ {
 					flags[i+j] = flags[i]
 					contour.OnCurve[i+j] = contour.OnCurve[i]
-- 
2.43.0


From ca367979f28e8b15fa1042dcc5a766916b7950aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:30 +0000
Subject: [PATCH 017/115] fix: accept glyphs without contours

---
 sfnt_truetype.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index b6e0e9d..7aa4f34 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -179,7 +179,10 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 	contour.YMin = r.ReadInt16()
 	contour.XMax = r.ReadInt16()
 	contour.YMax = r.ReadInt16()
-	if 0 <= numberOfContours {
+	if numberOfContours == 0 {
+		// no outline, data following the header is optional
+		return contour, nil
+	} else if 0 < numberOfContours {
 		// simple glyph
 		if r.Len() < 2*int64(numberOfContours)+2 {
 			return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
-- 
2.43.0


From e3598c9d9fe0f53a187e68ad4d656ce93a4cde2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:30 +0000
Subject: [PATCH 018/115] fix: compute implied on-curve points without integer
 wrap-around

---
 sfnt_truetype.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 7aa4f34..4e2e224 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -399,8 +399,8 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					prevOff = true
 				} else {
 					// first and second point are off
-					startX = float64(contour.XCoordinates[i-1]+contour.XCoordinates[i]) / 2.0
-					startY = float64(contour.YCoordinates[i-1]+contour.YCoordinates[i]) / 2.0
+					startX = (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[i])) / 2.0
+					startY = (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[i])) / 2.0
 					p.MoveTo(x+f*startX, y+f*startY)
 					first = false
 				}
@@ -415,16 +415,16 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*float64(contour.XCoordinates[i]), y+f*float64(contour.YCoordinates[i]))
 					prevOff = false
 				} else {
-					midX := float64(contour.XCoordinates[i-1]+contour.XCoordinates[i]) / 2.0
-					midY := float64(contour.YCoordinates[i-1]+contour.YCoordinates[i]) / 2.0
+					midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[i])) / 2.0
+					midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[i])) / 2.0
 					p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*midX, y+f*midY)
 				}
 			}
 		}
 		if firstOff {
 			if prevOff {
-				midX := float64(contour.XCoordinates[i-1]+contour.XCoordinates[j]) / 2.0
-				midY := float64(contour.YCoordinates[i-1]+contour.YCoordinates[j]) / 2.0
+				midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[j])) / 2.0
+				midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[j])) / 2.0
 				p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*midX, y+f*midY)
 				p.QuadTo(x+f*float64(contour.XCoordinates[j]), y+f*float64(contour.YCoordinates[j]), x+f*startX, y+f*startY)
 			} else {
-- 
2.43.0


From 6e017a860abbbec3840101e8e541c5591d6d661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:30 +0000
Subject: [PATCH 019/115] fix: draw nothing for contours of a single off-curve
 point

---
 sfnt_truetype.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 4e2e224..27ab39a 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -421,7 +421,9 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 				}
 			}
 		}
-		if firstOff {
+		if first {
+			continue // a single off-curve point has no outline
+		} else if firstOff {
 			if prevOff {
 				midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[j])) / 2.0
 				midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[j])) / 2.0
-- 
2.43.0


From c0eda7098c285e37deea7550cb5db8dd1391363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:30 +0000
Subject: [PATCH 020/115] fix: drawing of glyphs with 65536 points did not end

---
 sfnt_truetype.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 27ab39a..2e3abe5 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -379,14 +379,14 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 		return err
 	}
 
-	var i uint16
+	i := 0
 	for _, endPoint := range contour.EndPoints {
 		j := i
 		first := true
 		firstOff := false
 		prevOff := false
 		startX, startY := 0.0, 0.0
-		for ; i <= endPoint; i++ {
+		for ; i <= int(endPoint); i++ {
 			if first {
 				if contour.OnCurve[i] {
 					startX = float64(contour.XCoordinates[i])
-- 
2.43.0


From 43d114157e30e2888a653fa09644f9280b70d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:03 +0000
Subject: [PATCH 021/115] fix: draw the segment after the first on-curve point
 of contours that start off-curve

---
 sfnt_truetype.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 2e3abe5..dc97dea 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -393,6 +393,7 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					startY = float64(contour.YCoordinates[i])
 					p.MoveTo(x+f*startX, y+f*startY)
 					first = false
+					prevOff = false
 				} else if !prevOff {
 					// first point is off
 					firstOff = true
-- 
2.43.0


From 1bdb956e9624046edc1b195dc32a0e9ed4ea3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:33 +0000
Subject: [PATCH 022/115] fix: treat glyphs with offsets outside of the loca or
 glyf tables as bad glyphs

---
 sfnt_truetype.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index dc97dea..72627be 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -72,7 +72,7 @@ type glyfTable struct {
 func (glyf *glyfTable) Get(glyphID uint16) []byte {
 	start, ok1 := glyf.loca.Get(glyphID)
 	end, ok2 := glyf.loca.Get(glyphID + 1)
-	if !ok1 || !ok2 {
+	if !ok1 || !ok2 || end < start || uint32(len(glyf.data)) < end {
 		return nil
 	}
 	return glyf.data[start:end]
@@ -470,9 +470,9 @@ type locaTable struct {
 }
 
 func (loca *locaTable) Get(glyphID uint16) (uint32, bool) {
-	if loca.Format == 0 && int(glyphID)*2 < len(loca.data) {
+	if loca.Format == 0 && int(glyphID)*2+2 <= len(loca.data) {
 		return 2 * uint32(binary.BigEndian.Uint16(loca.data[int(glyphID)*2:])), true
-	} else if loca.Format == 1 && int(glyphID)*4 < len(loca.data) {
+	} else if loca.Format == 1 && int(glyphID)*4+4 <= len(loca.data) {
 		return binary.BigEndian.Uint32(loca.data[int(glyphID)*4:]), true
 	}
 	return 0, false
-- 
2.43.0


From 111d136ce4a3ed5797925d0ffb50b16ab7307432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:33 +0000
Subject: [PATCH 023/115] fix: reject composite glyphs with truncated
 instructions

---
 sfnt_truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 72627be..ddfdbcc 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -363,6 +363,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 			}
 		}
 		if hasInstructions {
+			if r.Len() < 2 {
+				return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+			}
 			instructionLength := r.ReadUint16()
 			if r.Len() < int64(instructionLength) {
 				return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
-- 
2.43.0


From 5de3450f83ec08932395010fb840498747c24dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:33 +0000
Subject: [PATCH 024/115] fix: glyph names of embedded fonts without post table

---
 sfnt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index ecfd858..59e5d93 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -115,6 +115,8 @@ func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 	if sfnt.IsCFF {
 		name, _ := sfnt.CFF.GlyphName(glyphID)
 		return name
+	} else if sfnt.Post == nil {
+		return ""
 	}
 	return sfnt.Post.Get(glyphID)
 }
@@ -128,6 +130,8 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 			}
 		}
 		return 0
+	} else if sfnt.Post == nil {
+		return 0
 	}
 	glyphID, _ := sfnt.Post.Find(name)
 	return glyphID
-- 
2.43.0


From 908d7c1e928d93e0108c91aa6262e803ffa66363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:15 +0000
Subject: [PATCH 025/115] fix: write cmap format 4 segments with an idDelta of
 zero

---
 sfnt_cmap.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index e385c5c..fa5055e 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -185,7 +185,9 @@ func (subtable *cmapFormat14) ToUnicode(glyphID uint16) []rune {
 func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
 	// rs is sorted
 	data := cmapFormat4{}
+	useDelta := []bool{}
 	addSegment := func(firstCode, lastCode rune, glyphIDs []uint16, contiguous bool) {
+		useDelta = append(useDelta, contiguous)
 		data.EndCode = append(data.EndCode, uint16(lastCode))
 		data.StartCode = append(data.StartCode, uint16(firstCode))
 		if contiguous {
@@ -273,7 +275,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteInt16(idDelta)
 	}
 	for i, idRangeOffset := range data.IdRangeOffset {
-		if data.IdDelta[i] != 0 {
+		if useDelta[i] {
 			w.WriteUint16(0)
 		} else {
 			glyphIdArrayStart := uint16(len(data.IdRangeOffset) - i)
-- 
2.43.0


From 6840baede285e16e4e91e843f169f1f38a107861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:15 +0000
Subject: [PATCH 026/115] fix: write a valid cmap when U+FFFF is mapped

---
 sfnt_cmap.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index fa5055e..27db901 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -328,6 +328,15 @@ func cmapWriteFormat12(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16
 }
 
 func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
+	// runes that map to .notdef need no entry
+	mapped := make([]rune, 0, len(rs))
+	for _, r := range rs {
+		if runeMap[r] != 0 {
+			mapped = append(mapped, r)
+		}
+	}
+	rs = mapped
+
 	if len(rs) == 0 {
 		return []byte{0x00, 0x00, 0x00, 0x00}
 	}
@@ -345,7 +354,7 @@ func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
 			maxRune = r
 		}
 	}
-	if maxRune <= 0xffff {
+	if maxRune < 0xffff { // the last segment of format 4 is reserved
 		w.WriteUint16(0)  // platformID
 		w.WriteUint16(3)  // encodingID
 		w.WriteUint32(20) // subtableOffset
-- 
2.43.0


From 086698495f7eb52708a10c4b006530bb442c9353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:15 +0000
Subject: [PATCH 027/115] fix: subset only the runes that map to the retained
 glyphs

---
 sfnt_subset.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 478af2d..c81e024 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -154,9 +154,11 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			rs := make([]rune, 0, len(glyphIDs))
 			runeMap := make(map[rune]uint16, len(glyphIDs)) // for OS/2
 			for subsetGlyphID, glyphID := range glyphIDs {
-				rsGlyph := sfntOld.Cmap.ToUnicode(glyphID)
-				rs = append(rs, rsGlyph...)
-				for _, r := range rsGlyph {
+				for _, r := range sfntOld.Cmap.ToUnicode(glyphID) {
+					if sfntOld.Cmap.Get(r) != glyphID {
+						continue // mapped to another glyph by an earlier subtable
+					}
+					rs = append(rs, r)
 					runeMap[r] = uint16(subsetGlyphID)
 				}
 			}
-- 
2.43.0


From 2559f28c2dd8b7fcf85559711568184889f123ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 028/115] fix: end cmap format 4 segments that start with
 contiguous glyphs

---
 sfnt_cmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 27db901..b657ed5 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -228,10 +228,10 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 					if 8 < j-jc && j0 != jc {
 						addSegment(rs[i0+j0], rs[i0+(jc-1)], glyphIDs[j0:jc], false)
 						addSegment(rs[i0+jc], rs[i0+(j-1)], glyphIDs[jc:j], true)
-						j0, jc = j, j
-					} else if j == len(glyphIDs) {
+					} else {
 						addSegment(rs[i0+j0], rs[i0+(j-1)], glyphIDs[j0:j], j0 == jc)
 					}
+					j0, jc = j, j
 					if j == len(glyphIDs) {
 						break
 					}
-- 
2.43.0


From c2b7d0c0272aeaa5deb30168657ef6ddf92df565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:36 +0000
Subject: [PATCH 029/115] fix: write cmap format 12 when the mapping does not
 fit format 4

---
 sfnt_cmap.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index b657ed5..53f1570 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -286,7 +286,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteUint16(glyphID)
 	}
 
-	// TODO: subtable may exceed the range of the length field (16 bits, or 65536 bytes long)
+	// the length is invalid for more than 65535 bytes, cmapWrite uses format 12 instead
 	binary.BigEndian.PutUint16(w.Bytes()[start+2:], uint16(w.Len()-start)) // set length
 }
 
@@ -354,14 +354,21 @@ func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
 			maxRune = r
 		}
 	}
+	var format4 []byte
 	if maxRune < 0xffff { // the last segment of format 4 is reserved
+		w4 := parse.NewBinaryWriter([]byte{})
+		cmapWriteFormat4(w4, rs, runeMap)
+		format4 = w4.Bytes()
+	}
+
+	if format4 != nil && len(format4) <= math.MaxUint16 { // the length field of format 4 is 16 bits
 		w.WriteUint16(0)  // platformID
 		w.WriteUint16(3)  // encodingID
 		w.WriteUint32(20) // subtableOffset
 		w.WriteUint16(3)  // platformID
 		w.WriteUint16(1)  // encodingID
 		w.WriteUint32(20) // subtableOffset
-		cmapWriteFormat4(w, rs, runeMap)
+		w.WriteBytes(format4)
 	} else {
 		w.WriteUint16(0)  // platformID
 		w.WriteUint16(4)  // encodingID
-- 
2.43.0


From 08c1a00a418370d067647fa1cd2ff91238aa8c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:12 +0000
Subject: [PATCH 030/115] fix: keep kerning pairs of value zero of override and
 minimum subtables in subsets

---
 sfnt_subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index c81e024..2780b5e 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -392,7 +392,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 						if rOrig == 0 {
 							continue
 						}
-						if value := subtable.Get(lOrig, rOrig); value != 0 {
+						if value, ok := subtable.find(lOrig, rOrig); ok {
 							pairs = append(pairs, kernPair{
 								Key:   uint32(l)<<16 + uint32(r),
 								Value: value,
-- 
2.43.0


From 357581b75d32bc5d67574ad6ae7f7a5726afe69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:12 +0000
Subject: [PATCH 031/115] fix: Subset reordered or overwrote the slices of the
 caller

---
 sfnt_subset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 2780b5e..a34d1cc 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -29,6 +29,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
+	// don't write into the array of the caller when appending dependencies
+	glyphIDs = glyphIDs[:len(glyphIDs):len(glyphIDs)]
+
 	// set up glyph mapping from original to subset
 	glyphMap := make(map[uint16]uint16, len(glyphIDs))
 	for subsetGlyphID, glyphID := range glyphIDs {
@@ -95,7 +98,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			tags = append(tags, tag)
 		}
 	} else {
-		tags = options.Tables
+		tags = append(tags, options.Tables...)
 	}
 	sort.Strings(tags) // so that glyf is before loca
 
-- 
2.43.0


From 45694f98c7978b2dfbe92d080e5821d5d97a4784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:12 +0000
Subject: [PATCH 032/115] fix: Subset changed the OS/2 table of the original
 font

---
 sfnt_subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index a34d1cc..bc3c83c 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -449,7 +449,8 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 			sfnt.Name = &nameTable{}
 		case "OS/2":
-			sfnt.OS2 = sfntOld.OS2
+			os2 := *sfntOld.OS2
+			sfnt.OS2 = &os2
 			sfnt.OS2.UlUnicodeRange1 = ulUnicodeRange[0]
 			sfnt.OS2.UlUnicodeRange2 = ulUnicodeRange[1]
 			sfnt.OS2.UlUnicodeRange3 = ulUnicodeRange[2]
-- 
2.43.0


From 25837af4d617ee988ae22f19268119ba1660fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:12 +0000
Subject: [PATCH 033/115] fix: set the Unicode ranges and character indices of
 subsets

---
 sfnt_os2.go    | 14 ++++++++++++--
 sfnt_subset.go | 39 ++++++++++++++++++++++++---------------
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index ee3c9c1..02e739b 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -166,15 +166,25 @@ func os2UlUnicodeRange(rs []rune) [4]uint32 {
 	for _, r := range rs {
 		if bit := os2UlUnicodeRangeBit(r); bit != -1 {
 			i := int(bit / 32)
-			v[3-i] |= 2 << (bit - i*32)
+			v[i] |= 1 << (bit - i*32)
 		}
 		if 0x10000 <= r && r < 0x110000 {
-			v[2] |= 2 << 25 // bit 57 (Non-Plane 0)
+			v[1] |= 1 << 25 // bit 57 (Non-Plane 0)
 		}
 	}
 	return v
 }
 
+// os2CharIndices returns the minimum and maximum character, limited to 0xFFFF.
+func os2CharIndices(rs []rune) (uint16, uint16) {
+	first, last := rs[0], rs[0]
+	for _, r := range rs[1:] {
+		first = min(first, r)
+		last = max(last, r)
+	}
+	return uint16(min(first, 0xFFFF)), uint16(min(last, 0xFFFF))
+}
+
 func os2UlUnicodeRangeBit(r rune) int {
 	if r < 0x80 {
 		return 0
diff --git a/sfnt_subset.go b/sfnt_subset.go
index bc3c83c..1a85dc2 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -105,11 +105,27 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	// preliminary calculations
 	indexToLocFormat := int16(1)                   // for head and loca
 	glyfOffsets := make([]uint32, len(glyphIDs)+1) // for loca
-	ulUnicodeRange := [4]uint32{0, 0, 0, 0}        // for OS/2
 	advances := make([]uint16, len(glyphIDs))      // for hhea and hmtx
 	for subsetGlyphID, glyphID := range glyphIDs {
 		advances[subsetGlyphID] = sfnt.Hmtx.Advance(glyphID)
 	}
+	rs := make([]rune, 0, len(glyphIDs))            // for cmap and OS/2
+	runeMap := make(map[rune]uint16, len(glyphIDs)) // for cmap
+	if sfnt.Cmap != nil {
+		for subsetGlyphID, glyphID := range glyphIDs {
+			if glyphID == 0 {
+				continue
+			}
+			for _, r := range sfnt.Cmap.ToUnicode(glyphID) {
+				if sfnt.Cmap.Get(r) != glyphID {
+					continue // mapped to another glyph by an earlier subtable
+				}
+				rs = append(rs, r)
+				runeMap[r] = uint16(subsetGlyphID)
+			}
+		}
+	}
+	ulUnicodeRange := os2UlUnicodeRange(rs) // for OS/2
 
 	// https://learn.microsoft.com/en-us/typography/opentype/spec/recom#hmtx-table
 	// It is recommended that for CFF fonts the numberOfHMetrics must be equal to the number
@@ -154,19 +170,6 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		// TODO: GDEF, GPOS, GSUB
 		// TODO; cvt, fpgm, prep
 		case "cmap":
-			rs := make([]rune, 0, len(glyphIDs))
-			runeMap := make(map[rune]uint16, len(glyphIDs)) // for OS/2
-			for subsetGlyphID, glyphID := range glyphIDs {
-				for _, r := range sfntOld.Cmap.ToUnicode(glyphID) {
-					if sfntOld.Cmap.Get(r) != glyphID {
-						continue // mapped to another glyph by an earlier subtable
-					}
-					rs = append(rs, r)
-					runeMap[r] = uint16(subsetGlyphID)
-				}
-			}
-			ulUnicodeRange = os2UlUnicodeRange(rs)
-
 			sfnt.Tables[tag] = cmapWrite(rs, runeMap)
 			if err := sfnt.parseCmap(); err != nil {
 				return nil, err
@@ -455,6 +458,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			sfnt.OS2.UlUnicodeRange2 = ulUnicodeRange[1]
 			sfnt.OS2.UlUnicodeRange3 = ulUnicodeRange[2]
 			sfnt.OS2.UlUnicodeRange4 = ulUnicodeRange[3]
+			if 0 < len(rs) {
+				sfnt.OS2.UsFirstCharIndex, sfnt.OS2.UsLastCharIndex = os2CharIndices(rs)
+			}
 
 			w := parse.NewBinaryWriter(make([]byte, 0, len(sfntOld.Tables["OS/2"])))
 			w.WriteBytes(table[:42])
@@ -462,7 +468,10 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			w.WriteUint32(sfnt.OS2.UlUnicodeRange2)
 			w.WriteUint32(sfnt.OS2.UlUnicodeRange3)
 			w.WriteUint32(sfnt.OS2.UlUnicodeRange4)
-			w.WriteBytes(table[58:])
+			w.WriteBytes(table[58:64])
+			w.WriteUint16(sfnt.OS2.UsFirstCharIndex)
+			w.WriteUint16(sfnt.OS2.UsLastCharIndex)
+			w.WriteBytes(table[68:])
 			sfnt.Tables[tag] = w.Bytes()
 		case "post":
 			w := parse.NewBinaryWriter(make([]byte, 0, 32))
-- 
2.43.0


From 09587528769c39927b7667283a6ff0e9f7eb1ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 034/115] fix: Unicode range bits of Phoenician, CJK strokes,
 Hangul and surrogates

---
 sfnt_os2.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index 02e739b..aea37af 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -366,16 +366,16 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 51
 	} else if r < 0x3190 {
 		return 52
+	} else if r < 0x31C0 {
+		return -1
+	} else if r < 0x31F0 {
+		return 61
 	} else if r < 0x3200 {
 		return -1
 	} else if r < 0x3300 {
 		return 54
 	} else if r < 0x3400 {
 		return 55
-	} else if r < 0x31C0 {
-		return -1
-	} else if r < 0x31F0 {
-		return 61
 	} else if r < 0x4DC0 {
 		return -1
 	} else if r < 0x4E00 {
@@ -410,9 +410,9 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 118
 	} else if r < 0xAC00 {
 		return -1
-	} else if r < 0xD7AF {
+	} else if r < 0xD7B0 {
 		return 56
-	} else if r < 0xE00 {
+	} else if r < 0xE000 {
 		return -1
 	} else if r < 0xF900 {
 		return 60
@@ -476,6 +476,10 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return -1
 	} else if r < 0x10840 {
 		return 107
+	} else if r < 0x10900 {
+		return -1
+	} else if r < 0x10920 {
+		return 58
 	} else if r < 0x10A00 {
 		return -1
 	} else if r < 0x10A60 {
-- 
2.43.0


From 4be0d705469caf6823f749ba60c58364fb191882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:12 +0000
Subject: [PATCH 035/115] fix: Merge lost or garbled kerning pairs of the other
 font

---
 sfnt_merge.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index c92614b..6e2ea77 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -131,20 +131,27 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			sfnt.Loca.data = w.Bytes()
 		}
 
-		if _, ok := sfnt.Tables["kern"]; ok {
+		if sfnt2.Kern != nil {
 			// update glyph IDs in kern table
+			if sfnt.Kern == nil {
+				sfnt.Kern = &kernTable{}
+			}
 			for _, subtable := range sfnt2.Kern.Subtables {
 				offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
-				pairs := make([]kernPair, len(subtable.Pairs))
-				for i, pair := range subtable.Pairs {
-					if pair.Key&0x0F == 0 || pair.Key&0xF0 == 0 {
-						// skip .notdef
+				pairs := make([]kernPair, 0, len(subtable.Pairs))
+				for _, pair := range subtable.Pairs {
+					l, r := uint16(pair.Key>>16), uint16(pair.Key)
+					if l == 0 || r == 0 || sfnt2.NumGlyphs() <= l || sfnt2.NumGlyphs() <= r {
+						// skip .notdef and glyphs that don't exist
 						continue
 					}
-					pairs[i] = kernPair{
+					pairs = append(pairs, kernPair{
 						Key:   offset + pair.Key,
 						Value: pair.Value,
-					}
+					})
+				}
+				if len(pairs) == 0 {
+					continue
 				}
 				sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, kernFormat0{
 					Coverage: subtable.Coverage,
-- 
2.43.0


From b933f26edba8ae215e5ce20ce47a6b79de3acdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:42 +0000
Subject: [PATCH 036/115] fix: Merge wrote bad glyph offsets when the loca
 format changes and panicked on malformed composite glyphs

---
 sfnt_merge.go | 70 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 6e2ea77..8bfdd91 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -49,15 +49,21 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 	if sfnt.IsTrueType {
 		glyf, ok1 := sfnt.Tables["glyf"]
 		glyf2, ok2 := sfnt2.Tables["glyf"]
-		loca, ok3 := sfnt.Tables["loca"]
+		_, ok3 := sfnt.Tables["loca"]
 		_, ok4 := sfnt2.Tables["loca"]
 		if !ok1 || !ok2 || !ok3 || !ok4 {
 			return fmt.Errorf("glyf of loca tables missing")
 		}
 
-		// skip .notdef
-		firstGlyf, _ := sfnt2.Loca.Get(1)
-		glyf2 = glyf2[firstGlyf:]
+		// skip .notdef of the other font and any data beyond the last glyph
+		endGlyf, ok1 := sfnt.Loca.Get(origNumGlyphs)
+		firstGlyf, ok2 := sfnt2.Loca.Get(1)
+		endGlyf2, ok3 := sfnt2.Loca.Get(sfnt2.NumGlyphs())
+		if !ok1 || !ok2 || !ok3 || uint32(len(glyf)) < endGlyf || endGlyf2 < firstGlyf || uint32(len(glyf2)) < endGlyf2 {
+			return fmt.Errorf("loca: bad table")
+		}
+		glyf = glyf[:endGlyf:endGlyf]
+		glyf2 = glyf2[firstGlyf:endGlyf2]
 
 		// update glyphIDs of composite glyphs and make sure not to write to glyf2
 		startGlyf := uint32(len(glyf))
@@ -66,13 +72,22 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			// +1 to skip .notdef
 			if sfnt2.Glyf.IsComposite(uint16(glyphID)) {
 				start, _ := sfnt2.Loca.Get(uint16(glyphID))
-				start += startGlyf - firstGlyf
+				end, _ := sfnt2.Loca.Get(uint16(glyphID) + 1)
+				if start < firstGlyf || endGlyf2 < end {
+					return fmt.Errorf("loca: bad table")
+				}
+				b := glyf[startGlyf+start-firstGlyf : startGlyf+end-firstGlyf]
 
 				offset := uint32(10)
 				for {
-					flags := binary.BigEndian.Uint16(glyf[start+offset:])
-					subGlyphID := binary.BigEndian.Uint16(glyf[start+offset+2:])
-					binary.BigEndian.PutUint16(glyf[start+offset+2:], origNumGlyphs+subGlyphID-1)
+					if uint32(len(b)) < offset+4 {
+						return fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+					}
+					flags := binary.BigEndian.Uint16(b[offset:])
+					subGlyphID := binary.BigEndian.Uint16(b[offset+2:])
+					if 0 < subGlyphID { // keep .notdef
+						binary.BigEndian.PutUint16(b[offset+2:], origNumGlyphs+subGlyphID-1)
+					}
 
 					length, more := glyfCompositeLength(flags)
 					if !more {
@@ -86,37 +101,36 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Glyf.data = glyf
 
 		if _, ok := sfnt.Tables["loca"]; ok {
+			// get offsets of the glyphs and the end of the last glyph
+			odd := uint32(0)
+			offsets := make([]uint32, numGlyphs+1)
+			for glyphID := range offsets {
+				if glyphID <= int(origNumGlyphs) {
+					offsets[glyphID], _ = sfnt.Loca.Get(uint16(glyphID))
+				} else {
+					// +1 to skip .notdef
+					offset, _ := sfnt2.Loca.Get(uint16(1+glyphID) - origNumGlyphs)
+					offsets[glyphID] = offset + startGlyf - firstGlyf
+				}
+				odd |= offsets[glyphID] & 1
+			}
+
 			indexToLocFormat := int16(1) // long format
-			if len(glyf) <= math.MaxUint16 {
+			if len(glyf) <= math.MaxUint16 && odd == 0 {
 				indexToLocFormat = 0 // short format
 			}
-			n := 2 * (numGlyphs + 1)
+			n := 2 * (int(numGlyphs) + 1)
 			if indexToLocFormat == 1 {
 				n *= 2
 			}
 
-			// write current offsets
-			glyphID := 0
-			w := parse.NewBinaryWriter(make([]byte, 0, n))
-			if indexToLocFormat == sfnt.Loca.Format {
-				w.WriteBytes(loca)
-				glyphID = int(origNumGlyphs)
-			} else if table, ok := sfnt.Tables["head"]; ok {
+			if table, ok := sfnt.Tables["head"]; ok && indexToLocFormat != sfnt.Loca.Format {
 				binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
 				sfnt.Head.IndexToLocFormat = indexToLocFormat
 			}
 
-			// write offsets (+1 since we do iterate over .notdef, but skip it below)
-			for ; glyphID < int(numGlyphs); glyphID++ {
-				var offset uint32
-				if glyphID < int(origNumGlyphs) {
-					offset, _ = sfnt.Loca.Get(uint16(glyphID))
-				} else {
-					// +1 to skip .notdef, +1 to get the end of the glyph
-					offset, _ = sfnt2.Loca.Get(uint16(1 + glyphID - int(origNumGlyphs) + 1))
-					offset += startGlyf - firstGlyf
-				}
-
+			w := parse.NewBinaryWriter(make([]byte, 0, n))
+			for _, offset := range offsets {
 				if indexToLocFormat == 0 {
 					// short format
 					w.WriteUint16(uint16(offset / 2))
-- 
2.43.0


From ce8cfe389473197152ea5dfac5e6abb4c993d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:43 +0000
Subject: [PATCH 037/115] fix: Merge compared the character maps of unmapped
 glyphs and modified the font on conflicts

---
 sfnt_merge.go | 81 ++++++++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 8bfdd91..5dfdba4 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -22,9 +22,49 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		return nil // sfnt2 only contains .notdef
 	}
 
-	// update maxp table
 	origNumGlyphs := sfnt.NumGlyphs()
 	numGlyphs := origNumGlyphs + sfnt2.NumGlyphs() - 1 // -1 to skip .notdef
+
+	// get the new unicode mapping, returns an error before changing the font
+	rs := make([]rune, 0, numGlyphs)
+	runeMap := make(map[rune]uint16, numGlyphs) // for OS/2
+	if _, ok := sfnt.Tables["cmap"]; ok {
+		if options.RearrangeCmap {
+			rs = append(rs, 65535) // .notdef
+			runeMap[65535] = 0
+			for glyphID := 1; glyphID < int(numGlyphs); glyphID++ {
+				r := rune(glyphID + 32) // unicode codepoints below 33 don't display in firefox
+				rs = append(rs, r)
+				runeMap[r] = uint16(glyphID)
+			}
+		} else {
+			for glyphID := 1; glyphID < int(numGlyphs); glyphID++ {
+				font, origGlyphID := sfnt, uint16(glyphID)
+				if int(origNumGlyphs) <= glyphID {
+					font, origGlyphID = sfnt2, uint16(1+glyphID)-origNumGlyphs // +1 to skip .notdef
+				}
+				if font.Cmap == nil {
+					continue
+				}
+				for _, r := range font.Cmap.ToUnicode(origGlyphID) {
+					if font.Cmap.Get(r) != origGlyphID {
+						continue // mapped to another glyph by an earlier subtable
+					}
+					if otherGlyphID, ok := runeMap[r]; ok {
+						otherFont, otherOrigGlyphID := sfnt, otherGlyphID
+						if origNumGlyphs <= otherGlyphID {
+							otherFont, otherOrigGlyphID = sfnt2, 1+otherGlyphID-origNumGlyphs
+						}
+						return fmt.Errorf("cmap: two or more glyphs have the same unicode mapping: %s(%d) and %s(%d)", font.GlyphName(origGlyphID), glyphID, otherFont.GlyphName(otherOrigGlyphID), otherGlyphID)
+					}
+					rs = append(rs, r)
+					runeMap[r] = uint16(glyphID)
+				}
+			}
+		}
+	}
+
+	// update maxp table
 	if _, ok := sfnt.Tables["maxp"]; ok {
 		sfnt.Maxp.NumGlyphs = numGlyphs
 		if !sfnt.IsCFF {
@@ -330,45 +370,6 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 	}
 
 	if _, ok := sfnt.Tables["cmap"]; ok {
-		rs := make([]rune, 0, numGlyphs)
-		runeMap := make(map[rune]uint16, numGlyphs) // for OS/2
-		if options.RearrangeCmap {
-			rs = append(rs, 65535) // .notdef
-			runeMap[65535] = 0
-			for glyphID := 1; glyphID < int(numGlyphs); glyphID++ {
-				r := rune(glyphID + 32) // unicode codepoints below 33 don't display in firefox
-				rs = append(rs, r)
-				runeMap[r] = uint16(glyphID)
-			}
-		} else {
-			for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
-				var rsGlyph []rune
-				if glyphID < int(origNumGlyphs) {
-					rsGlyph = sfnt.Cmap.ToUnicode(uint16(glyphID))
-				} else {
-					rsGlyph = sfnt2.Cmap.ToUnicode(uint16(1+glyphID) - origNumGlyphs) // +1 to skip .notdef
-				}
-				rs = append(rs, rsGlyph...)
-				for _, r := range rsGlyph {
-					if otherGlyphID, ok := runeMap[r]; ok {
-						glyphName, otherGlyphName := "", ""
-						if glyphID < int(origNumGlyphs) {
-							glyphName = sfnt.GlyphName(uint16(glyphID))
-						} else {
-							glyphName = sfnt2.GlyphName(uint16(1+glyphID) - origNumGlyphs)
-						}
-						if otherGlyphID < origNumGlyphs {
-							otherGlyphName = sfnt.GlyphName(otherGlyphID)
-						} else {
-							otherGlyphName = sfnt2.GlyphName(1 + otherGlyphID - origNumGlyphs)
-						}
-						return fmt.Errorf("cmap: two or more glyphs have the same unicode mapping: %s(%d) and %s(%d)", glyphName, glyphID, otherGlyphName, otherGlyphID)
-					}
-					runeMap[r] = uint16(glyphID)
-				}
-			}
-		}
-
 		sfnt.Tables["cmap"] = cmapWrite(rs, runeMap)
 		if err := sfnt.parseCmap(); err != nil {
 			return err
-- 
2.43.0


From 57ae497c3c82b783816f90fbb982f7e50a0fb7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:43 +0000
Subject: [PATCH 038/115] fix: Merge wrote to the data the font was parsed from

---
 sfnt_merge.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 5dfdba4..1d33600 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -165,6 +165,8 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			}
 
 			if table, ok := sfnt.Tables["head"]; ok && indexToLocFormat != sfnt.Loca.Format {
+				table = append([]byte{}, table...) // don't write to the original data
+				sfnt.Tables["head"] = table
 				binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
 				sfnt.Head.IndexToLocFormat = indexToLocFormat
 			}
@@ -364,6 +366,8 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["hmtx"] = w.Bytes()
 
 		if table, ok := sfnt.Tables["hhea"]; ok {
+			table = append([]byte{}, table...) // don't write to the original data
+			sfnt.Tables["hhea"] = table
 			binary.BigEndian.PutUint16(table[34:], numberOfHMetrics) // numberOfHMetrics
 			sfnt.Hhea.NumberOfHMetrics = numberOfHMetrics
 		}
@@ -376,7 +380,9 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
-	if table, ok := sfnt.Tables["OS/2"]; ok {
+	if table, ok := sfnt.Tables["OS/2"]; ok && sfnt2.OS2 != nil {
+		table = append([]byte{}, table...) // don't write to the original data
+		sfnt.Tables["OS/2"] = table
 		sfnt.OS2.UlUnicodeRange1 |= sfnt2.OS2.UlUnicodeRange1
 		sfnt.OS2.UlUnicodeRange2 |= sfnt2.OS2.UlUnicodeRange2
 		sfnt.OS2.UlUnicodeRange3 |= sfnt2.OS2.UlUnicodeRange3
-- 
2.43.0


From 75b4e19daa0ec4602dce5b476bdbdc92256cf779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:43 +0000
Subject: [PATCH 039/115] fix: Merge left the vertical metrics of the other
 font out, making the font invalid

---
 sfnt_merge.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 1d33600..ac661e8 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -373,6 +373,35 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
+	if _, ok := sfnt.Tables["vmtx"]; ok {
+		w := parse.NewBinaryWriter(make([]byte, 0, 4*int(numGlyphs)))
+		vmtx := &vmtxTable{VMetrics: make([]vmtxLongVerMetric, numGlyphs)}
+		for glyphID := range vmtx.VMetrics {
+			metric := &vmtx.VMetrics[glyphID]
+			if glyphID < int(origNumGlyphs) {
+				metric.AdvanceHeight = sfnt.Vmtx.Advance(uint16(glyphID))
+				metric.TopSideBearing = sfnt.Vmtx.TopSideBearing(uint16(glyphID))
+			} else {
+				// +1 to skip .notdef
+				metric.AdvanceHeight = sfnt2.GlyphVerticalAdvance(uint16(1+glyphID) - origNumGlyphs)
+				if sfnt2.Vmtx != nil {
+					metric.TopSideBearing = sfnt2.Vmtx.TopSideBearing(uint16(1+glyphID) - origNumGlyphs)
+				}
+			}
+			w.WriteUint16(metric.AdvanceHeight)
+			w.WriteInt16(metric.TopSideBearing)
+		}
+		sfnt.Vmtx = vmtx
+		sfnt.Tables["vmtx"] = w.Bytes()
+
+		if table, ok := sfnt.Tables["vhea"]; ok {
+			table = append([]byte{}, table...)                // don't write to the original data
+			binary.BigEndian.PutUint16(table[34:], numGlyphs) // numberOfVMetrics
+			sfnt.Tables["vhea"] = table
+			sfnt.Vhea.NumberOfVMetrics = numGlyphs
+		}
+	}
+
 	if _, ok := sfnt.Tables["cmap"]; ok {
 		sfnt.Tables["cmap"] = cmapWrite(rs, runeMap)
 		if err := sfnt.parseCmap(); err != nil {
-- 
2.43.0


From 5dd8ce649e7d0ee750cce7f0aa564fa2a5e2385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:49 +0000
Subject: [PATCH 040/115] fix: Merge wrote post tables with missing or wrong
 glyph names

---
 sfnt_merge.go | 53 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index ac661e8..e760696 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"math"
+	"sync"
 
 	"github.com/tdewolff/parse/v2"
 )
@@ -422,34 +423,46 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange4)
 	}
 
-	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post.NumGlyphs != 0 && sfnt2.Post.NumGlyphs != 0 {
-		if sfnt.Post.NumGlyphs == 0 {
-			// initialise the first font to zero
-			sfnt.Post.glyphNameIndex = make([]uint16, origNumGlyphs, numGlyphs)
+	if _, ok := sfnt.Tables["post"]; ok && 0 < len(sfnt.Post.glyphNameIndex) {
+		indices := make(map[string]uint16, numGlyphs)
+		for index, name := range macintoshGlyphNames {
+			indices[name] = uint16(index)
 		}
+		for i, name := range sfnt.Post.stringData {
+			if i <= math.MaxUint16-258 {
+				indices[string(name)] = uint16(258 + i)
+			}
+		}
+		indices[""] = 0 // unnamed glyphs refer to .notdef
+
+		glyphNameIndex := make([]uint16, origNumGlyphs, numGlyphs)
+		copy(glyphNameIndex, sfnt.Post.glyphNameIndex)
 		for glyphID2 := 1; glyphID2 < int(sfnt2.NumGlyphs()); glyphID2++ {
-			var index uint16
-			name := sfnt2.Post.Get(uint16(glyphID2))
-			if glyphID, ok := sfnt.Post.Find(name); ok {
-				// reuse existing names
-				index = sfnt.Post.glyphNameIndex[glyphID]
-			} else if math.MaxUint16 < len(sfnt.Post.stringData)+258 {
-				return fmt.Errorf("invalid post table: stringData has too many entries")
-			} else {
+			name := sfnt2.GlyphName(uint16(glyphID2))
+			index, ok := indices[name] // reuse existing names
+			if !ok {
+				if math.MaxUint16 < len(sfnt.Post.stringData)+258 {
+					return fmt.Errorf("invalid post table: stringData has too many entries")
+				}
 				index = uint16(len(sfnt.Post.stringData) + 258)
 				sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-				sfnt.Post.nameMap[name] = uint16(glyphID2)
+				indices[name] = index
 			}
-			sfnt.Post.glyphNameIndex = append(sfnt.Post.glyphNameIndex, index)
+			glyphNameIndex = append(glyphNameIndex, index)
 		}
+		sfnt.Post.glyphNameIndex = glyphNameIndex
+		sfnt.Post.nameMap = nil
+		sfnt.Post.once = sync.Once{} // rebuild the name map on the next lookup
 
-		if sfnt2.Post.IsFixedPitch == 0 {
-			sfnt.Post.IsFixedPitch = 0
+		if sfnt2.Post != nil {
+			if sfnt2.Post.IsFixedPitch == 0 {
+				sfnt.Post.IsFixedPitch = 0
+			}
+			sfnt.Post.MinMemType42 += sfnt2.Post.MinMemType42
+			sfnt.Post.MaxMemType42 += sfnt2.Post.MaxMemType42
+			sfnt.Post.MinMemType1 += sfnt2.Post.MinMemType1
+			sfnt.Post.MaxMemType1 += sfnt2.Post.MaxMemType1
 		}
-		sfnt.Post.MinMemType42 += sfnt2.Post.MinMemType42
-		sfnt.Post.MaxMemType42 += sfnt2.Post.MaxMemType42
-		sfnt.Post.MinMemType1 += sfnt2.Post.MinMemType1
-		sfnt.Post.MaxMemType1 += sfnt2.Post.MaxMemType1
 		sfnt.Post.NumGlyphs = numGlyphs
 
 		b, err := sfnt.Post.Write()
-- 
2.43.0


From 22d70871f4e464f6c2387c34e4c06a80b831fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 041/115] fix: count implicit vertical stem hints before
 cntrmask operators

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 378b11f..3b7b05f 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -482,7 +482,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				}
 				stack = stack[:0]
 			case cffHintmask, cffCntrmask:
-				if b0 == cffHintmask && 0 < len(stack) {
+				if 0 < len(stack) {
 					// vstem or vstemhm
 					if len(stack)%2 != 0 {
 						return fmt.Errorf("%v: %v", table, ErrBadNumOperands)
-- 
2.43.0


From 9993781453b0c7bb9a8af0ca360fac58ef6a42f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 042/115] fix: reject CFF INDEX structures with invalid offsets

---
 sfnt_cff.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 3b7b05f..191a7b7 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1214,8 +1214,14 @@ func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 	t := &cffINDEX{}
 	var count uint32
 	if !isCFF2 {
+		if r.Len() < 2 {
+			return nil, fmt.Errorf("bad data")
+		}
 		count = uint32(r.ReadUint16())
 	} else {
+		if r.Len() < 4 {
+			return nil, fmt.Errorf("bad data")
+		}
 		count = r.ReadUint32()
 	}
 	if count == 0 {
@@ -1251,9 +1257,14 @@ func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 			t.offset[i] = r.ReadUint32() - 1
 		}
 	}
-	if r.Len() < int64(t.offset[count]) {
+	if t.offset[0] != 0 || r.Len() < int64(t.offset[count]) {
 		return nil, fmt.Errorf("bad data")
 	}
+	for i := uint32(0); i < count; i++ {
+		if t.offset[i+1] < t.offset[i] {
+			return nil, fmt.Errorf("bad offsets")
+		}
+	}
 	t.data = r.ReadBytes(int64(t.offset[count]))
 	return t, nil
 }
-- 
2.43.0


From 77732ec71ea0068688092576bac5005412b1d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 043/115] fix: stop reading real numbers at the end of a CFF
 DICT

---
 sfnt_cff.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 191a7b7..9a13992 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1803,7 +1803,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 		return int(r.ReadInt32()), math.NaN()
 	} else if b0 == 30 {
 		num := []byte{}
-		for {
+		for 0 < r.Len() {
 			b := r.ReadUint8()
 			for i := 0; i < 2; i++ {
 				switch b >> 4 {
@@ -1829,6 +1829,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 				b = b << 4
 			}
 		}
+		return 0, math.NaN() // missing end nibble
 	} else if b0 == 31 {
 		// reserved
 		return 0, math.NaN()
-- 
2.43.0


From a3ff92948791df9bed48891bb1c8208d3e639eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:09 +0000
Subject: [PATCH 044/115] fix: reject truncated operands in CFF DICTs and
 charstrings

---
 sfnt_cff.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 9a13992..6518f11 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -426,6 +426,9 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 
 		b0 := int32(r.ReadUint8())
 		if 32 <= b0 || b0 == cffShortint {
+			if b0 == cffShortint && r.Len() < 2 || b0 == 255 && r.Len() < 4 {
+				return fmt.Errorf("%v: bad operand", table)
+			}
 			v := cffReadCharStringNumber(r, b0)
 			if cff.version == 1 && 48 <= len(stack) || cff.version == 2 && 513 <= len(stack) {
 				return fmt.Errorf("%v: too many operands for operator", table)
@@ -1780,6 +1783,9 @@ func parseDICT(b []byte, isCFF2 bool, callback func(b0 int, is []int, fs []float
 			if !isCFF2 && 48 <= len(ints) || isCFF2 && 513 <= len(ints) {
 				return fmt.Errorf("too many operands for operator")
 			}
+			if b0 == 28 && r.Len() < 2 || b0 == 29 && r.Len() < 4 || 247 <= b0 && r.Len() < 1 {
+				return fmt.Errorf("bad operand")
+			}
 			i, f := parseDICTNumber(b0, r)
 			if math.IsNaN(f) {
 				f = float64(i)
-- 
2.43.0


From 5dd61d296f717125d4a939507cc756b9e2e3d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:09 +0000
Subject: [PATCH 045/115] fix: reject negative and out of range offsets and
 fonts without glyphs in CFF

---
 sfnt_cff.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 6518f11..9318e4f 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -96,14 +96,21 @@ func (sfnt *SFNT) parseCFF() error {
 		return fmt.Errorf("CFF: Global Subrs INDEX: %w", err)
 	}
 
+	if topDICT.CharStrings < 0 || len(b) < topDICT.CharStrings {
+		return fmt.Errorf("CFF: bad CharStrings INDEX offset")
+	}
 	r.Seek(int64(topDICT.CharStrings), 0)
 	charStringsINDEX, err := parseINDEX(r, false)
 	if err != nil {
 		return fmt.Errorf("CFF: CharStrings INDEX: %w", err)
+	} else if charStringsINDEX.Len() == 0 {
+		return fmt.Errorf("CFF: CharStrings INDEX: no glyphs")
 	}
 
 	var charset []string
-	if topDICT.Charset < 3 {
+	if topDICT.Charset < 0 || len(b) < topDICT.Charset {
+		return fmt.Errorf("CFF: bad Charset offset")
+	} else if topDICT.Charset < 3 {
 		if topDICT.Charset != 0 {
 			// 1 is Expert and 2 is ExpertSubset predefined glyph names
 			return fmt.Errorf("CFF: Charset offset of %d not currently supported", topDICT.Charset)
@@ -166,7 +173,7 @@ func (sfnt *SFNT) parseCFF() error {
 	}
 
 	if !topDICT.IsCID {
-		if len(b) < topDICT.PrivateOffset || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
+		if topDICT.PrivateOffset < 0 || topDICT.PrivateLength < 0 || len(b) < topDICT.PrivateOffset || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
 			return fmt.Errorf("CFF: bad Private DICT offset")
 		}
 		privateDICT, err := parsePrivateDICT(b[topDICT.PrivateOffset:topDICT.PrivateOffset+topDICT.PrivateLength], false)
@@ -176,7 +183,7 @@ func (sfnt *SFNT) parseCFF() error {
 
 		localSubrsINDEX := &cffINDEX{}
 		if privateDICT.Subrs != 0 {
-			if len(b)-topDICT.PrivateOffset < privateDICT.Subrs {
+			if privateDICT.Subrs < 0 || len(b)-topDICT.PrivateOffset < privateDICT.Subrs {
 				return fmt.Errorf("CFF: bad Local Subrs INDEX offset")
 			}
 			r.Seek(int64(topDICT.PrivateOffset+privateDICT.Subrs), 0)
@@ -2032,8 +2039,10 @@ func (t *cffFontINDEX) GetLocalSubrs(glyphID uint16) *cffINDEX {
 }
 
 func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cffFontINDEX, error) {
-	if len(b) < fdArray {
+	if fdArray < 0 || len(b) < fdArray {
 		return nil, fmt.Errorf("bad Font INDEX offset")
+	} else if fdSelect < 0 || len(b) < fdSelect {
+		return nil, fmt.Errorf("bad FDSelect offset")
 	}
 
 	r := parse.NewBinaryReaderBytes(b)
@@ -2051,7 +2060,7 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		if err != nil {
 			return nil, fmt.Errorf("Font DICT: %w", err)
 		}
-		if len(b) < fontDICT.PrivateOffset || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
+		if fontDICT.PrivateOffset < 0 || fontDICT.PrivateLength < 0 || len(b) < fontDICT.PrivateOffset || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
 			return nil, fmt.Errorf("Font DICT: bad Private DICT offset")
 		}
 		privateDICT, err := parsePrivateDICT(b[fontDICT.PrivateOffset:fontDICT.PrivateOffset+fontDICT.PrivateLength], isCFF2)
@@ -2061,7 +2070,7 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		fonts.private[i] = privateDICT
 
 		if privateDICT.Subrs != 0 {
-			if len(b)-fontDICT.PrivateOffset < privateDICT.Subrs {
+			if privateDICT.Subrs < 0 || len(b)-fontDICT.PrivateOffset < privateDICT.Subrs {
 				return nil, fmt.Errorf("bad Local Subrs INDEX offset")
 			}
 			r.Seek(int64(fontDICT.PrivateOffset+privateDICT.Subrs), 0)
-- 
2.43.0


From 523af77e05da592a34ee3781b76aed53613fbfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:09 +0000
Subject: [PATCH 046/115] fix: validate the FDSelect structure of CID-keyed CFF
 fonts

---
 sfnt_cff.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 9318e4f..81851a0 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2014,9 +2014,6 @@ func (t *cffFontINDEX) Index(glyphID uint32) (uint16, bool) {
 	for t.first[i+1] <= glyphID {
 		i++
 	}
-	if len(t.fd) < i {
-		return 0, false
-	}
 	return t.fd[i], true
 }
 
@@ -2078,7 +2075,9 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 			if err != nil {
 				return nil, fmt.Errorf("Local Subrs INDEX: %w", err)
 			}
-		} else if isCFF2 {
+		} else if !isCFF2 {
+			fonts.localSubrs[i] = &cffINDEX{}
+		} else {
 			return nil, fmt.Errorf("Private DICT must have Local Subrs INDEX offset")
 		}
 	}
@@ -2086,17 +2085,32 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 	r.Seek(int64(fdSelect), 0)
 	format := r.ReadUint8()
 	if format == 0 {
+		if r.Len() < int64(nGlyphs) {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
 		fonts.fds = make([]uint8, nGlyphs)
 		for i := 0; i < nGlyphs; i++ {
 			fonts.fds[i] = r.ReadUint8()
+			if fontINDEX.Len() <= int(fonts.fds[i]) {
+				return nil, fmt.Errorf("FDSelect: bad font index")
+			}
 		}
 	} else if format == 3 {
-		nRanges := r.ReadUint16()
+		if r.Len() < 2 {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
+		nRanges := int(r.ReadUint16())
+		if r.Len() < 3*int64(nRanges)+2 {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
 		fonts.first = make([]uint32, nRanges+1)
 		fonts.fd = make([]uint16, nRanges)
-		for i := 0; i < int(nRanges); i++ {
+		for i := 0; i < nRanges; i++ {
 			fonts.first[i] = uint32(r.ReadUint16())
 			fonts.fd[i] = uint16(r.ReadUint8())
+			if fontINDEX.Len() <= int(fonts.fd[i]) {
+				return nil, fmt.Errorf("FDSelect: bad font index")
+			}
 		}
 		fonts.first[nRanges] = uint32(r.ReadUint16())
 	} else if isCFF2 && format == 4 {
-- 
2.43.0


From 5ebe6d24dff9c7fb82264dc8758e1c05e07faf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:52 +0000
Subject: [PATCH 047/115] fix: bounds of CFF glyphs always included the origin
 and cut negative fractions

---
 sfnt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 59e5d93..46aa62a 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -212,9 +212,9 @@ func (sfnt *SFNT) GlyphBounds(glyphID uint16) (int16, int16, int16, int16) {
 			return contour.XMin, contour.YMin, contour.XMax, contour.YMax
 		}
 	} else if sfnt.IsCFF {
-		p := &bboxPather{}
-		if err := sfnt.CFF.ToPath(p, glyphID, 0, 0, 0, 1.0, NoHinting); err == nil {
-			return int16(p.XMin), int16(p.YMin), int16(math.Ceil(p.XMax)), int16(math.Ceil(p.YMax))
+		p := &bboxPather{math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1)}
+		if err := sfnt.CFF.ToPath(p, glyphID, 0, 0, 0, 1.0, NoHinting); err == nil && p.XMin <= p.XMax {
+			return int16(math.Floor(p.XMin)), int16(math.Floor(p.YMin)), int16(math.Ceil(p.XMax)), int16(math.Ceil(p.YMax))
 		}
 	}
 	return 0, 0, 0, 0
-- 
2.43.0


From 8477a7d2d2646ce4778e81741fa9678719a3db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:45 +0000
Subject: [PATCH 048/115] fix: ParseEmbeddedSFNT rejected every CFF font

---
 sfnt.go        | 33 ++++++++++++++++++++++-----------
 sfnt_subset.go |  2 +-
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 46aa62a..3a54f4a 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -141,6 +141,10 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	// see https://learn.microsoft.com/en-us/typography/opentype/spec/recom#baseline-to-baseline-distances
 	var ascender, descender, lineGap uint16
+	if sfnt.Hhea == nil {
+		// not required for embedded CFF fonts
+		return ascender, descender, lineGap
+	}
 	if 0 < sfnt.Hhea.Ascender {
 		ascender = uint16(sfnt.Hhea.Ascender)
 	}
@@ -193,13 +197,17 @@ func (sfnt *SFNT) GlyphPath(p Pather, glyphID, ppem uint16, x, y, scale float64,
 
 // GlyphAdvance returns the (horizontal) advance width of the glyph.
 func (sfnt *SFNT) GlyphAdvance(glyphID uint16) uint16 {
+	if sfnt.Hmtx == nil {
+		// not required for embedded CFF fonts
+		return 0
+	}
 	return sfnt.Hmtx.Advance(glyphID)
 }
 
 // GlyphVerticalAdvance returns the vertical advance width of the glyph.
 func (sfnt *SFNT) GlyphVerticalAdvance(glyphID uint16) uint16 {
 	if sfnt.Vmtx == nil {
-		return sfnt.Head.UnitsPerEm
+		return sfnt.UnitsPerEm()
 	}
 	return sfnt.Vmtx.Advance(glyphID)
 }
@@ -408,20 +416,23 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		}
 	}
 
-	if embedded && sfnt.IsCFF {
-		if err := sfnt.parseCFF(); err != nil {
-			return nil, err
-		} else if err := sfnt.parseCmap(); err != nil {
+	// required tables before parsing other tables, these are optional for embedded CFF fonts
+	if _, ok := tables["head"]; ok || !embedded || !sfnt.IsCFF {
+		if err := sfnt.parseHead(); err != nil {
 			return nil, err
 		}
-		return sfnt, nil
 	}
-
-	// required tables before parsing other tables
-	if err := sfnt.parseHead(); err != nil {
-		return nil, err
-	} else if err := sfnt.parseMaxp(); err != nil {
+	if _, ok := tables["maxp"]; ok || !embedded || !sfnt.IsCFF {
+		if err := sfnt.parseMaxp(); err != nil {
+			return nil, err
+		}
+	} else if err := sfnt.parseCFF(); err != nil {
 		return nil, err
+	} else {
+		sfnt.Maxp = &maxpTable{
+			Version:   0x00005000,
+			NumGlyphs: uint16(sfnt.CFF.charStrings.Len()),
+		}
 	}
 	if sfnt.IsTrueType {
 		if err := sfnt.parseLoca(); err != nil {
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 1a85dc2..9671ec9 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -107,7 +107,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	glyfOffsets := make([]uint32, len(glyphIDs)+1) // for loca
 	advances := make([]uint16, len(glyphIDs))      // for hhea and hmtx
 	for subsetGlyphID, glyphID := range glyphIDs {
-		advances[subsetGlyphID] = sfnt.Hmtx.Advance(glyphID)
+		advances[subsetGlyphID] = sfnt.GlyphAdvance(glyphID)
 	}
 	rs := make([]rune, 0, len(glyphIDs))            // for cmap and OS/2
 	runeMap := make(map[rune]uint16, len(glyphIDs)) // for cmap
-- 
2.43.0


From a71bc37950b980d120583ca0251fc63910aed8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:13 +0000
Subject: [PATCH 049/115] fix: renumber CFF subroutine calls when the bias
 changes or the index is not minimally encoded

---
 sfnt_cff.go | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 81851a0..3e21eaa 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -402,7 +402,8 @@ func (cff *cffTable) getSubroutine(glyphID uint16, b0 int32, stack int32) (int32
 	return index, subr, nil
 }
 
-func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int32, []int32) error) error {
+// parseCharString calls the callback for each operator with the operator, its operands, and the position of the operand that directly precedes the operator in the same (sub)charstring, which is -1 if there is none.
+func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int32, []int32, int64) error) error {
 	table := "CFF"
 	if cff.version == 2 {
 		table = "CFF2"
@@ -421,6 +422,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 	hints := 0
 	stack := []int32{}
 	beforeMoveto := true
+	posNumber := int64(-1)
 	for {
 		if cff.version == 2 && r.Len() == 0 && 0 < len(callStack) {
 			// end of subroutine
@@ -431,6 +433,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 			break
 		}
 
+		pos := r.Pos()
 		b0 := int32(r.ReadUint8())
 		if 32 <= b0 || b0 == cffShortint {
 			if b0 == cffShortint && r.Len() < 2 || b0 == 255 && r.Len() < 4 {
@@ -441,6 +444,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				return fmt.Errorf("%v: too many operands for operator", table)
 			}
 			stack = append(stack, v)
+			posNumber = pos
 		} else {
 			if b0 == cffEscape {
 				b0 = 256 + int32(r.ReadUint8())
@@ -467,9 +471,10 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				return fmt.Errorf("%v: unexpected operator %d after moveto", table, b0)
 			}
 
-			if err := cb(r, b0, stack); err != nil {
+			if err := cb(r, b0, stack, posNumber); err != nil {
 				return fmt.Errorf("%v: %v", table, err)
 			}
+			posNumber = -1
 
 			// handle hint and subroutine operators, clear stack for most operators
 			switch b0 {
@@ -565,7 +570,7 @@ func (cff *cffTable) ToPath(p Pather, glyphID, ppem uint16, x0, y0, f float64, h
 	var x, y int32
 	f /= float64(1 << 16) // correct back
 
-	err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32) error {
+	err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32, _ int64) error {
 		switch b0 {
 		case cffRmoveto:
 			if len(stack) != 2 {
@@ -895,7 +900,7 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 		skipDepth := 0
 		indexStack = append(indexStack[:0], cff.charStrings)
 		offsetStack = append(offsetStack[:0], cff.charStrings.offset[glyphID])
-		err := cff.parseCharString(glyphID, func(r *parse.BinaryReader, b0 int32, stack []int32) error {
+		err := cff.parseCharString(glyphID, func(r *parse.BinaryReader, b0 int32, stack []int32, posNumber int64) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if len(stack) == 0 {
 					return ErrBadNumOperands
@@ -907,34 +912,28 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 					return err
 				}
 
-				mapped := false
-				var oldBias int32
-				var newIndex, newBias int32
+				newIndex := oldIndex
+				oldBias, newBias := oldLocalSubrsBias, localSubrsBias
 				if b0 == cffCallsubr {
 					if v, ok := localSubrsMap[oldIndex]; ok {
-						oldBias = oldLocalSubrsBias
 						newIndex = v
-						newBias = localSubrsBias
-						mapped = true
 					}
 				} else {
+					oldBias, newBias = oldGlobalSubrsBias, globalSubrsBias
 					if v, ok := globalSubrsMap[oldIndex]; ok {
-						oldBias = oldGlobalSubrsBias
 						newIndex = v
-						newBias = globalSubrsBias
-						mapped = true
 					}
 				}
 
-				if skipDepth == 0 && mapped && oldIndex != newIndex {
-					lenNumber := uint32(cffNumberSize(int(oldIndex - oldBias)))
-					posNumber := uint32(r.Pos()) - 1 - lenNumber // -1 as we're past the operator
-
+				if skipDepth == 0 && oldIndex-oldBias != newIndex-newBias {
+					if posNumber < 0 {
+						return fmt.Errorf("subroutine index must directly precede operator")
+					}
 					index := indexStack[len(indexStack)-1]
 					offset := offsetStack[len(offsetStack)-1]
 					indexChanges[index] = append(indexChanges[index], cffSubrIndexChange{
-						start: offset + posNumber,
-						end:   offset + posNumber + lenNumber,
+						start: offset + uint32(posNumber),
+						end:   offset + uint32(r.Pos()) - 1, // -1 as we're past the operator
 						index: newIndex - newBias,
 					})
 				}
@@ -1062,7 +1061,7 @@ func (cff *cffTable) ReindexSubrs() error {
 	globalSubrsData := map[int32][]byte{}
 	globalSubrsCount := map[int32]int{}
 	for glyphID := uint16(0); glyphID < numGlyphs; glyphID++ {
-		err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32) error {
+		err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32, _ int64) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if 0 < skipDepth {
 					// don't process subroutines twice
-- 
2.43.0


From 2a1ad9cce22f5c1e01892c177f4f2363c4002e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:43 +0000
Subject: [PATCH 050/115] fix: glyph range of the font of a CFF subset

---
 sfnt_subset.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 9671ec9..0c13eb2 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -199,6 +199,15 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				cff.charset = charset
 			}
 
+			// don't share with the original font, which may have less or more glyphs
+			fonts := *cff.fonts
+			if len(fonts.private) == 1 {
+				fonts.fds = nil
+				fonts.first = []uint32{0, uint32(len(glyphIDs))}
+				fonts.fd = []uint16{0}
+			}
+			cff.fonts = &fonts
+
 			// trim globalSubrs and localSubrs INDEX
 			if err := cff.ReindexSubrs(); err != nil {
 				return nil, err
-- 
2.43.0


From 54a9d08da873aef5af5b6e6d0f23a27b6d2cc81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 051/115] fix: Merge of CFF fonts miscounted subroutines and
 changed the other font

---
 sfnt_cff.go   |  3 +--
 sfnt_merge.go | 60 +++++++++++++++++++++++++--------------------------
 2 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 3e21eaa..c16f9e8 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1205,8 +1205,7 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 	if o == nil || len(o.offset) < 2 {
 		return
 	} else if len(t.offset) < 2 {
-		t.offset = o.offset
-		t.data = o.data
+		*t = *o.Copy()
 		return
 	}
 
diff --git a/sfnt_merge.go b/sfnt_merge.go
index e760696..2e51dd7 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -220,39 +220,34 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			}
 		}
 	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
-		// find new number of subroutines, which may change the index encoding / bias
-		localSubrsLen, globalSubrsLen := 0, 0 // new length
+		// find new subroutines (don't change those of either font), of which the new number may
+		// change the index encoding / bias
 		localSubrs, localSubrs2 := &cffINDEX{}, &cffINDEX{}
-		globalSubrs, globalSubrs2 := &cffINDEX{}, &cffINDEX{}
-		if 0 < len(sfnt.CFF.fonts.localSubrs) && 0 < sfnt.CFF.fonts.localSubrs[0].Len() {
-			localSubrs = sfnt.CFF.fonts.localSubrs[0]
-			localSubrsLen += sfnt.CFF.fonts.localSubrs[0].Len()
+		if 0 < len(sfnt.CFF.fonts.localSubrs) {
+			localSubrs = sfnt.CFF.fonts.localSubrs[0].Copy()
 		}
-		if 0 < len(sfnt2.CFF.fonts.localSubrs) && 0 < sfnt2.CFF.fonts.localSubrs[0].Len() {
+		if 0 < len(sfnt2.CFF.fonts.localSubrs) {
 			localSubrs2 = sfnt2.CFF.fonts.localSubrs[0]
-			localSubrsLen += sfnt2.CFF.fonts.localSubrs[0].Len()
-		}
-		if 0 < sfnt.CFF.globalSubrs.Len() {
-			globalSubrs = sfnt.CFF.globalSubrs
-			globalSubrsLen += sfnt.CFF.globalSubrs.Len()
-		}
-		if 0 < sfnt2.CFF.globalSubrs.Len() {
-			globalSubrs2 = sfnt2.CFF.globalSubrs
-			globalSubrsLen += sfnt2.CFF.globalSubrs.Len()
 		}
+		globalSubrs, globalSubrs2 := sfnt.CFF.globalSubrs.Copy(), sfnt2.CFF.globalSubrs
+		localSubrsLen, globalSubrsLen := localSubrs.Len(), globalSubrs.Len() // old length
+		localSubrs.Extend(localSubrs2)
+		globalSubrs.Extend(globalSubrs2)
+		localSubrsBias := cffCharStringSubrsBias(localSubrs.Len())
+		globalSubrsBias := cffCharStringSubrsBias(globalSubrs.Len())
 
 		// update index encoding (identity mapping) for the original glyphs
 		var localSubrsMap map[int32]int32  // old to new index
 		var globalSubrsMap map[int32]int32 // old to new index
-		if cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs.Len()) {
-			localSubrsMap = make(map[int32]int32, localSubrs.Len())
-			for i := 0; i < localSubrs.Len(); i++ {
+		if localSubrsBias != cffCharStringSubrsBias(localSubrsLen) {
+			localSubrsMap = make(map[int32]int32, localSubrsLen)
+			for i := 0; i < localSubrsLen; i++ {
 				localSubrsMap[int32(i)] = int32(i)
 			}
 		}
-		if cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs.Len()) {
-			globalSubrsMap = make(map[int32]int32, globalSubrs.Len())
-			for i := 0; i < globalSubrs.Len(); i++ {
+		if globalSubrsBias != cffCharStringSubrsBias(globalSubrsLen) {
+			globalSubrsMap = make(map[int32]int32, globalSubrsLen)
+			for i := 0; i < globalSubrsLen; i++ {
 				globalSubrsMap[int32(i)] = int32(i)
 			}
 		}
@@ -263,15 +258,15 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		// update indices and index encoding for the merging glyphs
 		var localSubrsMap2 map[int32]int32  // old to new index
 		var globalSubrsMap2 map[int32]int32 // old to new index
-		if 0 < localSubrs.Len() || cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs2.Len()) {
-			offset := localSubrs.Len()
+		if 0 < localSubrsLen || localSubrsBias != cffCharStringSubrsBias(localSubrs2.Len()) {
+			offset := localSubrsLen
 			localSubrsMap2 = make(map[int32]int32, localSubrs2.Len())
 			for i := 0; i < localSubrs2.Len(); i++ {
 				localSubrsMap2[int32(i)] = int32(offset + i)
 			}
 		}
-		if 0 < globalSubrs.Len() || cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs2.Len()) {
-			offset := globalSubrs.Len()
+		if 0 < globalSubrsLen || globalSubrsBias != cffCharStringSubrsBias(globalSubrs2.Len()) {
+			offset := globalSubrsLen
 			globalSubrsMap2 = make(map[int32]int32, globalSubrs2.Len())
 			for i := 0; i < globalSubrs2.Len(); i++ {
 				globalSubrsMap2[int32(i)] = int32(offset + i)
@@ -295,22 +290,25 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 
 		// update subroutine indices for merging font
-		localSubrs.Extend(localSubrs2)
-		globalSubrs.Extend(globalSubrs2)
 		if err := cff2.updateSubrs(localSubrsMap2, globalSubrsMap2, localSubrs, globalSubrs); err != nil {
 			return err
 		}
 
 		// merge charStrings
+		origNumCharStrings := sfnt.CFF.charStrings.Len()
 		sfnt.CFF.charStrings.Extend(cff2.charStrings)
 		sfnt.CFF.globalSubrs = globalSubrs
-		sfnt.CFF.fonts.localSubrs = []*cffINDEX{localSubrs}
+		sfnt.CFF.fonts = &cffFontINDEX{
+			private:    sfnt.CFF.fonts.private,
+			localSubrs: []*cffINDEX{localSubrs},
+			first:      []uint32{0, uint32(sfnt.CFF.charStrings.Len())},
+			fd:         []uint16{0},
+		}
 
 		// update charset
 		if sfnt2.CFF.charset != nil {
 			if sfnt.CFF.charset == nil {
-				numGlyphs := sfnt.CFF.charStrings.Len()
-				for i := 0; i < numGlyphs; i++ {
+				for i := 0; i < origNumCharStrings; i++ {
 					sfnt.CFF.charset = append(sfnt.CFF.charset, "")
 				}
 			}
-- 
2.43.0


From f9a6db3e84e01e34134f3812bff51c4506474b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:32 +0000
Subject: [PATCH 052/115] fix: reading of the last font in a collection and out
 of range font offsets

---
 sfnt.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 3a54f4a..1f2d996 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -310,7 +310,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		}
 
 		numFonts := r.ReadUint32()
-		if index < 0 || numFonts <= uint32(index) {
+		if index < 0 || uint64(numFonts) <= uint64(index) {
 			return nil, fmt.Errorf("bad font index %d", index)
 		}
 		if r.Len() < 4*int64(numFonts) {
@@ -319,13 +319,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 
 		_ = r.ReadBytes(int64(4 * index))
 		offset := r.ReadUint32()
-		var length uint32
-		if uint32(index)+1 == numFonts {
-			length = uint32(len(b)) - offset
-		} else {
-			length = r.ReadUint32() - offset
-		}
-		if uint32(len(b))-8 < offset || uint32(len(b))-8-offset < length {
+		if uint32(len(b))-12 < offset {
 			return nil, ErrInvalidFontData
 		}
 
-- 
2.43.0


From cf5af4476ec5023572671a557b9563886ccd238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:32 +0000
Subject: [PATCH 053/115] fix: reject maxp tables that are too short

---
 sfnt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index 1f2d996..3e7200d 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -871,6 +871,8 @@ func (sfnt *SFNT) parseMaxp() error {
 	b, ok := sfnt.Tables["maxp"]
 	if !ok {
 		return fmt.Errorf("maxp: missing table")
+	} else if len(b) < 6 {
+		return fmt.Errorf("maxp: bad table")
 	}
 
 	sfnt.Maxp = &maxpTable{}
-- 
2.43.0


From 86a52ce7781a358d32e4cf056fda4365849f3388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:59 +0000
Subject: [PATCH 054/115] fix: kern subtables with lengths past the table or
 wrapping 16 bits

---
 sfnt_truetype.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index ddfdbcc..d8b44e8 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -593,6 +593,8 @@ func (sfnt *SFNT) parseKern() error {
 	majorVersion := r.ReadUint16()
 	if majorVersion != 0 && majorVersion != 1 {
 		return fmt.Errorf("kern: bad version %d", majorVersion)
+	} else if majorVersion == 1 && len(b) < 8 {
+		return fmt.Errorf("kern: bad table")
 	}
 
 	var nTables uint32
@@ -632,18 +634,13 @@ func (sfnt *SFNT) parseKern() error {
 		_ = r.ReadUint16() // searchRange
 		_ = r.ReadUint16() // entrySelector
 		_ = r.ReadUint16() // rangeShift
-		if int64(length) < 14+6*int64(nPairs) || r.Len() < int64(length) {
-			if j+1 == int(nTables) {
-				// for some fonts the subtable's length exceeds what can fit in a uint16
-				// we allow only the last subtable to exceed as long as it stays within the table
-				pairsLength := 6 * int64(nPairs)
-				pairsLength &= 0xFFFF
-				if int64(length) != 14+pairsLength || r.Len() < pairsLength {
-					return fmt.Errorf("kern: bad length for subtable %d", j)
-				}
-			} else {
-				return fmt.Errorf("kern: bad length for subtable %d", j)
-			}
+		pairsLength := 6 * int64(nPairs)
+		if r.Len() < pairsLength || r.Len() < int64(length)-14 {
+			return fmt.Errorf("kern: bad length for subtable %d", j)
+		} else if int64(length) < 14+pairsLength && (j+1 != int(nTables) || length != uint16(14+pairsLength)) {
+			// for some fonts the subtable's length exceeds what can fit in a uint16
+			// we allow only the last subtable to exceed as long as it stays within the table
+			return fmt.Errorf("kern: bad length for subtable %d", j)
 		}
 
 		sorted := true
@@ -663,7 +660,9 @@ func (sfnt *SFNT) parseKern() error {
 		}
 
 		// read unread bytes if length is bigger
-		_ = r.ReadBytes(int64(length) - (r.Pos() - startPos))
+		if unread := int64(length) - (r.Pos() - startPos); 0 < unread {
+			_ = r.ReadBytes(unread)
+		}
 		sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, subtable)
 	}
 	return nil
-- 
2.43.0


From bb80b92603ec2daad66b1e86210eb52250f4a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:30 +0000
Subject: [PATCH 055/115] fix: name tables of 64 kB and longer

---
 sfnt.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 3e7200d..53e4885 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -991,7 +991,7 @@ func (sfnt *SFNT) parseName() error {
 	}
 	count := r.ReadUint16()
 	storageOffset := r.ReadUint16()
-	if uint32(len(b)) < 6+12*uint32(count) || uint16(len(b)) < storageOffset {
+	if uint32(len(b)) < 6+12*uint32(count) || uint32(len(b)) < uint32(storageOffset) {
 		return fmt.Errorf("name: bad table")
 	}
 	sfnt.Name.NameRecord = make([]nameRecord, count)
@@ -1003,10 +1003,11 @@ func (sfnt *SFNT) parseName() error {
 
 		length := r.ReadUint16()
 		offset := r.ReadUint16()
-		if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+		start := uint32(storageOffset) + uint32(offset)
+		if uint32(len(b)) < start || uint32(len(b))-start < uint32(length) {
 			return fmt.Errorf("name: bad table")
 		}
-		sfnt.Name.NameRecord[i].Value = b[storageOffset+offset : storageOffset+offset+length]
+		sfnt.Name.NameRecord[i].Value = b[start : start+uint32(length)]
 	}
 	if version == 1 {
 		if uint32(len(b)) < 6+12*uint32(count)+2 {
@@ -1020,10 +1021,11 @@ func (sfnt *SFNT) parseName() error {
 		for i := 0; i < int(langTagCount); i++ {
 			length := r.ReadUint16()
 			offset := r.ReadUint16()
-			if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+			start := uint32(storageOffset) + uint32(offset)
+			if uint32(len(b)) < start || uint32(len(b))-start < uint32(length) {
 				return fmt.Errorf("name: bad table")
 			}
-			sfnt.Name.LangTag[i].Value = b[storageOffset+offset : storageOffset+offset+length]
+			sfnt.Name.LangTag[i].Value = b[start : start+uint32(length)]
 		}
 	}
 	if r.Pos() != int64(storageOffset) {
-- 
2.43.0


From 22a5943440037fb2942235fae25e054c812ee7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:07 +0000
Subject: [PATCH 056/115] fix: negative string identifiers in CFF DICTs

---
 sfnt_cff.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index c16f9e8..5d81ff9 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1164,7 +1164,9 @@ func (t *cffINDEX) Get(i uint16) []byte {
 
 func (t *cffINDEX) GetSID(sid int) string {
 	// only for String INDEX
-	if sid < len(cffStandardStrings) {
+	if sid < 0 {
+		return ""
+	} else if sid < len(cffStandardStrings) {
 		return cffStandardStrings[sid]
 	}
 	sid -= len(cffStandardStrings)
-- 
2.43.0


From 553f511ba355a94c4e2a54fec2da95181e1e913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:04 +0000
Subject: [PATCH 057/115] fix: reject truncated CFF charsets of format 2

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 5d81ff9..5e7abed 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -139,7 +139,7 @@ func (sfnt *SFNT) parseCFF() error {
 			}
 		case 1, 2:
 			for i := 1; i < numGlyphs; i++ {
-				if r.Len() < 3 {
+				if r.Len() < 2+int64(format) {
 					return fmt.Errorf("CFF: bad Charset format %d", format)
 				}
 				first := int(r.ReadUint16())
-- 
2.43.0


From 5de0e9e39d0126a0ee0e7fb3eedda3fa838cf445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 058/115] fix: CFF charstrings with a hmoveto or vmoveto
 without operands

---
 sfnt_cff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 5e7abed..8d71809 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -458,6 +458,9 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 						hasWidth = !hasWidth
 					}
 					if hasWidth {
+						if len(stack) == 0 {
+							return fmt.Errorf("%v: %v", table, ErrBadNumOperands)
+						}
 						stack = stack[1:]
 					}
 					if b0 == cffRmoveto || b0 == cffHmoveto || b0 == cffVmoveto {
-- 
2.43.0


From ecda947f3a2da23766bab92452c589f0807e072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:31 +0000
Subject: [PATCH 059/115] fix: EOT files that end with the font data or in the
 middle of a header field

---
 eot.go | 58 ++++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/eot.go b/eot.go
index 0b4e65f..520d808 100644
--- a/eot.go
+++ b/eot.go
@@ -3,13 +3,16 @@ package font
 import (
 	"encoding/binary"
 	"fmt"
-	"io"
 
 	"github.com/tdewolff/parse/v2"
 )
 
 // ParseEOT parses the EOT font format and returns its contained SFNT font format (TTF or OTF). See https://www.w3.org/Submission/EOT/
 func ParseEOT(b []byte) ([]byte, error) {
+	if len(b) < 84 {
+		return nil, ErrInvalidFontData
+	}
+
 	r := parse.NewBinaryReaderBytes(b)
 	r.ByteOrder = binary.LittleEndian
 	_ = r.ReadUint32()             // EOTSize
@@ -33,41 +36,68 @@ func ParseEOT(b []byte) ([]byte, error) {
 	_ = r.ReadBytes(16) // Reserved
 	_ = r.ReadUint16()  // Padding1
 
-	familyNameSize := r.ReadUint16()       // FamilyNameSize
+	familyNameSize := r.ReadUint16() // FamilyNameSize
+	if r.Len() < int64(familyNameSize)+4 {
+		return nil, ErrInvalidFontData
+	}
 	_ = r.ReadBytes(int64(familyNameSize)) // FamilyName
 	_ = r.ReadUint16()                     // Padding2
 
-	styleNameSize := r.ReadUint16()       // StyleNameSize
+	styleNameSize := r.ReadUint16() // StyleNameSize
+	if r.Len() < int64(styleNameSize)+4 {
+		return nil, ErrInvalidFontData
+	}
 	_ = r.ReadBytes(int64(styleNameSize)) // Stylename
 	_ = r.ReadUint16()                    // Padding3
 
-	versionNameSize := r.ReadUint16()       // VersionNameSize
+	versionNameSize := r.ReadUint16() // VersionNameSize
+	if r.Len() < int64(versionNameSize)+4 {
+		return nil, ErrInvalidFontData
+	}
 	_ = r.ReadBytes(int64(versionNameSize)) // VersionName
 	_ = r.ReadUint16()                      // Padding4
 
-	fullNameSize := r.ReadUint16()       // FullNameSize
+	fullNameSize := r.ReadUint16() // FullNameSize
+	if r.Len() < int64(fullNameSize) {
+		return nil, ErrInvalidFontData
+	}
 	_ = r.ReadBytes(int64(fullNameSize)) // FullName
 
 	if version == 0x00020001 || version == 0x00020002 {
-		_ = r.ReadUint16()                     // Padding5
-		rootStringSize := r.ReadUint16()       // RootStringSize
+		if r.Len() < 4 {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadUint16()               // Padding5
+		rootStringSize := r.ReadUint16() // RootStringSize
+		if r.Len() < int64(rootStringSize) {
+			return nil, ErrInvalidFontData
+		}
 		_ = r.ReadBytes(int64(rootStringSize)) // RootString
 	}
 	if version == 0x00020002 {
-		_ = r.ReadUint32()                    // RootStringCheckSum
-		_ = r.ReadUint32()                    // EUDCCodePage
-		_ = r.ReadUint16()                    // Padding6
-		signatureSize := r.ReadUint16()       // SignatureSize
+		if r.Len() < 12 {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadUint32()              // RootStringCheckSum
+		_ = r.ReadUint32()              // EUDCCodePage
+		_ = r.ReadUint16()              // Padding6
+		signatureSize := r.ReadUint16() // SignatureSize
+		if r.Len() < int64(signatureSize)+8 {
+			return nil, ErrInvalidFontData
+		}
 		_ = r.ReadBytes(int64(signatureSize)) // Signature
 		_ = r.ReadUint32()                    // EUDCFlags
 		eudcFontSize := r.ReadUint32()        // EUDCFontSize
-		_ = r.ReadBytes(int64(eudcFontSize))  // EUDCFontData
+		if r.Len() < int64(eudcFontSize) {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadBytes(int64(eudcFontSize)) // EUDCFontData
 	}
 
-	fontData := r.ReadBytes(int64(fontDataSize))
-	if r.Err() == io.EOF {
+	if r.Len() < int64(fontDataSize) {
 		return nil, ErrInvalidFontData
 	}
+	fontData := r.ReadBytes(int64(fontDataSize))
 
 	isCompressed := (flags & 0x00000004) != 0
 	isXORed := (flags & 0x10000000) != 0
-- 
2.43.0


From 57a40608db4677c1825f82589a825bf5c0f8109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:31 +0000
Subject: [PATCH 060/115] fix: ParseEOT decrypted the bytes of the caller in
 place

---
 eot.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eot.go b/eot.go
index 520d808..a357fcb 100644
--- a/eot.go
+++ b/eot.go
@@ -103,6 +103,7 @@ func ParseEOT(b []byte) ([]byte, error) {
 	isXORed := (flags & 0x10000000) != 0
 
 	if isXORed {
+		fontData = append([]byte(nil), fontData...) // keep the input intact
 		for i := 0; i < len(fontData); i++ {
 			fontData[i] ^= 0x50
 		}
-- 
2.43.0


From 10bdec8dfe5bae3c976923e4181d2a74886d659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:31 +0000
Subject: [PATCH 061/115] fix: WOFF tables longer than the file and directories
 of 32768 tables or more

---
 woff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/woff.go b/woff.go
index 865f3a8..05d4c4e 100644
--- a/woff.go
+++ b/woff.go
@@ -96,7 +96,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 		compLength := r.ReadUint32()
 		origLength := r.ReadUint32()
 		origChecksum := r.ReadUint32()
-		if length-compLength < offset {
+		if length < compLength || length-compLength < offset {
 			return nil, fmt.Errorf("table extends beyond file size")
 		} else if origLength < compLength {
 			return nil, fmt.Errorf("compressed table size is larger than decompressed size")
@@ -131,7 +131,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if uint32(searchRange)*2 > uint32(numTables) {
 			break
 		}
 		searchRange *= 2
-- 
2.43.0


From 30c9f1dea275330c296125245160050606d6e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:31 +0000
Subject: [PATCH 062/115] fix: ParseWOFF cleared the checksum adjustment in the
 bytes of the caller

---
 woff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/woff.go b/woff.go
index 05d4c4e..e4f0f4a 100644
--- a/woff.go
+++ b/woff.go
@@ -198,6 +198,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			checksumAdjustmentPos = uint32(w.Len()) + 8
 
 			// to check checksum for head table, replace the overal checksum with zero and reset it at the end
+			data = append([]byte(nil), data...) // keep the input intact
 			binary.BigEndian.PutUint32(data[8:], 0x00000000)
 		}
 		if calcChecksum(data) != table.origChecksum {
-- 
2.43.0


From 37e25f506e02e06ac4fbdc19c05932928737c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:31 +0000
Subject: [PATCH 063/115] fix: stop decompressing WOFF tables beyond their
 length

---
 woff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff.go b/woff.go
index e4f0f4a..7a646ce 100644
--- a/woff.go
+++ b/woff.go
@@ -171,7 +171,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			if err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
-			if _, err = io.Copy(&buf, r); err != nil {
+			if _, err = io.Copy(&buf, io.LimitReader(r, int64(table.origLength)+1)); err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
 			if err = r.Close(); err != nil {
-- 
2.43.0


From 51b964cba1b7bc81f9c900870eccc7d8f80c3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 064/115] fix: WOFF files with empty tables were rejected as
 overlapping

---
 woff.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/woff.go b/woff.go
index 7a646ce..e570d44 100644
--- a/woff.go
+++ b/woff.go
@@ -117,7 +117,9 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			origLength:   origLength,
 			origChecksum: origChecksum,
 		})
-		tablePos.Add(offset, compLength)
+		if 0 < compLength {
+			tablePos.Add(offset, compLength)
+		}
 	}
 
 	if totalSfntSize != sfntOffset {
-- 
2.43.0


From a829ba8152ca57046a7e40f9cd1192c2badf1d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 065/115] fix: WOFF2 directories of 32768 tables or more

---
 woff2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index 2bf4e17..62210be 100644
--- a/woff2.go
+++ b/woff2.go
@@ -268,7 +268,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if uint32(searchRange)*2 > uint32(numTables) {
 			break
 		}
 		searchRange *= 2
-- 
2.43.0


From 4f489c2d868d2519af4f4440e7e29ce725847b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 066/115] fix: WOFF2 files that end with the compressed data or
 in the middle of a table tag

---
 woff2.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/woff2.go b/woff2.go
index 62210be..bc6a7dc 100644
--- a/woff2.go
+++ b/woff2.go
@@ -99,6 +99,9 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 
 		var tag string
 		if tagIndex == 63 {
+			if r.Len() < 4 {
+				return nil, ErrInvalidFontData
+			}
 			tag = uint32ToString(r.ReadUint32())
 		} else {
 			tag = woff2TableTags[tagIndex]
@@ -163,10 +166,11 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	// TODO: (WOFF2) parse collection directory format
 
 	// decompress font data using Brotli
-	compData := r.ReadBytes(int64(totalCompressedSize))
-	if r.Err() == io.EOF {
+	if r.Len() < int64(totalCompressedSize) {
 		return nil, ErrInvalidFontData
-	} else if MaxMemory < uncompressedSize {
+	}
+	compData := r.ReadBytes(int64(totalCompressedSize))
+	if MaxMemory < uncompressedSize {
 		return nil, ErrExceedsMemory
 	}
 	rBrotli := brotli.NewReader(bytes.NewReader(compData)) // err is always nil
@@ -748,10 +752,10 @@ func readUintBase128(r *parse.BinaryReader) (uint32, error) {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
 	var accum uint32
 	for i := 0; i < 5; i++ {
-		dataByte := r.ReadUint8()
-		if r.Err() == io.EOF {
+		if r.Len() < 1 {
 			return 0, ErrInvalidFontData
 		}
+		dataByte := r.ReadUint8()
 		if i == 0 && dataByte == 0x80 {
 			return 0, fmt.Errorf("readUintBase128: must not start with leading zeros")
 		}
-- 
2.43.0


From 88eb9da7b3e76d35b6abb075a53dc630e7510e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 067/115] fix: stop decompressing WOFF2 data beyond its length

---
 woff2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index bc6a7dc..1785080 100644
--- a/woff2.go
+++ b/woff2.go
@@ -175,7 +175,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	}
 	rBrotli := brotli.NewReader(bytes.NewReader(compData)) // err is always nil
 	dataBuf := bytes.NewBuffer(make([]byte, 0, uncompressedSize))
-	if _, err := io.Copy(dataBuf, rBrotli); err != nil {
+	if _, err := io.Copy(dataBuf, io.LimitReader(rBrotli, int64(uncompressedSize)+1)); err != nil {
 		return nil, err
 	}
 	data := dataBuf.Bytes()
-- 
2.43.0


From ccf070750e40cdbc5371ac4f4eb95a5acef477af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:52 +0000
Subject: [PATCH 068/115] fix: WOFF2 glyf streams that end with the last value
 or in the middle of one

---
 woff2.go | 89 ++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 31 deletions(-)

diff --git a/woff2.go b/woff2.go
index 1785080..6d99707 100644
--- a/woff2.go
+++ b/woff2.go
@@ -342,6 +342,9 @@ func signInt16(flag byte, pos uint) int16 {
 // Remarkable! This code was written on a Sunday evening, and after fixing the compiler errors it worked flawlessly!
 // Edit: oops, there was actually a subtle bug fixed in dx of flag < 120 of simple glyphs.
 func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error) {
+	if len(b) < 36 {
+		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+	}
 	r := parse.NewBinaryReaderBytes(b)
 	_ = r.ReadUint16() // version
 	optionFlags := r.ReadUint16()
@@ -354,11 +357,19 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	compositeStreamSize := r.ReadUint32()
 	bboxStreamSize := r.ReadUint32()
 	instructionStreamSize := r.ReadUint32()
-	if r.Err() == io.EOF || nContourStreamSize != 2*uint32(numGlyphs) {
+	if nContourStreamSize != 2*uint32(numGlyphs) {
 		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 	}
 
 	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
+	if bboxStreamSize < bitmapSize {
+		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+	}
+	streamsSize := int64(nContourStreamSize) + int64(nPointsStreamSize) + int64(flagStreamSize) + int64(glyphStreamSize)
+	streamsSize += int64(compositeStreamSize) + int64(bboxStreamSize) + int64(instructionStreamSize)
+	if r.Len() < streamsSize {
+		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+	}
 	nContourStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nContourStreamSize)))
 	nPointsStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nPointsStreamSize)))
 	flagStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(flagStreamSize)))
@@ -369,11 +380,11 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	instructionStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(instructionStreamSize)))
 	var overlapSimpleBitmap *parse.BitmapReader
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
+		if r.Len() < int64(bitmapSize) {
+			return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+		}
 		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
 	}
-	if r.Err() == io.EOF {
-		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
-	}
 
 	locaLength := (uint32(numGlyphs) + 1) * 2
 	if indexFormat != 0 {
@@ -402,37 +413,43 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 		} else if 0 < nContours { // simple glyph
 			var xMin, yMin, xMax, yMax int16
 			if explicitBbox {
+				if bboxStream.Len() < 8 {
+					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+				}
 				xMin = bboxStream.ReadInt16()
 				yMin = bboxStream.ReadInt16()
 				xMax = bboxStream.ReadInt16()
 				yMax = bboxStream.ReadInt16()
-				if bboxStream.Err() == io.EOF {
-					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
-				}
 			}
 
 			var nPoints uint16
 			endPtsOfContours := make([]uint16, nContours)
 			for iContour := int16(0); iContour < nContours; iContour++ {
-				nPoint := read255Uint16(nPointsStream)
-				if math.MaxUint16-nPoints < nPoint {
+				nPoint, err := read255Uint16(nPointsStream)
+				if err != nil {
+					return nil, nil, fmt.Errorf("glyf: %w", err)
+				} else if math.MaxUint16-nPoints < nPoint {
 					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 				}
 				nPoints += nPoint
 				endPtsOfContours[iContour] = nPoints - 1
 			}
-			if nPointsStream.Err() == io.EOF {
-				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
-			}
 
 			var x, y int16
 			outlineFlags := make([]byte, 0, nPoints)
 			xCoordinates := make([]int16, 0, nPoints)
 			yCoordinates := make([]int16, 0, nPoints)
 			for iPoint := uint16(0); iPoint < nPoints; iPoint++ {
+				if flagStream.Len() < 1 {
+					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+				}
 				flag := flagStream.ReadUint8()
 				onCurve := (flag & 0x80) == 0
 				flag &= 0x7f
+				if flag < 84 && glyphStream.Len() < 1 || 84 <= flag && flag < 120 && glyphStream.Len() < 2 ||
+					120 <= flag && flag < 124 && glyphStream.Len() < 3 || 124 <= flag && glyphStream.Len() < 4 {
+					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+				}
 
 				// used for reference: https://github.com/fonttools/fonttools/blob/master/Lib/fontTools/ttLib/woff2.py
 				// as well as: https://github.com/google/woff2/blob/master/src/woff2_dec.cc
@@ -506,15 +523,14 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 					}
 				}
 			}
-			if flagStream.Err() == io.EOF || glyphStream.Err() == io.EOF {
-				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
-			}
 
-			instructionLength := read255Uint16(glyphStream)
-			instructions := instructionStream.ReadBytes(int64(instructionLength))
-			if instructionStream.Err() == io.EOF {
+			instructionLength, err := read255Uint16(glyphStream)
+			if err != nil {
+				return nil, nil, fmt.Errorf("glyf: %w", err)
+			} else if instructionStream.Len() < int64(instructionLength) {
 				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 			}
+			instructions := instructionStream.ReadBytes(int64(instructionLength))
 
 			// write simple glyph definition
 			w.WriteInt16(nContours) // numberOfContours
@@ -543,13 +559,13 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				return nil, nil, fmt.Errorf("glyf: composite glyph must have bbox definition")
 			}
 
+			if bboxStream.Len() < 8 {
+				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+			}
 			xMin := bboxStream.ReadInt16()
 			yMin := bboxStream.ReadInt16()
 			xMax := bboxStream.ReadInt16()
 			yMax := bboxStream.ReadInt16()
-			if bboxStream.Err() == io.EOF {
-				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
-			}
 
 			// write composite glyph definition
 			w.WriteInt16(nContours) // numberOfContours
@@ -560,6 +576,9 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 
 			hasInstructions := false
 			for {
+				if compositeStream.Len() < 2 {
+					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+				}
 				compositeFlag := compositeStream.ReadUint16()
 				argsAreWords := (compositeFlag & 0x0001) != 0
 				haveScale := (compositeFlag & 0x0008) != 0
@@ -579,10 +598,10 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				} else if have2by2 {
 					numBytes += 8
 				}
-				compositeBytes := compositeStream.ReadBytes(int64(numBytes))
-				if compositeStream.Err() == io.EOF {
+				if compositeStream.Len() < int64(numBytes) {
 					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 				}
+				compositeBytes := compositeStream.ReadBytes(int64(numBytes))
 
 				w.WriteUint16(compositeFlag)
 				w.WriteBytes(compositeBytes)
@@ -596,11 +615,13 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			}
 
 			if hasInstructions {
-				instructionLength := read255Uint16(glyphStream)
-				instructions := instructionStream.ReadBytes(int64(instructionLength))
-				if instructionStream.Err() == io.EOF {
+				instructionLength, err := read255Uint16(glyphStream)
+				if err != nil {
+					return nil, nil, fmt.Errorf("glyf: %w", err)
+				} else if instructionStream.Len() < int64(instructionLength) {
 					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 				}
+				instructions := instructionStream.ReadBytes(int64(instructionLength))
 				w.WriteUint16(instructionLength)
 				w.WriteBytes(instructions)
 			}
@@ -770,17 +791,23 @@ func readUintBase128(r *parse.BinaryReader) (uint32, error) {
 	return 0, fmt.Errorf("readUintBase128: exceeds 5 bytes")
 }
 
-func read255Uint16(r *parse.BinaryReader) uint16 {
+func read255Uint16(r *parse.BinaryReader) (uint16, error) {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
+	if r.Len() < 1 {
+		return 0, ErrInvalidFontData
+	}
 	code := r.ReadUint8()
+	if code == 253 && r.Len() < 2 || (code == 254 || code == 255) && r.Len() < 1 {
+		return 0, ErrInvalidFontData
+	}
 	if code == 253 {
-		return r.ReadUint16()
+		return r.ReadUint16(), nil
 	} else if code == 255 {
-		return uint16(r.ReadUint8()) + 253
+		return uint16(r.ReadUint8()) + 253, nil
 	} else if code == 254 {
-		return uint16(r.ReadUint8()) + 253*2
+		return uint16(r.ReadUint8()) + 253*2, nil
 	} else {
-		return uint16(code)
+		return uint16(code), nil
 	}
 }
 
-- 
2.43.0


From a4e714c96990a975d42121bf4aa9f2ee848326d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:52 +0000
Subject: [PATCH 069/115] fix: WOFF2 bounding box bit of every 32nd glyph and
 overlap bits of simple glyphs

---
 woff2.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/woff2.go b/woff2.go
index 6d99707..bf78da7 100644
--- a/woff2.go
+++ b/woff2.go
@@ -375,15 +375,16 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	flagStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(flagStreamSize)))
 	glyphStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(glyphStreamSize)))
 	compositeStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(compositeStreamSize)))
-	bboxBitmap := parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
+	bboxBitmap := r.ReadBytes(int64(bitmapSize))
 	bboxStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
 	instructionStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(instructionStreamSize)))
-	var overlapSimpleBitmap *parse.BitmapReader
+	var overlapSimpleBitmap []byte
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
-		if r.Len() < int64(bitmapSize) {
+		overlapSimpleSize := (int64(numGlyphs) + 7) >> 3
+		if r.Len() < overlapSimpleSize {
 			return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 		}
-		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
+		overlapSimpleBitmap = r.ReadBytes(overlapSimpleSize)
 	}
 
 	locaLength := (uint32(numGlyphs) + 1) * 2
@@ -403,7 +404,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			loca.WriteUint32(uint32(w.Len()))
 		}
 
-		explicitBbox := bboxBitmap.Read()       // EOF cannot occur
+		explicitBbox := bboxBitmap[iGlyph>>3]&(0x80>>(iGlyph&7)) != 0
 		nContours := nContourStream.ReadInt16() // EOF cannot occur
 		if nContours == 0 {                     // empty glyph
 			if explicitBbox {
@@ -493,7 +494,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				if onCurve {
 					outlineFlag |= 0x01 // ON_CURVE_POINT
 				}
-				if overlapSimpleBitmap != nil && overlapSimpleBitmap.Read() {
+				if iPoint == 0 && overlapSimpleBitmap != nil && overlapSimpleBitmap[iGlyph>>3]&(0x80>>(iGlyph&7)) != 0 {
 					outlineFlag |= 0x40 // OVERLAP_SIMPLE
 				}
 				outlineFlags = append(outlineFlags, outlineFlag)
-- 
2.43.0


From 6ecbd94a5629fab5a2f50aee5c00c438fe0419de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:52 +0000
Subject: [PATCH 070/115] fix: the header of a transformed glyf table was read
 from untransformed glyf tables in WOFF2

---
 woff2.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/woff2.go b/woff2.go
index bf78da7..bc5112c 100644
--- a/woff2.go
+++ b/woff2.go
@@ -212,17 +212,6 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 			if tables[iLoca].origLength != uint32(len(tables[iLoca].data)) {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
-		} else {
-			rGlyf := parse.NewBinaryReaderBytes(tables[iGlyf].data)
-			_ = rGlyf.ReadUint32() // version
-			numGlyphs := uint32(rGlyf.ReadUint16())
-			indexFormat := rGlyf.ReadUint16()
-			if rGlyf.Err() == io.EOF {
-				return nil, ErrInvalidFontData
-			}
-			if indexFormat == 0 && tables[iLoca].origLength != (numGlyphs+1)*2 || indexFormat == 1 && tables[iLoca].origLength != (numGlyphs+1)*4 {
-				return nil, fmt.Errorf("loca: invalid value for origLength")
-			}
 		}
 	}
 
-- 
2.43.0


From b70170bcb697f99c84fa859a7283d9a3ec33d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:52 +0000
Subject: [PATCH 071/115] fix: reconstruct WOFF2 hmtx tables with tables of
 minimal length and check glyph offsets

---
 woff2.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/woff2.go b/woff2.go
index bc5112c..38fa237 100644
--- a/woff2.go
+++ b/woff2.go
@@ -634,28 +634,23 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 
 func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	// get indexFormat
+	if len(head) < 52 || len(maxp) < 6 || len(hhea) < 36 {
+		return nil, ErrInvalidFontData
+	}
 	rHead := parse.NewBinaryReaderBytes(head)
 	_ = rHead.ReadBytes(50) // skip
 	indexFormat := rHead.ReadInt16()
-	if rHead.Err() == io.EOF {
-		return nil, ErrInvalidFontData
-	}
 
 	// get numGlyphs
 	rMaxp := parse.NewBinaryReaderBytes(maxp)
 	_ = rMaxp.ReadUint32() // version
 	numGlyphs := rMaxp.ReadUint16()
-	if rMaxp.Err() == io.EOF {
-		return nil, ErrInvalidFontData
-	}
 
 	// get numHMetrics
 	rHhea := parse.NewBinaryReaderBytes(hhea)
 	_ = rHhea.ReadBytes(34) // skip all but the last header field
 	numHMetrics := rHhea.ReadUint16()
-	if rHhea.Err() == io.EOF {
-		return nil, ErrInvalidFontData
-	} else if numHMetrics < 1 {
+	if numHMetrics < 1 {
 		return nil, fmt.Errorf("hmtx: must have at least one entry")
 	} else if numGlyphs < numHMetrics {
 		return nil, fmt.Errorf("hmtx: more entries than glyphs in glyf")
@@ -737,12 +732,11 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 		if offsetNext == offset {
 			lsbs[iGlyph] = 0
 		} else {
-			rGlyf.Seek(int64(offset), 0)
-			_ = rGlyf.ReadInt16() // numContours
-			xMin := rGlyf.ReadInt16()
-			if rGlyf.Err() == io.EOF {
+			if _, err := rGlyf.Seek(int64(offset), 0); err != nil || rGlyf.Len() < 4 {
 				return nil, ErrInvalidFontData
 			}
+			_ = rGlyf.ReadInt16() // numContours
+			xMin := rGlyf.ReadInt16()
 			lsbs[iGlyph] = xMin
 		}
 		offset = offsetNext
-- 
2.43.0


From d3302c8be9c06f84b176514bb2a6a8aba6da30ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 072/115] fix: error of WOFF2 files that consist of only a
 header

---
 woff2.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/woff2.go b/woff2.go
index 38fa237..9f727ce 100644
--- a/woff2.go
+++ b/woff2.go
@@ -78,9 +78,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	_ = r.ReadUint32()                    // metaOrigLength
 	_ = r.ReadUint32()                    // privOffset
 	_ = r.ReadUint32()                    // privLength
-	if r.Err() == io.EOF {
-		return nil, ErrInvalidFontData
-	} else if length != uint32(len(b)) {
+	if length != uint32(len(b)) {
 		return nil, fmt.Errorf("length in header must match file size")
 	} else if numTables == 0 {
 		return nil, fmt.Errorf("numTables in header must not be zero")
-- 
2.43.0


From 90579529e03b72ecd6fcfcec15d1f145252df2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 073/115] fix: WOFF2 glyph offsets that do not fit the short
 loca format

---
 woff2.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/woff2.go b/woff2.go
index 9f727ce..e6d1b3f 100644
--- a/woff2.go
+++ b/woff2.go
@@ -208,7 +208,12 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 				return nil, err
 			}
 			if tables[iLoca].origLength != uint32(len(tables[iLoca].data)) {
-				return nil, fmt.Errorf("loca: invalid value for origLength")
+				// reconstructed glyf table is too big for the short format, the loca table has the long format
+				iHead, hasHead := tagTableIndex["head"]
+				if !hasHead || len(tables[iHead].data) < 52 {
+					return nil, fmt.Errorf("head: must be present")
+				}
+				binary.BigEndian.PutUint16(tables[iHead].data[50:], 1) // indexToLocFormat
 			}
 		}
 	}
@@ -383,13 +388,9 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	}
 
 	w := parse.NewBinaryWriter([]byte{}) // size unknown
-	loca := parse.NewBinaryWriter(make([]byte, 0, locaLength))
+	offsets := make([]uint32, 0, uint32(numGlyphs)+1)
 	for iGlyph := uint16(0); iGlyph < numGlyphs; iGlyph++ {
-		if indexFormat == 0 {
-			loca.WriteUint16(uint16(w.Len() >> 1))
-		} else {
-			loca.WriteUint32(uint32(w.Len()))
-		}
+		offsets = append(offsets, uint32(w.Len()))
 
 		explicitBbox := bboxBitmap[iGlyph>>3]&(0x80>>(iGlyph&7)) != 0
 		nContours := nContourStream.ReadInt16() // EOF cannot occur
@@ -622,10 +623,18 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	}
 
 	// last entry in loca table
-	if indexFormat == 0 {
-		loca.WriteUint16(uint16(w.Len() >> 1))
-	} else {
-		loca.WriteUint32(uint32(w.Len()))
+	offsets = append(offsets, uint32(w.Len()))
+	if math.MaxUint16 < w.Len()>>1 {
+		indexFormat = 1 // offsets do not fit the short format
+	}
+
+	loca := parse.NewBinaryWriter(make([]byte, 0, locaLength))
+	for _, offset := range offsets {
+		if indexFormat == 0 {
+			loca.WriteUint16(uint16(offset >> 1))
+		} else {
+			loca.WriteUint32(offset)
+		}
 	}
 	return w.Bytes(), loca.Bytes(), nil
 }
-- 
2.43.0


From a0a0cd6e0d8a8c3f82a2b9d05f514a91332c6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:52 +0000
Subject: [PATCH 074/115] fix: bounding box and overlap bitmaps of WriteWOFF2
 were shifted by empty glyphs and every 32nd glyph

---
 woff2.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/woff2.go b/woff2.go
index e6d1b3f..c073a44 100644
--- a/woff2.go
+++ b/woff2.go
@@ -922,17 +922,16 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	flagStream := parse.NewBinaryWriter([]byte{})
 	glyphStream := parse.NewBinaryWriter([]byte{})
 	compositeStream := parse.NewBinaryWriter([]byte{})
-	bboxBitmapStream := parse.NewBitmapWriter(make([]byte, bitmapSize))
+	bboxBitmap := make([]byte, bitmapSize)
 	bboxStream := parse.NewBinaryWriter([]byte{})
 	instructionStream := parse.NewBinaryWriter([]byte{})
-	overlapSimpleStream := parse.NewBitmapWriter(make([]byte, bitmapSize))
+	overlapSimpleBitmap := make([]byte, (int(numGlyphs)+7)>>3)
 
 	var optionFlags uint16
 	xMins := make([]int16, numGlyphs)
 	for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
 		// composite glyphs have already been reconstructed as simple glyphs
 		bboxEqual := false
-		hasOverlap := false
 		var xMin, yMin, xMax, yMax int16
 		if !glyf.IsComposite(uint16(glyphID)) {
 			// simple glyph
@@ -942,7 +941,6 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			} else if len(contour.EndPoints) == 0 {
 				// empty glyph
 				nContourStream.WriteInt16(0)
-				bboxBitmapStream.Write(false)
 				continue
 			}
 			xMins[glyphID] = contour.XMin
@@ -1017,8 +1015,8 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 					flag |= 0x80
 				}
 				flagStream.WriteByte(flag)
-				if contour.OverlapSimple[i] {
-					hasOverlap = true
+				if i == 0 && contour.OverlapSimple[i] {
+					overlapSimpleBitmap[glyphID>>3] |= 0x80 >> (glyphID & 7)
 					optionFlags |= 0x01
 				}
 			}
@@ -1086,23 +1084,21 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			}
 		}
 
-		bboxBitmapStream.Write(!bboxEqual)
 		if !bboxEqual {
+			bboxBitmap[glyphID>>3] |= 0x80 >> (glyphID & 7)
 			bboxStream.WriteInt16(xMin)
 			bboxStream.WriteInt16(yMin)
 			bboxStream.WriteInt16(xMax)
 			bboxStream.WriteInt16(yMax)
 		}
-
-		overlapSimpleStream.Write(hasOverlap)
 	}
 
 	n := int64(36)
 	n += nContourStream.Len() + nPointsStream.Len()
 	n += flagStream.Len() + glyphStream.Len() + compositeStream.Len()
-	n += bboxBitmapStream.Len() + bboxStream.Len() + instructionStream.Len()
+	n += int64(len(bboxBitmap)) + bboxStream.Len() + instructionStream.Len()
 	if optionFlags&0x01 != 0 {
-		n += overlapSimpleStream.Len()
+		n += int64(len(overlapSimpleBitmap))
 	}
 	w := parse.NewBinaryWriter(make([]byte, 0, n))
 	w.WriteUint16(0) // reserved
@@ -1114,18 +1110,18 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	w.WriteUint32(uint32(flagStream.Len()))
 	w.WriteUint32(uint32(glyphStream.Len()))
 	w.WriteUint32(uint32(compositeStream.Len()))
-	w.WriteUint32(uint32(bboxBitmapStream.Len() + bboxStream.Len()))
+	w.WriteUint32(uint32(int64(len(bboxBitmap)) + bboxStream.Len()))
 	w.WriteUint32(uint32(instructionStream.Len()))
 	w.WriteBytes(nContourStream.Bytes())
 	w.WriteBytes(nPointsStream.Bytes())
 	w.WriteBytes(flagStream.Bytes())
 	w.WriteBytes(glyphStream.Bytes())
 	w.WriteBytes(compositeStream.Bytes())
-	w.WriteBytes(bboxBitmapStream.Bytes())
+	w.WriteBytes(bboxBitmap)
 	w.WriteBytes(bboxStream.Bytes())
 	w.WriteBytes(instructionStream.Bytes())
 	if optionFlags&0x01 != 0 {
-		w.WriteBytes(overlapSimpleStream.Bytes())
+		w.WriteBytes(overlapSimpleBitmap)
 	}
 	return w.Bytes(), xMins
 }
-- 
2.43.0


From ae15c8e5e4b1cb906c0df2be801000f7ef6faef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:52 +0000
Subject: [PATCH 075/115] fix: WriteWOFF2 of composite glyphs with
 instructions, side bearings, or malformed data

---
 woff2.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index c073a44..86c6fba 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1055,18 +1055,28 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 		} else {
 			// composite glyph
 			r := parse.NewBinaryReaderBytes(glyf.Get(uint16(glyphID)))
+			if r.Len() < 10 {
+				return nil, nil
+			}
 			_ = r.ReadInt16() // numberOfContours
 			xMin = r.ReadInt16()
 			yMin = r.ReadInt16()
 			xMax = r.ReadInt16()
 			yMax = r.ReadInt16()
+			xMins[glyphID] = xMin
 
 			nContourStream.WriteInt16(-1)
 
 			hasInstructions := false
 			for {
+				if r.Len() < 2 {
+					return nil, nil
+				}
 				flags := r.ReadUint16()
 				length, more := glyfCompositeLength(flags)
+				if r.Len() < int64(length)-2 {
+					return nil, nil
+				}
 				if flags&0x0100 != 0 {
 					hasInstructions = true
 				}
@@ -1078,9 +1088,15 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				}
 			}
 			if hasInstructions {
+				if r.Len() < 2 {
+					return nil, nil
+				}
 				instructionLength := r.ReadUint16()
+				if r.Len() < int64(instructionLength) {
+					return nil, nil
+				}
 				write255Uint16(glyphStream, instructionLength)
-				glyphStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
+				instructionStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
 			}
 		}
 
-- 
2.43.0


From c84c3c16a86e0cb8a92ca42bd1c2d397d221a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:52 +0000
Subject: [PATCH 076/115] fix: WriteWOFF2 stored the wrong bounding box when
 its horizontal extent differs from the points

---
 woff2.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/woff2.go b/woff2.go
index 86c6fba..e485319 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1043,11 +1043,10 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				}
 				if yMin == contour.YMin && yMax == contour.YMax {
 					bboxEqual = true
-				} else {
-					xMin, xMax = contour.XMin, contour.XMax
-					yMin, yMax = contour.YMin, contour.YMax
 				}
 			}
+			xMin, xMax = contour.XMin, contour.XMax
+			yMin, yMax = contour.YMin, contour.YMax
 
 			// instruction stream
 			write255Uint16(glyphStream, uint16(len(contour.Instructions)))
-- 
2.43.0


From d8df3299293b16695f1b434c06fcb913cc82cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:16 +0000
Subject: [PATCH 077/115] fix: WriteWOFF2 wrote bad data for coordinate
 differences of -32768

---
 woff2.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/woff2.go b/woff2.go
index e485319..7346e12 100644
--- a/woff2.go
+++ b/woff2.go
@@ -958,11 +958,12 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 
 			// glyph, flag, and overlapSimple streams
 			for i := range contour.XCoordinates {
-				dx, dy := contour.XCoordinates[i], contour.YCoordinates[i]
+				dx16, dy16 := contour.XCoordinates[i], contour.YCoordinates[i]
 				if 0 < i {
-					dx -= contour.XCoordinates[i-1]
-					dy -= contour.YCoordinates[i-1]
+					dx16 -= contour.XCoordinates[i-1]
+					dy16 -= contour.YCoordinates[i-1]
 				}
+				dx, dy := int32(dx16), int32(dy16)
 				dxSign, dySign := byte(1), byte(1)
 				if dx < 0 {
 					dxSign = 0
@@ -1001,14 +1002,8 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 					glyphStream.WriteByte(byte(dy & 0x00FF))
 				} else {
 					flag = 124 + (dySign << 1) + dxSign
-					glyphStream.WriteInt16(dx)
-					glyphStream.WriteInt16(dy)
-				}
-				if dxSign == 0 {
-					dx = -dx
-				}
-				if dySign == 0 {
-					dy = -dy
+					glyphStream.WriteInt16(int16(dx))
+					glyphStream.WriteInt16(int16(dy))
 				}
 
 				if !contour.OnCurve[i] {
-- 
2.43.0


From d11cd8751ae300d8fa76d9d856eb166dae46a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:16 +0000
Subject: [PATCH 078/115] fix: WriteWOFF2 of loca tables with trailing data and
 of glyphs with 65536 points

---
 woff2.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index 7346e12..b394f16 100644
--- a/woff2.go
+++ b/woff2.go
@@ -859,7 +859,15 @@ func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
 		if tagIndex == -1 {
 			w.WriteString(tag) // tag
 		}
-		writeUintBase128(w, uint32(len(sfnt.Tables[tag])))
+		origLength := uint32(len(sfnt.Tables[tag]))
+		if glyf != nil && tag == "loca" {
+			// reconstructed table has exactly one entry more than the number of glyphs
+			origLength = 2 * (uint32(sfnt.NumGlyphs()) + 1)
+			if sfnt.Loca.Format != 0 {
+				origLength *= 2
+			}
+		}
+		writeUintBase128(w, origLength)
 		if glyf != nil && tag == "glyf" {
 			writeUintBase128(w, uint32(len(glyf)))
 		} else if glyf != nil && tag == "loca" {
@@ -943,6 +951,9 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				nContourStream.WriteInt16(0)
 				continue
 			}
+			if contour.EndPoints[len(contour.EndPoints)-1] == math.MaxUint16 {
+				return nil, nil // too many points to transform
+			}
 			xMins[glyphID] = contour.XMin
 
 			// nContour and nPoints streams
-- 
2.43.0


From 1e8fa5875eb581669c25da43d34b19a01d688fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:36 +0000
Subject: [PATCH 079/115] fix: WriteWOFF2 of glyphs with coordinate differences
 that exceed 16 bits

---
 woff2.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index b394f16..b386cbb 100644
--- a/woff2.go
+++ b/woff2.go
@@ -968,6 +968,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			}
 
 			// glyph, flag, and overlapSimple streams
+			wraps := false // coordinate differences exceed 16 bits, decoders cannot calculate the bounding box
 			for i := range contour.XCoordinates {
 				dx16, dy16 := contour.XCoordinates[i], contour.YCoordinates[i]
 				if 0 < i {
@@ -975,6 +976,9 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 					dy16 -= contour.YCoordinates[i-1]
 				}
 				dx, dy := int32(dx16), int32(dy16)
+				if 0 < i && (int32(contour.XCoordinates[i])-int32(contour.XCoordinates[i-1]) != dx || int32(contour.YCoordinates[i])-int32(contour.YCoordinates[i-1]) != dy) {
+					wraps = true
+				}
 				dxSign, dySign := byte(1), byte(1)
 				if dx < 0 {
 					dxSign = 0
@@ -1047,7 +1051,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 						yMax = y
 					}
 				}
-				if yMin == contour.YMin && yMax == contour.YMax {
+				if yMin == contour.YMin && yMax == contour.YMax && !wraps {
 					bboxEqual = true
 				}
 			}
-- 
2.43.0


From 211bc15ad88f84e2d7f923bc975f314f9282b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:15 +0000
Subject: [PATCH 080/115] fix: ParseStyleCSS: clamp the weight before rounding,
 extreme weights overflowed

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index e329acf..cbabaed 100644
--- a/system.go
+++ b/system.go
@@ -162,12 +162,12 @@ const (
 )
 
 func ParseStyleCSS(weight int, italic bool) Style {
-	weight = int(float64(weight)/100.0+0.5) * 100
 	if weight < 100 {
 		weight = 100
 	} else if 900 < weight {
 		weight = 900
 	}
+	weight = int(float64(weight)/100.0+0.5) * 100
 
 	var style Style
 	if italic {
-- 
2.43.0


From c42a5ab7d042f01d1aa201cf2bc81e0fdb31e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:15 +0000
Subject: [PATCH 081/115] fix: SystemFonts.Match: do not overwrite the memory
 behind the generic font lists

---
 system.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/system.go b/system.go
index cbabaed..99888d2 100644
--- a/system.go
+++ b/system.go
@@ -321,12 +321,13 @@ func (s *SystemFonts) Add(metadata FontMetadata) {
 
 func (s *SystemFonts) Match(name string, style Style) (FontMetadata, bool) {
 	// expand generic font names
-	families := strings.Split(name, ",")
-	for i := 0; i < len(families); i++ {
-		families[i] = strings.TrimSpace(families[i])
-		if names, ok := s.Generics[families[i]]; ok {
-			families = append(families[:i], append(names, families[i+1:]...)...)
-			i += len(names) - 1
+	families := []string{}
+	for _, family := range strings.Split(name, ",") {
+		family = strings.TrimSpace(family)
+		if names, ok := s.Generics[family]; ok {
+			families = append(families, names...)
+		} else {
+			families = append(families, family)
 		}
 	}
 
-- 
2.43.0


From 4e9ab4811971a58c063ddcfc6f1e8c4e6465aa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:35 +0000
Subject: [PATCH 082/115] fix: nameRecord.String panicked for encodings without
 decoder

---
 sfnt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index 53e4885..06b9ee3 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -938,6 +938,8 @@ func (record nameRecord) String() string {
 		decoder = unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder()
 	} else if record.Platform == PlatformMacintosh && record.Encoding == EncodingMacintoshRoman {
 		decoder = charmap.Macintosh.NewDecoder()
+	} else {
+		return string(record.Value) // unsupported encoding
 	}
 	s, _, err := transform.String(decoder, string(record.Value))
 	if err == nil {
-- 
2.43.0


From 2148ea86398e519a815bc5a230b9d64bbcbf080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:35 +0000
Subject: [PATCH 083/115] fix: getSFNTMetadata took names of any language or
 platform

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index 99888d2..705b1db 100644
--- a/system.go
+++ b/system.go
@@ -557,7 +557,7 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 			platform := PlatformID(u16(records[i:]))
 			//encoding := EncodingID(u16(records[i+2:]))
 			language := u16(records[i+4:])
-			if platform != PlatformWindows && (language&0x00FF) != 0x0009 {
+			if platform != PlatformWindows || (language&0x00FF) != 0x0009 {
 				continue // not English or not Windows
 			}
 
-- 
2.43.0


From 68ee962bbe9b8aee00e7d5d3407bfcb4c0130130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:35 +0000
Subject: [PATCH 084/115] fix: getSFNTMetadata returned empty metadata for name
 table version 1

---
 system.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/system.go b/system.go
index 705b1db..b556358 100644
--- a/system.go
+++ b/system.go
@@ -544,7 +544,7 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 
 	metadata := FontMetadata{}
 	decodeUTF16 := unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder()
-	if version == 0 {
+	if version == 0 || version == 1 {
 		records, err := read(r, 12*int(count))
 		if err != nil {
 			return FontMetadata{}, err
@@ -600,8 +600,8 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 
 		metadata.Family = family
 		metadata.Style = style
-	} else if version == 1 {
-		// TODO
+	} else {
+		return FontMetadata{}, fmt.Errorf("bad name table version")
 	}
 	return metadata, nil
 }
-- 
2.43.0


From c9496de6c9d9a4ef6900b18195f7af8c7aab7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:35 +0000
Subject: [PATCH 085/115] fix: getSFNTMetadata: basic names of a later language
 replaced the preferred names

---
 system.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/system.go b/system.go
index b556358..9c03054 100644
--- a/system.go
+++ b/system.go
@@ -550,8 +550,8 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 			return FontMetadata{}, err
 		}
 
-		found := 0
 		var family, subfamily string
+		var preferredFamily, preferredSubfamily bool
 		for i := 0; i < 12*int(count); i += 12 {
 			// TODO: check platform and encoding?
 			platform := PlatformID(u16(records[i:]))
@@ -576,16 +576,21 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 				if err != nil {
 					return FontMetadata{}, err
 				}
-				if name == NameFontFamily || name == NamePreferredFamily {
+				switch name {
+				case NameFontFamily:
+					if !preferredFamily {
+						family = string(val)
+					}
+				case NamePreferredFamily:
 					family = string(val)
-				} else if name == NameFontSubfamily || name == NamePreferredSubfamily {
+					preferredFamily = true
+				case NameFontSubfamily:
+					if !preferredSubfamily {
+						subfamily = string(val)
+					}
+				case NamePreferredSubfamily:
 					subfamily = string(val)
-				}
-				if name == NamePreferredFamily || name == NamePreferredSubfamily {
-					found++
-					//if found == 2 {
-					//	break // break early
-					//}
+					preferredSubfamily = true
 				}
 			}
 		}
-- 
2.43.0


From 6b59c6fd21e67d50afabbfb5c0ba1378f79a8dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:52 +0000
Subject: [PATCH 086/115] fix: ParseAFM crashed or ran out of memory for bad
 glyph and pair counts

---
 afm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/afm.go b/afm.go
index e6dff80..e672fb4 100644
--- a/afm.go
+++ b/afm.go
@@ -134,6 +134,9 @@ type afmLigature struct {
 }
 
 func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
+	if n < 0 || math.MaxUint16 < n {
+		return fmt.Errorf("afm: invalid char metrics at line %v: bad number of glyphs", *j)
+	}
 	var ligatures []afmLigature
 	afm.CharMetrics = make([]AFMCharMetrics, n)
 	afm.names = make(map[string]uint16, n)
@@ -268,7 +271,7 @@ func (afm *AFM) parseTrackKern(scanner *bufio.Scanner, j *int, n int) error {
 
 func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirection int) error {
 	if afm.KernPairs == nil {
-		afm.KernPairs = make(map[[2]uint16]int16, n)
+		afm.KernPairs = make(map[[2]uint16]int16)
 	}
 	for i := 0; i < n; i++ {
 		*j++
-- 
2.43.0


From 977aeff2360018766439567e15e7082ace6ebb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:52 +0000
Subject: [PATCH 087/115] fix: ParseAFM rounded negative bounds, descender and
 underline position up by one

---
 afm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/afm.go b/afm.go
index e672fb4..f50e317 100644
--- a/afm.go
+++ b/afm.go
@@ -190,7 +190,7 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			case "B":
 				for k := 0; k < 4; k++ {
 					f, pos = afmParseNumber(line, pos)
-					charMetrics.BBox[k] = int16(f + 0.5)
+					charMetrics.BBox[k] = int16(math.Round(f))
 				}
 			case "L":
 				var successor, ligature string
@@ -351,10 +351,10 @@ Scanner:
 			afm.Ascender = uint16(f + 0.5)
 		case "Descender":
 			f, _ = afmParseNumber(line, pos)
-			afm.Descender = uint16(f + 0.5)
+			afm.Descender = uint16(int16(math.Round(f)))
 		case "UnderlinePosition":
 			f, _ = afmParseNumber(line, pos)
-			afm.UnderlinePosition = uint16(f + 0.5)
+			afm.UnderlinePosition = uint16(int16(math.Round(f)))
 		case "UnderlineThickness":
 			f, _ = afmParseNumber(line, pos)
 			afm.UnderlineThickness = uint16(f + 0.5)
-- 
2.43.0


From 617e96f0aaf9dd91e6748ba6979874997cf0a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:52 +0000
Subject: [PATCH 088/115] fix: ParseAFM kept only the first word of the full
 name, family name and weight

---
 afm.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/afm.go b/afm.go
index f50e317..b02c7c3 100644
--- a/afm.go
+++ b/afm.go
@@ -115,6 +115,11 @@ func afmParseString(b []byte, i int) (string, int) {
 	return string(v), i
 }
 
+// afmParseText returns the rest of the line, which may contain spaces
+func afmParseText(b []byte, i int) string {
+	return string(bytes.TrimSpace(b[i:]))
+}
+
 func afmParseInteger(b []byte, i int) (int, int) {
 	i = afmSkipWhitespace(b, i)
 	v, n := strconv.ParseInt(b[i:])
@@ -330,11 +335,11 @@ Scanner:
 		case "FontName":
 			afm.FontName, _ = afmParseString(line, pos)
 		case "FullName":
-			afm.FullName, _ = afmParseString(line, pos)
+			afm.FullName = afmParseText(line, pos)
 		case "FamilyName":
-			afm.FamilyName, _ = afmParseString(line, pos)
+			afm.FamilyName = afmParseText(line, pos)
 		case "Weight":
-			afm.Weight, _ = afmParseString(line, pos)
+			afm.Weight = afmParseText(line, pos)
 		case "FontBBox":
 			for k := 0; k < 4; k++ {
 				f, pos = afmParseNumber(line, pos)
-- 
2.43.0


From 0a00d5430b223914e2c5feeb8037856fe7cf6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:35 +0000
Subject: [PATCH 089/115] fix: AFM.GlyphName always returned an empty string

---
 afm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/afm.go b/afm.go
index b02c7c3..26acd35 100644
--- a/afm.go
+++ b/afm.go
@@ -211,6 +211,7 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 		} else if r, ok := glyphList[name]; !ok {
 			return fmt.Errorf("afm: invalid char metrics at line %v: unknown character name: %v", *j, name)
 		} else {
+			charMetrics.Name = name
 			afm.names[name] = uint16(i)
 			afm.unicode[r] = uint16(i)
 		}
-- 
2.43.0


From 937488f301f0be9baa5633ef49891bf5772d6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 090/115] fix: CFF DICT operators with real operands were
 written without operator

The ranges of two-byte operators were off by one, so that fractional
UnderlineThickness, StemSnapV and ExpansionFactor values were refused (and the
error ignored).
---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 8d71809..aa4782a 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1914,7 +1914,7 @@ func writeDICTEntry(w *parse.BinaryWriter, op int, vals ...any) error {
 	}
 
 	allowFloat := false
-	if 5 <= op && op <= 11 || op == 20 || op == 21 || 255+2 <= op && op <= 255+4 || 255+7 <= op && op <= 255+13 || op == 255+18 || op == 255+23 {
+	if 5 <= op && op <= 11 || op == 20 || op == 21 || 256+2 <= op && op <= 256+4 || 256+7 <= op && op <= 256+13 || op == 256+18 || op == 256+23 {
 		// strictly most operators allow a number and thus an integer or real operand but in
 		// practice these are offsets (and thus integers) and some parsers expect them to be
 		// integers (even though a float may be shorter for e.g. 32790 (3 bytes) instead of
-- 
2.43.0


From b8ea8cb92cd29477c4fa0b6d6cd16042371f933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 091/115] fix: ForceBold was not written to the CFF Private
 DICT

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index aa4782a..08b6691 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1694,7 +1694,7 @@ func (t *cffPrivateDICT) Write() ([]byte, error) {
 		writeDICTEntry(w, 256+13, t.StemSnapV)
 	}
 	if t.ForceBold {
-		writeDICTEntry(w, 256+14, t.ForceBold)
+		writeDICTEntry(w, 256+14, 1)
 	}
 	if t.LanguageGroup != 0 {
 		writeDICTEntry(w, 256+17, t.LanguageGroup)
-- 
2.43.0


From 89826fdb1ad5b4d8134f5f964e634759b5d92dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 092/115] fix: CFF real numbers lost precision when written

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 08b6691..2b53350 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1834,7 +1834,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 				case 0x0E:
 					num = append(num, '-')
 				case 0x0F:
-					f, err := strconv.ParseFloat(string(num), 32)
+					f, err := strconv.ParseFloat(string(num), 64)
 					if err != nil {
 						return 0, math.NaN()
 					}
@@ -1882,7 +1882,7 @@ func cffDICTNumber(val any) (int, float64, bool, bool) {
 }
 
 func cffDICTFloat(f float64) ([]byte, int) {
-	floatNibbles := strconv.AppendFloat([]byte{}, f, 'G', 6, 64)
+	floatNibbles := strconv.AppendFloat([]byte{}, f, 'G', -1, 64)
 	if 1 < len(floatNibbles) && floatNibbles[0] == '0' && floatNibbles[1] == '.' {
 		floatNibbles = floatNibbles[1:]
 	}
-- 
2.43.0


From f9edd6286e4f3f476f626311a73df231a210d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 093/115] fix: large integral CFF real numbers were written as
 overflown integers

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 2b53350..63f9372 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1870,7 +1870,7 @@ func cffDICTNumber(val any) (int, float64, bool, bool) {
 	case float64:
 		var i int
 		isFrac := false
-		if integer, frac := math.Modf(v); frac == 0.0 {
+		if integer, frac := math.Modf(v); frac == 0.0 && math.MinInt32 <= integer && integer <= math.MaxInt32 {
 			i = int(integer)
 		} else {
 			isFrac = true
-- 
2.43.0


From 50da72ec59f3142310bef82dd3d6a61363579d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 094/115] fix: repeated custom strings in CFF fonts became
 standard strings

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 63f9372..c886232 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1199,7 +1199,7 @@ func (t *cffINDEX) AddSID(data []byte) int {
 	}
 	for i := 0; i+1 < len(t.offset); i++ {
 		if bytes.Equal(data, t.data[t.offset[i]:t.offset[i+1]]) {
-			return i
+			return i + len(cffStandardStrings)
 		}
 	}
 	// warning: this may become 65000 or larger which is not strictly allowed
-- 
2.43.0


From b009ae16953c202261f3e18d3e36b1263b0f48a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 095/115] fix: offsets of CFF INDEX data of 64 kB and more

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index c886232..6b12612 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1287,7 +1287,7 @@ func cffINDEXOffSize(n int) int {
 		return 1
 	} else if n <= math.MaxUint16 {
 		return 2
-	} else if n <= (2<<24 - 1) {
+	} else if n <= (1<<24 - 1) {
 		return 3
 	}
 	return 4
@@ -1318,7 +1318,7 @@ func (t *cffINDEX) Write() ([]byte, error) {
 	} else if offSize == 3 {
 		for _, offset := range t.offset {
 			w.WriteUint8(uint8((offset + 1) >> 16))
-			w.WriteUint16(uint16((offset + 1) & 0x00FF))
+			w.WriteUint16(uint16((offset + 1) & 0xFFFF))
 		}
 	} else if offSize == 4 {
 		for _, offset := range t.offset {
-- 
2.43.0


From 366059ffed794c77a9418e059e73e10a7b432593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 096/115] fix: CFF INDEX of empty elements was written without
 its elements

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 6b12612..6eefa7c 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1296,7 +1296,7 @@ func cffINDEXOffSize(n int) int {
 func (t *cffINDEX) Write() ([]byte, error) {
 	if math.MaxUint16 < len(t.offset)-1 {
 		return nil, fmt.Errorf("too many indices")
-	} else if len(t.data) == 0 {
+	} else if t.Len() == 0 {
 		return []byte{0, 0}, nil // zero count
 	} else if len(t.offset) == 0 || t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
 		return nil, fmt.Errorf("bad offsets")
-- 
2.43.0


From ffdb44059041fef332d7ef8d6d3ecff7b65109b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 097/115] fix: size of the CFF number -32768

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 6eefa7c..909ff79 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -859,7 +859,7 @@ func cffNumberSize(i int) int {
 		return 1
 	} else if -1131 <= i && i <= -108 || 108 <= i && i <= 1131 {
 		return 2
-	} else if -32767 <= i && i <= 32767 {
+	} else if -32768 <= i && i <= 32767 {
 		return 3
 	}
 	return 5
-- 
2.43.0


From a7f9682906fe5c44ee825bc177f629e5075327aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 098/115] fix: CFF local subroutines offset when its size grows
 with the value

---
 sfnt_cff.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 909ff79..1c380c7 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2270,8 +2270,13 @@ func (cff *cffTable) Write() ([]byte, error) {
 			}
 
 			// write offset to Private DICT
-			localSubrsOffset = len(privateDICT) + 1                  // key
-			localSubrsOffset += cffDICTIntegerSize(localSubrsOffset) // val
+			// the value is part of the offset
+			size := 1
+			localSubrsOffset = len(privateDICT) + 1 + size // key and value
+			for size < cffDICTIntegerSize(localSubrsOffset) {
+				size = cffDICTIntegerSize(localSubrsOffset)
+				localSubrsOffset = len(privateDICT) + 1 + size
+			}
 			wPrivate := parse.NewBinaryWriter(privateDICT)
 			writeDICTEntry(wPrivate, 19, localSubrsOffset)
 			privateDICT = wPrivate.Bytes()
-- 
2.43.0


From d3c242621a030038e2039eeed12448b69bde7feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 099/115] fix: CFF Top DICT offsets when they grow the DICT
 itself

---
 sfnt_cff.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 1c380c7..ff1b6b5 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2294,7 +2294,7 @@ func (cff *cffTable) Write() ([]byte, error) {
 	if privateDICT != nil {
 		lenTopDICT += 1 + cffDICTIntegerSize(len(privateDICT)) // key and size
 	}
-	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT)
+	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT + 1)
 	lenTopDICTINDEX := 3 + 2*lenTopDICTINDEXOffSize + lenTopDICT
 
 	offset := int(w.Len()) + lenTopDICTINDEX + len(stringINDEX) // no overflow
@@ -2323,13 +2323,13 @@ func (cff *cffTable) Write() ([]byte, error) {
 		prevCorrect = correct
 		correct = 0
 		if charset != nil {
-			correct += cffDICTIntegerSize(charsetOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(charsetOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffDICTIntegerSize(charStringsOffset + correct) // integer length in DICT
+		correct += cffDICTIntegerSize(charStringsOffset + prevCorrect) // integer length in DICT
 		if privateDICT != nil {
-			correct += cffDICTIntegerSize(privateOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(privateOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffINDEXOffSize(lenTopDICT+correct) - lenTopDICTINDEXOffSize // offSize in INDEX
+		correct += 2 * (cffINDEXOffSize(lenTopDICT+correct+1) - lenTopDICTINDEXOffSize) // two offsets in INDEX
 	}
 	charsetOffset += correct
 	charStringsOffset += correct
-- 
2.43.0


From 674c5ab1a34b1e648ecf19c7de14a8333370935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 100/115] fix: glyph names beyond the CFF ISOAdobe charset

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index ff1b6b5..eb69f0a 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -116,7 +116,7 @@ func (sfnt *SFNT) parseCFF() error {
 			return fmt.Errorf("CFF: Charset offset of %d not currently supported", topDICT.Charset)
 		}
 		charset = make([]string, charStringsINDEX.Len())
-		copy(charset, cffStandardStrings)
+		copy(charset, cffStandardStrings[:229]) // ISOAdobe
 	} else if 1 < charStringsINDEX.Len() {
 		r.Seek(int64(topDICT.Charset), 0)
 		if r.Len() == 0 {
-- 
2.43.0


From 067be2b61d2d584b28f4eaac6ea9b3375928b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 101/115] fix: CFF font of a single glyph with a custom charset
 had no glyph names

---
 sfnt_cff.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index eb69f0a..95789f3 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -160,6 +160,8 @@ func (sfnt *SFNT) parseCFF() error {
 		default:
 			return fmt.Errorf("CFF: unknown Charset format %d", format)
 		}
+	} else {
+		charset = []string{".notdef"}
 	}
 
 	sfnt.CFF = &cffTable{
-- 
2.43.0


From 7418ff7abab9069b76e2ce69e15423a62bc4338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:04 +0000
Subject: [PATCH 102/115] Revert "fix: size of the CFF number -32768"

The size is only compared with that of the real form, which is not shorter.
---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 95789f3..dcbae4d 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -861,7 +861,7 @@ func cffNumberSize(i int) int {
 		return 1
 	} else if -1131 <= i && i <= -108 || 108 <= i && i <= 1131 {
 		return 2
-	} else if -32768 <= i && i <= 32767 {
+	} else if -32767 <= i && i <= 32767 {
 		return 3
 	}
 	return 5
-- 
2.43.0


From 3782b0b0a8584b87e21674fc3d2f97f2b5840942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:06 +0000
Subject: [PATCH 103/115] Revert "fix: CFF INDEX of empty elements was written
 without its elements"

Elements without data are equivalent to missing ones everywhere.
---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index dcbae4d..9afb004 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1298,7 +1298,7 @@ func cffINDEXOffSize(n int) int {
 func (t *cffINDEX) Write() ([]byte, error) {
 	if math.MaxUint16 < len(t.offset)-1 {
 		return nil, fmt.Errorf("too many indices")
-	} else if t.Len() == 0 {
+	} else if len(t.data) == 0 {
 		return []byte{0, 0}, nil // zero count
 	} else if len(t.offset) == 0 || t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
 		return nil, fmt.Errorf("bad offsets")
-- 
2.43.0


From 521f6f11cdaf9bf1e1f8b87531c28d620e8c6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:46 +0000
Subject: [PATCH 104/115] fix: SetGlyphNames of CFF fonts kept the list of the
 caller and bad names after an error

---
 sfnt_subset.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 0c13eb2..923c848 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -546,9 +546,11 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 			return nil
 		}
 
-		sfnt.CFF.charset = names
+		charset := sfnt.CFF.charset
+		sfnt.CFF.charset = append([]string{}, names...)
 		b, err := sfnt.CFF.Write()
 		if err != nil {
+			sfnt.CFF.charset = charset
 			return err
 		}
 		sfnt.Tables["CFF "] = b
-- 
2.43.0


From fc52997e1bee5a51674409fcab0ec283046853a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:21 +0000
Subject: [PATCH 105/115] fix: kern subtables of more than 10920 pairs made the
 written font invalid

---
 sfnt_truetype.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index d8b44e8..8d8592a 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -669,10 +669,24 @@ func (sfnt *SFNT) parseKern() error {
 }
 
 func (kern *kernTable) Write() []byte {
-	w := parse.NewBinaryWriter([]byte{})
-	w.WriteUint16(0)                           // version
-	w.WriteUint16(uint16(len(kern.Subtables))) // nTables
+	// split subtables of which the length doesn't fit in a uint16
+	const maxPairs = (math.MaxUint16 - 14) / 6
+	subtables := make([]kernFormat0, 0, len(kern.Subtables))
 	for _, subtable := range kern.Subtables {
+		for maxPairs < len(subtable.Pairs) {
+			subtables = append(subtables, kernFormat0{
+				Coverage: subtable.Coverage,
+				Pairs:    subtable.Pairs[:maxPairs],
+			})
+			subtable.Pairs = subtable.Pairs[maxPairs:]
+		}
+		subtables = append(subtables, subtable)
+	}
+
+	w := parse.NewBinaryWriter([]byte{})
+	w.WriteUint16(0)                      // version
+	w.WriteUint16(uint16(len(subtables))) // nTables
+	for _, subtable := range subtables {
 		w.WriteUint16(0)                                     // version
 		w.WriteUint16(6 + 8 + 6*uint16(len(subtable.Pairs))) // length
 		w.WriteUint8(0)                                      // format
-- 
2.43.0


From 3cb44d4cb8b11811fb216f745330801a4f066ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:41 +0000
Subject: [PATCH 106/115] fix: keep kerning when merging CFF fonts

The kern table of the other font was only merged for TrueType fonts.
---
 sfnt_merge.go | 64 +++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 2e51dd7..8c7b74b 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -187,38 +187,6 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			sfnt.Loca.Format = indexToLocFormat
 			sfnt.Loca.data = w.Bytes()
 		}
-
-		if sfnt2.Kern != nil {
-			// update glyph IDs in kern table
-			if sfnt.Kern == nil {
-				sfnt.Kern = &kernTable{}
-			}
-			for _, subtable := range sfnt2.Kern.Subtables {
-				offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
-				pairs := make([]kernPair, 0, len(subtable.Pairs))
-				for _, pair := range subtable.Pairs {
-					l, r := uint16(pair.Key>>16), uint16(pair.Key)
-					if l == 0 || r == 0 || sfnt2.NumGlyphs() <= l || sfnt2.NumGlyphs() <= r {
-						// skip .notdef and glyphs that don't exist
-						continue
-					}
-					pairs = append(pairs, kernPair{
-						Key:   offset + pair.Key,
-						Value: pair.Value,
-					})
-				}
-				if len(pairs) == 0 {
-					continue
-				}
-				sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, kernFormat0{
-					Coverage: subtable.Coverage,
-					Pairs:    pairs,
-				})
-			}
-			if 0 < len(sfnt.Kern.Subtables) {
-				sfnt.Tables["kern"] = sfnt.Kern.Write()
-			}
-		}
 	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
 		// find new subroutines (don't change those of either font), of which the new number may
 		// change the index encoding / bias
@@ -327,6 +295,38 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["CFF "] = b
 	}
 
+	if sfnt2.Kern != nil {
+		// update glyph IDs in kern table
+		if sfnt.Kern == nil {
+			sfnt.Kern = &kernTable{}
+		}
+		for _, subtable := range sfnt2.Kern.Subtables {
+			offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
+			pairs := make([]kernPair, 0, len(subtable.Pairs))
+			for _, pair := range subtable.Pairs {
+				l, r := uint16(pair.Key>>16), uint16(pair.Key)
+				if l == 0 || r == 0 || sfnt2.NumGlyphs() <= l || sfnt2.NumGlyphs() <= r {
+					// skip .notdef and glyphs that don't exist
+					continue
+				}
+				pairs = append(pairs, kernPair{
+					Key:   offset + pair.Key,
+					Value: pair.Value,
+				})
+			}
+			if len(pairs) == 0 {
+				continue
+			}
+			sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, kernFormat0{
+				Coverage: subtable.Coverage,
+				Pairs:    pairs,
+			})
+		}
+		if 0 < len(sfnt.Kern.Subtables) {
+			sfnt.Tables["kern"] = sfnt.Kern.Write()
+		}
+	}
+
 	if _, ok := sfnt.Tables["hmtx"]; ok {
 		lsbs := make([]int16, numGlyphs)
 		advances := make([]uint16, numGlyphs)
-- 
2.43.0


From 427c581d858f975575eeacd303a3b45d6690faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:41 +0000
Subject: [PATCH 107/115] fix: keep the freetype font intact in FromGoFreetype

The tables are slices of the source file: clearing the checksum and adding
padding overwrote the head table and the bytes following a table. Also leave
out vmtx, which is invalid without the vhea table.
---
 font.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 8d5bd1f..5db7e9a 100644
--- a/font.go
+++ b/font.go
@@ -125,7 +125,7 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	tables["name"] = v.FieldByName("name").Bytes()
 	tables["OS/2"] = v.FieldByName("os2").Bytes()
 	tables["prep"] = v.FieldByName("prep").Bytes()
-	tables["vmtx"] = v.FieldByName("vmtx").Bytes()
+	// vmtx is left out as the vhea table is not kept by freetype
 
 	// reconstruct missing post table
 	post := parse.NewBinaryWriter([]byte{})
@@ -144,6 +144,7 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	tags := []string{}
 	for tag, table := range tables {
 		if 0 < len(table) {
+			tables[tag] = append([]byte(nil), table...) // keep the original font intact
 			tags = append(tags, tag)
 		}
 	}
-- 
2.43.0


From 15845c28b24873cdece745e494161f6e58c6d4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:41 +0000
Subject: [PATCH 108/115] fix: round negative AFM metrics to the nearest
 integer

---
 afm.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/afm.go b/afm.go
index 26acd35..f13425c 100644
--- a/afm.go
+++ b/afm.go
@@ -189,7 +189,7 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			// TODO: W0X, W1X, W0Y, W1Y, W, W0, W1, VV, L
 			case "WX", "WY":
 				f, pos = afmParseNumber(line, pos)
-				charMetrics.Width = uint16(f + 0.5)
+				charMetrics.Width = uint16(int32(math.Round(f)))
 			case "N":
 				name, pos = afmParseString(line, pos)
 			case "B":
@@ -348,13 +348,13 @@ Scanner:
 			}
 		case "CapHeight":
 			f, _ = afmParseNumber(line, pos)
-			afm.CapHeight = uint16(f + 0.5)
+			afm.CapHeight = uint16(int32(math.Round(f)))
 		case "XHeight":
 			f, _ = afmParseNumber(line, pos)
-			afm.XHeight = uint16(f + 0.5)
+			afm.XHeight = uint16(int32(math.Round(f)))
 		case "Ascender":
 			f, _ = afmParseNumber(line, pos)
-			afm.Ascender = uint16(f + 0.5)
+			afm.Ascender = uint16(int32(math.Round(f)))
 		case "Descender":
 			f, _ = afmParseNumber(line, pos)
 			afm.Descender = uint16(int16(math.Round(f)))
@@ -363,7 +363,7 @@ Scanner:
 			afm.UnderlinePosition = uint16(int16(math.Round(f)))
 		case "UnderlineThickness":
 			f, _ = afmParseNumber(line, pos)
-			afm.UnderlineThickness = uint16(f + 0.5)
+			afm.UnderlineThickness = uint16(int32(math.Round(f)))
 		case "ItalicAngle":
 			afm.ItalicAngle, _ = afmParseNumber(line, pos)
 		case "StartCharMetrics":
-- 
2.43.0


From a2d385544647118560112c2c29fa78c16bad5a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:41 +0000
Subject: [PATCH 109/115] fix: overflow for dates in the head table

Times of more than 292 years after 1904 overflow time.Duration.
---
 sfnt.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 06b9ee3..403e2b0 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -550,6 +550,9 @@ func (sfnt *SFNT) Write() []byte {
 
 ////////////////////////////////////////////////////////////////
 
+// macEpoch is 1904-01-01 in Unix time.
+const macEpoch = -2082844800
+
 type headTable struct {
 	FontRevision           uint32
 	Flags                  [16]bool
@@ -590,8 +593,8 @@ func (sfnt *SFNT) parseHead() error {
 	if math.MaxInt64 < created || math.MaxInt64 < modified {
 		return fmt.Errorf("head: created and/or modified dates too large")
 	}
-	sfnt.Head.Created = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Second * time.Duration(created))
-	sfnt.Head.Modified = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Second * time.Duration(modified))
+	sfnt.Head.Created = time.Unix(int64(created)+macEpoch, 0).UTC()
+	sfnt.Head.Modified = time.Unix(int64(modified)+macEpoch, 0).UTC()
 	sfnt.Head.XMin = r.ReadInt16()
 	sfnt.Head.YMin = r.ReadInt16()
 	sfnt.Head.XMax = r.ReadInt16()
-- 
2.43.0


From 9104866e46ea0ef527b7962074614b43eaf7dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:41 +0000
Subject: [PATCH 110/115] fix: estimated x-height and cap height for fonts
 without x or H

The bounds of .notdef were used, the specification sets them to zero. For CFF
fonts use the rounded bounds of the glyph, which may lie below the baseline.
---
 sfnt_os2.go | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index aea37af..ff266ed 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -138,26 +138,11 @@ func (sfnt *SFNT) parseOS2() error {
 }
 
 func (sfnt *SFNT) estimateOS2() {
-	if sfnt.IsTrueType {
-		contour, err := sfnt.Glyf.Contour(sfnt.GlyphIndex('x'))
-		if err == nil {
-			sfnt.OS2.SxHeight = contour.YMax
-		}
-
-		contour, err = sfnt.Glyf.Contour(sfnt.GlyphIndex('H'))
-		if err == nil {
-			sfnt.OS2.SCapHeight = contour.YMax
-		}
-	} else if sfnt.IsCFF {
-		p := &bboxPather{}
-		if err := sfnt.CFF.ToPath(p, sfnt.GlyphIndex('x'), 0, 0, 0, 1.0, NoHinting); err == nil {
-			sfnt.OS2.SxHeight = int16(p.YMax)
-		}
-
-		p = &bboxPather{}
-		if err := sfnt.CFF.ToPath(p, sfnt.GlyphIndex('H'), 0, 0, 0, 1.0, NoHinting); err == nil {
-			sfnt.OS2.SCapHeight = int16(p.YMax)
-		}
+	if glyphID := sfnt.GlyphIndex('x'); glyphID != 0 {
+		_, _, _, sfnt.OS2.SxHeight = sfnt.GlyphBounds(glyphID)
+	}
+	if glyphID := sfnt.GlyphIndex('H'); glyphID != 0 {
+		_, _, _, sfnt.OS2.SCapHeight = sfnt.GlyphBounds(glyphID)
 	}
 }
 
-- 
2.43.0


From 31a938d831d826990038a3e195cdf0c41a028339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:27 +0000
Subject: [PATCH 111/115] fix: update the first and last character of the OS/2
 table when merging

As is done for subsets.
---
 sfnt_merge.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 8c7b74b..53ecb57 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -419,6 +419,11 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		binary.BigEndian.PutUint32(table[46:], sfnt.OS2.UlUnicodeRange2)
 		binary.BigEndian.PutUint32(table[50:], sfnt.OS2.UlUnicodeRange3)
 		binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange4)
+		if 0 < len(rs) {
+			sfnt.OS2.UsFirstCharIndex, sfnt.OS2.UsLastCharIndex = os2CharIndices(rs)
+			binary.BigEndian.PutUint16(table[64:], sfnt.OS2.UsFirstCharIndex)
+			binary.BigEndian.PutUint16(table[66:], sfnt.OS2.UsLastCharIndex)
+		}
 	}
 
 	if _, ok := sfnt.Tables["post"]; ok && 0 < len(sfnt.Post.glyphNameIndex) {
-- 
2.43.0


From 6cc6d6735c51c9c67f5e20095b64c07048d58c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:56 +0000
Subject: [PATCH 112/115] fix: kerning of glyphs that do not exist applied to
 merged glyphs

---
 sfnt_merge.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 53ecb57..ae545f5 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -295,6 +295,26 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["CFF "] = b
 	}
 
+	if sfnt.Kern != nil {
+		// remove pairs with glyphs that don't exist, they would apply to the glyphs of the other font
+		subtables := make([]kernFormat0, 0, len(sfnt.Kern.Subtables))
+		for _, subtable := range sfnt.Kern.Subtables {
+			pairs := make([]kernPair, 0, len(subtable.Pairs))
+			for _, pair := range subtable.Pairs {
+				if uint16(pair.Key>>16) < origNumGlyphs && uint16(pair.Key) < origNumGlyphs {
+					pairs = append(pairs, pair)
+				}
+			}
+			if 0 < len(pairs) {
+				subtables = append(subtables, kernFormat0{
+					Coverage: subtable.Coverage,
+					Pairs:    pairs,
+				})
+			}
+		}
+		sfnt.Kern = &kernTable{Subtables: subtables}
+		sfnt.Tables["kern"] = sfnt.Kern.Write()
+	}
 	if sfnt2.Kern != nil {
 		// update glyph IDs in kern table
 		if sfnt.Kern == nil {
-- 
2.43.0


From a2117eabcf4af2ff6b08a969ff15a4392aa55536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:46 +0000
Subject: [PATCH 113/115] fix: bound the work and the number of points of
 nested composite glyphs

---
 sfnt_truetype.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 8d8592a..2aeb0f0 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -63,6 +63,9 @@ func (contour *glyfContour) String() string {
 	return b.String()
 }
 
+// maxGlyphComponents is the maximum number of components of a composite glyph, including those of nested composite glyphs. It bounds the work for glyphs that refer to the same components over and over.
+const maxGlyphComponents = math.MaxUint16
+
 type glyfTable struct {
 	data []byte
 	loca *locaTable
@@ -89,10 +92,10 @@ func (glyf *glyfTable) IsComposite(glyphID uint16) bool {
 
 // Dependencies returns all the glyph IDs that a composite glyph uses.
 func (glyf *glyfTable) Dependencies(glyphID uint16) ([]uint16, error) {
-	return glyf.dependencies(glyphID, 0)
+	return glyf.dependencies(glyphID, 0, new(int))
 }
 
-func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error) {
+func (glyf *glyfTable) dependencies(glyphID uint16, level int, components *int) ([]uint16, error) {
 	deps := []uint16{glyphID}
 	b := glyf.Get(glyphID)
 	if b == nil {
@@ -119,7 +122,10 @@ func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error)
 
 			flags := r.ReadUint16()
 			subGlyphID := r.ReadUint16()
-			subDeps, err := glyf.dependencies(subGlyphID, level+1)
+			if *components++; maxGlyphComponents < *components {
+				return nil, fmt.Errorf("glyf: too many components in glyphID %v", glyphID)
+			}
+			subDeps, err := glyf.dependencies(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
 			}
@@ -157,10 +163,10 @@ func glyfCompositeLength(flags uint16) (length uint32, more bool) {
 // Contour returns the contours of a glyph. It unpacks composite glyphs into their final shape.
 func (glyf *glyfTable) Contour(glyphID uint16) (*glyfContour, error) {
 	// TODO: cache output
-	return glyf.contour(glyphID, 0)
+	return glyf.contour(glyphID, 0, new(int))
 }
 
-func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error) {
+func (glyf *glyfTable) contour(glyphID uint16, level int, components *int) (*glyfContour, error) {
 	b := glyf.Get(glyphID)
 	if b == nil {
 		return nil, fmt.Errorf("glyf: bad glyphID %v", glyphID)
@@ -332,9 +338,14 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 				hasInstructions = true
 			}
 
-			subContour, err := glyf.contour(subGlyphID, level+1)
+			if *components++; maxGlyphComponents < *components {
+				return nil, fmt.Errorf("glyf: too many components in glyphID %v", glyphID)
+			}
+			subContour, err := glyf.contour(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
+			} else if math.MaxUint16+1 < len(contour.XCoordinates)+len(subContour.XCoordinates) {
+				return nil, fmt.Errorf("glyf: too many points in glyphID %v", glyphID)
 			}
 
 			var numPoints uint16
-- 
2.43.0


From 1f4e00b3581107278a68988a18b5939c2ca1e273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:36 +0000
Subject: [PATCH 114/115] fix: bound the work of nested CFF subroutines

---
 sfnt_cff.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 9afb004..a3682f5 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -404,6 +404,9 @@ func (cff *cffTable) getSubroutine(glyphID uint16, b0 int32, stack int32) (int32
 	return index, subr, nil
 }
 
+// cffMaxCallLength is the maximum total length of the subroutines executed for a single charstring.
+const cffMaxCallLength = 1 << 20
+
 // parseCharString calls the callback for each operator with the operator, its operands, and the position of the operand that directly precedes the operator in the same (sub)charstring, which is -1 if there is none.
 func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int32, []int32, int64) error) error {
 	table := "CFF"
@@ -419,6 +422,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 	}
 
 	callStack := []*parse.BinaryReader{}
+	callLength := 0
 	r := parse.NewBinaryReaderBytes(charString)
 
 	hints := 0
@@ -529,6 +533,11 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				}
 				stack = stack[:len(stack)-1]
 
+				// nested subroutines can otherwise take exponential time
+				callLength += 1 + len(subr)
+				if cffMaxCallLength < callLength {
+					return fmt.Errorf("%v: subroutines too long", table)
+				}
 				callStack = append(callStack, r)
 				r = parse.NewBinaryReaderBytes(subr)
 			case cffReturn:
-- 
2.43.0


From e429be3748adcf4d686c7dc8692476084e6608dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:34 +0000
Subject: [PATCH 115/115] fix: keep glyph names when setting glyph names of a
 TrueType font fails

---
 sfnt_subset.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 923c848..b68f403 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -561,11 +561,8 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 		return fmt.Errorf("post table doesn't exist")
 	}
 
-	sfnt.Post.NumGlyphs = sfnt.NumGlyphs()
-	sfnt.Post.glyphNameIndex = make([]uint16, sfnt.NumGlyphs())
-	sfnt.Post.stringData = [][]byte{}
-	sfnt.Post.nameMap = nil
-	sfnt.Post.once = sync.Once{} // rebuild the name map on the next lookup
+	glyphNameIndex := make([]uint16, sfnt.NumGlyphs())
+	stringData := [][]byte{}
 
 	indices := map[string]uint16{macintoshGlyphNames[0]: 0} // unnamed glyphs refer to .notdef
 	if int(sfnt.NumGlyphs()) < len(names) {
@@ -574,20 +571,27 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	for glyphID, name := range names {
 		index, ok := indices[name]
 		if !ok {
-			if math.MaxUint16 < len(sfnt.Post.stringData)+258 {
+			if math.MaxUint16 < len(stringData)+258 {
 				return fmt.Errorf("invalid post table: stringData has too many entries")
 			}
-			index = uint16(len(sfnt.Post.stringData) + 258)
-			sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
+			index = uint16(len(stringData) + 258)
+			stringData = append(stringData, []byte(name))
 			indices[name] = index
 		}
-		sfnt.Post.glyphNameIndex[uint16(glyphID)] = index
+		glyphNameIndex[uint16(glyphID)] = index
 	}
 
+	oldNumGlyphs, oldGlyphNameIndex, oldStringData := sfnt.Post.NumGlyphs, sfnt.Post.glyphNameIndex, sfnt.Post.stringData
+	sfnt.Post.NumGlyphs = sfnt.NumGlyphs()
+	sfnt.Post.glyphNameIndex = glyphNameIndex
+	sfnt.Post.stringData = stringData
 	b, err := sfnt.Post.Write()
 	if err != nil {
+		sfnt.Post.NumGlyphs, sfnt.Post.glyphNameIndex, sfnt.Post.stringData = oldNumGlyphs, oldGlyphNameIndex, oldStringData
 		return err
 	}
+	sfnt.Post.nameMap = nil
+	sfnt.Post.once = sync.Once{} // rebuild the name map on the next lookup
 
 	sfnt.Tables["post"] = b
 	return nil
-- 
2.43.0

