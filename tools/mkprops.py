#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Parsing an SFNT font never crashes or hangs on untrusted bytes",
  "For every byte string and every collection index, parsing it as a font with ParseSFNT, ParseEmbeddedSFNT or ParseFont returns either a font or an error; it never panics, never loops forever and never allocates memory out of proportion to the input.",
  ["inputs"], "all byte strings (table directory, TTC header, and the body of every table that is parsed) and every index",
  "Tests parse four well-formed fonts and the W3C validation files; crashes need rare combinations of offsets, lengths and counts inside a table.",
  ["sfnt.go","sfnt_cmap.go","sfnt_truetype.go","sfnt_cff.go","sfnt_os2.go","font.go"],
  [("directory and per-table bounds checks","sfnt.go parseSFNT, parseHead..parsePost"),("cmap subtable bounds checks","sfnt_cmap.go parseCmap"),("INDEX/DICT/charset bounds checks","sfnt_cff.go parseCFF, parseINDEX")],
  ["ParseSFNT","ParseEmbeddedSFNT"])
p("C02", "Queries on an accepted font never crash",
  "For every font that parses without error and every glyph ID, rune or name, the queries (glyph index, reverse mapping, name lookup, outline, bounds, advance, vertical advance, kerning, vertical metrics) return a value or an error; they never panic or loop forever, even when glyph, mapping or charstring data is malformed.",
  ["inputs"], "all accepted fonts whose glyf/loca/cmap/hmtx/vmtx/post/kern/CFF bytes are arbitrary, and all query arguments",
  "Glyph data is decoded lazily, so acceptance by the parser says nothing about queries; tests query a few glyphs of good fonts.",
  ["sfnt.go","sfnt_truetype.go","sfnt_cmap.go","sfnt_cff.go"],
  [("glyph decoding bounds checks","sfnt_truetype.go glyfTable.Contour/ToPath, locaTable.Get"),("charstring interpreter limits","sfnt_cff.go parseCharString"),("lookup index checks","sfnt_cmap.go Get, sfnt.go hmtx/vmtx/post")],
  ["SFNT.GlyphPath","SFNT.GlyphIndex","SFNT.GlyphName"])
p("C03", "Unpacking WOFF, WOFF2 and EOT never crashes or hangs on untrusted bytes",
  "For every byte string, ToSFNT, ParseWOFF, ParseWOFF2 and ParseEOT return SFNT bytes or an error; they never panic or loop forever, whatever the header, the table directory, or the decompressed transformed tables contain.",
  ["inputs"], "all byte strings, including all decompressed payloads",
  "The W3C validation files sample a few dozen malformed headers; reconstruction of transformed tables is driven by seven interleaved streams whose contents are arbitrary.",
  ["woff.go","woff2.go","eot.go","font.go"],
  [("header/directory validation","woff.go ParseWOFF, woff2.go ParseWOFF2, eot.go ParseEOT"),("stream bounds checks","woff2.go reconstructGlyfLoca, reconstructHmtx, readUintBase128, read255Uint16")],
  ["ToSFNT","ParseWOFF","ParseWOFF2","ParseEOT"])
p("C04", "Parsing and unpacking leave the caller's bytes unchanged",
  "MediaType, Extension, ToSFNT, ParseWOFF, ParseWOFF2, ParseEOT and ParseSFNT never modify the byte slice they are given, so handling the same bytes a second time gives the same result.",
  ["inputs","histories"], "all accepted and rejected inputs; two consecutive calls on the same slice",
  "Tests read a fresh file for each call and never look at the input afterwards.",
  ["woff.go","woff2.go","eot.go","sfnt.go","font.go"],
  [("copies of table data before patching","woff.go, woff2.go head checkSumAdjustment"),("XOR decryption of EOT payload","eot.go")],
  ["ParseEOT","ParseWOFF","ParseWOFF2"])
p("C05", "Rune to glyph lookup follows the cmap subtable formats",
  "For every rune, GlyphIndex returns exactly the glyph that the font's character map assigns to it under the OpenType rules of its subtable format (0, 4, 6 or 12, including delta arithmetic modulo 65536 and range-offset arrays) and 0 when the rune is not mapped.",
  ["inputs"], "all runes, all well-formed subtable contents of each format up to the stated segment and array sizes",
  "Tests look up a handful of runes in one font with one subtable; segment boundaries, delta wrap-around and range-offset arithmetic have 2^16+ cases each.",
  ["sfnt_cmap.go","sfnt.go"],
  [("subtable parsers","sfnt_cmap.go parseCmap"),("lookup","sfnt_cmap.go cmapFormat*.Get")], ["SFNT.GlyphIndex"])
p("C06", "Glyph to runes is the exact inverse of rune to glyph",
  "Every rune that GlyphIndex maps to a non-zero glyph is listed exactly once by GlyphToUnicode for that glyph, and for every font with a single character map the runes GlyphToUnicode lists for a glyph all map to that glyph through GlyphIndex.",
  ["inputs"], "all runes, all glyph IDs, all well-formed subtable contents up to the stated sizes",
  "It relates two independently written traversals for every rune and glyph; the tests check neither direction of the inverse.",
  ["sfnt_cmap.go"], [("reverse traversal","sfnt_cmap.go cmapFormat*.ToUnicode"),("forward lookup","sfnt_cmap.go cmapFormat*.Get")],
  ["SFNT.GlyphToUnicode","SFNT.GlyphIndex"])
p("C07", "A subset keeps exactly the rune mapping of the retained glyphs",
  "After Subset with a list of distinct glyphs that starts with glyph 0 and a write/parse round trip, every rune that mapped to a retained glyph in the source maps to that glyph's new ID in the subset, and every other rune maps to glyph 0.",
  ["inputs"], "all rune-to-glyph assignments (BMP and supplementary) and all glyph lists up to the stated sizes",
  "The written cmap uses segment merging heuristics whose branches depend on run lengths and deltas; the one subset test covers one font and one list.",
  ["sfnt_cmap.go","sfnt_subset.go"], [("cmap writer","sfnt_cmap.go cmapWrite"),("mapping collection","sfnt_subset.go Subset")],
  ["SFNT.Subset","SFNT.GlyphIndex"])
p("C08", "A subset keeps outlines and composite components of TrueType glyphs",
  "For every glyph list that starts with glyph 0 (later repetitions allowed), glyph i of the subset has the same outline, bounding box, instructions and overlap flag as glyph list[i] of the source, with all glyphs that composites refer to (directly or through other composites) included and re-pointed; listed glyphs keep the order of the list and glyph 0 stays first (Subset deliberately writes an empty outline for .notdef, so glyph 0 itself and composites that refer to glyph 0 are exempt).",
  ["inputs"], "all simple-glyph coordinates/flags, component structures and glyph lists up to the stated sizes",
  "Outline re-encoding depends on coordinate deltas and flag repetition; composite renumbering depends on the graph of references. Tests only check one list on one font.",
  ["sfnt_subset.go","sfnt_truetype.go"], [("glyph list closure","sfnt_subset.go Subset"),("glyf/loca re-encoding","sfnt_subset.go"),("Dependencies","sfnt_truetype.go glyfTable.Dependencies")],
  ["SFNT.Subset","SFNT.GlyphPath","SFNT.GlyphBounds"])
p("C09", "A subset keeps advances, side bearings, names and kerning of retained glyphs",
  "For every glyph list that starts with glyph 0, GlyphAdvance, GlyphVerticalAdvance, the left side bearing, the glyph name (CFF fonts; TrueType subsets deliberately carry a post table without names) and the kerning of every pair of retained glyphs other than .notdef in the subset equal those of the corresponding source glyphs.",
  ["inputs"], "all metric values, shared-advance tails, kerning pair sets, name assignments and glyph lists up to the stated sizes",
  "Metrics tables are rewritten with a run-compressed tail and kerning pairs are filtered and renumbered; tests do not compare metrics after subsetting.",
  ["sfnt_subset.go","sfnt.go","sfnt_truetype.go"], [("hmtx/vmtx rewriting","sfnt_subset.go"),("kern filtering","sfnt_subset.go, kernTable.Write"),("post rewriting","sfnt_subset.go, sfnt.go postTable.Write")],
  ["SFNT.GlyphAdvance","SFNT.Kerning","SFNT.GlyphName"])
p("C10", "Subsetting leaves the source font and the caller's glyph list intact",
  "Subset does not change anything observable about the font it is called on nor the glyph list and table list it is given, even when a list is a slice of a larger array; repeating the call gives the same bytes.",
  ["inputs","histories"], "all glyph lists, table contents up to the stated sizes; two consecutive operations on the same font; any map iteration order",
  "Aliasing between source and result only shows when the source is used again afterwards; tests discard it.",
  ["sfnt_subset.go","sfnt_cff.go","sfnt_os2.go"], [("table copies","sfnt_subset.go Subset")], ["SFNT.Subset","SFNT.Write"])
p("C11", "Merging keeps both fonts' glyphs, metrics, mapping and kerning",
  "After a.Merge(b), every glyph of a keeps its ID and every observable (outline, advance, mapping, kerning, name), and every rune that only b maps is mapped to a glyph with b's outline, advance, name and kerning (with RearrangeCmap the runes are assigned from U+0021 in order instead: glyph i from rune i+32). When both fonts map the same rune, Merge returns an error and leaves a unchanged. The limits in maxp and the character ranges in OS/2 cover both fonts. Merging never modifies b.",
  ["inputs"], "all pairs of small fonts over the stated symbolic mappings, outlines, metrics, kerning pairs; both loca formats; TrueType and CFF",
  "The merge tests do not exist in the suite; offsets of two fonts are combined arithmetically.",
  ["sfnt_merge.go"], [("glyf/loca concatenation","sfnt_merge.go Merge"),("kern combination","sfnt_merge.go Merge"),("cmap combination","sfnt_merge.go Merge")],
  ["SFNT.Merge","SFNT.GlyphIndex","SFNT.Kerning","SFNT.GlyphPath"])
p("C12", "Writing a font yields a well-formed SFNT file with the same tables",
  "Write returns a file whose table directory is sorted, 4-byte aligned, in bounds and non-overlapping with correct table checksums and a correct whole-file checksum adjustment, and which parses back to a font with the same table contents.",
  ["inputs"], "all table contents and lengths (every residue modulo 4) up to the stated sizes, and all sets of tables",
  "Checksums and padding depend on lengths and contents the one test font does not vary.",
  ["sfnt.go","sfnt_util.go"], [("SFNT writer","sfnt.go SFNT.Write"),("checksum","sfnt_util.go calcChecksum")], ["SFNT.Write","ParseSFNT"])
p("C13", "WOFF2 output decodes back to the same font",
  "For every font, decoding the bytes from WriteWOFF2 gives an SFNT font with the same glyph outlines, bounding boxes, instructions, advances, side bearings, mapping and other table contents as the font that was written (the WOFF2 transform itself turns a glyph record without contours into an empty glyph, drops the DSIG table, and sets bit 11 of the head flags).",
  ["inputs"], "all glyph coordinates, flags, instructions, stored bounding boxes, composite flags and side bearings up to the stated sizes",
  "The encoder's triplet, bounding-box, overlap and side-bearing choices depend on data values; the test suite only decodes.",
  ["woff2.go"], [("glyf transform and its inverse","woff2.go transformGlyf / reconstructGlyfLoca"),("hmtx transform and its inverse","woff2.go transformHmtx / reconstructHmtx"),("variable-length integers","woff2.go")],
  ["SFNT.WriteWOFF2","ParseWOFF2"])
p("C14", "WOFF2 decoding follows the specified encodings",
  "Decoding a WOFF2 file reconstructs the glyph points, instructions, bounding boxes, offsets and metrics that the WOFF2 specification assigns to the transformed streams: every coordinate triplet, every variable-length integer form, explicit and computed bounding boxes, and omitted side bearings.",
  ["inputs"], "all flag bytes and coordinate bytes, all 255UInt16 and UIntBase128 encodings, all bounding-box bitmaps up to the stated glyph counts",
  "There are 128 triplet classes each with its own arithmetic; the validation fonts hit a fraction and compare only file-level results.",
  ["woff2.go"], [("triplet decoding","woff2.go reconstructGlyfLoca"),("varints","woff2.go readUintBase128, read255Uint16"),("side bearing reconstruction","woff2.go reconstructHmtx")],
  ["ParseWOFF2"])
p("C15", "WOFF and EOT unpacking return exactly the embedded font",
  "For every well-formed WOFF file the unpacked SFNT has the same tables, byte for byte, in a valid directory with correct checksums; WOFF files whose table checksums or lengths do not match the data are errors; for every well-formed EOT file, encrypted or not and with any header strings, the unpacked data is exactly the embedded font data. EOT files with compressed font data (not supported) are errors.",
  ["inputs"], "all table contents and lengths, compressed or stored tables, EOT header versions and string lengths up to the stated sizes",
  "Tests compare one file of each kind.",
  ["woff.go","eot.go"], [("table reassembly","woff.go ParseWOFF"),("header walk and XOR","eot.go ParseEOT")], ["ParseWOFF","ParseEOT","ToSFNT"])
p("C16", "TrueType glyph outlines are decoded as the format specifies",
  "GlyphPath and GlyphBounds report for every simple glyph the contours its flags and deltas encode: repeated flags, short and long deltas, implied on-curve midpoints, contours that start off-curve, and closing segments, scaled and translated as requested.",
  ["inputs"], "all flag bytes, deltas and contour splits up to the stated point counts",
  "Every flag combination per point and every on/off-curve pattern per contour takes a different route; tests draw a few glyphs.",
  ["sfnt_truetype.go"], [("glyph decoding","sfnt_truetype.go glyfTable.contour"),("path reconstruction","sfnt_truetype.go glyfTable.ToPath")], ["SFNT.GlyphPath","SFNT.GlyphBounds"])
p("C17", "Composite glyphs place their components as the format specifies",
  "The outline of a composite glyph is the union of its components' outlines, each transformed by the scale, two-scale or 2x2 matrix and the (unscaled) byte or word offsets it declares, up to rounding of each coordinate by one unit; cyclic or over-deep references give an error.",
  ["inputs"], "all component flags, offsets and F2Dot14 matrix entries (stated values), all reference structures up to the stated depth",
  "Component records have several optional fields whose presence shifts all later ones; tests contain few composites and no scaled ones.",
  ["sfnt_truetype.go"], [("component decoding","sfnt_truetype.go glyfTable.contour"),("recursion limit","sfnt_truetype.go")], ["SFNT.GlyphPath"])
p("C18", "CFF charstrings draw the outline the Type 2 format specifies",
  "For every valid Type 2 charstring without the arithmetic, storage and conditional operators and without the deprecated accent form of endchar (which the package does not support and rejects with an error), GlyphPath draws exactly the segments its operators and operands define (all line, curve, flex, hint, mask and subroutine operators, every number encoding, optional width).",
  ["inputs"], "all operand values and operand counts per operator up to the stated lengths; all number encodings; subroutine counts around the bias thresholds",
  "Operators behave differently by argument count parity and preceding width or hints; tests draw one font.",
  ["sfnt_cff.go"], [("charstring interpreter","sfnt_cff.go parseCharString, ToPath"),("subroutine lookup and bias","sfnt_cff.go")], ["SFNT.GlyphPath","SFNT.GlyphBounds"])
p("C19", "CFF subsets keep glyph outlines through subroutine renumbering",
  "After Subset of a CFF font and a write/parse round trip, every retained glyph draws the same outline, including when it calls local or global subroutines, nested ones, or when subroutine counts cross a bias threshold.",
  ["inputs"], "all call structures, operand values and glyph lists up to the stated sizes",
  "Renumbering rewrites operands in place with encodings of different length; the suite has no CFF subset test.",
  ["sfnt_cff.go","sfnt_subset.go"], [("subroutine pruning","sfnt_cff.go ReindexSubrs, updateSubrs"),("CFF writer","sfnt_cff.go cffTable.Write")], ["SFNT.Subset","SFNT.GlyphPath"])
p("C20", "CFF data written by the library reads back as the same values",
  "CFF indexes, dictionaries (integers and reals of every magnitude), string tables and charsets written by the library decode to the values that were written, for every count, offset size and length.",
  ["inputs"], "all values of dictionary operands, all index element lengths around the offset-size thresholds, all glyph-name assignments up to the stated sizes",
  "Encodings switch form at thresholds which one real font does not cross.",
  ["sfnt_cff.go"], [("INDEX/DICT writers and parsers","sfnt_cff.go cffINDEX.Write, parseINDEX, writeDICTEntry, parseDICT")], ["SFNT.Subset","SFNT.Write","ParseSFNT"])
p("C21", "Glyph metrics come from the right table record",
  "GlyphAdvance, GlyphVerticalAdvance and side bearings return the record of the glyph, or the last full record's advance for glyphs beyond the number of full records, and 0 or an in-table default for glyph IDs outside the font; VerticalMetrics and UnitsPerEm return the values the tables define, without wrap-around; the x-height and cap height that OS/2 tables of version 0 and 1 lack are the tops of the glyphs for x and H, 0 when the font has none.",
  ["inputs"], "all metric values, all splits between full and trailing records up to the stated glyph counts, all flag combinations and all 16-bit values",
  "Extreme 16-bit values and monospaced tails are absent from test fonts.",
  ["sfnt.go"], [("hmtx/vmtx","sfnt.go hmtxTable, vmtxTable"),("vertical metrics","sfnt.go VerticalMetrics")], ["SFNT.GlyphAdvance","SFNT.VerticalMetrics"])
p("C22", "Kerning returns the sum the kern subtables assign to a pair",
  "Kerning(left, right) equals the value of that exact pair in the font's horizontal kern subtables (version 0 tables, format 0 subtables, as combined by their coverage flags) and 0 for pairs that are not listed, and this survives writing and parsing the table.",
  ["inputs"], "all pair sets, values and coverage flags up to the stated sizes; all glyph pairs",
  "Binary search and coverage handling are input dependent; tests check two pairs.",
  ["sfnt_truetype.go","sfnt.go"], [("kern parser and lookup","sfnt_truetype.go parseKern, kernTable.Get")], ["SFNT.Kerning"])
p("C23", "Glyph names and glyph IDs map to each other consistently",
  "GlyphName returns the name the post or CFF table assigns to a glyph and FindGlyphName finds a glyph with that name; names set with SetGlyphNames are returned afterwards and survive write and parse (for a CFF font exactly one name per glyph, of which the first is .notdef; a call that fails leaves the names as they were).",
  ["inputs","histories"], "all name indices and name strings up to the stated sizes, queries before and after renaming",
  "Index arithmetic between the 258 standard names and custom strings, and lookups cached before a rename, are not tested.",
  ["sfnt.go","sfnt_subset.go","sfnt_cff.go"], [("post parser/writer","sfnt.go parsePost, postTable.Write"),("rename","sfnt_subset.go SetGlyphNames")], ["SFNT.GlyphName","SFNT.FindGlyphName","SFNT.SetGlyphNames"])
p("C24", "Header fields survive a subset or write/parse round trip",
  "Every field of the head, hhea, vhea, maxp, OS/2 and post records that the library parses has the same value after the font is subset (apart from fields that describe the glyph set) or written and parsed again, for every value of every field.",
  ["inputs"], "all 8/16/32/64-bit field values",
  "Fixed-point, signed and flag fields have extreme values that no sample font contains.",
  ["sfnt.go","sfnt_subset.go","sfnt_os2.go"], [("header parsers","sfnt.go parseHead.. parsePost"),("header writers","sfnt_subset.go, sfnt.go")], ["SFNT.Subset","SFNT.Write"])
p("C25", "Font type detection agrees with what unpacking accepts",
  "MediaType and Extension classify data by its signature, agree with each other, and ToSFNT dispatches on the same classification: SFNT data is returned as is, packed formats are unpacked, and anything unrecognised is an error.",
  ["inputs"], "all byte strings (all signatures and lengths)",
  "Three functions re-implement signature matching; tests do not compare them.",
  ["font.go"], [("signature switch","font.go MediaType, Extension, ToSFNT, NewSFNTReader")], ["MediaType","Extension","ToSFNT"])
p("C26", "System font matching returns the closest available style",
  "For every set of installed fonts, Match uses the first family of the request that has fonts (generic names stand for their list of families, in order), and returns the exact style when installed and otherwise the nearest weight of the same slant in CSS font-weight matching order; it finds nothing only when no family, or no style of that slant in it, is installed. It never modifies the font collection or the generic lists, and its answer does not depend on map iteration order or earlier queries.",
  ["inputs","histories","schedules"], "all sets of installed styles of up to the stated families, all requests, any map iteration order, repeated queries",
  "There are hundreds of style sets; tests contain none.",
  ["system.go"], [("style fallback","system.go SystemFonts.Match"),("style parsing","system.go ParseStyle, ParseStyleCSS")], ["SystemFonts.Match"])
p("C27", "Style parsing and CSS weights agree with the style names",
  "ParseStyleCSS maps every CSS weight and italic flag to the style of the nearest hundred, and parsing the string form of any valid style gives the style back.",
  ["inputs"], "all integer weights, both slants, all style values",
  "Weight tables and name tables are separate switch statements; not tested.",
  ["system.go"], [("style tables","system.go ParseStyle, ParseStyleCSS, Style.String")], ["ParseStyleCSS","ParseStyle"])
p("C28", "AFM parsing never crashes and reports the metrics in the file",
  "For every byte string ParseAFM returns an AFM font or an error without panicking or looping, and for well-formed input (with glyph names of the Adobe glyph list) the advance, bounds, name, index and kerning queries and the header fields return the values in the file rounded to the nearest integer, including negative and fractional numbers (negative values of unsigned fields as two's complement).",
  ["inputs"], "all byte strings up to the stated length in each section; all numbers up to the stated digits",
  "Tests parse one file and look at one glyph.",
  ["afm.go"], [("AFM parser","afm.go ParseAFM")], ["ParseAFM","AFM.GlyphAdvance","AFM.Kerning"])
p("C29", "Name and metadata records are decoded to the right text",
  "Name table records are decoded by their platform encoding (UTF-16BE for Unicode and Windows, Mac Roman for Macintosh Roman, the bytes themselves otherwise) at the record's offset and length, Get lists all records of a name, and the family and style that the system font search reads from a font file are those of its English Windows records, preferring the typographic (preferred) names over the basic ones.",
  ["inputs"], "all record offsets, lengths and bytes up to the stated sizes",
  "Offsets and encodings per record are input dependent.",
  ["sfnt.go","system.go"], [("name parser","sfnt.go parseName"),("metadata reader","system.go getSFNTMetadata")], ["ParseSFNT","FindSystemFonts"])
p("C30", "Unicode range bits of a subset describe its characters",
  "After Subset the OS/2 record's Unicode range bits describe the retained runes: each rune sets the bit of its Unicode block (as assigned by the OpenType OS/2 specification), no bit is set without a retained rune in one of its blocks, and first/last character indices are the minimum and maximum rune, capped at 0xFFFF.",
  ["inputs"], "all runes",
  "The block table has 170 entries; no test.",
  ["sfnt_os2.go","sfnt_subset.go"], [("range bit lookup","sfnt_os2.go os2UlUnicodeRangeBit"),("bit placement","sfnt_subset.go")], ["SFNT.Subset"])
p("C31", "A font collection index selects exactly that font",
  "For a TrueType/OpenType collection and every index, parsing selects the font whose directory the index names, with the same tables, header values, metrics, mapping and outlines as that font stored alone, whatever the order of directories and table data and whichever tables the fonts share; indices outside the collection, non-zero indices of single fonts and directory offsets outside the file are errors; the selected font can be written as a file of its own.",
  ["inputs"], "all indices, all directory offsets, all header and metric values, collections of up to the stated number of fonts",
  "Tests contain no collection.",
  ["sfnt.go"], [("collection header","sfnt.go parseSFNT"),("writer","sfnt.go SFNT.Write")], ["ParseSFNT","ParseEmbeddedSFNT"])
p("C32", "Fonts of other Go font packages convert faithfully",
  "FromGoFreetype returns, for any TrueType font parsed by the freetype package, a well-formed file with correct checksums that ParseSFNT accepts and that holds the tables freetype keeps with unchanged contents (so the same mapping, metrics, kerning and outlines); neither the freetype font nor the bytes it was parsed from change, and converting again gives the same bytes. FromGoSFNT returns exactly the bytes the sfnt package was given.",
  ["inputs"], "all table contents and lengths up to the stated bounds, any padding and order of the tables in the source file, with and without kerning and vertical metrics",
  "Tests convert one font file and never look at the source font or its bytes afterwards.",
  ["font.go"], [("freetype","font.go FromGoFreetype"),("sfnt","font.go FromGoSFNT")], ["FromGoFreetype","FromGoSFNT"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), [x["id"] for x in P if len(x["title"]) > 80])
