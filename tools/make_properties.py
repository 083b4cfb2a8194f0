#!/usr/bin/env python3
"""Single source for properties.jsonl (run: make_properties.py > ../properties.jsonl)."""
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=mech,
                               observe_at=observe or ["public API return: frame buffer words and cursor"],
                               hook_needed=None)))
B, F = "src/blit.rs", "src/fonts/"
m = lambda n, w: dict(name=n, where=w)
FB = dict(name="frame buffer", meaning="536 rows of 11 words, 336 visible pixels per row, bit=1 is clear", where="src/framebuffer.rs")
CU = dict(name="cursor", meaning="top-left of the next glyph and tallest font seen on the line", where="src/cursor.rs")

p("C01", "Painting never changes a pixel outside the clip rectangle",
  "Whatever string is painted from whatever cursor position, paint_str only ever changes frame-buffer pixels that lie inside the given clip rectangle (min inclusive, max exclusive); the hidden padding columns to the right of the 336 visible pixels and all other rows and columns keep their contents. If the rectangle reaches beyond the screen or has no width or height, nothing at all is changed.",
  ["inputs"], "every string, style, cursor (inside, outside, far outside the rectangle or the screen), every clip rectangle valid or not, every prior frame-buffer content",
  "The tests paint a handful of strings with the full or padded screen; no test paints with a rectangle narrower than a glyph, crossing its edges, or checks which pixels stayed untouched.",
  [B, "src/cliprect.rs"], [m("clip guard, top/bottom/right clipping in xor_char", B)], [FB, CU])
p("C02", "clear_region sets exactly the pixels of the rectangle",
  "clear_region sets every pixel inside the rectangle (min inclusive, max exclusive) to clear and changes no other bit of the frame buffer, whatever it held before. A rectangle that extends beyond the screen, or has no width or no height, changes nothing.",
  ["inputs"], "every rectangle with arbitrary corners (all word alignments, single-word and multi-word spans, one-pixel rectangles, inverted and off-screen ones) and every prior frame-buffer content",
  "The only test clears the whole screen once; edges that fall inside a word, on a word boundary, or both in the same word are never exercised.",
  [B], [m("word masks in clear_region", B)], [FB])
p("C03", "Every API call returns normally for every argument",
  "paint_str, clear_region and all constructors and conversions of the public API return without panicking, overflowing or looping forever, in builds with and without overflow checks, for any string, any rectangle, any cursor and any style. This includes empty strings, control characters, unknown and unassigned characters, text that runs off any side of the screen, and coordinates up to the largest machine integer.",
  ["inputs", "histories", "configurations"], "every argument tuple and every sequence of calls that reuses the resulting cursor",
  "Tests use well-behaved arguments only; panics depend on rare combinations of glyph width, alignment, clip edges and cursor values.",
  [B, "src/fonts.rs", "src/cliprect.rs", "src/cursor.rs", "src/glyphstyle.rs", F], [m("guards, saturating cursor arithmetic, loop bound in paint_str", B)], [FB, CU])
p("C04", "A glyph's ink lands pixel-exactly at the cursor",
  "Painting one cluster inverts exactly the pixels of that glyph's artwork, with the artwork's left edge one pixel right of the cursor and its top at the cursor plus the artwork's own vertical offset, cropped to the clip rectangle. This holds for every horizontal position and word alignment, for every glyph width and height, and for glyphs cropped at the top, bottom or right by the rectangle.",
  ["inputs"], "every glyph of every font at every x position, y position and clip rectangle",
  "Frame-buffer hashes of a few strings cover a few alignments; the 336 x positions times 32 widths times crop amounts are not enumerable by hand-written tests.",
  [B, "src/fonts.rs", F], [m("unpacking, shifting and masking of pattern rows in xor_char", B), m("glyph header and data access", "src/fonts.rs")], [FB])
p("C05", "Every supported cluster and alias draws its own artwork",
  "For every grapheme cluster in the font index files and every alias in the alias files, painting it draws exactly the artwork of its cell in the sprite sheet of the right font, and nothing else. Precomposed and decomposed forms, and emoji with and without variation selectors listed as aliases, draw the same picture; a single character that is in no index draws the replacement character.",
  ["inputs"], "all 3714 emoji clusters, 8377 ideographs and 259 Latin clusters in each of three styles, and every other Unicode scalar value",
  "Tests render about a hundred distinct clusters and check table order only; a wrong offset, hash, range or bitmap of any other entry is invisible to them.",
  [F + "emoji.rs", F + "hanzi.rs", F + "bold.rs", F + "regular.rs", F + "small.rs", "src/fonts.rs", "src/m3hash.rs", B],
  [m("per-block hash tables, offsets and DATA", F), m("murmur3 over the first n codepoints", "src/m3hash.rs")])
p("C06", "Text is split greedily; nothing is lost, repeated or invented",
  "A string is painted left to right, at each position taking the longest supported emoji cluster, otherwise the longest Latin cluster of the style, otherwise an ideograph. A character that starts no supported cluster draws exactly one replacement glyph and is skipped as one character; every character of the string is consumed exactly once, whatever its length in bytes, and an empty string does nothing.",
  ["inputs"], "every string, including mixes of emoji sequences, combining marks, joiners, unknown characters of 1 to 4 bytes, and very long strings",
  "Tests contain only a few multi-codepoint sequences and no unknown character, partial sequence or long string.",
  [B, "src/m3hash.rs", "src/fonts.rs", F], [m("cluster loop and fallback in paint_str", B), m("longest-first limits in get_blit_pattern_offset", F)], [FB, CU])
p("C07", "Cursor advance and line height follow the glyphs painted",
  "After a glyph, the cursor's x has advanced by the glyph's width plus three pixels (starting from the rectangle's left edge if the cursor was left of it) and its line height is the largest of its previous value and the full height of the glyph's font (24 small, 30 regular and bold, 32 emoji and ideographs). A newline moves the cursor to the rectangle's left edge and down by the line height (but at least 24) plus one, and resets the line height to zero; this accounting is the same for text that is partly or wholly clipped vertically.",
  ["inputs", "histories"], "every string, style, starting cursor (including non-zero line heights) and valid clip rectangle, and every sequence of calls sharing a cursor",
  "No test checks the cursor returned by paint_str.",
  [B, "src/cursor.rs", F], [m("newline and the end of xor_char", B)], [CU])
p("C08", "Text wraps exactly when a glyph would reach the right edge",
  "A glyph whose ink plus its left pad of one and right pad of two pixels would reach the right edge of the clip rectangle is moved, before painting, to the start of a new line below the current one; a glyph that stays short of the edge is not moved. A glyph wider than the rectangle is painted on a line of its own, cropped at the right edge.",
  ["inputs"], "every glyph width, cursor x, line height and clip rectangle, including rectangles narrower than a glyph and wraps in the middle of mixed-height lines",
  "Tests wrap two sentences at one rectangle width; the exact edge condition and the narrow-rectangle cases are not covered.",
  [B], [m("word-wrap test in xor_char", B), m("newline", B)], [CU, FB])
p("C09", "Painting in pieces equals painting at once",
  "For a rectangle that lies on the screen and is not empty, painting a string in one call leaves the same frame buffer and the same cursor as painting it in several calls that share the cursor, for every way of cutting the string between clusters. This includes cuts around newlines, wraps, unknown characters and text that is outside the rectangle.",
  ["inputs", "histories"], "every string, every set of cut points at cluster boundaries, every cursor, style and valid rectangle",
  "One test compares one ASCII sentence painted whole and per character.",
  [B, "src/cursor.rs"], [m("all painting state is in the cursor", B)], [FB, CU])
p("C10", "Painting is pure XOR: repeatable, reversible, background-free",
  "Which pixels a paint_str call inverts does not depend on what the frame buffer held, so painting the same text twice from the same cursor restores the frame buffer exactly and the order of overlapping paints does not matter. The cursor a call leaves behind does not depend on the frame buffer either.",
  ["inputs", "histories"], "every frame-buffer content, string, cursor, style and rectangle, and every order of paint calls",
  "All tests paint each text once over a cleared screen.",
  [B], [m("word XOR in xor_char", B)], [FB, CU])
p("C11", "The style selects Latin artwork only",
  "Small, Regular and Bold draw the Latin clusters (and the replacement character) of their own font; emoji and ideographs draw the same picture and take the same space in every style. A cluster that is both an emoji and a Latin character is drawn as emoji in every style.",
  ["inputs"], "every supported cluster in each of the three styles",
  "One emoji and the string abc are tested per style.",
  [B, F, "src/glyphstyle.rs"], [m("glyph set choice in paint_str and xor_char", B)])
p("C12", "Glyphs and lines painted by one call never overlap",
  "Within one paint_str call no pixel is inverted by more than one glyph: glyphs on a line keep at least three pixels of horizontal distance, and all ink of a later line (after a newline or a wrap) is below all ink of the earlier ones, whatever mix of fonts the lines hold.",
  ["inputs"], "every string, style, starting cursor and valid rectangle",
  "Tests compare hashes of whole screens; overlap is never examined.",
  [B, F], [m("line height bookkeeping and newline", B), m("h + y_offset <= MAX_HEIGHT", F)], [FB, CU])
p("C13", "Moving the top or bottom of the clip rectangle only masks",
  "Two rectangles with the same left and right edges produce the same picture in the rows they share, and the same final cursor, for the same string, style and cursor. Raising or lowering the top or bottom edge only hides or reveals rows; it never shifts, drops or adds text.",
  ["inputs"], "every pair of valid rectangles with equal left and right edges, every string, style and cursor",
  "No test paints text that is partly outside the rectangle vertically.",
  [B], [m("row skipping and y_max in xor_char", B)], [FB, CU])
p("C14", "Rectangle and cursor constructors normalise and preserve values",
  "ClipRect::new returns the rectangle spanned by the two given corners with min <= max in each axis independently, whatever order the corners come in; full_screen is (0,0)..(336,536), padded_screen is 6 pixels smaller on every side, new_fr_buf returns 536 rows of 11 words filled with 16-pixel vertical stripes, and Cursor::new, Cursor::from_top_left_of and Pt::new carry their arguments unchanged, with line height zero for from_top_left_of. Points, rectangles and cursors compare equal exactly when all their fields are equal.",
  ["inputs"], "all machine integers as coordinates",
  "Tests use four small rectangles and one cursor.",
  ["src/cliprect.rs", "src/cursor.rs", "src/pt.rs"], [m("ClipRect::new", "src/cliprect.rs"), m("Cursor constructors", "src/cursor.rs")])
p("C15", "Style numbers and height hints agree with what is painted",
  "Converting a style to a number (or casting it) and back gives the same style (0 small, 1 regular, 2 bold) and every other number means regular. glyph_to_height_hint equals the line height the cursor really gets from painting Latin text in that style on a fresh line, and consecutive lines of such text are hint + 1 pixels apart.",
  ["inputs"], "all machine integers as style numbers; every Latin cluster in every style",
  "Tests try four numbers and compare the hint to constants, not to painted text.",
  ["src/glyphstyle.rs", B, F], [m("From/Into and glyph_to_height_hint", "src/glyphstyle.rs"), m("MAX_HEIGHT", F)], [CU])
p("C16", "Demo screens do not depend on what was on the screen before",
  "demo::sample_text, demo::short_greeting and demo::goose_poem produce, from any prior frame-buffer content and in any order, the screen that their documented calls (clear everything, then paint their texts) define; padding bits are untouched.",
  ["inputs", "histories"], "every prior frame-buffer content and every order of demo calls",
  "Tests call the demos on a fresh buffer and in one order.",
  ["src/demo.rs", B], [m("clear_region(full_screen) first", "src/demo.rs")], [FB])
p("C17", "The web page shows exactly the frame buffer",
  "After loading, the page's 336x536 canvas shows every frame-buffer pixel at its own position: a clear pixel is fully transparent and an inked pixel is opaque dark, for any frame-buffer content and wherever the buffer lies in wasm memory. The wasm module's init leaves the goose poem screen in the buffer its pointer export designates.",
  ["inputs"], "every frame-buffer content and every buffer address",
  "The JavaScript is not tested at all, and the wasm module is only built.",
  ["wasm_demo/main.js", "wasm_demo/wasm.js", "wasm_demo/src/lib.rs"], [m("repaint", "wasm_demo/main.js"), m("frameBuf", "wasm_demo/wasm.js"), m("init and frame_buf_ptr exports", "wasm_demo/src/lib.rs")],
  [FB], ["canvas image data after repaint", "wasm exports"])
p("C18", "Regenerating the fonts reproduces the shipped fonts",
  "Running the code generator on the repository's own sprite sheets, index and alias files yields font sources that build and that draw, for every cluster, the same picture as the shipped fonts do. Running it twice gives the same result, and running it without its confirmation switch writes nothing.",
  ["inputs", "programs"], "every cluster of every font; every run of the generator",
  "The generator has no tests and is only compiled.",
  ["codegen/main.go", "codegen/lib/", "codegen/config.json", "codegen/src_data/"], [m("codegen", "codegen/main.go")], [], ["files written by the generator"])
p("C19", "The generator packs any sprite without loss",
  "For any sprite sheet, the generated glyph, when painted, is the sprite's ink: blank margins are trimmed (never ink, never interior), the vertical position within the cell is kept, ideograph cells are kept whole, the space keeps 4x2 pixels (in cells of an even size), and blank sprites become zero-width glyphs. This holds for any sprite size up to 32 pixels, grid position, border and gutter, as long as the sheet is large enough for every cell and the gutter after it.",
  ["inputs", "configurations"], "every bitmap, cell position and grid geometry of a sprite sheet",
  "The generator has no tests; only the shipped artwork has ever been inspected.",
  ["codegen/lib/matrix.go", "codegen/lib/blitpattern.go", "codegen/lib/fontspec.go"], [m("Trim, convertToPattern", "codegen/lib/matrix.go"), m("NewBlitPattern", "codegen/lib/blitpattern.go")], [], ["generator output painted by the library", "pattern words returned by the generator library"])
p("C20", "Generated indexes find exactly the clusters they were given",
  "For any index and alias list, the library built with the generated font finds every listed cluster and alias with its own glyph, prefers the longest listed cluster, and finds nothing for characters that are not listed. Index order, cluster lengths, Unicode blocks of the first and of the aliased character, and comments and blank lines in the lists make no difference.",
  ["inputs", "configurations", "programs"], "every set of clusters over the supported Unicode blocks, every alias list, every hash seed",
  "The generator has no tests; the shipped index is one of the possible inputs.",
  ["codegen/lib/glyphset.go", "codegen/lib/blockindex.go", "codegen/lib/charspec.go", "codegen/lib/templates.go", "codegen/lib/murmur3.go", "codegen/lib/ublock.go", "src/m3hash.rs", "src/fonts.rs"],
  [m("BlockIndex, ClusterLengthList, Murmur3", "codegen/lib/"), m("fontFileTemplate", "codegen/lib/templates.go")], [], ["library built with the generated fonts"])
p("C21", "A call's effect depends only on its arguments",
  "The effect of any call on its frame buffer and cursor is determined by its arguments alone: not by earlier calls, by calls on other buffers, by how many calls were made, or by calls running at the same time in other threads.",
  ["histories", "schedules"], "every history of calls over several buffers and every interleaving of threads using separate buffers",
  "Each test makes a few calls on one buffer in one thread.",
  [B, "src/fonts.rs", "src/demo.rs", "src/m3hash.rs"], [m("no global mutable state", "src/lib.rs")], [FB, CU])
p("C22", "Debug, release and 32-bit wasm builds paint the same",
  "The same sequence of API calls leaves the same frame buffer and cursor in a debug build, in an optimised build without overflow checks, and in a 32-bit WebAssembly build.",
  ["configurations", "inputs"], "every call sequence; build profile and pointer width",
  "Tests run only in the 64-bit debug profile.",
  [B, "src/fonts.rs", "src/m3hash.rs", "src/cliprect.rs"], [m("no width-dependent arithmetic", B)], [FB, CU])
p("C23", "The generator reports every input it cannot honour",
  "When something is wrong with what the generator is asked to do, a confirmed run ends with an error, and the font file of the glyph set at fault is left as it was. This holds for a configuration, sprite sheet, index, alias list or legal notice that is missing, a configuration, sprite sheet or json index that is malformed, an unknown index type, text in an index or of a listed alias that is not a hexadecimal Unicode code point, a cell that is not on the sheet, an alias of a cluster that is not listed, and a font file that cannot be opened or not be written to its end (whose content is then unspecified). Font files of the other sets are either untouched or complete. A run that ends well has written the complete font of every set.",
  ["inputs", "configurations", "fault_sequences"], "every configuration and every combination of flawed sets, positions in the list of sets and kinds of flaw",
  "The generator has no tests; a fault that is passed over leaves a stale or wrong font in the library, which still builds.",
  ["codegen/main.go", "codegen/lib/config.go", "codegen/lib/charspec.go", "codegen/lib/glyphset.go", "codegen/lib/blitpattern.go", "codegen/lib/matrix.go"],
  [m("error returns and panics in the readers, range check of cells, write at the end of a set", "codegen/")],
  [dict(name="font files", meaning="per glyph set: untouched, complete, or anything else", where="config.json rustout")], ["exit status and the font files after the run"])
for q in P:
    print(json.dumps(q, ensure_ascii=False))
