From cb41245cdc0c5b84b6d2ffc91d42bd77ae75457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 1/9] fix: clear_region() must not touch pixels right of the
 region

A region inside one 32px word cleared everything up to the end of that word,
and a region with its right edge on a word boundary shifted by 32 (debug
panic; release builds cleared the whole next word).
---
 src/blit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/blit.rs b/src/blit.rs
index ecb6496..3e6c14c 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -27,11 +27,17 @@ pub fn clear_region(fb: &mut FrBuf, clip: ClipRect) {
     // Blit it
     for y in clip.min.y..clip.max.y {
         let base = y * WORDS_PER_LINE;
+        if dest_low_word == dest_high_word {
+            // Left and right edges of the region are within the same word
+            fb[base + dest_low_word] |= (0xffffffff << (32 - px_in_dest_low_word))
+                & (0xffffffff >> (32 - px_in_dest_high_word));
+            continue;
+        }
         fb[base + dest_low_word] |= 0xffffffff << (32 - px_in_dest_low_word);
         for w in dest_low_word + 1..dest_high_word {
             fb[base + w] = 0xffffffff;
         }
-        if dest_low_word < dest_high_word {
+        if px_in_dest_high_word > 0 {
             fb[base + dest_high_word] |= 0xffffffff >> (32 - px_in_dest_high_word);
         }
     }
-- 
2.43.0


From f9a759a05a2886389333715e5eb711365e09a94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 2/9] fix: paint one replacement glyph for an unknown last
 character

The fallback did not consume the last character of the string, so it was
painted again for each remaining loop iteration.
---
 src/blit.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 3e6c14c..146d682 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -76,8 +76,7 @@ pub fn paint_str(fb: &mut FrBuf, clip: ClipRect, c: &mut Cursor, st: GlyphStyle,
                 if let Some((i, _)) = cluster.char_indices().nth(1) {
                     cluster = &cluster[i..];
                 } else {
-                    //cluster = &cluster[1..];
-                    //break; // That was the last char, so stop now
+                    break; // That was the last char, so stop now
                 }
             }
         }
-- 
2.43.0


From f2efbf9a4e453c0158536b0d8fea348a350900f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 3/9] fix: clip glyphs at the right edge of a narrow clip rect

A glyph that does not fit after wrapping was blitted past clip.max.x, into the
line padding and the start of the next line, or past the end of the frame
buffer (panic).
---
 src/blit.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/blit.rs b/src/blit.rs
index 146d682..ee04e0c 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -154,6 +154,12 @@ fn xor_char(
     let dest_low_word = x0 >> 5;
     let dest_high_word = x1 >> 5;
     let px_in_dest_low_word = 32 - (x0 & 0x1f);
+    // Clip right side of a glyph that is too wide for the clip rect
+    let w_max = if x1 <= clip.max.x {
+        gh.w
+    } else {
+        clip.max.x - x0
+    };
     // Blit it
     let y0 = c.pt.y + gh.y_offset;
     if y0 > clip.max.y {
@@ -188,10 +194,13 @@ fn xor_char(
             pattern_h >>= 32 - px_in_high_word;
             pattern |= pattern_h;
         }
+        if w_max < gh.w {
+            pattern &= (1 << w_max) - 1;
+        }
         // XOR glyph pixels onto destination buffer
         let base = (y0 + y) * WORDS_PER_LINE;
         fb[base + dest_low_word] ^= pattern << (32 - px_in_dest_low_word);
-        if px_in_dest_low_word < gh.w {
+        if px_in_dest_low_word < w_max {
             fb[base + dest_high_word] ^= pattern >> px_in_dest_low_word;
         }
     }
-- 
2.43.0


From 6997e07939e1d9a815f4fd6853d8355f74b156c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:05 +0000
Subject: [PATCH 4/9] fix: keep going after a glyph that is entirely below the
 clip rect

Returning Ok(0) left the cluster unconsumed, so one low glyph (e.g. a comma or
period on a partially visible line) made the rest of the string disappear,
including later glyphs that reach up into the clip rect.
---
 src/blit.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index ee04e0c..7559a0c 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -162,10 +162,9 @@ fn xor_char(
     };
     // Blit it
     let y0 = c.pt.y + gh.y_offset;
-    if y0 > clip.max.y {
-        return Ok(0); // Entire glyph is outside clip rect, so clip it
-    }
-    let y_max = if (y0 + gh.h) <= clip.max.y {
+    let y_max = if y0 >= clip.max.y {
+        0 // Entire glyph is below clip rect, so clip it
+    } else if (y0 + gh.h) <= clip.max.y {
         gh.h
     } else {
         clip.max.y - y0 // Clip bottom of glyph
-- 
2.43.0


From 44cc4f7571cbcf3c8ff5320f256375a0e1325f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:06 +0000
Subject: [PATCH 5/9] fix: do not overflow on a cursor near the end of the
 usize range

Debug builds panicked; release builds wrapped around and blitted the glyph at
the left or top of the screen, even outside of the clip rect.
---
 src/blit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 7559a0c..629685b 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -89,7 +89,7 @@ fn newline(clip: ClipRect, c: &mut Cursor) {
     if c.line_height < fonts::small::MAX_HEIGHT as usize {
         c.line_height = fonts::small::MAX_HEIGHT as usize;
     }
-    c.pt.y += c.line_height + 1;
+    c.pt.y = c.pt.y.saturating_add(c.line_height).saturating_add(1);
     c.line_height = 0;
 }
 
@@ -143,9 +143,9 @@ fn xor_char(
         c.pt.x = clip.min.x;
     }
     // Add 1px pad to left
-    let mut x0 = c.pt.x + 1;
+    let mut x0 = c.pt.x.saturating_add(1);
     // Adjust for word wrapping
-    if x0 + gh.w + 2 >= clip.max.x {
+    if x0.saturating_add(gh.w + 2) >= clip.max.x {
         newline(clip, c);
         x0 = c.pt.x + 1;
     }
@@ -161,7 +161,7 @@ fn xor_char(
         clip.max.x - x0
     };
     // Blit it
-    let y0 = c.pt.y + gh.y_offset;
+    let y0 = c.pt.y.saturating_add(gh.y_offset);
     let y_max = if y0 >= clip.max.y {
         0 // Entire glyph is below clip rect, so clip it
     } else if (y0 + gh.h) <= clip.max.y {
-- 
2.43.0


From 22bbbc674df7e711ae91650e58872e1cb439554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 6/9] fix: cut sprites out at the configured size whatever the
 border and gutter

The end of a sprite's cell was computed as (row+1)*(size+gutter), without the
border: sheets with a border wider than the gutter lost ink at the right and
bottom, and with a narrower one the gutter became part of whole-cell glyphs.
The shipped sheets have border == gutter, so the generated fonts are unchanged.
---
 codegen/lib/blitpattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/lib/blitpattern.go b/codegen/lib/blitpattern.go
index f2e5e47..afc084d 100644
--- a/codegen/lib/blitpattern.go
+++ b/codegen/lib/blitpattern.go
@@ -42,9 +42,9 @@ func NewBlitPattern(img image.Image, font FontSpec, cs CharSpec, dbg bool) BlitP
 	gridSize := font.Size + font.Gutter
 	border := font.Border
 	pxMatrix := Matrix{}
-	for y := border + (row * gridSize); y < (row+1)*gridSize; y++ {
+	for y := border + (row * gridSize); y < border+(row*gridSize)+font.Size; y++ {
 		var row MatrixRow
-		for x := border + (col * gridSize); x < (col+1)*gridSize; x++ {
+		for x := border + (col * gridSize); x < border+(col*gridSize)+font.Size; x++ {
 			r, _, _, _ := img.At(x, y).RGBA()
 			//fmt.Println(r, g, b, a)
 			if r == 0 {
-- 
2.43.0


From c71468a7a223b98b4ca88de520c459043f789e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:51 +0000
Subject: [PATCH 7/9] fix: codegen reports a font file it could not write

---
 codegen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codegen/main.go b/codegen/main.go
index ba26deb..06c1524 100644
--- a/codegen/main.go
+++ b/codegen/main.go
@@ -40,7 +40,10 @@ func codegen() {
 		// Generate rust source code and write it to a file
 		code := RenderFontFileTemplate(f, gs, f.M3Seed)
 		fmt.Println("Writing to", f.RustOut)
-		ioutil.WriteFile(f.RustOut, []byte(code), 0644)
+		err := ioutil.WriteFile(f.RustOut, []byte(code), 0644)
+		if err != nil {
+			panic(err)
+		}
 	}
 }
 
-- 
2.43.0


From 3e2b19b9ce2d9d20294cba66940573d5a01d2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:52 +0000
Subject: [PATCH 8/9] fix: codegen rejects hex values that are not code points

---
 codegen/lib/charspec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen/lib/charspec.go b/codegen/lib/charspec.go
index 02793ae..a490536 100644
--- a/codegen/lib/charspec.go
+++ b/codegen/lib/charspec.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // Holds mappings from extended grapheme clusters to sprite sheet glyph grid coordinates
@@ -49,7 +50,7 @@ func StringFromHexGC(hexGC string) string {
 	}
 	for _, hc := range hexCodepoints {
 		n, err := strconv.ParseUint(hc, base, bits)
-		if err != nil {
+		if err != nil || n > utf8.MaxRune || !utf8.ValidRune(rune(n)) {
 			panic(fmt.Errorf("unexpected value for hexGC: %q", hexGC))
 		}
 		cluster += string(rune(n))
-- 
2.43.0


From 0f975c372cee5700b373f638807aafeb387b0483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:13 +0000
Subject: [PATCH 9/9] fix: codegen rejects cells beyond the right edge of the
 sprite sheet

---
 codegen/lib/blitpattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen/lib/blitpattern.go b/codegen/lib/blitpattern.go
index afc084d..2793f69 100644
--- a/codegen/lib/blitpattern.go
+++ b/codegen/lib/blitpattern.go
@@ -38,6 +38,9 @@ func NewBlitPattern(img image.Image, font FontSpec, cs CharSpec, dbg bool) BlitP
 	if row < 0 || row >= rows || col < 0 || col >= font.Cols {
 		panic("row or column out of range")
 	}
+	if font.Border+col*(font.Size+font.Gutter)+font.Size > imgRect.Max.X {
+		panic("sprite sheet is too narrow for column")
+	}
 	// Get pixels for grid cell, converting from RGBA to 1-bit
 	gridSize := font.Size + font.Gutter
 	border := font.Border
-- 
2.43.0

