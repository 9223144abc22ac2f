From c0d96445b6dce36dd3de92f466cc2078ddae55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 1/3] fix: honour Joiners and custom Split functions in the
 words iterator's ASCII hot path

Next took its ASCII shortcut even when the split function had been replaced,
by Split or by Joiners, so tokens could differ from the split function's.
---
 words/iterator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/words/iterator.go b/words/iterator.go
index 84bdafa..1c3d2dd 100644
--- a/words/iterator.go
+++ b/words/iterator.go
@@ -7,6 +7,9 @@ type Iterator[T ~string | ~[]byte] struct {
 	data  T
 	pos   int
 	start int
+	// custom is true when split was set by the caller, in which case the
+	// ASCII hot path does not apply: its boundaries may differ from split's.
+	custom bool
 }
 
 var (
@@ -48,7 +51,7 @@ func (iter *Iterator[T]) Next() bool {
 	// ASCII hot path: consume contiguous ASCII alphanumerics
 	// followed by ASCII space (or end of data)
 	b := iter.data[iter.pos]
-	if isASCIIAlphanumeric(b) {
+	if !iter.custom && isASCIIAlphanumeric(b) {
 		// Consume all contiguous ASCII alphanumerics
 		end := iter.pos + 1
 		for end < len(iter.data) && isASCIIAlphanumeric(iter.data[end]) {
@@ -109,6 +112,7 @@ func (iter *Iterator[T]) SetText(data T) {
 // Split sets the SplitFunc for the Iterator.
 func (iter *Iterator[T]) Split(split func(T, bool) (int, T, error)) {
 	iter.split = split
+	iter.custom = true
 }
 
 // First returns the first word without advancing the iterator.
-- 
2.43.0


From 5e8e84de7708c73dcaad7ef1010e51b69e9d43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 2/3] fix: reject an advance past the end of data without
 overflowing the position

A split function that returns an advance near the maximum int overflowed
iter.pos, which then passed the 'beyond end of data' check.
---
 internal/iterators/iterator.go | 4 ++--
 words/iterator.go              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/iterators/iterator.go b/internal/iterators/iterator.go
index 8b41f4e..106fe5e 100644
--- a/internal/iterators/iterator.go
+++ b/internal/iterators/iterator.go
@@ -58,10 +58,10 @@ func (iter *Iterator[T]) Next() bool {
 		panic("SplitFunc returned a zero or negative advance")
 	}
 
-	iter.pos += advance
-	if iter.pos > len(iter.data) {
+	if advance > len(d) {
 		panic("SplitFunc advanced beyond the end of the data")
 	}
+	iter.pos += advance
 
 	return true
 }
diff --git a/words/iterator.go b/words/iterator.go
index 1c3d2dd..dd3b029 100644
--- a/words/iterator.go
+++ b/words/iterator.go
@@ -74,10 +74,10 @@ func (iter *Iterator[T]) Next() bool {
 	if advance <= 0 {
 		panic("splitFunc returned a zero or negative advance")
 	}
-	iter.pos += advance
-	if iter.pos > len(iter.data) {
+	if advance > len(remaining) {
 		panic("splitFunc advanced beyond end of data")
 	}
+	iter.pos += advance
 	return true
 }
 
-- 
2.43.0


From d63f6cc634a76bbe30b21103083232527584f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:47 +0000
Subject: [PATCH 3/3] fix: regenerate the words trie with the Han script data
 of Unicode 17

BleveIdeographic merges the Katakana class with unicode.Han and
unicode.Hiragana of the Go release that ran the generator. It was generated
with a Go whose unicode package is at Unicode 15.0, so the Han code points
added since (among them CJK extensions I and J, U+2EBF0..2EE5D and
U+323B0..33479) were not recognised by words.BleveIdeographic. Regenerated
with internal/gen and the Unicode 17.0 tables of Go's unicode package; no
other property value changes.
---
 words/trie.go | 110 ++++++++++++++++++++++----------------------------
 1 file changed, 49 insertions(+), 61 deletions(-)

diff --git a/words/trie.go b/words/trie.go
index 94428eb..c4f7d75 100644
--- a/words/trie.go
+++ b/words/trie.go
@@ -91,7 +91,7 @@ func lookup[T ~string | ~[]byte](s T) (v property, sz int) {
 	return 0, 1
 }
 
-// wordsTrie. Total size: 100608 bytes (98.25 KiB). Checksum: 15f1c04c89caf743.
+// wordsTrie. Total size: 100096 bytes (97.75 KiB). Checksum: ab53073f09c93246.
 // type wordsTrie struct { }
 
 // func newWordsTrie(i int) *wordsTrie {
@@ -106,9 +106,9 @@ func lookupValue(n uint32, b byte) property {
 	}
 }
 
-// wordsValues: 375 blocks, 24000 entries, 96000 bytes
+// wordsValues: 373 blocks, 23872 entries, 95488 bytes
 // The third block is the zero block.
-var wordsValues = [24000]property{
+var wordsValues = [23872]property{
 	// Block 0x0, offset 0x0
 	0x0a: 0x0400, 0x0b: 0x4000,
 	0x0c: 0x4000, 0x0d: 0x0004,
@@ -2822,7 +2822,8 @@ var wordsValues = [24000]property{
 	// Block 0x125, offset 0x4940
 	0x4960: 0x0001, 0x4961: 0x0001, 0x4962: 0x0002, 0x4963: 0x0003,
 	0x4964: 0x0010,
-	0x4970: 0x0012, 0x4971: 0x0012,
+	0x4970: 0x0012, 0x4971: 0x0012, 0x4972: 0x0002, 0x4973: 0x0002, 0x4974: 0x0002, 0x4975: 0x0002,
+	0x4976: 0x0002,
 	// Block 0x126, offset 0x4980
 	0x49b0: 0x0202, 0x49b1: 0x0202, 0x49b2: 0x0202, 0x49b3: 0x0202, 0x49b5: 0x0202,
 	0x49b6: 0x0202, 0x49b7: 0x0202, 0x49b8: 0x0202, 0x49b9: 0x0202, 0x49ba: 0x0202, 0x49bb: 0x0202,
@@ -3466,20 +3467,19 @@ var wordsValues = [24000]property{
 	0x5b8c: 0x0002, 0x5b8d: 0x0002, 0x5b8e: 0x0002, 0x5b8f: 0x0002, 0x5b90: 0x0002, 0x5b91: 0x0002,
 	0x5b92: 0x0002, 0x5b93: 0x0002, 0x5b94: 0x0002, 0x5b95: 0x0002, 0x5b96: 0x0002, 0x5b97: 0x0002,
 	0x5b98: 0x0002, 0x5b99: 0x0002, 0x5b9a: 0x0002, 0x5b9b: 0x0002, 0x5b9c: 0x0002, 0x5b9d: 0x0002,
-	0x5b9e: 0x0002, 0x5b9f: 0x0002, 0x5ba0: 0x0002, 0x5ba1: 0x0002, 0x5ba2: 0x0002, 0x5ba3: 0x0002,
+	0x5ba0: 0x0002, 0x5ba1: 0x0002, 0x5ba2: 0x0002, 0x5ba3: 0x0002,
 	0x5ba4: 0x0002, 0x5ba5: 0x0002, 0x5ba6: 0x0002, 0x5ba7: 0x0002, 0x5ba8: 0x0002, 0x5ba9: 0x0002,
 	0x5baa: 0x0002, 0x5bab: 0x0002, 0x5bac: 0x0002, 0x5bad: 0x0002, 0x5bae: 0x0002, 0x5baf: 0x0002,
 	0x5bb0: 0x0002, 0x5bb1: 0x0002, 0x5bb2: 0x0002, 0x5bb3: 0x0002, 0x5bb4: 0x0002, 0x5bb5: 0x0002,
-	0x5bb6: 0x0002, 0x5bb7: 0x0002, 0x5bb8: 0x0002, 0x5bb9: 0x0002,
+	0x5bb6: 0x0002, 0x5bb7: 0x0002, 0x5bb8: 0x0002, 0x5bb9: 0x0002, 0x5bba: 0x0002, 0x5bbb: 0x0002,
+	0x5bbc: 0x0002, 0x5bbd: 0x0002, 0x5bbe: 0x0002, 0x5bbf: 0x0002,
 	// Block 0x16f, offset 0x5bc0
 	0x5bc0: 0x0002, 0x5bc1: 0x0002, 0x5bc2: 0x0002, 0x5bc3: 0x0002, 0x5bc4: 0x0002, 0x5bc5: 0x0002,
 	0x5bc6: 0x0002, 0x5bc7: 0x0002, 0x5bc8: 0x0002, 0x5bc9: 0x0002, 0x5bca: 0x0002, 0x5bcb: 0x0002,
 	0x5bcc: 0x0002, 0x5bcd: 0x0002, 0x5bce: 0x0002, 0x5bcf: 0x0002, 0x5bd0: 0x0002, 0x5bd1: 0x0002,
 	0x5bd2: 0x0002, 0x5bd3: 0x0002, 0x5bd4: 0x0002, 0x5bd5: 0x0002, 0x5bd6: 0x0002, 0x5bd7: 0x0002,
 	0x5bd8: 0x0002, 0x5bd9: 0x0002, 0x5bda: 0x0002, 0x5bdb: 0x0002, 0x5bdc: 0x0002, 0x5bdd: 0x0002,
-	0x5be0: 0x0002, 0x5be1: 0x0002, 0x5be2: 0x0002, 0x5be3: 0x0002,
-	0x5be4: 0x0002, 0x5be5: 0x0002, 0x5be6: 0x0002, 0x5be7: 0x0002, 0x5be8: 0x0002, 0x5be9: 0x0002,
-	0x5bea: 0x0002, 0x5beb: 0x0002, 0x5bec: 0x0002, 0x5bed: 0x0002, 0x5bee: 0x0002, 0x5bef: 0x0002,
+	0x5bde: 0x0002, 0x5bdf: 0x0002, 0x5be0: 0x0002,
 	0x5bf0: 0x0002, 0x5bf1: 0x0002, 0x5bf2: 0x0002, 0x5bf3: 0x0002, 0x5bf4: 0x0002, 0x5bf5: 0x0002,
 	0x5bf6: 0x0002, 0x5bf7: 0x0002, 0x5bf8: 0x0002, 0x5bf9: 0x0002, 0x5bfa: 0x0002, 0x5bfb: 0x0002,
 	0x5bfc: 0x0002, 0x5bfd: 0x0002, 0x5bfe: 0x0002, 0x5bff: 0x0002,
@@ -3489,61 +3489,46 @@ var wordsValues = [24000]property{
 	0x5c0c: 0x0002, 0x5c0d: 0x0002, 0x5c0e: 0x0002, 0x5c0f: 0x0002, 0x5c10: 0x0002, 0x5c11: 0x0002,
 	0x5c12: 0x0002, 0x5c13: 0x0002, 0x5c14: 0x0002, 0x5c15: 0x0002, 0x5c16: 0x0002, 0x5c17: 0x0002,
 	0x5c18: 0x0002, 0x5c19: 0x0002, 0x5c1a: 0x0002, 0x5c1b: 0x0002, 0x5c1c: 0x0002, 0x5c1d: 0x0002,
-	0x5c1e: 0x0002, 0x5c1f: 0x0002, 0x5c20: 0x0002, 0x5c21: 0x0002,
-	0x5c30: 0x0002, 0x5c31: 0x0002, 0x5c32: 0x0002, 0x5c33: 0x0002, 0x5c34: 0x0002, 0x5c35: 0x0002,
-	0x5c36: 0x0002, 0x5c37: 0x0002, 0x5c38: 0x0002, 0x5c39: 0x0002, 0x5c3a: 0x0002, 0x5c3b: 0x0002,
-	0x5c3c: 0x0002, 0x5c3d: 0x0002, 0x5c3e: 0x0002, 0x5c3f: 0x0002,
 	// Block 0x171, offset 0x5c40
 	0x5c40: 0x0002, 0x5c41: 0x0002, 0x5c42: 0x0002, 0x5c43: 0x0002, 0x5c44: 0x0002, 0x5c45: 0x0002,
-	0x5c46: 0x0002, 0x5c47: 0x0002, 0x5c48: 0x0002, 0x5c49: 0x0002, 0x5c4a: 0x0002, 0x5c4b: 0x0002,
-	0x5c4c: 0x0002, 0x5c4d: 0x0002, 0x5c4e: 0x0002, 0x5c4f: 0x0002, 0x5c50: 0x0002, 0x5c51: 0x0002,
+	0x5c46: 0x0002, 0x5c47: 0x0002, 0x5c48: 0x0002, 0x5c49: 0x0002, 0x5c4a: 0x0002,
+	0x5c50: 0x0002, 0x5c51: 0x0002,
 	0x5c52: 0x0002, 0x5c53: 0x0002, 0x5c54: 0x0002, 0x5c55: 0x0002, 0x5c56: 0x0002, 0x5c57: 0x0002,
 	0x5c58: 0x0002, 0x5c59: 0x0002, 0x5c5a: 0x0002, 0x5c5b: 0x0002, 0x5c5c: 0x0002, 0x5c5d: 0x0002,
-	0x5c5e: 0x0002, 0x5c5f: 0x0002, 0x5c60: 0x0002,
+	0x5c5e: 0x0002, 0x5c5f: 0x0002, 0x5c60: 0x0002, 0x5c61: 0x0002, 0x5c62: 0x0002, 0x5c63: 0x0002,
+	0x5c64: 0x0002, 0x5c65: 0x0002, 0x5c66: 0x0002, 0x5c67: 0x0002, 0x5c68: 0x0002, 0x5c69: 0x0002,
+	0x5c6a: 0x0002, 0x5c6b: 0x0002, 0x5c6c: 0x0002, 0x5c6d: 0x0002, 0x5c6e: 0x0002, 0x5c6f: 0x0002,
+	0x5c70: 0x0002, 0x5c71: 0x0002, 0x5c72: 0x0002, 0x5c73: 0x0002, 0x5c74: 0x0002, 0x5c75: 0x0002,
+	0x5c76: 0x0002, 0x5c77: 0x0002, 0x5c78: 0x0002, 0x5c79: 0x0002, 0x5c7a: 0x0002, 0x5c7b: 0x0002,
+	0x5c7c: 0x0002, 0x5c7d: 0x0002, 0x5c7e: 0x0002, 0x5c7f: 0x0002,
 	// Block 0x172, offset 0x5c80
 	0x5c80: 0x0002, 0x5c81: 0x0002, 0x5c82: 0x0002, 0x5c83: 0x0002, 0x5c84: 0x0002, 0x5c85: 0x0002,
 	0x5c86: 0x0002, 0x5c87: 0x0002, 0x5c88: 0x0002, 0x5c89: 0x0002, 0x5c8a: 0x0002, 0x5c8b: 0x0002,
 	0x5c8c: 0x0002, 0x5c8d: 0x0002, 0x5c8e: 0x0002, 0x5c8f: 0x0002, 0x5c90: 0x0002, 0x5c91: 0x0002,
 	0x5c92: 0x0002, 0x5c93: 0x0002, 0x5c94: 0x0002, 0x5c95: 0x0002, 0x5c96: 0x0002, 0x5c97: 0x0002,
 	0x5c98: 0x0002, 0x5c99: 0x0002, 0x5c9a: 0x0002, 0x5c9b: 0x0002, 0x5c9c: 0x0002, 0x5c9d: 0x0002,
+	0x5c9e: 0x0002, 0x5c9f: 0x0002, 0x5ca0: 0x0002, 0x5ca1: 0x0002, 0x5ca2: 0x0002, 0x5ca3: 0x0002,
+	0x5ca4: 0x0002, 0x5ca5: 0x0002, 0x5ca6: 0x0002, 0x5ca7: 0x0002, 0x5ca8: 0x0002, 0x5ca9: 0x0002,
+	0x5caa: 0x0002, 0x5cab: 0x0002, 0x5cac: 0x0002, 0x5cad: 0x0002, 0x5cae: 0x0002, 0x5caf: 0x0002,
+	0x5cb0: 0x0002, 0x5cb1: 0x0002, 0x5cb2: 0x0002, 0x5cb3: 0x0002, 0x5cb4: 0x0002, 0x5cb5: 0x0002,
+	0x5cb6: 0x0002, 0x5cb7: 0x0002, 0x5cb8: 0x0002, 0x5cb9: 0x0002,
 	// Block 0x173, offset 0x5cc0
-	0x5cc0: 0x0002, 0x5cc1: 0x0002, 0x5cc2: 0x0002, 0x5cc3: 0x0002, 0x5cc4: 0x0002, 0x5cc5: 0x0002,
-	0x5cc6: 0x0002, 0x5cc7: 0x0002, 0x5cc8: 0x0002, 0x5cc9: 0x0002, 0x5cca: 0x0002,
-	0x5cd0: 0x0002, 0x5cd1: 0x0002,
-	0x5cd2: 0x0002, 0x5cd3: 0x0002, 0x5cd4: 0x0002, 0x5cd5: 0x0002, 0x5cd6: 0x0002, 0x5cd7: 0x0002,
-	0x5cd8: 0x0002, 0x5cd9: 0x0002, 0x5cda: 0x0002, 0x5cdb: 0x0002, 0x5cdc: 0x0002, 0x5cdd: 0x0002,
-	0x5cde: 0x0002, 0x5cdf: 0x0002, 0x5ce0: 0x0002, 0x5ce1: 0x0002, 0x5ce2: 0x0002, 0x5ce3: 0x0002,
-	0x5ce4: 0x0002, 0x5ce5: 0x0002, 0x5ce6: 0x0002, 0x5ce7: 0x0002, 0x5ce8: 0x0002, 0x5ce9: 0x0002,
-	0x5cea: 0x0002, 0x5ceb: 0x0002, 0x5cec: 0x0002, 0x5ced: 0x0002, 0x5cee: 0x0002, 0x5cef: 0x0002,
-	0x5cf0: 0x0002, 0x5cf1: 0x0002, 0x5cf2: 0x0002, 0x5cf3: 0x0002, 0x5cf4: 0x0002, 0x5cf5: 0x0002,
-	0x5cf6: 0x0002, 0x5cf7: 0x0002, 0x5cf8: 0x0002, 0x5cf9: 0x0002, 0x5cfa: 0x0002, 0x5cfb: 0x0002,
-	0x5cfc: 0x0002, 0x5cfd: 0x0002, 0x5cfe: 0x0002, 0x5cff: 0x0002,
+	0x5cc1: 0x0080,
+	0x5ce0: 0x0010, 0x5ce1: 0x0010, 0x5ce2: 0x0010, 0x5ce3: 0x0010,
+	0x5ce4: 0x0010, 0x5ce5: 0x0010, 0x5ce6: 0x0010, 0x5ce7: 0x0010, 0x5ce8: 0x0010, 0x5ce9: 0x0010,
+	0x5cea: 0x0010, 0x5ceb: 0x0010, 0x5cec: 0x0010, 0x5ced: 0x0010, 0x5cee: 0x0010, 0x5cef: 0x0010,
+	0x5cf0: 0x0010, 0x5cf1: 0x0010, 0x5cf2: 0x0010, 0x5cf3: 0x0010, 0x5cf4: 0x0010, 0x5cf5: 0x0010,
+	0x5cf6: 0x0010, 0x5cf7: 0x0010, 0x5cf8: 0x0010, 0x5cf9: 0x0010, 0x5cfa: 0x0010, 0x5cfb: 0x0010,
+	0x5cfc: 0x0010, 0x5cfd: 0x0010, 0x5cfe: 0x0010, 0x5cff: 0x0010,
 	// Block 0x174, offset 0x5d00
-	0x5d00: 0x0002, 0x5d01: 0x0002, 0x5d02: 0x0002, 0x5d03: 0x0002, 0x5d04: 0x0002, 0x5d05: 0x0002,
-	0x5d06: 0x0002, 0x5d07: 0x0002, 0x5d08: 0x0002, 0x5d09: 0x0002, 0x5d0a: 0x0002, 0x5d0b: 0x0002,
-	0x5d0c: 0x0002, 0x5d0d: 0x0002, 0x5d0e: 0x0002, 0x5d0f: 0x0002, 0x5d10: 0x0002, 0x5d11: 0x0002,
-	0x5d12: 0x0002, 0x5d13: 0x0002, 0x5d14: 0x0002, 0x5d15: 0x0002, 0x5d16: 0x0002, 0x5d17: 0x0002,
-	0x5d18: 0x0002, 0x5d19: 0x0002, 0x5d1a: 0x0002, 0x5d1b: 0x0002, 0x5d1c: 0x0002, 0x5d1d: 0x0002,
-	0x5d1e: 0x0002, 0x5d1f: 0x0002, 0x5d20: 0x0002, 0x5d21: 0x0002, 0x5d22: 0x0002, 0x5d23: 0x0002,
-	0x5d24: 0x0002, 0x5d25: 0x0002, 0x5d26: 0x0002, 0x5d27: 0x0002, 0x5d28: 0x0002, 0x5d29: 0x0002,
-	0x5d2a: 0x0002, 0x5d2b: 0x0002, 0x5d2c: 0x0002, 0x5d2d: 0x0002, 0x5d2e: 0x0002, 0x5d2f: 0x0002,
-	// Block 0x175, offset 0x5d40
-	0x5d41: 0x0080,
-	0x5d60: 0x0010, 0x5d61: 0x0010, 0x5d62: 0x0010, 0x5d63: 0x0010,
-	0x5d64: 0x0010, 0x5d65: 0x0010, 0x5d66: 0x0010, 0x5d67: 0x0010, 0x5d68: 0x0010, 0x5d69: 0x0010,
-	0x5d6a: 0x0010, 0x5d6b: 0x0010, 0x5d6c: 0x0010, 0x5d6d: 0x0010, 0x5d6e: 0x0010, 0x5d6f: 0x0010,
-	0x5d70: 0x0010, 0x5d71: 0x0010, 0x5d72: 0x0010, 0x5d73: 0x0010, 0x5d74: 0x0010, 0x5d75: 0x0010,
-	0x5d76: 0x0010, 0x5d77: 0x0010, 0x5d78: 0x0010, 0x5d79: 0x0010, 0x5d7a: 0x0010, 0x5d7b: 0x0010,
-	0x5d7c: 0x0010, 0x5d7d: 0x0010, 0x5d7e: 0x0010, 0x5d7f: 0x0010,
-	// Block 0x176, offset 0x5d80
-	0x5d80: 0x0010, 0x5d81: 0x0010, 0x5d82: 0x0010, 0x5d83: 0x0010, 0x5d84: 0x0010, 0x5d85: 0x0010,
-	0x5d86: 0x0010, 0x5d87: 0x0010, 0x5d88: 0x0010, 0x5d89: 0x0010, 0x5d8a: 0x0010, 0x5d8b: 0x0010,
-	0x5d8c: 0x0010, 0x5d8d: 0x0010, 0x5d8e: 0x0010, 0x5d8f: 0x0010, 0x5d90: 0x0010, 0x5d91: 0x0010,
-	0x5d92: 0x0010, 0x5d93: 0x0010, 0x5d94: 0x0010, 0x5d95: 0x0010, 0x5d96: 0x0010, 0x5d97: 0x0010,
-	0x5d98: 0x0010, 0x5d99: 0x0010, 0x5d9a: 0x0010, 0x5d9b: 0x0010, 0x5d9c: 0x0010, 0x5d9d: 0x0010,
-	0x5d9e: 0x0010, 0x5d9f: 0x0010, 0x5da0: 0x0010, 0x5da1: 0x0010, 0x5da2: 0x0010, 0x5da3: 0x0010,
-	0x5da4: 0x0010, 0x5da5: 0x0010, 0x5da6: 0x0010, 0x5da7: 0x0010, 0x5da8: 0x0010, 0x5da9: 0x0010,
-	0x5daa: 0x0010, 0x5dab: 0x0010, 0x5dac: 0x0010, 0x5dad: 0x0010, 0x5dae: 0x0010, 0x5daf: 0x0010,
+	0x5d00: 0x0010, 0x5d01: 0x0010, 0x5d02: 0x0010, 0x5d03: 0x0010, 0x5d04: 0x0010, 0x5d05: 0x0010,
+	0x5d06: 0x0010, 0x5d07: 0x0010, 0x5d08: 0x0010, 0x5d09: 0x0010, 0x5d0a: 0x0010, 0x5d0b: 0x0010,
+	0x5d0c: 0x0010, 0x5d0d: 0x0010, 0x5d0e: 0x0010, 0x5d0f: 0x0010, 0x5d10: 0x0010, 0x5d11: 0x0010,
+	0x5d12: 0x0010, 0x5d13: 0x0010, 0x5d14: 0x0010, 0x5d15: 0x0010, 0x5d16: 0x0010, 0x5d17: 0x0010,
+	0x5d18: 0x0010, 0x5d19: 0x0010, 0x5d1a: 0x0010, 0x5d1b: 0x0010, 0x5d1c: 0x0010, 0x5d1d: 0x0010,
+	0x5d1e: 0x0010, 0x5d1f: 0x0010, 0x5d20: 0x0010, 0x5d21: 0x0010, 0x5d22: 0x0010, 0x5d23: 0x0010,
+	0x5d24: 0x0010, 0x5d25: 0x0010, 0x5d26: 0x0010, 0x5d27: 0x0010, 0x5d28: 0x0010, 0x5d29: 0x0010,
+	0x5d2a: 0x0010, 0x5d2b: 0x0010, 0x5d2c: 0x0010, 0x5d2d: 0x0010, 0x5d2e: 0x0010, 0x5d2f: 0x0010,
 }
 
 // wordsIndex: 36 blocks, 2304 entries, 4608 bytes
@@ -3725,8 +3710,8 @@ var wordsIndex = [2304]property{
 	0x6c0: 0x7e, 0x6c1: 0x7e, 0x6c2: 0x7e, 0x6c3: 0x7e, 0x6c4: 0x7e, 0x6c5: 0x7e, 0x6c6: 0x7e, 0x6c7: 0x7e,
 	0x6c8: 0x7e, 0x6c9: 0x7e, 0x6ca: 0x7e, 0x6cb: 0x7e, 0x6cc: 0x7e, 0x6cd: 0x7e, 0x6ce: 0x7e, 0x6cf: 0x7e,
 	0x6d0: 0x7e, 0x6d1: 0x7e, 0x6d2: 0x7e, 0x6d3: 0x7e, 0x6d4: 0x7e, 0x6d5: 0x7e, 0x6d6: 0x7e, 0x6d7: 0x7e,
-	0x6d8: 0x7e, 0x6d9: 0x7e, 0x6da: 0x7e, 0x6db: 0x7e, 0x6dc: 0x16c, 0x6dd: 0x7e, 0x6de: 0x7e, 0x6df: 0x7e,
-	0x6e0: 0x16d, 0x6e1: 0x7e, 0x6e2: 0x7e, 0x6e3: 0x7e, 0x6e4: 0x7e, 0x6e5: 0x7e, 0x6e6: 0x7e, 0x6e7: 0x7e,
+	0x6d8: 0x7e, 0x6d9: 0x7e, 0x6da: 0x7e, 0x6db: 0x7e, 0x6dc: 0x7e, 0x6dd: 0x7e, 0x6de: 0x7e, 0x6df: 0x7e,
+	0x6e0: 0x16c, 0x6e1: 0x7e, 0x6e2: 0x7e, 0x6e3: 0x7e, 0x6e4: 0x7e, 0x6e5: 0x7e, 0x6e6: 0x7e, 0x6e7: 0x7e,
 	0x6e8: 0x7e, 0x6e9: 0x7e, 0x6ea: 0x7e, 0x6eb: 0x7e, 0x6ec: 0x7e, 0x6ed: 0x7e, 0x6ee: 0x7e, 0x6ef: 0x7e,
 	0x6f0: 0x7e, 0x6f1: 0x7e, 0x6f2: 0x7e, 0x6f3: 0x7e, 0x6f4: 0x7e, 0x6f5: 0x7e, 0x6f6: 0x7e, 0x6f7: 0x7e,
 	0x6f8: 0x7e, 0x6f9: 0x7e, 0x6fa: 0x7e, 0x6fb: 0x7e, 0x6fc: 0x7e, 0x6fd: 0x7e, 0x6fe: 0x7e, 0x6ff: 0x7e,
@@ -3738,20 +3723,22 @@ var wordsIndex = [2304]property{
 	0x720: 0x7e, 0x721: 0x7e, 0x722: 0x7e, 0x723: 0x7e, 0x724: 0x7e, 0x725: 0x7e, 0x726: 0x7e, 0x727: 0x7e,
 	0x728: 0x7e, 0x729: 0x7e, 0x72a: 0x7e, 0x72b: 0x7e, 0x72c: 0x7e, 0x72d: 0x7e, 0x72e: 0x7e, 0x72f: 0x7e,
 	0x730: 0x7e, 0x731: 0x7e, 0x732: 0x7e, 0x733: 0x7e, 0x734: 0x7e, 0x735: 0x7e, 0x736: 0x7e, 0x737: 0x7e,
-	0x738: 0x7e, 0x739: 0x7e, 0x73a: 0x16e, 0x73b: 0x7e, 0x73c: 0x7e, 0x73d: 0x7e, 0x73e: 0x7e, 0x73f: 0x7e,
+	0x738: 0x7e, 0x739: 0x7e, 0x73a: 0xa4, 0x73b: 0x7e, 0x73c: 0x7e, 0x73d: 0x7e, 0x73e: 0x7e, 0x73f: 0x7e,
 	// Block 0x1d, offset 0x740
 	0x740: 0x7e, 0x741: 0x7e, 0x742: 0x7e, 0x743: 0x7e, 0x744: 0x7e, 0x745: 0x7e, 0x746: 0x7e, 0x747: 0x7e,
 	0x748: 0x7e, 0x749: 0x7e, 0x74a: 0x7e, 0x74b: 0x7e, 0x74c: 0x7e, 0x74d: 0x7e, 0x74e: 0x7e, 0x74f: 0x7e,
 	0x750: 0x7e, 0x751: 0x7e, 0x752: 0x7e, 0x753: 0x7e, 0x754: 0x7e, 0x755: 0x7e, 0x756: 0x7e, 0x757: 0x7e,
 	0x758: 0x7e, 0x759: 0x7e, 0x75a: 0x7e, 0x75b: 0x7e, 0x75c: 0x7e, 0x75d: 0x7e, 0x75e: 0x7e, 0x75f: 0x7e,
 	0x760: 0x7e, 0x761: 0x7e, 0x762: 0x7e, 0x763: 0x7e, 0x764: 0x7e, 0x765: 0x7e, 0x766: 0x7e, 0x767: 0x7e,
-	0x768: 0x7e, 0x769: 0x7e, 0x76a: 0x7e, 0x76b: 0x7e, 0x76c: 0x7e, 0x76d: 0x7e, 0x76e: 0x7e, 0x76f: 0x16f,
+	0x768: 0x7e, 0x769: 0x7e, 0x76a: 0x7e, 0x76b: 0x7e, 0x76c: 0x7e, 0x76d: 0x7e, 0x76e: 0x7e, 0x76f: 0x16d,
+	0x770: 0x7e, 0x771: 0x7e, 0x772: 0x7e, 0x773: 0x7e, 0x774: 0x7e, 0x775: 0x7e, 0x776: 0x7e, 0x777: 0x7e,
+	0x778: 0x7e, 0x779: 0x16e,
 	// Block 0x1e, offset 0x780
 	0x7a0: 0x7e, 0x7a1: 0x7e, 0x7a2: 0x7e, 0x7a3: 0x7e, 0x7a4: 0x7e, 0x7a5: 0x7e, 0x7a6: 0x7e, 0x7a7: 0x7e,
-	0x7a8: 0x170,
+	0x7a8: 0x16e,
 	// Block 0x1f, offset 0x7c0
 	0x7c0: 0x7e, 0x7c1: 0x7e, 0x7c2: 0x7e, 0x7c3: 0x7e, 0x7c4: 0x7e, 0x7c5: 0x7e, 0x7c6: 0x7e, 0x7c7: 0x7e,
-	0x7c8: 0x7e, 0x7c9: 0x7e, 0x7ca: 0x7e, 0x7cb: 0x7e, 0x7cc: 0x7e, 0x7cd: 0x171, 0x7ce: 0x7e, 0x7cf: 0x7e,
+	0x7c8: 0x7e, 0x7c9: 0x7e, 0x7ca: 0x7e, 0x7cb: 0x7e, 0x7cc: 0x7e, 0x7cd: 0x16f, 0x7ce: 0x7e, 0x7cf: 0x7e,
 	0x7d0: 0x7e, 0x7d1: 0x7e, 0x7d2: 0x7e, 0x7d3: 0x7e, 0x7d4: 0x7e, 0x7d5: 0x7e, 0x7d6: 0x7e, 0x7d7: 0x7e,
 	0x7d8: 0x7e, 0x7d9: 0x7e, 0x7da: 0x7e, 0x7db: 0x7e, 0x7dc: 0x7e, 0x7dd: 0x7e, 0x7de: 0x7e, 0x7df: 0x7e,
 	0x7e0: 0x7e, 0x7e1: 0x7e, 0x7e2: 0x7e, 0x7e3: 0x7e, 0x7e4: 0x7e, 0x7e5: 0x7e, 0x7e6: 0x7e, 0x7e7: 0x7e,
@@ -3760,15 +3747,16 @@ var wordsIndex = [2304]property{
 	0x7f8: 0x7e, 0x7f9: 0x7e, 0x7fa: 0x7e, 0x7fb: 0x7e, 0x7fc: 0x7e, 0x7fd: 0x7e, 0x7fe: 0x7e, 0x7ff: 0x7e,
 	// Block 0x20, offset 0x800
 	0x800: 0x7e, 0x801: 0x7e, 0x802: 0x7e, 0x803: 0x7e, 0x804: 0x7e, 0x805: 0x7e, 0x806: 0x7e, 0x807: 0x7e,
-	0x808: 0x7e, 0x809: 0x7e, 0x80a: 0x7e, 0x80b: 0x7e, 0x80c: 0x7e, 0x80d: 0x7e, 0x80e: 0x172,
+	0x808: 0x7e, 0x809: 0x7e, 0x80a: 0x7e, 0x80b: 0x7e, 0x80c: 0x7e, 0x80d: 0x7e, 0x80e: 0x7e, 0x80f: 0x7e,
+	0x810: 0x7e, 0x811: 0x170,
 	// Block 0x21, offset 0x840
 	0x850: 0x0c, 0x851: 0x0d, 0x852: 0x0e, 0x853: 0x0f, 0x854: 0x10, 0x856: 0x11,
 	0x85a: 0x12, 0x85b: 0x13, 0x85c: 0x14, 0x85d: 0x15, 0x85e: 0x16, 0x85f: 0x17,
 	0x860: 0x07, 0x861: 0x07, 0x862: 0x07, 0x863: 0x07, 0x864: 0x07, 0x865: 0x07, 0x866: 0x07, 0x867: 0x07,
 	0x868: 0x07, 0x869: 0x07, 0x86a: 0x18, 0x86b: 0x19, 0x86c: 0x1a, 0x86d: 0x07, 0x86e: 0x1b, 0x86f: 0x1c,
-	0x870: 0x07, 0x871: 0x1d, 0x872: 0x1e,
+	0x870: 0x07, 0x871: 0x1d, 0x872: 0x07, 0x873: 0x1e,
 	// Block 0x22, offset 0x880
-	0x880: 0x173, 0x881: 0x05, 0x884: 0x05, 0x885: 0x05, 0x886: 0x05, 0x887: 0x174,
+	0x880: 0x171, 0x881: 0x05, 0x884: 0x05, 0x885: 0x05, 0x886: 0x05, 0x887: 0x172,
 	// Block 0x23, offset 0x8c0
 	0x8e0: 0x20,
 }
-- 
2.43.0

