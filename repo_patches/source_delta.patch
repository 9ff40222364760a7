From 41007f18784e45d433e2df151f3fe1249d357348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 001/103] fix: direct int run of all zero values wrote no value
 bits

---
 orc/encoding/int.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ee091f4..0c42226 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -516,6 +516,10 @@ func (e *intRLV2Encoder) writeDirect(out *bytes.Buffer, widthAlign bool) error {
 		}
 	}
 
+	if width == 0 { // all values are 0, width code 0 means 1 bit in direct runs
+		width = 1
+	}
+
 	encodedWidth, err := widthEncoding(width)
 	if err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From eb8c50951576ed254f34e85a903adabc3031129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 002/103] fix: short repeat int run dropped zero bytes inside
 and at the end of the value

---
 orc/encoding/int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 0c42226..b31730b 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -1115,7 +1115,7 @@ func writeShortRepeat(count int, x uint64, out *bytes.Buffer) error {
 	bb.Reset()
 	for j := 7; j >= 0; j-- { //
 		b := byte(x >> uint(8*j))
-		if b != 0x00 {
+		if b != 0x00 || bb.Len() != 0 || j == 0 { // only leading zero bytes are left out
 			if byte(j) > w { // [1, 8]
 				w = byte(j)
 			}
-- 
2.43.0


From cb790768a322d8968637b3955d90b37634c18822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 003/103] fix: delta int run with 12 bit deltas failed to
 encode

---
 orc/encoding/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index b31730b..9d69939 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -895,6 +895,9 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 	if width == 1 { // delta width no 1?
 		width = 2
 	}
+	if width == 12 { // deltas are packed in byte aligned widths above 4
+		width = 16
+	}
 	w, err := widthEncoding(int(width))
 	if err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From 4c35d80226ed57d4b8391e75d1986f5484ef2873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 004/103] fix: delta int run panicked on first values and delta
 bases needing more than 8 varint bytes

---
 orc/encoding/int.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 9d69939..fabc304 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -442,7 +442,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			} else {
 
 				// fixed delta 0
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -460,7 +460,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			// delta, need width should be stable?
 			dv := &deltaValues{}
 			if tryDeltaEncoding(e.signed, e.values, dv) {
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -917,7 +917,7 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 		return errors.WithStack(err)
 	}
 	// write delta base
-	db := make([]byte, 8)
+	db := make([]byte, binary.MaxVarintLen64)
 	n := binary.PutVarint(db, deltaBase)
 	if _, err := out.Write(db[:n]); err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From 9993a2f7c33a0ccc201259931ffc1c5290e4ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 005/103] fix: delta int run ending in equal values was written
 as a fixed delta run

---
 orc/encoding/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index fabc304..89369d5 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -892,6 +892,9 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 			width = byte(bits)
 		}
 	}
+	if width == 0 && len(deltas) != 0 { // width 0 means all deltas equal the delta base
+		width = 2
+	}
 	if width == 1 { // delta width no 1?
 		width = 2
 	}
-- 
2.43.0


From 10dc108eac22a02d59a0780cc5cb51f3c13908b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:40 +0000
Subject: [PATCH 006/103] fix: fixed delta int run decoded every value after
 the second as equal

---
 orc/encoding/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 89369d5..6c93ffe 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -166,6 +166,9 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		d.forgetBits()
 		for i := 2; i < length; i++ {
 			if width == 0 { //fixed delta
+				// every value differs from the one before it by the delta base
+				base += deltaBase
+				ubase += uint64(deltaBase)
 				if d.signed {
 					d.uvs = append(d.uvs, Zigzag(base+deltaBase))
 				} else {
-- 
2.43.0


From 32bc6b6209e536e875963bd81533c918c942314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:42 +0000
Subject: [PATCH 007/103] fix: int encoder lost values when a full buffer
 matched no run kind but direct

---
 orc/encoding/int.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 6c93ffe..283be27 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -434,6 +434,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 	}
 
 	for len(e.values) != 0 {
+		pending := len(e.values)
 		repeat := getRepeats(e.values)
 		if repeat >= 3 { // repeat
 			// short repeat
@@ -489,7 +490,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			}
 
 			// rethink: rest all will be direct ?
-			if toEnd && len(e.values) != 0 {
+			if (toEnd || len(e.values) == pending) && len(e.values) != 0 {
 				if err := e.writeDirect(out, true); err != nil {
 					return err
 				}
-- 
2.43.0


From bfc6d443c17d43f2c7a9fc80a90f083685bc22a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:25 +0000
Subject: [PATCH 008/103] fix: bit width counts of a patched int run overflowed
 at 256 values

---
 orc/encoding/int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 283be27..50b944b 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -711,7 +711,7 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 			width = width_
 		}
 	}
-	deltaValuesWidthHist := make([]byte, BITS_SLOTS) // values bits width 0 to 64
+	deltaValuesWidthHist := make([]int, BITS_SLOTS) // values bits width 0 to 64
 	for i := 0; i < count; i++ {
 		deltaValuesWidthHist[deltaValuesWidths[i]] += 1
 	}
@@ -719,7 +719,7 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 	p90len := int(float64(count) * 0.9)
 	l := 0
 	for i := 0; i < BITS_SLOTS; i++ {
-		l += int(deltaValuesWidthHist[i])
+		l += deltaValuesWidthHist[i]
 		if l >= p90len && deltaValuesWidthHist[i] != 0 {
 			w = byte(i)
 			break
-- 
2.43.0


From 41124fac07d79fdaf440f3b06891cc04e25e39c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 009/103] fix: int encoder panicked when a sequence had more
 than 31 outliers

---
 orc/encoding/int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 50b944b..19fa188 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -753,8 +753,8 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 			}
 		}
 		if len(pvs.patches) > 31 {
-			// fixme: how to handle this
-			panic("patches max 31")
+			// more than a patched run can hold, encode another way
+			return false
 		}
 
 		logger.Tracef("int rl v2 will do PATCH %d values", pvs.count)
-- 
2.43.0


From 345d06e7e8000d533793a73efa6d22177a3522b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 010/103] fix: patched int run could not hold the smallest
 int64 as base

---
 orc/encoding/int.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 19fa188..661d87d 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -699,6 +699,10 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 	}
 	logger.Tracef("encoding: int rl try patch, 0.90 width %d and 1.00 width %d", p90w, p100w)*/
 
+	if base == math.MinInt64 { // magnitude does not fit in the 63 bits of a base value
+		return false
+	}
+
 	var width, w byte // w is %90 delta values width
 
 	deltaValues := make([]uint64, count)
-- 
2.43.0


From caeb94ccdd8a3940369c93007d6805b407d1680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 011/103] fix: patched int run failed for value and patch
 widths outside the width table

---
 orc/encoding/int.go     |  3 +++
 orc/encoding/package.go | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 661d87d..43dee97 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -730,6 +730,8 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 		}
 	}
 
+	w = byte(closestFixedBits(int(w)))
+
 	logger.Tracef("int rl v2 try patch, 90%% width %d and width %d of adjusted values", w, width)
 	if width > w {
 		pvs.base = base
@@ -811,6 +813,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 			patchWidth = patchWidth_
 		}
 	}
+	patchWidth = closestFixedBits(patchWidth)
 	pw, err := widthEncoding(patchWidth)
 	if err != nil {
 		return errors.WithStack(err)
diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index a6d666a..e406969 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -161,7 +161,7 @@ func (irl *intRunLengthV1) Encode(out *bytes.Buffer) error {
 
 
 func widthEncoding(width int) (w byte, err error) {
-	if 2 <= width && width <= 21 {
+	if 2 <= width && width <= 24 {
 		w = byte(width - 1)
 		if (3 == width) || (5 <= width && width <= 7) || (9 <= width && width <= 15) || (17 <= width && width <= 21) {
 			log.Warnf("encoding: width %d is deprecated", width)
@@ -213,6 +213,21 @@ func widthEncoding(width int) (w byte, err error) {
 	return
 }
 
+// closestFixedBits returns the smallest width of the encoding table that holds n bits
+func closestFixedBits(n int) int {
+	switch {
+	case n == 0:
+		return 1
+	case n <= 24:
+		return n
+	case n <= 32:
+		return n + n%2
+	case n <= 64:
+		return (n + 7) / 8 * 8
+	}
+	return n
+}
+
 func widthDecoding(w byte, delta bool) (width byte, err error) {
 	if 2 <= w && w <= 23 {
 		if 2 == w || (4 <= w && w <= 6) || (8 <= w && w <= 14) || (16 <= w && w <= 22) {
-- 
2.43.0


From 2fae3fa2cc0b8c075878ef8a790c3b4f697b4619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 012/103] fix: patched int run with its only patch on the first
 value wrote a wrong gap width

---
 orc/encoding/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 43dee97..c57565c 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -829,6 +829,9 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 			pgw = pgw_
 		}
 	}
+	if pgw == 0 { // the only patch is on the first value
+		pgw = 1
+	}
 	header[3] = byte(pgw-1) & 0b111 << 5
 
 	// 5 bits for PLL (patch list length) (0 to 31)
-- 
2.43.0


From 88e82140be18c050e96a79241eba905b8f913cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 013/103] fix: patch list entries of int runs were not padded
 to a width of the width table

---
 orc/encoding/int.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index c57565c..2c22ca5 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -228,7 +228,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		return err
 	}
 	pgw := uint16(header[3])>>5&0x07 + 1 // 3 bits patch gap width(PGW), value 1 to 8 bits
-	if (int(pw) + int(pgw)) >= 64 {
+	if (int(pw) + int(pgw)) > 64 {
 		return errors.New("decoding: int rl v2, patchWidth+gapWidth must less or equal to 64")
 	}
 	pll := header[3] & 0x1f // 5bits patch list length, value 0 to 31
@@ -271,7 +271,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 	// decode patch values, PGW+PW must < 64
 	d.forgetBits()
 	for i := 0; i < int(pll); i++ {
-		pp, err := d.readBits(in, int(pgw)+int(pw))
+		pp, err := d.readBits(in, closestFixedBits(int(pgw)+int(pw)))
 		if err != nil {
 			return err
 		}
@@ -870,7 +870,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 	e.forgetBits()
 	for i, p := range pvs.patches {
 		patch := (uint64(pvs.gaps[i]) << patchWidth) | p
-		if err := e.writeBits(patch, pgw+patchWidth, out); err != nil {
+		if err := e.writeBits(patch, closestFixedBits(pgw+patchWidth), out); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From fc6b8d3589f1b1bd41b19955a73177204d2ff342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 014/103] fix: int encoder failed when a patch and its gap need
 more than 64 bits

---
 orc/encoding/int.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 2c22ca5..800a68a 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -763,6 +763,16 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 			return false
 		}
 
+		// gap and patch share one entry of at most 64 bits
+		gapBits, patchBits := 1, 1
+		for i := range pvs.patches {
+			gapBits = maxInt(gapBits, getBitsWidth(uint64(pvs.gaps[i])))
+			patchBits = maxInt(patchBits, getBitsWidth(pvs.patches[i]))
+		}
+		if gapBits+closestFixedBits(patchBits) > 64 {
+			return false
+		}
+
 		logger.Tracef("int rl v2 will do PATCH %d values", pvs.count)
 		/*for i := 0; i < len(pvs.gaps); i++ {
 			w := byte(getBitsWidth(uint64(pvs.gaps[i])))
@@ -1031,6 +1041,13 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 	return nil
 }
 
+func maxInt(x, y int) int {
+	if x > y {
+		return x
+	}
+	return y
+}
+
 // return a uint64 bits width
 func getBitsWidth(x uint64) (w int) {
 	for x != 0 {
-- 
2.43.0


From 9c06a73243e50ea1c0044b02441a02887babbece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 015/103] fix: int decoder panicked on a patch position outside
 of the run

---
 orc/encoding/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 800a68a..78df6a1 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -279,6 +279,9 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		patchGap := int(pp >> pw)
 		mark += patchGap
 		patch := pp & ((1 << pw) - 1)
+		if mark >= len(d.uvs) {
+			return errors.Errorf("decoding: int rl v2 patch position %d out of run length %d", mark, len(d.uvs))
+		}
 
 		// todo: check gap==255 and patch==0
 
-- 
2.43.0


From bf61f0a7e2c004414ae5e20813ff116e04cee8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 016/103] fix: patched int runs in unsigned streams were
 rejected

---
 orc/encoding/int.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 78df6a1..bf9a65e 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -107,14 +107,14 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		}
 
 	case Encoding_PATCHED_BASE:
-		// rethink: according to base value is a signed smallest value, patch should always signed?
-		if !d.signed {
-			return errors.New("decoding: int rl v2 patch signed setting should not false")
-		}
-
 		if err = d.readPatched(in, firstByte); err != nil {
 			return err
 		}
+		if !d.signed { // values are not zigzag encoded
+			for i, v := range d.uvs {
+				d.uvs[i] = uint64(UnZigzag(v))
+			}
+		}
 
 	case Encoding_DELTA:
 		// header: 2 bytes, base value: varint, delta base: signed varint
-- 
2.43.0


From d61f441643960d579d3e16b11549fabe92e4309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 017/103] fix: bits of a flushed partial byte leaked into the
 next bool values

---
 orc/encoding/bool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index 6dcd439..9874427 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -62,6 +62,7 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 		return err
 	}
 	e.index = -1
+	e.value = 0
 	return nil
 }
 
-- 
2.43.0


From 0a65122084d9b4db036f2b328fd256fb785ad859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 018/103] fix: floats were stored big endian, ORC specifies
 little endian

---
 orc/encoding/float.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/float.go b/orc/encoding/float.go
index 223bec1..fedf548 100644
--- a/orc/encoding/float.go
+++ b/orc/encoding/float.go
@@ -24,7 +24,7 @@ func (f float) Encode(v interface{}, out *bytes.Buffer) error {
 		return errors.New("float encoding value should be type float32")
 	}
 	bb := make([]byte, 4)
-	binary.BigEndian.PutUint32(bb, math.Float32bits(value))
+	binary.LittleEndian.PutUint32(bb, math.Float32bits(value))
 	if _, err := out.Write(bb); err != nil {
 		return err
 	}
@@ -46,7 +46,7 @@ func DecodeFloat(in io.Reader) (float32, error) {
 	if _, err := io.ReadFull(in, bb); err != nil {
 		return 0, errors.WithStack(err)
 	}
-	v := math.Float32frombits(binary.BigEndian.Uint32(bb))
+	v := math.Float32frombits(binary.LittleEndian.Uint32(bb))
 	return v, nil
 }
 
-- 
2.43.0


From 39bd56f9a3bb5da3fb0c73978cf8acb6efa29f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:12 +0000
Subject: [PATCH 019/103] fix: date encoder rejected every date

---
 orc/encoding/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/time.go b/orc/encoding/time.go
index c124e56..fa26365 100644
--- a/orc/encoding/time.go
+++ b/orc/encoding/time.go
@@ -16,7 +16,7 @@ type dateV2Encoder struct {
 func (e *dateV2Encoder) Encode(v interface{}, out *bytes.Buffer) error {
 	date := v.(api.Date)
 	days := api.ToDays(date)
-	if err := e.intEncoder.Encode(days, out); err != nil {
+	if err := e.intEncoder.Encode(int64(days), out); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From dfb808531b97cd4964e04bca396a0604daa2c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:14 +0000
Subject: [PATCH 020/103] fix: ReadVUint looped forever at the end of its input

---
 orc/encoding/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index e406969..006def6 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -290,7 +290,7 @@ func ReadVUint(in io.ByteReader) (r uint64, err error) {
 	for {
 		b, err = in.ReadByte()
 		if err != nil {
-			errors.WithStack(err)
+			return r, errors.WithStack(err)
 		}
 		r |= uint64(0x7f&b) << shift
 		shift += 7
-- 
2.43.0


From 34cba646caf05bc183a3b3a62697aaaffa2628ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 021/103] fix: dates more than 292 years away from 1970
 overflowed, and times of day before 1970 rounded up

---
 orc/api/vector.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 36fbd0f..7fe47de 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -117,16 +117,20 @@ func (d *Date) String() string {
 }
 
 func FromDays(days int32) Date {
-	d := time.Duration(int64(days) * 24 * int64(time.Hour))
-	t := Date(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).Add(d))
+	// a time.Duration holds 292 years only
+	t := Date(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, int(days)))
 	return t
 }
 
 // days from 1970, Jan, 1 UTC
 func ToDays(d Date) int32 {
 	// time.Time(d).UTC() ??
-	s := time.Time(d).Sub(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC))
-	return int32(s.Hours() / 24)
+	// a time.Duration holds 292 years only
+	s := time.Time(d).Unix()
+	if s < 0 {
+		s -= 24*60*60 - 1 // round down
+	}
+	return int32(s / (24 * 60 * 60))
 }
 
 type Timestamp struct {
-- 
2.43.0


From 84fd433e9a4fb17354011f42e929f7f17f283997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 022/103] fix: timestamp made from a time outside UTC denoted
 another instant

---
 orc/api/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 7fe47de..c23d5a7 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -166,7 +166,7 @@ func (t Timestamp) GetMilliSecondsUtc() int64 {
 }
 
 func GetTimestamp(t time.Time) Timestamp {
-	base := time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
+	base := time.Date(2015, 1, 1, 0, 0, 0, 0, t.Location()).Unix()
 	return Timestamp{t.Location(), t.Unix() - base, uint64(t.Nanosecond())}
 }
 
-- 
2.43.0


From 2ef71c2227181716ed7c77ec8e177adcb18f91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 023/103] fix: milliseconds of a timestamp mixed units and
 epochs

---
 orc/api/vector.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index c23d5a7..ff4763d 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -155,14 +155,13 @@ func (t Timestamp) GetMilliSeconds() int64 {
 	}
 	var ms int64
 	baseSec := time.Date(2015, time.January, 1, 0, 0, 0, 0, loc).Unix()
-	ms = (t.Seconds - baseSec) * 1_000
-	ms += int64(t.Nanos / 1_000)
+	ms = (t.Seconds + baseSec) * 1_000
+	ms += int64(t.Nanos / 1_000_000)
 	return ms
 }
 
 func (t Timestamp) GetMilliSecondsUtc() int64 {
-	base := time.Date(2015, time.January, 1, 0, 0, 0, 0, time.UTC).Unix()
-	return base + t.Time().Unix() + int64(t.Nanos/1_000)
+	return t.Time().Unix()*1_000 + int64(t.Nanos/1_000_000)
 }
 
 func GetTimestamp(t time.Time) Timestamp {
-- 
2.43.0


From 82a725ba3b32235b87683ce45487f448579125b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 024/103] fix: decimal to float conversion applied the scale as
 a factor of ten

---
 orc/api/vector.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index ff4763d..a4b0723 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -2,6 +2,7 @@ package api
 
 import (
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/patrickhuang888/goorc/pb/pb"
@@ -97,10 +98,10 @@ func (d Decimal64) Float64() float64 {
 		return float64(d.Precision)
 	}
 	if d.Scale > 0 {
-		return float64(d.Precision) * float64(10*d.Scale)
+		return float64(d.Precision) / math.Pow10(d.Scale)
 	}
 	if d.Scale < 0 {
-		return float64(d.Precision) / float64(10*d.Scale)
+		return float64(d.Precision) * math.Pow10(-d.Scale)
 	}
 	return 0
 }
-- 
2.43.0


From 07adee38752224295ffc0c45f52bc2f0be4ae0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:47 +0000
Subject: [PATCH 025/103] fix: chunks after the first one of a compressed
 stream were lost

---
 orc/common/misc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index b981e15..3a64943 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -62,6 +62,7 @@ func zlibCompressingToChunks(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer
 		}
 
 		cBuf.Reset()
+		compressor.Reset(cBuf) // every chunk is compressed on its own
 		if _, err = compressor.Write(buf); err != nil {
 			return errors.WithStack(err)
 		}
-- 
2.43.0


From 794aa8c242c6fa09512d13077334714ad8924e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:49 +0000
Subject: [PATCH 026/103] fix: files without compression could not be written

---
 orc/common/misc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index 3a64943..5110eb5 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -146,7 +146,9 @@ func zlibCompressingLeft(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) er
 func CompressingLeft(kind pb.CompressionKind, chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) error {
 	switch kind {
 	case pb.CompressionKind_NONE:
-		return errors.New("no compression")
+		if _, err := src.WriteTo(dst); err != nil {
+			return errors.WithStack(err)
+		}
 	case pb.CompressionKind_ZLIB:
 		if err := zlibCompressingLeft(chunkSize, dst, src); err != nil {
 			return err
-- 
2.43.0


From 00e506f851f5dbcba3ff6c0a3ac109887fa135bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 027/103] fix: cut chunk header was taken as a complete one

---
 orc/common/misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index 5110eb5..47e2775 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -235,7 +235,7 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 	case pb.CompressionKind_ZLIB:
 		for src.Len() > 0 {
 			header := make([]byte, 3)
-			if _, err = src.Read(header); err != nil {
+			if _, err = io.ReadFull(src, header); err != nil {
 				return errors.WithStack(err)
 			}
 
-- 
2.43.0


From a5d6cee56a7ee9dacb1d6cf5779ab654c94db389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 028/103] fix: second stripe of an uncompressed file panicked

---
 orc/stream/writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/stream/writer.go b/orc/stream/writer.go
index 7b4fd0f..fc91a47 100644
--- a/orc/stream/writer.go
+++ b/orc/stream/writer.go
@@ -99,7 +99,9 @@ func (w *writer) Reset() {
 	*w.info.Length = 0
 
 	w.buf.Reset()
-	w.compressedBuf.Reset()
+	if w.compressedBuf != nil { // nil without compression
+		w.compressedBuf.Reset()
+	}
 
 	w.positions = w.positions[:0]
 }
-- 
2.43.0


From 30590f7c979b06b6ea92482312007c2f3bf6ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 029/103] fix: seeking to the end of a stream read beyond it

---
 orc/stream/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index c1f8c2c..ccf1db5 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -99,6 +99,9 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 		return err
 	}
 	r.readLength = chunk
+	if chunk >= r.info.GetLength() { // nothing left after this position
+		return nil
+	}
 	if err := r.readAChunk(); err != nil {
 		return err
 	}
-- 
2.43.0


From 68237881b98c333e4eaa5bcbffb970d0326dd1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 030/103] fix: seeking an uncompressed stream more than one
 read buffer ahead went to a wrong position

---
 orc/stream/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index ccf1db5..5f1b55b 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -95,6 +95,10 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 	logger.Tracef("seeking, stream %s of column %d seek to chunk %d, decompressed offset %d",
 		r.info.GetKind().String(), r.info.GetColumn(), chunk, chunkOffset)
 	r.buf.Reset()
+	if r.opts.CompressionKind == pb.CompressionKind_NONE {
+		// no chunks, the offset may be any number of bytes into the stream
+		chunk, chunkOffset = chunk+chunkOffset, 0
+	}
 	if _, err := r.f.Seek(int64(r.start+chunk), io.SeekStart); err != nil {
 		return err
 	}
-- 
2.43.0


From f3f7fb367eb3bfc89133422f06933c18b52c0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 031/103] fix: an empty chunk ended the stream

---
 orc/stream/reader.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index 5f1b55b..ccda36a 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -49,12 +49,14 @@ func (r *reader) ReadByte() (b byte, err error) {
 		return
 	}
 
-	if r.readLength >= r.info.GetLength() {
-		return 0, errors.Wrapf(io.EOF, "stream %s to the end", r.info.String())
-	}
+	for r.buf.Len() == 0 { // a chunk may be empty
+		if r.readLength >= r.info.GetLength() {
+			return 0, errors.Wrapf(io.EOF, "stream %s to the end", r.info.String())
+		}
 
-	if err = r.readAChunk(); err != nil {
-		return 0, err
+		if err = r.readAChunk(); err != nil {
+			return 0, err
+		}
 	}
 	logger.Tracef("stream %s reading, has been read %d bytes", r.info.String(), r.readLength)
 	b, err = r.buf.ReadByte()
-- 
2.43.0


From 48f0e1107c1fac84cca748b94e63980610c9a5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:59 +0000
Subject: [PATCH 032/103] fix: positions recorded after a flush counted values
 of the runs before it

---
 orc/encoding/bool.go | 3 +++
 orc/encoding/byte.go | 3 +++
 orc/encoding/int.go  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index 9874427..ad3a3b4 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -63,6 +63,9 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 	}
 	e.index = -1
 	e.value = 0
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
diff --git a/orc/encoding/byte.go b/orc/encoding/byte.go
index 7c90679..bf33755 100644
--- a/orc/encoding/byte.go
+++ b/orc/encoding/byte.go
@@ -42,6 +42,9 @@ func (e *byteRunLength) Flush(out *bytes.Buffer) error {
 	for len(e.values) != 0 {
 		e.encodeBytes(out, true)
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index bf9a65e..f7a7939 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -424,6 +424,9 @@ func (e *intRLV2Encoder) Flush(out *bytes.Buffer) error {
 		}
 		e.forgetBits()
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
-- 
2.43.0


From bc563bd1eb506132aa39e7be0cf0628b67a9809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:54 +0000
Subject: [PATCH 033/103] fix: row index entries described the group after
 theirs and the last one was missing

---
 orc/column/binary.go  | 33 ++++++--------------
 orc/column/bool.go    | 37 +++++++----------------
 orc/column/byte.go    | 31 ++++++-------------
 orc/column/decimal.go | 37 ++++++-----------------
 orc/column/float.go   | 33 ++++++--------------
 orc/column/int.go     | 35 +++++++---------------
 orc/column/list.go    | 34 ++++++---------------
 orc/column/map.go     |  2 +-
 orc/column/reader.go  | 21 +++++++++----
 orc/column/string.go  | 37 +++++++----------------
 orc/column/struct.go  | 36 +++++++---------------
 orc/column/time.go    | 70 +++++++++++--------------------------------
 orc/column/writer.go  | 30 +++++++++++++++----
 13 files changed, 144 insertions(+), 292 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index ddaddfb..a04ecb0 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -13,21 +13,21 @@ import (
 )
 
 func NewBinaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
 		BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
 		index = &pb.RowIndex{}
 	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
+	base := &writer{schema: schema, opts: opts, stats: newStats(), newStats: newStats, present: present, index: index}
 	data := stream.NewStringContentsWriter(schema.Id, pb.Stream_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
 	return &binaryV2Writer{base, data, length}
@@ -40,6 +40,8 @@ type binaryV2Writer struct {
 }
 
 func (w *binaryV2Writer) Write(value api.Value) error {
+	w.startRow(w.data, w.length)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -55,23 +57,6 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}, NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		if !value.Null {
 			*w.indexStats.BinaryStatistics.Sum++
 			*w.indexStats.NumberOfValues++
@@ -246,7 +231,7 @@ func (r *BinaryV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset uint64
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/bool.go b/orc/column/bool.go
index ff68287..183f0ef 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -11,24 +11,21 @@ import (
 )
 
 func newBoolWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-		NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
+			NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
 	var present stream.Writer
 	if schema.HasNulls {
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-		*stats.HasNull = true
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-			HasNull: new(bool), NumberOfValues: new(uint64), BytesOnDisk: new(uint64)}
-		if schema.HasNulls {
-			*indexStats.HasNull = true
-		}
 		index = &pb.RowIndex{}
 	}
-	base := &writer{schema: schema, opts: opts, present: present, stats: stats, indexStats: indexStats, index: index}
+	base := &writer{schema: schema, opts: opts, present: present, stats: newStats(), newStats: newStats, index: index}
 	data := stream.NewBoolWriter(schema.Id, pb.Stream_DATA, opts)
 	return &boolWriter{base, data}
 }
@@ -39,6 +36,8 @@ type boolWriter struct {
 }
 
 func (w *boolWriter) Write(value api.Value) error {
+	w.startRow(w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -56,22 +55,6 @@ func (w *boolWriter) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		// no bytes on disk index stats
 		if !value.Null {
 			(*w.indexStats.BucketStatistics).Count[0]++
@@ -226,7 +209,7 @@ func (r *BoolReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset1, dataOffset2 uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/byte.go b/orc/column/byte.go
index adafb26..d566e90 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -11,19 +11,20 @@ import (
 )
 
 func newByteWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
 		index = &pb.RowIndex{}
 	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
+	base := &writer{schema: schema, opts: opts, stats: newStats(), newStats: newStats, present: present, index: index}
 	data := stream.NewByteWriter(schema.Id, pb.Stream_DATA, opts)
 	return &byteWriter{base, data}
 }
@@ -34,6 +35,8 @@ type byteWriter struct {
 }
 
 func (w *byteWriter) Write(value api.Value) error {
+	w.startRow(w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -49,22 +52,6 @@ func (w *byteWriter) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}, NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		// java impl does not write index statistic bytes on disk, has nulls ...
 		if !value.Null {
 			*w.indexStats.BinaryStatistics.Sum++
@@ -220,7 +207,7 @@ func (r *ByteReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index d4909f4..38ef5c4 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -15,24 +15,23 @@ import (
 )
 
 func NewDecimal64V2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
 		DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
 		index = &pb.RowIndex{}
 	}
 	data := stream.NewVarint64V2Writer(schema.Id, pb.Stream_DATA, opts)
 	secondary := stream.NewIntRLV2Writer(schema.Id, pb.Stream_SECONDARY, opts, true)
-	return &decimalV2Writer{&writer{schema: schema, opts: opts, stats: stats, present: present, index: index,
-		indexStats: indexStats}, data, secondary}
+	return &decimalV2Writer{&writer{schema: schema, opts: opts, stats: newStats(), newStats: newStats, present: present, index: index}, data, secondary}
 }
 
 type decimalV2Writer struct {
@@ -42,6 +41,8 @@ type decimalV2Writer struct {
 }
 
 func (w *decimalV2Writer) Write(value api.Value) error {
+	w.startRow(w.data, w.secondary)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -75,26 +76,6 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 		*w.stats.NumberOfValues++
 
 		if w.opts.WriteIndex {
-			w.indexInRows++
-
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					DecimalStatistics: &pb.DecimalStatistics{Maximum: new(string), Minimum: new(string), Sum: new(string)},
-					NumberOfValues:    new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
-			}
-
 			if s < w.indexStats.DecimalStatistics.GetMinimum() {
 				*w.indexStats.DecimalStatistics.Minimum = s
 			}
@@ -281,7 +262,7 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/float.go b/orc/column/float.go
index 06181dd..e6d297d 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -113,7 +113,7 @@ func (r *FloatReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 0)
 	if err != nil {
 		return err
 	}
@@ -162,21 +162,21 @@ func (r *FloatReader) Close() {
 }
 
 func newFloatWriter(schema *api.TypeDescription, opts *config.WriterOptions, is64 bool) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
 		DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64), Maximum: new(float64), Minimum: new(float64)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DoubleStatistics: &pb.DoubleStatistics{Maximum: new(float64), Minimum: new(float64), Sum: new(float64)}}
 		index = &pb.RowIndex{}
 	}
-	base := &writer{schema: schema, opts: opts, present: present, indexStats: indexStats, index: index, stats: stats}
+	base := &writer{schema: schema, opts: opts, present: present, index: index, stats: newStats(), newStats: newStats}
 	data := stream.NewFloatWriter(schema.Id, pb.Stream_DATA, opts, is64)
 	return &floatWriter{base, data, is64}
 }
@@ -188,6 +188,8 @@ type floatWriter struct {
 }
 
 func (w *floatWriter) Write(value api.Value) error {
+	w.startRow(w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -216,23 +218,6 @@ func (w *floatWriter) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64), Maximum: new(float64), Minimum: new(float64)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		if !value.Null {
 			v := value.V.(float64)
 			*w.indexStats.DoubleStatistics.Sum += v
diff --git a/orc/column/int.go b/orc/column/int.go
index 286f1fa..ea3bd76 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -11,21 +11,21 @@ import (
 )
 
 func newIntV2Writer(schema *api.TypeDescription, opts *config.WriterOptions, bits int) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		IntStatistics: &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+			IntStatistics: &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
 		index = &pb.RowIndex{}
 	}
-	base := &writer{opts: opts, schema: schema, stats: stats, present: present, index: index, indexStats: indexStats}
+	base := &writer{opts: opts, schema: schema, stats: newStats(), newStats: newStats, present: present, index: index}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
 	return &intWriter{base, data, bits}
 }
@@ -52,6 +52,8 @@ func (w *intWriter) Writes(values []api.Value) error {
 }
 
 func (w *intWriter) Write(value api.Value) error {
+	w.startRow(w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -83,23 +85,6 @@ func (w *intWriter) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-				IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		if !value.Null {
 			*w.indexStats.IntStatistics.Sum += v
 			if v < *w.indexStats.IntStatistics.Minimum {
@@ -275,7 +260,7 @@ func (r *IntV2Reader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/list.go b/orc/column/list.go
index a000b5f..08faba6 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -128,7 +128,7 @@ func (r *ListV2Reader) SeekStride(stride int) error {
 
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
@@ -187,22 +187,20 @@ func (r *ListV2Reader) Close() {
 }
 
 func NewListV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{HasNull: new(bool), NumberOfValues: new(uint64), BytesOnDisk: new(uint64)}
-		if schema.HasNulls {
-			*indexStats.HasNull = true
-		}
 		index = &pb.RowIndex{}
 	}
-	return &structWriter{&writer{schema: schema, opts: opts, present: present, indexStats: indexStats, stats: stats, index: index}}
+	return &structWriter{&writer{schema: schema, opts: opts, present: present, stats: newStats(), newStats: newStats, index: index}}
 }
 
 type listV2Writer struct {
@@ -211,6 +209,8 @@ type listV2Writer struct {
 }
 
 func (w *listV2Writer) Write(value api.Value) error {
+	w.startRow(w.length)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -225,22 +225,6 @@ func (w *listV2Writer) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		if !value.Null {
 			*w.indexStats.NumberOfValues++
 		}
diff --git a/orc/column/map.go b/orc/column/map.go
index 05434ee..9642340 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -149,7 +149,7 @@ func (r *MapV2Reader) SeekStride(stride int) error {
 
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/reader.go b/orc/column/reader.go
index d2635ad..bf93101 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -58,19 +58,28 @@ func (r *reader) InitIndex(startOffset uint64, length uint64) error {
 	return nil
 }
 
-func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
+// getStridePositions returns where the streams are at the first row of a stride. streams is the number of streams the
+// column has besides present, values the number of positions inside the runs of them
+func (r *reader) getStridePositions(stride int, present bool, streams int, values int) (pos []uint64, err error) {
 	if r.index == nil {
 		err = errors.New("no index")
 		return
 	}
-	if stride < 1 {
-		err = errors.New("stride < 1")
+	if stride < 0 || stride >= len(r.index.Entry) {
+		err = errors.Errorf("stride %d does not exist", stride)
 		return
 	}
-	if stride > len(r.index.Entry) {
-		err = errors.Errorf("stride %d does not exist", stride)
+	pos = r.index.Entry[stride].Positions
+	if present {
+		streams, values = streams+1, values+2
+	}
+	n := streams + values
+	if r.opts.CompressionKind != pb.CompressionKind_NONE {
+		n += streams
+	}
+	if len(pos) < n {
+		err = errors.Errorf("stride %d has %d positions only", stride, len(pos))
 	}
-	pos = r.index.Entry[stride-1].Positions
 	return
 }
 
diff --git a/orc/column/string.go b/orc/column/string.go
index 29cb5ae..9b02050 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -16,22 +16,22 @@ const (
 )
 
 func newStringDirectV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
 		Maximum: new(string), Minimum: new(string), Sum: new(int64)},
 		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var index *pb.RowIndex
-	var indexStats *pb.ColumnStatistics
 	if opts.WriteIndex {
 		index = &pb.RowIndex{}
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool),
-			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64)}}
 	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
+	base := &writer{schema: schema, opts: opts, stats: newStats(), newStats: newStats, present: present, index: index}
 	data := stream.NewStringContentsWriter(schema.Id, pb.Stream_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
 	return &stringDirectV2Writer{base, data, length}
@@ -44,6 +44,8 @@ type stringDirectV2Writer struct {
 }
 
 func (w *stringDirectV2Writer) Write(value api.Value) error {
+	w.startRow(w.data, w.length)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -91,25 +93,6 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Statistics: w.indexStats, Positions: pp})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-				Maximum: new(string), Minimum: new(string), Sum: new(int64)},
-				NumberOfValues: new(uint64), HasNull: new(bool)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-
 		if !value.Null {
 			*w.indexStats.NumberOfValues++
 			*w.indexStats.StringStatistics.Sum += int64(dataLength)
@@ -302,7 +285,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset uint64
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 1)
 	if err != nil {
 		return err
 	}
@@ -482,7 +465,7 @@ func (r *StringDictionaryV2Reader) SeekStride(stride int) error {
 	// need data index only
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 0d08bea..4f66c77 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -65,7 +65,7 @@ func (r *StructReader) SeekStride(stride int) error {
 	if r.present != nil {
 		var pChunk, pChunkOffset, pOffset1, pOffset2 uint64
 
-		pos, err := r.getStridePositions(stride)
+		pos, err := r.getStridePositions(stride, r.present != nil, 0, 0)
 		if err != nil {
 			return err
 		}
@@ -156,24 +156,21 @@ func (r *StructReader) Close() {
 }
 
 func newStructWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-		NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
+			NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-			HasNull: new(bool), NumberOfValues: new(uint64), BytesOnDisk: new(uint64)}
-		if schema.HasNulls {
-			*indexStats.HasNull = true
-		}
 		index = &pb.RowIndex{}
 	}
-	return &structWriter{&writer{schema: schema, opts: opts, present: present, indexStats: indexStats, stats: stats, index: index}}
+	return &structWriter{&writer{schema: schema, opts: opts, present: present, stats: newStats(), newStats: newStats, index: index}}
 }
 
 type structWriter struct {
@@ -181,6 +178,8 @@ type structWriter struct {
 }
 
 func (w *structWriter) Write(value api.Value) error {
+	w.startRow()
+
 	if !w.schema.HasNulls {
 		return nil
 	}
@@ -194,21 +193,6 @@ func (w *structWriter) Write(value api.Value) error {
 	*w.stats.NumberOfValues++
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		// no bytes on disk index stats
 		if !value.Null {
 			(*w.indexStats.BucketStatistics).Count[0]++
diff --git a/orc/column/time.go b/orc/column/time.go
index 97c1697..d9fd25d 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -13,21 +13,21 @@ import (
 )
 
 func NewDateV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
 		DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}}
 		index = &pb.RowIndex{}
 	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
+	base := &writer{schema: schema, opts: opts, stats: newStats(), newStats: newStats, present: present, index: index}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
 	return &dateV2Writer{base, data}
 }
@@ -38,6 +38,8 @@ type dateV2Writer struct {
 }
 
 func (w *dateV2Writer) Write(value api.Value) error {
+	w.startRow(w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -61,23 +63,6 @@ func (w *dateV2Writer) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		if !value.Null {
 			if days < w.stats.DateStatistics.GetMinimum() {
 				*w.stats.DateStatistics.Minimum = days
@@ -221,7 +206,7 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 }
 
 func (r *DateV2Reader) SeekStride(stride int) error {
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
@@ -277,24 +262,23 @@ func (r *DateV2Reader) Close() {
 }
 
 func NewTimestampV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
 		TimestampStatistics: &pb.TimestampStatistics{Minimum: new(int64), MinimumUtc: new(int64), Maximum: new(int64), MaximumUtc: new(int64)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
-	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DoubleStatistics: &pb.DoubleStatistics{Maximum: new(float64), Minimum: new(float64), Sum: new(float64)}}
 		index = &pb.RowIndex{}
 	}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
 	secondary := stream.NewIntRLV2Writer(schema.Id, pb.Stream_SECONDARY, opts, false)
-	return &timestampWriter{&writer{schema: schema, opts: opts, stats: stats, present: present, index: index,
-		indexStats: indexStats}, data, secondary}
+	return &timestampWriter{&writer{schema: schema, opts: opts, stats: newStats(), newStats: newStats, present: present, index: index}, data, secondary}
 }
 
 type timestampWriter struct {
@@ -304,6 +288,8 @@ type timestampWriter struct {
 }
 
 func (w *timestampWriter) Write(value api.Value) error {
+	w.startRow(w.data, w.secondary)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -336,26 +322,6 @@ func (w *timestampWriter) Write(value api.Value) error {
 		}
 
 		if w.opts.WriteIndex {
-			w.indexInRows++
-
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					TimestampStatistics: &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)},
-					NumberOfValues:      new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
-			}
-
 			if w.indexStats.TimestampStatistics == nil {
 				w.indexStats.TimestampStatistics = &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)}
 			}
@@ -552,7 +518,7 @@ func (r *TimestampV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/writer.go b/orc/column/writer.go
index c6ff6b4..1ebbc2c 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -20,6 +20,7 @@ type writer struct {
 	indexInRows int
 	indexStats  *pb.ColumnStatistics
 	index       *pb.RowIndex
+	newStats    func() *pb.ColumnStatistics
 
 	flushed bool
 }
@@ -33,16 +34,35 @@ func (w *writer) reset() {
 
 	if w.opts.WriteIndex {
 		w.indexInRows = 0
-		w.index.Reset()
-		w.indexStats.Reset()
-		w.indexStats.HasNull = new(bool)
-		w.indexStats.NumberOfValues = new(uint64)
-		w.indexStats.BytesOnDisk = new(uint64)
+		w.index = &pb.RowIndex{}
 	}
 
 	// stats will not reset, it's for whole writer
 }
 
+// startRow is called before a row is written, the first row of a row group adds the index entry of the group: where the
+// streams are now, and the statistics of the rows to come
+func (w *writer) startRow(streams ...stream.Writer) {
+	if !w.opts.WriteIndex {
+		return
+	}
+	if w.indexInRows >= w.opts.IndexStride {
+		w.indexInRows = 0
+	}
+	if w.indexInRows == 0 {
+		var pp []uint64
+		if w.schema.HasNulls {
+			pp = append(pp, w.present.GetPosition()...)
+		}
+		for _, s := range streams {
+			pp = append(pp, s.GetPosition()...)
+		}
+		w.indexStats = w.newStats()
+		w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
+	}
+	w.indexInRows++
+}
+
 func (w writer) GetIndex() *pb.RowIndex {
 	return w.index
 }
-- 
2.43.0


From 0e1d60a38a03283e6de6c86eeba4d1e4e29047cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 034/103] fix: positions of a decimal column had an entry no
 other ORC reader expects

---
 orc/column/decimal.go | 29 +++++++++++++----------------
 orc/encoding/int.go   |  3 ++-
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 38ef5c4..15b4fa9 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -259,7 +259,8 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 		return nil
 	}
 
-	var dataChunk, dataChunkOffset, dataOffset uint64
+	// varint data has no position inside a run
+	var dataChunk, dataChunkOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
 	pos, err := r.getStridePositions(stride, r.present != nil, 2, 1)
@@ -275,9 +276,8 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 			pOffset2 = pos[2]
 
 			dataChunkOffset = pos[3]
-			dataOffset = pos[4]
-			secondaryChunkOffset = pos[5]
-			secondaryOffset = pos[6]
+			secondaryChunkOffset = pos[4]
+			secondaryOffset = pos[5]
 
 		} else {
 			pChunk = pos[0]
@@ -287,10 +287,9 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 
 			dataChunk = pos[4]
 			dataChunkOffset = pos[5]
-			dataOffset = pos[6]
-			secondaryChunk = pos[7]
-			secondaryChunkOffset = pos[8]
-			secondaryOffset = pos[9]
+			secondaryChunk = pos[6]
+			secondaryChunkOffset = pos[7]
+			secondaryOffset = pos[8]
 		}
 
 		if err = r.present.Seek(pChunk, pChunkOffset, pOffset1, pOffset2); err != nil {
@@ -301,20 +300,18 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 
 		if r.opts.CompressionKind == pb.CompressionKind_NONE {
 			dataChunkOffset = pos[0]
-			dataOffset = pos[1]
-			secondaryChunkOffset = pos[2]
-			secondaryOffset = pos[3]
+			secondaryChunkOffset = pos[1]
+			secondaryOffset = pos[2]
 		} else {
 			dataChunk = pos[0]
 			dataChunkOffset = pos[1]
-			dataOffset = pos[2]
-			secondaryChunk = pos[3]
-			secondaryChunkOffset = pos[4]
-			secondaryOffset = pos[5]
+			secondaryChunk = pos[2]
+			secondaryChunkOffset = pos[3]
+			secondaryOffset = pos[4]
 		}
 	}
 
-	if err = r.data.Seek(dataChunk, dataChunkOffset, dataOffset); err != nil {
+	if err = r.data.Seek(dataChunk, dataChunkOffset, 0); err != nil {
 		return err
 	}
 	if err = r.secondary.Seek(secondaryChunk, secondaryChunkOffset, secondaryOffset); err != nil {
diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index f7a7939..a13aa6c 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -1200,7 +1200,8 @@ func (e *varint64Encoder) Flush(out *bytes.Buffer) error {
 }
 
 func (e *varint64Encoder) GetPosition() []uint64 {
-	return []uint64{1}
+	// there is no run
+	return nil
 }
 
 func DecodeVarInt64(in BufferedReader) (value int64, err error) {
-- 
2.43.0


From 190a2de1562198fcbe2b7f7693312ee44853e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 035/103] fix: timestamps read from a file were dropped

---
 orc/column/time.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/column/time.go b/orc/column/time.go
index d9fd25d..c8e0f0b 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -468,9 +468,9 @@ func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if ns, err = r.secondary.NextUInt64(); err != nil {
 				return err
 			}
-			t:= vec.Vector[i].V.(api.Timestamp)
-			t.Seconds= s
-			t.Nanos= api.DecodingTimestampNanos(ns)
+			vec.Vector[i].V = api.Timestamp{Loc: r.loc, Seconds: s, Nanos: api.DecodingTimestampNanos(ns)}
+		} else {
+			vec.Vector[i].V = nil
 		}
 	}
 	return nil
-- 
2.43.0


From 1d10963da2c97e30a4da2b33c4ce9d9041f3b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 036/103] fix: decimals read from a file were dropped

---
 orc/column/decimal.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 15b4fa9..560119f 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -212,9 +212,7 @@ func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if scale, err = r.secondary.NextInt64(); err != nil {
 				return err
 			}
-			d:= vec.Vector[i].V.(api.Decimal64)
-			d.Precision= precision
-			d.Scale= int(scale)
+			vec.Vector[i].V = api.Decimal64{Precision: precision, Scale: int(scale)}
 		}
 	}
 	return nil
-- 
2.43.0


From d71d667ad3215eb730cef77bd280448409634e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 037/103] fix: lengths of binary values were not written

---
 orc/column/binary.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index a04ecb0..58fc154 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -49,7 +49,14 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 	}
 
 	if !value.Null {
-		if err := w.data.Write(value.V); err != nil {
+		data, ok := value.V.([]byte)
+		if !ok {
+			return errors.New("binary column writing, value should be []byte")
+		}
+		if err := w.data.Write(data); err != nil {
+			return err
+		}
+		if err := w.length.Write(uint64(len(data))); err != nil {
 			return err
 		}
 		*w.stats.BinaryStatistics.Sum++
-- 
2.43.0


From c685b5119679e971d557dde9a0af35b6252286d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 038/103] fix: errors of skipping binary values were dropped

---
 orc/column/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 58fc154..e3cdb4a 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -189,7 +189,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 				return err
 			}
 			if _, err = r.data.NextBytes(l); err != nil {
-				return nil
+				return err
 			}
 		}
 	}
-- 
2.43.0


From 77395b6822ede4f5f863d66eb03ab0ed0c3f16d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 039/103] fix: string columns in dictionary encoding could not
 be written

---
 orc/column/string.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 9b02050..02b53a8 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -573,8 +573,8 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		l := len(data)
 
 		vs := w.data[s]
-		w.count++
 		vs = append(vs, w.count)
+		w.count++
 		w.data[s] = vs
 
 		*w.stats.NumberOfValues++
@@ -648,11 +648,11 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	}
 	sort.Strings(dict)
 
-	data := make([]int, w.count)
+	data := make([]uint64, w.count)
 	for dictIndex, keyString := range dict {
 		positions := w.data[keyString]
 		for _, position := range positions {
-			data[position] = dictIndex
+			data[position] = uint64(dictIndex)
 		}
 	}
 	for _, v := range data {
@@ -661,10 +661,10 @@ func (w *stringDictionaryV2Writer) Flush() error {
 		}
 	}
 	for _, v := range dict {
-		if err := w.dictStream.Write(v); err != nil {
+		bs := []byte(v)
+		if err := w.dictStream.Write(bs); err != nil {
 			return err
 		}
-		bs := []byte(v)
 		if err := w.lengthStream.Write(uint64(len(bs))); err != nil {
 			return err
 		}
@@ -722,7 +722,7 @@ func (w stringDictionaryV2Writer) GetStreamInfos() []*pb.Stream {
 	return []*pb.Stream{w.dataStream.Info(), w.dictStream.Info(), w.lengthStream.Info()}
 }
 
-func (w stringDictionaryV2Writer) Reset() {
+func (w *stringDictionaryV2Writer) Reset() {
 	w.reset()
 	w.dataStream.Reset()
 	w.dictStream.Reset()
-- 
2.43.0


From ab509b3a0434ce55631c2743b8a60b34b1a08746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 040/103] fix: columns in dictionary encoding had no row index

---
 orc/column/string.go | 91 ++++++++++++++++++--------------------------
 1 file changed, 37 insertions(+), 54 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 02b53a8..199e831 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -18,8 +18,8 @@ const (
 func newStringDirectV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	newStats := func() *pb.ColumnStatistics {
 		stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-		Maximum: new(string), Minimum: new(string), Sum: new(int64)},
-		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+			Maximum: new(string), Minimum: new(string), Sum: new(int64)},
+			NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
 		*stats.HasNull = schema.HasNulls
 		return stats
 	}
@@ -397,7 +397,7 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 
 	if !r.dictLoaded {
-		for ; !r.length.Finished(); {
+		for !r.length.Finished() {
 			var l uint64
 			if l, err = r.length.NextUInt64(); err != nil {
 				return err
@@ -524,22 +524,22 @@ func (r *StringDictionaryV2Reader) Close() {
 }
 
 func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-		Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
-		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
+			Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
+			NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var index *pb.RowIndex
-	var indexStats *pb.ColumnStatistics
 	if opts.WriteIndex {
 		index = &pb.RowIndex{}
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool),
-			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)}}
 	}
-	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
+	base := &writer{schema: schema, opts: opts, stats: newStats(), newStats: newStats, present: present, index: index}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, false)
 	dict := stream.NewStringContentsWriter(schema.Id, pb.Stream_DICTIONARY_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
@@ -554,9 +554,16 @@ type stringDictionaryV2Writer struct {
 
 	count int
 	data  map[string][]int
+	// number of values before every row group
+	groups []int
 }
 
 func (w *stringDictionaryV2Writer) Write(value api.Value) error {
+	w.startRow()
+	if w.opts.WriteIndex && w.indexInRows == 1 {
+		w.groups = append(w.groups, w.count)
+	}
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -577,6 +584,10 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		w.count++
 		w.data[s] = vs
 
+		if w.opts.WriteIndex {
+			*w.indexStats.NumberOfValues++
+			*w.indexStats.StringStatistics.Sum += int64(l)
+		}
 		*w.stats.NumberOfValues++
 		*w.stats.StringStatistics.Sum += int64(l)
 		if l >= MaxByteLength {
@@ -596,48 +607,6 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		}
 	}
 
-	// todo: index writing
-	/*if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.dataStream.GetPosition()...)
-			pp = append(pp, w.lengthStream.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Statistics: w.indexStats, Positions: pp})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-				Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
-				NumberOfValues: new(uint64), HasNull: new(bool)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-
-		if !value.Null {
-			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(l)
-			s := value.V.(string)
-			if l >= MaxByteLength {
-				if s < *w.indexStats.StringStatistics.LowerBound {
-					*w.indexStats.StringStatistics.LowerBound = s
-				}
-				if s > *w.indexStats.StringStatistics.UpperBound {
-					*w.indexStats.StringStatistics.UpperBound = s
-				}
-			} else {
-				if s < *w.indexStats.StringStatistics.Minimum {
-					*w.indexStats.StringStatistics.Minimum = s
-				}
-				if s > *w.indexStats.StringStatistics.Maximum {
-					*w.indexStats.StringStatistics.Maximum = s
-				}
-			}
-		}
-	}*/
 	return nil
 }
 
@@ -655,11 +624,18 @@ func (w *stringDictionaryV2Writer) Flush() error {
 			data[position] = uint64(dictIndex)
 		}
 	}
-	for _, v := range data {
+	group := 0
+	for i, v := range data {
+		for ; group < len(w.groups) && w.groups[group] == i; group++ {
+			w.addDataPosition(group)
+		}
 		if err := w.dataStream.Write(v); err != nil {
 			return err
 		}
 	}
+	for ; group < len(w.groups); group++ {
+		w.addDataPosition(group)
+	}
 	for _, v := range dict {
 		bs := []byte(v)
 		if err := w.dictStream.Write(bs); err != nil {
@@ -696,6 +672,12 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	return nil
 }
 
+// the dictionary is not known before flush, nor is where the data of a row group starts
+func (w *stringDictionaryV2Writer) addDataPosition(group int) {
+	entry := w.index.Entry[group]
+	entry.Positions = append(entry.Positions, w.dataStream.GetPosition()...)
+}
+
 func (w *stringDictionaryV2Writer) WriteOut(out io.Writer) (n int64, err error) {
 	var pn, dn, dcn, ln int64
 	if w.schema.HasNulls {
@@ -730,6 +712,7 @@ func (w *stringDictionaryV2Writer) Reset() {
 
 	w.data = map[string][]int{}
 	w.count = 0
+	w.groups = nil
 }
 
 func (w stringDictionaryV2Writer) Size() int {
-- 
2.43.0


From 3e09a74cfdc3e6bb4eb63b83628c33e4441fcf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 041/103] fix: a dictionary index out of range panicked

---
 orc/column/string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/column/string.go b/orc/column/string.go
index 199e831..be19728 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -424,6 +424,9 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if data, err = r.data.NextUInt64(); err != nil {
 				return err
 			}
+			if data >= uint64(len(r.dictStrings)) {
+				return errors.Errorf("dictionary has %d strings, no %d", len(r.dictStrings), data)
+			}
 			vec.Vector[i].V = r.dictStrings[data]
 		}
 	}
-- 
2.43.0


From e34436220cbb2695a1aaa21fcb8a5cd7da6a595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 042/103] fix: stripe footer had no dictionary size

---
 orc/column/string.go | 4 ++++
 orc/stripe.go        | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index be19728..0acab8e 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -681,6 +681,10 @@ func (w *stringDictionaryV2Writer) addDataPosition(group int) {
 	entry.Positions = append(entry.Positions, w.dataStream.GetPosition()...)
 }
 
+func (w *stringDictionaryV2Writer) DictionarySize() uint32 {
+	return uint32(len(w.data))
+}
+
 func (w *stringDictionaryV2Writer) WriteOut(out io.Writer) (n int64, err error) {
 	var pn, dn, dcn, ln int64
 	if w.schema.HasNulls {
diff --git a/orc/stripe.go b/orc/stripe.go
index 228b315..82c3130 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -126,8 +126,13 @@ func (stripe *stripeWriter) writeFooter() error {
 		footer.Streams = append(footer.Streams, c.GetStreamInfos()...)
 	}
 
-	for _, schema := range stripe.schemas {
-		footer.Columns = append(footer.Columns, &pb.ColumnEncoding{Kind: &schema.Encoding})
+	for i, schema := range stripe.schemas {
+		encoding := &pb.ColumnEncoding{Kind: &schema.Encoding}
+		if d, ok := stripe.columnWriters[i].(interface{ DictionarySize() uint32 }); ok {
+			size := d.DictionarySize()
+			encoding.DictionarySize = &size
+		}
+		footer.Columns = append(footer.Columns, encoding)
 	}
 
 	footerBuf, err := proto.Marshal(footer)
-- 
2.43.0


From bba5c3b08ac272119560e84c274288a9a6c944bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 043/103] fix: minimum and maximum of int columns counted a
 zero, sum wrapped

---
 orc/column/int.go | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/orc/column/int.go b/orc/column/int.go
index ea3bd76..ee56608 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -13,7 +13,7 @@ import (
 func newIntV2Writer(schema *api.TypeDescription, opts *config.WriterOptions, bits int) Writer {
 	newStats := func() *pb.ColumnStatistics {
 		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			IntStatistics: &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}}
+			IntStatistics: &pb.IntegerStatistics{Sum: new(int64)}}
 		*stats.HasNull = schema.HasNulls
 		return stats
 	}
@@ -74,29 +74,31 @@ func (w *intWriter) Write(value api.Value) error {
 		if err := w.data.Write(v); err != nil {
 			return err
 		}
-		*w.stats.IntStatistics.Sum += v
-		if v < *w.stats.IntStatistics.Minimum {
-			*w.stats.IntStatistics.Minimum = v
+		addInt(w.stats, v)
+		if w.opts.WriteIndex {
+			addInt(w.indexStats, v)
 		}
-		if v > *w.stats.IntStatistics.Maximum {
-			*w.stats.IntStatistics.Maximum = v
-		}
-		*w.stats.NumberOfValues++
 	}
+	return nil
+}
 
-	if w.opts.WriteIndex {
-		if !value.Null {
-			*w.indexStats.IntStatistics.Sum += v
-			if v < *w.indexStats.IntStatistics.Minimum {
-				*w.indexStats.IntStatistics.Minimum = v
-			}
-			if v > *w.indexStats.IntStatistics.Maximum {
-				*w.indexStats.IntStatistics.Maximum = v
-			}
-			*w.indexStats.NumberOfValues++
+func addInt(stats *pb.ColumnStatistics, v int64) {
+	is := stats.IntStatistics
+	if is.Minimum == nil || v < *is.Minimum {
+		is.Minimum = &v
+	}
+	if is.Maximum == nil || v > *is.Maximum {
+		is.Maximum = &v
+	}
+	// no sum when it overflowed
+	if is.Sum != nil {
+		if sum := *is.Sum + v; (sum > *is.Sum) == (v > 0) {
+			*is.Sum = sum
+		} else {
+			is.Sum = nil
 		}
 	}
-	return nil
+	*stats.NumberOfValues++
 }
 
 func (w intWriter) Size() int {
-- 
2.43.0


From 507f1bc927e34d98bfafd187fc4eff46e8cb2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 044/103] fix: tinyint columns had binary statistics

---
 orc/column/byte.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/orc/column/byte.go b/orc/column/byte.go
index d566e90..69bac30 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -12,7 +12,7 @@ import (
 
 func newByteWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	newStats := func() *pb.ColumnStatistics {
-		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), IntStatistics: &pb.IntegerStatistics{Sum: new(int64)}}
 		*stats.HasNull = schema.HasNulls
 		return stats
 	}
@@ -47,15 +47,11 @@ func (w *byteWriter) Write(value api.Value) error {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		*w.stats.BinaryStatistics.Sum++
-		*w.stats.NumberOfValues++ // makeSure:
-	}
-
-	if w.opts.WriteIndex {
-		// java impl does not write index statistic bytes on disk, has nulls ...
-		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
-			*w.indexStats.NumberOfValues++
+		v := int64(int8(value.V.(byte)))
+		addInt(w.stats, v)
+		if w.opts.WriteIndex {
+			// java impl does not write index statistic bytes on disk, has nulls ...
+			addInt(w.indexStats, v)
 		}
 	}
 	return nil
-- 
2.43.0


From 28851234700d7cfa76a11414e14ea53386afd6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 045/103] fix: row index of a float column panicked, minimum
 and maximum counted a zero

---
 orc/column/float.go | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/orc/column/float.go b/orc/column/float.go
index e6d297d..05d9956 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -164,7 +164,7 @@ func (r *FloatReader) Close() {
 func newFloatWriter(schema *api.TypeDescription, opts *config.WriterOptions, is64 bool) Writer {
 	newStats := func() *pb.ColumnStatistics {
 		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64), Maximum: new(float64), Minimum: new(float64)}}
+		DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64)}}
 		*stats.HasNull = schema.HasNulls
 		return stats
 	}
@@ -207,31 +207,25 @@ func (w *floatWriter) Write(value api.Value) error {
 			v = float64(value.V.(float32))
 		}
 
-		*w.stats.DoubleStatistics.Sum += v
-		*w.stats.NumberOfValues++
-		if v < *w.stats.DoubleStatistics.Minimum {
-			*w.stats.DoubleStatistics.Minimum = v
-		}
-		if v > *w.stats.DoubleStatistics.Maximum {
-			*w.stats.DoubleStatistics.Maximum = v
+		addFloat(w.stats, v)
+		if w.opts.WriteIndex {
+			addFloat(w.indexStats, v)
 		}
 	}
+	return nil
+}
 
-	if w.opts.WriteIndex {
-		if !value.Null {
-			v := value.V.(float64)
-			*w.indexStats.DoubleStatistics.Sum += v
-			if v < *w.indexStats.DoubleStatistics.Minimum {
-				*w.indexStats.DoubleStatistics.Minimum = v
-			}
-			if v > *w.indexStats.DoubleStatistics.Maximum {
-				*w.indexStats.DoubleStatistics.Maximum = v
-			}
-
-			*w.indexStats.NumberOfValues++
-		}
+func addFloat(stats *pb.ColumnStatistics, v float64) {
+	ds := stats.DoubleStatistics
+	// NaN is neither
+	if v == v && (ds.Minimum == nil || v < *ds.Minimum) {
+		ds.Minimum = &v
 	}
-	return nil
+	if v == v && (ds.Maximum == nil || v > *ds.Maximum) {
+		ds.Maximum = &v
+	}
+	*ds.Sum += v
+	*stats.NumberOfValues++
 }
 
 func (w *floatWriter) Flush() error {
-- 
2.43.0


From 256a470b3f49610f2f252507ac3e4bc830170572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 046/103] fix: sum of a binary column counted values instead of
 bytes

---
 orc/column/binary.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index e3cdb4a..06a7a97 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -59,13 +59,10 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 		if err := w.length.Write(uint64(len(data))); err != nil {
 			return err
 		}
-		*w.stats.BinaryStatistics.Sum++
+		*w.stats.BinaryStatistics.Sum += int64(len(data))
 		*w.stats.NumberOfValues++
-	}
-
-	if w.opts.WriteIndex {
-		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
+		if w.opts.WriteIndex {
+			*w.indexStats.BinaryStatistics.Sum += int64(len(data))
 			*w.indexStats.NumberOfValues++
 		}
 	}
-- 
2.43.0


From 3957cbd1249406fdcf13ffa0b58d0ef65578187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 047/103] fix: row group statistics of a bool column counted
 false as true

---
 orc/column/bool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/column/bool.go b/orc/column/bool.go
index 183f0ef..771bab9 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -57,7 +57,9 @@ func (w *boolWriter) Write(value api.Value) error {
 	if w.opts.WriteIndex {
 		// no bytes on disk index stats
 		if !value.Null {
-			(*w.indexStats.BucketStatistics).Count[0]++
+			if value.V.(bool) {
+				(*w.indexStats.BucketStatistics).Count[0]++
+			}
 			*w.indexStats.NumberOfValues++
 		}
 	}
-- 
2.43.0


From 33cc14f5ed1cc72db77bc2ff2ea1efa2d709a83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 048/103] fix: minimum and maximum of date columns counted a
 zero, row groups had none

---
 orc/column/time.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/orc/column/time.go b/orc/column/time.go
index c8e0f0b..efc3e55 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -15,7 +15,7 @@ import (
 func NewDateV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	newStats := func() *pb.ColumnStatistics {
 		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}}
+		DateStatistics: &pb.DateStatistics{}}
 		*stats.HasNull = schema.HasNulls
 		return stats
 	}
@@ -53,27 +53,23 @@ func (w *dateV2Writer) Write(value api.Value) error {
 		if err := w.data.Write(int64(days)); err != nil {
 			return err
 		}
-		if days < w.stats.DateStatistics.GetMinimum() {
-			*w.stats.DateStatistics.Minimum = days
-		}
-		if days > w.stats.DateStatistics.GetMaximum() {
-			*w.stats.DateStatistics.Maximum = days
+		addDate(w.stats, days)
+		if w.opts.WriteIndex {
+			addDate(w.indexStats, days)
 		}
-		*w.stats.NumberOfValues++
 	}
+	return nil
+}
 
-	if w.opts.WriteIndex {
-		if !value.Null {
-			if days < w.stats.DateStatistics.GetMinimum() {
-				*w.stats.DateStatistics.Minimum = days
-			}
-			if days > w.stats.DateStatistics.GetMaximum() {
-				*w.stats.DateStatistics.Maximum = days
-			}
-			*w.indexStats.NumberOfValues++
-		}
+func addDate(stats *pb.ColumnStatistics, days int32) {
+	ds := stats.DateStatistics
+	if ds.Minimum == nil || days < *ds.Minimum {
+		ds.Minimum = &days
 	}
-	return nil
+	if ds.Maximum == nil || days > *ds.Maximum {
+		ds.Maximum = &days
+	}
+	*stats.NumberOfValues++
 }
 
 func (w *dateV2Writer) Flush() error {
-- 
2.43.0


From 5a74c647cc5b6ba1f3c13b98bbf9c446348c2d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 049/103] fix: statistics of timestamp columns mixed minimum
 and maximum up

---
 orc/column/time.go | 58 ++++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/orc/column/time.go b/orc/column/time.go
index efc3e55..9dd523c 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -260,7 +260,7 @@ func (r *DateV2Reader) Close() {
 func NewTimestampV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	newStats := func() *pb.ColumnStatistics {
 		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		TimestampStatistics: &pb.TimestampStatistics{Minimum: new(int64), MinimumUtc: new(int64), Maximum: new(int64), MaximumUtc: new(int64)}}
+		TimestampStatistics: &pb.TimestampStatistics{}}
 		*stats.HasNull = schema.HasNulls
 		return stats
 	}
@@ -301,47 +301,33 @@ func (w *timestampWriter) Write(value api.Value) error {
 			return err
 		}
 
-		*w.stats.NumberOfValues++
-		ms := t.GetMilliSeconds()
-		if ms < w.stats.TimestampStatistics.GetMinimum() {
-			*w.stats.TimestampStatistics.Minimum = ms
-		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
-			*w.stats.TimestampStatistics.Maximum = ms
-		}
-		msUtc := t.GetMilliSecondsUtc()
-		if ms < w.stats.TimestampStatistics.GetMinimumUtc() {
-			*w.stats.TimestampStatistics.Minimum = msUtc
-		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
-			*w.stats.TimestampStatistics.MaximumUtc = msUtc
-		}
-
+		addTimestamp(w.stats, t)
 		if w.opts.WriteIndex {
-			if w.indexStats.TimestampStatistics == nil {
-				w.indexStats.TimestampStatistics = &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)}
-			}
-
-			if ms > w.indexStats.TimestampStatistics.GetMaximum() {
-				*w.indexStats.TimestampStatistics.Maximum = ms
-			}
-			if ms < w.indexStats.TimestampStatistics.GetMinimum() {
-				*w.indexStats.TimestampStatistics.Minimum = ms
-			}
-			if msUtc > w.indexStats.TimestampStatistics.GetMaximumUtc() {
-				*w.indexStats.TimestampStatistics.MaximumUtc = msUtc
-			}
-			if msUtc < w.indexStats.TimestampStatistics.GetMinimumUtc() {
-				*w.indexStats.TimestampStatistics.Minimum = msUtc
-			}
-
-			*w.indexStats.NumberOfValues++
+			addTimestamp(w.indexStats, t)
 		}
 	}
-
 	return nil
 }
 
+func addTimestamp(stats *pb.ColumnStatistics, t api.Timestamp) {
+	ts := stats.TimestampStatistics
+	ms := t.GetMilliSeconds()
+	if ts.Minimum == nil || ms < *ts.Minimum {
+		ts.Minimum = &ms
+	}
+	if ts.Maximum == nil || ms > *ts.Maximum {
+		ts.Maximum = &ms
+	}
+	msUtc := t.GetMilliSecondsUtc()
+	if ts.MinimumUtc == nil || msUtc < *ts.MinimumUtc {
+		ts.MinimumUtc = &msUtc
+	}
+	if ts.MaximumUtc == nil || msUtc > *ts.MaximumUtc {
+		ts.MaximumUtc = &msUtc
+	}
+	*stats.NumberOfValues++
+}
+
 func (w *timestampWriter) Flush() error {
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
-- 
2.43.0


From 4d2d57332ea8f27ccc04d27b914769b8e83a2159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 050/103] fix: decimal statistics were no decimals, a decimal
 column with row index could not be written

---
 orc/column/decimal.go | 79 ++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 34 deletions(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 560119f..9fcddf3 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -1,10 +1,10 @@
 package column
 
 import (
-	"fmt"
 	orcio "github.com/patrickhuang888/goorc/orc/io"
 	"io"
-	"strconv"
+	"math/big"
+	"strings"
 
 	"github.com/pkg/errors"
 
@@ -17,7 +17,7 @@ import (
 func NewDecimal64V2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	newStats := func() *pb.ColumnStatistics {
 		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
+		DecimalStatistics: &pb.DecimalStatistics{}}
 		*stats.HasNull = schema.HasNulls
 		return stats
 	}
@@ -57,44 +57,55 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 		if err := w.secondary.Write(int64(d.Scale)); err != nil {
 			return err
 		}
-		s := d.String()
-		if s < w.stats.DecimalStatistics.GetMinimum() {
-			*w.stats.DecimalStatistics.Minimum = s
-		}
-		if s > w.stats.DecimalStatistics.GetMaximum() {
-			*w.stats.DecimalStatistics.Maximum = s
-		}
-		var sum float64
-		var err error
-		if w.stats.DecimalStatistics.GetSum() != "" {
-			if sum, err = strconv.ParseFloat(w.stats.DecimalStatistics.GetSum(), 64); err != nil {
-				return errors.WithStack(err)
-			}
-		}
-		sum += d.Float64()
-		*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", sum)
-		*w.stats.NumberOfValues++
-
+		addDecimal(w.stats, d)
 		if w.opts.WriteIndex {
-			if s < w.indexStats.DecimalStatistics.GetMinimum() {
-				*w.indexStats.DecimalStatistics.Minimum = s
-			}
-			if s > w.indexStats.DecimalStatistics.GetMaximum() {
-				*w.stats.DecimalStatistics.Maximum = s
-			}
-			indexSum, err := strconv.ParseFloat(w.indexStats.DecimalStatistics.GetSum(), 64)
-			if err != nil {
-				return errors.WithStack(err)
-			}
-			indexSum += d.Float64()
-			*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", indexSum)
-			*w.indexStats.NumberOfValues++
+			addDecimal(w.indexStats, d)
 		}
 	}
 
 	return nil
 }
 
+func addDecimal(stats *pb.ColumnStatistics, d api.Decimal64) {
+	ds := stats.DecimalStatistics
+	v := new(big.Rat).SetInt64(d.Precision)
+	scale := d.Scale
+	if scale < 0 {
+		v.Mul(v, new(big.Rat).SetInt(pow10(-scale)))
+		scale = 0
+	} else {
+		v.Quo(v, new(big.Rat).SetInt(pow10(scale)))
+	}
+	s := v.FloatString(scale)
+	if ds.Minimum == nil || v.Cmp(parseDecimal(*ds.Minimum)) < 0 {
+		ds.Minimum = &s
+	}
+	if ds.Maximum == nil || v.Cmp(parseDecimal(*ds.Maximum)) > 0 {
+		ds.Maximum = &s
+	}
+	if ds.Sum != nil {
+		if i := strings.IndexByte(*ds.Sum, '.'); i >= 0 && len(*ds.Sum)-i-1 > scale {
+			scale = len(*ds.Sum) - i - 1
+		}
+		v.Add(v, parseDecimal(*ds.Sum))
+	}
+	sum := v.FloatString(scale)
+	ds.Sum = &sum
+	*stats.NumberOfValues++
+}
+
+func pow10(n int) *big.Int {
+	return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)
+}
+
+func parseDecimal(s string) *big.Rat {
+	v, ok := new(big.Rat).SetString(s)
+	if !ok {
+		return new(big.Rat)
+	}
+	return v
+}
+
 func (w *decimalV2Writer) Flush() error {
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
-- 
2.43.0


From 0daf6738c40b98fb99fbafc84ade20e89e8404bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 051/103] fix: minimum and maximum of string columns counted an
 empty string and lost long ones

---
 orc/column/string.go | 111 +++++++++++++------------------------------
 1 file changed, 34 insertions(+), 77 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 0acab8e..72ffb7a 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -17,8 +17,7 @@ const (
 
 func newStringDirectV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	newStats := func() *pb.ColumnStatistics {
-		stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-			Maximum: new(string), Minimum: new(string), Sum: new(int64)},
+		stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{Sum: new(int64)},
 			NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
 		*stats.HasNull = schema.HasNulls
 		return stats
@@ -52,7 +51,6 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 	}
 
-	var dataLength int
 	if !value.Null {
 		s, ok := value.V.(string)
 		if !ok {
@@ -60,7 +58,7 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 		// string encoded in utf-8
 		data := []byte(s)
-		dataLength = len(data)
+		dataLength := len(data)
 		if err := w.data.Write(data); err != nil {
 			return err
 		}
@@ -68,59 +66,41 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 			return err
 		}
 
-		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(dataLength)
-		if w.stats.StringStatistics.Minimum != nil && s < w.stats.StringStatistics.GetMinimum() {
-			*w.stats.StringStatistics.Minimum = s
-		}
-		if w.stats.StringStatistics.Maximum != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.Maximum = s
-		}
-
-		if dataLength >= MaxByteLength {
-			w.stats.StringStatistics.LowerBound = w.stats.StringStatistics.Minimum
-			w.stats.StringStatistics.Minimum = nil
-			w.stats.StringStatistics.UpperBound = w.stats.StringStatistics.Maximum
-			w.stats.StringStatistics.Maximum = nil
+		addString(w.stats, s)
+		if w.opts.WriteIndex {
+			addString(w.indexStats, s)
 		}
+	}
+	return nil
+}
 
-		if w.stats.StringStatistics.LowerBound != nil && s < w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.LowerBound = s
-		}
-		if w.stats.StringStatistics.UpperBound != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.UpperBound = s
+func addString(stats *pb.ColumnStatistics, s string) {
+	ss := stats.StringStatistics
+	// bounds take the place of minimum and maximum when these are too long
+	min := ss.Minimum
+	if min == nil {
+		min = ss.LowerBound
+	}
+	if min == nil || s < *min {
+		if len(s) < MaxByteLength {
+			ss.Minimum, ss.LowerBound = &s, nil
+		} else {
+			ss.Minimum, ss.LowerBound = nil, &s
 		}
 	}
-
-	if w.opts.WriteIndex {
-		if !value.Null {
-			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(dataLength)
-			s := value.V.(string)
-
-			if w.indexStats.StringStatistics.Minimum != nil && s < w.indexStats.StringStatistics.GetMinimum() {
-				*w.indexStats.StringStatistics.Minimum = s
-			}
-			if w.indexStats.StringStatistics.Maximum != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.Maximum = s
-			}
-
-			if dataLength >= MaxByteLength {
-				w.indexStats.StringStatistics.LowerBound = w.indexStats.StringStatistics.Minimum
-				w.indexStats.StringStatistics.Minimum = nil
-				w.indexStats.StringStatistics.UpperBound = w.indexStats.StringStatistics.Maximum
-				w.indexStats.StringStatistics.Maximum = nil
-			}
-
-			if w.indexStats.StringStatistics.LowerBound != nil && s < w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.LowerBound = s
-			}
-			if w.indexStats.StringStatistics.UpperBound != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.UpperBound = s
-			}
+	max := ss.Maximum
+	if max == nil {
+		max = ss.UpperBound
+	}
+	if max == nil || s > *max {
+		if len(s) < MaxByteLength {
+			ss.Maximum, ss.UpperBound = &s, nil
+		} else {
+			ss.Maximum, ss.UpperBound = nil, &s
 		}
 	}
-	return nil
+	*ss.Sum += int64(len(s))
+	*stats.NumberOfValues++
 }
 
 func (w *stringDirectV2Writer) Flush() error {
@@ -528,8 +508,7 @@ func (r *StringDictionaryV2Reader) Close() {
 
 func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	newStats := func() *pb.ColumnStatistics {
-		stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-			Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
+		stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{Sum: new(int64)},
 			NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
 		*stats.HasNull = schema.HasNulls
 		return stats
@@ -578,38 +557,16 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		if !ok {
 			return errors.New("string column writing, value should be string")
 		}
-		// string encoded in utf-8
-		data := []byte(s)
-		l := len(data)
-
 		vs := w.data[s]
 		vs = append(vs, w.count)
 		w.count++
 		w.data[s] = vs
 
+		addString(w.stats, s)
 		if w.opts.WriteIndex {
-			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(l)
-		}
-		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(l)
-		if l >= MaxByteLength {
-			if s < *w.stats.StringStatistics.LowerBound {
-				*w.stats.StringStatistics.LowerBound = s
-			}
-			if s > *w.stats.StringStatistics.UpperBound {
-				*w.stats.StringStatistics.UpperBound = s
-			}
-		} else {
-			if s < *w.stats.StringStatistics.Minimum {
-				*w.stats.StringStatistics.Minimum = s
-			}
-			if s > *w.stats.StringStatistics.Maximum {
-				*w.stats.StringStatistics.Maximum = s
-			}
+			addString(w.indexStats, s)
 		}
 	}
-
 	return nil
 }
 
-- 
2.43.0


From a744ec0b78ea3366b183e3e9bc6c1e72c3f156b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 052/103] fix: bytes on disk of a nullable column counted the
 last stripe only

---
 orc/column/binary.go  | 2 +-
 orc/column/bool.go    | 2 +-
 orc/column/byte.go    | 2 +-
 orc/column/decimal.go | 2 +-
 orc/column/float.go   | 2 +-
 orc/column/int.go     | 2 +-
 orc/column/list.go    | 2 +-
 orc/column/string.go  | 4 ++--
 orc/column/struct.go  | 2 +-
 orc/column/time.go    | 4 ++--
 10 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 06a7a97..9ee4618 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -85,7 +85,7 @@ func (w *binaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
diff --git a/orc/column/bool.go b/orc/column/bool.go
index 771bab9..b166d6e 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -77,7 +77,7 @@ func (w *boolWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 69bac30..2ae6b17 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -77,7 +77,7 @@ func (w *byteWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 9fcddf3..15d08d2 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -111,7 +111,7 @@ func (w *decimalV2Writer) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/float.go b/orc/column/float.go
index 05d9956..930a112 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -240,7 +240,7 @@ func (w *floatWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	return nil
diff --git a/orc/column/int.go b/orc/column/int.go
index ee56608..c47d34c 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -113,7 +113,7 @@ func (w intWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/list.go b/orc/column/list.go
index 08faba6..150c5e9 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -245,7 +245,7 @@ func (w *listV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
 	return nil
diff --git a/orc/column/string.go b/orc/column/string.go
index 72ffb7a..0888714 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -117,7 +117,7 @@ func (w *stringDirectV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
@@ -622,7 +622,7 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.dataStream.Info().GetLength()
 	*w.stats.BytesOnDisk += w.dictStream.Info().GetLength()
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 4f66c77..f185919 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -207,7 +207,7 @@ func (w *structWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	w.flushed = true
 	return nil
diff --git a/orc/column/time.go b/orc/column/time.go
index 9dd523c..cbda53a 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -83,7 +83,7 @@ func (w *dateV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
@@ -333,7 +333,7 @@ func (w *timestampWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
-- 
2.43.0


From b4ef443da9ba23471911eed574805991ade761ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 053/103] fix: statistics of struct columns counted nulls, or
 nothing when there are no nulls

---
 orc/column/struct.go | 19 ++++++++-----------
 orc/stripe.go        |  6 +++++-
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/orc/column/struct.go b/orc/column/struct.go
index f185919..e19b6d5 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -180,24 +180,21 @@ type structWriter struct {
 func (w *structWriter) Write(value api.Value) error {
 	w.startRow()
 
-	if !w.schema.HasNulls {
-		return nil
+	if w.schema.HasNulls {
+		if err := w.present.Write(!value.Null); err != nil {
+			return err
+		}
 	}
 
-	if err := w.present.Write(!value.Null); err != nil {
-		return err
-	}
 	if !value.Null {
 		(*w.stats.BucketStatistics).Count[0]++
-	}
-	*w.stats.NumberOfValues++
+		*w.stats.NumberOfValues++
 
-	if w.opts.WriteIndex {
-		// no bytes on disk index stats
-		if !value.Null {
+		if w.opts.WriteIndex {
+			// no bytes on disk index stats
 			(*w.indexStats.BucketStatistics).Count[0]++
+			*w.indexStats.NumberOfValues++
 		}
-		*w.indexStats.NumberOfValues++
 	}
 	return nil
 }
diff --git a/orc/stripe.go b/orc/stripe.go
index 82c3130..2dea68d 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -59,8 +59,12 @@ func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 }
 
 func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
+	var value api.Value
 	if vec.Vector != nil { // maybe no present struct vector
-		if err := stripe.columnWriters[vec.Id].Write(vec.Vector[index]); err != nil {
+		value = vec.Vector[index]
+	}
+	if vec.Vector != nil || vec.Kind == pb.Type_STRUCT {
+		if err := stripe.columnWriters[vec.Id].Write(value); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From dbdbb4b63af91d4f225b46fc83aa4258160bb2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 054/103] fix: batches that do not have a value for every
 column and row were written torn

---
 orc/stripe.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 2dea68d..e728288 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -35,8 +35,13 @@ type stripeWriter struct {
 }
 
 func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
+	rows := vec.Len()
+	if err := checkVector(stripe.schemas[0], vec, rows); err != nil {
+		return err
+	}
+
 	count := uint64(0)
-	for i := 0; i < vec.Len(); i++ {
+	for i := 0; i < rows; i++ {
 		if err := stripe.writeValue(i, vec); err != nil {
 			return err
 		}
@@ -58,6 +63,23 @@ func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 	return nil
 }
 
+// checkVector makes sure there is a value for every row of every column
+func checkVector(schema *api.TypeDescription, vec *api.ColumnVector, rows int) error {
+	if vec.Id != schema.Id || vec.Kind != schema.Kind || len(vec.Children) != len(schema.Children) {
+		return errors.Errorf("vector of column %d %s does not match schema", vec.Id, vec.Kind.String())
+	}
+	// maybe no present struct vector
+	if len(vec.Vector) != rows && !(vec.Vector == nil && vec.Kind == pb.Type_STRUCT) {
+		return errors.Errorf("vector of column %d has %d values, there are %d rows", vec.Id, len(vec.Vector), rows)
+	}
+	for i, c := range vec.Children {
+		if err := checkVector(schema.Children[i], c, rows); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
 	var value api.Value
 	if vec.Vector != nil { // maybe no present struct vector
-- 
2.43.0


From f8d75aafae9ea0e6982872194e84a6acfc43f519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 055/103] fix: nulls of a column without nulls, and values
 inside a null struct, shifted the rows after them

---
 orc/stripe.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index e728288..5cecd4a 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -42,7 +42,7 @@ func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 
 	count := uint64(0)
 	for i := 0; i < rows; i++ {
-		if err := stripe.writeValue(i, vec); err != nil {
+		if err := stripe.writeValue(i, vec, false); err != nil {
 			return err
 		}
 		count++
@@ -80,11 +80,17 @@ func checkVector(schema *api.TypeDescription, vec *api.ColumnVector, rows int) e
 	return nil
 }
 
-func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
+// parentNull: the struct the value is in is null, there is no value then
+func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector, parentNull bool) error {
 	var value api.Value
 	if vec.Vector != nil { // maybe no present struct vector
 		value = vec.Vector[index]
 	}
+	if parentNull {
+		value = api.Value{Null: true}
+	} else if value.Null && !stripe.schemas[vec.Id].HasNulls {
+		return errors.Errorf("schema %d %s has no nulls, but batch has null", vec.Id, vec.Kind.String())
+	}
 	if vec.Vector != nil || vec.Kind == pb.Type_STRUCT {
 		if err := stripe.columnWriters[vec.Id].Write(value); err != nil {
 			return err
@@ -92,7 +98,7 @@ func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
 	}
 
 	for _, c := range vec.Children {
-		if err := stripe.writeValue(index, c); err != nil {
+		if err := stripe.writeValue(index, c, value.Null); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 24b2e092784f4b9e746d1440d63bb34d204fedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 056/103] fix: a writer that could not be created left its file
 open

---
 orc/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/writer.go b/orc/writer.go
index 03eb8b2..f358efe 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -33,6 +33,9 @@ func NewOSFileWriter(path string, schema *api.TypeDescription, opts config.Write
 	}
 	w, err := newWriter(schema, &opts, f)
 	if err != nil {
+		if cerr := f.Close(); cerr != nil {
+			logger.Warn(cerr)
+		}
 		return nil, err
 	}
 	return w, nil
-- 
2.43.0


From 0b1159b29181775638f316163eecb8706744d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 057/103] fix: schemas that cannot be stored panicked later or
 made files nobody can read

---
 orc/writer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/orc/writer.go b/orc/writer.go
index f358efe..5b09203 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -51,6 +51,19 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 		return
 	}
 
+	for i, s := range schemas {
+		// column writers are found by id
+		if s.Id != uint32(i) {
+			return nil, errors.Errorf("column %d in pre-order has id %d", i, s.Id)
+		}
+		if s.Kind == pb.Type_STRUCT && len(s.ChildrenNames) != len(s.Children) {
+			return nil, errors.Errorf("struct %d has %d children and %d names", i, len(s.Children), len(s.ChildrenNames))
+		}
+		if s.Kind != pb.Type_STRUCT && len(s.Children) != 0 {
+			return nil, errors.Errorf("column %d %s has children", i, s.Kind.String())
+		}
+	}
+
 	w = &writer{opts: opts, f: f, schemas: schemas}
 
 	var h uint64
-- 
2.43.0


From 84c2cde8d92628bf71285c91124f6ab650a66491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 058/103] fix: options no file can be written with were
 accepted

---
 orc/writer.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/orc/writer.go b/orc/writer.go
index 5b09203..4b6fec9 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -64,6 +64,10 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 		}
 	}
 
+	if err = checkOptions(opts); err != nil {
+		return
+	}
+
 	w = &writer{opts: opts, f: f, schemas: schemas}
 
 	var h uint64
@@ -80,6 +84,22 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 	return
 }
 
+func checkOptions(opts *config.WriterOptions) error {
+	switch opts.CompressionKind {
+	case pb.CompressionKind_NONE, pb.CompressionKind_ZLIB:
+	default:
+		return errors.Errorf("compression %s not impl", opts.CompressionKind.String())
+	}
+	// length in a chunk header has 23 bits
+	if opts.ChunkSize <= 0 || opts.ChunkSize >= 1<<23 {
+		return errors.Errorf("ChunkSize %d", opts.ChunkSize)
+	}
+	if opts.WriteIndex && opts.IndexStride <= 0 {
+		return errors.Errorf("IndexStride %d", opts.IndexStride)
+	}
+	return nil
+}
+
 // cannot used concurrently, not synchronized
 // strip buffered in memory until the strip size
 // Encode out by columns
-- 
2.43.0


From 3af029c57b117f242a3d20cadeef923b8a9e0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 059/103] fix: nullable columns anywhere below a nullable
 struct were accepted and written torn

---
 orc/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/orc/writer.go b/orc/writer.go
index 4b6fec9..d5d7df8 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -51,6 +51,11 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 		return
 	}
 
+	for _, s := range schemas {
+		if err = api.CheckNulls(s); err != nil {
+			return
+		}
+	}
 	for i, s := range schemas {
 		// column writers are found by id
 		if s.Id != uint32(i) {
-- 
2.43.0


From a93999ddd02420464e2aeb926bc1b433793c3167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 060/103] fix: float columns could be written in encodings no
 reader accepts

---
 orc/column/package.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index 9c7244a..82bf5a1 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -217,8 +217,14 @@ func NewWriter(schema *api.TypeDescription, opts *config.WriterOptions) (Writer,
 		return nil, errors.New("encoding not impl")
 
 	case pb.Type_FLOAT:
+		if schema.Encoding != pb.ColumnEncoding_DIRECT {
+			return nil, errors.New("encoding error")
+		}
 		return newFloatWriter(schema, opts, false), nil
 	case pb.Type_DOUBLE:
+		if schema.Encoding != pb.ColumnEncoding_DIRECT {
+			return nil, errors.New("encoding error")
+		}
 		return newFloatWriter(schema, opts, true), nil
 
 	case pb.Type_CHAR:
-- 
2.43.0


From c6e0a9bbb12a091bad9205f0b71d7cb92c68b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 061/103] fix: char and varchar columns could be written but
 not read

---
 orc/column/package.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index 82bf5a1..3ca354f 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -95,6 +95,10 @@ func NewReader(schema *api.TypeDescription, opts *config.ReaderOptions, in orcio
 		}
 		return NewFloatReader(schema, opts, in, true), nil
 
+	case pb.Type_CHAR:
+		fallthrough
+	case pb.Type_VARCHAR:
+		fallthrough
 	case pb.Type_STRING:
 		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
 			return NewStringDirectV2Reader(opts, schema, in), nil
-- 
2.43.0


From 800caf80f17543d6a1d0575b63e60d85cedddea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 062/103] fix: Close completed the file after a failed Write as
 if nothing was lost

---
 orc/writer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/orc/writer.go b/orc/writer.go
index d5d7df8..b1bccdd 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -121,6 +121,8 @@ type writer struct {
 	ps *pb.PostScript
 
 	f orcio.File
+
+	err error // why rows cannot be written any more
 }
 
 func (w *writer) Write(vec *api.ColumnVector) error {
@@ -128,7 +130,11 @@ func (w *writer) Write(vec *api.ColumnVector) error {
 		return err
 	}*/
 
+	if w.err != nil {
+		return w.err
+	}
 	if err := w.stripe.write(vec); err != nil {
+		w.err = err
 		return err
 	}
 	return nil
@@ -153,6 +159,11 @@ func (w *writer) GetSchema() *api.TypeDescription {
 }
 
 func (w *writer) Close() error {
+	if w.err != nil {
+		return w.err
+	}
+	w.err = errors.New("writer closed")
+
 	if err := w.stripe.flushOut(); err != nil {
 		return err
 	}
-- 
2.43.0


From f9a4e2f10d603889dfc745370486f4312a49d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 063/103] fix: writer Close did not report a failed close, and
 left the file open on errors

---
 orc/writer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index b1bccdd..d330597 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -159,6 +159,14 @@ func (w *writer) GetSchema() *api.TypeDescription {
 }
 
 func (w *writer) Close() error {
+	err := w.close()
+	if cerr := w.f.Close(); cerr != nil && err == nil {
+		err = errors.WithStack(cerr)
+	}
+	return err
+}
+
+func (w *writer) close() error {
 	if w.err != nil {
 		return w.err
 	}
@@ -172,9 +180,6 @@ func (w *writer) Close() error {
 	if err := w.writeFileTail(); err != nil {
 		return err
 	}
-	if err:=w.f.Close();err!=nil {
-		logger.Warn(err)
-	}
 	return nil
 }
 
-- 
2.43.0


From f6ca059d3722c3dcbe18947425f7f4efeec0b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 064/103] fix: a stripe without rows was written at the end,
 which no reader opens

---
 orc/writer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index d330597..6b09ec8 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -172,10 +172,12 @@ func (w *writer) close() error {
 	}
 	w.err = errors.New("writer closed")
 
-	if err := w.stripe.flushOut(); err != nil {
-		return err
+	if w.stripe.info.GetNumberOfRows() != 0 { // readers take no empty stripes
+		if err := w.stripe.flushOut(); err != nil {
+			return err
+		}
+		w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 	}
-	w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 
 	if err := w.writeFileTail(); err != nil {
 		return err
-- 
2.43.0


From c102aae5b7a423d5d00e127bac5c91bfb7dd2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 065/103] fix: row index streams were not compressed

---
 orc/stripe.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 5cecd4a..4e65d69 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -128,7 +128,11 @@ func (stripe *stripeWriter) flushOut() error {
 			if err != nil {
 				return err
 			}
-			nd, err := stripe.out.Write(indexData)
+			indexBuf := &bytes.Buffer{}
+			if err = common.CompressingAllInChunks(stripe.opts.CompressionKind, stripe.opts.ChunkSize, indexBuf, bytes.NewBuffer(indexData)); err != nil {
+				return err
+			}
+			nd, err := stripe.out.Write(indexBuf.Bytes())
 			if err != nil {
 				return errors.WithStack(err)
 			}
-- 
2.43.0


From 6549d776a93edc28557b7e3a6db1db4aa840fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 066/103] fix: files with row indexes did not say so, readers
 took the index for data

---
 orc/stripe.go | 12 ++++++++----
 orc/writer.go |  4 ++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 4e65d69..f37d970 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -120,8 +120,9 @@ func (stripe *stripeWriter) flushOut() error {
 		}
 	}
 
+	var indexInfos []*pb.Stream
 	if stripe.opts.WriteIndex {
-		for _, c := range stripe.columnWriters {
+		for i, c := range stripe.columnWriters {
 			index := c.GetIndex()
 			var indexData []byte
 			indexData, err := proto.Marshal(index)
@@ -137,6 +138,9 @@ func (stripe *stripeWriter) flushOut() error {
 				return errors.WithStack(err)
 			}
 			*stripe.info.IndexLength += uint64(nd)
+
+			id, kind, length := uint32(i), pb.Stream_ROW_INDEX, uint64(nd)
+			indexInfos = append(indexInfos, &pb.Stream{Column: &id, Kind: &kind, Length: &length})
 		}
 		log.Tracef("flush index of length %d", stripe.info.GetIndexLength())
 	}
@@ -149,14 +153,14 @@ func (stripe *stripeWriter) flushOut() error {
 		*stripe.info.DataLength += uint64(ns)
 	}
 
-	if err := stripe.writeFooter(); err != nil {
+	if err := stripe.writeFooter(indexInfos); err != nil {
 		return errors.WithStack(err)
 	}
 	return nil
 }
 
-func (stripe *stripeWriter) writeFooter() error {
-	footer := &pb.StripeFooter{}
+func (stripe *stripeWriter) writeFooter(indexInfos []*pb.Stream) error {
+	footer := &pb.StripeFooter{Streams: indexInfos}
 
 	for _, c := range stripe.columnWriters {
 		footer.Streams = append(footer.Streams, c.GetStreamInfos()...)
diff --git a/orc/writer.go b/orc/writer.go
index 6b09ec8..346d558 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -208,6 +208,10 @@ func (w *writer) writeFileTail() error {
 	ft.Stripes = w.stripe.infos
 	ft.Types = api.SchemasToTypes(w.schemas)
 	ft.Statistics = w.columnStats
+	if w.opts.WriteIndex {
+		stride := uint32(w.opts.IndexStride)
+		ft.RowIndexStride = &stride
+	}
 
 	// metadata
 
-- 
2.43.0


From 54b064d8f404c602124064bb8aa3f856d86aa692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 067/103] fix: numbering and flattening schemas used package
 variables, goroutines disturbed each other

---
 orc/api/type.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 2c62436..758f00d 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -209,17 +209,13 @@ func CheckId(root *TypeDescription) error {
 	return nil
 }
 
-func addId(node *TypeDescription) error {
-	node.Id = _nodeId
-	_nodeId++
-	return nil
-}
-
-var _nodeId uint32
-
 func SetId(root *TypeDescription) error {
-	_nodeId = uint32(0)
-	return traverse(root, addId)
+	nodeId := uint32(0)
+	return traverse(root, func(node *TypeDescription) error {
+		node.Id = nodeId
+		nodeId++
+		return nil
+	})
 }
 
 func CheckNulls(root *TypeDescription) error {
@@ -249,25 +245,17 @@ func checkNoNull(node *TypeDescription) error {
 	return nil
 }
 
-var _schemas []*TypeDescription
-
 func (root *TypeDescription) Flat() (schemas []*TypeDescription, err error) {
 	if err = CheckId(root); err != nil {
 		return
 	}
-	_schemas = nil
-	if err = traverse(root, addSchema); err != nil {
-		return
-	}
-	schemas = _schemas
+	err = traverse(root, func(node *TypeDescription) error {
+		schemas = append(schemas, node)
+		return nil
+	})
 	return
 }
 
-func addSchema(node *TypeDescription) error {
-	_schemas = append(_schemas, node)
-	return nil
-}
-
 // pre-order traverse
 func traverse(node *TypeDescription, do action) error {
 	if err := do(node); err != nil {
-- 
2.43.0


From d4fbfc02bc4667e87b0b46a3dedddf1b0ebcc164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 068/103] fix: no vectors for files with nulls below nullable
 structs, nil vectors for lists without elements

---
 orc/api/type.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 758f00d..0e8649c 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -47,11 +47,15 @@ func (td TypeDescription) CreateVector(opt *BatchOption) (*ColumnVector, error)
 	if opt.RowSize == 0 {
 		return nil, errors.New("RowSize == 0")
 	}
-	if err := td.verifySchema(); err != nil {
+	// nulls below nullable structs can be read, the writer checks that there are none
+	if err := traverse(&td, opt.checkInclude); err != nil {
 		return nil, err
 	}
-
-	return td.createVector(opt), nil
+	vec := td.createVector(opt)
+	if vec == nil {
+		return nil, errors.Errorf("column %d is not included", td.Id)
+	}
+	return vec, nil
 }
 
 func (td TypeDescription) createStructVector(opt *BatchOption) *ColumnVector {
@@ -157,18 +161,6 @@ func (td TypeDescription) createVector(opt *BatchOption) *ColumnVector {
 	return nil
 }
 
-func (td TypeDescription) verifySchema() error {
-	if td.Kind == pb.Type_STRUCT || td.Kind == pb.Type_UNION || td.Kind == pb.Type_MAP || td.Kind == pb.Type_LIST {
-		for _, c := range td.Children {
-			if td.HasNulls && c.HasNulls {
-				return errors.New("struct column has nulls cannot have nulls children")
-			}
-			return c.verifySchema()
-		}
-	}
-	return nil
-}
-
 const DefaultRowSize = 10_000
 
 type BatchOption struct {
@@ -191,6 +183,23 @@ func (bo BatchOption) IsInclude(id uint32) bool {
 	return false
 }
 
+// list and map are read together with what they contain
+func (bo BatchOption) checkInclude(node *TypeDescription) error {
+	n := map[pb.Type_Kind]int{pb.Type_LIST: 1, pb.Type_MAP: 2}[node.Kind]
+	if n == 0 || !bo.IsInclude(node.Id) {
+		return nil
+	}
+	if len(node.Children) != n {
+		return errors.Errorf("column %d %s has %d children", node.Id, node.Kind.String(), len(node.Children))
+	}
+	for _, c := range node.Children {
+		if !bo.IsInclude(c.Id) {
+			return errors.Errorf("column %d of %s %d is not included", c.Id, node.Kind.String(), node.Id)
+		}
+	}
+	return nil
+}
+
 type action func(node *TypeDescription) error
 
 func checkId(node *TypeDescription) error {
-- 
2.43.0


From 8101d3d2a85d908a234ea6b8aba767b1118ff3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 069/103] fix: map vectors were created against the option

---
 orc/api/type.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 0e8649c..01a86e8 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -86,7 +86,10 @@ func (td TypeDescription) createListVector(opt *BatchOption) *ColumnVector {
 }
 
 func (td TypeDescription) createMapVector(opt *BatchOption) *ColumnVector {
-	cv := &ColumnVector{Id: td.Id, Kind: td.Kind, Vector: make([]Value, opt.RowSize)}
+	cv := &ColumnVector{Id: td.Id, Kind: td.Kind}
+	if !opt.NotCreateVector {
+		cv.Vector = make([]Value, opt.RowSize)
+	}
 	cv.Children = append(cv.Children, td.Children[0].createVector(opt))
 	cv.Children = append(cv.Children, td.Children[1].createVector(opt))
 	return cv
-- 
2.43.0


From 065b967984738d818163d7246df17f1467f32ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 070/103] fix: rows of structs without columns were not counted

---
 orc/api/type.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/api/type.go b/orc/api/type.go
index 01a86e8..2539220 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -71,6 +71,9 @@ func (td TypeDescription) createStructVector(opt *BatchOption) *ColumnVector {
 			cv.Children = append(cv.Children, childVec)
 		}
 	}
+	if len(cv.Children) == 0 && !opt.NotCreateVector { // nothing else has the rows
+		cv.Vector = make([]Value, opt.RowSize)
+	}
 	return cv
 }
 
-- 
2.43.0


From 5ece6e221e58df8c3cd72fc7e79a31e083550e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 071/103] fix: nulls of the rows before were left in batches,
 vectors of other sizes made the reader panic

---
 orc/api/vector.go | 19 +++++++++++++++++++
 orc/stripe.go     | 30 +-----------------------------
 2 files changed, 20 insertions(+), 29 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index a4b0723..5d10ef2 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -54,6 +54,25 @@ func (cv *ColumnVector) Clear() {
 	}
 }
 
+// Resize makes room for rows values, none of them null. Elements of lists and maps are left out
+func (cv *ColumnVector) Resize(rows int) {
+	if cv.Vector != nil || cv.Kind != pb.Type_STRUCT || len(cv.Children) == 0 {
+		if cap(cv.Vector) < rows {
+			cv.Vector = make([]Value, rows)
+		}
+		cv.Vector = cv.Vector[:rows]
+		for i := range cv.Vector {
+			cv.Vector[i] = Value{}
+		}
+	}
+	if cv.Kind != pb.Type_STRUCT { // not one element a row
+		rows = 0
+	}
+	for _, c := range cv.Children {
+		c.Resize(rows)
+	}
+}
+
 func (cv ColumnVector) Len() int {
 	if len(cv.Vector) != 0 {
 		return len(cv.Vector)
diff --git a/orc/stripe.go b/orc/stripe.go
index f37d970..4cfceac 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -379,35 +379,7 @@ func (stripe *stripeReader) prepareVector(vec *api.ColumnVector) {
 	if int(stripe.numberOfRows-stripe.cursor) < page {
 		page = int(stripe.numberOfRows - stripe.cursor)
 	}
-	stripe.setVectorSize(page, vec)
-}
-
-func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
-	switch vec.Kind {
-	case pb.Type_STRUCT:
-		if stripe.schemas[vec.Id].HasNulls {
-			vec.Vector = vec.Vector[:size]
-		}
-		for _, c := range vec.Children {
-			stripe.setVectorSize(size, c)
-		}
-
-	case pb.Type_LIST:
-		vec.Vector = vec.Vector[:size]
-		// list's children maybe struct
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-
-	case pb.Type_MAP:
-		vec.Vector = vec.Vector[:size]
-		// toClarify: will map's children be struct or just primary?
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		vec.Children[1].Vector = vec.Children[1].Vector[:0]
-
-	case pb.Type_UNION:
-		panic("not impl")
-	default:
-		vec.Vector = vec.Vector[:size]
-	}
+	vec.Resize(page)
 }
 
 // locate rows in this stripe
-- 
2.43.0


From 35bdd23c46f3b76d9ad1d3cc8042d8d934938784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 072/103] fix: elements of lists and maps were lost except
 those of the last row, nulls below structs were misread

---
 orc/column/binary.go  |  2 +-
 orc/column/bool.go    |  2 +-
 orc/column/byte.go    |  2 +-
 orc/column/decimal.go |  2 +-
 orc/column/float.go   |  2 +-
 orc/column/int.go     |  2 +-
 orc/column/list.go    | 69 +++++++++++++++++++++++++++++++++++--------
 orc/column/map.go     | 45 +++++++++++-----------------
 orc/column/string.go  |  4 +--
 orc/column/struct.go  | 15 ++++++++--
 orc/column/time.go    |  4 +--
 11 files changed, 97 insertions(+), 52 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 9ee4618..0f4f217 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -196,7 +196,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 func (r *BinaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present!=nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/bool.go b/orc/column/bool.go
index b166d6e..5cd19dd 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -158,7 +158,7 @@ func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *BoolReader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 2ae6b17..69dd59a 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -152,7 +152,7 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *ByteReader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present!=nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 15d08d2..ea8d977 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -207,7 +207,7 @@ func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error
 func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/float.go b/orc/column/float.go
index 930a112..a7acd74 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -49,7 +49,7 @@ func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *FloatReader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present!=nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/int.go b/orc/column/int.go
index c47d34c..b5720ef 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -199,7 +199,7 @@ func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *IntV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/list.go b/orc/column/list.go
index 150c5e9..dc53da6 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -8,6 +8,7 @@ import (
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
 	"io"
+	"math"
 )
 
 func NewListV2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
@@ -49,9 +50,10 @@ func (r *ListV2Reader) SetChild(child Reader) {
 
 func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
+	var elements uint64
 
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -64,27 +66,69 @@ func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if err != nil {
 				return err
 			}
+			if v > math.MaxInt32 {
+				return errors.Errorf("list of %d elements", v)
+			}
 			vec.Vector[i].V = v
+			elements += v
 		}
+	}
+	return nextElements(r.child, vec.Children[0], elements)
+}
 
-		// prepare vector for child
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		if vec.Vector[i].Null {
-			vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{Null: true})
-		} else {
-			l := vec.Vector[i].V.(uint64)
-			for j := 0; j < int(l); j++ {
-				vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{})
-			}
-		}
+// maxElements is how many elements are read at once, there may be less than the lengths say
+const maxElements = 1 << 16
 
-		if err := r.child.NextBatch(vec.Children[0]); err != nil {
+// nextElements reads the elements of all rows of a batch, one after the other
+func nextElements(r Reader, vec *api.ColumnVector, n uint64) error {
+	if n <= maxElements {
+		vec.Resize(int(n))
+		if n == 0 {
+			return nil
+		}
+		return r.NextBatch(vec)
+	}
+	vec.Resize(0)
+	for n > 0 {
+		part := newPart(vec)
+		part.Resize(int(min(n, maxElements)))
+		if err := r.NextBatch(part); err != nil {
 			return err
 		}
+		appendPart(vec, part)
+		n -= min(n, maxElements)
 	}
 	return nil
 }
 
+func min(a, b uint64) uint64 {
+	if a < b {
+		return a
+	}
+	return b
+}
+
+func newPart(vec *api.ColumnVector) *api.ColumnVector {
+	part := &api.ColumnVector{Id: vec.Id, Kind: vec.Kind}
+	for _, c := range vec.Children {
+		part.Children = append(part.Children, newPart(c))
+	}
+	return part
+}
+
+func appendPart(vec *api.ColumnVector, part *api.ColumnVector) {
+	if part.Vector != nil && vec.Vector == nil { // nothing was null before
+		vec.Vector = make([]api.Value, vec.Len())
+	}
+	if part.Vector == nil && vec.Vector != nil {
+		part.Vector = make([]api.Value, part.Len())
+	}
+	vec.Vector = append(vec.Vector, part.Vector...)
+	for i, c := range vec.Children {
+		appendPart(c, part.Children[i])
+	}
+}
+
 func (r *ListV2Reader) Skip(rows uint64) error {
 	var err error
 	p := true
@@ -184,6 +228,7 @@ func (r *ListV2Reader) Close() {
 		r.present.Close()
 	}
 	r.length.Close()
+	r.child.Close()
 }
 
 func NewListV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
diff --git a/orc/column/map.go b/orc/column/map.go
index 9642340..958a3cb 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -8,6 +8,7 @@ import (
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
 	"io"
+	"math"
 )
 
 func NewMapV2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
@@ -57,9 +58,10 @@ func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
+	var elements uint64
 
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -72,30 +74,18 @@ func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if err != nil {
 				return err
 			}
-			vec.Vector[i].V = int(v)
-		}
-
-		// prepare key/value vector
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		vec.Children[1].Vector = vec.Children[1].Vector[:0]
-		if vec.Vector[i].Null {
-			vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{Null: true})
-			vec.Children[1].Vector = append(vec.Children[1].Vector, api.Value{Null: true})
-		} else {
-			for j := 0; j < vec.Vector[i].V.(int); j++ {
-				vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{})
-				vec.Children[1].Vector = append(vec.Children[1].Vector, api.Value{})
+			if v > math.MaxInt32 {
+				return errors.Errorf("map of %d elements", v)
 			}
+			vec.Vector[i].V = int(v)
+			elements += v
 		}
+	}
 
-		if err = r.key.NextBatch(vec.Children[0]); err != nil {
-			return err
-		}
-		if err = r.value.NextBatch(vec.Children[1]); err != nil {
-			return err
-		}
+	if err = nextElements(r.key, vec.Children[0], elements); err != nil {
+		return err
 	}
-	return nil
+	return nextElements(r.value, vec.Children[1], elements)
 }
 
 func (r *MapV2Reader) Skip(rows uint64) error {
@@ -114,13 +104,11 @@ func (r *MapV2Reader) Skip(rows uint64) error {
 			if err != nil {
 				return err
 			}
-			for j := 0; j < int(l); j++ {
-				if err := r.key.Skip(l); err != nil {
-					return err
-				}
-				if err := r.value.Skip(l); err != nil {
-					return err
-				}
+			if err := r.key.Skip(l); err != nil {
+				return err
+			}
+			if err := r.value.Skip(l); err != nil {
+				return err
 			}
 		}
 	}
@@ -209,6 +197,7 @@ func (r *MapV2Reader) Close() {
 	if r.present != nil {
 		r.present.Close()
 	}
+	r.length.Close()
 	r.key.Close()
 	r.value.Close()
 }
diff --git a/orc/column/string.go b/orc/column/string.go
index 0888714..57ed435 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -202,7 +202,7 @@ func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) e
 func (r *StringDirectV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -392,7 +392,7 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	}
 
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/struct.go b/orc/column/struct.go
index e19b6d5..ef15c8a 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -118,15 +118,21 @@ func (r *StructReader) Skip(rows uint64) error {
 
 func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 	if r.present != nil {
+		if vec.Vector == nil { // not known to have nulls
+			vec.Vector = make([]api.Value, vec.Len(), vec.Cap())
+		}
 		for i := 0; i < len(vec.Vector); i++ {
+			if vec.Vector[i].Null { // with the struct it is in
+				continue
+			}
 			p, err := r.present.Next()
 			if err != nil {
 				return err
 			}
 			vec.Vector[i].Null = !p
 		}
-		fillNulls(vec)
 	}
+	fillNulls(vec)
 
 	for i, c := range r.children {
 		if err := c.NextBatch(vec.Children[i]); err != nil {
@@ -137,11 +143,16 @@ func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 }
 
 func fillNulls(vec *api.ColumnVector) {
+	if vec.Vector == nil { // no nulls
+		return
+	}
 	for _, c := range vec.Children {
+		if c.Vector == nil { // struct in struct
+			c.Vector = make([]api.Value, len(vec.Vector), cap(vec.Vector))
+		}
 		for i, v := range vec.Vector {
 			c.Vector[i].Null = v.Null
 		}
-		fillNulls(c)
 	}
 }
 
diff --git a/orc/column/time.go b/orc/column/time.go
index cbda53a..b9dcd87 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -163,7 +163,7 @@ func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *DateV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -433,7 +433,7 @@ func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) erro
 func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
-- 
2.43.0


From 659264059c362b1e4285ab4fcef5273b01e150cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 073/103] fix: present streams of columns not known to have
 nulls were refused

---
 orc/column/binary.go  |  3 ---
 orc/column/bool.go    |  3 ---
 orc/column/byte.go    |  3 ---
 orc/column/decimal.go |  3 ---
 orc/column/float.go   |  3 ---
 orc/column/map.go     |  3 ---
 orc/column/string.go  |  5 +----
 orc/column/struct.go  |  3 ---
 orc/column/time.go    | 10 ++--------
 9 files changed, 3 insertions(+), 33 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 0f4f217..3ac09a9 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -154,9 +154,6 @@ func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewStringContentsReader(r.opts, info, startOffset, f)
diff --git a/orc/column/bool.go b/orc/column/bool.go
index 5cd19dd..5a77b2f 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -142,9 +142,6 @@ func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("column schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 69dd59a..50f7658 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -137,9 +137,6 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("column schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewByteReader(r.opts, info, startOffset, f)
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index ea8d977..3e3cb66 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -190,9 +190,6 @@ func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema no present stream")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewVarIntReader(r.opts, info, startOffset, f)
diff --git a/orc/column/float.go b/orc/column/float.go
index a7acd74..4736b3e 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -34,9 +34,6 @@ func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewFloatReader(r.opts, info, startOffset, f, r.is64)
diff --git a/orc/column/map.go b/orc/column/map.go
index 958a3cb..3a5bf0d 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -43,9 +43,6 @@ func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
diff --git a/orc/column/string.go b/orc/column/string.go
index 57ed435..0171e2d 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -324,7 +324,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 }
 
 func (r *StringDirectV2Reader) Close() {
-	if r.schema.HasNulls {
+	if r.present != nil {
 		r.present.Close()
 	}
 	r.data.Close()
@@ -357,9 +357,6 @@ func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint6
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
diff --git a/orc/column/struct.go b/orc/column/struct.go
index ef15c8a..5e7ac1d 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -38,9 +38,6 @@ func (r *StructReader) InitStream(info *pb.Stream, startOffset uint64) error {
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("should no present")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
diff --git a/orc/column/time.go b/orc/column/time.go
index b9dcd87..e1c2205 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -147,9 +147,6 @@ func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
@@ -228,7 +225,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	if r.opts.CompressionKind == pb.CompressionKind_NONE {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunkOffset = pos[3]
 			dataOffset = pos[4]
 		} else {
@@ -236,7 +233,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 			dataOffset = pos[1]
 		}
 	} else {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunk = pos[4]
 			dataChunkOffset = pos[5]
 			dataOffset = pos[6]
@@ -416,9 +413,6 @@ func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) erro
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, ic)
 	case pb.Stream_DATA:
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, ic)
-- 
2.43.0


From cb671c7d92c13cd44ce95abc78263653b9bb3caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 074/103] fix: date columns without an index could not seek to
 the start

---
 orc/column/time.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/orc/column/time.go b/orc/column/time.go
index e1c2205..ff26cf7 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -199,6 +199,15 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 }
 
 func (r *DateV2Reader) SeekStride(stride int) error {
+	if stride == 0 {
+		if r.present != nil {
+			if err := r.present.Seek(0, 0, 0, 0); err != nil {
+				return err
+			}
+		}
+		return r.data.Seek(0, 0, 0)
+	}
+
 	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
-- 
2.43.0


From 7a9d1af84dd18417aba7326240130a28127308fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 075/103] fix: streams unknown to tinyint columns were ignored

---
 orc/column/byte.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/column/byte.go b/orc/column/byte.go
index 50f7658..2fc145e 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -143,7 +143,7 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
 	default:
 		err = errors.New("stream kind error")
 	}
-	return nil
+	return err
 }
 
 func (r *ByteReader) NextBatch(vec *api.ColumnVector) error {
-- 
2.43.0


From fefbb19712e9622bb8826e37dd49e08f016505a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 076/103] fix: the last row of a stripe or file could be lost

---
 orc/reader.go | 7 ++-----
 orc/stripe.go | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 6cf7507..f417381 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -172,7 +172,7 @@ func (br *batchReader) Close() {
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	batch.Clear()
 
-	if br.cursor >= br.numberOfRows-1 {
+	if br.cursor >= br.numberOfRows {
 		return true, nil
 	}
 
@@ -189,11 +189,8 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 			break
 		}
 	}
-	if br.stripeIndex == len(br.stripes) {
-		br.stripeIndex--
-	}
 	br.cursor += uint64(batch.Len())
-	return br.cursor >= br.numberOfRows-1, nil
+	return br.cursor >= br.numberOfRows, nil
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
diff --git a/orc/stripe.go b/orc/stripe.go
index 4cfceac..0a7568d 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -370,7 +370,7 @@ func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
 
 	stripe.cursor += uint64(vec.Len())
 	logger.Debugf("stripe %d reading cursor %d", stripe.index, stripe.cursor)
-	end = stripe.cursor+1 >= stripe.numberOfRows
+	end = stripe.cursor >= stripe.numberOfRows
 	return
 }
 
-- 
2.43.0


From ddcfa7111562f224507379e1c918c2aae4a1b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:19 +0000
Subject: [PATCH 077/103] fix: Next with a batch without vectors never ended

---
 orc/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/reader.go b/orc/reader.go
index f417381..77714fe 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -176,6 +176,9 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 		return true, nil
 	}
 
+	if batch.Cap() == 0 {
+		return false, errors.New("batch has no room for rows")
+	}
 	for br.stripeIndex < len(br.stripes) {
 		stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
 		if err != nil {
-- 
2.43.0


From acec17aef3a4d925f3591637e13a0e524c126b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:20 +0000
Subject: [PATCH 078/103] fix: files without rows could not be opened, stripes
 outside of the file were allocated and read

---
 orc/reader.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 77714fe..637ade3 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -50,9 +50,6 @@ func newReader(f orcio.File) (r *reader, err error) {
 	opts.IndexStride = int(tail.Footer.GetRowIndexStride())
 
 	rows := tail.GetFooter().GetNumberOfRows()
-	if rows == 0 {
-		return nil, errors.New("file footer error, number of rows 0")
-	}
 
 	schemas := unmarshallSchema(tail.Footer.Types)
 	for i, stat := range tail.Footer.Statistics {
@@ -68,6 +65,9 @@ func newReader(f orcio.File) (r *reader, err error) {
 
 	stats := tail.Footer.GetStatistics()
 	stripes := tail.Footer.GetStripes()
+	if err = checkStripes(tail); err != nil {
+		return nil, err
+	}
 
 	// todo: check opts chunksize !=0
 
@@ -75,6 +75,28 @@ func newReader(f orcio.File) (r *reader, err error) {
 	return
 }
 
+// checkStripes makes sure that the stripes are in the file and have the rows the footer says
+func checkStripes(tail *pb.FileTail) error {
+	var rows uint64
+	for i, s := range tail.Footer.GetStripes() {
+		left := tail.GetFileLength()
+		for _, l := range []uint64{s.GetOffset(), s.GetIndexLength(), s.GetDataLength(), s.GetFooterLength()} {
+			if l > left {
+				return errors.Errorf("stripe %d is not in the file, %s", i, s.String())
+			}
+			left -= l
+		}
+		if n := s.GetNumberOfRows(); n == 0 || n > tail.Footer.GetNumberOfRows()-rows {
+			return errors.Errorf("stripe %d number of rows error, %s", i, s.String())
+		}
+		rows += s.GetNumberOfRows()
+	}
+	if rows != tail.Footer.GetNumberOfRows() {
+		return errors.Errorf("stripes have %d rows, file has %d", rows, tail.Footer.GetNumberOfRows())
+	}
+	return nil
+}
+
 func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 	if bopt.RowSize == 0 {
 		return nil, errors.New("Batch option RowSize == 0")
-- 
2.43.0


From 9e6e806642f83029ec8345de07fc5a6029f554c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 079/103] fix: Seek left Next at another row, divided by zero
 without an index and skipped from the start of the stripe

---
 orc/reader.go | 19 ++++++++++++++++---
 orc/stripe.go | 18 +++++++++++++++---
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 637ade3..fb2cd8f 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -219,17 +219,30 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
-	if rowNumber > br.numberOfRows {
+	if rowNumber >= br.numberOfRows {
 		return errors.New("row number larger than number of rows")
 	}
 	var rows uint64
 	for i := 0; i < len(br.stripes); i++ {
 		if rows+br.stripes[i].numberOfRows > rowNumber {
-			return br.stripes[i].Seek(rowNumber - rows)
+			if err := br.stripes[i].Seek(rowNumber - rows); err != nil {
+				return err
+			}
+			// Next goes on with the rows of the stripes after it from their start
+			for _, s := range br.stripes[i+1:] {
+				if s.moved {
+					if err := s.Seek(0); err != nil {
+						return err
+					}
+					s.moved = false
+				}
+			}
+			br.stripeIndex = i
+			br.cursor = rowNumber
+			return nil
 		}
 		rows += br.stripes[i].numberOfRows
 	}
-	br.cursor = rowNumber
 	return errors.New("no row found")
 }
 
diff --git a/orc/stripe.go b/orc/stripe.go
index 0a7568d..b060485 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -248,6 +248,8 @@ type stripeReader struct {
 
 	numberOfRows uint64
 	cursor       uint64
+
+	moved bool // maybe not at the first row
 }
 
 func newStripeReader(f orcio.File, schemas []*api.TypeDescription, ropts *config.ReaderOptions, bopt *api.BatchOption,
@@ -362,6 +364,7 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 
 // a stripe is typically  ~200MB
 func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
+	stripe.moved = true
 	stripe.prepareVector(vec)
 
 	if err = stripe.columnReader.NextBatch(vec); err != nil {
@@ -387,20 +390,29 @@ func (stripe *stripeReader) Seek(rowNumber uint64) error {
 	var offset uint64
 	var stride uint64
 
-	if rowNumber < uint64(stripe.ropts.IndexStride) {
+	if rowNumber < uint64(stripe.ropts.IndexStride) || stripe.ropts.IndexStride == 0 {
 		offset = rowNumber
 	} else {
-		stride := rowNumber / uint64(stripe.ropts.IndexStride)
+		stride = rowNumber / uint64(stripe.ropts.IndexStride)
 		offset = rowNumber % (stride * uint64(stripe.ropts.IndexStride))
 	}
 
+	stripe.moved = true
 	if err := stripe.columnReader.SeekStride(int(stride)); err != nil {
-		return err
+		if stride == 0 {
+			return err
+		}
+		// no index of this stride, go on from the start
+		if err := stripe.columnReader.SeekStride(0); err != nil {
+			return err
+		}
+		offset = rowNumber
 	}
 
 	if err := stripe.columnReader.Skip(offset); err != nil {
 		return err
 	}
+	stripe.cursor = rowNumber
 	return nil
 }
 
-- 
2.43.0


From 23a45c5156ff0fb6999a73b6bbe5890253b4ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 080/103] fix: after a failed Next or Seek the next call
 delivered values of different rows

---
 orc/reader.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index fb2cd8f..c5beae5 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -145,6 +145,8 @@ type batchReader struct {
 
 	numberOfRows uint64
 	cursor       uint64
+
+	err error // columns are not at the same row any more, only Seek can help
 }
 
 func (br *batchReader) initStripes(infos []*pb.StripeInformation) error {
@@ -194,6 +196,9 @@ func (br *batchReader) Close() {
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	batch.Clear()
 
+	if br.err != nil {
+		return false, br.err
+	}
 	if br.cursor >= br.numberOfRows {
 		return true, nil
 	}
@@ -204,7 +209,9 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	for br.stripeIndex < len(br.stripes) {
 		stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
 		if err != nil {
-			return stripeEnd, err
+			br.err = err
+			batch.Clear() // rows read in part
+			return false, err
 		}
 		if stripeEnd {
 			br.stripeIndex++
@@ -222,6 +229,7 @@ func (br *batchReader) Seek(rowNumber uint64) error {
 	if rowNumber >= br.numberOfRows {
 		return errors.New("row number larger than number of rows")
 	}
+	br.err = errors.New("seek failed")
 	var rows uint64
 	for i := 0; i < len(br.stripes); i++ {
 		if rows+br.stripes[i].numberOfRows > rowNumber {
@@ -239,6 +247,7 @@ func (br *batchReader) Seek(rowNumber uint64) error {
 			}
 			br.stripeIndex = i
 			br.cursor = rowNumber
+			br.err = nil
 			return nil
 		}
 		rows += br.stripes[i].numberOfRows
-- 
2.43.0


From 48c2712ca01c1c994cbfc218253d80071e673790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 081/103] fix: encodings of one stripe were stored in the
 schema all stripes and batch readers share

---
 orc/stripe.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index b060485..80b29ac 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -292,9 +292,14 @@ func (stripe *stripeReader) readFooter(info *pb.StripeInformation) (*pb.StripeFo
 // stripe {index{},column{[present],data,[length]},footer}
 func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFooter) error {
 	// make sure len(columns)==len(all schemas)
+	if len(footer.GetColumns()) < len(stripe.schemas) {
+		return errors.Errorf("stripe %d has %d columns only", stripe.index, len(footer.GetColumns()))
+	}
 	readers := make([]column.Reader, len(stripe.schemas))
-	for _, schema := range stripe.schemas {
-		if stripe.bopt.IsInclude(schema.Id) {
+	for _, s := range stripe.schemas {
+		if stripe.bopt.IsInclude(s.Id) {
+			schema := &api.TypeDescription{}
+			*schema = *s // others read with the schema, other stripes may have other encodings
 			schema.Encoding = footer.GetColumns()[schema.Id].GetKind()
 			r, err := column.NewReader(schema, stripe.ropts, stripe.f)
 			if err != nil {
-- 
2.43.0


From 78b496c932b7886e793292479213b32faea0ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 082/103] fix: bloom filters shifted the data streams, streams
 out of the stripe were read

---
 orc/stripe.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/orc/stripe.go b/orc/stripe.go
index 80b29ac..53ae2ae 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -315,12 +315,28 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 	// streams has sequence
 	indexStart := info.GetOffset()
 	dataStart := indexStart + info.GetIndexLength()
+	indexEnd := dataStart
+	dataEnd := dataStart + info.GetDataLength()
 	for _, streamInfo := range footer.GetStreams() {
 		id := streamInfo.GetColumn()
 		streamKind := streamInfo.GetKind()
 		length := streamInfo.GetLength()
 
+		if int(id) >= len(readers) {
+			return errors.Errorf("no column for stream %s", streamInfo.String())
+		}
+
+		if streamKind == pb.Stream_BLOOM_FILTER || streamKind == pb.Stream_BLOOM_FILTER_UTF8 {
+			if length > indexEnd-indexStart {
+				return errors.Errorf("stream %s is out of the index", streamInfo.String())
+			}
+			indexStart += length // in the index too
+			continue
+		}
 		if streamKind == pb.Stream_ROW_INDEX {
+			if length > indexEnd-indexStart {
+				return errors.Errorf("stream %s is out of the index", streamInfo.String())
+			}
 			if readers[id] != nil {
 				if err := readers[id].InitIndex(indexStart, length); err != nil {
 					return err
@@ -330,6 +346,9 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 			continue
 		}
 
+		if length > dataEnd-dataStart {
+			return errors.Errorf("stream %s is out of the data", streamInfo.String())
+		}
 		if readers[id] != nil {
 			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
 				return err
-- 
2.43.0


From 9824892d8e1b2414272106469c86fd1164c21e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:27 +0000
Subject: [PATCH 083/103] fix: reader panicked on columns whose streams are
 left out because there are no values

---
 orc/column/package.go | 18 ++++++++++++++++++
 orc/stripe.go         | 16 ++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index 3ca354f..2dd258e 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -66,6 +66,24 @@ type Writer interface {
 	Size() int
 }
 
+// Streams returns the streams besides present that a reader of a column has to be initialized with
+func Streams(schema *api.TypeDescription) []pb.Stream_Kind {
+	switch schema.Kind {
+	case pb.Type_STRUCT:
+		return nil
+	case pb.Type_LIST, pb.Type_MAP:
+		return []pb.Stream_Kind{pb.Stream_LENGTH}
+	case pb.Type_DECIMAL, pb.Type_TIMESTAMP:
+		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_SECONDARY}
+	case pb.Type_BINARY, pb.Type_STRING, pb.Type_CHAR, pb.Type_VARCHAR:
+		if schema.Encoding == pb.ColumnEncoding_DICTIONARY_V2 {
+			return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_DICTIONARY_DATA, pb.Stream_LENGTH}
+		}
+		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_LENGTH}
+	}
+	return []pb.Stream_Kind{pb.Stream_DATA}
+}
+
 func NewReader(schema *api.TypeDescription, opts *config.ReaderOptions, in orcio.File) (Reader, error) {
 	switch schema.Kind {
 	case pb.Type_SHORT:
diff --git a/orc/stripe.go b/orc/stripe.go
index 53ae2ae..a54a0e4 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -296,6 +296,7 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		return errors.Errorf("stripe %d has %d columns only", stripe.index, len(footer.GetColumns()))
 	}
 	readers := make([]column.Reader, len(stripe.schemas))
+	missing := make([]map[pb.Stream_Kind]bool, len(stripe.schemas))
 	for _, s := range stripe.schemas {
 		if stripe.bopt.IsInclude(s.Id) {
 			schema := &api.TypeDescription{}
@@ -306,6 +307,10 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 				return err
 			}
 			readers[schema.Id] = r
+			missing[schema.Id] = map[pb.Stream_Kind]bool{}
+			for _, kind := range column.Streams(schema) {
+				missing[schema.Id][kind] = true
+			}
 			if stripe.columnReader==nil {
 				stripe.columnReader= r
 			}
@@ -355,6 +360,17 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 			}
 		}
 		dataStart += length
+		delete(missing[id], streamKind)
+	}
+
+	// streams without values may be left out
+	for id, kinds := range missing {
+		for kind := range kinds {
+			column, kind := uint32(id), kind
+			if err := readers[id].InitStream(&pb.Stream{Column: &column, Kind: &kind, Length: new(uint64)}, dataStart); err != nil {
+				return err
+			}
+		}
 	}
 
 	// build tree
-- 
2.43.0


From eb241d9f84eada4190efe945b82907deaa6d46f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:12 +0000
Subject: [PATCH 084/103] fix: opening a file of 0 bytes panicked

---
 orc/reader.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index c5beae5..780d4dc 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -3,7 +3,6 @@ package orc
 import (
 	"bytes"
 	"compress/flate"
-	"fmt"
 	"io"
 	"os"
 
@@ -304,9 +303,8 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	if size == 0 {
 		// Hive often creates empty files (including ORC) and has an
 		// optimization to create a 0 byte file as an empty ORC file.
-		// todo: empty tail, log
-		fmt.Printf("file size 0")
-		return
+		// todo: empty tail
+		return nil, errors.New("not a valid orc file, file size 0")
 	}
 	if size <= int64(len(Magic)) {
 		return nil, errors.New("not a valid orc file")
-- 
2.43.0


From 25c0b842264832e79e0a22342d152f45c0dfa639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 085/103] fix: footers larger than 16 KB were read from the
 wrong place, lengths in the postscript were not checked

---
 orc/reader.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 780d4dc..9806c2e 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -324,15 +324,21 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	// read postScript
 	psLen := int64(buf[readSize-1])
 	psOffset := readSize - 1 - psLen
+	if psOffset < 0 {
+		return nil, errors.Errorf("postscript of %d bytes in a file of %d", psLen, size)
+	}
 	ps, err := extractPostScript(buf[psOffset : psOffset+psLen])
 	if err != nil {
 		return nil, err
 	}
+	if left := uint64(size - psLen - 1); ps.GetFooterLength() > left || ps.GetMetadataLength() > left-ps.GetFooterLength() {
+		return nil, errors.Errorf("footer of %d and metadata of %d bytes in a file of %d", ps.GetFooterLength(),
+			ps.GetMetadataLength(), size)
+	}
 	footerSize := int64(ps.GetFooterLength()) // compressed footer length
-	metaSize := int64(ps.GetMetadataLength())
 
 	// check if extra bytes need to be read
-	extra := Max(0, psLen+1+footerSize+metaSize-readSize)
+	extra := Max(0, psLen+1+footerSize-readSize)
 	if extra > 0 {
 		// more bytes need to be read, read extra bytes
 		ebuf := make([]byte, extra)
@@ -343,15 +349,15 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 			return nil, errors.WithStack(err)
 		}
 		// refactor: array allocated
-		buf = append(buf, ebuf...)
+		buf = append(ebuf, buf...)
+		psOffset += extra
 	}
 
 	// read file footer
 	footerStart := psOffset - footerSize
 	footerBuf := buf[footerStart : footerStart+footerSize]
 	if ps.GetCompression() != pb.CompressionKind_NONE {
-		fb := bytes.NewBuffer(make([]byte, ps.GetCompressionBlockSize()))
-		fb.Reset()
+		fb := &bytes.Buffer{}
 		if err := common.DecompressChunks(ps.GetCompression(), fb, bytes.NewBuffer(footerBuf)); err != nil {
 			return nil, errors.WithStack(err)
 		}
-- 
2.43.0


From adff92b6de2000b1eec7bb33adcc7688953d81e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:14 +0000
Subject: [PATCH 086/103] fix: the magic of the postscript was not checked, the
 end of a cut file could be taken for one

---
 orc/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/reader.go b/orc/reader.go
index 9806c2e..2dd5853 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -399,6 +399,10 @@ func extractPostScript(buf []byte) (ps *pb.PostScript, err error) {
 		return nil, errors.Wrapf(err, "check orc version error")
 	}
 
+	// else the file may be cut
+	if ps.GetMagic() != Magic {
+		return nil, errors.New("malformed ORC file, invalid postscript")
+	}
 	logger.Debugf("read file postscript: %s", ps.String())
 
 	return ps, err
-- 
2.43.0


From 1c68e50fa00d45d360d3127f052e8b10b6325075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 087/103] fix: any compression block size of a postscript was
 allocated for every stream

---
 orc/reader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 2dd5853..3b1dd70 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -58,6 +58,13 @@ func newReader(f orcio.File) (r *reader, err error) {
 	opts.CompressionKind = tail.Postscript.GetCompression()
 	if opts.CompressionKind != pb.CompressionKind_NONE { // compression_none no block size
 		opts.ChunkSize = tail.Postscript.GetCompressionBlockSize()
+		if opts.ChunkSize == 0 {
+			opts.ChunkSize = config.DefaultChunkSize
+		}
+		// length in a chunk header has 23 bits
+		if opts.ChunkSize > 1<<23 {
+			return nil, errors.Errorf("compression block size %d error", opts.ChunkSize)
+		}
 	} else {
 		opts.ChunkSize = config.DefaultChunkSize
 	}
@@ -68,8 +75,6 @@ func newReader(f orcio.File) (r *reader, err error) {
 		return nil, err
 	}
 
-	// todo: check opts chunksize !=0
-
 	r = &reader{f: f, opts: opts, schemas: schemas, numberOfRows: rows, stats: stats, stripes: stripes}
 	return
 }
-- 
2.43.0


From 2c7736922157f7a589f4587c8e8e07ac0b074ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 088/103] fix: types that are no tree made the reader panic

---
 orc/reader.go | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index 3b1dd70..ee46371 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -50,9 +50,14 @@ func newReader(f orcio.File) (r *reader, err error) {
 
 	rows := tail.GetFooter().GetNumberOfRows()
 
+	if err = checkTypes(tail.Footer.Types); err != nil {
+		return nil, err
+	}
 	schemas := unmarshallSchema(tail.Footer.Types)
 	for i, stat := range tail.Footer.Statistics {
-		schemas[i].HasNulls = stat.GetHasNull()
+		if i < len(schemas) {
+			schemas[i].HasNulls = stat.GetHasNull()
+		}
 	}
 
 	opts.CompressionKind = tail.Postscript.GetCompression()
@@ -259,6 +264,55 @@ func (br *batchReader) Seek(rowNumber uint64) error {
 	return errors.New("no row found")
 }
 
+// checkTypes makes sure that types are a tree in pre-order
+func checkTypes(types []*pb.Type) error {
+	if len(types) == 0 {
+		return errors.New("file has no types")
+	}
+	next := uint32(0)
+	var walk func(id uint32) error
+	walk = func(id uint32) error {
+		if id != next || int(id) >= len(types) {
+			return errors.Errorf("type %d is not the next of %d types", id, len(types))
+		}
+		next++
+		t := types[id]
+		n := len(t.Subtypes)
+		switch t.GetKind() {
+		case pb.Type_STRUCT:
+			if len(t.FieldNames) != n {
+				return errors.Errorf("struct %d has %d fields and %d names", id, n, len(t.FieldNames))
+			}
+		case pb.Type_LIST:
+			if n != 1 {
+				return errors.Errorf("list %d has %d children", id, n)
+			}
+		case pb.Type_MAP:
+			if n != 2 {
+				return errors.Errorf("map %d has %d children", id, n)
+			}
+		case pb.Type_UNION:
+		default:
+			if n != 0 {
+				return errors.Errorf("type %d %s has %d children", id, t.GetKind().String(), n)
+			}
+		}
+		for _, c := range t.Subtypes {
+			if err := walk(c); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+	if err := walk(0); err != nil {
+		return err
+	}
+	if int(next) != len(types) {
+		return errors.Errorf("%d types below the root, there are %d", next, len(types))
+	}
+	return nil
+}
+
 func unmarshallSchema(types []*pb.Type) (schemas []*api.TypeDescription) {
 	schemas = make([]*api.TypeDescription, len(types))
 	for i, t := range types {
-- 
2.43.0


From 5465e2657b073482b65a584ab6913d6f6d527e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:52 +0000
Subject: [PATCH 089/103] fix: batch readers moved the file offset of each
 other while they were created

---
 orc/reader.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index ee46371..1161c62 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -112,9 +112,15 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 	}
 
 	// todo: includes verification, make sure includes is a tree
-	br := &batchReader{f: r.f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
+	// batch readers may be created and used concurrently
+	f, err := r.f.Clone()
+	if err != nil {
+		return nil, err
+	}
+	br := &batchReader{f: f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
 
 	if err := br.initStripes(r.stripes); err != nil {
+		br.Close()
 		return nil, err
 	}
 	return br, nil
@@ -200,6 +206,9 @@ func (br *batchReader) Close() {
 	for _, s := range br.stripes {
 		s.Close()
 	}
+	if err := br.f.Close(); err != nil {
+		logger.Warn(err)
+	}
 }
 
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
-- 
2.43.0


From f1f2adec48cf41e644cc585489baf33bd23c59bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 090/103] fix: files opened for a stripe stayed open when
 reading its index or streams failed

---
 orc/stripe.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index a54a0e4..7e88bec 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -254,17 +254,41 @@ type stripeReader struct {
 
 func newStripeReader(f orcio.File, schemas []*api.TypeDescription, ropts *config.ReaderOptions, bopt *api.BatchOption,
 	idx int, info *pb.StripeInformation) (*stripeReader, error) {
-	reader := &stripeReader{f: f, schemas: schemas, ropts: ropts, bopt:bopt, index: idx, numberOfRows: info.GetNumberOfRows()}
+	cf := &clonedFile{File: f}
+	reader := &stripeReader{f: cf, schemas: schemas, ropts: ropts, bopt:bopt, index: idx, numberOfRows: info.GetNumberOfRows()}
 	footer, err := reader.readFooter(info)
 	if err != nil {
 		return nil, err
 	}
 	if err := reader.init(info, footer); err != nil {
+		cf.closeClones()
 		return nil, err
 	}
 	return reader, nil
 }
 
+// clonedFile keeps its clones to close them if not all readers of a stripe could be made
+type clonedFile struct {
+	orcio.File
+	clones []orcio.File
+}
+
+func (f *clonedFile) Clone() (orcio.File, error) {
+	c, err := f.File.Clone()
+	if err == nil {
+		f.clones = append(f.clones, c)
+	}
+	return c, err
+}
+
+func (f *clonedFile) closeClones() {
+	for _, c := range f.clones {
+		if err := c.Close(); err != nil {
+			logger.Warn(err)
+		}
+	}
+}
+
 func (stripe *stripeReader) readFooter(info *pb.StripeInformation) (*pb.StripeFooter, error) {
 	if _, err := stripe.f.Seek(int64(info.GetOffset()+info.GetIndexLength()+info.GetDataLength()), io.SeekStart); err != nil {
 		return nil, err
-- 
2.43.0


From f1d6f08a7e5eea39d7ae044c4e34d070b08bd8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 091/103] fix: files that are no ORC files stayed open, and a
 reader was returned with the error

---
 orc/reader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index 1161c62..5de7cc2 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -25,7 +25,14 @@ func NewOSFileReader(path string) (Reader, error) {
 	if err != nil {
 		return nil, err
 	}
-	return newReader(f)
+	r, err := newReader(f)
+	if err != nil {
+		if cerr := f.Close(); cerr != nil {
+			logger.Warn(cerr)
+		}
+		return nil, err
+	}
+	return r, nil
 }
 
 type reader struct {
-- 
2.43.0


From 24847bf088515e4d346909d0a6b380f1b54bda68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 092/103] fix: reader panicked on includes or batches that do
 not fit the schema

---
 orc/reader.go | 69 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 orc/stripe.go |  2 +-
 2 files changed, 69 insertions(+), 2 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 5de7cc2..6422d4a 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -91,6 +91,63 @@ func newReader(f orcio.File) (r *reader, err error) {
 	return
 }
 
+// checkIncludes makes sure that the included columns are a tree
+func checkIncludes(schemas []*api.TypeDescription, bopt *api.BatchOption) error {
+	for _, id := range bopt.Includes {
+		if int(id) >= len(schemas) {
+			return errors.Errorf("no column %d to include", id)
+		}
+	}
+	parents := make([]*api.TypeDescription, len(schemas))
+	top := true
+	for _, s := range schemas {
+		for _, c := range s.Children {
+			parents[c.Id] = s
+			if (s.Kind == pb.Type_LIST || s.Kind == pb.Type_MAP) && bopt.IsInclude(s.Id) && !bopt.IsInclude(c.Id) {
+				return errors.Errorf("column %d of %s %d is not included", c.Id, s.Kind.String(), s.Id)
+			}
+		}
+		if !bopt.IsInclude(s.Id) {
+			continue
+		}
+		if top { // in structs only, there is one value a row then
+			for p := parents[s.Id]; p != nil; p = parents[p.Id] {
+				if p.Kind != pb.Type_STRUCT || p.HasNulls {
+					return errors.Errorf("column %d is included without %s %d it is in", s.Id, p.Kind.String(), p.Id)
+				}
+			}
+			top = false
+		} else if p := parents[s.Id]; !bopt.IsInclude(p.Id) {
+			return errors.Errorf("column %d is included without %s %d it is in", s.Id, p.Kind.String(), p.Id)
+		}
+	}
+	return nil
+}
+
+// checkBatch makes sure that there is a vector for every included column
+func checkBatch(schema *api.TypeDescription, bopt *api.BatchOption, vec *api.ColumnVector) error {
+	if vec == nil || vec.Id != schema.Id || vec.Kind != schema.Kind {
+		return errors.Errorf("batch has no vector for column %d", schema.Id)
+	}
+	n := 0
+	for _, c := range schema.Children {
+		if !bopt.IsInclude(c.Id) {
+			continue
+		}
+		if n >= len(vec.Children) {
+			return errors.Errorf("batch has no vector for column %d", c.Id)
+		}
+		if err := checkBatch(c, bopt, vec.Children[n]); err != nil {
+			return err
+		}
+		n++
+	}
+	if n != len(vec.Children) {
+		return errors.Errorf("batch has %d vectors for the children of column %d, %d are included", len(vec.Children), schema.Id, n)
+	}
+	return nil
+}
+
 // checkStripes makes sure that the stripes are in the file and have the rows the footer says
 func checkStripes(tail *pb.FileTail) error {
 	var rows uint64
@@ -118,7 +175,9 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 		return nil, errors.New("Batch option RowSize == 0")
 	}
 
-	// todo: includes verification, make sure includes is a tree
+	if err := checkIncludes(r.schemas, bopt); err != nil {
+		return nil, err
+	}
 	// batch readers may be created and used concurrently
 	f, err := r.f.Clone()
 	if err != nil {
@@ -219,6 +278,14 @@ func (br *batchReader) Close() {
 }
 
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
+	for _, s := range br.schemas {
+		if br.bopt.IsInclude(s.Id) { // the first one has the others below it
+			if err := checkBatch(s, br.bopt, batch); err != nil {
+				return false, err
+			}
+			break
+		}
+	}
 	batch.Clear()
 
 	if br.err != nil {
diff --git a/orc/stripe.go b/orc/stripe.go
index 7e88bec..21b15b2 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -400,7 +400,7 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 	// build tree
 	for _, schema := range stripe.schemas {
 		for i, c := range schema.Children {
-			if stripe.bopt.IsInclude(c.Id) { // todo: verify includes map's key and value
+			if readers[schema.Id] != nil && stripe.bopt.IsInclude(c.Id) { // todo: verify includes map's key and value
 				switch schema.Kind {
 				case pb.Type_STRUCT:
 					readers[schema.Id].(*column.StructReader).AddChild(readers[c.Id])
-- 
2.43.0


From 9d01a2884b2150dcf43463abdce9fe3b8e763800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 093/103] fix: any length of a string in a file was allocated,
 negative lengths panicked

---
 orc/encoding/string.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/orc/encoding/string.go b/orc/encoding/string.go
index 7d70a6b..41e3525 100644
--- a/orc/encoding/string.go
+++ b/orc/encoding/string.go
@@ -34,7 +34,19 @@ func (e *stringContents) GetPosition() []uint64 {
 	return []uint64{}
 }
 
+const maxAlloc = 1 << 20
+
 func DecodeBytes(in io.Reader, length int) ([]byte, error) {
+	if length < 0 {
+		return nil, errors.Errorf("length %d error", length)
+	}
+	if length > maxAlloc { // there may be less than length says
+		buf := &bytes.Buffer{}
+		if _, err := io.CopyN(buf, in, int64(length)); err != nil {
+			return nil, errors.WithStack(err)
+		}
+		return buf.Bytes(), nil
+	}
 	value := make([]byte, length)
 	if _, err := io.ReadFull(in, value); err != nil {
 		return nil, err
-- 
2.43.0


From edc159da8c4faa64627a0a83d59359b6211ca07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:01 +0000
Subject: [PATCH 094/103] fix: every stream of every stripe allocated a whole
 compression block when it was opened

---
 orc/stream/reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index ccda36a..c079bfb 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -34,8 +34,7 @@ type reader struct {
 func newReader(opts *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) *reader {
 	var cmpBuf *bytes.Buffer
 	if opts.CompressionKind != pb.CompressionKind_NONE {
-		cmpBuf = bytes.NewBuffer(make([]byte, opts.ChunkSize))
-		cmpBuf.Reset()
+		cmpBuf = &bytes.Buffer{}
 	}
 	return &reader{opts: opts, info: info, start: start, f: f, buf: &bytes.Buffer{}, cmpBuf: cmpBuf}
 }
-- 
2.43.0


From 79c91d5fb1802d172e34c893ecd4ef29c32b6f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:03 +0000
Subject: [PATCH 095/103] fix: dictionary was loaded twice or in part after
 loading it failed

---
 orc/column/string.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orc/column/string.go b/orc/column/string.go
index 0171e2d..c9e953c 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -374,6 +374,14 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 
 	if !r.dictLoaded {
+		// maybe loading failed before
+		r.dictStrings = nil
+		if err = r.length.Seek(0, 0, 0); err != nil {
+			return err
+		}
+		if err = r.dict.Seek(0, 0); err != nil {
+			return err
+		}
 		for !r.length.Finished() {
 			var l uint64
 			if l, err = r.length.NextUInt64(); err != nil {
-- 
2.43.0


From c69f11e2f4d92091e8cc48e01acb82224b25f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:05 +0000
Subject: [PATCH 096/103] fix: skipping lists of absurd lengths did not end

---
 orc/column/list.go | 3 +++
 orc/column/map.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/orc/column/list.go b/orc/column/list.go
index dc53da6..7734a45 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -145,6 +145,9 @@ func (r *ListV2Reader) Skip(rows uint64) error {
 			if err != nil {
 				return err
 			}
+			if l > math.MaxInt32 {
+				return errors.Errorf("list of %d elements", l)
+			}
 			if err = r.child.Skip(l); err != nil {
 				return err
 			}
diff --git a/orc/column/map.go b/orc/column/map.go
index 3a5bf0d..e12f054 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -101,6 +101,9 @@ func (r *MapV2Reader) Skip(rows uint64) error {
 			if err != nil {
 				return err
 			}
+			if l > math.MaxInt32 {
+				return errors.Errorf("map of %d elements", l)
+			}
 			if err := r.key.Skip(l); err != nil {
 				return err
 			}
-- 
2.43.0


From 51ce4dc7c3d2f40f9ee61639db6ca650e2370c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 097/103] fix: rows of a column read without the struct it is
 in were shifted by the nulls of the struct

---
 orc/stripe.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/orc/stripe.go b/orc/stripe.go
index 21b15b2..45f7c7e 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -320,6 +320,7 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		return errors.Errorf("stripe %d has %d columns only", stripe.index, len(footer.GetColumns()))
 	}
 	readers := make([]column.Reader, len(stripe.schemas))
+	top := uint32(0)
 	missing := make([]map[pb.Stream_Kind]bool, len(stripe.schemas))
 	for _, s := range stripe.schemas {
 		if stripe.bopt.IsInclude(s.Id) {
@@ -337,6 +338,7 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 			}
 			if stripe.columnReader==nil {
 				stripe.columnReader= r
+				top = s.Id
 			}
 		}
 	}
@@ -378,6 +380,13 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		if length > dataEnd-dataStart {
 			return errors.Errorf("stream %s is out of the data", streamInfo.String())
 		}
+		if readers[id] == nil && streamKind == pb.Stream_PRESENT && length != 0 && id < top {
+			for _, a := range ancestors(stripe.schemas, top) {
+				if a == id {
+					return errors.Errorf("column %d is included without column %d it is in, that has nulls", top, id)
+				}
+			}
+		}
 		if readers[id] != nil {
 			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
 				return err
@@ -426,6 +435,18 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 	return nil
 }
 
+func ancestors(schemas []*api.TypeDescription, id uint32) (ids []uint32) {
+	for i := len(schemas) - 1; i >= 0; i-- {
+		for _, c := range schemas[i].Children {
+			if c.Id == id {
+				id = schemas[i].Id
+				ids = append(ids, id)
+			}
+		}
+	}
+	return
+}
+
 // a stripe is typically  ~200MB
 func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
 	stripe.moved = true
-- 
2.43.0


From 525fc37e4a3768927a0e90a7051c2ec3cf111138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:45 +0000
Subject: [PATCH 098/103] fix: writes that are cut short were not reported

---
 orc/writer.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/orc/writer.go b/orc/writer.go
index 346d558..e7709f4 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -2,6 +2,7 @@ package orc
 
 import (
 	"bytes"
+	"io"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/pkg/errors"
@@ -73,7 +74,7 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 		return
 	}
 
-	w = &writer{opts: opts, f: f, schemas: schemas}
+	w = &writer{opts: opts, f: fullFile{f}, schemas: schemas}
 
 	var h uint64
 	if h, err = w.writeHeader(); err != nil {
@@ -105,6 +106,18 @@ func checkOptions(opts *config.WriterOptions) error {
 	return nil
 }
 
+// fullFile takes a write that is cut short for an error
+type fullFile struct {
+	orcio.File
+}
+
+func (f fullFile) Write(p []byte) (n int, err error) {
+	if n, err = f.File.Write(p); err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	return
+}
+
 // cannot used concurrently, not synchronized
 // strip buffered in memory until the strip size
 // Encode out by columns
-- 
2.43.0


From f045f6f365bf73bbe41f0d0c5e0831bf28967907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 099/103] fix: positions out of their chunk made the reader
 panic

---
 orc/stream/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index c079bfb..78b4dda 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -110,6 +110,9 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 	if err := r.readAChunk(); err != nil {
 		return err
 	}
+	if chunkOffset > uint64(r.buf.Len()) {
+		return errors.Errorf("offset %d in a chunk of %d bytes", chunkOffset, r.buf.Len())
+	}
 	r.buf.Next(int(chunkOffset))
 	return nil
 }
-- 
2.43.0


From 8b8d266ff8f850adf02bdcb2ae9290c973736d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:40 +0000
Subject: [PATCH 100/103] fix: a stream that was in a stripe twice stayed open

---
 orc/stripe.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orc/stripe.go b/orc/stripe.go
index 45f7c7e..145bd6a 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -322,6 +322,7 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 	readers := make([]column.Reader, len(stripe.schemas))
 	top := uint32(0)
 	missing := make([]map[pb.Stream_Kind]bool, len(stripe.schemas))
+	opened := make([]map[pb.Stream_Kind]bool, len(stripe.schemas))
 	for _, s := range stripe.schemas {
 		if stripe.bopt.IsInclude(s.Id) {
 			schema := &api.TypeDescription{}
@@ -333,6 +334,7 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 			}
 			readers[schema.Id] = r
 			missing[schema.Id] = map[pb.Stream_Kind]bool{}
+			opened[schema.Id] = map[pb.Stream_Kind]bool{}
 			for _, kind := range column.Streams(schema) {
 				missing[schema.Id][kind] = true
 			}
@@ -388,6 +390,10 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 			}
 		}
 		if readers[id] != nil {
+			if opened[id][streamKind] { // the stream opened before would be lost, and not closed
+				return errors.Errorf("stream %s is there twice", streamInfo.String())
+			}
+			opened[id][streamKind] = true
 			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
 				return err
 			}
-- 
2.43.0


From 914b775bb42bbb880609c58e2685094f09cc1d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:54 +0000
Subject: [PATCH 101/103] fix: the location of the batch option was not used

---
 orc/column/time.go | 5 +++++
 orc/stripe.go      | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/orc/column/time.go b/orc/column/time.go
index ff26cf7..90b24ac 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -411,6 +411,11 @@ type TimestampV2Reader struct {
 	secondary *stream.IntRLV2Reader
 }
 
+// SetLocation sets the location of the timestamps read
+func (r *TimestampV2Reader) SetLocation(loc *time.Location) {
+	r.loc = loc
+}
+
 func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 	ic, err := r.f.Clone()
 	if err != nil {
diff --git a/orc/stripe.go b/orc/stripe.go
index 145bd6a..968ee55 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -332,6 +332,9 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 			if err != nil {
 				return err
 			}
+			if t, ok := r.(*column.TimestampV2Reader); ok && stripe.bopt.Loc != nil {
+				t.SetLocation(stripe.bopt.Loc)
+			}
 			readers[schema.Id] = r
 			missing[schema.Id] = map[pb.Stream_Kind]bool{}
 			opened[schema.Id] = map[pb.Stream_Kind]bool{}
-- 
2.43.0


From 6771f00b16137bb5dabc532a94796e1bcedab37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:55 +0000
Subject: [PATCH 102/103] fix: an option changed for the next batch reader
 changed the one before

---
 orc/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index 6422d4a..64d302d 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -183,7 +183,10 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 	if err != nil {
 		return nil, err
 	}
-	br := &batchReader{f: f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
+	// the caller may change the option for the next one
+	opt := *bopt
+	opt.Includes = append([]uint32(nil), bopt.Includes...)
+	br := &batchReader{f: f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: &opt, schemas: r.schemas}
 
 	if err := br.initStripes(r.stripes); err != nil {
 		br.Close()
-- 
2.43.0


From 9bfa36a42e08bcbdbb519d201ff9a11d27c1a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:03 +0000
Subject: [PATCH 103/103] fix: content length in the footer left out the file
 header

---
 orc/writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orc/writer.go b/orc/writer.go
index e7709f4..2cf6d0a 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -214,6 +214,8 @@ func (w *writer) writeFileTail() error {
 	// todo: rows in stride
 	ft := &pb.Footer{HeaderLength: &HeaderLength, ContentLength: new(uint64), NumberOfRows: new(uint64)}
 
+	// length of the header and the stripes
+	*ft.ContentLength = HeaderLength
 	for _, si := range w.stripe.infos {
 		*ft.ContentLength += si.GetIndexLength() + si.GetDataLength() + si.GetFooterLength()
 		*ft.NumberOfRows += si.GetNumberOfRows()
-- 
2.43.0

