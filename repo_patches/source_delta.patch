From cd21e574a4adc66e06b94667b6462d94ef1f2cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 01/74] fix: Median of an odd number of values is the middle
 one

---
 math/sort/median.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index c6c0d45..61bc984 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -18,7 +18,7 @@ func Median(xs []float64, buf ...[]float64) float64 {
 		panic("xs empty in call to Median(xs)")
 	}
 
-	return NthLargest(xs, len(xs) / 2, buf...)
+	return NthLargest(xs, (len(xs) + 1) / 2, buf...)
 }
 
 // Remember that this function is 1-indexed.
-- 
2.43.0


From 161dff8ebccbe5409f70ceaee0680dda17b8a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 02/74] fix: Percentile passes a valid rank to NthLargest

---
 math/sort/median.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index 61bc984..49cde9b 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -10,7 +10,8 @@ func Percentile(xs []float64, p float64, buf ...[]float64) float64 {
 	n := int(p * float64(len(xs)))
 	if n == len(xs) { n-- }
 
-	return NthLargest(xs, n, buf...)
+	// n is 0-indexed from the bottom, NthLargest is 1-indexed from the top.
+	return NthLargest(xs, len(xs) - n, buf...)
 }
 
 func Median(xs []float64, buf ...[]float64) float64 {
-- 
2.43.0


From e97fec967348a939600ca7fcc8b8eb8fe79bd99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 03/74] fix: ReadSheetPositionsAt reports header errors

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index 7f351b7..4160fa1 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -314,7 +314,7 @@ func ReadSheetHeaderAt(file string, hdBuf *SheetHeader) error {
 func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
-	if err != nil { return nil }
+	if err != nil { return err }
 
 	if h.GridCount != int64(len(xsBuf)) {
 		return fmt.Errorf("Position buffer has length %d, but file %s has %d "+ 
-- 
2.43.0


From 679ba4ddbedf70e65920d3358bb81ac4664b3fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 04/74] fix: refuse short reads of vector and ID blocks

---
 render/io/io.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 4160fa1..0cbddd0 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -415,7 +415,7 @@ func readVecAsByte(rd io.Reader, end binary.ByteOrder, buf []geom.Vec) error {
 	hd.Cap *= 12
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -442,7 +442,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	hd.Cap *= 24
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -504,7 +504,7 @@ func readInt64AsByte(rd io.Reader, end binary.ByteOrder, buf []int64) error {
 	hd.Cap *= 8
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -533,7 +533,7 @@ func readInt32AsByte(rd io.Reader, end binary.ByteOrder, buf64 []int64) error {
 	hd.Cap *= 4
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
-- 
2.43.0


From b2adbf3d8aada061c0c0a27e3cb9569f55b7085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 05/74] fix: ReadGadgetParticlesAt refuses truncated catalogs

---
 render/io/io.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 0cbddd0..11569e6 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -202,10 +202,11 @@ func ReadGadgetParticlesAt(
 	}
 
 	if readF32 {
-		readVecAsByte(f, order, xs)
+		err = readVecAsByte(f, order, xs)
 	} else {
-		readVec64AsByte(f, order, xs)
+		err = readVec64AsByte(f, order, xs)
 	}
+	if err != nil { panic(err) }
 	_ = readInt32(f, order)
 
 
@@ -218,22 +219,24 @@ func ReadGadgetParticlesAt(
 		panic(fmt.Sprintf("Internal error: Expected positions block to have header %d or %d, but actually has header %d\n (this is probably a binary file format issues)", f32Size, 2*f32Size, xSize))
 	}
 	if readF32 {
-		readVecAsByte(f, order, vs)
+		err = readVecAsByte(f, order, vs)
 	} else {
-		readVec64AsByte(f, order, vs)
+		err = readVec64AsByte(f, order, vs)
 	}
+	if err != nil { panic(err) }
 	_ = readInt32(f, order)
 	_ = readInt32(f, order)
 
 	if idSize == 64 {
-		readInt64AsByte(f, order, ids)
+		err = readInt64AsByte(f, order, ids)
 	} else if idSize == 32 {
 		runtime.GC()
-		readInt32AsByte(f, order, ids)
+		err = readInt32AsByte(f, order, ids)
 		runtime.GC()
 	} else {
 		panic("ID size other than 32 bits or 64 bits given.")
 	}
+	if err != nil { panic(err) }
 	//_ = readInt32(f, order)
 	
 	// Convert gadget velocities out of code units.
-- 
2.43.0


From 295a3fef72bcaa1f79e66330050af0020c76bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 06/74] fix: refuse truncated Gadget headers

---
 render/io/io.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 11569e6..fd1c707 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -142,7 +142,9 @@ func ReadGadgetHeader(path string, order binary.ByteOrder, variant string) *Cata
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	if err := binary.Read(f, binary.LittleEndian, gh); err != nil {
+		panic(err)
+	}
 
 	h := gh.Standardize()
 	return h
@@ -168,7 +170,9 @@ func ReadGadgetParticlesAt(
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	if err := binary.Read(f, binary.LittleEndian, gh); err != nil {
+		panic(err)
+	}
 	_ = readInt32(f, order)
 
 	h := gh.Standardize()
-- 
2.43.0


From 8dd27a215c7c1f8ddd6de61729de34d206ce6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 07/74] fix: read Gadget headers in the requested byte order

---
 render/io/io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index fd1c707..7112afb 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -142,7 +142,7 @@ func ReadGadgetHeader(path string, order binary.ByteOrder, variant string) *Cata
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	if err := binary.Read(f, binary.LittleEndian, gh); err != nil {
+	if err := binary.Read(f, order, gh); err != nil {
 		panic(err)
 	}
 
@@ -170,7 +170,7 @@ func ReadGadgetParticlesAt(
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	if err := binary.Read(f, binary.LittleEndian, gh); err != nil {
+	if err := binary.Read(f, order, gh); err != nil {
 		panic(err)
 	}
 	_ = readInt32(f, order)
-- 
2.43.0


From dc08c28be97960092952fb88f41d0b38ba6786dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 08/74] fix: swap all eight bytes of double precision vectors

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index 7112afb..a0ffe7c 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -455,7 +455,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	if !isSysOrder(end) {
 		for i := 0; i < bufLen * 3; i++ {
 			for j := 0; j < 4; j++ {
-				idx1, idx2 := i*8 + j, i*8 + 3 - j
+				idx1, idx2 := i*8 + j, i*8 + 7 - j
 				byteBuf[idx1], byteBuf[idx2] = byteBuf[idx2], byteBuf[idx1]
 			}
 		}
-- 
2.43.0


From 4872d6fc09414d8845d32a9371fd03c59cc62dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 09/74] fix: WriteSheet checks os.Create and closes the file

---
 render/io/io.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/io/io.go b/render/io/io.go
index a0ffe7c..990a42e 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -369,6 +369,7 @@ func WriteSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
 	}
 
 	f, err := os.Create(file)
+	if err != nil { log.Fatalf(err.Error()) }
 	endiannessFlag := int32(0)
 	order := endianness(endiannessFlag)
 
@@ -390,6 +391,7 @@ func WriteSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
 	if err = writeVecAsByte(f, order, vs); err != nil {
 		log.Fatalf(err.Error())
 	}
+	if err = f.Close(); err != nil { log.Fatalf(err.Error()) }
 }
 
 // CellBounds returns the bounds  of a given sheet aligned to the boundaries of
-- 
2.43.0


From 6c7e43d21b8c1b76c04579a5a5b19ce7a2f46031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 10/74] fix: 32-bit particle IDs are unsigned

---
 render/io/io.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 990a42e..4f8865f 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -531,11 +531,11 @@ func readInt64AsByte(rd io.Reader, end binary.ByteOrder, buf []int64) error {
 	return nil
 }
 
-// readInt64AsByte reads int32 values from rd and converts them into an int64
-// buffer.
+// readInt32AsByte reads unsigned 32-bit values from rd and converts them into
+// an int64 buffer.
 func readInt32AsByte(rd io.Reader, end binary.ByteOrder, buf64 []int64) error {
 	bufLen := len(buf64)
-	buf := make([]int32, bufLen)
+	buf := make([]uint32, bufLen)
 	
 	hd := *(*reflect.SliceHeader)(unsafe.Pointer(&buf))
 	hd.Len *= 4
-- 
2.43.0


From 123da1c5a140344c25a1ca085fa1ad0c2fcf18f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 11/74] fix: grid files record whether they hold a vector grid

---
 render/io/output.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io/output.go b/render/io/output.go
index cdf611d..c5f91ab 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -152,12 +152,13 @@ func WriteBuffer(
 	hd.Render = render
 	hd.Loc = loc
 
-	binary.Write(wr, end, &hd)
 	if xs, ok := buf.FinalizedScalarBuffer(); ok {
 		hd.Type.IsVectorGrid = 0
+		binary.Write(wr, end, &hd)
 		binary.Write(wr, end, xs)
 	} else if xs, ys, zs, ok := buf.FinalizedVectorBuffer(); ok {
 		hd.Type.IsVectorGrid = 1
+		binary.Write(wr, end, &hd)
 		binary.Write(wr, end, xs)
 		binary.Write(wr, end, ys)
 		binary.Write(wr, end, zs)
-- 
2.43.0


From 66c2e9dfd247abfce26eea9ece90fc995072c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 12/74] fix: ReadGrid reads projected grids

---
 render/io/output.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/io/output.go b/render/io/output.go
index c5f91ab..4b81956 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -78,8 +78,12 @@ func ReadGrid(fname string) ([]float64, error) {
         return nil, fmt.Errorf("io.ReadGrid() can only read scalar grids.")
     }
 
-    sp := hd.Loc.PixelSpan
-    val32s := make([]float32, sp[0] * sp[1] * sp[2])
+    // Projected grids are flat along their projection axis.
+    n := int64(1)
+    for i, sp := range hd.Loc.PixelSpan {
+        if int64(i) != hd.Render.ProjectionAxis { n *= sp }
+    }
+    val32s := make([]float32, n)
     err = binary.Read(f, end, val32s)
     if err != nil { return nil, err }
 
-- 
2.43.0


From 79811134350a70ef2ebd51083f6369217df796eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 13/74] fix: read_header opens grid files as binary

---
 python/gotetra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gotetra.py b/python/gotetra.py
index 1e5ebc3..6771b76 100644
--- a/python/gotetra.py
+++ b/python/gotetra.py
@@ -66,7 +66,7 @@ def read_header(filename):
     """ read_header returns the header information at the top of a gotetra
     output file as a Header object.
     """
-    with open(filename, "r") as fp:
+    with open(filename, "rb") as fp:
         flag_s = fp.read(8)
         ver = _read_version(flag_s)
         sizes = Sizes(ver)
-- 
2.43.0


From 2ac8a9199868a5db3b1f1f18ef21701eb5652dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 14/74] fix: finalising a small velocity grid no longer divides
 by zero

---
 render/density/buffer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 595258c..4375006 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -295,9 +295,6 @@ func (buf *velocityBuffer) FinalizedVectorBuffer() (xs, ys, zs []float32, ok boo
 	ys = make([]float32, len(buf.vecs))
 	zs = make([]float32, len(buf.vecs))
 	for i, vec := range buf.vecs {
-		if i % (len(buf.vecs) / 30) == 0 {
-			fmt.Println(i, buf.num[i], vec[0], vec[1], vec[2])
-		}
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		xs[i], ys[i], zs[i] = float32(vec[0])/n, float32(vec[1])/n, float32(vec[2])/n
-- 
2.43.0


From d487272738b8532649a94a3c09ff61d7c085d818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 15/74] fix: velocity divergence uses the y velocity

---
 render/density/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 4375006..d4b8a55 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -351,7 +351,7 @@ func (buf *divergenceBuffer) FinalizedScalarBuffer() (vals []float32, ok bool) {
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		vecs[0][i] = float32(vec[0])/n
-		vecs[1][i] = float32(vec[0])/n
+		vecs[1][i] = float32(vec[1])/n
 		vecs[2][i] = float32(vec[2])/n
 	} 
 
-- 
2.43.0


From 618847dd82f6c6f3e51bfd9e1e6c8f0b7107165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 16/74] fix: convert the box width along with the positions

---
 render/main/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/main/main.go b/render/main/main.go
index 1de47f8..b71f69a 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -284,6 +284,7 @@ func createGrids(
 	for i := range hs {
 		hs[i] = *io.ReadGadgetHeader(catalogs[i], gadgetEndianness, con.InputFormat)
 		hs[i].Mass *= con.MUnits
+		hs[i].TotalWidth *= con.XUnits
 	}
 	log.Printf("Input header: %v\n", hs[0])
 
-- 
2.43.0


From 70c8a0fa5e6ab47f69ef83e2e16a6984f107710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 17/74] fix: sheet files of grids with more than ten cells get
 distinct names

---
 render/main/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index b71f69a..611756d 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -385,13 +385,17 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 	shd.GridCount = int64(shd.GridWidth * shd.GridWidth * shd.GridWidth)
 	shd.Cells = int64(cells)
 
+	digits := len(fmt.Sprint(cells - 1))
+
 	// Write the data. (x, y, z) indexes over the files.
 	for z := int64(0); z < shd.Cells; z++ {
 		for y := int64(0); y < shd.Cells; y++ {
 			for x := int64(0); x < shd.Cells; x++ {
 				copyToSegment(shd, xs, vs, xsSeg, vsSeg)
+				// Every index gets the same number of digits. Otherwise
+				// segments of large grids could share a file name.
 				file := path.Join(outDir, fmt.Sprintf(
-					"sheet%d%d%d.dat", x, y, z,
+					"sheet%0*d%0*d%0*d.dat", digits, x, digits, y, digits, z,
 				))
 				io.WriteSheet(file, shd, xsSeg, vsSeg)
 				runtime.GC()
-- 
2.43.0


From eb5499605f2badf80051adacfe719b1dd05c5114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 18/74] fix: iterate over snapshots until an invalid folder if
 there is no end

---
 render/main/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index 611756d..1c82833 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -248,7 +248,9 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 
 	// If the user supplied format strings for iterated output, loop over the
 	// iteration range. Otherwise, just use the supplied snapshot.
-	for i := con.IterationStart; i <= con.IterationEnd; i++ {
+	// If there is no end to that range, loop until an invalid folder is found.
+	endless := con.ValidIteratedInput() && !con.ValidIterationEnd()
+	for i := con.IterationStart; endless || i <= con.IterationEnd; i++ {
 		input, output := con.Input, con.Output
 		if con.ValidIteratedInput() {
 			input = fmt.Sprintf(con.IteratedInput, i)
@@ -256,6 +258,7 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 		}
 
 		infos, err := ioutil.ReadDir(input)
+		if err != nil && endless && i > con.IterationStart { break }
 		if err != nil { log.Fatal(err.Error()) }
 		files := make([]string, len(infos))
 		
-- 
2.43.0


From 6b74fcf57603a9dce51705141c1a31a16f2318aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 19/74] fix: the name of the Density quantity can be printed

---
 render/density/quantity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/quantity.go b/render/density/quantity.go
index b17327e..7a201b7 100644
--- a/render/density/quantity.go
+++ b/render/density/quantity.go
@@ -15,7 +15,7 @@ const (
 )
 
 func (q Quantity) String() string {
-	if q <= 0 || q >= EndQuantity {
+	if q < 0 || q >= EndQuantity {
 		panic(fmt.Sprintf("Value %d out of range for Quantity type.", q))
 	}
 
-- 
2.43.0


From decee2cbf4508993656b8f5e5dc608ea5f677bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 20/74] fix: round points on pixel edges below zero to the
 right pixel

---
 render/box.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/render/box.go b/render/box.go
index 08bbd8a..d8de373 100644
--- a/render/box.go
+++ b/render/box.go
@@ -683,11 +683,7 @@ func (w *domainOverlap3D) Interpolate(
 }
 
 func intFloor(x float32) int {
-	if x > 0 {
-		return int(x)
-	} else {
-		return int(x - 1)
-	}
+	return int(math.Floor(float64(x)))
 }
 
 func cbSubtr(cb1, cb2 *geom.CellBounds) (i, j, k int) {
-- 
2.43.0


From 93fd3c065f999c23a761d744496dd57d37580995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 21/74] fix: do not divide projected mean velocities by the
 depth of the image

---
 render/box.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/render/box.go b/render/box.go
index d8de373..1790a13 100644
--- a/render/box.go
+++ b/render/box.go
@@ -499,10 +499,11 @@ func (w *segmentOverlap2D) Interpolate(
 	kOffset := w.domCb.Origin[kDim] - w.bufCb.Origin[kDim]
 
 	length := w.bufCb.Width[iDim]
-	ptVal /= float64(w.domCb.Width[kDim])
 
 	wlen := bweights.Length()
 	buf, scalar := bbuf.ScalarBuffer()
+	// Vectors are averaged over the points they were measured at.
+	if scalar { ptVal /= float64(w.domCb.Width[kDim]) }
 	wbuf, _ := bweights.ScalarBuffer()
 	vbuf, _ := bbuf.VectorBuffer()
 	vwbuf, _ := bweights.VectorBuffer()
@@ -598,10 +599,11 @@ func (w *domainOverlap2D) Interpolate(
 	}
 
 	length := w.bufCb.Width[iDim]
-	ptVal /= float64(w.bufCb.Width[kDim])
 
 	wlen := bweights.Length()
 	buf, scalar := bbuf.ScalarBuffer()
+	// Vectors are averaged over the points they were measured at.
+	if scalar { ptVal /= float64(w.bufCb.Width[kDim]) }
 	wbuf, _ := bweights.ScalarBuffer()
 	vbuf, _ := bbuf.VectorBuffer()
 	vwbuf, _ := bweights.VectorBuffer()
-- 
2.43.0


From f08639cb97cb5c79865dce7916bce08b3828847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 22/74] fix: refuse subsampling lengths which are not powers of
 two

---
 render/hist.go      | 4 ++--
 render/io/config.go | 3 ++-
 render/render.go    | 6 ++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 6f5e5d8..9324064 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -101,8 +101,8 @@ func NewHistManager(
 }
 
 func (man *HistManager) Subsample(skip int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(skip) {
+		log.Fatalf("Skip ingrement is %d, must be power of two.", skip)
 	}
 
 	man.skip = skip
diff --git a/render/io/config.go b/render/io/config.go
index 39f8354..9cfae3c 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -322,7 +322,8 @@ func (con *RenderConfig) ValidParticles() bool {
 	return con.Particles > 0
 }
 func (con *RenderConfig) ValidSubsampleLength() bool {
-	return con.SubsampleLength > 0
+	s := con.SubsampleLength
+	return s > 0 && s & (s - 1) == 0
 }
 func (con *RenderConfig) ValidImagePixels() bool {
 	return con.ImagePixels > 0
diff --git a/render/render.go b/render/render.go
index 9740a29..f55db75 100644
--- a/render/render.go
+++ b/render/render.go
@@ -215,8 +215,10 @@ func (r *renderer) initWorkspaces(man *Manager) {
 func (man *Manager) Log(flag bool) { man.log = flag }
 
 func (man *Manager) Subsample(subsampleLength int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(subsampleLength) {
+		log.Fatalf(
+			"Skip ingrement is %d, must be power of two.", subsampleLength,
+		)
 	}
 
 	man.skip = subsampleLength
-- 
2.43.0


From e70a6f1ba600ce7b72d33b3a4d8131772677ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 23/74] fix: pixel ranges a full box width apart overlap

---
 render/geom/grid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index f8bf107..5ed0d24 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -146,7 +146,7 @@ func (cb1 *CellBounds) IntersectUnbounded(cb2 *CellBounds) bool {
 func bound(x, origin, width int) int {
 	diff := x - origin
 	if diff < 0 { return diff + width }
-	if diff > width { return diff - width }
+	if diff >= width { return diff - width }
 	return diff
 }
 
-- 
2.43.0


From cfe2b70c8018cbc6e80f8b4776bf7bf0bdcfd60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 24/74] fix: grid headers state the sampling, pixels and
 projection of their box

---
 render/main/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 1c82833..565e991 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -591,9 +591,12 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 			hd.Cosmo.OmegaL, hd.Cosmo.Z, hd.TotalWidth,
 		)
 
+		// Only some quantities can be projected.
+		axis := cBox.ProjectionAxis
+		if _, ok := box.ProjectionAxis(); !ok { axis = "" }
+
 		renderInfo := io.NewRenderInfo(
-			con.Particles, con.TotalPixels, con.SubsampleLength,
-			cBox.ProjectionAxis,
+			box.Points(), box.Cells(), con.SubsampleLength, axis,
 		)
 
 		io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
-- 
2.43.0


From b4473f9c2bad94eae4de918abc48283fd49eefda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 25/74] fix: refuse balls with negative radii

---
 render/io/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/config.go b/render/io/config.go
index 9cfae3c..ea4a595 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -350,7 +350,7 @@ type BallConfig struct {
 }
 
 func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
-	if ball.Radius == 0 {
+	if ball.Radius <= 0 {
 		return fmt.Errorf(
 			"Need to specify a positive radius for Ball '%s'.", name,
 		)
-- 
2.43.0


From 00e5435a55cf4708eb7e5ee081899c7e73e84630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 26/74] fix: balls touching the lower edge of the box start
 inside it

---
 render/io/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index ea4a595..904b016 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -392,19 +392,19 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 
 	box.XWidth, box.YWidth, box.ZWidth = 2 * rad, 2 * rad, 2 * rad
 
-	if ball.X > rad {
+	if ball.X >= rad {
 		box.X = ball.X - rad
 	} else {
 		box.X = ball.X - rad + totalWidth
 	}
 
-	if ball.Y > rad {
+	if ball.Y >= rad {
 		box.Y = ball.Y - rad
 	} else {
 		box.Y = ball.Y - rad + totalWidth
 	}
 
-	if ball.Z > rad {
+	if ball.Z >= rad {
 		box.Z = ball.Z - rad
 	} else {
 		box.Z = ball.Z - rad + totalWidth
-- 
2.43.0


From 6e08e64385d57040385480e02b880cf2102af55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 27/74] fix: balls have the documented ProjectionAxis

---
 render/io/config.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 904b016..e987fa2 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -346,6 +346,7 @@ type BallConfig struct {
 
 	// Optional
 	RadiusMultiplier float64
+	ProjectionAxis string
 	Name string
 }
 
@@ -383,9 +384,26 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
+	var ok bool
+	tmp := ball.ProjectionAxis
+	ball.ProjectionAxis, ok = parseAxis(tmp)
+	if !ok {
+		return fmt.Errorf(
+			"ProjectionAxis of Ball '%s' must be one of [X | Y | Z]. '%s' is " +
+				"not recognized.", name, tmp,
+		)
+	}
+
 	return nil
 }
 
+// parseAxis returns the normalized form of a projection axis and true if it
+// is a valid axis or unset and false otherwise.
+func parseAxis(s string) (axis string, ok bool) {
+	axis = strings.Trim(strings.ToUpper(s), " ")
+	return axis, axis == "" || axis == "X" || axis == "Y" || axis == "Z"
+}
+
 func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 	box := &BoxConfig{}
 	rad := ball.Radius * ball.RadiusMultiplier
@@ -411,6 +429,7 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 	}
 
 	box.Name = ball.Name
+	box.ProjectionAxis = ball.ProjectionAxis
 
 	return box
 }
@@ -459,13 +478,10 @@ func (box *BoxConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
+	var ok bool
 	tmp := box.ProjectionAxis
-	box.ProjectionAxis = strings.Trim(strings.ToUpper(box.ProjectionAxis), " ")
-	if box.ProjectionAxis != "" &&
-		box.ProjectionAxis != "X" &&
-		box.ProjectionAxis != "Y" &&
-		box.ProjectionAxis != "Z" {
-
+	box.ProjectionAxis, ok = parseAxis(tmp)
+	if !ok {
 		return fmt.Errorf(
 			"ProjectionAxis of Box '%s' must be one of [X | Y | Z]. '%s' is " + 
 				"not recognized.", name, tmp,
-- 
2.43.0


From 3520369d1c9038feebe2fb5cdf5e1527611bfc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 28/74] fix: refuse regions larger than the simulation box

---
 render/io/config.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index e987fa2..7c514c5 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -384,6 +384,14 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
+	if 2 * ball.Radius * ball.RadiusMultiplier > totalWidth {
+		return fmt.Errorf(
+			"The diameter of Ball '%s' must not be larger than the width of " +
+				"the simulation box, %g, but is %g.", name, totalWidth,
+			2 * ball.Radius * ball.RadiusMultiplier,
+		)
+	}
+
 	var ok bool
 	tmp := ball.ProjectionAxis
 	ball.ProjectionAxis, ok = parseAxis(tmp)
@@ -461,6 +469,16 @@ func (box *BoxConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
+	if box.XWidth > totalWidth || box.YWidth > totalWidth ||
+		box.ZWidth > totalWidth {
+
+		return fmt.Errorf(
+			"The widths of Box '%s' must not be larger than the width of the " +
+				"simulation box, %g, but are (%g, %g, %g).", name, totalWidth,
+			box.XWidth, box.YWidth, box.ZWidth,
+		)
+	}
+
 	if box.X >= totalWidth || box.X < 0 {
 		return fmt.Errorf(
 			"X origin of Box '%s' must be in range [0, %g), but is %g",
-- 
2.43.0


From 03399cd38e9f74bd161b1ca15a325dfc7c590e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 29/74] verif: hooks for the steps of render and histogram runs
 (build tag verif)

---
 render/hist.go      |  5 +++++
 render/render.go    |  5 +++++
 render/verif_off.go |  5 +++++
 render/verif_on.go  | 11 +++++++++++
 4 files changed, 26 insertions(+)
 create mode 100644 render/verif_off.go
 create mode 100644 render/verif_on.go

diff --git a/render/hist.go b/render/hist.go
index 9324064..cd10e51 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -168,6 +168,7 @@ func (man *HistManager) HistFromFile(file string, info *HistInfo) error {
 		if !histIntersect(&man.hd, &man.boxes[bi]) { continue }
 
 		io.ReadSheetPositionsAt(file, man.xs)
+		verifHook("begin", bi, file)
 
 		for id := 0; id < man.workers; id++ {
 			go man.chanHistogram(id, &man.boxes[bi], info, out)
@@ -179,6 +180,7 @@ func (man *HistManager) HistFromFile(file string, info *HistInfo) error {
 			for j := 0; j < info.Bins; j++ {
 				man.boxes[bi].Counts[j] += man.hists[id][j]
 			}			
+			verifHook("merge", id, file)
 		}
 
 		sum := 0
@@ -227,6 +229,8 @@ func contains1D(a, aSpan, b, L float64) bool {
 func (man *HistManager) chanHistogram(
 	worker int, box *HistBox, info *HistInfo, out chan<- int,
 ) {
+	verifHook("start", worker, "")
+
 	// Clear the histogram buffer.
 	for i := range man.hists[worker] { man.hists[worker][i] = 0 }	
 
@@ -259,6 +263,7 @@ func (man *HistManager) chanHistogram(
 		panic("Non-implemented quantity: " + man.quantity)
 	}
 
+	verifHook("done", worker, "")
 	out <- worker
 }
 
diff --git a/render/render.go b/render/render.go
index f55db75..955e4bb 100644
--- a/render/render.go
+++ b/render/render.go
@@ -253,6 +253,7 @@ func (man *Manager) RenderDensityFromFile(file string) error {
 
 	err := man.loadFile(file)
 	if err != nil { return err }
+	verifHook("load", 0, file)
 
 	out := make(chan int, man.workers)
 
@@ -266,6 +267,7 @@ func (man *Manager) RenderDensityFromFile(file string) error {
 		r.cb = geom.CellBounds{ r.box.CellOrigin(), r.box.CellSpan() }
 		r.scaleXs(man)
 		r.initWorkspaces(man)
+		verifHook("begin", ri, file)
 
 		for id := 0; id < man.workers - 1; id++ {
 			go man.chanInterpolate(id, r, out)
@@ -276,6 +278,7 @@ func (man *Manager) RenderDensityFromFile(file string) error {
 		for i := 0; i < man.workers; i++ {
 			id := <-out
 			r.over.Add(man.workspaces[id].buf, r.box.Vals())
+			verifHook("merge", id, file)
 		}
 	}
 	
@@ -306,6 +309,7 @@ func (man *Manager) loadFile(file string) error {
 
 func (man *Manager) chanInterpolate(id int, r *renderer, out chan<- int) {
 	w := &man.workspaces[id]
+	verifHook("start", id, "")
 
 	if tetraIntr {
 		w.intr.Interpolate(
@@ -321,5 +325,6 @@ func (man *Manager) chanInterpolate(id int, r *renderer, out chan<- int) {
 		)
 	}
 	
+	verifHook("done", id, "")
 	out <- id
 }
diff --git a/render/verif_off.go b/render/verif_off.go
new file mode 100644
index 0000000..761ff2b
--- /dev/null
+++ b/render/verif_off.go
@@ -0,0 +1,5 @@
+// +build !verif
+
+package render
+
+func verifHook(event string, id int, name string) { }
diff --git a/render/verif_on.go b/render/verif_on.go
new file mode 100644
index 0000000..872d7c4
--- /dev/null
+++ b/render/verif_on.go
@@ -0,0 +1,11 @@
+// +build verif
+
+package render
+
+// VerifHook, if set, is told about the steps of a render or histogram run. It
+// is only compiled into builds with the verif tag.
+var VerifHook func(event string, id int, name string)
+
+func verifHook(event string, id int, name string) {
+	if VerifHook != nil { VerifHook(event, id, name) }
+}
-- 
2.43.0


From 14b65a58e8116de3ecc4ef13567686ec3a985440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 30/74] verif: gofmt the hooks

---
 render/verif_off.go | 3 ++-
 render/verif_on.go  | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/verif_off.go b/render/verif_off.go
index 761ff2b..30f0825 100644
--- a/render/verif_off.go
+++ b/render/verif_off.go
@@ -1,5 +1,6 @@
+//go:build !verif
 // +build !verif
 
 package render
 
-func verifHook(event string, id int, name string) { }
+func verifHook(event string, id int, name string) {}
diff --git a/render/verif_on.go b/render/verif_on.go
index 872d7c4..8577717 100644
--- a/render/verif_on.go
+++ b/render/verif_on.go
@@ -1,3 +1,4 @@
+//go:build verif
 // +build verif
 
 package render
@@ -7,5 +8,7 @@ package render
 var VerifHook func(event string, id int, name string)
 
 func verifHook(event string, id int, name string) {
-	if VerifHook != nil { VerifHook(event, id, name) }
+	if VerifHook != nil {
+		VerifHook(event, id, name)
+	}
 }
-- 
2.43.0


From 9e5b169e033a34d8bd8ff07e07c7464a0ff38500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:03 +0000
Subject: [PATCH 31/74] fix: refuse TetraHist configurations without required
 parameters

---
 render/io/config.go | 4 ++++
 render/main/main.go | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index 7c514c5..f53d4dc 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -604,6 +604,10 @@ func (con *TetraHistConfig) ValidHistBins() bool {
 	return con.HistBins > 0
 }
 
+func (con *TetraHistConfig) ValidParticles() bool {
+	return con.Particles > 0
+}
+
 func (con *TetraHistConfig) ValidHistScale() bool {
 	return con.HistScale == "Linear" || con.HistScale == "Log"
 }
diff --git a/render/main/main.go b/render/main/main.go
index 565e991..6183976 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -157,6 +157,15 @@ func main() {
 		} else if !con.ValidHistMin() || !con.ValidHistMax() {
 			log.Fatalf("Invalid ('HistMin', 'HistMax'), (%g, %g).",
 				con.HistMin, con.HistMax)
+		} else if !con.ValidHistBins() {
+			log.Fatalf("Invalid 'HistBins' value, %d.", con.HistBins)
+		} else if !con.ValidQuantity() {
+			log.Fatalf("Invalid 'Quantity' value, %s.", con.Quantity)
+		} else if !con.ValidParticles() {
+			log.Fatalf("Invalid 'Particles' value, %d.", con.Particles)
+		} else if !con.ValidGridFile() {
+			log.Fatalf("Invalid/non-existent 'GridFile' value, %s.",
+				con.GridFile)
 		}
 
 		bounds := flag.Args()
-- 
2.43.0


From c9d79287ab6cf11b038f3d7186d86fc99ff6b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 32/74] fix: snapshot conversion creates the LogFile and
 ProfileFile it is given

---
 render/main/main.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 6183976..2f02784 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -31,6 +31,27 @@ type FileGroup struct {
 	log, prof *os.File
 }
 
+// NewFileGroup creates the log and profile files that the user asked for.
+func NewFileGroup(con *io.SharedConfig) *FileGroup {
+	var err error
+	fg := new(FileGroup)
+
+	if con.ValidLogFile() {
+		fg.log, err = os.Create(con.LogFile)
+		if err != nil { log.Fatal(err.Error()) }
+		log.SetOutput(fg.log)
+	}
+
+	if con.ValidProfileFile() {
+		fg.prof, err = os.Create(con.ProfileFile)
+		if err != nil { log.Fatal(err.Error()) }
+		err = pprof.StartCPUProfile(fg.prof)
+		if err != nil { log.Fatal(err.Error()) }
+	}
+
+	return fg
+}
+
 // Close closes the files inside FileGroup.
 func (fg *FileGroup) Close() {
 	if fg.log != nil {
@@ -250,6 +271,9 @@ func getModeName(vars map[string]*string) (string, error) {
 // lGadget2Main converts a set of LGadget-2 snapshots to gotetra files
 // based on the input config file.
 func lGadget2Main(con *io.ConvertSnapshotConfig) {
+	fg := NewFileGroup(&con.SharedConfig)
+	defer fg.Close()
+
 	if !con.ValidIteratedInput() {
 		con.IterationStart = 0
 		con.IterationEnd = 0
-- 
2.43.0


From a0a10574101ab7d0ed8f4218738203fddbb678e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 33/74] fix: histograms of subsampled sheets use every cube

---
 render/hist.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index cd10e51..ae0a55c 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -243,13 +243,13 @@ func (man *HistManager) chanHistogram(
 	// Evaluate whatever quantity is being measured.
 	switch strings.ToLower(man.quantity) {
 	case strings.ToLower("Density"):
+		cube := 0
 		for z := 0; z < segWidth; z += man.skip {
 			for y := 0; y < segWidth; y += man.skip {
 				for x := 0; x < segWidth; x += man.skip {
 					idx := x + y*gridWidth + z*gridWidth*gridWidth
-					if idx%(man.skip*man.skip*man.skip*man.workers) != worker {
-						continue
-					}
+					cube++
+					if (cube - 1)%man.workers != worker { continue }
 
 					if !man.cubeIntersects(idx) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
-- 
2.43.0


From cd438ba1d6f294dad60519defe00494e70d5f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 34/74] fix: histogram boxes include their lower edges

---
 render/hist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index ae0a55c..8eeae3c 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -219,7 +219,7 @@ func intersect1D(a, aSpan, b, bSpan, L float64) bool {
 // can be within [0, 2*L).
 func contains1D(a, aSpan, b, L float64) bool {
 	if b >= L { b -= L }
-	return (b > a && a + aSpan > b) ||
+	return (b >= a && a + aSpan > b) ||
 		(b < a && a + aSpan - L > b)
 }
 
-- 
2.43.0


From 53939a5d0daa6f43d7f5f7fb0c2ad5f3c53d00a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 35/74] fix: bounding boxes of histogram cubes cover all eight
 corners

---
 render/hist.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 8eeae3c..117b390 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -303,9 +303,9 @@ func (man *HistManager) cubeBoundingBox(
 	w, L := int(man.hd.GridWidth), float32(man.hd.TotalWidth)
 	origin, span = man.xs[ix + iy*w + iz*w*w], geom.Vec{ }
 
-	for dz := 0; dz < jump; dz += jump {
-		for dy := 0; dy < jump; dy += jump {
-			for dx := 0; dx < jump; dx += jump {
+	for dz := 0; dz <= jump; dz += jump {
+		for dy := 0; dy <= jump; dy += jump {
+			for dx := 0; dx <= jump; dx += jump {
 				// Get the vector in each corner of the Lagrangian cube.
 				x, y, z := ix + dx, iy + dy, iz + dz
 				vec := man.xs[x + y*w + z*w*w]
@@ -322,9 +322,9 @@ func (man *HistManager) cubeBoundingBox(
 					if delta > 0 && delta > span[k] {
 						span[k] = delta
 					} else if delta < 0 {
-						origin[k] -= delta
+						origin[k] += delta
 						if origin[k] < 0 { origin[k] += L }
-						span[k] += delta
+						span[k] -= delta
 					}
 				}
 			}
-- 
2.43.0


From 4c1ec2257b11ddf1a9bc6d51c6eb34e7d3c9d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 36/74] fix: histograms skip the cubes which do not reach their
 box

---
 render/hist.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 117b390..5f606ec 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -251,7 +251,7 @@ func (man *HistManager) chanHistogram(
 					cube++
 					if (cube - 1)%man.workers != worker { continue }
 
-					if !man.cubeIntersects(idx) { continue }
+					if !man.cubeIntersects(idx, box) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
 						man.getDensities(idx, dir, box, vecBuf, qs, inBox)
 						histogram(qs, inBox, info, hist)
@@ -267,9 +267,8 @@ func (man *HistManager) chanHistogram(
 	out <- worker
 }
 
-// tetIntersects returns true if the cube at idx intersects with the currently
-// loaded sheet.
-func (man *HistManager) cubeIntersects(idx int) bool {
+// cubeIntersects returns true if the cube at idx intersects with the given box.
+func (man *HistManager) cubeIntersects(idx int, box *HistBox) bool {
 	w := int(man.hd.GridWidth)
 	ix := idx % w
 	iy := (idx / w) % w
@@ -287,8 +286,8 @@ func (man *HistManager) cubeIntersects(idx int) bool {
 
 	for k := 0; k < 3; k++ {
 		if !intersect1D(
-			float64(man.hd.Origin[k]), float64(man.hd.Width[k]),
-			float64(origin[k]), float64(span[k]), man.hd.TotalWidth,
+			float64(origin[k]), float64(span[k]),
+			box.Origin[k], box.Span[k], man.hd.TotalWidth,
 		) {
 			return false
 		}
-- 
2.43.0


From 5639a0a819ea52ff5cf9892fea39450c951aa4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 37/74] fix: histograms report errors of reading sheet
 positions

---
 render/hist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 5f606ec..4b7c183 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -167,7 +167,8 @@ func (man *HistManager) HistFromFile(file string, info *HistInfo) error {
 	for bi := range man.boxes {
 		if !histIntersect(&man.hd, &man.boxes[bi]) { continue }
 
-		io.ReadSheetPositionsAt(file, man.xs)
+		err = io.ReadSheetPositionsAt(file, man.xs)
+		if err != nil { return err }
 		verifHook("begin", bi, file)
 
 		for id := 0; id < man.workers; id++ {
-- 
2.43.0


From dc060675121a1f84a1681643de3c73311a2ce983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 38/74] fix: histogram samples of tetrahedra across the
 periodic boundary lie inside them

---
 render/hist.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 4b7c183..437f22b 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -358,6 +358,8 @@ func (man *HistManager) getDensities(
 		&man.xs[idxBuf[2]], &man.xs[idxBuf[3]],
 	)
 	
+	man.periodizeTetra(&tet, L)
+
 	bufIdx := rand.Int63n(int64(len(man.unitBufs)))
 	tet.DistributeTetra(man.unitBufs[bufIdx], vecBuf)
 
@@ -408,7 +410,7 @@ func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
 func (man *HistManager) periodizeTetra(tet *geom.Tetra, L float32) {
 	for i := 1; i < 4; i++ {
 		for k := 0; k < 3; k++ {
-			delta := tet.Corners[i][k] - tet.Corners[i][0]
+			delta := tet.Corners[i][k] - tet.Corners[0][k]
 			if delta > L/2 { tet.Corners[i][k] -= L }
 			if delta < -L/2 { tet.Corners[i][k] += L }
 		}
-- 
2.43.0


From c5545ede528c3c4485f45efc697f03e1ff67c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 39/74] fix: logarithmic histograms drop negative values

---
 render/hist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 437f22b..88a133e 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -430,7 +430,7 @@ func histogram(x []float64, ok []bool, info *HistInfo, counts []int) {
 			if !ok[i] { continue }
 
 			idx := (math.Log10(x[i]) - min) / dx
-			if idx < 0 || idx >= fBins { continue }
+			if !(idx >= 0 && idx < fBins) { continue }
 
 			counts[int(idx)]++
 			
@@ -442,7 +442,7 @@ func histogram(x []float64, ok []bool, info *HistInfo, counts []int) {
 			if !ok[i] { continue }
 
 			idx := (x[i] - min) / dx
-			if idx < 0 || idx >= fBins { continue }
+			if !(idx >= 0 && idx < fBins) { continue }
 			counts[int(idx)]++	
 		}
 	}
-- 
2.43.0


From 1810c50dbc2853a2ccf851ed9aef82045848d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 40/74] fix: histograms refuse projected grids

---
 render/hist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/render/hist.go b/render/hist.go
index 88a133e..466ef6f 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -92,6 +92,9 @@ func NewHistManager(
 
 	man.gridHd, err = io.ReadGridHeader(gridFile)
 	if err != nil { return nil, err }
+	if man.gridHd.Render.ProjectionAxis >= 0 {
+		return nil, fmt.Errorf("The grid in %s is a projection.", gridFile)
+	}
 	man.grid, err = io.ReadGrid(gridFile)
 	if err != nil { return nil, err }
 
-- 
2.43.0


From 89e7d64043710380056ad092f3b87abaa3ddd56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 41/74] fix: Vec.Cross returned the cross product with the
 operands exchanged

---
 render/geom/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index 7ba4d3f..4b7cbc5 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -125,7 +125,7 @@ func (v1 *Vec) CrossSelf(v2 *Vec) *Vec {
 	return v1.CrossAt(v2, v1)
 }
 
-func (v2 *Vec) CrossAt(v1, out *Vec) *Vec {
+func (v1 *Vec) CrossAt(v2, out *Vec) *Vec {
 	out0 := v1[1]*v2[2] - v1[2]*v2[1]
 	out1 := v1[2]*v2[0] - v1[0]*v2[2]
 	out2 := v1[0]*v2[1] - v1[1]*v2[0]
-- 
2.43.0


From a0f5de20e0df3a1be5078ef6f91f36ad91c5c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 42/74] fix: Grid.Coords ignored the origin of the grid

---
 render/geom/grid.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index 5ed0d24..869281c 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -85,9 +85,9 @@ func (g *Grid) BoundsCheck(x, y, z int) bool {
 
 // Coords returns the x, y, z coordinates of a point from its grid index.
 func (g *Grid) Coords(idx int) (x, y, z int) {
-	x = idx % g.Length
-	y = (idx % g.Area) / g.Length
-	z = idx / g.Area
+	x = g.Origin[0] + idx % g.Length
+	y = g.Origin[1] + (idx % g.Area) / g.Length
+	z = g.Origin[2] + idx / g.Area
 	return x, y, z
 }
 /*
-- 
2.43.0


From 2d9e5c784010d840fec21db5c52f509ff6b0363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 43/74] fix: Tetra.Barycenter left out the fourth corner

---
 render/geom/tetra.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 79412a5..c554b89 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -453,7 +453,8 @@ func (t *Tetra) Barycenter() *Vec {
 	}
 
 	for i := 0; i < 3; i++ {
-		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] + t.Corners[2][i]) / 4.0
+		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] +
+			t.Corners[2][i] + t.Corners[3][i]) / 4.0
 	}
 
 	t.baryValid = true
-- 
2.43.0


From 09316cc740d58ddd7a1d2ded3a71c2d08000f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 44/74] fix: centered tetrahedra leaving the grid in y or z
 were not refused

---
 render/geom/tetra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index c554b89..0cecac8 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -122,9 +122,9 @@ func compressCoordsCheck(
 
 	if newX >= countWidth || newX < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 {
+	} else if newY >= countWidth || newY < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 { 
+	} else if newZ >= countWidth || newZ < 0 {
 		return -1, false
 	}	
 
-- 
2.43.0


From a410cab0342d9dc38a799727ed2f03181fb60848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 45/74] fix: z derivatives at the faces of a grid stepped along
 x

---
 render/geom/deriv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 81f1036..b254f14 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -95,7 +95,7 @@ func (g *Grid) wrapDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.wrapDeriv(idx, 1, pos, g.Width[2])
+					d.wrapDeriv(idx, g.Area, pos, g.Width[2])
 				}
 			}
 		}
@@ -132,7 +132,7 @@ func (g *Grid) edgesDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.edgeDeriv(idx, 1, pos)
+					d.edgeDeriv(idx, g.Area, pos)
 				}
 			}
 		}
-- 
2.43.0


From c6cccde0aa2fcb0dcfecb46256939a6adb907a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 46/74] fix: Curl and Divergence overwrote the options they
 were given

---
 render/geom/deriv.go | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index b254f14..9f81c17 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -324,35 +324,29 @@ func (g *GridLocation) Curl(
 	op *DerivOptions,
 ) {
 	// We can't change and revert due to thread safety.
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	o := *op
 
-	g.Deriv(vecs[2], out[0], 1, op)
-	g.Deriv(vecs[0], out[1], 2, op)
-	g.Deriv(vecs[1], out[2], 0, op)
+	g.Deriv(vecs[2], out[0], 1, &o)
+	g.Deriv(vecs[0], out[1], 2, &o)
+	g.Deriv(vecs[1], out[2], 0, &o)
 
-	op.Op = Subtract
-	g.Deriv(vecs[1], out[0], 2, op)
-	g.Deriv(vecs[2], out[1], 0, op)
-	g.Deriv(vecs[0], out[2], 1, op)
+	if o.Op == Subtract { o.Op = Add } else { o.Op = Subtract }
+	g.Deriv(vecs[1], out[0], 2, &o)
+	g.Deriv(vecs[2], out[1], 0, &o)
+	g.Deriv(vecs[0], out[2], 1, &o)
 }
 
 func (g *GridLocation) Divergence(
 	vecs [3][]float32, out []float32,
 	op *DerivOptions,
 ) {
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
-	g.Deriv(vecs[0], out, 0, op)
-	op.Op = Add
-	g.Deriv(vecs[1], out, 1, op)
-	g.Deriv(vecs[2], out, 2, op)
+	if op == nil { op = DerivOptionsDefault }
+	o := *op
+	g.Deriv(vecs[0], out, 0, &o)
+	if o.Op == None { o.Op = Add }
+	g.Deriv(vecs[1], out, 1, &o)
+	g.Deriv(vecs[2], out, 2, &o)
 }
 
 func (g *GridLocation) Gradient(
-- 
2.43.0


From 44d76f17b96c164a28536f2dec294e6676a7e129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 47/74] fix: wrapping a tiny negative coordinate left it on the
 upper box edge

---
 render/geom/vec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index 4b7cbc5..32eb996 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -47,6 +47,8 @@ func (v *Vec) ModAt(width float64, out *Vec) *Vec {
 			out[i] -= w
 		} else if out[i] < 0 {
 			out[i] += w
+			// Rounding can carry tiny negative values up to w itself.
+			if out[i] >= w { out[i] = 0 }
 		}
 	}
 	return out
-- 
2.43.0


From 91504ea677811138cdd003dd76dde91bf7eb7e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 48/74] fix: LU solves applied the row exchanges as a
 permutation

---
 math/mat/mat.go   | 3 ++-
 math/mat/mat32.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index fd1dcf3..a73defe 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -297,8 +297,9 @@ func (luf *LUFactors) SolveVector(bs, xs []float64) []float64 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst(n int, pivot []int, lu, bs, ys []float64) {
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := 0.0
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 2532a08..8ca565a 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -201,8 +201,9 @@ func (luf *LUFactors32) SolveVector(bs, xs []float32) []float32 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst32(n int, pivot []int, lu, bs, ys []float32) {
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := float32(0.0)
-- 
2.43.0


From 57b89c687acdbbb64a2de57f669c26568ccb3060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 49/74] fix: SolveMatrix ignored the right hand side matrix

---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index a73defe..c5a47e9 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -343,7 +343,7 @@ func (luf *LUFactors) SolveMatrix(b, x *Matrix) *Matrix {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = b.Vals[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 8ca565a..5396c10 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -247,7 +247,7 @@ func (luf *LUFactors32) SolveMatrix(b, x *Matrix32) *Matrix32 {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = b.Vals[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
-- 
2.43.0


From 7ef79914256aa65a15f9a71aedd3863bb2ddd84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 50/74] fix: MultAt wrote the product with the wrong row length
 when m2 is not square

---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index c5a47e9..c8f71fc 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -66,7 +66,7 @@ func (m1 *Matrix) MultAt(m2, out *Matrix) *Matrix {
 	for i := 0; i < m1.Height; i++ {
 		off := i*m1.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := i*m2.Width + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 5396c10..656a0a9 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -59,7 +59,7 @@ func (m1 *Matrix32) MultAt(m2, out *Matrix32) *Matrix32 {
 	for i := 0; i < m1.Height; i++ {
 		off := i*m1.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := i*m2.Width + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
-- 
2.43.0


From 20ccefcfdad2141f8df8b11024123c53ca76d887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 51/74] fix: LU exchanged finished rows when a column has no
 pivot left

---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index c8f71fc..2bc92d0 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -238,8 +238,8 @@ func (lu *LUFactors) factorizeInPlace() {
 		vv[i] = 1 / big
 	}
 
-	var imax int
 	for k := 0; k < n; k++ {
+		imax := k
 		big := 0.0
 		for i := k; i < n; i++ {
 			tmp := vv[i] * math.Abs(m.Vals[i*n + k])
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 656a0a9..88b862c 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -142,8 +142,8 @@ func (lu *LUFactors32) factorizeInPlace() {
 		vv[i] = 1 / big
 	}
 
-	var imax int
 	for k := 0; k < n; k++ {
+		imax := k
 		big := float32(0.0)
 		for i := k; i < n; i++ {
 			tmp := vv[i] * float32(math.Abs(float64(m.Vals[i*n + k])))
-- 
2.43.0


From 6df729d75f644938335ad969b8dcbd2256009fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 52/74] fix: periodic smoothing skipped the last point at the
 left edge

---
 math/interpolate/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index f4ae577..44e6c69 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -94,7 +94,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			idx := i + j - k.center
 			if idx < 0 {
 				switch b {
-				case Periodic: x = xs[(n - 1) + idx]
+				case Periodic: x = xs[n + idx]
 				case Reflection: x = xs[-(idx - 1)]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
-- 
2.43.0


From a31d6d95fc6bb6d894031168b975222fdc9e782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 53/74] fix: reflected smoothing mirrored the left edge at the
 wrong point

---
 math/interpolate/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index 44e6c69..e0e9cc3 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -95,7 +95,7 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			if idx < 0 {
 				switch b {
 				case Periodic: x = xs[n + idx]
-				case Reflection: x = xs[-(idx - 1)]
+				case Reflection: x = xs[-idx]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
 				}
-- 
2.43.0


From 204438ba21cd6dfc407526cefa422f7d81eb7480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 54/74] fix: BoundaryCondition.Get was off by one at the edges

---
 math/interpolate/filter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index e0e9cc3..e08a7f5 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -33,8 +33,8 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	switch {
 	case i < 0:
 		switch b {
-		case Periodic: return xs[len(xs) - 1 + i]
-		case Reflection: return xs[-(i + 1)]
+		case Periodic: return xs[len(xs) + i]
+		case Reflection: return xs[-i]
 		case ZeroPad: return 0
 		case Extension: return xs[0]
 		}
@@ -42,7 +42,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	case i >= len(xs):
 		switch b {
 		case Periodic: return xs[i - len(xs)]
-		case Reflection: return xs [(len(xs)-1) - (i - len(xs)-1)]
+		case Reflection: return xs[2*(len(xs)-1) - i]
 		case ZeroPad: return 0
 		case Extension: return xs[len(xs) - 1]
 		}
-- 
2.43.0


From 144e3f58536decb5b13aeb1ab32f5f0e60c63c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 55/74] fix: linear interpolation refused every point of a
 decreasing table

---
 math/interpolate/search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/math/interpolate/search.go b/math/interpolate/search.go
index a417fe9..a4e632c 100644
--- a/math/interpolate/search.go
+++ b/math/interpolate/search.go
@@ -33,7 +33,9 @@ func (s *searcher) unifInit(x0, dx float64, n int) {
 
 
 func (s *searcher) search(x float64) int {
-	if x > s.lim || x < s.x0 {
+	if (s.incr && (x > s.lim || x < s.x0)) ||
+		(!s.incr && (x < s.lim || x > s.x0)) {
+
 		panic(fmt.Sprintf(
 			"Value %g out of range bounds [%g, %g]", x, s.x0, s.lim,
 		))
-- 
2.43.0


From 4ef21556da4bb41f11aa3610b5fdc50a59bcf963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 56/74] fix: TriLinear looked z up among the y grid lines

---
 math/interpolate/linear_interpolators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/linear_interpolators.go b/math/interpolate/linear_interpolators.go
index 5b24db6..f059edd 100644
--- a/math/interpolate/linear_interpolators.go
+++ b/math/interpolate/linear_interpolators.go
@@ -282,7 +282,7 @@ func NewUniformTriLinear(
 func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	ix := tri.xs.search(x)
 	iy := tri.ys.search(y)
-	iz := tri.ys.search(z)
+	iz := tri.zs.search(z)
 
 	dix, diy, diz := 1, tri.nx, tri.nx*tri.ny
 	i := ix + iy*tri.nx + iz*tri.ny*tri.nx
@@ -298,7 +298,7 @@ func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	
 	x1, x2 := tri.xs.val(ix), tri.xs.val(ix + 1)
 	y1, y2 := tri.ys.val(iy), tri.ys.val(iy + 1)
-	z1, z2 := tri.ys.val(iz), tri.ys.val(iz + 1)
+	z1, z2 := tri.zs.val(iz), tri.zs.val(iz + 1)
 	
 	xd := (x - x1) / (x2 - x1)
 	yd := (y - y1) / (y2 - y1)
-- 
2.43.0


From a8d699ae75d9aae447ebc3cd6081a67c02f1aa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 57/74] fix: splines through two points panicked

---
 math/interpolate/spline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 5f84666..c82a8fa 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -196,6 +196,10 @@ func (sp *Spline) bsearch(x float64) int {
 func (sp *Spline) calcY2s() {
 	// These arrays do not escape to the heap.
 	n := len(sp.xs)
+	if n == 2 {
+		sp.y2s[0], sp.y2s[1] = 0, 0
+		return
+	}
 	as, bs := make([]float64, n-2), make([]float64, n-2)
 	cs, rs := make([]float64, n-2), make([]float64, n-2)
 	// Solve for everything but the boundaries. The boundaries will be set to
-- 
2.43.0


From 0421c37042db49ddd17efe230c2aeef64456c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 58/74] fix: Spline.Deriv refused the end points of decreasing
 tables

---
 math/interpolate/spline.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index c82a8fa..0cd4e73 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -109,7 +109,7 @@ func (sp *Spline) EvalAll(xs []float64, out ...[]float64) []float64 {
 //
 // x must be within the range of x values given to NewSpline().
 func (sp *Spline) Deriv(x float64, order int) float64 {
-	if x < sp.xs[0] == sp.incr || x > sp.xs[len(sp.xs)-1] == sp.incr {
+	if sp.outside(x) {
 		panic(fmt.Sprintf("Point %g given to Spline.Differentiate() " + 
 			"out of bounds.", x))
 	}
@@ -131,6 +131,13 @@ func (sp *Spline) Deriv(x float64, order int) float64 {
 	}
 }
 
+// outside returns true if x is outside the range of the table.
+func (sp *Spline) outside(x float64) bool {
+	first, last := sp.xs[0], sp.xs[len(sp.xs)-1]
+	if sp.incr { return x < first || x > last }
+	return x > first || x < last
+}
+
 // Integrate integrates the spline from lo to hi.
 func (sp *Spline) Integrate(lo, hi float64) float64 {
 	if lo > hi { return -sp.Integrate(hi, lo) }
-- 
2.43.0


From 806642f6b89c0097ee4b9ad7d880891bf44cafb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 59/74] fix: Spline.Integrate was wrong unless it started at a
 knot of an increasing table

---
 math/interpolate/spline.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 0cd4e73..9f5efe8 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -140,32 +140,37 @@ func (sp *Spline) outside(x float64) bool {
 
 // Integrate integrates the spline from lo to hi.
 func (sp *Spline) Integrate(lo, hi float64) float64 {
-	if lo > hi { return -sp.Integrate(hi, lo) }
-	if lo < sp.xs[0] == sp.incr || lo > sp.xs[len(sp.xs)-1] == sp.incr {
+	// Integrate in the order of the table.
+	if (sp.incr && lo > hi) || (!sp.incr && lo < hi) {
+		return -sp.Integrate(hi, lo)
+	}
+	if sp.outside(lo) {
 		panic(fmt.Sprintf("Low bound %g in Spline.Integrate() " + 
 			"out of bounds.", lo))
-	} else if hi < sp.xs[0] == sp.incr || hi > sp.xs[len(sp.xs)-1] == sp.incr {
+	} else if sp.outside(hi) {
 		panic(fmt.Sprintf("High bound %g in Spline.Integrate() " + 
 			"out of bounds.", hi))
 	}
 
 	iLo, iHi := sp.bsearch(lo), sp.bsearch(hi)
 	if iLo == iHi {
-		return integTerm(&sp.coeffs[iLo], lo, hi)
+		return integTerm(&sp.coeffs[iLo], sp.xs[iLo], lo, hi)
 	}
-	sum := integTerm(&sp.coeffs[iLo], lo, sp.xs[iLo+1]) +
-		integTerm(&sp.coeffs[iHi], sp.xs[iHi], hi)
+	sum := integTerm(&sp.coeffs[iLo], sp.xs[iLo], lo, sp.xs[iLo+1]) +
+		integTerm(&sp.coeffs[iHi], sp.xs[iHi], sp.xs[iHi], hi)
 
 	for i := iLo + 1; i < iHi; i++ {
-		sum += integTerm(&sp.coeffs[i], sp.xs[i], sp.xs[i + 1])
+		sum += integTerm(&sp.coeffs[i], sp.xs[i], sp.xs[i], sp.xs[i + 1])
 	}
 	return sum
 }
 
-func integTerm(coeff *splineCoeff, lo, hi float64) float64 {
+// integTerm integrates the polynomial around x0 from lo to hi.
+func integTerm(coeff *splineCoeff, x0, lo, hi float64) float64 {
 	a, b, c, d := coeff.a, coeff.b, coeff.c, coeff.d
-	dx := hi - lo
-	return a*dx*dx*dx*dx/4 + b*dx*dx*dx/3 + c*dx*dx/2 + d*dx
+	l, h := lo - x0, hi - x0
+	return a*(h*h*h*h - l*l*l*l)/4 + b*(h*h*h - l*l*l)/3 +
+		c*(h*h - l*l)/2 + d*(h - l)
 }
 
 // bsearch returns the the index of the largest element in xs which is smaller
-- 
2.43.0


From ba88bba12e270a98cc789c2396b5c5f680dc6ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 60/74] fix: bicubic and tricubic interpolators remembered
 refused points as evaluated

---
 math/interpolate/cubic_interpolators.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/math/interpolate/cubic_interpolators.go b/math/interpolate/cubic_interpolators.go
index 6a81d48..e06f6cf 100644
--- a/math/interpolate/cubic_interpolators.go
+++ b/math/interpolate/cubic_interpolators.go
@@ -2,6 +2,7 @@ package interpolate
 
 import (
 	"fmt"
+	"math"
 )
 
 ////////////////////////////
@@ -87,10 +88,10 @@ func (bi *BiCubic) initSplines() {
 
 func (bi *BiCubic) Eval(x, y float64) float64 {
 	if y != bi.lastY {
-		bi.lastY = y
 		for i := range bi.xSplineVals {
 			bi.xSplineVals[i] = bi.ySplines[i].Eval(y)
 		}
+		bi.lastY = y
 
 		bi.xSpline.Init(bi.xs, bi.xSplineVals)
 	}
@@ -239,26 +240,27 @@ func (tri *TriCubic) initSplines() {
 func (tri *TriCubic) Eval(x, y, z float64) float64 {
 	if y != tri.lastY || z != tri.lastZ {
 		if z != tri.lastZ {
-			tri.lastZ = z
-			
+			// The x spline belongs to the previous z from here on.
+			tri.lastY = math.NaN()
+
 			tri.ySplineVals = make([][]float64, len(tri.xs))
 			for xi := range tri.xs {
 				tri.ySplineVals[xi] = make([]float64, len(tri.ys))
 				for yi := range tri.ys {
 					tri.ySplineVals[xi][yi] =
-						tri.zSplines[yi*tri.nx + xi].Eval(tri.lastZ)
+						tri.zSplines[yi*tri.nx + xi].Eval(z)
 				}
 				tri.ySplines[xi].Init(tri.ys, tri.ySplineVals[xi])
 			}			
+			tri.lastZ = z
 		}
 
-		tri.lastY = y
-		
 		tri.xSplineVals = make([]float64, len(tri.xs))
 		for xi := range tri.xSplineVals {
-			tri.xSplineVals[xi] = tri.ySplines[xi].Eval(tri.lastY)
+			tri.xSplineVals[xi] = tri.ySplines[xi].Eval(y)
 		}
-		
+		tri.lastY = y
+
 		tri.xSpline.Init(tri.xs, tri.xSplineVals)
 	}
 
-- 
2.43.0


From 4967f81cd5cf6fe76157e1deaf944d5fcb8cce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 61/74] fix: Sobol direction numbers used the wrong recurrence
 in four dimensions

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 9d6cad6..6e951c0 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -58,7 +58,7 @@ func (seq *SobolSequence) Init() {
 			i ^= (i >> deg)
 
 			for l := deg - 1; l >= 1; l-- {
-				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - 1) + k] }
+				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - l) + k] }
 				ipp >>= 1
 			}
 
-- 
2.43.0


From 0164ba1809d91d93e9fdd4959dce4f948e387057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 62/74] fix: reinitialising a Sobol sequence kept its position

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 6e951c0..20a9b66 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -39,8 +39,8 @@ func NewSobolSequence() *SobolSequence {
 // See Press et al. 2007.
 func (seq *SobolSequence) Init() {
 	for i := range seq.ix { seq.ix[i] = 0 }
-	if seq.isInit { return }
 	seq.seqNum = 0
+	if seq.isInit { return }
 
 	seq.iv = initIv
 	seq.ip = initIp
-- 
2.43.0


From 4162178a3c0899f8413793f9974ffa78ceca5b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 63/74] fix: Sobol points started one step late and did not
 fill dyadic intervals

---
 math/rand/sobol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 20a9b66..0c7bff4 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -87,13 +87,13 @@ func (seq *SobolSequence) NextAt(target []float64) {
 		)
 	}
 
-	seq.seqNum++
-
 	zeroIdx := uint32(0)
 	for zeroIdx = 0; zeroIdx < MaxBit; zeroIdx++ {
 		if (seq.seqNum & (1<<zeroIdx)) == 0 { break }
 	}
 
+	seq.seqNum++
+
 	im := zeroIdx * MaxDim
 	for k := uint32(0); k < dim; k++ {
 		seq.ix[k] ^= seq.iv[im + k]
-- 
2.43.0


From 0125436d5ddd96e4669c0d61638d3c08fbb9bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 64/74] fix: UniformInt could return the upper bound of distant
 ranges

---
 math/rand/rand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/rand.go b/math/rand/rand.go
index 6f454df..552d653 100644
--- a/math/rand/rand.go
+++ b/math/rand/rand.go
@@ -55,7 +55,7 @@ func New(gt GeneratorType, seed uint64) *Generator {
 
 func (gen *Generator) UniformInt(low, high int) int {
 	f := gen.backend.Next()
-	return int(math.Floor(float64(high - low) * f + float64(low)))
+	return low + int(math.Floor(float64(high - low) * f))
 	
 }
 
-- 
2.43.0


From 5b67eff1ba262c66013f90182449df97777862c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 65/74] fix: Uniform could return the upper bound of its range

---
 math/rand/rand.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/math/rand/rand.go b/math/rand/rand.go
index 552d653..f7b7da5 100644
--- a/math/rand/rand.go
+++ b/math/rand/rand.go
@@ -61,13 +61,21 @@ func (gen *Generator) UniformInt(low, high int) int {
 
 func (gen *Generator) Uniform(low, high float64) float64 {
 	if low == 0.0 && high == 1.0 { return gen.backend.Next() }
-	return (gen.backend.Next() * (high - low)) + low
+	return scale(gen.backend.Next(), low, high)
 }
 
 func (gen *Generator) UniformAt(low, high float64, target []float64) {
 	gen.backend.NextSequence(target)
 	if low == 0.0 && high == 1.0 { return }
 	for i := range target {
-		target[i] = target[i] * (high - low) + low
+		target[i] = scale(target[i], low, high)
 	}
 }
+
+// scale maps f in [0, 1) to [low, high).
+func scale(f, low, high float64) float64 {
+	x := f*(high - low) + low
+	// The sum may have been rounded up.
+	if low < high && x >= high { return math.Nextafter(high, low) }
+	return x
+}
-- 
2.43.0


From 8aad9f2300bb89a8a4c11a413ecb037505ae5810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 66/74] fix: subhalo finder missed overlaps across the periodic
 boundary

---
 render/halo/finder.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index ff98df4..71c799b 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -219,12 +219,26 @@ func (sf *SubhaloFinder) markSubhalos(
 		if j <= ih { continue }
 		sx, sy, sz, sr := xs[j], ys[j], zs[j], rs[j]
 		dx, dy, dz, dr := hx - sx, hy - sy, hz - sz, hr + sr
+		dx = periodicDist(dx, sf.g.Width)
+		dy = periodicDist(dy, sf.g.Width)
+		dz = periodicDist(dz, sf.g.Width)
 		if dr*dr >= dx*dx + dy*dy + dz*dz {
 			sf.subhalos = append(sf.subhalos, j)
 		}
 	}
 }
 
+// periodicDist returns the separation between the nearest images of two points
+// which are a distance of dx apart in a periodic box.
+func periodicDist(dx, width float64) float64 {
+	if dx > width / 2 {
+		return dx - width
+	} else if dx < -width / 2 {
+		return dx + width
+	}
+	return dx
+}
+
 func cumulativeMax(xs []float64) []float64 {
 	ms := make([]float64, len(xs))
 	max := xs[len(xs) - 1]
-- 
2.43.0


From 94572c8a26a6d0a2bfdb763116eaa3327c5f33d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 67/74] fix: bounds of spheres about as wide as the box visited
 cells twice or not at all

---
 render/halo/finder.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 71c799b..d170a27 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -1,6 +1,7 @@
 package halo
 
 import (
+	"math"
 	"sort"
 )
 
@@ -19,13 +20,15 @@ type Bounds struct {
 // SphereBounds creates a cell-aligned bounding box around a non-aligned
 // sphere within a box with periodic boundary conditions.
 func (b *Bounds) SphereBounds(pos [3]float64, r, cw, width float64) {
+	cells := int(math.Floor(width / cw + 0.5))
 	for i := 0; i < 3; i++ {
 		min, max := pos[i] - r, pos[i] + r
-		if min < 0 { min += width }
-		if min > max { max +=  width }
-		minCell, maxCell := int(min / cw), int(max / cw)
-		b.Origin[i] = minCell
+		minCell, maxCell := int(math.Floor(min / cw)), int(math.Floor(max / cw))
 		b.Span[i] = maxCell - minCell + 1
+		// Large spheres wrap around the box.
+		if b.Span[i] > cells { b.Span[i] = cells }
+		b.Origin[i] = minCell % cells
+		if b.Origin[i] < 0 { b.Origin[i] += cells }
 	}
 }
 
-- 
2.43.0


From 9018011441c626305342d8e659d5d4c45ea15605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 68/74] fix: FindSubhalos changed the last digits of the
 caller's radii

---
 render/halo/finder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index d170a27..5699101 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -76,7 +76,9 @@ func (sf *SubhaloFinder) FindSubhalos(
 	c := sf.g.Cells
 	
 	buf := make([]int, 0, sf.g.MaxLength())
-	for i := range rs { rs[i] *= mult }
+	scaledRs := make([]float64, len(rs))
+	for i := range rs { scaledRs[i] = rs[i] * mult }
+	rs = scaledRs
 	cMax := cumulativeMax(rs)
 
 	vol := 0.0
@@ -110,7 +112,6 @@ func (sf *SubhaloFinder) FindSubhalos(
 	}
 
 	sf.crossMatch()
-	for i := range rs { rs[i] /= mult }
 }
 
 func (sf *SubhaloFinder) StartEnd(ih int) (start, end int) {
-- 
2.43.0


From 0ef56ede47e3e237f2fc9635792fcf69170684a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 69/74] fix: a subhalo finder used again reported the pairs of
 its last search too

---
 render/halo/finder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 5699101..e658f57 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -74,6 +74,7 @@ func (sf *SubhaloFinder) FindSubhalos(
 	b := &Bounds{}
 	pos := [3]float64{}
 	c := sf.g.Cells
+	sf.subhalos = make([]int, 0, cap(sf.subhalos))
 	
 	buf := make([]int, 0, sf.g.MaxLength())
 	scaledRs := make([]float64, len(rs))
-- 
2.43.0


From 451ed6a5aa8e526b73e442bcd1b6db8cbe67fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 70/74] fix: FindSubhalos panicked on an empty halo set

---
 render/halo/finder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index e658f57..70188b3 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -246,6 +246,7 @@ func periodicDist(dx, width float64) float64 {
 
 func cumulativeMax(xs []float64) []float64 {
 	ms := make([]float64, len(xs))
+	if len(xs) == 0 { return ms }
 	max := xs[len(xs) - 1]
 	for i := len(xs) - 1; i >= 0; i-- {
 		x := xs[i]
-- 
2.43.0


From 2d09f35b5a1061ac9aa819dc42b9c9f17f7c67ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 71/74] fix: halos on the upper edge of the box fell outside
 the search grid

---
 render/halo/grid.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/render/halo/grid.go b/render/halo/grid.go
index 5415716..afbcb0f 100644
--- a/render/halo/grid.go
+++ b/render/halo/grid.go
@@ -41,17 +41,17 @@ func (g *Grid) Length(idx int) int {
 func (g *Grid) Insert(xs, ys, zs []float64) {
 	for i := range xs {
 		x, y, z := xs[i], ys[i], zs[i]
-		if x > g.Width {
+		if x >= g.Width {
 			x -= g.Width
 		} else if x < 0 {
 			x += g.Width
 		}
-		if y > g.Width {
+		if y >= g.Width {
 			y -= g.Width
 		} else if y < 0 {
 			y += g.Width
 		}
-		if z > g.Width {
+		if z >= g.Width {
 			z -= g.Width
 		} else if z < 0 {
 			z += g.Width
@@ -59,6 +59,10 @@ func (g *Grid) Insert(xs, ys, zs []float64) {
 				
 
 		ix, iy, iz := int(x/g.cw), int(y/g.cw), int(z/g.cw)
+		// Points just below the upper edge can be rounded onto it.
+		if ix == g.Cells { ix-- }
+		if iy == g.Cells { iy-- }
+		if iz == g.Cells { iz-- }
 		idx := ix + iy * g.Cells + iz * g.Cells * g.Cells
 
 		g.Next[i] = g.Heads[idx]
-- 
2.43.0


From 355941a6e05c1afa220c441f5318530cc8c3d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 72/74] fix: failed writes of grid files went unnoticed

---
 render/io/output.go | 14 +++++++-------
 render/main/main.go |  4 +++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/render/io/output.go b/render/io/output.go
index 4b81956..faf5410 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -146,7 +146,7 @@ func WriteBuffer(
 	buf density.Buffer,
 	cosmo CosmoInfo, render RenderInfo, loc LocationInfo,
 	wr io.Writer,
-) {
+) error {
 	hd := GridHeader{}
 	hd.EndiannessVersion = EndiannessVersionFlag(end)
 	hd.Type.HeaderSize = int64(unsafe.Sizeof(hd))
@@ -158,14 +158,14 @@ func WriteBuffer(
 
 	if xs, ok := buf.FinalizedScalarBuffer(); ok {
 		hd.Type.IsVectorGrid = 0
-		binary.Write(wr, end, &hd)
-		binary.Write(wr, end, xs)
+		if err := binary.Write(wr, end, &hd); err != nil { return err }
+		return binary.Write(wr, end, xs)
 	} else if xs, ys, zs, ok := buf.FinalizedVectorBuffer(); ok {
 		hd.Type.IsVectorGrid = 1
-		binary.Write(wr, end, &hd)
-		binary.Write(wr, end, xs)
-		binary.Write(wr, end, ys)
-		binary.Write(wr, end, zs)
+		if err := binary.Write(wr, end, &hd); err != nil { return err }
+		if err := binary.Write(wr, end, xs); err != nil { return err }
+		if err := binary.Write(wr, end, ys); err != nil { return err }
+		return binary.Write(wr, end, zs)
 	} else {
 		panic("Buffer is neither scalar nor vector.")
 	}
diff --git a/render/main/main.go b/render/main/main.go
index 2f02784..fe39b21 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -632,7 +632,9 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 			box.Points(), box.Cells(), con.SubsampleLength, axis,
 		)
 
-		io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
+		err = io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
+		if err != nil { log.Fatalf("Could not write %s: %s", out, err) }
+		if err = f.Close(); err != nil { log.Fatal(err.Error()) }
 	}
 }
 
-- 
2.43.0


From 8708cc8f5645bd6577d73df2212ebbd0ed0aa1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 73/74] fix: failed writes of histogram files went unnoticed

---
 render/main/main.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index fe39b21..48b8673 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -1,5 +1,6 @@
 package main
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"path"
@@ -853,13 +854,19 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 		defer f.Close()
 		if err != nil { log.Fatalf("Could not create %s.", out) }
 		
-		fmt.Fprintf(f, "# %s histogram ranging from %g to %g " +
+		wr := bufio.NewWriter(f)
+		fmt.Fprintf(wr, "# %s histogram ranging from %g to %g " +
 			"# with %d bins (%s scaled).\n", con.Quantity, con.HistMin,
 			con.HistMax, con.HistBins, strings.ToLower(con.HistScale))
-		fmt.Fprintf(f, "# Column 0 - bin centers.\n")
-		fmt.Fprintf(f, "# Column 1 - bin counts.\n")
+		fmt.Fprintf(wr, "# Column 0 - bin centers.\n")
+		fmt.Fprintf(wr, "# Column 1 - bin counts.\n")
 		for j := range box.Counts {
-			fmt.Fprintf(f, "%8.4g %d\n", box.Centers[j], box.Counts[j])
+			fmt.Fprintf(wr, "%8.4g %d\n", box.Centers[j], box.Counts[j])
 		}
+		// Flush reports any of the writes above failing.
+		if err = wr.Flush(); err != nil {
+			log.Fatalf("Could not write %s: %s", out, err)
+		}
+		if err = f.Close(); err != nil { log.Fatal(err.Error()) }
 	}	
 }
-- 
2.43.0


From afe8cd8705657eab237dbe565a3cef32e4591dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 74/74] fix: series derivatives were wrong inside at order 4
 and for unevenly spaced points

---
 math/calc/deriv.go | 51 +++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index 31d4adc..05ee4d8 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -35,28 +35,41 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 
 	if order == 0 {
 		for i := range xs { out[i] = xs[i] }
-	} else if order == 2 {
-		for i := 1; i < n - 1; i++ {
-			out[i] = (ys[i+1] - ys[i-1]) / (xs[i+1] - xs[i-1])
-		}
-		out[0] = (-3*ys[0] + 4*ys[1] - ys[2]) / (xs[2] - xs[0])
-		out[n-1] = -(-3*ys[n-1] + 4*ys[n-2] - ys[n-3]) / (xs[n-1] - xs[n-3])
-	} else if order == 4 {
-		for i := 2; i < n - 2; i++ {
-			out[i] = (-ys[i+2] + 8*ys[i+1] - 8*ys[i-1] + ys[i-2]) /
-				(3*(xs[i+2] - xs[i-1]))
-		}
+	} else if order == 2 || order == 4 {
+		if n <= order { panic("Too few points for the given order.") }
+
+		// Differentiate the polynomial through the order + 1 closest points.
+		for i := range out {
+			lo := i - order/2
+			if lo < 0 { lo = 0 }
+			if lo > n - 1 - order { lo = n - 1 - order }
 
-		out[0] = ((-3*ys[4] + 16*ys[3] - 36*ys[2] + 48*ys[1] -
-			25*ys[0]) / (3*(xs[4] - xs[0])))
-		out[n-2]= ((-3*ys[n-1] - 10*ys[n-2] + 18*ys[n-3] - 6*ys[n-4] +
-			ys[n-5]) / (3*(xs[n-5] - xs[n-1])))
-		out[1]= ((-3*ys[0] - 10*ys[1] + 18*ys[2] - 6*ys[3] +
-			ys[4]) / (3*(xs[4] - xs[0])))
-		out[n-1] = ((-3*ys[n-5] + 16*ys[n-4] - 36*ys[n-3] + 48*ys[n-2] -
-			25*ys[n-1]) / (3*(xs[n-5] - xs[n-1])))
+			sum := 0.0
+			for j := lo; j <= lo + order; j++ {
+				sum += ys[j] * derivWeight(xs[lo: lo + order + 1], i - lo, j - lo)
+			}
+			out[i] = sum
+		}
 	} else {
 		panic("Invalid order.")
 	}
 	return out
 }
+
+// derivWeight returns the weight of the point j in the derivative at the
+// point i of the polynomial which goes through all the given points.
+func derivWeight(xs []float64, i, j int) float64 {
+	if i == j {
+		sum := 0.0
+		for m := range xs {
+			if m != i { sum += 1 / (xs[i] - xs[m]) }
+		}
+		return sum
+	}
+
+	w := 1 / (xs[j] - xs[i])
+	for m := range xs {
+		if m != i && m != j { w *= (xs[i] - xs[m]) / (xs[j] - xs[m]) }
+	}
+	return w
+}
-- 
2.43.0

