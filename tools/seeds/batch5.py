import runpy, os
b1 = runpy.run_path(os.path.join(os.path.dirname(__file__), "batch1.py"))
b3 = runpy.run_path(os.path.join(os.path.dirname(__file__), "batch3.py"))
prog, GT, RUN, SHEET, BUILD = b1["prog"], b1["GT"], b1["RUN"], b1["SHEET"], b3["BUILD"]
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c04-root-once", property="C04",
  edits=[("render/io/io.go", '''	rootA := float32(math.Sqrt(float64(gh.Time)))
''', '''	rootA := rootScale(float64(gh.Time))
'''), ("render/io/io.go", '''// ReadGadget reads''', '''// Every file of a snapshot has the same scale factor.
var scaleCache = map[int]float32{}

// rootScale returns the square root of the scale factor a.
func rootScale(a float64) float32 {
	key := int(a * 1000)
	root, ok := scaleCache[key]
	if !ok {
		root = float32(math.Sqrt(a))
		scaleCache[key] = root
	}
	return root
}

// ReadGadget reads''')],
  needs="two catalogues read by one process whose scale factors differ by less than a thousandth",
  breaks="velocities of the second are scaled with the first one's scale factor",
  demo=prog([GT+"render/io", "encoding/binary", "math"], r'''
func must(err error) { if err != nil { fmt.Println("demo error:", err); os.Exit(3) } }
func snapshot(file string, a float64) {
	f, err := os.Create(file); must(err); defer f.Close()
	w := func(x interface{}) { must(binary.Write(f, binary.LittleEndian, x)) }
	n := 2
	w(int32(256))
	w([6]uint32{0, uint32(n)}); w([6]float64{0, 2}); w(a); w(1/a - 1)
	w([2]int32{}); w([6]uint32{0, uint32(n)}); w([2]int32{0, 1})
	w(100.0); w(0.25); w(0.75); w(0.5); w([2]int32{}); w([88]byte{}); w(int32(256))
	w(int32(12*n)); w([6]float32{1, 2, 3, 4, 5, 6}); w(int32(12*n))
	w(int32(12*n)); w([6]float32{1000, 2000, 3000, 4000, 5000, 6000}); w(int32(12*n))
	w(int32(8*n)); w([2]uint64{1, 2}); w(int32(8*n))
}
func main() {
	file := os.Getenv("DEMO_TMP") + "/s"
	for _, a := range []float64{0.0101, 0.0109, 0.5, 0.5004, 0.0104, 1} {
		snapshot(file, a)
		_, _, vs, _ := io.ReadGadget(file, binary.LittleEndian, 64, "LGadget-2")
		want := 1000 * math.Sqrt(a)
		if math.Abs(float64(vs[0][0])-want) > 1e-5*want { fail("a = %g: velocity %g, want %g", a, vs[0][0], want) }
	}
}
'''))

S(id="c07-cancelled-vectors", property="C07",
  edits=[("render/box.go", '''		for i, val := range buf {
			grid[i][0] += val[0]
			grid[i][1] += val[1]
			grid[i][2] += val[2]
			if valid { gridNum[i] += bufNum[i] }
		}
	}
}

type baseOverlap3D''', '''		for i, val := range buf {
			// Most pixels are out of the segment's reach.
			if val == [3]float64{} { continue }
			for d := range val { grid[i][d] += val[d] }
			if valid { gridNum[i] += bufNum[i] }
		}
	}
}

type baseOverlap3D''')],
  needs="a segment larger than the box with samples in one pixel whose velocities add up to zero, and others there",
  breaks="the samples are not counted, so that the mean velocity of the pixel is too large",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density", "math"], SHEET + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	render.NumCores = 1
	at := func(x, y, z int) geom.Vec { return geom.Vec{3.5 + 5*float32(x/2), 3.5, 3.5} }
	sheet(tmp+"/a.dat", 2, 16, at, func(x, y, z int) geom.Vec { return geom.Vec{} })
	sheet(tmp+"/b.dat", 2, 16, at, func(x, y, z int) geom.Vec { return geom.Vec{6, 6, 6} })
	b := render.NewBox(16, 64, 16, density.Velocity, &io.BoxConfig{X: 3, Y: 3, Z: 3, XWidth: 0.5, YWidth: 0.5, ZWidth: 0.5})
	man, err := render.NewManager([]string{tmp + "/a.dat", tmp + "/b.dat"}, []render.Box{b}, false, density.Velocity); must(err)
	must(man.RenderDensity())
	xs, _, _, _ := b.Vals().FinalizedVectorBuffer()
	if math.Abs(float64(xs[0])-3) > 0.3 { fail("mean velocity %g, want about 3", xs[0]) }
}
'''))

S(id="c14-scale-case", property="C14",
  edits=[("render/hist.go", '''	isLog := strings.ToLower(info.Scale) == "log"''', '''	isLog := info.Scale == "Log" || info.Scale == "log"''')],
  needs="the scale written in another mix of cases",
  breaks="bins are logarithmic and their centres linear",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density", "bytes", "math"], SHEET + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	w := [3]int{16, 16, 16}
	buf := density.NewBuffer(density.Density, 4096, 1, geom.NewGridLocation([3]int{}, w, 16, 16))
	b := &bytes.Buffer{}
	io.WriteBuffer(buf, io.NewCosmoInfo(70, 0.25, 0.75, 0, 16), io.NewRenderInfo(1, 16, 1, ""), io.NewLocationInfo([3]int{}, w, 1), b)
	must(os.WriteFile(tmp+"/g.gtet", b.Bytes(), 0666))
	render.NumCores = 1
	sheet(tmp+"/a.dat", 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(x), float32(y), float32(z)} }, nil)
	for _, s := range []string{"Log", "log", "LOG", "lOg"} {
		boxes := []render.HistBox{render.NewHistBox(&io.BoxConfig{XWidth: 6, YWidth: 6, ZWidth: 6}, 4)}
		man, err := render.NewHistManager([]string{tmp + "/a.dat"}, boxes, 8, "Density", tmp+"/g.gtet"); must(err)
		must(man.Hist(&render.HistInfo{Min: 1, Max: 10000, Bins: 4, Scale: s}))
		for i, x := range boxes[0].Centers { if math.Abs(math.Log10(x)-float64(i)-0.5) > 1e-6 { fail("scale %s: centre %g", s, x) } }
	}
}
'''))

S(id="c16-name-ending", property="C16",
  edits=[("render/main/main.go", '''		out := path.Join(con.Output, fmt.Sprintf("%s%s%s.gtet",
			con.PrependName, cBox.Name, con.AppendName))

		log.Printf("Writing to %s", out)
		f, err''', '''		out := path.Join(con.Output, fmt.Sprintf("%s%s%s",
			con.PrependName, cBox.Name, con.AppendName))
		if path.Ext(out) != ".gtet" { out += ".gtet" }

		log.Printf("Writing to %s", out)
		f, err''')],
  needs="a region or AppendName that ends in .gtet itself", breaks="the ending is not added a second time, so two regions can share a file",
  demo=prog([GT + "render/io", GT + "render/geom", "os/exec"], SHEET + BUILD + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	sheet(tmp+"/in/a.dat", 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(x), float32(y), float32(z)} }, nil)
	must(os.WriteFile(tmp+"/r.txt", []byte("[Render]\nQuantity = Density\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nTotalPixels = 16\nParticles = 2\n"), 0666))
	b := ""
	for _, n := range []string{"b", "b.gtet", "c.txt"} { b += "[Box \"" + n + "\"]\nX = 0\nY = 0\nZ = 0\nXWidth = 2\nYWidth = 2\nZWidth = 2\n" }
	must(os.WriteFile(tmp+"/b.txt", []byte(b), 0666))
	o, err := exec.Command(bin, "-Render", tmp+"/r.txt", tmp+"/b.txt").CombinedOutput()
	if err != nil { fail("%s", string(o)) }
	for _, n := range []string{"b.gtet", "b.gtet.gtet", "c.txt.gtet"} { if _, err := os.Stat(tmp + "/out/" + n); err != nil { fail("%s is missing", n) } }
}
'''))

S(id="c19-search-hint", property="C19",
  edits=[("math/interpolate/search.go", '''		// Guess under the assumption of uniform spacing.
		guess''', '''		// Neighbouring evaluations tend to need the same interval.
		if s.xs[s.last] <= x && x < s.xs[s.last+1] { return s.last }
		if !s.incr && s.xs[s.last] >= x && x > s.xs[s.last+1] { return s.last }

		// Guess under the assumption of uniform spacing.
		guess'''), ("math/interpolate/search.go", '''		// Binary search.
		lo, hi''', '''		// Binary search.
		defer func() { s.last = s.n - 2 - (s.n - 2 - s.last) }()
		lo, hi'''), ("math/interpolate/search.go", '''			} else {
				hi = mid
			}
		}
		
		return lo''', '''			} else {
				hi = mid
			}
		}
		s.last = lo
		if s.incr && x == s.xs[hi] { s.last = hi }

		return lo'''), ("math/interpolate/search.go", "	n int\n", "	n, last int\n")],
  needs="an unevenly spaced table evaluated exactly at its last node by way of the binary search, and once more",
  breaks="the remembered interval lies outside the table",
  demo=prog([GT+"math/interpolate"], r'''
func main() {
	xs, ys := []float64{0, 1, 10, 11, 12}, []float64{1, 2, 3, 4, 6}
	lin := interpolate.NewLinear(xs, ys)
	for r := 0; r < 2; r++ {
		for i := range xs {
			if y := lin.Eval(xs[i]); y != ys[i] { fail("at node %g: %g, want %g", xs[i], y, ys[i]) }
			if y := lin.Eval(xs[len(xs)-1-i]); y != ys[len(xs)-1-i] { fail("at node %g: %g", xs[len(xs)-1-i], y) }
		}
	}
}
'''))

S(id="c21-int-coarse", property="C21",
  edits=[("math/rand/rand.go", '''	f := gen.backend.Next()
	return low + int(math.Floor(float64(high - low) * f))
''', '''	// 16 bits decide, which keeps the product exact.
	f := math.Floor(gen.backend.Next() * (1 << 16))
	return low + (int(f) * (high - low)) >> 16
'''.replace("low + (", "low + ((").replace(">> 16", ">> 16)"))],
  needs="an integer range much wider than 65536", breaks="only every so many integers can come up",
  demo=prog([GT+"math/rand"], r'''
func main() {
	for _, t := range []rand.GeneratorType{rand.Xorshift, rand.Golang, rand.Tausworthe} {
		gen := rand.New(t, 7)
		odd := 0
		for i := 0; i < 2000; i++ { if gen.UniformInt(0, 1 << 24) % 256 != 0 { odd++ } }
		if odd < 1500 { fail("%d of 2000 values are no multiples of 256", odd) }
	}
}
'''))

S(id="c02-shift-cells", property="C02",
  edits=[("render/main/main.go", '''	xStart := shd.SegmentWidth * (shd.Idx % shd.Cells)
	yStart := shd.SegmentWidth * ((shd.Idx / shd.Cells) % shd.Cells)
	zStart := shd.SegmentWidth * (shd.Idx / (shd.Cells * shd.Cells))
''', '''	ix, iy, iz := segmentIndex(shd.Idx, shd.Cells)
	xStart, yStart, zStart := shd.SegmentWidth * ix, shd.SegmentWidth * iy, shd.SegmentWidth * iz
'''), ("render/main/main.go", '''// copyToSegment copies''', '''// segmentIndex returns the position of segment idx among the segments.
func segmentIndex(idx, cells int64) (x, y, z int64) {
	if validCellNum(int(cells)) {
		shift, mask := uint(0), int64(1)
		for mask < cells { mask <<= 1; shift++ }
		mask--
		return idx & mask, (idx >> shift) & mask, idx >> (2 * shift)
	}
	return idx % cells, (idx / cells) % cells, idx / (cells * cells)
}

// copyToSegment copies''')],
  needs="a number of cells that is no power of two (validCellNum accepts every number)",
  breaks="segments are cut out at the wrong places",
  demo=prog([GT+"render/io", GT+"render/geom", "encoding/binary", "os/exec"], RUN + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	n, c := 6, 3
	N := n*n*n
	xs, vs, ids := make([][3]float32, N), make([][3]float32, N), make([]uint64, N)
	for i := range xs { xs[i] = [3]float32{float32(i % n), float32(i / n % n), float32(i / n / n)}; ids[i] = uint64(i + 1) }
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	snapshot(tmp+"/in/snap.0", N, 6, xs, vs, ids, N)
	con := fmt.Sprintf("[ConvertSnapshot]\nInput = %s/in\nOutput = %s/out\nInputFormat = LGadget-2\nCells = %d\nGadget2IDSize = 64\nXUnits = 1\nVUnits = 1\nMUnits = 1\n", tmp, tmp, c)
	must(os.WriteFile(tmp+"/c.txt", []byte(con), 0666))
	run(bin, "-ConvertSnapshot", tmp+"/c.txt")
	es, err := os.ReadDir(tmp + "/out"); must(err)
	for _, e := range es {
		f := tmp + "/out/" + e.Name()
		hd := &io.SheetHeader{}
		must(io.ReadSheetHeaderAt(f, hd))
		x := make([]geom.Vec, hd.GridCount)
		must(io.ReadSheetPositionsAt(f, x))
		i := int(hd.Idx)
		want := geom.Vec{float32(2*(i%c)), float32(2*(i/c%c)), float32(2*(i/c/c))}
		if x[0] != want { fail("segment %d starts at %v, want %v", i, x[0], want) }
	}
}
'''))

S(id="c26-lock-file", property="C26",
  edits=[("render/main/main.go", '''	// Write output.
	for i, cBox := range configBoxes {
		box := boxes[i]

		out := path.Join(con.Output, fmt.Sprintf("%s%s%s.gtet",''', '''	// Write output. Two runs must not write to one directory.
	lock := path.Join(con.Output, ".gotetra.lock")
	lf, err := os.OpenFile(lock, os.O_WRONLY | os.O_CREATE | os.O_EXCL, 0666)
	if err != nil { log.Fatalf("Another run is writing to %s.", con.Output) }
	lf.Close()
	defer os.Remove(lock)

	for i, cBox := range configBoxes {
		box := boxes[i]

		out := path.Join(con.Output, fmt.Sprintf("%s%s%s.gtet",'''),
    ("render/main/main.go", '''		if err != nil { log.Fatalf("Could not create %s.", out) }
		
		loc''', '''		if err != nil {
			os.Remove(lock)
			log.Fatalf("Could not create %s.", out)
		}

		loc''')],
  needs="a render that is killed or whose write fails, and a repetition of it",
  breaks="the lock it left behind makes every later run fail",
  demo=prog([GT + "render/io", GT + "render/geom", "os/exec"], SHEET + BUILD + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	sheet(tmp+"/in/a.dat", 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(x), float32(y), float32(z)} }, nil)
	must(os.WriteFile(tmp+"/r.txt", []byte("[Render]\nQuantity = Density\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nTotalPixels = 16\nParticles = 2\n"), 0666))
	must(os.WriteFile(tmp+"/b.txt", []byte("[Box \"b\"]\nX = 0\nY = 0\nZ = 0\nXWidth = 16\nYWidth = 16\nZWidth = 16\n"), 0666))
	// files may be no larger than 4 kB: the grid cannot be written
	_, err := exec.Command("sh", "-c", "ulimit -f 4; trap '' XFSZ; exec \"$0\" -Render "+tmp+"/r.txt "+tmp+"/b.txt", bin).CombinedOutput()
	if err == nil { fmt.Println("demo error: the limited run succeeded"); os.Exit(3) }
	o, err := exec.Command(bin, "-Render", tmp+"/r.txt", tmp+"/b.txt").CombinedOutput()
	if err != nil { fail("the repetition failed: %s", string(o)) }
	es, err := os.ReadDir(tmp + "/out"); must(err)
	if len(es) != 1 { fail("%d files", len(es)) }
}
'''))
