import runpy, os
d = os.path.dirname(__file__)
b1, b2, b3 = (runpy.run_path(os.path.join(d, "batch%d.py" % k)) for k in (1, 2, 3))
prog, GT, RUN, SHEET, BUILD, HALO_SH, STUB = b1["prog"], b1["GT"], b1["RUN"], b1["SHEET"], b3["BUILD"], b2["HALO_SH"], b2["STUB"]
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c15-ball-edge", property="C15",
  edits=[("render/io/config.go", "	if ball.Y >= rad {\n", "	if ball.Y >= ball.Radius {\n")],
  needs="a RadiusMultiplier above 1 and a centre between the radius and the multiplied radius from the lower Y face", breaks="the region begins at a negative Y position",
  demo=prog([GT+"render/io"], r'''
func main() {
	f := os.Getenv("DEMO_TMP") + "/b.txt"
	for _, t := range [][3]float64{{3, 2, 1}, {3, 2, 2}, {1, 2, 2}, {8, 3, 1.5}} {
		os.WriteFile(f, []byte(fmt.Sprintf("[Ball \"h\"]\nX = 30\nY = %g\nZ = 20\nRadius = %g\nRadiusMultiplier = %g\n", t[0], t[1], t[2])), 0644)
		bs, err := io.ReadBoundsConfig(f, 50)
		if err != nil { fail("%v", err) }
		want := t[0] - t[1] * t[2]
		if want < 0 { want += 50 }
		if bs[0].Y != want { fail("ball %v begins at Y = %g, want %g", t, bs[0].Y, want) }
	}
}
'''))

S(id="c16-shared-cells", property="C16",
  edits=[("render/render.go", "		err := io.ReadSheetHeaderAt(file, &man.hd)\n		if err != nil { return nil, err }\n\n		intersect := false\n		for i := range boxes {\n			cells := boxes[i].Cells()\n			hCb := man.hd.CellBounds(cells)\n",
     """		err := io.ReadSheetHeaderAt(file, &man.hd)
		if err != nil { return nil, err }

		intersect := false
		cells := boxes[0].Cells()
		hCb := man.hd.CellBounds(cells)
		for i := range boxes {
""")],
  needs="several regions of different widths rendered with ImagePixels, so that they have different pixel widths", breaks="the segments of the later regions are chosen at the pixel width of the first one",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	render.NumCores = 2
	files := []string{}
	for i := 0; i < 2; i++ {
		f := fmt.Sprintf("%s/s%d.dat", os.Getenv("DEMO_TMP"), i)
		o := float32(1 + 8 * i)
		sheet(f, 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{o + float32(x), o + float32(y), o + float32(z)} }, nil)
		files = append(files, f)
	}
	mk := func() []render.Box {
		return []render.Box{
			render.NewBox(16, 16, 64, density.Density, &io.BoxConfig{X: 8.5, Y: 8.5, Z: 8.5, XWidth: 3.7, YWidth: 3.7, ZWidth: 3.7}),
			render.NewBox(16, 16, 16, density.Density, &io.BoxConfig{X: 8.5, Y: 8.5, Z: 8.5, XWidth: 6, YWidth: 6, ZWidth: 6}),
		}
	}
	boxes := mk()
	man, err := render.NewManager(files, boxes, false, density.Density); must(err)
	must(man.RenderDensity())
	for i, want := range []float64{64 * 64 * 64, 4096} {
		v, _ := boxes[i].Vals().ScalarBuffer()
		sum := 0.0
		for _, x := range v { sum += x }
		if sum < want * 0.999 || sum > want * 1.001 { fail("box %d: mass %g, want %g", i, sum, want) }
	}
}
'''))

S(id="c27-pixel-mass", property="C27",
  edits=[("render/render.go", "		frac := float64(r.box.Cells()) / float64(man.hd.CountWidth)\n		return frac * frac * frac\n",
     """		if man.ptMass == 0 {
			frac := float64(r.box.Cells()) / float64(man.hd.CountWidth)
			man.ptMass = frac * frac * frac
		}
		return man.ptMass
"""), ("render/render.go", "	man.log = logFlag\n", "	man.log, man.ptMass = logFlag, 0\n"), ("render/render.go", "	log bool\n", "	log bool\n	ptMass float64\n")],
  needs="several regions with different pixel widths in one run", breaks="the later regions get the particle mass in pixels of the first one",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	render.NumCores = 1
	f := os.Getenv("DEMO_TMP") + "/s.dat"
	sheet(f, 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{1 + float32(x), 1 + float32(y), 1 + float32(z)} }, nil)
	boxes := []render.Box{
		render.NewBox(16, 16, 16, density.Density, &io.BoxConfig{XWidth: 15.5, YWidth: 15.5, ZWidth: 15.5}),
		render.NewBox(16, 16, 32, density.Density, &io.BoxConfig{XWidth: 15.8, YWidth: 15.8, ZWidth: 15.8}),
	}
	man, err := render.NewManager([]string{f}, boxes, false, density.Density); must(err)
	must(man.RenderDensity())
	for i, want := range []float64{16 * 16 * 16, 32 * 32 * 32} {
		v, _ := boxes[i].Vals().ScalarBuffer()
		sum := 0.0
		for _, x := range v { sum += x }
		if sum < want * 0.999 || sum > want * 1.001 { fail("box %d: mass %g, want %g", i, sum, want) }
	}
}
'''))

S(id="c09-shrinking-samples", property="C09",
  edits=[("render/render.go", "		man.unitBufs[i] = man.unitBufs[i][0: r.box.Points()]\n",
     """		if r.box.Points() < len(man.unitBufs[i]) {
			man.unitBufs[i] = man.unitBufs[i][0: r.box.Points()]
		}
""")],
  needs="a region with fewer samples per tetrahedron before one with more", breaks="the second region has too few samples, and their weights do not add up",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	render.NumCores = 1
	f := os.Getenv("DEMO_TMP") + "/s.dat"
	sheet(f, 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{1 + float32(x), 1 + float32(y), 1 + float32(z)} }, nil)
	for _, pts := range [][2]int{{8, 8}, {16, 4}, {4, 16}} {
		boxes := []render.Box{}
		for i := 0; i < 2; i++ { boxes = append(boxes, render.NewBox(16, pts[i], 16, density.Density, &io.BoxConfig{XWidth: 15.5, YWidth: 15.5, ZWidth: 15.5})) }
		man, err := render.NewManager([]string{f}, boxes, false, density.Density); must(err)
		must(man.RenderDensity())
		for i := range boxes {
			v, _ := boxes[i].Vals().ScalarBuffer()
			sum := 0.0
			for _, x := range v { sum += x }
			if v[0] != 0 { fail("%v samples, box %d: %g in an empty pixel", pts, i, v[0]) }
			if sum < 4096 * 0.999 || sum > 4096 * 1.001 { fail("%v samples, box %d: mass %g, want 4096", pts, i, sum) }
		}
	}
}
'''))

S(id="c25-result-pool", property="C25",
  edits=[("math/calc/deriv.go", "	if out == nil { out = make([]float64, n) }\n", """	if out == nil {
		// Long series are differentiated again and again: keep the space.
		if cap(scratch) < n || n < 64 { scratch = make([]float64, n) }
		out = scratch[:n]
	}
"""), ("math/calc/deriv.go", "type derivParams struct { out []float64 }\n", "var scratch []float64\n\ntype derivParams struct { out []float64 }\n")],
  needs="two calls without Out on series of 64 points or more", breaks="the second call overwrites the result of the first",
  demo=prog([GT+"math/calc"], r'''
func main() {
	for _, n := range []int{6, 63, 64, 500} {
		xs, ys := make([]float64, n), make([]float64, n)
		for i := range xs { xs[i], ys[i] = float64(i), float64(3 * i) }
		a := calc.Deriv(xs, ys, 2)
		for i := range ys { ys[i] = float64(-7 * i) }
		calc.Deriv(xs, ys, 2)
		for i := range a { if a[i] < 2.99 || a[i] > 3.01 { fail("n = %d: the first result changed at %d: %g", n, i, a[i]) } }
	}
}
'''))

S(id="c04-id-blocks", property="C04",
  edits=[("render/io/io.go", "	for i := range buf {\n		buf64[i] = int64(buf[i])\n	}\n", """	// Whole blocks first, then what is left.
	const block = 256
	n := bufLen - bufLen % block
	for lo := 0; lo < n; lo += block {
		for i, id := range buf[lo: lo + block] { buf64[lo + i] = int64(id) }
	}
	for i := n; i < bufLen - 1; i++ { buf64[i] = int64(buf[i]) }
	if bufLen < block || bufLen % block == 1 { buf64[bufLen - 1] = int64(buf[bufLen - 1]) }
""")],
  needs="32-bit IDs in a catalog with more than 256 particles", breaks="the last particle has the ID 0",
  demo=prog([GT+"render/io", "encoding/binary"], r'''
func must(err error) { if err != nil { fmt.Println("demo error:", err); os.Exit(3) } }
func main() {
	for _, n := range []int{1, 8, 256, 257, 300, 700} {
		file := os.Getenv("DEMO_TMP") + "/snap"
		f, err := os.Create(file); must(err)
		w := func(x interface{}) { must(binary.Write(f, binary.LittleEndian, x)) }
		w(int32(256))
		w([6]uint32{0, uint32(n)}); w([6]float64{0, 2}); w(float64(1)); w(float64(0))
		w([2]int32{}); w([6]uint32{0, uint32(n)}); w([2]int32{0, 1})
		w(16.0); w(0.25); w(0.75); w(0.5); w([2]int32{}); w([88]byte{}); w(int32(256))
		for k := 0; k < 2; k++ { w(int32(12*n)); w(make([][3]float32, n)); w(int32(12*n)) }
		ids := make([]uint32, n)
		for i := range ids { ids[i] = uint32(1000 + i) }
		w(int32(4*n)); w(ids); w(int32(4*n))
		f.Close()
		_, _, _, got := io.ReadGadget(file, binary.LittleEndian, 32, "LGadget-2")
		for i := range ids { if got[i] != int64(ids[i]) { fail("%d particles: ID %d is %d, want %d", n, i, got[i], ids[i]) } }
	}
}
'''))
