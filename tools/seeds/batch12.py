import runpy, os
d = os.path.dirname(__file__)
b1, b2, b3 = (runpy.run_path(os.path.join(d, "batch%d.py" % k)) for k in (1, 2, 3))
prog, GT, RUN, SHEET, BUILD, HALO_SH, STUB = b1["prog"], b1["GT"], b1["RUN"], b1["SHEET"], b3["BUILD"], b2["HALO_SH"], b2["STUB"]
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c20-whole-powers", property="C20",
  edits=[("math/interpolate/filter.go", "		for k := 1; k <= n; k++ { sum += math.Pow(float64(k), ipj64) }\n		for k := 1; k <= n; k++ { sum += math.Pow(float64(-k), ipj64) }\n",
     """		// Odd powers cancel.
		for k := 1; k <= n && ipj % 2 == 0; k++ { sum += 2 * float64(intPow(k, ipj)) }
"""), ("math/interpolate/filter.go", "		ipj64 := float64(ipj)\n", ""), ("math/interpolate/filter.go", "func factorial(x int) int {\n", """// intPow returns x^n.
func intPow(x, n int) int {
	prod := 1
	for i := 0; i < n; i++ { prod *= x }
	return prod
}

func factorial(x int) int {
""")],
  needs="a Savitzky-Golay window of about 80 points or more and order 6", breaks="powers overflow, and polynomials are not reproduced",
  demo=prog([GT+"math/interpolate", "math"], r'''
func main() {
	for _, w := range []int{5, 21, 51, 101, 161} {
		for p := 0; p < 7 && p < w; p++ {
			k := interpolate.NewSavGolKernel(p, w)
			xs := make([]float64, w + 20)
			for i := range xs { xs[i] = math.Pow(float64(i - w / 2) / float64(w), float64(p)) }
			out := k.Convolve(xs, interpolate.ZeroPad)
			for i := w / 2 + 1; i < len(xs) - w / 2 - 1; i++ {
				if math.Abs(out[i] - xs[i]) > 1e-4 { fail("width %d, order %d: %g, want %g", w, p, out[i], xs[i]) }
			}
		}
	}
}
'''))

S(id="c15-small-multiplier", property="C15",
  edits=[("render/io/config.go", "	if ball.RadiusMultiplier == 0 {\n", "	if ball.RadiusMultiplier >= 0 && ball.RadiusMultiplier < 1 {\n")],
  needs="a RadiusMultiplier between 0 and 1", breaks="the region is as large as the whole halo",
  demo=prog([GT+"render/io"], r'''
func main() {
	f := os.Getenv("DEMO_TMP") + "/b.txt"
	for _, m := range []float64{0.125, 0.5, 1, 2} {
		os.WriteFile(f, []byte(fmt.Sprintf("[Ball \"h\"]\nX = 30\nY = 20\nZ = 20\nRadius = 4\nRadiusMultiplier = %g\n", m)), 0644)
		bs, err := io.ReadBoundsConfig(f, 50)
		if err != nil { fail("%v", err) }
		if bs[0].XWidth != 8 * m { fail("multiplier %g: width %g, want %g", m, bs[0].XWidth, 8 * m) }
	}
}
'''))

S(id="c10-segment-center", property="C10",
  edits=[("render/io/io.go", """		cb.Width[j] = 1 + int(
			math.Floor(float64(hd.Origin[j] + hd.Width[j]) / cellWidth),
		)

		cb.Width[j] -= cb.Origin[j]
""", """		upper := math.Floor(float64(hd.Origin[j] + hd.Width[j]) / cellWidth)
		// A segment cannot cover more pixels than there are.
		cb.Width[j] = 1 + int(upper) - cb.Origin[j]
		if cb.Width[j] >= cells { cb.Width[j] = cells - 1 }
""")],
  needs="a segment spread over all the pixels of an axis", breaks="its last pixel is left out",
  demo=prog([GT+"render/io"], r'''
func main() {
	for _, w := range []float32{3, 7, 8.5, 12, 14.5, 15.5} {
		hd := &io.SheetHeader{TotalWidth: 16}
		hd.Origin[1], hd.Width[1] = 0.25, w
		cb := hd.CellBounds(16)
		if want := int(0.25 + w) + 1; cb.Width[1] != want { fail("width %g: %d pixels, want %d", w, cb.Width[1], want) }
	}
}
'''))

S(id="c22-cell-hint", property="C22",
  edits=[("render/halo/grid.go", "		ix, iy, iz := int(x/g.cw), int(y/g.cw), int(z/g.cw)\n", "		inv := float32(1 / g.cw)\n		ix, iy, iz := int(float32(x)*inv), int(float32(y)*inv), int(float32(z)*inv)\n")],
  needs="positions so close to a cell's edge that single precision moves them over it, and halos that reach just there", breaks="the halo is filed in the neighbouring cell, and pairs can be missed",
  demo=prog([GT+"render/halo"], r'''
func main() {
	// A point within 1e-9 of the edge of the cells [3, 4) and [4, 5).
	g := halo.NewGrid(16, 16.0, 2)
	x := []float64{3.999999999, 4.000000001}
	g.Insert(x, x, x)
	for i, c := range []int{3, 4} {
		buf := g.ReadIndexes(c + 16 * c + 256 * c, make([]int, 0, 2))
		if len(buf) != 1 || buf[0] != i { fail("cell %d holds %v", c, buf) }
	}
}
'''), demo_sh=HALO_SH, files={"table.go": STUB})

