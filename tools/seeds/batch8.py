import runpy, os
d = os.path.dirname(__file__)
b1, b2, b3 = (runpy.run_path(os.path.join(d, "batch%d.py" % k)) for k in (1, 2, 3))
prog, GT, RUN, SHEET, BUILD, HALO_SH, STUB = b1["prog"], b1["GT"], b1["RUN"], b1["SHEET"], b3["BUILD"], b2["HALO_SH"], b2["STUB"]
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c11-narrow-index", property="C11",
  edits=[("render/geom/tetra.go", '''	return newX + newY*countWidth + newZ*countWidth*countWidth
}
''', '''	// A row and a column fit into a machine word.
	area := int32(countWidth) * int32(countWidth)
	return newX + newY*countWidth + newZ*int64(area)
}
''')],
  needs="a grid of more than 46340 points on a side", breaks="the area of a layer overflows",
  demo=prog([GT+"render/geom"], r'''
func main() {
	for _, n := range []int64{10, 1000, 40000, 70000, 100000} {
		t := geom.NewTetraIdxs(5 + 7*n + 9*n*n, n, 1, 0)
		for _, i := range t {
			x, y, z := i % n, i/n % n, i/n/n
			if x < 5 || x > 6 || y < 7 || y > 8 || z < 9 || z > 10 { fail("width %d: corner (%d, %d, %d) of the cube at (5, 7, 9)", n, x, y, z) }
		}
	}
}
'''))

S(id="c12-narrow-index", property="C12",
  edits=[("render/geom/grid.go", '''	return ((x - g.Origin[0]) + (y-g.Origin[1])*g.Length +
		(z-g.Origin[2])*g.Area)
''', '''	idx := uint32(x - g.Origin[0]) + uint32(y-g.Origin[1])*uint32(g.Length) +
		uint32(z-g.Origin[2])*uint32(g.Area)
	return int(idx)
''')],
  needs="a grid of more than 2^32 cells", breaks="indices wrap around",
  demo=prog([GT+"render/geom"], r'''
func main() {
	for _, n := range []int{10, 500, 1600, 1700, 3000} {
		g := geom.NewGrid([3]int{1, 2, 3}, [3]int{n, n, n})
		p := [3]int{n - 3, n - 2, n}
		x, y, z := g.Coords(g.Idx(p[0], p[1], p[2]))
		if [3]int{x, y, z} != p { fail("width %d: cell %v comes back as (%d, %d, %d)", n, p, x, y, z) }
	}
}
'''))

S(id="c20-faint-signal", property="C20",
  edits=[("math/interpolate/filter.go", '''			idx := i + j - k.center
			sum += xs[idx] * c
		}
		out[i] = sum
	}
	for i := n - nr''', '''			idx := i + j - k.center
			// Nothing to add.
			if xs[idx] < 1e-12 && xs[idx] > -1e-12 { continue }
			sum += xs[idx] * c
		}
		out[i] = sum
	}
	for i := n - nr''')],
  needs="a series of very small numbers, away from its ends", breaks="it is taken for zero",
  demo=prog([GT+"math/interpolate", "math"], r'''
func main() {
	for _, u := range []float64{1, 1e-6, 1e-11, 1e-14, 1e-30} {
		xs := make([]float64, 20)
		for i := range xs { xs[i] = u }
		for i, x := range interpolate.NewTophatKernel(3).Convolve(xs, interpolate.Periodic) {
			if math.Abs(x/u - 1) > 1e-9 { fail("a constant %g is smoothed to %g at %d", u, x, i) }
		}
	}
}
'''))

S(id="c21-wide-integers", property="C21",
  edits=[("math/rand/rand.go", '''	return low + int(math.Floor(float64(high - low) * f))
''', '''	return low + int(uint32(math.Floor(float64(high - low) * f)))
''')],
  needs="a range of more than 2^32 integers", breaks="only the lowest ones are drawn",
  demo=prog([GT+"math/rand"], r'''
func main() {
	for _, w := range []int{10, 1 << 20, 1 << 31, 1 << 40, 1 << 52} {
		g, top := rand.New(rand.Default, 7), 0
		for i := 0; i < 200; i++ {
			v := g.UniformInt(0, w)
			if v < 0 || v >= w { fail("%d is outside [0, %d)", v, w) }
			if v > w/2 { top++ }
		}
		if top < 50 || top > 150 { fail("%d of 200 draws in the upper half of [0, %d)", top, w) }
	}
}
'''))


S(id="c14-short-counts", property="C14",
  edits=[("render/hist.go", "	hists [][]int\n", "	hists [][]uint16\n"),
         ("render/hist.go", "	man.hists = make([][]int, man.workers)\n", "	man.hists = make([][]uint16, man.workers)\n"),
         ("render/hist.go", "		man.hists[i] = make([]int, info.Bins)\n", "		man.hists[i] = make([]uint16, info.Bins)\n"),
         ("render/hist.go", "				man.boxes[bi].Counts[j] += man.hists[id][j]\n", "				man.boxes[bi].Counts[j] += int(man.hists[id][j])\n"),
         ("render/hist.go", "func histogram(x []float64, ok []bool, info *HistInfo, counts []int) {", "func histogram(x []float64, ok []bool, info *HistInfo, counts []uint16) {")],
  needs="one worker putting more than 65535 samples into one bin", breaks="the count starts again at zero",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density", "bytes"], SHEET + r"""
func main() {
	tmp := os.Getenv("DEMO_TMP")
	w := [3]int{4, 4, 4}
	buf := density.NewBuffer(density.Density, 64, 1, geom.NewGridLocation([3]int{}, w, 16, 4))
	b := &bytes.Buffer{}
	io.WriteBuffer(buf, io.NewCosmoInfo(70, 0.25, 0.75, 0, 16), io.NewRenderInfo(1, 4, 1, ""), io.NewLocationInfo([3]int{}, w, 4), b)
	must(os.WriteFile(tmp+"/g.gtet", b.Bytes(), 0666))
	render.NumCores = 2
	sheet(tmp+"/a.dat", 4, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(x) + 1, float32(y) + 1, float32(z) + 1} }, nil)
	for _, pts := range []int{4, 100, 500} {
		boxes := []render.HistBox{render.NewHistBox(&io.BoxConfig{XWidth: 8, YWidth: 8, ZWidth: 8}, 2)}
		man, err := render.NewHistManager([]string{tmp + "/a.dat"}, boxes, pts, "Density", tmp+"/g.gtet"); must(err)
		must(man.Hist(&render.HistInfo{Min: -1, Max: 9, Bins: 2, Scale: "Linear"}))
		if n := boxes[0].Counts[0]; n != 64 * 6 * pts { fail("%d samples per tetrahedron: %d values counted, want %d", pts, n, 64 * 6 * pts) }
	}
}
"""))

S(id="c16-glob-input", property="C16",
  edits=[("render/main/main.go", """	infos, err := ioutil.ReadDir(con.Input)
	if err != nil { log.Fatal(err.Error()) }
	files = make([]string, len(infos))
	for i := range infos { files[i] = path.Join(con.Input, infos[i].Name()) }

	io.ReadSheetHeaderAt(files[0], hd)

	return files, hd, fg
}


""", """	files, err = filepath.Glob(path.Join(con.Input, "*"))
	if err != nil { log.Fatal(err.Error()) }
	if len(files) == 0 { log.Fatalf("No files in %s.", con.Input) }

	io.ReadSheetHeaderAt(files[0], hd)

	return files, hd, fg
}


"""), ("render/main/main.go", """	"io/ioutil"
""", """	"io/ioutil"
	"path/filepath"
""")],
  needs="an input directory whose name has brackets or stars in it", breaks="its files are not found, or those of another directory are rendered",
  demo=prog([GT+"render/io", GT+"render/geom", "os/exec", "path/filepath"], SHEET + BUILD + r"""
func main() {
	bin := buildMain()
	for _, name := range []string{"plain", "run 2", "run[2]", "snap[a-c]*"} {
		tmp := filepath.Join(os.Getenv("DEMO_TMP"), name)
		must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
		sheet(tmp+"/in/a.dat", 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(x) + 1, float32(y) + 1, float32(z) + 1} }, nil)
		must(os.WriteFile(tmp+"/r.cfg", []byte("[Render]\nQuantity = Density\nTotalPixels = 8\nParticles = 2\nInput = "+tmp+"/in\nOutput = "+tmp+"/out\n"), 0666))
		must(os.WriteFile(tmp+"/b.cfg", []byte("[Box \"b\"]\nX = 0\nY = 0\nZ = 0\nXWidth = 8\nYWidth = 8\nZWidth = 8\n"), 0666))
		out, err := exec.Command(bin, "-Render", tmp+"/r.cfg", tmp+"/b.cfg").CombinedOutput()
		if err != nil { fail("%s: %v %s", name, err, string(out)) }
		if _, err := os.Stat(tmp+"/out/b.gtet"); err != nil { fail("%s: no output", name) }
	}
}
"""))
