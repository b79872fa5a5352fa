import runpy, os
b1 = runpy.run_path(os.path.join(os.path.dirname(__file__), "batch1.py"))
prog, GT, RUN, SHEET = b1["prog"], b1["GT"], b1["RUN"], b1["SHEET"]
SEEDS = []
def S(**k): SEEDS.append(k)
BUILD = r'''
func buildMain() string {
	out := os.Getenv("DEMO_TMP") + "/gotetra"
	c := exec.Command("go", "build", "-o", out, "./render/main")
	c.Dir = os.Getenv("DEMO_REPO")
	if b, err := c.CombinedOutput(); err != nil { fmt.Println(string(b)); os.Exit(3) }
	return out
}
'''

S(id="c24-redshift-cache", property="C24",
  edits=[("cosmo/param.go", '''func HubbleFrac(omegaM, omegaL, z float64) float64 {
	return math.Sqrt(omegaM*math.Pow(1.0+z, 3.0) + omegaL)
}''', '''func HubbleFrac(omegaM, omegaL, z float64) float64 {
	lastMutex.Lock()
	defer lastMutex.Unlock()
	if z != lastZ {
		lastZ = z
		lastCube = math.Pow(1.0+z, 3.0)
		lastFrac = math.Sqrt(omegaM*lastCube + omegaL)
	}
	return lastFrac
}

// The last evaluation: headers ask for the same redshift again and again.
var (
	lastMutex sync.Mutex
	lastZ, lastCube, lastFrac = -1.0, 0.0, 0.0
)'''), ("cosmo/param.go", '''	"math"
)''', '''	"math"
	"sync"
)''')],
  needs="two universes asked for the same redshift one after the other",
  breaks="the cached rate is returned for a universe with another matter density",
  demo=prog(["math", GT + "cosmo"], r'''
func main() {
	for _, z := range []float64{0, 1, 3} {
		for _, l := range []float64{0.75, 0.5, 1, 0} {
			for _, m := range []float64{1 - l} {
				want := math.Sqrt(m*(1+z)*(1+z)*(1+z) + l)
				if got := cosmo.HubbleFrac(m, l, z); math.Abs(got-want) > 1e-12*(1+want) { fail("h(%g, %g, %g) = %g, want %g", m, l, z, got, want) }
			}
		}
	}
}
'''))

S(id="c25-shared-options", property="C25",
  edits=[("math/calc/deriv.go", '''	p := new(derivParams)
	p.loadOptions(opts)
''', '''	p := &params
	if len(opts) > 0 { *p = derivParams{ } }
	p.loadOptions(opts)
	if len(p.out) != n && len(opts) == 0 { p.out = nil }
'''), ("math/calc/deriv.go", '''type derivParams struct { out []float64 }
''', '''type derivParams struct { out []float64 }

// params are reused by every call.
var params derivParams
''')],
  needs="a call with an output slice followed by one without, for series of equal lengths",
  breaks="the second call writes its derivatives to the slice given to the first one",
  demo=prog([GT + "math/calc"], r'''
func main() {
	xs := []float64{0, 1, 2, 3, 4, 5}
	a, b := make([]float64, 6), make([]float64, 6)
	for i, x := range xs { a[i], b[i] = 2*x, -3*x }
	out := make([]float64, 6)
	calc.Deriv(xs, a, 2, calc.Out(out))
	second := calc.Deriv(xs, b, 2)
	for i := range xs {
		if out[i] < 1.999 || out[i] > 2.001 { fail("first result changed: %v", out) }
		if second[i] < -3.001 || second[i] > -2.999 { fail("second result: %v", second) }
	}
}
'''))

S(id="c26-skip-output", property="C26",
  edits=[("render/main/main.go", '''		if err != nil { log.Fatalf("Could not create %s.", out) }
		
		loc :=''', '''		if err != nil {
			// The other boxes are fine.
			log.Printf("Could not create %s.", out)
			continue
		}

		loc :=''')],
  needs="an output file of a render that cannot be created",
  breaks="the render leaves the file out and reports success",
  demo=prog([GT + "render/io", GT + "render/geom", "os/exec"], SHEET + BUILD + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out/b.gtet", 0777))
	sheet(tmp+"/in/a.dat", 4, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(2*x), float32(2*y), float32(2*z)} }, nil)
	must(os.WriteFile(tmp+"/r.txt", []byte("[Render]\nQuantity = Density\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nTotalPixels = 16\nParticles = 2\n"), 0666))
	box := "XWidth = 3\nYWidth = 3\nZWidth = 3\nX = 1\nY = 1\nZ = 1\n"
	must(os.WriteFile(tmp+"/b.txt", []byte("[Box \"a\"]\n"+box+"[Box \"b\"]\n"+box), 0666))
	b, err := exec.Command(bin, "-Render", tmp+"/r.txt", tmp+"/b.txt").CombinedOutput()
	if err == nil { fail("success without b.gtet: %s", string(b)) }
}
'''))

S(id="c26-append-output", property="C26",
  edits=[("render/main/main.go", '''		f, err := os.Create(out)
		defer f.Close()
		if err != nil { log.Fatalf("Could not create %s.", out) }
		
		wr :=''', '''		// Long histograms can be followed while they are written.
		f, err := os.OpenFile(out, os.O_WRONLY | os.O_CREATE | os.O_APPEND, 0666)
		defer f.Close()
		if err != nil { log.Fatalf("Could not create %s.", out) }
		if info, _ := f.Stat(); info.Size() > 1 << 12 || con.AppendName == "" {
			f.Truncate(0)
		}

		wr :=''')],
  needs="repeating a histogram run with an AppendName whose output is small",
  breaks="the second histogram is appended to what the first run left",
  demo=prog([GT+"render/io", GT+"render/geom", GT+"render/density", "bytes", "os/exec"], SHEET + BUILD + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	sheet(tmp+"/in/a.dat", 4, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(2*x), float32(2*y), float32(2*z)} }, nil)
	w := [3]int{16, 16, 16}
	buf := density.NewBuffer(density.Density, 4096, 1, geom.NewGridLocation([3]int{}, w, 16, 16))
	b := &bytes.Buffer{}
	io.WriteBuffer(buf, io.NewCosmoInfo(70, 0.25, 0.75, 0, 16), io.NewRenderInfo(1, 16, 1, ""), io.NewLocationInfo([3]int{}, w, 1), b)
	must(os.WriteFile(tmp+"/g.gtet", b.Bytes(), 0666))
	must(os.WriteFile(tmp+"/h.txt", []byte("[TetraHist]\nInput = "+tmp+"/in\nOutput = "+tmp+"/out\nQuantity = Density\nHistMin = 0\nHistMax = 1\nHistBins = 4\nHistScale = Linear\nParticles = 1\nGridFile = "+tmp+"/g.gtet\nAppendName = _h\n"), 0666))
	must(os.WriteFile(tmp+"/b.txt", []byte("[Box \"b\"]\nX = 0\nY = 0\nZ = 0\nXWidth = 10\nYWidth = 10\nZWidth = 10\n"), 0666))
	size := int64(-1)
	for i := 0; i < 3; i++ {
		o, err := exec.Command(bin, "-TetraHist", tmp+"/h.txt", tmp+"/b.txt").CombinedOutput()
		if err != nil { fmt.Println(string(o)); os.Exit(3) }
		fi, err := os.Stat(tmp + "/out/b_h.txt"); must(err)
		if size >= 0 && fi.Size() != size { fail("run %d wrote %d bytes, the first %d", i, fi.Size(), size) }
		size = fi.Size()
	}
}
'''))

S(id="c03-velocity-wrap", property="C03",
  edits=[("render/main/main.go", '''				for dim, v := range vs[largeIdx] {
					if v < vMin[dim] {''', '''				for dim, v := range vs[largeIdx] {
					// The wrapped layer belongs to the first segments.
					if z < shd.CountWidth && v < vMin[dim] {''')],
  needs="an extreme velocity in the extra layer at the upper z end of the grid",
  breaks="velocity bounds of the segments there leave out the layer they share with the other end",
  demo=prog([GT+"render/io", GT+"render/geom", "encoding/binary", "os/exec"], RUN + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	n := 4
	xs, vs := make([][3]float32, n*n*n), make([][3]float32, n*n*n)
	ids := make([]uint64, n*n*n)
	for i := range xs {
		xs[i] = [3]float32{float32(i % n), float32(i / n % n), float32(i / n / n)}
		vs[i] = [3]float32{float32(i * i % 37), float32(100 - i), 0}
		if i == 5 { vs[i][2] = -500 }
		ids[i] = uint64(i + 1)
	}
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	snapshot(tmp+"/in/snap.0", n*n*n, 4, xs, vs, ids, n*n*n)
	con := "[ConvertSnapshot]\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nInputFormat = LGadget-2\nCells = 2\nGadget2IDSize = 64\n" +
		"XUnits = 1\nVUnits = 1\nMUnits = 1\n"
	must(os.WriteFile(tmp+"/c.txt", []byte(con), 0666))
	run(bin, "-ConvertSnapshot", tmp+"/c.txt")
	es, err := os.ReadDir(tmp + "/out"); must(err)
	for _, e := range es {
		f := tmp + "/out/" + e.Name()
		hd := &io.SheetHeader{}
		must(io.ReadSheetHeaderAt(f, hd))
		v := make([]geom.Vec, hd.GridCount)
		must(io.ReadSheetVelocitiesAt(f, v))
		for i := range v { for d := 0; d < 3; d++ {
			lo, hi := hd.VelocityOrigin[d], hd.VelocityOrigin[d]+hd.VelocityWidth[d]
			if v[i][d] < lo-0.001 || v[i][d] > hi+0.001 { fail("%s: velocity %v outside [%g, %g]", e.Name(), v[i], lo, hi) }
		}}
	}
}
'''))

S(id="c01-chunked-units", property="C01",
  edits=[("render/main/main.go", '''		for j := range xBuf {
			for k := 0; k < 3; k++ {
				xBuf[j][k] *= float32(con.XUnits)
				vBuf[j][k] *= float32(con.VUnits)
			}
		}

		runtime.GC()''', '''		convertUnits(xBuf, con.XUnits)
		convertUnits(vBuf, con.VUnits)

		runtime.GC()'''), ("render/main/main.go", '''// intCubeRoot returns''', '''// convertUnits multiplies vectors with a unit, using several threads.
func convertUnits(vecs []geom.Vec, unit float64) {
	if unit == 1 { return }
	const chunk = 1 << 9
	out, n := make(chan int, len(vecs) / chunk + 1), 0
	for low := 0; low < len(vecs); low += chunk {
		high := low + chunk
		if high > len(vecs) { high = len(vecs) }
		if low > 0 && high - low < chunk / 64 { continue }
		n++
		go func(part []geom.Vec) {
			for j := range part {
				for k := 0; k < 3; k++ { part[j][k] *= float32(unit) }
			}
			out <- len(part)
		}(vecs[low: high])
	}
	for ; n > 0; n-- { <-out }
}

// intCubeRoot returns''')],
  needs="units other than one and a snapshot file whose number of particles is 1 to 7 above a multiple of 512",
  breaks="the last few particles of the file keep their units",
  demo=prog([GT+"render/io", GT+"render/geom", "encoding/binary", "os/exec"], RUN + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	n := 12
	N := n*n*n
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	start := 0
	for k, m := range []int{515, N - 515} {
		xs, vs, ids := make([][3]float32, m), make([][3]float32, m), make([]uint64, m)
		for j := range xs {
			i := start + j
			xs[j] = [3]float32{float32(i % n), float32(i / n % n), float32(i / n / n)}
			vs[j] = [3]float32{float32(i), 1, 2}
			ids[j] = uint64(i + 1)
		}
		snapshot(fmt.Sprintf("%s/in/snap.%d", tmp, k), m, 12, xs, vs, ids, N)
		start += m
	}
	con := "[ConvertSnapshot]\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nInputFormat = LGadget-2\nCells = 1\nGadget2IDSize = 64\n" +
		"XUnits = 2\nVUnits = 4\nMUnits = 1\n"
	must(os.WriteFile(tmp+"/c.txt", []byte(con), 0666))
	run(bin, "-ConvertSnapshot", tmp+"/c.txt")
	es, err := os.ReadDir(tmp + "/out"); must(err)
	f := tmp + "/out/" + es[0].Name()
	hd := &io.SheetHeader{}
	must(io.ReadSheetHeaderAt(f, hd))
	x := make([]geom.Vec, hd.GridCount)
	must(io.ReadSheetPositionsAt(f, x))
	g := n + 1
	for i := 0; i < N; i++ {
		p := x[i%n + i/n%n*g + i/n/n*g*g]
		w := geom.Vec{float32(2*(i % n)), float32(2*(i / n % n)), float32(2*(i / n / n))}
		if p != w { fail("particle %d: %v, want %v", i+1, p, w) }
	}
}
'''))

S(id="c08-cube-prune", property="C08",
  edits=[("render/density/interpolator.go", '''			intr.tet.CellBoundsAt(1.0, tetCb)

			if !tetCb.Intersect(relCb, intr.cells) { continue }
''', '''			intr.tet.CellBoundsAt(1.0, tetCb)

			// Tetrahedra around the same diagonal reach about as far.
			if dir % 2 == 0 { reached = tetCb.Intersect(relCb, intr.cells) }
			if !reached { continue }
'''), ("render/density/interpolator.go", '''	maxWidth := 0.0
''', '''	maxWidth, reached := 0.0, false
''')],
  needs="a box edge that passes between the tetrahedra of one cube",
  breaks="every other tetrahedron is skipped if the one before it does not reach the box",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	f := os.Getenv("DEMO_TMP") + "/s.dat"
	n := 2
	// everything of the second tetrahedra lies where the others do not reach
	for corner := 1; corner < 7; corner++ {
		sheet(f, n, 64, func(x, y, z int) geom.Vec {
			v := geom.Vec{1, 1, 1}
			if x < 2 && y < 2 && z < 2 && x + 2*y + 4*z == corner { v = geom.Vec{20, 20, 20} }
			return v
		}, nil)
		render.NumCores = 1
		sum := 0.0
		boxes := []render.Box{}
		for _, X := range []float64{0, 3} {
			w := 2.5
			if X == 3 { w = 20 }
			for _, Y := range []float64{0, 3} { for _, Z := range []float64{0, 3} {
				yw, zw := 2.5, 2.5
				if Y == 3 { yw = 20 }
				if Z == 3 { zw = 20 }
				boxes = append(boxes, render.NewBox(64, 400, 64, density.Density, &io.BoxConfig{X: X, Y: Y, Z: Z, XWidth: w, YWidth: yw, ZWidth: zw}))
			}}
		}
		man, err := render.NewManager([]string{f}, boxes, false, density.Density); must(err)
		must(man.RenderDensity())
		for _, b := range boxes { v, _ := b.Vals().ScalarBuffer(); for _, x := range v { sum += x } }
		if want := 262144.0; sum < want*0.995 || sum > want*1.005 { fail("corner %d: mass %g, want %g", corner, sum, want) }
	}
}
'''))

S(id="c14-load-once", property="C14",
  edits=[("render/hist.go", '''		err = io.ReadSheetPositionsAt(file, man.xs)
		if err != nil { return err }
''', '''		// All boxes share the positions.
		if !loaded {
			err = io.ReadSheetPositionsAt(file, man.xs)
			if err != nil { return err }
			loaded = bi < len(man.boxes) - 1
		}
'''), ("render/hist.go", '''	out := make(chan int, man.workers)

	for bi''', '''	out, loaded := make(chan int, man.workers), man.loaded == file
	man.loaded = file

	for bi'''), ("render/hist.go", '''	files []string

	boxes []HistBox''', '''	files []string
	loaded string

	boxes []HistBox''')],
  needs="a file analysed a second time after the last file analysed did not reach any box (Hist called twice with one file in reach, followed by the same file)",
  breaks="positions of another file are used",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density", "bytes"], SHEET + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	n := 2
	at := func(o float32) func(x, y, z int) geom.Vec { return func(x, y, z int) geom.Vec { return geom.Vec{o + float32(x), o + float32(y), o + float32(z)} } }
	w := [3]int{16, 16, 16}
	buf := density.NewBuffer(density.Density, 4096, 1, geom.NewGridLocation([3]int{}, w, 16, 16))
	b := &bytes.Buffer{}
	io.WriteBuffer(buf, io.NewCosmoInfo(70, 0.25, 0.75, 0, 16), io.NewRenderInfo(1, 16, 1, ""), io.NewLocationInfo([3]int{}, w, 1), b)
	must(os.WriteFile(tmp+"/g.gtet", b.Bytes(), 0666))
	render.NumCores = 2
	info := &render.HistInfo{Min: -1, Max: 1, Bins: 1, Scale: "Linear"}
	sheet(tmp+"/a.dat", n, 16, at(1), nil)
	boxes := []render.HistBox{render.NewHistBox(&io.BoxConfig{X: 0, Y: 0, Z: 0, XWidth: 6, YWidth: 6, ZWidth: 6}, 1)}
	man, err := render.NewHistManager([]string{tmp + "/a.dat"}, boxes, 8, "Density", tmp+"/g.gtet"); must(err)
	must(man.Hist(info))
	if c := boxes[0].Counts[0]; c != 6*8*8 { fail("first run: %d counts", c) }
	// the file is replaced by a sheet elsewhere before the manager is used again
	sheet(tmp+"/a.dat", n, 16, at(5), nil)
	must(man.Hist(info))
	if c := boxes[0].Counts[0]; c == 6*8*8 || c == 0 { fail("second run: %d counts", c) }
}
'''))

S(id="c13-taker-cache", property="C13",
  edits=[("render/geom/deriv.go", '''	if order == 2 {
		denom = float32(dx * 2)
		switch op {
		case None: 
			d = new(deriv2)''', '''	if order == 2 {
		denom = float32(dx * 2)
		switch op {
		case None:
			if order == lastOrder && denom < lastDenom { denom = lastDenom }
			lastOrder, lastDenom = order, denom
			d = new(deriv2)'''), ("render/geom/deriv.go", '''type DerivOp int
const (''', '''// Spacing of the last grid that was differentiated.
var (
	lastOrder int
	lastDenom float32
)

type DerivOp int
const (''')],
  needs="a second order derivative on a fine grid after one on a coarser grid",
  breaks="the spacing of the coarser grid is used",
  demo=prog([GT+"render/geom"], r'''
func main() {
	for _, L := range []float64{16, 8, 32, 4} {
		n := 6
		g := geom.NewGridLocation([3]int{}, [3]int{n, n, n}, L, 16)
		vals, out := make([]float32, n*n*n), make([]float32, n*n*n)
		for i := range vals { vals[i] = float32(i % n) }
		g.Deriv(vals, out, 0, &geom.DerivOptions{false, geom.None, 2})
		want := float32(16 / L)
		for i := range out { if out[i]-want > 0.001 || want-out[i] > 0.001 { fail("box %g: slope %g, want %g", L, out[i], want) } }
	}
}
'''))

S(id="c16-depth-once", property="C16",
  edits=[("render/main/main.go", '''	if con.AutoParticles {
		cells''', '''	if con.AutoParticles && !con.ValidProjectionDepth() {
		cells''')],
  needs="AutoParticles and several regions projected through different depths",
  breaks="the depth of the first region decides the samples of all of them",
  demo=prog([GT + "render/io", GT + "render/geom", "os/exec"], SHEET + BUILD + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	sheet(tmp+"/in/a.dat", 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(x), float32(y), float32(z)} }, nil)
	must(os.WriteFile(tmp+"/r.txt", []byte("[Render]\nQuantity = Density\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nImagePixels = 512\nAutoParticles = true\n"), 0666))
	box := func(n string, w string) string { return "[Box \""+n+"\"]\nX = 8\nY = 8\nZ = 8\nXWidth = 16\nYWidth = 0.25\nZWidth = "+w+"\nProjectionAxis = Z\n" }
	pts := func(bounds string, names ...string) []int64 {
		must(os.WriteFile(tmp+"/b.txt", []byte(bounds), 0666))
		b, err := exec.Command(bin, "-Render", tmp+"/r.txt", tmp+"/b.txt").CombinedOutput()
		if err != nil { fail("%s", string(b)) }
		var out []int64
		for _, n := range names { hd, err := io.ReadGridHeader(tmp + "/out/"+n+".gtet"); must(err); out = append(out, hd.Render.Particles) }
		return out
	}
	a, b := pts(box("a", "0.03125"), "a")[0], pts(box("b", "0.25"), "b")[0]
	both := pts(box("a", "0.03125") + box("b", "0.25"), "a", "b")
	if both[0] != a || both[1] != b { fail("particles %v together, %d and %d alone", both, a, b) }
}
'''))
