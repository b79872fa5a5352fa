import runpy, os
d = os.path.dirname(__file__)
b1, b2, b3 = (runpy.run_path(os.path.join(d, "batch%d.py" % k)) for k in (1, 2, 3))
prog, GT, RUN, SHEET, BUILD, HALO_SH, STUB = b1["prog"], b1["GT"], b1["RUN"], b1["SHEET"], b3["BUILD"], b2["HALO_SH"], b2["STUB"]
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c27-many-segments", property="C27",
  edits=[("render/render.go", '''	for _, file := range man.files {
		err := man.RenderDensityFromFile(file)
		if err != nil { return err }
	}
	return nil
''', '''	// Large simulations have thousands of segments: go through them in
	// batches, and report after each of them.
	const batch = 100
	batches := len(man.files) / batch
	if batches == 0 { batches = 1 }
	for b := 0; b < batches; b++ {
		start, end := b * batch, (b + 1) * batch
		if end > len(man.files) { end = len(man.files) }
		for _, file := range man.files[start: end] {
			err := man.RenderDensityFromFile(file)
			if err != nil { return err }
		}
		if man.log { log.Printf("Rendered %d/%d files", end, len(man.files)) }
	}
	return nil
''')],
  needs="more than a hundred segments, and not a multiple of a hundred", breaks="the segments of the last, incomplete batch are left out",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	render.NumCores = 2
	for _, k := range []int{1, 3, 64, 100, 130} {
		files := []string{}
		for i := 0; i < k; i++ {
			f := fmt.Sprintf("%s/s%d.dat", os.Getenv("DEMO_TMP"), i)
			sheet(f, 1, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(x) + 1, float32(y) + 1, float32(z) + 1} }, nil)
			files = append(files, f)
		}
		box := render.NewBox(16, 4, 16, density.Density, &io.BoxConfig{XWidth: 15.5, YWidth: 15.5, ZWidth: 15.5})
		man, err := render.NewManager(files, []render.Box{box}, false, density.Density); must(err)
		must(man.RenderDensity())
		v, _ := box.Vals().ScalarBuffer()
		sum := 0.0
		for _, x := range v { sum += x }
		if want := 4096.0 * float64(k); sum < want*0.999 || sum > want*1.001 { fail("%d segments: mass %g, want %g", k, sum, want) }
	}
}
'''))

S(id="c09-box-mask", property="C09",
  edits=[("render/render.go", "	validSegs map[string]bool\n", "	validSegs map[string]uint32\n	bit uint32\n"),
         ("render/render.go", "		man.renderers[i].validSegs = make(map[string]bool)\n", '''		// All the boxes share one table of the segments they need, with a bit
		// for every box.
		if i == 0 {
			man.renderers[i].validSegs = make(map[string]uint32)
		} else {
			man.renderers[i].validSegs = man.renderers[0].validSegs
		}
		man.renderers[i].bit = uint32(1) << uint(i % 32)
		if i >= 32 { man.renderers[i].bit = 1 << 31 }
'''),
         ("render/render.go", "				man.renderers[i].validSegs[file] = true\n", "				man.renderers[i].validSegs[file] = man.renderers[i].bit\n"),
         ("render/render.go", "	return r.validSegs[file]\n", "	return r.validSegs[file] & r.bit != 0\n")],
  needs="one segment that is needed by two boxes", breaks="the later box overwrites the bit of the earlier one",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	render.NumCores = 2
	f := os.Getenv("DEMO_TMP") + "/s.dat"
	sheet(f, 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(x) + 1, float32(y) + 1, float32(z) + 1} }, nil)
	bs := []render.Box{}
	for i := 0; i < 3; i++ { bs = append(bs, render.NewBox(16, 4, 16, density.Density, &io.BoxConfig{XWidth: 15.5, YWidth: 15.5, ZWidth: 15.5})) }
	man, err := render.NewManager([]string{f}, bs, false, density.Density); must(err)
	must(man.RenderDensity())
	for i, box := range bs {
		v, _ := box.Vals().ScalarBuffer()
		sum := 0.0
		for _, x := range v { sum += x }
		if sum < 4095 || sum > 4097 { fail("box %d: mass %g", i, sum) }
	}
}
'''))

S(id="c09-many-boxes", property="C09",
  edits=[("render/render.go", "	validSegs map[string]bool\n", "	validSegs map[string]uint16\n	bit uint16\n"),
         ("render/render.go", "		man.renderers[i].validSegs = make(map[string]bool)\n", '''		// All the boxes share one table of the segments they need, with a bit
		// for every box.
		if i == 0 {
			man.renderers[i].validSegs = make(map[string]uint16)
		} else {
			man.renderers[i].validSegs = man.renderers[0].validSegs
		}
		man.renderers[i].bit = uint16(1) << uint(i)
'''),
         ("render/render.go", "				man.renderers[i].validSegs[file] = true\n", "				man.renderers[i].validSegs[file] |= man.renderers[i].bit\n"),
         ("render/render.go", "	return r.validSegs[file]\n", "	return r.validSegs[file] & r.bit != 0\n")],
  needs="a run with more than 16 boxes", breaks="there is no bit for the boxes after the sixteenth: they stay empty",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	render.NumCores = 2
	f := os.Getenv("DEMO_TMP") + "/s.dat"
	sheet(f, 2, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(x) + 1, float32(y) + 1, float32(z) + 1} }, nil)
	bs := []render.Box{}
	for i := 0; i < 20; i++ { bs = append(bs, render.NewBox(16, 4, 16, density.Density, &io.BoxConfig{XWidth: 15.5, YWidth: 15.5, ZWidth: 15.5})) }
	man, err := render.NewManager([]string{f}, bs, false, density.Density); must(err)
	must(man.RenderDensity())
	for i, box := range bs {
		v, _ := box.Vals().ScalarBuffer()
		sum := 0.0
		for _, x := range v { sum += x }
		if sum < 4095 || sum > 4097 { fail("box %d: mass %g", i, sum) }
	}
}
'''))

S(id="c01-many-catalogs", property="C01",
  edits=[("render/main/main.go", "	buf := io.NewParticleBuffer(xs, vs, catalogBufLen)\n", "	var buf *io.ParticleBuffer\n"),
         ("render/main/main.go", "		runtime.GC()\n		buf.Append(xBuf, vBuf, idBuf)\n", '''		runtime.GC()
		// The buffer goes through memory in the order of the particles of a
		// file: begin a new one now and then.
		if i % 32 == 0 {
			buf = io.NewParticleBuffer(xs, vs, catalogBufLen)
		}
		buf.Append(xBuf, vBuf, idBuf)
''')],
  needs="a snapshot of more than 32 files", breaks="the particles still in the buffer are lost when a new one is begun",
  demo=prog([GT+"render/io", GT+"render/geom", "encoding/binary", "os/exec"], RUN + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	n := 4
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	for i := 0; i < n*n*n; i++ {
		x := [][3]float32{{float32(i % n), float32(i / n % n), float32(i / n / n)}}
		snapshot(fmt.Sprintf("%s/in/snap.%d", tmp, i), 1, 4, x, [][3]float32{{1, 2, 3}}, []uint64{uint64(i + 1)}, n*n*n)
	}
	con := "[ConvertSnapshot]\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nInputFormat = LGadget-2\nCells = 1\nGadget2IDSize = 64\n" +
		"XUnits = 1\nVUnits = 1\nMUnits = 1\n"
	must(os.WriteFile(tmp+"/c.txt", []byte(con), 0666))
	run(bin, "-ConvertSnapshot", tmp+"/c.txt")
	es, err := os.ReadDir(tmp + "/out"); must(err)
	f := tmp + "/out/" + es[0].Name()
	hd := &io.SheetHeader{}
	must(io.ReadSheetHeaderAt(f, hd))
	v := make([]geom.Vec, hd.GridCount)
	must(io.ReadSheetPositionsAt(f, v))
	for i := range v {
		x, y, z := i % 5 % 4, i / 5 % 5 % 4, i / 25 % 4
		if v[i] != (geom.Vec{float32(x), float32(y), float32(z)}) { fail("site %d: %v", i, v[i]) }
	}
}
'''))

S(id="c05-block-writes", property="C05",
  edits=[("render/io/io.go", '''	_, err := wr.Write(byteBuf)
	if err != nil { return err }

	hd.Len /= 12
''', '''	// Some file systems are slow at taking large writes.
	const block = 1 << 16
	if len(byteBuf) <= block {
		_, err := wr.Write(byteBuf)
		if err != nil { return err }
	}
	for start := 0; len(byteBuf) > block && start < len(byteBuf); start += block {
		end := start + block
		if end > len(byteBuf) {
			// The last one is aligned with the end.
			start, end = len(byteBuf) - block, len(byteBuf)
		}
		_, err := wr.Write(byteBuf[start: end])
		if err != nil { return err }
	}

	hd.Len /= 12
''')],
  needs="sheet segments of more than 5461 particles", breaks="the last block repeats what was written before it: the file has the wrong length and the velocities are displaced",
  demo=prog([GT+"render/io", GT+"render/geom"], SHEET + r'''
func main() {
	f := os.Getenv("DEMO_TMP") + "/s.dat"
	for _, n := range []int{3, 10, 16, 18, 20, 31} {
		sheet(f, n, 64, func(x, y, z int) geom.Vec { return geom.Vec{float32(x), float32(y), float32(z)} },
			func(x, y, z int) geom.Vec { return geom.Vec{float32(-x), float32(-y), float32(-z)} })
		g := n + 1
		v, x := make([]geom.Vec, g*g*g), make([]geom.Vec, g*g*g)
		must(io.ReadSheetPositionsAt(f, x)); must(io.ReadSheetVelocitiesAt(f, v))
		for i := range v {
			want := geom.Vec{float32(i % g), float32(i / g % g), float32(i / g / g)}
			if x[i] != want || v[i] != (geom.Vec{-want[0], -want[1], -want[2]}) { fail("width %d, particle %d: %v %v", n, i, x[i], v[i]) }
		}
	}
}
'''))

S(id="c06-grid-pieces", property="C06",
  edits=[("render/io/output.go", '''    val32s := make([]float32, n)
    err = binary.Read(f, end, val32s)
    if err != nil { return nil, err }

    vals := make([]float64, len(val32s))
    for i, x := range val32s { vals[i] = float64(x) }
    return vals, nil
''', '''    // Read in pieces, so that large grids are not held twice.
    vals := make([]float64, n)
    val32s := make([]float32, 1 << 14)
    for start := int64(0); start < n; start += int64(len(val32s)) {
        if n - start < int64(len(val32s)) { val32s = val32s[:n - start] }
        err = binary.Read(f, end, val32s)
        if err != nil { return nil, err }
        for i, x := range val32s { vals[int(int16(start)) & 0x7fff + i] = float64(x) }
    }
    return vals, nil
''')],
  needs="a grid of more than 32768 pixels", breaks="the pieces after the second one are stored over the first ones",
  demo=prog([GT+"render/io", GT+"render/density", GT+"render/geom", "bytes"], r'''
func main() {
	for _, n := range []int{3, 20, 30, 33, 41, 50} {
		w := [3]int{n, n, n}
		g := geom.NewGridLocation([3]int{}, w, 12, n)
		buf := density.NewBuffer(density.Density, n*n*n, 1, g)
		v, _ := buf.ScalarBuffer()
		for i := range v { v[i] = float64(i) }
		b := &bytes.Buffer{}
		io.WriteBuffer(buf, io.NewCosmoInfo(70, 0.25, 0.75, 0, 12), io.NewRenderInfo(1, n, 1, ""), io.NewLocationInfo([3]int{}, w, 1), b)
		f := os.Getenv("DEMO_TMP") + "/g.gtet"
		os.WriteFile(f, b.Bytes(), 0666)
		x, err := io.ReadGrid(f)
		if err != nil { fail("%v", err) }
		for i := range x { if x[i] != float64(i) { fail("width %d: pixel %d reads %g", n, i, x[i]) } }
	}
}
'''))

S(id="c19-narrow-search", property="C19",
  edits=[("math/interpolate/search.go", '''		lo, hi := 0, s.n - 1
		for hi-lo > 1 {
			mid := (lo + hi) / 2
			if s.incr == (x >= s.xs[mid]) {
				lo = mid
			} else {
				hi = mid
			}
		}
		
		return lo
''', '''		lo, hi := uint16(0), uint16(s.n - 1)
		for hi-lo > 1 {
			mid := lo/2 + hi/2 + lo & hi & 1
			if s.incr == (x >= s.xs[mid]) {
				lo = mid
			} else {
				hi = mid
			}
		}
		
		return int(lo)
''')],
  needs="a table of more than 65536 uneven knots", breaks="the search never sees the knots beyond the 65536th",
  demo=prog([GT+"math/interpolate", "math"], r'''
func main() {
	for _, n := range []int{10, 1000, 60000, 70000} {
		xs, ys := make([]float64, n), make([]float64, n)
		for i := range xs {
			t := float64(i) / float64(n)
			xs[i] = t*t*t*100 + t
			ys[i] = float64(i)
		}
		l := interpolate.NewLinear(xs, ys)
		for i := n - 1; i > 0; i -= n/10 + 1 {
			x := (xs[i] + xs[i-1]) / 2
			if y := l.Eval(x); math.Abs(y-float64(i)+0.5) > 1e-6 { fail("%d knots: f(%g) = %g", n, x, y) }
		}
	}
}
'''))

S(id="c22-packed-pairs", property="C22",
  edits=[("render/halo/grid.go", "	Next []int\n", "	Next []int16\n"),
         ("render/halo/grid.go", "		Next: make([]int, dataLen),\n", "		Next: make([]int16, dataLen),\n"),
         ("render/halo/grid.go", '''	next := g.Heads[idx]
	n := 0
	for next != tail {
		n++
		next = g.Next[next]
	}
	return n
''', '''	next := g.Heads[idx]
	n := 0
	for next != tail {
		n++
		next = int(g.Next[next])
	}
	return n
'''),
         ("render/halo/grid.go", "		g.Next[i] = g.Heads[idx]\n", "		g.Next[i] = int16(g.Heads[idx])\n"),
         ("render/halo/grid.go", '''		n++
		next = g.Next[next]
	}

	return buf[:n]
''', '''		n++
		next = int(g.Next[next])
		if next < 0 { break }
	}

	return buf[:n]
''')],
  needs="more than 32768 halos", breaks="cells that hold halos beyond the 32768th lose the rest of their list",
  demo=prog([GT+"render/halo"], r'''
func main() {
	for _, n := range []int{100, 10000, 40000} {
		g := halo.NewGrid(8, 100, n)
		xs, ys, zs := make([]float64, n), make([]float64, n), make([]float64, n)
		for i := range xs { xs[i] = float64(i*7919%1000) / 10; ys[i] = float64(i*104729%997) / 10; zs[i] = float64(i*31%991) / 10 }
		g.Insert(xs, ys, zs)
		seen := 0
		buf := make([]int, n)
		for i := 0; i < g.TotalCells(); i++ { seen += len(g.ReadIndexes(i, buf)) }
		if seen != n { fail("%d halos, %d found in the cells", n, seen) }
	}
}
'''),
  demo_sh=HALO_SH, files={"table.go": STUB})
