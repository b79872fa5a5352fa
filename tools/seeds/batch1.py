COMMON = '''
import (
	"fmt"
	"os"
%s
)

func fail(f string, a ...interface{}) { fmt.Printf("FAIL: "+f+"\\n", a...); os.Exit(1) }
'''
def prog(imports, body):
    return "package main\n" + COMMON % "\n".join('\t%s' % ('"%s"' % i if '"' not in i else i) for i in imports) + body
GT = "github.com/phil-mansfield/gotetra/"

# a complete conversion / render run needs snapshot files and the program
RUN = r'''
func must(err error) { if err != nil { fmt.Println("demo error:", err); os.Exit(3) } }

func buildMain() string {
	out := os.Getenv("DEMO_TMP") + "/gotetra"
	c := exec.Command("go", "build", "-o", out, "./render/main")
	c.Dir = os.Getenv("DEMO_REPO")
	
	b, err := c.CombinedOutput()
	if err != nil { fmt.Println(string(b)); os.Exit(3) }
	return out
}

func snapshot(file string, n int, L float64, xs, vs [][3]float32, ids []uint64, total int) {
	f, err := os.Create(file); must(err); defer f.Close()
	w := func(x interface{}) { must(binary.Write(f, binary.LittleEndian, x)) }
	w(int32(256))
	w([6]uint32{0, uint32(n)}); w([6]float64{0, 2}); w(float64(1)); w(float64(0))
	w([2]int32{}); w([6]uint32{0, uint32(total)}); w([2]int32{0, 1})
	w(L); w(0.25); w(0.75); w(0.5); w([2]int32{}); w([88]byte{}); w(int32(256))
	w(int32(12*n)); w(xs); w(int32(12*n))
	w(int32(12*n)); w(vs); w(int32(12*n))
	w(int32(8*n)); w(ids); w(int32(8*n))
}

func run(bin string, args ...string) {
	c := exec.Command(bin, args...)
	b, err := c.CombinedOutput()
	if err != nil { fail("%s: %v", string(b), err) }
}
'''
SHEET = r'''
func must(err error) { if err != nil { fmt.Println("demo error:", err); os.Exit(3) } }

// sheet writes one sheet file holding a whole n^3 grid of particles.
func sheet(file string, n int, L float64, at func(x, y, z int) geom.Vec, vel func(x, y, z int) geom.Vec) {
	g := n + 1
	hd := &io.SheetHeader{}
	hd.CountWidth, hd.SegmentWidth, hd.GridWidth, hd.GridCount = int64(n), int64(n), int64(g), int64(g*g*g)
	hd.Cells, hd.Mass, hd.TotalWidth = 1, 1, L
	xs, vs := make([]geom.Vec, g*g*g), make([]geom.Vec, g*g*g)
	lo, hi := geom.Vec{1e9, 1e9, 1e9}, geom.Vec{-1e9, -1e9, -1e9}
	for z := 0; z < g; z++ { for y := 0; y < g; y++ { for x := 0; x < g; x++ {
		v := at(x, y, z)
		for d := 0; d < 3; d++ {
			if v[d] < lo[d] { lo[d] = v[d] }
			if v[d] > hi[d] { hi[d] = v[d] }
			w := v[d]
			for w < 0 { w += float32(L) }
			for w >= float32(L) { w -= float32(L) }
			xs[x+y*g+z*g*g][d] = w
		}
		if vel != nil { vs[x+y*g+z*g*g] = vel(x, y, z) }
	}}}
	for d := 0; d < 3; d++ {
		hd.Origin[d], hd.Width[d] = lo[d], hi[d]-lo[d]
		if hd.Origin[d] < 0 { hd.Origin[d] += float32(L) }
		if hd.Origin[d] >= float32(L) { hd.Origin[d] -= float32(L) }
	}
	io.WriteSheet(file, hd, xs, vs)
}
'''
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c01-bulk-append", property="C01",
  edits=[("render/io/buffer.go", '''	for pi := range xBuf {
		pb.xBuf[pb.idx] = xBuf[pi]
		pb.vBuf[pb.idx] = vBuf[pi]
		pb.idBuf[pb.idx] = idBuf[pi]
		
		pb.idx++
		if pb.idx == len(pb.xBuf) {
			pb.Flush()
		}
	}
''', '''	for len(xBuf) > 0 {
		n := copy(pb.xBuf[pb.idx:], xBuf)
		copy(pb.vBuf[pb.idx:], vBuf[:n])
		copy(pb.idBuf[pb.idx:], idBuf)

		pb.idx += n
		if pb.idx == len(pb.xBuf) {
			pb.Flush()
		}
		xBuf, vBuf = xBuf[n:], vBuf[n:]
	}
''')],
  needs="a snapshot file whose particles do not fit into what is left of the 4096 particle scatter buffer",
  breaks="the part of a file after a buffer flush is scattered with the IDs of the file's first particles",
  demo=prog([GT+"render/io", GT+"render/geom"], '''
func main() {
	for _, n := range []int{3, 8, 13} {
		xs, vs := make([]geom.Vec, n), make([]geom.Vec, n)
		pb := io.NewParticleBuffer(xs, vs, 5)
		for i := 0; i < n; i += 7 {
			var bx, bv []geom.Vec
			var ids []int64
			for j := i; j < n && j < i+7; j++ {
				bx, bv = append(bx, geom.Vec{float32(j)}), append(bv, geom.Vec{float32(-j)})
				ids = append(ids, int64(j+1))
			}
			pb.Append(bx, bv, ids)
		}
		pb.Flush()
		for j := range xs {
			if xs[j][0] != float32(j) || vs[j][0] != float32(-j) { fail("n=%d site %d: %v %v", n, j, xs[j], vs[j]) }
		}
	}
}
'''))

S(id="c02-velocity-ghosts", property="C02",
  edits=[("render/main/main.go", "				vsSeg[smallIdx] = vs[largeIdx]\n",
          "				vsSeg[smallIdx] = vs[(x + y * N + z * N2) % shd.Count]\n")],
  needs="looking at the velocities of the extra layer of a segment at the upper end of the x or y axis",
  breaks="at the grid's upper end the extra layer holds the velocities of the next row instead of the wrapped ones",
  demo=prog([GT+"render/io", GT+"render/geom", "encoding/binary", "os/exec"], RUN + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	n := 4
	xs, vs := make([][3]float32, n*n*n), make([][3]float32, n*n*n)
	ids := make([]uint64, n*n*n)
	for i := range xs {
		xs[i] = [3]float32{float32(i % n), float32(i / n % n), float32(i / n / n)}
		vs[i] = [3]float32{float32(i), float32(-i), float32(2 * i)}
		ids[i] = uint64(i + 1)
	}
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	snapshot(tmp+"/in/snap.0", n*n*n, 4, xs, vs, ids, n*n*n)
	con := "[ConvertSnapshot]\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nInputFormat = LGadget-2\nCells = 2\nGadget2IDSize = 64\n" +
		"XUnits = 1\nVUnits = 1\nMUnits = 1\n"
	must(os.WriteFile(tmp+"/c.txt", []byte(con), 0666))
	run(bin, "-ConvertSnapshot", tmp+"/c.txt")
	es, err := os.ReadDir(tmp + "/out"); must(err)
	if len(es) != 8 { fail("%d files", len(es)) }
	for _, e := range es {
		f := tmp + "/out/" + e.Name()
		hd := &io.SheetHeader{}
		must(io.ReadSheetHeaderAt(f, hd))
		v := make([]geom.Vec, hd.GridCount)
		must(io.ReadSheetVelocitiesAt(f, v))
		s, c := int(hd.SegmentWidth), int(hd.Cells)
		i := int(hd.Idx)
		x0, y0, z0 := s*(i%c), s*(i/c%c), s*(i/c/c)
		k := 0
		for z := z0; z <= z0+s; z++ { for y := y0; y <= y0+s; y++ { for x := x0; x <= x0+s; x++ {
			want := float32(x%n + n*(y%n) + n*n*(z%n))
			if v[k][0] != want || v[k][1] != -want || v[k][2] != 2*want { fail("segment %d site %d %d %d: %v, want %g", i, x, y, z, v[k], want) }
			k++
		}}}
	}
}
'''))

S(id="c03-origin-outside", property="C03",
  edits=[("render/main/main.go", "	shd.Origin.ModSelf(shd.TotalWidth)\n", ""),
         ("render/main/main.go", "	box.Center.AddAt(&box.ToMin, &shd.Origin)\n",
          "	box.Center.ModSelf(shd.TotalWidth)\n	box.Center.AddAt(&box.ToMin, &shd.Origin)\n")],
  needs="a segment whose particles lie on both sides of the periodic boundary",
  breaks="the centre is wrapped instead of the origin: a segment around the boundary gets a negative origin",
  demo=prog([GT+"render/io", "encoding/binary", "os/exec"], RUN + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := buildMain()
	n := 4
	xs, vs := make([][3]float32, n*n*n), make([][3]float32, n*n*n)
	ids := make([]uint64, n*n*n)
	for i := range xs {
		xs[i] = [3]float32{float32(i%n)*4 - 1, float32(i/n%n)*4 - 1, float32(i/n/n)*4 - 1}
		for d := range xs[i] { if xs[i][d] < 0 { xs[i][d] += 16 } }
		ids[i] = uint64(i + 1)
	}
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	snapshot(tmp+"/in/snap.0", n*n*n, 16, xs, vs, ids, n*n*n)
	con := "[ConvertSnapshot]\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nInputFormat = LGadget-2\nCells = 4\nGadget2IDSize = 64\n" +
		"XUnits = 1\nVUnits = 1\nMUnits = 1\n"
	must(os.WriteFile(tmp+"/c.txt", []byte(con), 0666))
	run(bin, "-ConvertSnapshot", tmp+"/c.txt")
	es, err := os.ReadDir(tmp + "/out"); must(err)
	for _, e := range es {
		hd := &io.SheetHeader{}
		must(io.ReadSheetHeaderAt(tmp+"/out/"+e.Name(), hd))
		for d := 0; d < 3; d++ {
			if hd.Origin[d] < 0 || float64(hd.Origin[d]) >= hd.TotalWidth { fail("%s: origin %v", e.Name(), hd.Origin) }
			if hd.Width[d] != 4 { fail("%s: width %v", e.Name(), hd.Width) }
		}
	}
}
'''))

S(id="c04-mixed-precision", property="C04",
  edits=[("render/io/io.go", '''	vSize := readInt32(f, order)
	if f32Size == vSize {
		readF32 = true
	} else if f32Size*2 == vSize {
		readF32 = false
	} else {
''', '''	vSize := readInt32(f, order)
	if vSize != f32Size && vSize != 2*f32Size {
''')],
  needs="a catalogue whose positions and velocities are stored in different precisions",
  breaks="the velocity block is read with the precision of the position block",
  demo=prog([GT+"render/io", "encoding/binary", "bytes"], r'''
func main() {
	for m := 0; m < 4; m++ {
		b := &bytes.Buffer{}
		w := func(x interface{}) { binary.Write(b, binary.LittleEndian, x) }
		n := 3
		w(int32(256))
		w([6]uint32{0, uint32(n)}); w([6]float64{0, 2}); w(float64(1)); w(float64(0))
		w([2]int32{}); w([6]uint32{0, uint32(n)}); w([2]int32{0, 1})
		w(16.0); w(0.25); w(0.75); w(0.5); w([2]int32{}); w([88]byte{}); w(int32(256))
		block := func(off int, dbl bool) {
			if dbl { w(int32(24 * n)) } else { w(int32(12 * n)) }
			for i := 0; i < 3*n; i++ { if dbl { w(float64(i + off)) } else { w(float32(i + off)) } }
			if dbl { w(int32(24 * n)) } else { w(int32(12 * n)) }
		}
		block(0, m&1 == 1)
		block(5, m&2 == 2)
		w(int32(8 * n)); w([]uint64{3, 1, 2}); w(int32(8 * n))
		// more of the file, so that reading too far does not hit its end
		w(make([]byte, 4096))
		f := os.Getenv("DEMO_TMP") + "/cat"
		os.WriteFile(f, b.Bytes(), 0666)
		func() {
			defer func() { if r := recover(); r != nil { fail("encoding %d: refused: %v", m, r) } }()
			_, xs, vs, ids := io.ReadGadget(f, binary.LittleEndian, 64, "LGadget-2")
			for i := 0; i < n; i++ {
				for d := 0; d < 3; d++ {
					if xs[i][d] != float32(3*i+d) || vs[i][d] != float32(3*i+d+5) { fail("encoding %d particle %d: %v %v", m, i, xs[i], vs[i]) }
				}
				if ids[i] != []int64{3, 1, 2}[i] { fail("encoding %d ids %v", m, ids) }
			}
		}()
	}
}
'''))

S(id="c05-swap-block", property="C05",
  edits=[("render/io/io.go", '''	if !isSysOrder(end) {
		for i := 0; i < bufLen * 3; i++ {
			for j := 0; j < 2; j++ {
				idx1, idx2 := i*4 + j, i*4 + 3 - j
				byteBuf[idx1], byteBuf[idx2] = byteBuf[idx2], byteBuf[idx1]
			}
		}
	}

	hd.Len /= 12
	hd.Cap /= 12

	return nil
}

func readVec64AsByte''', '''	if !isSysOrder(end) {
		for i := 0; i + 3 < bufLen * 3; i += 4 {
			words := byteBuf[4*i: 4*i + 16]
			for k := 0; k < 16; k += 4 {
				words[k], words[k + 3] = words[k + 3], words[k]
				words[k + 1], words[k + 2] = words[k + 2], words[k + 1]
			}
		}
	}

	hd.Len /= 12
	hd.Cap /= 12

	return nil
}

func readVec64AsByte''')],
  needs="a big-endian sheet file whose number of words is not a multiple of four (odd grid widths)",
  breaks="an unrolled byte swap leaves the last words of big-endian blocks unswapped",
  demo=prog([GT+"render/io", GT+"render/geom", "encoding/binary", "bytes"], r'''
func main() {
	for _, g := range []int{2, 3, 4, 5} {
		b := &bytes.Buffer{}
		w := func(x interface{}) { binary.Write(b, binary.BigEndian, x) }
		hd := io.SheetHeader{}
		hd.GridWidth, hd.GridCount, hd.SegmentWidth, hd.CountWidth = int64(g), int64(g*g*g), int64(g-1), int64(g-1)
		w(int32(-1)); w(int32(binary.Size(hd))); w(hd)
		for i := 0; i < 6*g*g*g; i++ { w(float32(i) + 0.5) }
		f := os.Getenv("DEMO_TMP") + "/sheet"
		os.WriteFile(f, b.Bytes(), 0666)
		xs, vs := make([]geom.Vec, g*g*g), make([]geom.Vec, g*g*g)
		if err := io.ReadSheetPositionsAt(f, xs); err != nil { fail("%v", err) }
		if err := io.ReadSheetVelocitiesAt(f, vs); err != nil { fail("%v", err) }
		for i := range xs { for d := 0; d < 3; d++ {
			if xs[i][d] != float32(3*i+d)+0.5 || vs[i][d] != float32(3*g*g*g+3*i+d)+0.5 { fail("grid width %d, vector %d: %v %v", g, i, xs[i], vs[i]) }
		}}
	}
}
'''))

S(id="c06-vector-refusal", property="C06",
  edits=[("render/io/output.go", "    if hd.Type.IsVectorGrid == 1 {\n",
          "    if density.Quantity(hd.Type.GridType) == density.Velocity {\n")],
  needs="a vector grid of another quantity than the velocity (density gradient, velocity curl)",
  breaks="the scalar reader returns the first component of gradient and curl grids as if they were scalar grids",
  demo=prog([GT+"render/io", GT+"render/density", GT+"render/geom", "bytes"], r'''
func main() {
	for q := density.Density; q < density.EndQuantity; q++ {
		w := [3]int{6, 6, 6}
		g := geom.NewGridLocation([3]int{}, w, 12, 12)
		buf := density.NewBuffer(q, 216, 1, g)
		_, scalar := buf.FinalizedScalarBuffer()
		b := &bytes.Buffer{}
		io.WriteBuffer(buf, io.NewCosmoInfo(70, 0.25, 0.75, 0, 12), io.NewRenderInfo(1, 12, 1, ""), io.NewLocationInfo([3]int{}, w, 1), b)
		f := os.Getenv("DEMO_TMP") + "/g.gtet"
		os.WriteFile(f, b.Bytes(), 0666)
		_, err := io.ReadGrid(f)
		if scalar != (err == nil) { fail("%v: scalar %v, read error %v", q, scalar, err) }
	}
}
'''))

S(id="c07-vector-wrap", property="C07",
  edits=[("render/box.go", '''				if iDom < 0 {
					iDom += w.cells
				} else if iDom >= w.cells {
					iDom -= w.cells
				}
				if iDom >= w.domCb.Width[iDim] { continue }
				
				domIdx := iDom + flatDomJ
				bufIdx := iBuf + flatBufJ
				grid[domIdx][0] += buf[bufIdx][0]
''', '''				if iDom < 0 { iDom += w.cells }
				if iDom >= w.domCb.Width[iDim] { continue }
				
				domIdx := iDom + flatDomJ
				bufIdx := iBuf + flatBufJ
				grid[domIdx][0] += buf[bufIdx][0]
''')],
  needs="a projected velocity box and a segment buffer which crosses the periodic boundary while the box lies above it",
  breaks="velocity samples of a segment that wraps around along the first image axis are lost",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], r'''
func main() {
	// cells of width 1; a thin segment around x = 0 seen from a box starting at x = 1
	cells := 16
	for _, q := range []density.Quantity{density.Density, density.Velocity} {
		con := &io.BoxConfig{X: 0.5, Y: 0.5, Z: 0.5, XWidth: 9, YWidth: 9, ZWidth: 9, ProjectionAxis: "Z"}
		box := render.NewBox(16, 1, cells, q, con)
		hd := &io.SheetHeader{}
		hd.TotalWidth = 16
		hd.Origin, hd.Width = geom.Vec{14.5, 1.5, 1.5}, geom.Vec{4, 1, 1}
		over := box.Overlap(hd)
		cb := hd.CellBounds(cells)
		vecs := []geom.Vec{{15.5, 1.5, 1.5}, {0.5, 1.5, 1.5}, {2.25, 2.25, 2.25}}
		over.ScaleVecs(vecs, cb)
		buf := density.NewBuffer(q, over.BufferSize(), 3, nil)
		var wt density.Buffer = density.NilBuffer
		if q == density.Velocity {
			wt = density.NewBuffer(q, 3, 3, nil)
			vb, _ := wt.VectorBuffer()
			for i := range vb { vb[i] = [3]float64{1, 2, 3} }
		}
		over.Interpolate(buf, vecs, nil, 1, wt, 0, 3, 1)
		over.Add(buf, box.Vals())
		sum := 0.0
		if v, ok := box.Vals().ScalarBuffer(); ok {
			for _, x := range v { sum += x * float64(box.CellSpan()[2]) }
		} else {
			v, _ := box.Vals().VectorBuffer()
			for _, x := range v { sum += x[0] }
		}
		if sum < 1.999 || sum > 2.001 { fail("%v: %g samples inside the box, want 2", q, sum) }
	}
}
'''))

S(id="c09-chunked-workers", property="C09",
  edits=[("render/render.go", '''		man.workspaces[id].lowX = id
		man.workspaces[id].highX = segLen
''', '''		chunk := segLen / man.workers
		man.workspaces[id].lowX = id * chunk
		man.workspaces[id].highX = (id + 1) * chunk
'''), ("render/render.go", '''			r.ptVal(man), density.NilBuffer,
			w.lowX, w.highX, man.workers,
		)
	} else {''', '''			r.ptVal(man), density.NilBuffer,
			w.lowX, w.highX, 1,
		)
	} else {''')],
  needs="a number of threads that does not divide the number of cubes of a segment",
  breaks="the cubes left over by the division are dealt to no worker",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	f := os.Getenv("DEMO_TMP") + "/s.dat"
	n := 4
	sheet(f, n, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(x)*2 + 1, float32(y)*2 + 1, float32(z)*2 + 1} }, nil)
	for _, w := range []int{1, 2, 3, 5, 8} {
		render.NumCores = w
		box := render.NewBox(16, 4, 16, density.Density, &io.BoxConfig{XWidth: 15.5, YWidth: 15.5, ZWidth: 15.5})
		man, err := render.NewManager([]string{f}, []render.Box{box}, false, density.Density); must(err)
		must(man.RenderDensity())
		v, _ := box.Vals().ScalarBuffer()
		sum := 0.0
		for _, x := range v { sum += x }
		if want := 4096.0; sum < want*0.999 || sum > want*1.001 { fail("%d threads: mass %g, want %g", w, sum, want) }
	}
}
'''))

S(id="c09-scaled-reuse", property="C09",
  edits=[("render/render.go", """		r.scaleXs(man)
		r.initWorkspaces(man)
""", """		// Boxes with the same pixels share their scaled positions.
		if ri == 0 || r.box.Cells() != man.renderers[ri - 1].box.Cells() ||
			!man.renderers[ri - 1].requiresFile(file) {
			r.scaleXs(man)
		}
		r.initWorkspaces(man)
""")],
  needs="two boxes in one run of which one is smaller than the segments (and accumulated in its own pixels)",
  breaks="positions scaled for one box are used for the next one, whose pixels start elsewhere",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	n := 4
	at := func(x, y, z int) geom.Vec { return geom.Vec{float32(x*x)/4 + 1, float32(y*y)/4 + 1, float32(z*z)/4 + 1} }
	sheet(tmp+"/a.dat", n, 16, at, nil)
	render.NumCores = 2
	// box 0 holds the whole segment, the others parts of it
	x := []float64{0, 1.25, 2.25}
	w := []float64{7.5, 1.5, 2.5}
	mass := func(idx ...int) []float64 {
		var boxes []render.Box
		for _, i := range idx {
			boxes = append(boxes, render.NewBox(16, 200, 16, density.Density, &io.BoxConfig{X: x[i], Y: x[i], Z: x[i], XWidth: w[i], YWidth: w[i], ZWidth: w[i]}))
		}
		man, err := render.NewManager([]string{tmp + "/a.dat"}, boxes, false, density.Density); must(err)
		must(man.RenderDensity())
		var sums []float64
		for _, b := range boxes {
			v, _ := b.Vals().ScalarBuffer()
			s := 0.0
			for _, x := range v { s += x }
			sums = append(sums, s)
		}
		return sums
	}
	for _, order := range [][]int{{0, 1, 2}, {1, 2, 0}, {2, 1, 0}, {1, 0, 2}} {
		for k, m := range mass(order...) {
			alone := mass(order[k])[0]
			if m < 0.9*alone || m > 1.1*alone { fail("boxes %v: box %d holds %g, rendered alone %g", order, order[k], m, alone) }
		}
	}
}
'''))

S(id="c10-upper-edge", property="C10",
  edits=[("render/box.go", '''		b.cb.Width[j] = 1 + int(
			math.Floor((width[j] + origin[j]) / cellWidth),
		)
		b.cb.Width[j] -= b.cb.Origin[j]
	}

	b.cells = cells
	b.pts = pts
	b.cellWidth = cellWidth

	len := b.cb.Width[0]''', '''		b.cb.Width[j] = int(
			math.Ceil((width[j] + origin[j]) / cellWidth),
		)
		b.cb.Width[j] -= b.cb.Origin[j]
	}

	b.cells = cells
	b.pts = pts
	b.cellWidth = cellWidth

	len := b.cb.Width[0]''')],
  needs="a three dimensional box whose upper edge lies exactly on a pixel edge",
  breaks="the last pixel of the range, floor((X+W)/p), is left out",
  demo=prog([GT+"render", GT+"render/io", GT+"render/density"], r'''
func main() {
	for _, w := range []float64{1, 1.5, 2, 2.25, 4} {
		for _, axis := range []string{"", "X", "Y", "Z"} {
			b := render.NewBox(16, 1, 32, density.Density, &io.BoxConfig{X: 3.25, Y: 3.5, Z: 0, XWidth: w, YWidth: w, ZWidth: w, ProjectionAxis: axis})
			x := []float64{3.25, 3.5, 0}
			for d := 0; d < 3; d++ {
				lo, hi := int(x[d]*2), int((x[d]+w)*2)
				if b.CellOrigin()[d] != lo || b.CellSpan()[d] != hi-lo+1 { fail("width %g axis %q: %v %v", w, axis, b.CellOrigin(), b.CellSpan()) }
			}
		}
	}
}
'''))

S(id="c11-stale-barycenter", property="C11",
  edits=[("render/geom/tetra.go", '''	t.volumeValid = false
	t.baryValid = false

	t.Corners[0] = *c0
	t.Corners[1] = *c1
	t.Corners[2] = *c2
	t.Corners[3] = *c3
''', '''	if t.Corners[0] != *c0 || t.Corners[1] != *c1 || t.Corners[2] != *c2 {
		t.volumeValid = false
		t.baryValid = false
	}

	t.Corners[0] = *c0
	t.Corners[1] = *c1
	t.Corners[2] = *c2
	t.Corners[3] = *c3
''')],
  needs="re-initialising a used tetrahedron with corners of which only the fourth differs",
  breaks="volume, barycentre and everything sampled afterwards are those of the previous tetrahedron",
  demo=prog([GT+"render/geom"], r'''
func main() {
	a, b, c := &geom.Vec{0, 0, 0}, &geom.Vec{4, 0, 0}, &geom.Vec{0, 4, 0}
	t := geom.NewTetra(a, b, c, &geom.Vec{0, 0, 4})
	t.Volume(); t.Barycenter()
	out := make([]geom.Vec, 1)
	for _, d := range []*geom.Vec{{0, 0, 8}, {4, 4, 4}} {
		t.Init(a, b, c, d)
		f := geom.NewTetra(a, b, c, d)
		if t.Volume() != f.Volume() || *t.Barycenter() != *f.Barycenter() { fail("%v %v", t.Volume(), *t.Barycenter()) }
		t.DistributeTetra([]geom.Vec{{0.25, 0.25, 0.25}}, out)
		if out[0] != *f.Barycenter() { fail("%v", out) }
	}
}
'''))

S(id="c12-long-displacement", property="C12",
  edits=[("render/geom/vec.go", '''		if diff < -w {
			diff += w
		} else if diff >= w {
			diff -= w
		}

		if diff > w2 {''', '''		if diff > w2 {''')],
  needs="two points more than one and a half box widths apart",
  breaks="their displacement is not folded all the way into half a box width",
  demo=prog([GT+"render/geom"], r'''
func main() {
	for a := -16; a <= 16; a++ {
		u, v := geom.Vec{float32(a), 0, 0}, geom.Vec{0, float32(a), 0}
		d := u.Sub(&v, 8)
		for i, x := range d {
			want := []float64{float64(a), float64(-a), 0}[i]
			m := (float64(x) - want) / 8
			if x > 4 || x < -4 || m != float64(int(m)) { fail("%v - %v = %v", u, v, *d) }
		}
	}
}
'''))

S(id="c13-wrap-subtract", property="C13",
  edits=[("render/geom/deriv.go", '''func (d *deriv4Sub) wrapDeriv(idx, di, pos, width int) {
	d.out[idx] -= d.wrap(idx, di, pos, width)
}''', '''func (d *deriv4Sub) wrapDeriv(idx, di, pos, width int) {
	d.out[idx] = -d.wrap(idx, di, pos, width)
}''')],
  needs="a subtracting fourth order derivative (a curl) on a grid that fills the box along an axis",
  breaks="near the periodic faces the curl loses its first term",
  demo=prog([GT+"render/geom"], r'''
func main() {
	n := 8
	g := geom.NewGridLocation([3]int{}, [3]int{n, n, n}, float64(n), n)
	vals := make([]float32, n*n*n)
	for i := range vals { vals[i] = float32((i*i*7 + i) % 13) }
	for _, order := range []int{2, 4} {
		for ax := 0; ax < 3; ax++ {
			d, s := make([]float32, len(vals)), make([]float32, len(vals))
			for i := range s { s[i] = 100 }
			g.Deriv(vals, d, ax, &geom.DerivOptions{true, geom.None, order})
			g.Deriv(vals, s, ax, &geom.DerivOptions{true, geom.Subtract, order})
			for i := range s {
				if x := s[i] + d[i] - 100; x > 0.01 || x < -0.01 { fail("order %d axis %d index %d: %g - %g", order, ax, i, s[i], d[i]) }
			}
		}
	}
}
'''))

S(id="c14-coarse-cubes", property="C14",
  edits=[("render/hist.go", "	jump := man.skip\n	w, L := int(man.hd.GridWidth)", "	jump := 1\n	w, L := int(man.hd.GridWidth)")],
  needs="a subsampled histogram and a box that only the far part of a coarse cube reaches",
  breaks="cubes are tested with the bounds of their first fine cube, so samples of coarse cubes that reach the box are not counted",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density", "bytes"], SHEET + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	n := 8
	sheet(tmp+"/a.dat", n, 64, func(x, y, z int) geom.Vec { return geom.Vec{float32(2*x), float32(2*y), float32(2*z)} }, nil)
	w := [3]int{16, 16, 16}
	buf := density.NewBuffer(density.Density, 4096, 1, geom.NewGridLocation([3]int{}, w, 64, 64))
	v, _ := buf.ScalarBuffer()
	for i := range v { v[i] = 1 }
	b := &bytes.Buffer{}
	io.WriteBuffer(buf, io.NewCosmoInfo(70, 0.25, 0.75, 0, 64), io.NewRenderInfo(1, 64, 1, ""), io.NewLocationInfo([3]int{}, w, 1), b)
	must(os.WriteFile(tmp+"/g.gtet", b.Bytes(), 0666))
	render.NumCores = 2
	for _, skip := range []int{1, 2, 4} {
		total := 0
		for i := 0; i < 8; i++ {
			lo := func(k int) float64 { return float64(8 * (i >> uint(k) & 1)) }
			box := render.NewHistBox(&io.BoxConfig{X: lo(0), Y: lo(1), Z: lo(2), XWidth: 8, YWidth: 8, ZWidth: 8}, 1)
			box2 := render.NewHistBox(&io.BoxConfig{X: lo(0) + 5, Y: lo(1) + 5, Z: lo(2) + 5, XWidth: 3, YWidth: 3, ZWidth: 3}, 1)
			boxes := []render.HistBox{box, box2}
			man, err := render.NewHistManager([]string{tmp + "/a.dat"}, boxes, 64, "Density", tmp+"/g.gtet"); must(err)
			man.Subsample(skip)
			must(man.Hist(&render.HistInfo{Min: 0, Max: 2, Bins: 1, Scale: "Linear"}))
			total += boxes[0].Counts[0]
			if boxes[1].Counts[0] == 0 { fail("subsampling %d: nothing in the corner of the box at %v", skip, box.Origin) }
		}
		m := n / skip
		if total != 6*64*m*m*m { fail("subsampling %d: %d samples, want %d", skip, total, 6*64*m*m*m) }
	}
}
'''))

S(id="c15-subsample-rule", property="C15",
  edits=[("render/io/config.go", '''	for {
		if s == 1 { return true }
		if s % 2 == 1 { return false }
		s /= 2
	}
''', '''	for s > 1 { s /= 2 }
	return s == 1
''')],
  needs="a TetraHist configuration with a SubsampleLength that is no power of two",
  breaks="every positive subsampling length is accepted",
  demo=prog([GT+"render/io"], r'''
func main() {
	for s := -4; s < 70; s++ {
		con := &io.TetraHistConfig{SubsampleLength: s}
		want := false
		for p := 1; p < 70; p *= 2 { want = want || s == p }
		if con.ValidSubsampleLength() != want { fail("SubsampleLength %d: %v", s, !want) }
	}
}
'''))

S(id="c16-name-order", property="C16",
  edits=[("render/main/main.go", '''			con.PrependName, cBox.Name, con.AppendName))

		log.Printf("Writing to %s", out)
		f, err := os.Create(out)
		defer f.Close()
		if err != nil { log.Fatalf("Could not create %s.", out) }
		
		loc :=''', '''			con.PrependName, strings.TrimSpace(cBox.Name), con.AppendName))

		log.Printf("Writing to %s", out)
		f, err := os.OpenFile(out, os.O_RDWR | os.O_CREATE, 0666)
		defer f.Close()
		if err != nil { log.Fatalf("Could not create %s.", out) }
		
		loc :=''')],
  needs="rendering over the larger file of an earlier run",
  breaks="an existing file is not truncated: the new grid is followed by the remains of the old one",
  demo=prog([GT+"render/io", GT+"render/geom", "os/exec"], SHEET + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := tmp + "/gotetra"
	c := exec.Command("go", "build", "-o", bin, "./render/main")
	c.Dir = os.Getenv("DEMO_REPO")
	if b, err := c.CombinedOutput(); err != nil { fmt.Println(string(b)); os.Exit(3) }
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	sheet(tmp+"/in/a.dat", 4, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(2*x), float32(2*y), float32(2*z)} }, nil)
	con := "[Render]\nQuantity = Density\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nTotalPixels = 16\nParticles = 2\n"
	must(os.WriteFile(tmp+"/r.txt", []byte(con), 0666))
	for _, w := range []string{"7.5", "3.5"} {
		must(os.WriteFile(tmp+"/b.txt", []byte("[Box \"b\"]\nX = 1\nY = 1\nZ = 1\nXWidth = "+w+"\nYWidth = 3\nZWidth = 3\n"), 0666))
		b, err := exec.Command(bin, "-Render", tmp+"/r.txt", tmp+"/b.txt").CombinedOutput()
		if err != nil { fail("%s", string(b)) }
		hd, err := io.ReadGridHeader(tmp + "/out/b.gtet"); must(err)
		fi, err := os.Stat(tmp + "/out/b.gtet"); must(err)
		n := hd.Type.HeaderSize + 4*hd.Loc.PixelSpan[0]*hd.Loc.PixelSpan[1]*hd.Loc.PixelSpan[2]
		if fi.Size() != n { fail("width %s: file has %d bytes, its header says %d", w, fi.Size(), n) }
	}
}
'''))

S(id="c10-image-pixels", property="C10",
  edits=[("render/main/main.go", '''	if max > box.ZWidth {
		return max
	} else {
		return box.ZWidth
	}
''', '''	if box.ProjectionAxis == "Z" || max > box.ZWidth {
		return max
	} else {
		return box.ZWidth
	}
''')],
  needs="ImagePixels with a box projected along z that is longest along z",
  breaks="the number of pixels is taken from the longest side of the image instead of the box",
  demo=prog([GT+"render/io", GT+"render/geom", "os/exec"], SHEET + r'''
func main() {
	tmp := os.Getenv("DEMO_TMP")
	bin := tmp + "/gotetra"
	c := exec.Command("go", "build", "-o", bin, "./render/main")
	c.Dir = os.Getenv("DEMO_REPO")
	if b, err := c.CombinedOutput(); err != nil { fmt.Println(string(b)); os.Exit(3) }
	must(os.MkdirAll(tmp+"/in", 0777)); must(os.MkdirAll(tmp+"/out", 0777))
	sheet(tmp+"/in/a.dat", 4, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(2*x), float32(2*y), float32(2*z)} }, nil)
	con := "[Render]\nQuantity = Density\nInput = " + tmp + "/in\nOutput = " + tmp + "/out\nImagePixels = 8\nParticles = 2\n"
	must(os.WriteFile(tmp+"/r.txt", []byte(con), 0666))
	for _, axis := range []string{"X", "Y", "Z", ""} {
		line := ""
		if axis != "" { line = "ProjectionAxis = " + axis + "\n" }
		must(os.WriteFile(tmp+"/b.txt", []byte("[Box \"b\"]\nX = 1\nY = 1\nZ = 1\nXWidth = 2\nYWidth = 2\nZWidth = 4\n"+line), 0666))
		b, err := exec.Command(bin, "-Render", tmp+"/r.txt", tmp+"/b.txt").CombinedOutput()
		if err != nil { fail("%s", string(b)) }
		hd, err := io.ReadGridHeader(tmp + "/out/b.gtet"); must(err)
		if hd.Render.TotalPixels != 32 { fail("axis %q: %d pixels per side, want 32", axis, hd.Render.TotalPixels) }
	}
}
'''))

S(id="c17-small-selection", property="C17",
  edits=[("math/sort/median.go", '''	var medSlice []float64
	if len(buf) == 0 {
		medSlice = make([]float64, len(xs))
	} else {''', '''	var medSlice []float64
	if len(xs) <= 3 {
		// No partitioning, no need for a copy.
		return nthLargest(xs, n)
	} else if len(buf) == 0 {
		medSlice = make([]float64, len(xs))
	} else {''')],
  needs="selecting from a slice of two descending elements",
  breaks="the caller's slice is reordered",
  demo=prog([GT+"math/sort"], r'''
func main() {
	for _, xs := range [][]float64{{1}, {2, 1}, {1, 2}, {3, 2, 1}, {2, 3, 1}, {4, 3, 2, 1}} {
		cp := append([]float64{}, xs...)
		for n := 1; n <= len(xs); n++ { sort.NthLargest(xs, n) }
		sort.Median(xs); sort.Percentile(xs, 0.3)
		for i := range xs { if xs[i] != cp[i] { fail("%v became %v", cp, xs) } }
	}
}
'''))

S(id="c08-velocity-cache", property="C08",
  edits=[("render/density/interpolator.go", '''			if reqVel {
				intr.vtet.Init(''', '''			if reqVel && (dir == 0 || low == 0) {
				intr.vtet.Init(''')],
  needs="a velocity quantity and a worker other than the first",
  breaks="the other workers use the velocities of a cube's first tetrahedron for all six",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	f := os.Getenv("DEMO_TMP") + "/s.dat"
	n := 4
	// velocities linear in position: every sample has v = x, pixel means lie within their pixel
	at := func(x, y, z int) geom.Vec { return geom.Vec{float32(2*x) + 1, float32(2*y) + 1, float32(2*z) + 1} }
	sheet(f, n, 16, at, at)
	for _, w := range []int{1, 2, 3} {
		render.NumCores = w
		box := render.NewBox(16, 50, 16, density.Velocity, &io.BoxConfig{X: 1, Y: 1, Z: 1, XWidth: 7.5, YWidth: 7.5, ZWidth: 7.5})
		man, err := render.NewManager([]string{f}, []render.Box{box}, false, density.Velocity); must(err)
		must(man.RenderDensity())
		v, _ := box.Vals().VectorBuffer()
		num, _ := box.Vals().CountBuffer()
		o, s := box.CellOrigin(), box.CellSpan()
		for i := range v {
			if num[i] == 0 { continue }
			p := []int{o[0] + i%s[0], o[1] + i/s[0]%s[1], o[2] + i/s[0]/s[1]}
			for d := 0; d < 3; d++ {
				m := v[i][d] / float64(num[i])
				if m < float64(p[d])-0.01 || m > float64(p[d])+1.01 { fail("%d threads, pixel %v: mean velocity %g in component %d", w, p, m, d) }
			}
		}
	}
}
'''))
