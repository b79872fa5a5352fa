import runpy, os
d = os.path.dirname(__file__)
b1, b2, b3 = (runpy.run_path(os.path.join(d, "batch%d.py" % k)) for k in (1, 2, 3))
prog, GT, RUN, SHEET, BUILD, HALO_SH, STUB = b1["prog"], b1["GT"], b1["RUN"], b1["SHEET"], b3["BUILD"], b2["HALO_SH"], b2["STUB"]
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c11-shared-scratch", property="C11",
  edits=[("render/geom/tetra.go", '''	volumeValid, baryValid bool
''', '''	volumeValid, baryValid, boundsValid bool
'''), ("render/geom/tetra.go", '''	t.baryValid = false

	t.Corners[0]''', '''	t.baryValid = false
	t.boundsValid = false

	t.Corners[0]'''), ("render/geom/tetra.go", '''func (t *Tetra) Contains(v *Vec) bool {
''', '''func (t *Tetra) Contains(v *Vec) bool {
	// Most points are far away.
	mins, maxes := t.bounds()
	for i := range v {
		if v[i] < mins[i] || v[i] > maxes[i] { return false }
	}
'''), ("render/geom/tetra.go", '''// CellBoundsAt is the same''', '''// bounds returns the smallest and largest coordinates of the corners.
func (t *Tetra) bounds() (mins, maxes *Vec) {
	mins, maxes = &t.sb.d[0], &t.sb.d[1]
	if t.boundsValid { return mins, maxes }

	*mins, *maxes = t.Corners[0], t.Corners[0]
	for j := 1; j < 4; j++ {
		for i := 0; i < 3; i++ {
			if t.Corners[j][i] < mins[i] {
				mins[i] = t.Corners[j][i]
			} else if t.Corners[j][i] > maxes[i] {
				maxes[i] = t.Corners[j][i]
			}
		}
	}
	t.boundsValid = true
	return mins, maxes
}

// CellBoundsAt is the same'''), ("render/geom/tetra.go", '''	mins := &t.sb.d[0]
	maxes := &t.sb.d[1]
	for i := 0; i < 3; i++ {
		mins[i] = t.Corners[0][i]
		maxes[i] = t.Corners[0][i]
	}

	for j := 1; j < 4; j++ {
		for i := 0; i < 3; i++ {
			if t.Corners[j][i] < mins[i] {
				mins[i] = t.Corners[j][i]
			} else if t.Corners[j][i] > maxes[i] {
				maxes[i] = t.Corners[j][i]
			}
		}
	}
''', '''	mins, maxes := t.bounds()
''')],
  needs="the cell bounds of a tetrahedron asked for, and then its containment of a point or the bounds again",
  breaks="the scratch vector the widths are computed in is the one the upper corner is kept in",
  demo=prog([GT+"render/geom"], r'''
func main() {
	c := [4]geom.Vec{{5, 5, 5}, {9, 5, 5}, {5, 9, 5}, {5, 5, 9}}
	t := geom.NewTetra(&c[0], &c[1], &c[2], &c[3])
	p := geom.Vec{6, 6, 6}
	if !t.Contains(&p) { fail("point inside is not contained") }
	b1 := *t.CellBounds(1)
	if !t.Contains(&p) { fail("point inside is not contained after the cell bounds were asked for") }
	if b2 := *t.CellBounds(1); b1 != b2 { fail("bounds %v, later %v", b1, b2) }
}
'''))

S(id="c08-flat-tetrahedra", property="C08",
  edits=[("render/density/interpolator.go", '''			if !tetCb.Intersect(relCb, intr.cells) { continue }
''', '''			// Tetrahedra which are far away or hold nothing.
			if !tetCb.Intersect(relCb, intr.cells) || intr.tet.Volume() == 0 {
				continue
			}
''')],
  needs="tetrahedra which collapsed to a plane, a line or a point", breaks="their mass is missing",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	f := os.Getenv("DEMO_TMP") + "/s.dat"
	// a pancake: all particles are in one plane
	sheet(f, 4, 16, func(x, y, z int) geom.Vec { return geom.Vec{float32(x)*2 + 1, float32(y)*2 + 1, 5.5} }, nil)
	render.NumCores = 2
	box := render.NewBox(16, 4, 16, density.Density, &io.BoxConfig{XWidth: 15.5, YWidth: 15.5, ZWidth: 15.5})
	man, err := render.NewManager([]string{f}, []render.Box{box}, false, density.Density); must(err)
	must(man.RenderDensity())
	v, _ := box.Vals().ScalarBuffer()
	sum := 0.0
	for _, x := range v { sum += x }
	if sum < 4090 || sum > 4100 { fail("mass %g, want 4096", sum) }
}
'''))

S(id="c23-cosmo-pointer", property="C23", demo_sh=HALO_SH, files={"table.go": STUB},
  edits=[("render/halo/radius.go", '''func (r Radius) Radius(c *io.CosmologyHeader, ms, out []float64) {
	var rho float64
	h0 := c.H100 * 100

	switch r {
	case RVirial:
		rho = 177.653 * cosmo.RhoCritical(h0, c.OmegaM, c.OmegaL, c.Z)
	case R200c:
		rho = 200 * cosmo.RhoCritical(h0, c.OmegaM, c.OmegaL, c.Z)
	case R200m:
		rho = 200 * cosmo.RhoAverage(h0, c.OmegaM, c.OmegaL, c.Z)
	case R500c:
		rho = 500 * cosmo.RhoCritical(h0, c.OmegaM, c.OmegaL, c.Z)
	case R2500c:
		rho = 2500 * cosmo.RhoCritical(h0, c.OmegaM, c.OmegaL, c.Z)
	}

	a := 1''', '''type rhoKey struct {
	c *io.CosmologyHeader
	r Radius
}

// Catalogues are converted column by column.
var rhos = map[rhoKey]float64{}

// rho returns the density within a radius of this type.
func (r Radius) rho(c *io.CosmologyHeader) float64 {
	rho, ok := rhos[rhoKey{c, r}]
	if ok { return rho }
	h0 := c.H100 * 100

	switch r {
	case RVirial:
		rho = 177.653 * cosmo.RhoCritical(h0, c.OmegaM, c.OmegaL, c.Z)
	case R200c:
		rho = 200 * cosmo.RhoCritical(h0, c.OmegaM, c.OmegaL, c.Z)
	case R200m:
		rho = 200 * cosmo.RhoAverage(h0, c.OmegaM, c.OmegaL, c.Z)
	case R500c:
		rho = 500 * cosmo.RhoCritical(h0, c.OmegaM, c.OmegaL, c.Z)
	case R2500c:
		rho = 2500 * cosmo.RhoCritical(h0, c.OmegaM, c.OmegaL, c.Z)
	}
	rhos[rhoKey{c, r}] = rho
	return rho
}

func (r Radius) Radius(c *io.CosmologyHeader, ms, out []float64) {
	rho := r.rho(c)
	a := 1''')],
  needs="one cosmology header filled with the values of one snapshot after another",
  breaks="radii of later snapshots are those of the first one's densities",
  demo=prog([GT+"render/halo", GT+"render/io", "math"], r'''
func main() {
	c := &io.CosmologyHeader{OmegaM: 0.25, OmegaL: 0.75, H100: 0.7}
	for _, z := range []float64{0, 1, 3, 0.5} {
		c.Z = z
		for _, r := range []halo.Radius{halo.R200m, halo.RVirial, halo.R200c, halo.R500c} {
			m, rs, back := []float64{1e14}, []float64{0}, []float64{0}
			r.Radius(c, m, rs)
			r.Mass(c, rs, back)
			if math.Abs(back[0]/1e14 - 1) > 1e-6 { fail("z=%g %s: mass %g, want 1e14", z, r, back[0]) }
		}
	}
}
'''))

S(id="c23-large-ids", property="C23", demo_sh=HALO_SH, files={"table.go": STUB},
  edits=[("render/halo/io.go", '''	for i := range rids { rids[i] = int(ids[i]) }
''', '''	for i := range rids { rids[i] = int(float32(ids[i])) }
''')],
  needs="IDs above 2^24", breaks="IDs of halos are rounded",
  demo=prog([GT+"render/halo", GT+"render/io"], r'''
func main() {
	f := os.Getenv("DEMO_TMP") + "/h.txt"
	out := ""
	for _, id := range []int{3, 1 << 24 + 1, 123456789, 1 << 40 + 1} {
		for c := 0; c < 62; c++ { if c == 1 { out += fmt.Sprint(id, " ") } else { out += "5 " } }
		out += "\n"
	}
	os.WriteFile(f, []byte(out), 0644)
	ids, _, _, _, _, _, err := halo.ReadRockstar(f, halo.R200c, &io.CosmologyHeader{OmegaM: 0.25, OmegaL: 0.75, H100: 0.7})
	if err != nil { fail("%v", err) }
	want := map[int]bool{3: true, 1 << 24 + 1: true, 123456789: true, 1 << 40 + 1: true}
	for _, id := range ids { if !want[id] { fail("no halo has the ID %d", id) } }
}
'''))

S(id="c15-name-clash", property="C15",
  edits=[("render/io/config.go", '''		boxes = append(boxes, *ball.Box(totalWidth))
	}
	for name, box := range bc.Box {
''', '''		boxes = append(boxes, *ball.Box(totalWidth))
	}
	for name, box := range bc.Box {
		// The names of regions are those of their files.
		if bc.Ball[name] != nil { continue }
'''), ("render/io/config.go", '''	boxes := []BoxConfig{}
	for name, ball''', '''	boxes := make([]BoxConfig, 0, len(bc.Ball) + len(bc.Box))
	for name, ball''')],
  needs="a Ball and a Box with the same name in one file", breaks="the Box is dropped, valid or not",
  demo=prog([GT+"render/io"], r'''
func main() {
	f := os.Getenv("DEMO_TMP") + "/b.cfg"
	os.WriteFile(f, []byte("[Ball \"a\"]\nX = 5\nY = 5\nZ = 5\nRadius = 1\n\n[Box \"a\"]\nX = 1\nY = 1\nZ = 1\nXWidth = 2\nYWidth = 2\nZWidth = 2\n"), 0644)
	boxes, err := io.ReadBoundsConfig(f, 20)
	if err != nil { fail("%v", err) }
	if len(boxes) != 2 { fail("%d regions, want 2", len(boxes)) }
}
'''))

S(id="c03-box-reused", property="C03",
  edits=[("render/main/main.go", '''	box := &boundingBox{}
	box.Init(&xs''', '''	box := segmentBox
	box.Init(&xs'''), ("render/main/main.go", '''// Add inserts a point''', '''var segmentBox = &boundingBox{}

// Add inserts a point''')],
  needs="more than one segment", breaks="the box around a segment keeps the size of the ones before",
  demo=prog([GT+"render/io", "encoding/binary", "os/exec"], BUILD + r'''
func must(err error) { if err != nil { fmt.Println("demo error:", err); os.Exit(3) } }
func main() {
	tmp := os.Getenv("DEMO_TMP")
	must(os.MkdirAll(tmp+"/in", 0755)); must(os.MkdirAll(tmp+"/out", 0755))
	f, err := os.Create(tmp + "/in/snap.0"); must(err)
	w := func(x interface{}) { must(binary.Write(f, binary.LittleEndian, x)) }
	n := 64
	w(int32(256))
	w([6]uint32{0, uint32(n)}); w([6]float64{0, 2}); w(1.0); w(0.0)
	w([2]int32{}); w([6]uint32{0, uint32(n)}); w([2]int32{0, 1})
	w(100.0); w(0.25); w(0.75); w(0.5); w([2]int32{}); w([88]byte{}); w(int32(256))
	w(int32(12*n))
	// spacings grow smaller along x: the second segment is a narrow one
	px := []float32{0, 15, 30, 35}
	for i := 0; i < n; i++ { w([3]float32{px[i % 4], float32(i / 4 % 4) * 10, float32(i / 16) * 10}) }
	w(int32(12*n)); w(int32(12*n))
	w(make([]float32, 3*n)); w(int32(12*n)); w(int32(8*n))
	for i := 0; i < n; i++ { w(uint64(i + 1)) }
	w(int32(8*n)); must(f.Close())
	cfg := tmp + "/c.cfg"
	must(os.WriteFile(cfg, []byte("[ConvertSnapshot]\nInput="+tmp+"/in\nOutput="+tmp+"/out\nInputFormat=LGadget-2\nCells=4\n"), 0644))
	if b, err := exec.Command(buildMain(), "-ConvertSnapshot", cfg).CombinedOutput(); err != nil { fail("convert: %v %s", err, b) }
	hd := &io.SheetHeader{}
	must(io.ReadSheetHeaderAt(tmp+"/out/sheet200.dat", hd))
	if hd.Width[0] > 5.01 { fail("the segment is 5 wide, its header says %g", hd.Width[0]) }
}
'''))

S(id="c26-no-truncate", property="C26",
  edits=[("render/io/io.go", '''	f, err := os.Create(file)
	if err != nil { log.Fatalf(err.Error()) }
	endiannessFlag := int32(0)
''', '''	f, err := os.OpenFile(file, os.O_WRONLY | os.O_CREATE, 0666)
	if err != nil { log.Fatalf(err.Error()) }
	endiannessFlag := int32(0)
''')],
  needs="a sheet file left by an earlier run which was longer", breaks="its end stays at the end of the new one",
  demo=prog([GT+"render/io", GT+"render/geom"], SHEET + r'''
func main() {
	f := os.Getenv("DEMO_TMP") + "/s.dat"
	at := func(x, y, z int) geom.Vec { return geom.Vec{float32(x), float32(y), float32(z)} }
	sheet(f, 2, 16, at, nil)
	a, err := os.Stat(f); must(err)
	sheet(f, 4, 16, at, nil)
	sheet(f, 2, 16, at, nil)
	b, err := os.Stat(f); must(err)
	if a.Size() != b.Size() { fail("written again, the file has %d instead of %d bytes", b.Size(), a.Size()) }
}
'''))
