import runpy, os
d = os.path.dirname(__file__)
b1, b2, b3 = (runpy.run_path(os.path.join(d, "batch%d.py" % k)) for k in (1, 2, 3))
prog, GT, RUN, SHEET, BUILD, HALO_SH, STUB = b1["prog"], b1["GT"], b1["RUN"], b1["SHEET"], b3["BUILD"], b2["HALO_SH"], b2["STUB"]
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="c08-many-samples", property="C08",
  edits=[("render/density/interpolator.go", """			intr.subIntr.Interpolate(
				buf, intr.vecBuf, nil, ptVal, bweights, 0, intr.points, 1,
			)
""", """			// Deposit the samples in pieces which fit into the cache.
			const piece = 32
			intr.subIntr.Interpolate(
				buf, intr.vecBuf, nil, ptVal, bweights,
				0, intr.points % piece, 1,
			)
			for lo := intr.points % piece; lo < intr.points; lo += piece {
				intr.subIntr.Interpolate(
					buf, intr.vecBuf[lo: lo + piece], nil, ptVal, bweights,
					0, piece, 1,
				)
			}
""")],
  needs="32 samples per tetrahedron or more, and velocities", breaks="the later samples get the velocities of the first ones",
  demo=prog([GT+"render", GT+"render/io", GT+"render/geom", GT+"render/density"], SHEET + r'''
func main() {
	render.NumCores = 1
	f := os.Getenv("DEMO_TMP") + "/s.dat"
	// The velocity is twice the position.
	sheet(f, 1, 16, func(x, y, z int) geom.Vec { return geom.Vec{1 + 8 * float32(x), 1 + 8 * float32(y), 1 + 8 * float32(z)} },
		func(x, y, z int) geom.Vec { return geom.Vec{2 + 16 * float32(x), 2 + 16 * float32(y), 2 + 16 * float32(z)} })
	for _, pts := range []int{8, 31, 64, 500} {
		box := render.NewBox(16, pts, 16, density.Velocity, &io.BoxConfig{XWidth: 15.5, YWidth: 15.5, ZWidth: 15.5})
		man, err := render.NewManager([]string{f}, []render.Box{box}, false, density.Velocity); must(err)
		must(man.RenderDensity())
		xs, _, _, _ := box.Vals().FinalizedVectorBuffer()
		for i, v := range xs {
			if x := float32(i % 16); v != 0 && (v < 2 * x - 0.01 || v > 2 * x + 2.01) { fail("%d samples: velocity %g at pixel %g", pts, v, x) }
		}
	}
}
'''))
