// rund drives whole render runs over sheet files, optionally with the workers' steps
// forced into a given order.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	goio "io"
	"log"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/drv"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/io"
)

var (
	dir   string
	boxes []render.Box
	rman  *render.Manager
	hman  *render.HistManager
	hb    []render.HistBox
	broke int
)

// gate lets the steps of the workers happen in the order of a schedule
type gate struct {
	mu     sync.Mutex
	cond   *sync.Cond
	sched  []string
	pos    int
	off    bool
	events []drv.J
	last   time.Time
}

func newGate(sched []string) *gate {
	g := &gate{sched: sched, off: true}
	g.cond = sync.NewCond(&g.mu)
	return g
}

func (g *gate) tick(stop chan bool) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(10 * time.Millisecond):
		}
		g.mu.Lock()
		if !g.off && g.pos < len(g.sched) {
			// nobody can take the next step: a merge that does not come may come later,
			// any other order is one this code cannot follow
			if g.sched[g.pos] == "merge" && time.Since(g.last) > 60*time.Millisecond {
				g.pos++
				g.last = time.Now()
			} else if time.Since(g.last) > 400*time.Millisecond {
				g.off = true
				broke++
			}
		}
		g.cond.Broadcast()
		g.mu.Unlock()
	}
}

func (g *gate) hook(event string, id int, name string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	key := event + strconv.Itoa(id)
	switch event {
	case "begin":
		g.pos, g.off, g.last = 0, len(g.sched) == 0 || broke > 5, time.Now()
	case "start", "done":
		for !g.off && g.pos < len(g.sched) && g.sched[g.pos] != key {
			g.cond.Wait()
		}
		g.pos++
		g.last = time.Now()
		g.cond.Broadcast()
	case "merge":
		if !g.off && g.pos < len(g.sched) && g.sched[g.pos] == "merge" {
			g.pos++
			g.last = time.Now()
			g.cond.Broadcast()
		}
	}
	f := -1
	if name != "" {
		b := filepath.Base(filepath.Dir(name))
		if n, err := strconv.Atoi(strings.TrimPrefix(b, "f")); err == nil {
			f = n
		}
	}
	g.events = append(g.events, drv.J{"e": event, "id": id, "f": f})
}

func num(c drv.J, k string) float64 {
	v, err := strconv.ParseFloat(c.S(k), 64)
	if err != nil {
		panic("bad case: " + k)
	}
	return v
}

// sheets of one run may have the same name
func sheetPath(i int) string {
	return filepath.Join(dir, fmt.Sprintf("f%d", i), fmt.Sprintf("sheet%d.dat", i%2))
}

func gridPath(i int) string { return filepath.Join(dir, fmt.Sprintf("g%d.gtet", i)) }

// value turns the specification's numbers into values: quarters, or twelfths of a decade
// One box configuration is filled again and again.
var sharedBox io.BoxConfig

func value(v int, scale string) float64 {
	if scale == "Log" {
		if v == -100000 {
			return 0
		} else if v == -100001 {
			return -1
		}
		return math.Pow(10, float64(v)/12)
	}
	return float64(v) / 4
}

// shorten cuts the last bytes off a file
func shorten(path string, c drv.J) {
	if _, ok := c["cut"]; !ok || c.I("cut") == 0 {
		return
	}
	st, err := os.Stat(path)
	if err == nil {
		err = os.Truncate(path, st.Size()-int64(c.I("cut")))
	}
	if err != nil {
		panic("bad case: " + err.Error())
	}
}

// schedule installs a gate for the run's schedule
func schedule(c drv.J) (*gate, func()) {
	sched := []string{}
	for _, s := range c.L("sched") {
		sched = append(sched, s.(string))
	}
	g := newGate(sched)
	stop := make(chan bool)
	if len(sched) > 0 {
		go g.tick(stop)
	}
	setHook(g.hook)
	return g, func() {
		setHook(nil)
		close(stop)
	}
}

func main() {
	log.SetOutput(goio.Discard)
	drv.Main(map[string]drv.Handler{
		"begin": func(c drv.J) drv.J {
			if dir != "" {
				os.RemoveAll(dir)
			}
			var err error
			if dir, err = os.MkdirTemp(os.Getenv("DRV_TMP"), "rund [a-b] 100%d {x}*"); err != nil {
				panic("bad case: " + err.Error())
			}
			return drv.J{}
		},
		"sheet": func(c drv.J) drv.J {
			L := num(c, "L")
			u := L / 640
			w := c.I("segw")
			n := w + 1
			hd := &drv.Sheet{Z: 1, OmegaM: .25, OmegaL: .75, H100: .5, CountWidth: int64(c.I("cw")),
				SegmentWidth: int64(w), GridWidth: int64(n), GridCount: int64(n * n * n), Cells: int64(c.I("cw") / w), Mass: 1, TotalWidth: L}
			hd.Count = hd.CountWidth * hd.CountWidth * hd.CountWidth
			o, wd := c.Is("O"), c.Is("Wd")
			for d := 0; d < 3; d++ {
				hd.Origin[d], hd.Width[d] = float32(float64(o[d])*u), float32(float64(wd[d])*u)
			}
			p, v := c.Is("P"), c.Is("V")
			xs, vs := make([][3]float32, n*n*n), make([][3]float32, n*n*n)
			// particles that no run of the session reads when it subsamples
			dec, decoy := c.I("dec"), c.Is("decoy")
			for i := range xs {
				skipped := i%n%dec != 0 || i/n%n%dec != 0 || i/(n*n)%dec != 0
				for d := 0; d < 3; d++ {
					if skipped {
						xs[i][d], vs[i][d] = float32(float64(decoy[d])*u), 77
						continue
					}
					if len(p) == 3 {
						xs[i][d] = float32(float64(p[d]) * u)
					} else {
						xs[i][d] = float32(float64(p[3*i+d]) * u)
					}
					vs[i][d] = float32(v[d]) / 4
				}
			}
			if err := os.MkdirAll(filepath.Dir(sheetPath(c.I("f"))), 0755); err != nil {
				panic("bad case: " + err.Error())
			}
			drv.WriteSheetFile(sheetPath(c.I("f")), hd, xs, vs)
			shorten(sheetPath(c.I("f")), c)
			return drv.J{}
		},
		"run": func(c drv.J) drv.J {
			L := num(c, "L")
			u := L / 640
			q, ok := density.QuantityFromString(c.S("q"))
			if !ok {
				panic("bad case: quantity")
			}
			boxes = nil
			for _, x := range c.L("boxes") {
				b := drv.J(x.(map[string]interface{}))
				X, W := b.Is("X"), b.Is("W")
				con := &sharedBox
				*con = io.BoxConfig{
					X: float64(X[0]) * u, Y: float64(X[1]) * u, Z: float64(X[2]) * u,
					XWidth: float64(W[0]) * u, YWidth: float64(W[1]) * u, ZWidth: float64(W[2]) * u,
					ProjectionAxis: b.S("axis"),
				}
				boxes = append(boxes, render.NewBox(L, b.I("pts"), b.I("cells"), q, con))
			}
			files := []string{}
			for _, f := range c.Is("files") {
				files = append(files, sheetPath(f))
			}
			g, stop := schedule(c)
			defer stop()
			render.NumCores = c.I("threads")
			man, err := render.NewManager(files, boxes, false, q)
			rman = man
			if err == nil {
				man.Subsample(c.I("skip"))
				err = man.RenderDensity()
			}
			res := drv.J{"hooked": hooked, "events": g.events, "sched": []string{}}
			if err != nil {
				res["outcome"] = "err"
			}
			return res
		},
		// the manager of the last run, asked for more
		"more": func(c drv.J) drv.J {
			g, stop := schedule(c)
			defer stop()
			rman.Subsample(c.I("skip"))
			var err error
			if c.B("all") {
				err = rman.RenderDensity()
			} else {
				for _, f := range c.Is("files") {
					if err == nil {
						err = rman.RenderDensityFromFile(sheetPath(f))
					}
				}
			}
			res := drv.J{"hooked": hooked, "events": g.events, "sched": []string{}}
			if err != nil {
				res["outcome"] = "err"
			}
			return res
		},
		"grid": func(c drv.J) drv.J {
			L := num(c, "L")
			cells := c.I("cells")
			pw := L / float64(cells)
			org, span := c.Is("org"), c.Is("span")
			b := &bytes.Buffer{}
			le := binary.LittleEndian
			binary.Write(b, le, []int64{0x7ffffffffffffffe, 344, 0, 0})
			binary.Write(b, le, []float64{1, .5, .25, .75, 50, 1, 1, L})
			binary.Write(b, le, []int64{1, int64(cells), 1, 1, int64(c.I("axis"))})
			for _, x := range append(append([]int{}, org...), span...) {
				binary.Write(b, le, float64(x)*pw)
			}
			for _, x := range append(append([]int{}, org...), span...) {
				binary.Write(b, le, int64(x))
			}
			binary.Write(b, le, pw)
			binary.Write(b, le, make([]int64, 13))
			for _, v := range c.Is("vals") {
				binary.Write(b, le, float32(value(v, c.S("scale"))))
			}
			if err := os.WriteFile(gridPath(c.I("g")), b.Bytes(), 0644); err != nil {
				panic("bad case: " + err.Error())
			}
			shorten(gridPath(c.I("g")), c)
			return drv.J{}
		},
		"hist": func(c drv.J) drv.J {
			L := num(c, "L")
			u := L / 640
			again := c.B("again") // the last histogram's manager once more
			if !again {
				hb = []render.HistBox{}
			}
			for _, x := range c.L("boxes") {
				if again {
					break
				}
				b := drv.J(x.(map[string]interface{}))
				X, W := b.Is("X"), b.Is("W")
				con := &sharedBox
				*con = io.BoxConfig{
					X: float64(X[0]) * u, Y: float64(X[1]) * u, Z: float64(X[2]) * u,
					XWidth: float64(W[0]) * u, YWidth: float64(W[1]) * u, ZWidth: float64(W[2]) * u,
				}
				hb = append(hb, render.NewHistBox(con, c.I("bins")))
			}
			files := []string{}
			for _, f := range c.Is("files") {
				files = append(files, sheetPath(f))
			}
			g, stop := schedule(c)
			defer stop()
			render.NumCores = c.I("threads")
			var err error
			if !again {
				hman, err = render.NewHistManager(files, hb, c.I("pts"), "Density", gridPath(c.I("g")))
			}
			man := hman
			if err == nil {
				man.Subsample(c.I("skip"))
				err = man.Hist(&render.HistInfo{Min: value(c.I("min"), c.S("scale")), Max: value(c.I("max"), c.S("scale")),
					Bins: c.I("bins"), Scale: c.S("spell")})
			}
			res := drv.J{"hooked": hooked, "events": g.events, "sched": []string{}, "counts": []int{}, "centers": []int{}}
			if err != nil {
				res["outcome"] = "err"
				return res
			}
			counts, centers := [][]int{}, [][]int{}
			for _, b := range hb {
				counts = append(counts, b.Counts)
				cs := []int{}
				for _, x := range b.Centers {
					if c.S("scale") == "Log" {
						cs = append(cs, drv.Rx(math.Log10(x), 12000))
					} else {
						cs = append(cs, drv.Rx(x, 4000))
					}
				}
				centers = append(centers, cs)
			}
			res["counts"], res["centers"] = counts, centers
			return res
		},
		"vals": func(c drv.J) drv.J {
			sc := float64(c.I("scale"))
			v := boxes[c.I("b")-1].Vals()
			vals, sum := []int{}, [3]float64{}
			if s, ok := v.ScalarBuffer(); ok {
				vals = drv.Rxs(s, sc)
				for _, x := range s {
					sum[0] += x
				}
			} else if vb, ok := v.VectorBuffer(); ok {
				for _, x := range vb {
					for d := 0; d < 3; d++ {
						vals = append(vals, drv.Rx(x[d], sc))
						sum[d] += x[d]
					}
				}
			}
			cnt, n := []int{}, 0
			if k, ok := v.CountBuffer(); ok {
				cnt = append(cnt, k...)
				for _, x := range k {
					n += x
				}
			}
			if c.B("total") {
				return drv.J{"sum": drv.Rxs(sum[:], sc), "n": n, "len": v.Length()}
			}
			return drv.J{"vals": vals, "cnt": cnt}
		},
	})
}
