// geomd drives the geometry package: vectors, grids, pixel ranges (C12), tetrahedra (C11)
// and derivative operators (C13).
package main

import (
	"verif/drv"
)

func main() {
	h := map[string]drv.Handler{}
	vecHandlers(h)
	tetHandlers(h)
	derivHandlers(h)
	drv.Main(h)
}
