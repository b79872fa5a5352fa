"""Run by python3-vt: reads grid files with the repository's Python reader.
stdin: one {"path", "e"} per line; stdout: what the reader returned."""
import contextlib, io, json, os, re, runpy, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import numpy as np
import gotetra

BAD = -2147483647


def fx(v, sc):
    r = float(v) * sc
    return int(r) if r == r and abs(r) < 2147483000 and r == int(r) else BAD


def header(h):
    with open(h["path"], "rb") as f:
        pass
    hd = gotetra.read_header(h["path"])
    flag = hd.type.endianness_flag
    o = {"version": hd.version, "little": flag == -1, "hsize": hd.type.header_size, "gtype": hd.type.grid_type,
         "vec": 1 if hd.type.is_vector_grid else 0,
         "z": fx(hd.cosmo.redshift, 1), "a": fx(hd.cosmo.scale_factor, 1024), "om": fx(hd.cosmo.omega_m, 16),
         "ol": fx(hd.cosmo.omega_l, 16), "h0": fx(hd.cosmo.h0, 1), "bw": fx(hd.cosmo.box_width, 1),
         "particles": hd.render.particles, "total": hd.render.total_pixels, "skip": hd.render.subsample_length,
         "axis": hd.render.projection_axis, "porg": [int(x) for x in hd.loc.pixel_origin],
         "pspan": [int(x) for x in hd.loc.pixel_span], "pwid": fx(hd.loc.pixel_width, 16),
         "lorg": [fx(x, 16) for x in hd.loc.origin], "lspan": [fx(x, 16) for x in hd.loc.span]}
    assert int(hd.axis) == hd.render.projection_axis and [int(x) for x in hd.dim] == o["pspan"] and fx(hd.pw, 16) == o["pwid"]
    return {"hd": o}


def grid(h):
    g = np.array(gotetra.read_grid(h["path"]))
    flat = np.ascontiguousarray(g, dtype=np.float32).ravel()
    assert (flat.astype(np.float64) == g.ravel().astype(np.float64)).all() or not np.isfinite(flat).all()
    return {"shape": list(g.shape), "bits": [int(x) for x in flat.view(np.int32)], "fin": [fx(x, 4) for x in flat]}


def shown(h):
    """what the script prints when run on a file; decimals are given to four digits"""
    with open(h["path"], "rb"):
        pass
    buf, argv = io.StringIO(), sys.argv
    try:
        sys.argv = ["gotetra.py", h["path"]]
        with contextlib.redirect_stdout(buf):
            runpy.run_path(os.path.join(argv[1], "gotetra.py"), run_name="__main__")
    finally:
        sys.argv = argv
    o = dict(re.findall(r"^\s*(\w+)\s*=\s*(.*?)\s*$", buf.getvalue(), re.M))
    num = lambda k, sc: int(round(float(o[k]) * sc * 64))
    vec = lambda k: [float(x) for x in o[k].strip("[]").split(",")]
    return {"sh": {"hsize": int(o["header_size"]), "gtype": o["grid_type"], "vec": o["is_vector_grid"], "order": o["endianness_flag"],
                   "particles": int(o["particles"]), "total": int(o["total_pixels"]), "skip": int(o["subsample_length"]),
                   "axis": o["projection_axis"], "porg": [int(x) for x in vec("pixel_origin")], "pspan": [int(x) for x in vec("pixel_span")],
                   "z": num("redshift", 1), "a": num("scale_factor", 1024), "om": num("omega_m", 16), "ol": num("omega_l", 16),
                   "h0": num("h0", 1), "bw": num("box_width", 1), "pwid": num("pixel_width", 16),
                   "lorg": [int(round(x * 1024)) for x in vec("origin")], "lspan": [int(round(x * 1024)) for x in vec("span")]}}


for line in sys.stdin:
    h = json.loads(line)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            o = {"outcome": "ok", **{"pyh": header, "pyg": grid, "pyp": shown}[h["e"]](h)}
    except BaseException as e:
        o = {"outcome": "err", "msg": repr(e)[:100]}
    print(json.dumps({**h, **o}), flush=True)
