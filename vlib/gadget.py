"""Byte-level Gadget-2 catalogue writer (independent of the code under test)."""
import struct


def catalogue(cat, order="little", bx=4, bv=4, bi=8, npart_total=None):
    """cat: pos, vel in 1/64 and 1/16 units (flat), ids as ints, header numbers in 1/64."""
    e = "<" if order == "little" else ">"
    n = len(cat["idv"])
    h = struct.pack(e + "6I", 0, n, 0, 0, 0, 0)
    h += struct.pack(e + "6d", 0, cat["mass"] / 64, 0, 0, 0, 0)
    h += struct.pack(e + "2d", (cat["ra"] / cat.get("rden", 4)) ** 2, cat["z"] / 64)
    h += struct.pack(e + "2i", 0, 0)
    h += struct.pack(e + "6I", 0, cat["total"], 0, 0, 0, 0)
    h += struct.pack(e + "2i", 0, cat.get("nfiles", 1))
    h += struct.pack(e + "4d", cat["box"] / 64, cat["om"] / 64, cat["ol"] / 64, cat["h100"] / 64)
    h += struct.pack(e + "2i", 0, 0) + b"\0" * 88
    assert len(h) == 256

    def block(b):
        m = struct.pack(e + "i", len(b))
        return m + b + m
    xs = struct.pack("%s%d%s" % (e, 3 * n, "f" if bx == 4 else "d"), *[p / 64 for p in cat["pos"]])
    vs = struct.pack("%s%d%s" % (e, 3 * n, "f" if bv == 4 else "d"), *[p / 16 for p in cat["vel"]])
    ids = struct.pack("%s%d%s" % (e, n, "I" if bi == 4 else "q"), *cat["idv"])
    return block(h) + block(xs) + block(vs) + block(ids)


def s32(w):
    w &= 0xffffffff
    return w - (1 << 32) if w >= 1 << 31 else w


def words(ids):
    return [[s32(i >> 32), s32(i)] for i in ids]


def file_len(n, bx, bv, bi):
    return 288 + 3 * n * (bx + bv) + n * bi
