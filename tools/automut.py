#!/usr/bin/env python3
"""automut.py N SEED [FILE...]: plant N random single-line mutations in scratch copies of /repo; those which build and
pass the tests are run against the checks of the file. Prints survivors (diff and checks run). Not part of any check."""
import os, random, re, shutil, subprocess, sys
MAP = {
 "render/main/main.go": "C27 C16 C01 C02 C03 C15 C14 C26 C10",
 "render/io/io.go": "C05 C04 C03 C01", "render/io/buffer.go": "C01 C03", "render/io/config.go": "C15 C16",
 "render/io/output.go": "C06 C16 C26", "render/box.go": "C10 C07 C16 C09", "render/render.go": "C09 C16 C08 C27",
 "render/hist.go": "C14 C27", "render/density/buffer.go": "C07 C06 C09", "render/density/interpolator.go": "C08 C07",
 "render/density/quantity.go": "C06 C15 C16", "render/geom/vec.go": "C12", "render/geom/grid.go": "C12 C10",
 "render/geom/tetra.go": "C11 C08", "render/geom/deriv.go": "C13", "cosmo/param.go": "C24", "cosmo/const.go": "C24",
 "math/calc/deriv.go": "C25", "math/mat/mat.go": "C18", "math/mat/mat32.go": "C18",
 "math/interpolate/spline.go": "C19", "math/interpolate/cubic_interpolators.go": "C19",
 "math/interpolate/linear_interpolators.go": "C19", "math/interpolate/search.go": "C19",
 "math/interpolate/filter.go": "C20", "math/rand/sobol.go": "C21", "math/rand/rand.go": "C21",
 "math/rand/xorshift.go": "C21", "math/rand/tausworthe.go": "C21", "math/rand/golang.go": "C21",
 "math/sort/shell.go": "C17", "math/sort/quick.go": "C17", "math/sort/median.go": "C17", "math/sort/sort.go": "C17",
 "render/halo/grid.go": "C22", "render/halo/finder.go": "C22", "render/halo/radius.go": "C22 C24 C23", "render/halo/io.go": "C23",
}
OPS = [(r"(?<![<>=!:+\-*/&|])<(?![<=-])", ["<=", ">"]), (r"(?<![<>=!-])>(?![>=])", [">=", "<"]), (r"<=", ["<", ">="]), (r">=", [">", "<="]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"(?<=[\w\)\]]) \+ (?=[\w\(])", [" - "]), (r"(?<=[\w\)\]]) - (?=[\w\(])", [" + "]),
       (r"(?<=[\w\)\]]) ?\* ?(?=[\w\(])", [" / ", " + "]), (r"(?<=[\w\)\]]) ?/ ?(?=[\w\(])", [" * "]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]), (r"\b3\b", ["2"]),
       (r"\+\+", ["--"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\bi\b", ["j"]), (r"\bx\b", ["y"]), (r"\by\b", ["z"]), (r"\bz\b", ["x"]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.Origin\b", [".Span"]), (r"\bint64\b", ["int32"]), (r"\bfloat64\b", ["float32"]),
       (r"\blow\b", ["high"]), (r"\bcontinue\b", ["break"]), (r"\breturn err\b", ["return nil"]), (r"\[0\]", ["[1]"]), (r"\[1\]", ["[2]"]), (r"\[2\]", ["[0]"]),
       ("DEL", None)]
def mutants(path, rng):
    lines = open(path).read().split("\n")
    out, instr = [], False
    for i, l in enumerate(lines):
        if l.count("`") % 2: instr = not instr; continue
        s = l.split("//")[0]
        if instr or not s.strip() or s.startswith(("import", "package")) or '"github' in s: continue
        for pat, reps in OPS:
            if pat == "DEL":
                t = s.strip()
                if re.match(r"^[\w\.\[\]]+(\(.*\)| [-+*/]?= .*|\+\+)$", t): out.append((i, s[:len(s) - len(s.lstrip())] + "// deleted"))
                continue
            for m in re.finditer(pat, s):
                for r in reps: out.append((i, s[:m.start()] + r + s[m.end():]))
    rng.shuffle(out)
    return lines, out
os.environ.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")
GO = dict(os.environ, GOFLAGS="-mod=readonly -modfile=/opt/vp/mod/gotetra.mod")
def sh(cmd, **k):
    if cmd[0] == "go": k["env"] = GO
    return subprocess.run(cmd, capture_output=True, text=True, **k)
n, seed = int(sys.argv[1]), int(sys.argv[2]); files = sys.argv[3:] or list(MAP)
rng = random.Random(seed); tag = "/tmp/automut_%d" % seed
pool = {f: mutants("/repo/" + f, rng) for f in files}
weights = [min(len(pool[f][1]), 400) for f in files]
done = 0
while done < n:
    f = rng.choices(files, weights)[0]; lines, ms = pool[f]
    if not ms: continue
    i, new = ms.pop()
    shutil.rmtree(tag, ignore_errors=True); sh(["cp", "-a", "/repo", tag])
    mod = list(lines); mod[i] = new; open(f"{tag}/{f}", "w").write("\n".join(mod))
    b = sh(["go", "vet", "-unusedresult=false", "./" + os.path.dirname(f)], cwd=tag) if "halo" in f else sh(["go", "build", "-o", "/dev/null", "./" + os.path.dirname(f)], cwd=tag)
    if b.returncode and "halo" not in f: continue
    if "halo" in f:
        e = sh(["gofmt", "-l", f], cwd=tag)
        if e.returncode: continue
    else:
        try: t = sh(["go", "test", "./math/..."], cwd=tag, timeout=120)
        except subprocess.TimeoutExpired: continue
        if t.returncode: continue
    done += 1; res = []
    for c in MAP[f].split():
        r = sh(["/verif/bin/check", c, "quick"], env=dict(os.environ, VERIF_REPO=tag, VERIF_SEED="1"))
        res.append("%s:%d" % (c, r.returncode))
        if r.returncode == 1: break
    if "halo" in f and any(x.endswith(":2") for x in res): done -= 1; continue       # does not compile
    st = "caught" if res[-1].endswith(":1") else "SURVIVED"
    print(f"{st} {f}:{i+1} {' '.join(res)}\n   - {lines[i].strip()}\n   + {new.strip()}", flush=True)
    if res[-1].endswith(":2"): print("   ", r.stdout[-300:].replace("\n", " | "))
shutil.rmtree(tag, ignore_errors=True)
