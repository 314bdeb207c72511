"""P23: VTK postprocessing merges every trace and leaves its inputs alone."""
import copy, errno, hashlib, math, os, re
import xml.etree.ElementTree as ET
from fractions import Fraction
from vsim import psim
from vsim.core import Violation

PROP = "P23"
VENV = True
LEVEL = "exploration"
RULE = ("one case = a set of traces (files, pieces, arrays, values, missing or damaged files of some trace), options, a directory listing order, an output place "
        "that may exist, and storage errors or a kill at any file operation; distinct by operation history and outcome")
ASSUMPTIONS = ["ASCII arrays", "an interrupted or failed run may leave an unfinished output directory, which later runs refuse to use"]
COMPONENTS = {"real": ["src/tools/vtk/__main__.py", "numpy, ElementTree, files on disk"],
              "stub": ["directory listing order", "storage errors and kills (pysim/shim.c)"]}
BUDGET = {"quick": (100000, 30), "thorough": (10**7, 600)}


def prepare(ctx):
    psim.prepare(ctx)


def open_env(ctx):
    return psim.PSim(ctx, "vtk", venv=True)


def close_env(env):
    env.close()


# ------------------------------------------------------------------ inputs
def gen(r, idx, ctx):
    c = {"seed": r.getrandbits(30), "list": r.choice([0, r.getrandbits(20), r.getrandbits(20)]), "traces": r.choice([1, 2, 3, 3, 5, 8]), "std": r.random() < 0.3,
         "mean": r.random() < 0.4, "ref": r.random() < 0.3, "default_out": r.random() < 0.2, "files": []}
    for f in range(r.choice([1, 1, 2, 3])):
        pieces = []
        layout = []
        for s in ("PointData", "CellData"):
            layout.append([s, [[r.choice(["p", "T", "u v", "rho"]) + str(k), r.choice(["Float32", "Float32", "Float32", "Float64", "Int32"])] for k in range(r.choice([0, 1, 1, 2]))]])
        pts = r.random() < 0.5
        same = r.random() < 0.3
        if same and layout[0][1]:  # the same name for points and cells
            layout[1][1] = copy.deepcopy(layout[0][1])
        for p in range(r.choice([1, 1, 1, 2, 3])):
            pieces.append({"n": r.randint(1, 6), "layout": layout, "pts": pts})
        c["files"].append({"name": "out%d.vtu" % f, "pieces": pieces})
    c["extra"] = r.random() < 0.4
    c["kind"] = r.choice(["near", "near", "zero", "neg", "mixed", "equal"])
    c["damage"] = None
    if r.random() < 0.3:
        c["damage"] = [r.randrange(c["traces"]), r.randrange(len(c["files"])), r.choice(["missing", "missing", "torn", "array", "garbage", "shorter", "empty"])]
    c["pre"] = r.choice([None] * 10 + ["dir", "file"])
    c["io"] = None
    if r.random() < 0.45:
        act = r.choice([0, 1, 2, 3, 3, 3, 4, 4, 6, 6])
        c["io"] = [r.random(), act, r.choice([0, 1, 300, 700, 999]) if act in (2, 4) else r.choice([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE])]
    return c


def values(c, t, f, p, a, n, typ):
    """exact small binary fractions: the order of summation has no effect"""
    h = hashlib.sha256(("%d/%d/%d/%s" % (c["seed"], f, p, a)).encode()).digest()
    g = hashlib.sha256(("%d/%s/%d/%d/%s" % (c["seed"], t, f, p, a)).encode()).digest()
    out = []
    for i in range(n):
        base = Fraction(h[i] + 1, 4)
        noise = Fraction(g[i] % 16, 1 << (4 + h[i + 8] % 20))
        k = c["kind"] if c["kind"] != "mixed" else ["near", "zero", "neg", "equal"][h[i + 16] % 4]
        v = {"near": base + noise, "zero": Fraction(0), "neg": -base - noise, "equal": base}[k]
        out.append(int(v) if typ == "Int32" else v)
    return out


def text(v, typ):
    return " ".join(str(x) if typ == "Int32" else repr(float(x)) for x in v)


def document(c, t, fi):
    f = c["files"][fi]
    o = ['<?xml version="1.0"?>\n<VTKFile type="UnstructuredGrid" version="0.1">\n<UnstructuredGrid>\n']
    for pi, p in enumerate(f["pieces"]):
        o.append('<Piece NumberOfPoints="%d">\n' % p["n"])
        if p["pts"]:
            o.append('<Points><DataArray type="Float32" Name="Points" NumberOfComponents="1" format="ascii">%s</DataArray></Points>\n'
                     % text(values(c, t, fi, pi, "Points", p["n"], "Float32"), "Float32"))
        for s, arrs in p["layout"]:
            o.append("<%s>" % s)
            for nm, typ in arrs:
                o.append('\n<DataArray type="%s" Name="%s" format="ascii">\n%s\n</DataArray>' % (typ, nm, text(values(c, t, fi, pi, s + nm, p["n"], typ), typ)))
            o.append("</%s>\n" % s)
        o.append("</Piece>\n")
    o.append("</UnstructuredGrid>\n</VTKFile>\n")
    return "".join(o)


def damage(doc, how):
    if how == "torn":
        return doc[:len(doc) * 2 // 3]
    if how == "empty":
        return ""
    m = list(re.finditer(r'<DataArray type="Float32"[^>]*>\s*([^<]*?)\s*</DataArray>', doc))
    if not m:
        return None
    m = m[len(m) // 2]
    if how == "array":
        return doc[:m.start()] + doc[m.end():]
    if how == "garbage":
        return doc[:m.start(1)] + "nonsense " + doc[m.start(1):]
    if how == "shorter":
        w = m.group(1).split()
        if len(w) < 2:
            return None
        return doc[:m.start(1)] + " ".join(w[:-1]) + doc[m.end(1):]


def verdict(c, fi, how, damaged):
    """what a damaged file must lead to: "must" fail, "may" fail, or None (not damaged)"""
    f32 = any(p["pts"] or any(t == "Float32" for _, a in p["layout"] for _, t in a) for p in c["files"][fi]["pieces"])
    if how in ("array", "shorter", "garbage") and not damaged:
        return None
    if c["traces"] == 1 and how in ("missing", "array", "shorter"):
        return "must" if how == "array" and c["ref"] else "may"
    return "must" if f32 else "may"  # files without Float32 arrays of other traces are not read


def setup(ps, c):
    ps.clean()
    os.makedirs(ps.cwd + "/tmp")
    ver = None
    docs = {}
    for t in [str(t) for t in range(c["traces"])] + (["ref"] if c["ref"] else []):
        d = "ref" if t == "ref" else "in/run" + t
        os.makedirs(os.path.join(ps.cwd, d))
        for fi, f in enumerate(c["files"]):
            x = document(c, t, fi)
            if c["damage"] and t != "ref" and c["damage"][:2] == [int(t), fi]:
                how = c["damage"][2]
                y = None if how == "missing" else damage(x, how)
                ver = verdict(c, fi, how, y is not None)
                if how == "missing":
                    continue
                if y is not None:
                    x = y
            docs[t, fi] = x
            ps.put(d + "/" + f["name"], x)
        if c["extra"]:
            ps.put(d + "/log.txt", "log of %s\n" % t)
            ps.put(d + "/sub/deep.dat", "d %s\n" % t)
    if c["extra"]:
        ps.put("in/readme", "not a trace\n")
    out = "vfc_postprocess" if c["default_out"] else "result"
    if c["pre"] == "dir":
        ps.put(out + "/keep", "earlier results\n")
    elif c["pre"] == "file":
        ps.put(out, "a file of the user\n")
    return docs, ver, out


def argv(c, out):
    a = ["vfc_vtk"]
    if not c["default_out"]:
        a += ["-o", out]
    if c["std"]:
        a.append("--std")
    if c["mean"]:
        a.append("--mean")
    if c["ref"]:
        a += ["-r", "ref"]
    return a + ["in"]


# ------------------------------------------------------------------ oracle
def nums(s):
    return [float(x) for x in (s or "").split()]


def stat(rows, n):
    res = []
    for i in range(n):
        xs = [Fraction(r[i]) for r in rows]
        m = sum(xs) / len(xs)
        var = sum((x - m) ** 2 for x in xs) / len(xs)
        res.append((float(m), math.sqrt(float(var))))
    return res


def digits(m, s):
    if s == 0:
        return 0.0 if m == 0 else 17.0
    if m == 0:
        return 0.0
    return min(17.0, max(0.0, -math.log10(s / abs(m))))


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-6 * abs(y) + 1e-13 for x, y in zip(a, b))


def arrays(root):
    """[(position, element, parent)] of every data array, document order"""
    par = {ch: p for p in root.iter() for ch in p}
    res = []
    for e in root.iter("DataArray"):
        p = par[e]
        q = p
        while q.tag != "Piece":
            q = par[q]
        pieces = [x for x in root.iter("Piece")]
        res.append(((pieces.index(q), p.tag, e.get("Name")), e))
    return res


def verify(c, docs, fi, outtext, base):
    """None, or what is wrong with one merged file"""
    try:
        got = arrays(ET.fromstring(outtext))
    except ET.ParseError as e:
        return "not a document (%s)" % e
    ref = arrays(ET.fromstring(docs[base, fi]))
    traces = [dict(arrays(ET.fromstring(docs[str(t), fi]))) for t in range(c["traces"])]
    gd = {}
    for k, e in got:
        if k in gd:
            return "array %r occurs twice" % (k,)
        gd[k] = e
    want = set()
    for k, e in ref:
        want.add(k)
        g = gd.get(k)
        if g is None:
            return "array %r of the reference is missing" % (k,)
        if g.attrib != e.attrib:
            return "attributes of %r changed" % (k,)
        if e.get("type") != "Float32":
            if nums(g.text) != nums(e.text):
                return "array %r, which is not a Float32 array, changed" % (k,)
            continue
        rows = [nums(t[k].text) for t in traces]
        st = stat(rows, len(rows[0]))
        exp = [m for m, _ in st] if c["mean"] else nums(e.text)
        if not close(nums(g.text), exp):
            return "values of %r are %s, expected the %s %s" % (k, nums(g.text)[:6], "mean" if c["mean"] else "reference", exp[:6])
        ak = (k[0], "PointData" if k[1] == "Points" else k[1], k[2] + "_vfc_accuracy")
        want.add(ak)
        a = gd.get(ak)
        if a is None:
            return "no accuracy for %r" % (k,)
        exp = [s for _, s in st] if c["std"] else [digits(m, s) for m, s in st]
        if not close(nums(a.text), exp):
            return "accuracy of %r is %s, expected %s over %d traces" % (k, [round(x, 6) for x in nums(a.text)[:6]], [round(x, 6) for x in exp[:6]], len(rows))
        if a.get("type") != "Float32" or a.get("NumberOfComponents") != e.get("NumberOfComponents"):
            return "the accuracy array of %r has other attributes" % (k,)
    for k in gd:
        if k not in want:
            return "unexpected array %r" % (k,)
    return None


def check(ps, case, stats, rec):
    c = case
    faults = []
    if c["io"]:
        docs, bad, out = setup(ps, c)
        b = ps.session(argv=argv(c, out), seed=c["seed"], listseed=c["list"], env={})
        stats.runs += 1
        n = b.end["fs"] if b.end else 1
        faults = [[1 + int(c["io"][0] * n), c["io"][1], c["io"][2]]]
    docs, bad, out = setup(ps, c)
    before = ps.tree()
    s = ps.session(argv=argv(c, out), seed=c["seed"], listseed=c["list"], env={}, faults=faults)
    psim.note(stats, s, faults)
    rec["digest"] = psim.digest(s)
    after = ps.tree()
    hit = bool(s.crash or (s.end and s.end["fired"]))
    where = s.status() + (" after %s at operation %d" % (psim.FAULTS[faults[0][1]], faults[0][0]) if hit else "") + ": "
    if s.hang:
        return Violation("hang", where)
    for f, d in before.items():
        if after.get(f) != d:
            return Violation("touched", where + "%s, which existed before, %s" % (f, "changed" if f in after else "is gone"))
    mine = {f for f in after if f not in before}
    strange = sorted(f for f in mine if not f.startswith(out + "/"))
    if s.end and s.end["rc"] == 0 and strange:
        return Violation("stray", where + "left %s" % strange)
    stats.kind("ok" if s.rc == 0 else "failed" if s.end else "killed")
    if s.rc != 0:
        if s.end is not None and not hit and not bad and not c["pre"]:
            return Violation("undisturbed", where + s.end["out"][-200:] + s.end["err"][-200:])
        if c["pre"] and any(f.startswith(out + "/") for f in mine):
            return Violation("existing-output", where + "wrote into the existing output directory")
        return None
    if c["pre"]:
        return Violation("existing-output", where + "accepted an output directory which exists")
    if bad == "must":
        return Violation("success-with-damage", where + "ended with success, although %s of trace %d is damaged (%s)" % (
            c["files"][c["damage"][1]]["name"], c["damage"][0], c["damage"][2]))
    bases = ["ref"] if c["ref"] else [str(t) for t in range(c["traces"])]
    why = []
    for base in bases:
        msg = None
        for fi, f in enumerate(c["files"]):
            if bad == "may" and fi == c["damage"][1]:
                continue
            got = after.get(out + "/" + f["name"])
            if got is None:
                msg = "%s is missing in the output" % f["name"]
                break
            m = verify(c, docs, fi, got[1].decode("utf-8", "replace"), base)
            if m:
                msg = "%s: %s" % (f["name"], m)
                break
        if msg is None and c["extra"]:
            for e in ("log.txt", "sub/deep.dat"):
                d = "ref" if base == "ref" else "in/run" + base
                if after.get(out + "/" + e) != before[d + "/" + e]:
                    msg = "%s is not the one of the reference" % e
        if msg is None:
            return None
        why.append(msg)
    return Violation("wrong-output", where + "; ".join(sorted(set(why))[:2]))


def variants(case):
    for k, v in (("io", None), ("damage", None), ("extra", False), ("list", 0), ("std", False), ("mean", False), ("ref", False), ("default_out", False), ("pre", None)):
        if case[k] != v:
            yield dict(case, **{k: v})
    if case["traces"] > 1 and (not case["damage"] or case["damage"][0] < case["traces"] - 1):
        yield dict(case, traces=case["traces"] - 1)
    if not case["damage"]:
        for i in range(len(case["files"])):
            if len(case["files"]) > 1:
                c = copy.deepcopy(case)
                del c["files"][i]
                yield c
    for i, f in enumerate(case["files"]):
        if len(f["pieces"]) > 1:
            c = copy.deepcopy(case)
            c["files"][i]["pieces"].pop()
            yield c
        for s in range(2):
            if f["pieces"][0]["layout"][s][1]:
                c = copy.deepcopy(case)
                for p in c["files"][i]["pieces"]:
                    p["layout"] = [[a, list(b)] for a, b in p["layout"]]
                    p["layout"][s][1] = p["layout"][s][1][:-1]
                yield c
