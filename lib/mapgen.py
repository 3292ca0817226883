"""Map files and configurations for the conformance checks."""
import random
from shapes import *

# ------------------------------------------------------------------ text

def fmt(x):
    """Plain decimal text of a number (int, or float with few decimals)."""
    if isinstance(x, str):
        return x
    if isinstance(x, int) or float(x).is_integer():
        return str(int(x))
    return ("%.6f" % x).rstrip("0")

def face_text(f):
    t = " ".join("( %s %s %s )" % tuple(fmt(v) for v in p) for p in f["p"])
    t += " " + f["tex"]
    if f["uvk"] == "std":
        t += " %s %s" % tuple(fmt(x) for x in f["uv"])
    else:
        u, v = f["uv"]
        t += " [ %s ] [ %s ]" % (" ".join(fmt(x) for x in u), " ".join(fmt(x) for x in v))
    t += " %s %s %s" % (fmt(f["rot"]), fmt(f["sc"][0]), fmt(f["sc"][1]))
    for x in f.get("extra", []):
        t += " " + fmt(x)
    return t

def entity_lines(e):
    out = ["{"]
    for k, v in e["props"]:
        out.append('"%s" "%s"' % (k, v))
    for b in e.get("brushes", []):
        out.append("{")
        out += [f if isinstance(f, str) else face_text(f) for f in b]
        out.append("}")
    out.append("}")
    return out

def map_lines(ents):
    out = []
    for e in ents:
        out += entity_lines(e)
    return out

# ------------------------------------------------------------------ pieces

def std_face(p, tex, u=0, v=0, rot=0, sc=(1, 1), extra=()):
    return {"p": p, "tex": tex, "uvk": "std", "uv": [u, v], "rot": rot, "sc": list(sc), "extra": list(extra)}

def valve_face(p, tex, ua, va, rot=0, sc=(1, 1), extra=()):
    return {"p": p, "tex": tex, "uvk": "valve", "uv": [list(ua), list(va)], "rot": rot, "sc": list(sc),
            "extra": list(extra)}

ROTS = [0, 0, 0, 90, 180, 270, 45, 30, -90, -30, 15, 360, 135, 60, 7, 200]
SCALES = [1, 1, 1, 0.5, 2, -1, 0.25, 1.5, -0.5, 4]
UNITS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (0.5, 0.5, 0), (0.8, 0, 0.6),
         (0, -0.6, 0.8), (0.25, 1, 0.5), (0.707, 0.707, 0)]

def placement(rng, p, tex, kinds=("std", "valve"), rots=ROTS, extra=()):
    sc = (rng.choice(SCALES), rng.choice(SCALES))
    rot = rng.choice(rots)
    if rng.choice(kinds) == "std":
        return std_face(p, tex, rng.choice([0, 0, 16, -8, 3.5, 64]), rng.choice([0, 0, -16, 5, 12.25]), rot, sc, extra)
    u, v = rng.choice(UNITS), rng.choice(UNITS)
    return valve_face(p, tex, u + (rng.choice([0, 0, 8, -3.5]),), v + (rng.choice([0, 0, 8, 20]),), rot, sc, extra)

def corner_points(rng, planes):
    """Faces written with three of their own corners, as an editor does, so
    that neighbouring faces name the same points."""
    corners = [tuple(v//x[3] for v in x[:3]) for x in analyse(planes)[0] if all(v % x[3] == 0 for v in x[:3])]
    rng.shuffle(corners)
    out = {}
    for i, (n, d) in enumerate(planes):
        on = [c for c in corners if dot(n, c) == d]
        for a, b, c in combinations(on, 3):
            m = dot(n, cross(sub(c, a), sub(b, a)))
            if m:
                out[i] = (a, b, c) if m > 0 else (a, c, b)
                break
    return out

def brush_faces(rng, planes, make, gs=1, shift=(0, 0, 0), target=None, spread=6):
    """One face per plane; make(points, index) gives the face."""
    t = target if target is not None else centroid(planes)
    own = corner_points(rng, planes) if len(planes) <= 10 and rng.random() < 0.3 else {}
    out = []
    for i, (n, d) in enumerate(planes):
        pts = own.get(i) or plane_points(rng, n, d, t, spread)
        pts = [tuple((x/gs if gs != 1 else x)+s for x, s in zip(p, shift)) for p in pts]
        out.append(make(pts, i))
    return out

def cfg(tex=(), blb=(), blp=(), forge=(), defs=(), layers=()):
    return {"tex": [list(t) for t in tex], "blb": list(blb), "blp": list(blp), "forge": list(forge),
            "defs": list(defs), "layers": list(layers)}

def brush_def(cls, vis="mesh", col="none", et=("placeholder", ""), comp=(), app="P"):
    return {"cls": cls, "kind": "brush", "et": list(et), "comp": list(comp), "app": app, "vis": vis, "col": col}

def point_def(cls, et=("placeholder", ""), comp=(), app="P"):
    return {"cls": cls, "kind": "point", "et": list(et), "comp": list(comp), "app": app, "vis": "none", "col": "none"}

def layer_def(name, tex, vis="mesh", col="none", et=("placeholder", ""), comp=()):
    return {"name": name, "tex": tex, "et": list(et), "comp": list(comp), "vis": vis, "col": col}

def forge_def(cls, props):
    return {"cls": cls, "props": [list(p) for p in props]}

def case(lines, config, gs=1, shift=(0, 0, 0), far=False, single=False, touching=False, tol=None, **kw):
    view = {"gs": gs, "shift": list(shift), "P": 256, "T": 16 if far else 256, "Q": 256 if far else 4096,
            "tol": tol if tol is not None else 3, "ctol": 13 if far else tol if tol is not None else 3, "uvtol": 3 if far else 1}
    c = {"lines": lines, "cfg": config, "view": view, "shift": list(shift), "qp": 256, "quv": view["Q"],
         "qn": 10000, "single": single, "touching": touching, "detail": "full"}
    c.update(kw)
    return c

# ------------------------------------------------------------------ G cases

def single_brush(rng, families=None, far=False, fine=False, gs=None, kinds=("std", "valve"), rots=ROTS, vis="mesh", col="concave",
                 props=(), touching=True, known=0.85, extra=False, far_r=3900, shave=False):
    """One brush of the worldspawn, every face with its own texture."""
    gs = gs or (8 if fine else 1)
    if shave:
        gs = rng.choice([8, 16, 32] if far else [8, 20, 40])
        planes, name = shaved(rng, gs), "shaved"
    else:
        planes, name = shape(rng, families, touching, gs)
    sh = (0, 0, 0)
    if far:
        sh = tuple(rng.choice([-1, 0, 1, 1])*rng.randint(500, far_r) for _ in range(3))
    tex, used = [], []
    order = list(range(len(planes)))
    for i in order:
        t = "t%d" % i
        used.append(t)
        if rng.random() < known or i < len(planes)-1 and len(tex) < i:
            tex.append((t, rng.choice([16, 32, 64, 128]), rng.choice([16, 32, 64, 256])))
    def make(p, i):
        ex = []
        if extra:
            ex = rng.choice([[], [1], [1, 2, 3.5], [7, 0, 2, 0.25, 0.5, 0.75], [0, 0, 0, i/8, 1, 0.125]])
        rr = [r for r in rots if r % 90 == 0] if far else rots
        return placement(rng, p, used[i], kinds, rr, ex)
    faces = brush_faces(rng, planes, make, gs, sh, spread=rng.choice([8, 20])*gs if shave else rng.choice([2, 6, 20]))
    e = {"props": [("classname", "worldspawn")] + list(props), "brushes": [faces]}
    conf = cfg(tex=tex, defs=[brush_def("worldspawn", vis, col)])
    return case(map_lines([e]), conf, gs=gs, shift=sh, far=far, single=True, family=name)
