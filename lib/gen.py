"""Case generators, one per property of the map pipeline. Everything here is
only input: expectations come from the specification."""
import random, struct
from fractions import Fraction
from mapgen import *

# ------------------------------------------------------------------ scenes

CELL = 128

def cell(i):
    return ((i % 3 - 1)*CELL, (i//3 % 3 - 1)*CELL, (i//9 % 3 - 1)*CELL)

SCENE_FAMILIES = ["box", "box", "cut1", "cut2", "hull5", "pyramid", "prism", "octa"]

def small_shape(rng, pos, families=None, touching=False):
    while True:
        p, _ = shape(rng, families or SCENE_FAMILIES, touching)
        if len(p) > 9:
            continue
        t = translate(p, pos)
        c, ok = analyse(t)
        if ok and is_solid(t, c):
            return t

def degenerate_points(rng, near):
    a = tuple(n+rng.randint(-20, 20) for n in near)
    k = rng.choice(["same", "two", "line", "line", "long"])
    d = normal(rng, 3)
    if k == "same":
        return [a, a, a]
    if k == "two":
        b = add(a, mul(rng.randint(1, 9), d))
        pts = [a, a, b]
    else:
        m = 5 if k == "line" else 40
        pts = [a, add(a, mul(rng.randint(1, m), d)), add(a, mul(-rng.randint(1, m), d))]
    rng.shuffle(pts)
    return pts

def make_brush(rng, pos, texs, kinds=("std", "valve"), extra=False, uniform=None, degenerate=0.0, families=None,
               touching=False, plain=False, again=0.04):
    """Faces of a random solid at pos."""
    planes = small_shape(rng, pos, families, touching)
    one = uniform if uniform is not None else (rng.choice(texs) if rng.random() < 0.4 else None)
    ex = rng.choice([[], [1], [1, 2, 3.5], [7, 0, 2, 0.25, 0.5, 0.75]]) if extra else []
    def make(p, i):
        t = one if one is not None else rng.choice(texs)
        e = list(ex)
        if extra and rng.random() < 0.25:
            e = rng.choice([[], [1], [1, 2, 3.5], [7, 0, 2, 0.25, 0.5, 0.75], [0, 0, 0, 1, 0.125, i/16], [0, 0, 0, 1, 1, 1], [0, 0, 0, 0, 0, 0]])
        if plain:
            return std_face(p, t, extra=e)
        return placement(rng, p, t, kinds, extra=e)
    faces = brush_faces(rng, planes, make)
    while rng.random() < degenerate:
        f = placement(rng, degenerate_points(rng, pos), rng.choice(texs), kinds, extra=ex)
        faces.insert(rng.randint(0, len(faces)), f)
    while rng.random() < again:              # a face written twice, with the same or another texture
        f = dict(rng.choice(faces))
        if rng.random() < 0.4:
            f["tex"] = rng.choice(texs)
        faces.insert(rng.randint(0, len(faces)), f)
    return faces

FORGE_KINDS = ["I", "F", "V", "S", "C", "H", "L", "TS", "TD"]
def forge_default(rng, kind):
    if kind in ("I", "H", "L"):
        return rng.choice([0, 1, -3, 7, 250, 2147483647])
    if kind == "F":
        return rng.choice([0, 500, -1250, 64000])
    if kind in ("V", "C"):
        return [rng.choice([0, 250, -500, 1000, 32000]) for _ in range(3)]
    if kind == "S":
        return rng.choice(["", "dflt", "a b"])
    return ""

def prop_value(rng, kind):
    ints = ["0", "5", "-7", "+12", "0009", "2147483647", "-2147483648", "42"]
    badints = ["", "5.0", "x", "1e3", " 7", "7 ", "2147483648", "-2147483649", "--1", "0x10", "1_000", "+", "-"]
    floats = ["0", "1.5", "-2.25", "+3", ".5", "5.", "1e2", "-0.125", "1E+1", "25e-1", "64"]
    badfloats = ["", "x", "1,5", "1.5f", " 1", "1e", ".", "--1", "0x1", "1.2.3"]
    if kind in ("I", "H", "L"):
        return rng.choice(ints) if rng.random() < 0.55 else rng.choice(badints)
    if kind == "F":
        return rng.choice(floats) if rng.random() < 0.6 else rng.choice(badfloats)
    if kind in ("V", "C"):
        r = rng.random()
        parts = [rng.choice(floats) for _ in range(3)]
        if r < 0.5:
            return " ".join(parts)
        if r < 0.6:
            return " ".join(parts + [rng.choice(floats + ["x"])])
        if r < 0.7:
            return " ".join(parts[:rng.randint(0, 2)])
        if r < 0.8:
            return "  ".join(parts)
        parts[rng.randint(0, 2)] = rng.choice(badfloats)
        return " ".join(parts)
    return rng.choice(["", "text", "Mixed Case  two spaces", "1", "a/b", "{", "}", "( 1 )", "// x", "\\n", "x=y;", "'q'"])

UNIQUE = ["func_group", "info_null", "info_player_start", "light", "func_detail", "trigger_once", "misc_model", "Ent_1", "ENT_1", "ent_01",
          "ent_1 ", "item_x", "", " ", "Worldspawn", "worldspawn2", "WORLDSPAWN", "a b", "*water0", "layer_y", "t0", "func_door", "point_light",
          "\u00e4nt", "worldspawn_layer", "monster", "path_corner", "1", "-"]
COMPS = [[], [], [], ["script.gd"], ["script.gd"], [""], ["a b/\u00fc.gs"], ["Script.gd"]]
TYPES = [("placeholder", ""), ("class", "Spatial"), ("prefab", "res://a.tscn"), ("class", "Area"), ("class", ""), ("prefab", "")]
def decoy(rng, name):
    """Another name that must not count as this one."""
    return rng.choice([name.upper(), name.capitalize(), name + " ", " " + name, name + "x", name[:-1], "", name + "_", name.title(), "*"])

def copy_brushes(rng, ents, p):
    """Exact copies of brushes, in the same or in another entity."""
    done = False
    for e in ents:
        while e["brushes"] and len(e["brushes"]) < 60 and rng.random() < p:
            k = rng.randrange(len(e["brushes"]))
            to = e if rng.random() < 0.8 else rng.choice(ents)
            to["brushes"].insert(k+1 if to is e and rng.random() < 0.5 else rng.randint(0, len(to["brushes"])), e["brushes"][k])
            done = True
    return done

def scene(rng, n=(2, 6), classes=None, groups=0.5, dup=0.15, cyc=0.1, brush_n=(0, 2), texs=("t0", "t1", "t2"), known=0.8,
          water=0.0, water_known=0.85, layers=0.0, blb=0.0, blp=0.0, forge=0.7, forge_props=(0, 5), defs=0.85,
          origin=0.3, unique=True, extra=False, degenerate=0.0, phong=0.0, cols=("none", "convex", "concave"),
          viss=("mesh", "mesh", "none"), kinds=("std", "valve"), plain=False, ws_last=0.4, max_brushes=8, qid=False,
          layer_cols=("none", "convex", "concave"), layer_viss=("mesh", "none"), point=0.25, dup_defs=0.15, copies=0.0):
    texs = list(texs)
    conf_tex = [(t, rng.choice([16, 32, 64, 128]), rng.choice([16, 32, 64, 256])) for t in texs if rng.random() < known]
    wtex = ["*water0", "*slime0"]
    for t in wtex:
        if (water or rng.random() < 0.5) and rng.random() < water_known:
            conf_tex.append((t, rng.choice([32, 64]), rng.choice([32, 64])))
    m = rng.randint(*n)
    odd = dict(enumerate(rng.sample(UNIQUE, min(m, len(UNIQUE))))) if rng.random() < 0.6 else {}
    names = ["worldspawn"] + [(odd[i] if i in odd and rng.random() < 0.6 else "ent_%d" % i if unique else rng.choice(classes or ["func_a", "func_b", "info_c", "Func_A"]))
                              for i in range(1, m)]
    ids = []
    cells = list(range(27))
    rng.shuffle(cells)
    used = 0
    ents = []
    flist, dlist = [], []
    for i, cls in enumerate(names):
        props = [("classname", cls)]
        if qid or not unique:
            props.append(("qid", str(i)))
        if rng.random() < origin and i > 0 or i == 0 and rng.random() < origin/3:
            props.append(("origin", rng.choice([
                "%d %d %d" % tuple(rng.randint(-64, 64) for _ in range(3)), "8 -16 24.5", "1.5 2 -3", "0 0 0", "16 8",
                "x 4 5", "4  5 6", "", "1 2 3 4", "7.25 y 1e1", "-.5 +8 64."])))
        if i > 0 and rng.random() < groups*0.7 or i == 0 and rng.random() < 0.2:
            if ids and rng.random() < dup:
                k = rng.choice(ids)
            else:
                k = str(rng.choice([len(ids)+1, len(ids)+1, len(ids)+1, rng.randint(1, m+1)]))
                if rng.random() < 0.12:
                    k = rng.choice(["g", "01", "", "1.0", " 1", "1 ", "+1", "-1", "-3", "0", "70000", "4294967296", "2147483647", "-2147483648", "1e0"])
            ids.append(k)
            props.append(("_tb_id", k))
        ents.append({"props": props, "brushes": []})
    for i, e in enumerate(ents):
        own = dict(e["props"]).get("_tb_id")
        if rng.random() < (groups if i > 0 else 0.08):
            cand = [k for k in ids if k != own or rng.random() < cyc]
            # mostly acyclic: pick an id of an earlier entity
            early = [dict(x["props"])["_tb_id"] for x in ents[:i] if "_tb_id" in dict(x["props"])]
            if early and rng.random() > cyc:
                g = rng.choice(early)
            elif cand:
                g = rng.choice(cand)
            else:
                g = "99"
            e["props"].append(("_tb_group", g))
        if rng.random() < 0.3:
            e["props"].append(("_tb_type", rng.choice(["_tb_group", "_tb_layer"])))
        if rng.random() < 0.3:
            e["props"].append(("_tb_name", rng.choice(["Group 1", "x", ""])))
        if rng.random() < phong:
            e["props"].append(("_phong", rng.choice(["1", "1", "1", "1", "0", "2", "10", "1.0", "01", " 1", "1 ", "true", ""])))
            if rng.random() < 0.6:
                e["props"].append(("_phong_angle", rng.choice(["30", "45", "60", "90", "100", "120", "x", "", "60.0", "6e1", "+60", " 60", "60 ", "0"])))
    # brushes
    for i, e in enumerate(ents):
        k = rng.randint(*brush_n) if i > 0 else rng.randint(brush_n[0], brush_n[1]+1)
        for _ in range(k):
            if used >= max_brushes:
                break
            pos = cell(cells[used])
            used += 1
            uni, tx = None, texs
            if water and rng.random() < water:
                r = rng.random()
                if r < 0.6:
                    uni = rng.choice(wtex)
                elif r < 0.7:
                    uni = rng.choice(["*lava0", "*water1", "*water0x", "*slime00", "water0", "*water", "*teleport"])
                    conf_tex += [(uni, 32, 32)] if all(uni != t[0] for t in conf_tex) and rng.random() < 0.8 else []
                elif r < 0.85:
                    tx = [rng.choice(wtex), rng.choice(texs)]
                else:
                    tx = wtex
            e["brushes"].append(make_brush(rng, pos, tx, kinds, extra, uni, degenerate, plain=plain))
        if degenerate and rng.random() < 0.15:
            e["brushes"].insert(rng.randint(0, len(e["brushes"])),
                                [placement(rng, degenerate_points(rng, (0, 0, 0)), rng.choice(texs), kinds)
                                 for _ in range(rng.randint(0, 3))])
    # definitions
    seen = []
    for cls in dict.fromkeys(names):
        if rng.random() < forge or qid or not unique:
            for _ in range(2 if rng.random() < dup_defs else 1):
                fp = [("qid", "I", 0)] if (qid or not unique) else []
                for j in range(rng.randint(*forge_props)):
                    nm = rng.choice(["p%d" % j, "p%d" % j, "p%d" % j, "_tb_name", "_tb_id", "origin", "classname"])
                    if any(x[0] == nm for x in fp):
                        continue
                    kind = rng.choice(FORGE_KINDS)
                    fp.append((nm, kind, forge_default(rng, kind)))
                rng.shuffle(fp)
                flist.append(forge_def(cls, fp))
        if rng.random() < defs or cls == "worldspawn" and rng.random() < 0.9:
            for _ in range(2 if rng.random() < dup_defs else 1):
                et = rng.choice(TYPES)
                comp = rng.choice(COMPS)
                app = rng.choice("PDM")
                if rng.random() < point and cls != "worldspawn":
                    dlist.append(point_def(cls, et, comp, app))
                else:
                    dlist.append(brush_def(cls, rng.choice(viss), rng.choice(cols), et, comp, app))
    # definitions of other classes with similar names
    for l in (dlist, flist):
        for d in list(l):
            if rng.random() < 0.12:
                x = decoy(rng, d["cls"])
                if x not in names:
                    if l is dlist:
                        x = brush_def(x, rng.choice(viss), rng.choice(cols), rng.choice(TYPES), rng.choice(COMPS), rng.choice("PDM"))
                    else:
                        x = forge_def(x, [("p0", "I", 99), ("decoy", "S", "d")])
                    l.insert(rng.randint(0, l.index(d)), x)
    # values for defined properties, in front of or behind the other keys
    for e in ents:
        cls = dict(e["props"])["classname"]
        own = [f for f in flist if f["cls"] == cls]
        have = {k for k, _ in e["props"]}
        for f in own[:1]:
            for nm, kind, _ in f["props"]:
                if nm not in have and rng.random() < 0.7:
                    e["props"].insert(rng.randint(0, len(e["props"])), (nm, prop_value(rng, kind)))
                    have.add(nm)
        if rng.random() < 0.4:
            e["props"].append(("undef%d" % rng.randint(0, 9), prop_value(rng, "S")))
    # layers
    ll = []
    for t in wtex:
        if rng.random() < layers:
            for _ in range(2 if rng.random() < 0.08 else 1):
                ll.append(layer_def("layer_%d" % len(ll), t, rng.choice(layer_viss), rng.choice(layer_cols),
                                    rng.choice(TYPES), rng.choice(COMPS)))
    if layers and ll and rng.random() < 0.25:
        nm = rng.choice(["", "Water Volume", "*water0", "*slime0", "layer", "\u00fc"])
        if nm not in names:
            rng.choice(ll)["name"] = nm
    if layers and rng.random() < 0.25:
        t = rng.choice(["*WATER0", "*Slime0", "*water", "water0", " *water0", "*lava0", "*slime00", "*water0x", ""])
        ll.append(layer_def("layer_z", t, "mesh", rng.choice(layer_cols)))
    if layers and rng.random() < 0.2:
        ll.append(layer_def("layer_x", "t0", "mesh", "convex"))
    rng.shuffle(ll)
    order = list(range(len(ents)))
    if rng.random() < ws_last:
        order.remove(0)
        order.insert(rng.randint(0, len(order)), 0)
    pool = texs + wtex
    conf = cfg(conf_tex, [t for t in pool if rng.random() < blb], [t for t in pool if rng.random() < blp],
               flist, dlist, ll)
    scene.last = [ents[i] for i in order]
    return case(map_lines(scene.last), conf, touching=copy_brushes(rng, ents, copies))

# ------------------------------------------------------------------ lines

def box_faces(rng, texs=("t0",), lo=(-8, -8, -8), hi=(8, 8, 8)):
    return brush_faces(rng, box(lo, hi), lambda p, i: std_face(p, rng.choice(list(texs))))

SKIPS = ["", "// comment", "/ half", "# hash", " \"indented\" \"line\"", "\t{", " }", "text", "\"only\"", "\"", "\"key\" ",
         "\"key\" value", "[", "0", "-", "\"a", "// \"classname\" \"worldspawn\"", "\\", ";", "\ufeff{", "\ufeff\"k1\" \"bom\"", "/{", "/ }", "/\u00e9", "//\u00e9\"k1\" \"v\"", "/\"k1\" \"slash\"",
         "/ ( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) t0 0 0 0 1 1", "// ( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) t0 0 0 0 1 1", "\u00e9", "\u201ck1\u201d \u201cv\u201d",
         "// a\r\"k1\" \"cr\"", "\r", "\x0b{", "\u2028}", "'k1' 'v'", "*{", "*}"]
CLASSES = ["info", "func", "info", "func", "info", "func", "", "Worldspawn", "WORLDSPAWN", "worldspawn ", " worldspawn", "worldspawn2", "world", " "]
PROPS = ["\"k1\" \"a\"", "\"k1\"  \"a b\"  ", "\"k2\"\"v\"", "\"k1\" \"A  b\" \"c\"", "\"\" \"\"", "\"k3\" \"{\"", "\"k3\" \"x", "\"k1\" junk \"v\"",
         "\"K1\" \"Case\"", "\"k2\" \"( 0 0 0 )\"", "\"k1\" \"a//b\"", "\"k//2\" \"v\"", "\"k2\" \"v\" // tail", "\"k1\" \" lead tail \"",
         "\" k1\" \"v\"", "\"k1 \" \"v\"", "\"k3\"\t\"tab\\there\"", "\"k3\" \"%s\"" % ("long "*40), "\"k1\" \"\u00e4\u20ac\"", "\"k1\" \"\"", "\"k2\" \"a\\\\\"b\"",
         "\"_tb_name\" \"N\"", "\"_tb_type\" \"T\"", "\"%s\" \"v\"" % ("k"*40), "\"k2\" '\"' \"w\"", "\"k2\" \"a\rb\"",
         "\"k1\" \"a\\nb\"", "\"k1\" \"%20&amp;\"", "\"k3\" \"}\"", "\"/k\" \"v\"", "\"Classname\" \"worldspawn\"", "\"classname \" \"worldspawn\""]
# names whose lower case goes beyond ASCII
NAMES = ["\u00c4RGER", "Stra\u00dfe", "\u0416\u0423\u041a", "\u03a9mega", "\u212aELVIN", "\u0130x", "\u65e5\u672c", "\u01c5", "\u1e9e", "\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16"), "e\u0301"]

def base_cfg(col="convex", vis="mesh", forge_keys=("k1", "k2", "k3", "K1", "key", "a", "", "k//2", " k1", "k1 ", "k"*40)):
    return cfg([("t0", 64, 64), ("t1", 32, 32)] + [(n.lower(), 16, 16) for n in NAMES[::2]], [], [],
               [forge_def(c, [(k, "S", "<none>") for k in forge_keys]) for c in ("worldspawn", "info", "func")],
               [brush_def(c, vis, col) for c in ("worldspawn", "info", "func")])

def good_map(rng, brushes=True, n=(1, 3)):
    """Structured lines of a small valid map."""
    lines = []
    m = rng.randint(*n)
    w = rng.randint(0, m-1)
    for i in range(m):
        lines.append(("O", "{"))
        body = [[("P", "\"classname\" \"%s\"" % ("worldspawn" if i == w else rng.choice(CLASSES)))]]
        for _ in range(rng.randint(0, 3)):
            body.append([("P", rng.choice(PROPS))])
        for k in range(rng.randint(0, 2) if brushes else 0):
            body.append([("O", "{")] + [("F", face_text(f)) for f in
                        box_faces(rng, ("t0", "t1", "T1") if rng.random() < 0.7 else ("t0", "T1", rng.choice(NAMES)), (i*64-8, k*64-8, -8), (i*64+8, k*64+8, 8))] + [("C", "}")])
        rng.shuffle(body)
        for b in body:
            lines += b
        lines.append(("C", "}"))
    return lines

def decorate(rng, lines, p=0.15):
    out = []
    for l in lines:
        while rng.random() < p:
            out.append(("S", rng.choice(SKIPS)))
        k, t = l
        if k in "OC" and rng.random() < 0.15:
            t += rng.choice([" ", " // x", "\t", "x"])
        out.append((k, t))
    while rng.random() < p:
        out.append(("S", rng.choice(SKIPS)))
    return out

def damage(rng, lines):
    """Structural damage."""
    lines = list(lines)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(lines)) if lines else 0
        op = rng.choice(["del", "dup", "swap", "move", "ins", "cut", "tail", "class", "ws"])
        if not lines:
            op = "ins"
        if op == "del":
            del lines[i]
        elif op == "dup":
            lines.insert(i, lines[i])
        elif op == "swap" and i + 1 < len(lines):
            lines[i], lines[i+1] = lines[i+1], lines[i]
        elif op == "move":
            l = lines.pop(i)
            lines.insert(rng.randint(0, len(lines)), l)
        elif op == "ins":
            lines.insert(rng.randint(0, len(lines)), rng.choice([
                ("O", "{"), ("C", "}"), ("P", "\"k1\" \"z\""), ("F", face_text(box_faces(rng)[0])), ("F", "( bad )"),
                ("S", "// c")]))
        elif op == "cut":
            lines = lines[:i]
        elif op == "tail":
            lines = lines[i:]
        elif op == "class":
            lines = [l for l in lines if "classname" not in l[1] or rng.random() < 0.5]
        else:
            lines = [(k, t.replace("\"info\"", "\"worldspawn\"").replace("\"worldspawn\"",
                     rng.choice(["\"worldspawn\"", "\"Worldspawn\"", "\"info\"", "\"worldspawn \""])) if k == "P" else t)
                     for k, t in lines]
    return lines

def cut_faces(x, y, n):
    """Lines of a box with n of its corners cut off."""
    planes = box((x, y, 0), (x+32, y+32, 32))
    signs = [(1, 1, 1), (-1, 1, 1), (1, -1, 1), (-1, -1, 1)]
    for s in signs[:n]:
        far = sum(c*(v+32 if c > 0 else v) for c, v in zip(s, (x, y, 0)))
        planes = planes + [(s, far-8)]
    return [face_text(f) for f in brush_faces(random.Random(n), planes, lambda p, i: std_face(p, "t0"), spread=3)]

def parser_case(hist, alphabet="nest", full=False):
    """A history of MCParser as a file. With full, an opened brush is a box
    and every further face line cuts off one of its corners, so that brushes
    with different numbers of face lines have different shapes."""
    lines, depth, ents, nb, nf = [], 0, 0, 0, 0
    for c in hist:
        if c == "O":
            lines.append("{")
            if depth == 0:
                if alphabet == "nest":
                    lines.append("\"classname\" \"%s\"" % ("worldspawn" if ents == 0 else "info"))
                ents += 1
                nb = 0
            elif depth == 1:
                nb += 1
                nf = 0
                if full:
                    lines += cut_faces(ents*64, nb*64, 0)
            depth += 1
        elif c == "C":
            lines.append("}")
            depth -= 1
        elif c == "W":
            lines.append("\"classname\" \"worldspawn\"")
        elif c == "I":
            lines.append("\"classname\" \"info\"")
        elif c == "A":
            lines.append("\"k1\" \"a\"")
        elif c == "B":
            lines.append("\"k1\" \"b\"")
        elif c == "K":
            lines.append("\"k2\" \"a\"")
        elif c == "F":
            x, y = ents*64, nb*64
            nf += 1
            if full:
                lines.append(cut_faces(x, y, min(nf, 4))[min(nf, 4)+5])
            else:
                fs = box_faces(random.Random(nf), ("t0",), (x, y, 0), (x+16, y+16, 16))
                lines.append(face_text(fs[nf % 6]))
        elif c == "X":
            lines.append("( 1 2 3 ) ( 4 5")
        else:
            lines.append(["// c", "", " x", "\"half\""][len(lines) % 4])
    return lines

def from_planes(rng, planes, vis="mesh", col="concave"):
    """A brush of the given planes as the worldspawn's only one."""
    planes = [(tuple(n), d) for n, d in planes]
    if rng.random() < 0.5:
        rng.shuffle(planes)
    t = tuple(rng.randint(-20, 20) for _ in range(3))
    planes = translate(planes, t)
    faces = brush_faces(rng, planes, lambda p, i: placement(rng, p, "t%d" % i), spread=rng.choice([2, 6, 20]))
    conf = cfg(tex=[("t%d" % i, 64, 32) for i in range(len(planes)) if rng.random() < 0.85],
               defs=[brush_def("worldspawn", vis, col)])
    return case(map_lines([{"props": [("classname", "worldspawn")], "brushes": [faces]}]), conf, single=True)

def group_case(rng, rows):
    """A group graph of MCScene as a file."""
    ents, defs = [], []
    for i, (cls, i_d, grp) in enumerate(rows):
        name = cls if cls == "worldspawn" else "ent_%d" % i
        props = [("classname", name)]
        if rng.random() < 0.5:
            props.append(("origin", "%d %d %d" % tuple(rng.randint(-64, 64) for _ in range(3))))
        if i_d != "-":
            props.append(("_tb_id", i_d))
        if grp != "-":
            props.append(("_tb_group", grp))
        ents.append({"props": props})
        if rng.random() < 0.3:
            defs.append(point_def(name))
    return case(map_lines(ents), cfg(defs=defs))

TETRA = [((1, 1, 1), 8), ((-1, -1, 1), 8), ((-1, 1, -1), 8), ((1, -1, -1), 8)]
def surface_case(rng, s):
    """A start state of MCSurfaces as a file."""
    k = rng.choice([8, 16])
    def brush(texs, pos):
        planes = translate([(n, k) for n, _ in TETRA], pos)
        return brush_faces(rng, planes, lambda p, i: placement(rng, p, texs[i]), spread=3)
    other = ["t0"]*4
    ws = {"props": [("classname", "worldspawn")], "brushes": []}
    en = {"props": [("classname", "func_a")], "brushes": []}
    host = ws if s["world"] else en
    host["brushes"].append(brush(s["t"], (0, 0, 0)))
    if rng.random() < 0.5:
        host["brushes"].insert(rng.randint(0, 1), brush(other if rng.random() < 0.5 else rng.sample(s["t"], 4), (96, 0, 0)))
    ents = [ws, en]
    if rng.random() < 0.5:
        ents.reverse()
    tex = [[t, rng.choice([16, 64]), rng.choice([32, 64])] for t, _, _ in s["known"]]
    cols = ("none", "convex", "concave")
    layers = [layer_def("layer_w", "*water0", rng.choice(["mesh", "mesh", "none"]), rng.choice(cols)),
              layer_def("layer_s", "*slime0", rng.choice(["mesh", "mesh", "none"]), rng.choice(cols))]
    r = rng.random()
    if r < 0.15:
        layers.pop(rng.randint(0, 1))
    elif r < 0.25:
        layers.append(layer_def("layer_d", rng.choice(["*water0", "*slime0"]), "mesh", "convex"))
    rng.shuffle(layers)
    conf = cfg(tex, s["blb"], s["blp"], [],
               [brush_def("worldspawn", "mesh", rng.choice(cols)), brush_def("func_a", "mesh", rng.choice(cols))], layers)
    return case(map_lines(ents), conf)

def prop_cases(rng, rows, per=6):
    """Entities and definitions of MCProps, a few per file. The groups they
    name exist and come first."""
    rows = list(rows)
    rng.shuffle(rows)
    out = []
    for i in range(0, len(rows), per):
        part = rows[i:i+per]
        ents = [{"props": [("classname", "worldspawn")]}]
        forge = [forge_def("worldspawn", [("sky", "S", "none")])] if rng.random() < 0.3 else []
        for g in sorted({dict(map(tuple, r["raw"])).get("_tb_group") for r in part} - {None}):
            ents.append({"props": [("classname", "func_group"), ("_tb_id", g)]})
        for j, r in enumerate(part):
            name = "ent_%d" % j
            props = [("classname", name)] + [tuple(p) for p in r["raw"]] + [("other", "1")]
            rng.shuffle(props)
            ents.append({"props": props})
            forge.append(forge_def(name, [(n, k, forge_default(rng, k)) for n, k in r["decl"]]))
        out.append(case(map_lines(ents), cfg(forge=forge)))
    return out

def s06(rng, i):
    """Brushes whose vertices often agree between faces: smoothed, without
    texture coordinates, the same Valve axes on all faces."""
    ents = []
    defs = []
    texs = ["t0"] if i % 3 else ["t0", "t1"]
    for e in range(rng.randint(1, 2)):
        name = "worldspawn" if e == 0 else "func_a"
        props = [("classname", name)]
        if rng.random() < 0.8:
            props.append(("_phong", "1"))
        brushes = []
        for b in range(rng.randint(1, 3)):
            planes = small_shape(rng, cell(e*9 + b), ["box", "box", "cut1", "cut2", "octa", "prism", "pyramid", "cubocta"])
            u, v = rng.sample([(1, 0, 0), (0, 1, 0), (0, 0, 1)], 2)
            same = rng.random() < 0.7
            colour = rng.choice([(), (), (0, 0, 0, 1, 0.5, 0.25)])
            palette = [(0, 0, 0) + tuple(rng.choice([0, 1, 0.5]) for _ in range(3)), (0, 0, 0, 1, 1, 1), (0, 0, 0, 0, 0, 0)] \
                if rng.random() < 0.4 else None
            odd = rng.randrange(len(planes))
            near = rng.choice([0, 0, 0.1, 0.25, 0.5, 1])   # coordinates that almost agree
            def make(p, k):
                ex = colour if k != odd or rng.random() < 0.7 else rng.choice([(0, 0, 0, 1, 0.5, 0), ()])
                if palette:
                    ex = rng.choice(palette)
                t = rng.choice(texs)
                if same:
                    uu = u if k != odd or rng.random() < 0.5 else (1, 1, 1)
                    return valve_face(p, t, uu+(near*rng.randint(0, 2),), v+(near*rng.randint(0, 1),), 0, (1, 1), ex)
                return placement(rng, p, t, extra=ex)
            brushes.append(brush_faces(rng, planes, make))
        ents.append({"props": props, "brushes": brushes})
        defs.append(brush_def(name, "mesh", rng.choice(["none", "concave"])))
    tex = [(t, 64, 64) for t in ("t0", "t1") if rng.random() < 0.4]
    return case(map_lines(ents), cfg(tex=tex, defs=defs))

def m01(rng, i):
    if i % 4 == 0:
        lines = decorate(rng, good_map(rng, rng.random() < 0.5))
    else:
        lines = damage(rng, decorate(rng, good_map(rng, rng.random() < 0.4), 0.08))
    c = case([t for _, t in lines], base_cfg("none", "none"), detail="status")
    return eol(rng, c)

def eol(rng, c):
    if rng.random() < 0.3:
        c["eol"] = "crlf"
    if rng.random() < 0.3:
        c["noeol"] = True
    return c

def m02(rng, i):
    lines = good_map(rng, True, (1, 3))
    if rng.random() < 0.25:
        # the same face line again, next to the first or elsewhere in its brush
        ks = [k for k, l in enumerate(lines) if l[0] == "F"]
        if ks:
            k = j = rng.choice(ks)
            while rng.random() < 0.5 and lines[j+1][0] == "F":
                j += 1
            lines.insert(j+1, lines[k])
    lines = decorate(rng, lines, 0.2)
    c = case([t for _, t in lines], base_cfg(rng.choice(["convex", "convex", "none"])), touching=True)
    return eol(rng, c)

NUMS = ["{n}", "+{n}", "{n}.0", "{n}.", "{n}e0", "{n}0e-1", "{n}.000", "0{n}", "{n}E+0"]
def spell(rng, t):
    """Another notation of the same number."""
    neg = t.startswith("-")
    body = t[1:] if neg else t
    if "." in body:
        return rng.choice([t, t + "0", t + "e0", ("-" if neg else "+") + body] +
                          ([("-" if neg else "") + body[1:]] if body.startswith("0.") else []))
    f = rng.choice(NUMS).replace("{n}", body)
    if neg:
        return "-" + f.lstrip("+")
    return f

BADNUM = ["x", "1x", "0x10", "1_000", "--1", "1,5", "+-1", "e5", ".", "+", "-", "1e", "1e+", "1.2.3", "(", "]", "\"1\"", "1f", "NaN1", "in"]
def face_fields(f):
    return face_text(f).split(" ")

def number_positions(fs):
    std = fs[16][0] not in "["
    pos = [1, 2, 3, 6, 7, 8, 11, 12, 13]
    pos += [16, 17, 18, 19, 20] if std else [17, 18, 19, 20, 23, 24, 25, 26, 28, 29, 30]
    return pos, (21 if std else 31)

WS = [" ", " ", "  ", "\t", " \t ", "   ", "\f", "\r ", " "*20, "\x0b", "\u00a0", "\u3000", "\u2003 ", "\u0085"]
def m04(rng, i):
    ents = [{"props": [("classname", "worldspawn")], "brushes": []}]
    planes = small_shape(rng, (0, 0, 0), ["box", "cut1", "octa", "pyramid"])
    mode = rng.choice(["good", "good", "good", "bad", "bad", "drop", "extra"])
    extras = [[], [1], [3, -4, 2.5], [7, 0, 2, 0.25, 0.5, 0.75], [0, 0, 0, 1, 0.125, 0]]
    ex = rng.choice(extras)
    faces = brush_faces(rng, planes, lambda p, j: placement(rng, p, rng.choice(["t0", "T0", "t1", "Tex_1", "*water0", "a+b", "{x", "(p", "T-9", "1", "nan", rng.choice(NAMES)]),
                                                            extra=ex if rng.random() < 0.85 else rng.choice(extras)))
    out = []
    victim = rng.randrange(len(faces))
    for j, f in enumerate(faces):
        fs = face_fields(f)
        pos, xs = number_positions(fs)
        for k in pos:
            if rng.random() < 0.5:
                fs[k] = spell(rng, fs[k])
        for k in range(xs, len(fs)):
            if rng.random() < 0.4 and not (len(fs)-xs in (3, 6) and k < xs+2):
                fs[k] = spell(rng, fs[k])
        if j == victim and mode == "bad":
            k = rng.choice(pos + list(range(xs, len(fs))))
            fs[k] = rng.choice(BADNUM)
            if len(fs)-xs in (3, 6) and rng.random() < 0.2:
                fs[xs + rng.randint(0, 1)] = rng.choice(["1.5", "1e2", "2147483648", "1."])
        if j == victim and mode == "drop":
            r = rng.random()
            if r < 0.5:
                del fs[rng.randrange(1, len(fs))]
            elif r < 0.8:
                fs = fs[:rng.randrange(1, len(fs))]
            else:
                fs.insert(rng.randrange(1, len(fs)+1), rng.choice(["1", "x", "("]))
        if j == victim and mode == "extra":
            n = rng.choice([2, 4, 5, 7, 8, 1, 3, 6])
            fs = fs[:xs] + [rng.choice(["0", "1", "2", "-3", "0.5"]) for _ in range(n)]
        line = fs[0]
        for t in fs[1:]:
            line += rng.choice(WS) + t
        if rng.random() < 0.2:
            line += rng.choice([" ", "\t", "  "])
        out.append(line)
    ents[0]["brushes"].append(out)
    conf = cfg([(t, 64, 32) for t in ("t0", "t1", "tex_1", "*water0", "a+b", "{x") + tuple(n.lower() for n in NAMES[::2])], [], [], [],
               [brush_def("worldspawn", "mesh", "convex")])
    return case(map_lines(ents), conf)

def edited_face(rng, row):
    """A line of MCFaceLine as one face of a brush."""
    planes = small_shape(rng, (0, 0, 0), ["box", "cut1", "octa"])
    ex = [3, -4, 2.5, 0.25, 0.5, 0.75, 9][:row["nx"]]
    make = lambda p, j: placement(rng, p, rng.choice(["t0", "T1"]), kinds=(row["kind"],), extra=ex if len(ex) in (1, 3, 6) else ())
    faces = brush_faces(rng, planes, make)
    victim = rng.randrange(len(faces))
    out = []
    for j, f in enumerate(faces):
        fs = face_fields(f)
        if j == victim:
            if len(ex) not in (1, 3, 6):
                fs += [str(x) for x in ex]
            for op, i, t in row["edits"]:
                fs = {"del": lambda: fs[:i-1] + fs[i:], "put": lambda: fs[:i-1] + [t] + fs[i:],
                      "ins": lambda: fs[:i] + [t] + fs[i:], "cut": lambda: fs[:i]}[op]()
        out.append(" ".join(fs))
    conf = cfg([("t0", 64, 32)], [], [], [], [brush_def("worldspawn", "mesh", "convex")])
    return case(map_lines([{"props": [("classname", "worldspawn")], "brushes": [out]}]), conf)

# ------------------------------------------------------------------ totality

HUGE = ["nan", "inf", "-inf", "1e39", "-1e39", "3e38", "1e-45", "99999999999", "1e20", "0", "-0", "0.0001"]
def m03(rng, i):
    """Damaged files. Half of them as raw bytes that need not be text."""
    r = rng.random()
    if r < 0.25:
        c = scene(rng, n=(2, 5), groups=0.9, dup=0.5, cyc=0.6, brush_n=(0, 1), degenerate=0.3, forge=0.9)
        lines = c["lines"]
        conf = c["cfg"]
    else:
        lines = [t for _, t in decorate(rng, good_map(rng), 0.1)]
        conf = base_cfg(rng.choice(["convex", "concave", "none"]))
        conf["layers"] = [layer_def("w", "*water0", "mesh", "convex")]
    lines = list(lines)
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        k = rng.randrange(len(lines))
        op = rng.choice(["num", "num", "del", "dup", "cutline", "class", "id", "tok", "char", "trunc", "zero"])
        if op == "num":
            fs = lines[k].split(" ")
            js = [j for j, t in enumerate(fs) if t.lstrip("-").replace(".", "").isdigit()]
            for j in rng.sample(js, min(len(js), rng.choice([1, 1, 3, 9]))):
                fs[j] = rng.choice(HUGE)
            lines[k] = " ".join(fs)
        elif op == "zero":
            fs = lines[k].split(" ")
            fs = [("0" if t.lstrip("-").replace(".", "").isdigit() and rng.random() < 0.5 else t) for t in fs]
            lines[k] = " ".join(fs)
        elif op == "del":
            del lines[k]
        elif op == "dup":
            lines.insert(k, lines[rng.randrange(len(lines))])
        elif op == "cutline":
            lines[k] = lines[k][:rng.randint(0, len(lines[k]))]
        elif op == "class":
            lines = [l for l in lines if "classname" not in l or rng.random() < 0.6]
        elif op == "id":
            lines.insert(k, rng.choice(["\"_tb_id\" \"x\"", "\"_tb_id\" \"1\"", "\"_tb_group\" \"1\"", "\"_tb_group\" \"\"",
                                        "\"_tb_id\" \"99999999999\"", "\"origin\" \"nan inf x\"", "\"classname\" \"worldspawn\"",
                                        "\"_phong\" \"1\"", "\"_phong_angle\" \"nan\"", "\"\"", "\""]))
        elif op == "tok":
            fs = lines[k].split(" ")
            fs[rng.randrange(len(fs))] = rng.choice(["(", ")", "[", "]", "{", "}", "\"", "x", "", "-", "1e999"])
            lines[k] = " ".join(fs)
        elif op == "char" and lines[k]:
            j = rng.randrange(len(lines[k]))
            lines[k] = lines[k][:j] + rng.choice("\"{}()[]/ -.e0x") + lines[k][j+1:]
        elif op == "trunc":
            lines = lines[:k+1]
            lines[k] = lines[k][:rng.randint(0, len(lines[k]))]
        if not lines:
            lines = [""]
    c = case(lines, conf, detail="status")
    c["raw"] = False
    if rng.random() < 0.3:
        data = bytearray("\n".join(lines).encode())
        for _ in range(rng.choice([1, 1, 2, 8])):
            if not data:
                break
            j = rng.randrange(len(data))
            k = rng.random()
            if k < 0.4:
                data[j] = rng.randrange(256)
            elif k < 0.6:
                data[j:j] = rng.choice([b"\xff", b"\xc3", b"\xe2\x82", b"\x00", b"\xc3\xa9", b"\xe2\x80\x83", b"\xf0\x9f\x98\x80", b"\r", b"\x0b"])
            elif k < 0.8:
                del data[j:j+rng.randint(1, 20)]
            else:
                data = data[:j]
        c["hex"] = bytes(data).hex()
        c["lines"] = False
        c["raw"] = True
    return c

def m03_fixed():
    """Special files, and the known finding: a very long chain of nested groups."""
    out = []
    def chain(n):
        ents = [{"props": [("classname", "worldspawn")]}]
        ents += [{"props": [("classname", "func_group"), ("_tb_id", str(i+1))] + ([("_tb_group", str(i))] if i else [])}
                 for i in range(n)]
        return map_lines(ents)
    def raw(b, tag):
        c = case(False, base_cfg(), detail="status", raw=True, tag=tag)
        c["hex"] = b.hex()
        out.append(c)
    raw(b"", "empty")
    raw(b"\n", "newline")
    raw(b"\xff\xfe{\n", "utf16 mark")
    raw(b"{\n\"classname\" \"worldspawn\"\n}\n" * 3000, "many worldspawns")
    raw(b"{\n\"classname\" \"worldspawn\"\n" + b"\"k\" \"v\"\n" * 20000 + b"}\n", "many keys")
    raw(b"(" * 200000, "long line")
    raw(b"{" * 200000, "long brace line")
    raw(b"{\n" * 100000, "deep braces")
    raw(b"\"" * 100000, "quotes")
    raw("\n".join(chain(500)).encode(), "groups nested 500 deep")
    raw("\n".join(chain(6000)).encode(), "groups nested 6000 deep")
    c = case(False, base_cfg(), detail="status", raw=True, tag="missing file", path="/nonexistent/dir/x.map")
    out.append(c)
    c = case(False, base_cfg(), detail="status", raw=True, tag="directory as file", path="/proc/self")
    out.append(c)
    # a brush far outside the range floats can hold
    rng = random.Random(3)
    for k in (24, 40):
        from math import cos, sin, pi
        for s in (1e37, 1e38, 3e38):
            fs = []
            for j in range(k):
                a = 2*pi*j/k
                x, y = cos(a)*s, sin(a)*s
                fs.append("( %e %e 0 ) ( %e %e %e ) ( %e %e 0 ) t0 0 0 0 1 1"
                          % (x, y, x, y, s, x-sin(a)*s/9, y+cos(a)*s/9))
            fs += ["( 0 0 %e ) ( 0 %e %e ) ( %e 0 %e ) t0 0 0 0 1 1" % (s, s, s, s, s),
                   "( 0 0 %e ) ( %e 0 %e ) ( 0 %e %e ) t0 0 0 0 1 1" % (-s, s, -s, s, -s)]
            raw("\n".join(["{", "\"classname\" \"worldspawn\"", "{"] + fs + ["}", "}"]).encode(), "huge prism %d %g" % (k, s))
    return out

# ------------------------------------------------------------------ diff

DIFF_LINES = ["{", "}", "// a", "// b", "/", '"k" "v"', '"k" "w"', '"k1" "v"', "( 1 2 3 ) x", "( 1 2 3 ) y", "", " ", "{ ",
              "} // x", "{ // brush 0", '"k" "v" // x', '"k"  "v"', '"k"', '"k" "', '"', "text", "Text", "\tx", '"" ""', " {",
              '"a\\" "b\\n"', "[", "0", "\\", "( \"q\" )",
              # white space behind a line is part of it, behind a brace or a value it is not
              "( 1 2 3 ) x ", "( 1 2 3 ) x\t", "( 1  2 3 ) x", "// a ", "//a", '"k" "v" ', "} ", "text ", "  ", "\t"]

def diff_unreadable(rng):
    """One of the files is missing, a directory, or not text."""
    c = {"a": [rng.choice(DIFF_LINES) for _ in range(rng.randint(0, 4))]}
    c["b"] = list(c["a"]) if rng.random() < 0.5 else [rng.choice(DIFF_LINES) for _ in range(rng.randint(0, 4))]
    for side in rng.choice([["a"], ["b"], ["a", "b"]]):
        c[side + "kind"] = rng.choice(["missing", "directory", "not text"])
    return c

def diff_ends(rng, c):
    if rng.random() < 0.3:
        c["eol"] = "crlf"
    if rng.random() < 0.3 and (not c["a"] or c["a"][-1]) and (not c["b"] or c["b"][-1]):
        c["noeol"] = True
    return c

def diff_pair(rng, p):
    names = rng.sample(DIFF_LINES, 3)
    l = dict(zip("xyz", names))
    return diff_ends(rng, {"a": [l[t] for t in p["a"]], "b": [l[t] for t in p["b"]]})

def diff_case(rng):
    pool = rng.sample(DIFF_LINES, rng.randint(1, 8))
    if rng.random() < 0.3:
        a = [l for _, l in good_map(rng)][:40]
    else:
        a = [rng.choice(pool) for _ in range(rng.randint(0, 16))]
    b = list(a)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        r = rng.random()
        at = rng.choice([0, len(b), rng.randint(0, len(b))])
        if r < 0.4:
            b.insert(at, rng.choice(pool + a[:3]))
        elif b and r < 0.7:
            del b[min(at, len(b)-1)]
        elif b and r < 0.9:
            b.insert(at, b.pop(rng.randrange(len(b))))
        elif rng.random() < 0.3:
            b = [rng.choice(pool) for _ in range(rng.randint(0, 12))]
    if rng.random() < 0.5:
        a, b = b, a
    return diff_ends(rng, {"a": a, "b": b})

# ------------------------------------------------------------------ game data

WORDS = ["a", "Origin", "point_class", "a-b", "x.y", "_p", "9", "A0", "light_spot", "zz"]
TEXTS = ["", "a", "Two words", "x = [ y ]", "1 : 2", "tab\there", "@include", "// no comment", "100%", "{}", "(a, b)", " lead", "trail "]

def milli3(rng, big=9999999):
    """A number m / 10^e as [m, e], in the shortest form that names its f32."""
    if rng.random() < 0.3:
        while True:
            x, = struct.unpack("<f", struct.pack("<f", rng.uniform(1, 10) * 2.0**rng.choice([-3, -1, 0, 1, 4, 10, 20, rng.randint(-40, 60)])
                                                 * rng.choice([1, 1, -1])))
            for d in range(9):
                t = "%.*e" % (d, x)
                if struct.pack("<f", float(t)) == struct.pack("<f", x):
                    m, e = t.split("e")
                    m, e = int(m.replace(".", "")), d-int(e)
                    if abs(Fraction(x) * Fraction(10)**e - m) * 2 != 1:    # no tie between two shortest forms
                        return [m, e]
                    break
    m = rng.choice([0, 1, -1, 500, 1000, -1000, 1234, 6282, 10, 100, -20, 8191001, rng.randint(-big, big),
                    rng.randint(-5000, 5000), 1000 * rng.randint(-4096, 4096)])
    return [m, 3]

def quarter(rng):
    return rng.choice([0, 1020, 510, 255, 765, 4 * rng.randint(0, 255), 4 * rng.randint(0, 254) + rng.randint(0, 3)])

def fgd_prop(rng):
    k = rng.choice("I F V S C H H L L TS TD".split())
    d, l = 0, []
    if k == "I":
        d = rng.choice([0, 1, -1, 2147483647, -2147483647, rng.randint(-10**6, 10**6)])
    elif k == "F":
        d = milli3(rng)
    elif k == "V":
        d = [milli3(rng) for _ in range(3)]
    elif k == "S":
        d = rng.choice(TEXTS)
    elif k == "C":
        d = [quarter(rng) for _ in range(3)]
    elif k == "H":
        m = rng.choice([1, 1, 2, 3, 5, 5, 40])
        only = rng.choice(["", "", "I"])
        for _ in range(m):
            t = only or rng.choice("IFS")
            l.append([rng.choice(TEXTS), t, rng.choice([rng.randint(-99, 99), rng.randint(0, m)]) if t == "I" else milli3(rng) if t == "F"
                      else rng.choice(TEXTS)])
        d = rng.randrange(len(l))
    elif k == "L":
        n = rng.choice([0, 1, 2, 3, 8, 31, rng.randint(1, 31)])
        l = [rng.choice(TEXTS) for _ in range(n)]
        d = rng.choice([0, 1, -1, (1 << n) - 1, 1 << max(0, n-1), 2147483647, -2147483647, rng.randint(-2**31+1, 2**31-1),
                        rng.getrandbits(max(1, n))])
    return {"n": rng.choice(WORDS), "sd": rng.choice(TEXTS), "ld": rng.choice(TEXTS), "k": k, "d": d, "l": l}

def fgd_meta(rng):
    k = rng.choice(["base", "color", "size"])
    if k == "base":
        d = [rng.choice(WORDS) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
    elif k == "color":
        d = [quarter(rng) for _ in range(3)]
    else:
        d = [[milli3(rng) for _ in range(3)] for _ in range(2)]
    return {"k": k, "d": d}

def fgd_game(rng):
    return {"name": rng.choice(TEXTS + ["Test Game"]), "inc": [rng.choice(TEXTS) for _ in range(rng.choice([0, 0, 1, 2, 4]))],
            "defs": [{"ct": rng.choice(["base", "point", "solid"]), "meta": [fgd_meta(rng) for _ in range(rng.choice([0, 1, 2, 3]))],
                      "cls": rng.choice(WORDS), "desc": rng.choice(TEXTS),
                      "props": [fgd_prop(rng) for _ in range(rng.choice([0, 1, 2, 4]))]}
                     for _ in range(rng.choice([0, 1, 1, 2, 3]))]}

def fgd_large(rng):
    g = fgd_game(rng)
    g["inc"] = ["inc%d.fgd" % i for i in range(rng.choice([0, 12, 40]))]
    g["defs"] = [{"ct": rng.choice(["base", "point", "solid"]), "meta": [fgd_meta(rng) for _ in range(rng.choice([0, 3, 12]))],
                  "cls": rng.choice(WORDS + ["w"*70]), "desc": rng.choice(TEXTS + ["long "*60]),
                  "props": [fgd_prop(rng) for _ in range(rng.choice([0, 5, 30]))]} for _ in range(rng.choice([4, 12, 30]))]
    for m in (m for d in g["defs"] for m in d["meta"] if m["k"] == "base"):
        if rng.random() < 0.3:
            m["d"] = ["Base%d" % i for i in range(20)]
    return g

def fgd_case(rng, g):
    return {"kind": "fgd", "g": g, "stale": rng.random() < 0.5}

# ------------------------------------------------------------------ WAD files

WADNAMES = [" sp", "tail ", "tab\t", "WALL1", "*slime0", "+0btn", "sky1", "A", "0123456789ABCDEF", "t0", "T0", "{grate", "m\u00dcnster", "\u00d7\u00b5\u00de", "a b"]

def name16(n, rng=None, junk=False):
    b = n.encode("latin-1")[:16]
    if len(b) < 16:
        b += b"\0"
        rest = 16 - len(b)
        b += bytes(rng.randrange(256) for _ in range(rest)) if junk and rng else b"\0" * rest
    return b

def texture_bytes(rng, magic, w, h, name, gap=0, junk=False, palgap=0):
    """A texture lump; its levels and palette follow the header after gap bytes.
    With palgap the last recorded offset, and the palette with it, lies that much further."""
    s = [w*h, w*h//4, w*h//4//4, w*h//4//4//4]
    o1 = 40 + gap
    o = [o1, o1+s[0], o1+s[0]+s[1], o1+s[0]+s[1]+s[2]+palgap]
    out = name16(name, rng, junk) + struct.pack("<6I", w, h, *o)
    out += bytes(rng.randrange(256) for _ in range(gap))
    pick = rng.choice([range(256), range(256), (0, 1, 127, 128, 254, 255), (255,)])
    out += bytes(rng.choice(pick) for _ in range(sum(s)+palgap))
    if magic == b"WAD3":
        out += struct.pack("<H", 256) + bytes(rng.randrange(256) for _ in range(768)) + b"\0" * rng.choice([0, 2])
    return out

def wad_file(rng, magic=None, n=None, sizes=((8, 8), (16, 8), (8, 16), (16, 16), (24, 8), (0, 8)), others=0.3, shared=0.15, plain=False):
    """A well-formed WAD file; returns (bytes, directory names of textures)."""
    magic = magic or rng.choice([b"WAD2", b"WAD3"])
    n = n if n is not None else rng.choice([0, 1, 2, 3, 4])
    lumps, names = [], []
    for i in range(n):
        w, h = rng.choice(sizes)
        nm = rng.choice(WADNAMES)
        dirname = nm if rng.random() < 0.7 else rng.choice(WADNAMES)
        lumps.append([dirname, rng.choice("CD") if not plain else "CD"[magic == b"WAD2"],
                      texture_bytes(rng, magic, w, h, nm, rng.choice([0, 0, 0, 4, 13]), rng.random() < 0.3,
                                    rng.choice([0, 0, 0, 0, 2, 7, 64]) if magic == b"WAD3" else 0)])
        names.append(dirname)
    while rng.random() < others:
        lumps.append([rng.choice(WADNAMES), rng.choice(["@", "B", "E", "\0", "c", "\xc3"]),
                      bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 30, 60])))])
    order = list(range(len(lumps)))
    rng.shuffle(order)                       # order of the lumps in the file
    dirlen = 32 * len(lumps)
    before = rng.random() < 0.3              # directory in front of the lumps
    pos = 12 + (dirlen if before else 0)
    body, at = b"", {}
    for i in order:
        gap = rng.choice([0, 0, 1, 7])
        body += b"\xee" * gap
        pos += gap
        at[i] = pos
        body += lumps[i][2]
        pos += len(lumps[i][2])
    for i in range(n):                       # two entries with the same data
        if n > 1 and rng.random() < shared:
            at[i] = at[rng.randrange(n)]
    listing = list(range(len(lumps)))
    rng.shuffle(listing)
    d = b""
    for i in listing:
        ln = len(lumps[i][2])
        d += struct.pack("<3I", at[i], ln, ln) + lumps[i][1].encode("latin-1") + bytes([rng.choice([0, 0, 0, 0, 0, 1, 255])]) + struct.pack("<H", rng.choice([0, 0xbeef]))
        d += name16(lumps[i][0], rng, rng.random() < 0.3)
    diroff = 12 if before else pos
    out = magic + struct.pack("<2I", len(lumps), diroff) + (d + body if before else body + d)
    if rng.random() < 0.2:
        out += b"trailing"
    return out, names

def whitelist(rng, names):
    r = rng.random()
    if r < 0.4:
        return []
    l = rng.sample(names, rng.randint(0, len(names))) + rng.sample(WADNAMES, rng.randint(0, 2))
    if rng.random() < 0.2:
        l += [x + " " for x in names] + [" " + x for x in names] + [x.strip() for x in names] + [""]
    if r > 0.85:
        l += [x.lower() for x in names] + [x.upper() for x in names]
    rng.shuffle(l)
    return [l]

def palette_hex(rng):
    return bytes(rng.randrange(256) for _ in range(768 + rng.choice([0, 0, 1, 100]))).hex()

def wad_case(rng, convert=False, **kw):
    f, names = wad_file(rng, **kw)
    c = {"hex": f.hex(), "white": whitelist(rng, names), "mips": rng.choice([1, 2, 3, 4, 4]), "convert": convert}
    if convert and rng.random() < 0.6:
        c["palhex"] = palette_hex(rng)
    return c

HEADFIELDS = [0, 3, 4, 5, 6, 7, 8, 9, 10, 11]
def wad_targets(f):
    """Offsets of the bytes of header, directory and texture headers."""
    n, d = struct.unpack("<2I", f[4:12])
    out = list(HEADFIELDS)
    for k in range(n):
        e = d + 32*k
        out += [e+i for i in (0, 1, 2, 3, 12, 13, 16, 17)]
        if f[e+12:e+13] in (b"C", b"D"):
            o = struct.unpack("<I", f[e:e+4])[0]
            out += [o+i for i in list(range(0, 2)) + list(range(16, 40))]
    return sorted(set(out))

def wad_damage(rng, f):
    f = bytearray(f)
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        t = [p for p in wad_targets(bytes(f)) if p + 4 <= len(f)] if r < 0.7 and len(f) >= 12 and struct.unpack("<I", f[4:8])[0] < 50 \
            and struct.unpack("<I", f[8:12])[0] + 32 * struct.unpack("<I", f[4:8])[0] <= len(f) else []
        if t:
            p = rng.choice(t)
            if rng.random() < 0.5:
                f[p] = rng.choice([0, 1, 2, 16, 67, 68, 127, 128, 255, rng.randrange(256)])
            else:
                f[p:p+4] = struct.pack("<I", rng.choice([0, 1, len(f), len(f)-1, len(f)-768, 0x7fffffff, 0x80000000, 0xffffffff,
                                                         0xfffffff0, 65536, rng.randrange(2**32), rng.randrange(4000)]) & 0xffffffff)
        elif r < 0.76:
            f[:4] = rng.choice([b"WAD4", b"WAD1", b"wad2", b"Wad3", b"IWAD", b"PWAD", b"PACK", b"WAD\0", b"2DAW", b" WAD", b"WAD ", b"AWAD", b"WAD2", b"WAD3",
                                b"WAE3", b"WBD3", b"VAD3", b"\xd7AD2"])
        elif r < 0.85 and len(f):
            del f[rng.randrange(len(f)):]
        elif len(f):
            f[rng.randrange(len(f))] = rng.randrange(256)
    return bytes(f)

# ------------------------------------------------------------------ repetition

import copy
def determinism_case(rng, repeat, **kw):
    c = scene(rng, **kw)
    ents, conf = copy.deepcopy(scene.last), copy.deepcopy(c["cfg"])
    get = lambda e, k: dict(e["props"]).get(k)
    layers = [l["name"] for l in conf["layers"]]
    kind = rng.choice(["entity", "entity", "grouped", "brush", "brush", "layer", "definition", "texture", "comment"])
    touched = []
    lines = None
    if kind in ("entity", "grouped"):
        new = {"props": [("classname", "added_x")], "brushes": []}
        ids = [get(e, "_tb_id") for e in ents if get(e, "_tb_id") is not None]
        if kind == "grouped" and ids:
            new["props"].append(("_tb_group", rng.choice(ids)))
        if rng.random() < 0.5:
            new["props"].append(("origin", "8 16 24"))
        if rng.random() < 0.5:
            new["brushes"].append(make_brush(rng, (300, 300, 300), ["t0", "t1", "*water0"]))
            conf["defs"].append(brush_def("added_x", "mesh", "convex"))
        ents.insert(rng.randint(0, len(ents)), new)
        touched = ["added_x"]
    elif kind == "brush":
        e = rng.choice(ents)
        uni = rng.choice([None, None, "*water0", "*slime0"])
        e["brushes"].insert(rng.randint(0, len(e["brushes"])), make_brush(rng, (300, -300, 300), ["t0", "t1", "t2"], uniform=uni))
        touched = [get(e, "classname")]
        if get(e, "_tb_id") is not None:
            touched += [get(x, "classname") for x in ents if get(x, "_tb_group") == get(e, "_tb_id")]
        if get(e, "classname") == "worldspawn":
            touched += layers
    elif kind == "layer":
        conf["layers"].insert(rng.randint(0, len(layers)), layer_def("layer_new", rng.choice(["*water0", "*slime0", "t0"]), "mesh", "concave"))
        touched = layers + ["layer_new"]
    elif kind == "definition":
        conf["defs"].insert(rng.randint(0, len(conf["defs"])), brush_def("unused", "mesh", "convex"))
        conf["forge"].insert(rng.randint(0, len(conf["forge"])), forge_def("unused", [("p0", "I", 3)]))
    elif kind == "texture":
        conf["tex"].insert(rng.randint(0, len(conf["tex"])), ["zzz", 64, 64])
        conf["blp"].append("zzz")
    else:
        lines = []
        for l in map_lines(ents):
            if rng.random() < 0.3:
                lines.append(rng.choice(["// added", "", "/ x"]))
            lines.append(l)
    c["detail"] = "digest"
    c["repeat"] = repeat
    c["touched"] = touched
    c["kind"] = kind
    c["changed"] = {"lines": lines or map_lines(ents), "cfg": conf}
    return c

# ------------------------------------------------------------------ large inputs

def dirs(n):
    return sorted({prim((a, b, 0))[:2] for a in range(-n, n+1) for b in range(-n, n+1) if (a, b) != (0, 0)})
DIRS, MOREDIRS = dirs(3), dirs(5)

def ring(rng, k, unit=4):
    """A convex lattice polygon with k sides (k even, up to 80)."""
    from math import atan2
    half = [d for d in (DIRS if k <= 32 else MOREDIRS) if (d[1], d[0]) > (0, 0)]
    ds = rng.sample(half, k//2)
    ds = sorted(ds + [(-a, -b) for a, b in ds], key=lambda d: atan2(d[1], d[0]))
    x = y = 0
    pts = []
    for a, b in ds:
        pts.append((x, y))
        x += a*unit
        y += b*unit
    cx, cy = (sum(p[i] for p in pts)//k for i in (0, 1))
    return [(px-cx, py-cy) for px, py in pts]

def many_sides(rng, k, kind):
    """Planes of a prism or cone over a polygon of k sides."""
    while True:
        r = ring(rng, k, rng.choice([4, 4, 8, 12]) if kind == "prism" else 4)
        d = []
        for (x, y), (x2, y2) in zip(r, r[1:] + r[:1]):
            n = prim((y2-y, x-x2, 0))
            d.append((n, dot(n, (x, y, 0))))
        if kind == "prism":
            planes = d + [((0, 0, 1), 24), ((0, 0, -1), 8)]
        else:
            planes = hull([(x, y, 0) for x, y in r] + [(0, 0, rng.choice([24, 40, 64]))])
        perm = rng.choice([(0, 1, 2), (2, 0, 1), (1, 2, 0)])
        planes = [(tuple(n[perm[i]] for i in range(3)), e) for n, e in planes]
        if max(abs(x) for n, _ in planes for x in n) > 400:
            continue
        c, ok = analyse(planes)
        if ok and is_solid(planes, c):
            return planes

def big_brush(rng, vis="mesh", col="concave", kinds=("std", "valve"), props=(), texs=None, sides=(12, 14, 16, 18), shapes=("prism",),
              degenerate=0.0):
    """One brush with many faces, or with one face of many corners."""
    planes = many_sides(rng, rng.choice(sides), rng.choice(shapes))
    rng.shuffle(planes)
    names = texs or ["t%d" % i for i in range(len(planes))]
    faces = brush_faces(rng, planes, lambda p, i: placement(rng, p, names[i % len(names)], kinds), spread=4)
    while rng.random() < degenerate:
        faces.insert(rng.randint(0, len(faces)), placement(rng, degenerate_points(rng, (0, 0, 0)), rng.choice(names), kinds))
    conf = cfg(tex=[(t, 64, 32) for t in names if rng.random() < 0.9], defs=[brush_def("worldspawn", vis, col)])
    e = {"props": [("classname", "worldspawn")] + list(props), "brushes": [faces]}
    return case(map_lines([e]), conf, single=len(set(names)) == len(planes))

def odd_face(rng, **kw):
    """A brush with many faces, one of which differs from the others."""
    planes = many_sides(rng, rng.choice([5, 8, 12, 16]), "prism")
    rng.shuffle(planes)
    k = rng.choice([len(planes)-1, len(planes)-1, 0, rng.randrange(len(planes))])
    world = rng.random() < 0.6
    most, odd = rng.sample(["t0", "t1", "t2", "*water0", "*slime0"], 2)
    faces = brush_faces(rng, planes, lambda p, i: placement(rng, p, odd if i == k else most), spread=4)
    ents = [{"props": [("classname", "worldspawn")], "brushes": [faces] if world else []}]
    if not world:
        ents.append({"props": [("classname", "func_a")], "brushes": [faces]})
    vis, col = kw.get("vis") or rng.choice(["mesh", "mesh", "none"]), kw.get("col") or rng.choice(["none", "convex", "concave"])
    lists = [[], [], [most], [odd], [most, odd]]
    conf = cfg([(t, rng.choice([16, 64, 128]), rng.choice([32, 64])) for t in (most, odd) if rng.random() < 0.8],
               rng.choice(lists), rng.choice(lists), [],
               [brush_def("worldspawn", vis, col), brush_def("func_a", vis, col)],
               [layer_def("layer_w", "*water0", "mesh", "convex"), layer_def("layer_s", "*slime0", "mesh", "concave")])
    return case(map_lines(ents), conf)

LONG = ["a_rather_long_texture_name_of_more_than_31_letters", "textures/base/wall_01", "x"*64, "y"*130, "Z9"*10, "+0btn", "sky1", "clip",
        "skip", "trigger", "common/caulk", "liquids/*water", "*lava0", "*water1", "*water0x", "water0", "*WATER0", "#x", "0", "-1", "t-1.5", "{rail", "}x"] + NAMES

def tile(i):
    return ((i % 8 - 4)*40, (i//8 % 8 - 4)*40, (i//64)*40)

def many_boxes(rng, k, vis="mesh", col="convex", texs=None, ents=1, water=0.0, props=(), layers=False, known=0.85, bl=0.0, plain=True, copies=0.0):
    """Many small boxes, spread over a few entities, with many textures."""
    texs = texs or ["t%d" % i for i in range(rng.choice([1, 2, 6, 20]))]
    out = [{"props": [("classname", "worldspawn" if i == 0 else "ent_%d" % i)] + list(props), "brushes": []} for i in range(ents)]
    for b in range(k):
        x, y, z = tile(b)
        w = [rng.choice([8, 12, 16, 24]) for _ in range(3)]
        uni = None
        if rng.random() < water:
            uni = rng.choice(["*water0", "*slime0"])
        elif rng.random() < 0.3:
            uni = rng.choice(texs)
        planes = box((x, y, z), (x+w[0], y+w[1], z+w[2]))
        rng.shuffle(planes)
        def make(p, i):
            t = uni or rng.choice(texs)
            return std_face(p, t) if plain else placement(rng, p, t)
        out[rng.randrange(ents) if rng.random() < 0.3 else 0]["brushes"].append(brush_faces(rng, planes, make, spread=3))
    pool = texs + ["*water0", "*slime0"]
    conf = cfg([(t, rng.choice([16, 64, 128]), rng.choice([32, 64])) for t in pool if rng.random() < known or t[0] == "*"],
               [t for t in pool if rng.random() < bl], [t for t in pool if rng.random() < bl], [],
               [brush_def("worldspawn", vis, col)] + [brush_def("ent_%d" % i, vis, col) for i in range(1, ents)],
               [layer_def("layer_w", "*water0", "mesh", rng.choice(["convex", "concave"])),
                layer_def("layer_s", "*slime0", "mesh", rng.choice(["convex", "concave"]))] if layers else [])
    rng.shuffle(out)
    done = copy_brushes(rng, out, copies)
    return case(map_lines(out), conf, touching=done)

def many_entities(rng, n, nested=0.6, forge=0.3):
    """Many entities in a deep and wide group tree; a few definitions each."""
    ents, defs, fl = [{"props": [("classname", "worldspawn")]}], [], []
    deep = rng.random() < 0.4
    for i in range(1, n):
        p = [("classname", "ent_%d" % i)]
        if rng.random() < 0.5:
            p.append(("origin", "%d %d %d" % tuple(rng.randint(-64, 64) for _ in range(3))))
        if deep or rng.random() < 0.4:
            p.append(("_tb_id", str(i)))
        if i > 1 and rng.random() < nested:
            p.append(("_tb_group", str(i-1 if deep and rng.random() < 0.9 else rng.randint(1, i-1))))
        if rng.random() < 0.4:
            p.append(("_tb_name", "Group %d" % i))
        body = p[1:]
        rng.shuffle(body)
        ents.append({"props": [p[0]] + body if rng.random() < 0.5 else body + [p[0]]})
        if rng.random() < 0.6:
            defs.append(point_def("ent_%d" % i, rng.choice([("class", "C%d" % i), ("prefab", "p%d" % i), ("placeholder", "")]),
                                  rng.choice([[], ["s%d.gd" % i]]), rng.choice("PDM")))
        if rng.random() < forge:
            fl.append(forge_def("ent_%d" % i, [("p0", "S", "d%d" % i)]))
    rng.shuffle(ents)
    rng.shuffle(defs)
    rng.shuffle(fl)
    return case(map_lines(ents), cfg(forge=fl, defs=defs))

def many_props(rng, k):
    """Entities with many keys, long keys and long values."""
    ents, fl = [], []
    for name in ("worldspawn", "ent_1", "ent_2"):
        fp, pr = [], [("classname", name)]
        for i in range(rng.randint(k//2, k)):
            nm = rng.choice(["p%d" % i, "p%d" % i, "a_long_key_name_of_more_than_thirty_two_letters_%d" % i, "P%d" % i, "_p%d" % i, "k k%d" % i,
                             "x.y/%d" % i, "// %d" % i])
            kind = rng.choice(FORGE_KINDS)
            fp.append((nm, kind, forge_default(rng, kind)))
            if rng.random() < 0.75:
                v = prop_value(rng, kind)
                if kind == "S" and rng.random() < 0.4:
                    v = rng.choice(["x"*31, "y"*32, "long text "*30, "a//b", "http://x/y", "{1}", "semi;colon", "100%", "back\\slash", "#tag"])
                pr.append((nm, v))
                if rng.random() < 0.05:
                    pr.append((nm, prop_value(rng, kind)))
        if rng.random() < 0.5:
            pr += [("_tb_id", "7" if name == "ent_1" else "8"), ("_tb_name", "n"*rng.choice([3, 40, 300]))]
        rng.shuffle(pr)
        rng.shuffle(fp)
        ents.append({"props": pr})
        fl.append(forge_def(name, fp))
    return case(map_lines(ents), cfg(forge=fl))

def diff_long(rng, n):
    """Long files that differ in a few places; long common parts."""
    pool = rng.sample(DIFF_LINES, rng.randint(1, 6))
    a = [rng.choice(pool) for _ in range(n)]
    if rng.random() < 0.4:
        a = ['"k%d" "v"' % i for i in range(n)]
    b = list(a)
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.6:
            b.insert(rng.choice([0, len(b), rng.randint(0, len(b))]), rng.choice(pool + a[:2]))
        else:
            del b[rng.choice([0, len(b)-1, rng.randrange(len(b))])]
    if rng.random() < 0.5:
        a, b = b, a
    return diff_ends(rng, {"a": a, "b": b})
