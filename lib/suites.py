"""One function per property: which parts of the specification are explored
exhaustively, and which inputs are run through the real code and judged."""
import json, os, random, re, shutil, time
import core, gen, project
from mapgen import *

MAXSAMPLE = 2500

def clip(x, n=MAXSAMPLE):
    t = json.dumps(x)
    return x if len(t) <= n else t[:n] + "..."

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s-%d" % (pid, seed))
        self.states = self.transitions = self.traces = 0
        self.design, self.groups, self.samples, self.violations, self.findings = [], [], [], [], []
        self.unjudged = 0
        self.exe = core.build_harness()
        self.known = [f for f in core.known_findings() if f[0] == pid]

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- design level
    def mc(self, module, expect=None, cfg=None, timeout=800, heap=None, env=None, **constants):
        t0 = time.time()
        t = core.run_tlc(module, cfg=cfg, env=env, constants=constants, timeout=timeout, heap=heap)
        if expect is None and t.violation:
            raise core.ToolError("%s %s: the model breaks its own property: %s" % (module, constants, t.violation))
        if expect is not None and not (t.violation and expect in t.violation):
            raise core.ToolError("%s %s: expected a violation of %s, got %s" % (module, constants, expect, t.violation))
        if expect is None:
            self.states += t.distinct
            self.transitions += t.generated
        self.design.append({"module": module, "constants": {k: str(v) for k, v in constants.items()},
                            "distinct_states": t.distinct, "generated": t.generated, "depth": t.depth,
                            "result": "holds" if expect is None else "violated as expected: " + expect,
                            "seconds": round(time.time() - t0, 1)})
        return t.printed

    # ---- conformance
    def conform(self, label, mode, module, cases, timeout=20, env=None, batch=1500, slim=None, jobs=core.CORES,
                processes=1):
        for i, c in enumerate(cases):
            c["id"] = i
        t0 = time.time()
        states = trans = bad = 0
        for k in range(0, len(cases), batch):
            part = cases[k:k+batch]
            obs = core.run_harness(self.exe, mode, part, timeout=timeout, env=env, jobs=jobs)
            for _ in range(processes - 1):     # histories of several processes
                for k2, o in core.run_harness(self.exe, mode, part, timeout=timeout, env=env, jobs=jobs).items():
                    if obs[k2]["st"] == "ok":
                        if o["st"] == "ok":
                            obs[k2]["runs"] += o["runs"]
                        else:
                            obs[k2] = o
            if mode in project.BY_MODE:
                obs = {k: project.BY_MODE[mode](o) for k, o in obs.items()}
            verdicts, t = core.judge(module, self.pid, part, obs, slim=slim)
            states += t.distinct
            trans += t.generated
            for c in part:
                v = verdicts[c["id"]]
                if not v.get("judged", True):
                    self.unjudged += 1
                if v["bad"]:
                    bad += 1
                    self.report(label, mode, module, c, obs[c["id"]], v, env)
        self.states += states
        self.transitions += trans
        self.traces += len(cases)
        self.groups.append({"inputs": label, "traces": len(cases), "judge": module, "states": states,
                            "deviating": bad, "seconds": round(time.time() - t0, 1)})
        if cases and len(self.samples) < 6:
            self.samples.append({"inputs": label, "case": clip(cases[len(cases)//2])})

    def shim(self, threads=None):
        """Environment in which the harness reads through the read shim."""
        if not hasattr(self, "_so"):
            self._so = core.build_shim()
        e = {"LD_PRELOAD": self._so}
        if threads:
            e["RAYON_NUM_THREADS"] = str(threads)
        return e

    def wad(self, label, cases, env=None, **kw):
        kw.setdefault("batch", 400)
        self.conform(label, "wad", "JudgeWad", cases, env=env, slim=project.wad_case, **kw)

    def report(self, label, mode, module, case, obs, verdict, env=None):
        # What identifies a finding: its inputs, tag, outcome and deviations
        text = "%s|%s|%s|%s" % (label, case.get("tag", ""), obs.get("st"),
                                ",".join(sorted({str(b.get("t", b)) if isinstance(b, dict) else str(b) for b in verdict["bad"]})))
        for _, rx, what in self.known:
            if rx.search(text):
                self.findings.append(what)
                return
        self.violations.append({"property": self.pid, "inputs": label, "mode": mode, "module": module, "case": case,
                                "env": env, "observed": obs, "verdict": verdict, "what": text})

    def finish(self, wall):
        d = os.path.join(core.EVID, "replays")
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(d, f))
        coverage = {"states": self.states, "transitions": self.transitions,
                    "traces_validated_against_impl": self.traces, "samples": self.samples,
                    "design": self.design, "conformance": self.groups,
                    "traces_with_parts_left_unjudged": self.unjudged,
                    "known_findings_met": sorted(set(self.findings))}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": coverage, "assumptions": ASSUME, "wall_s": round(wall, 1),
              "violations": len(self.violations)}
        text = json.dumps(ev, indent=1)
        while len(text) > 60000 and coverage["samples"]:
            coverage["samples"] = [clip(s, 600) for s in coverage["samples"][:-1]]
            text = json.dumps(ev, indent=1)
        open(os.path.join(core.EVID, self.pid + ".json"), "w").write(text + "\n")
        for f in sorted(set(self.findings)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f))
        shown = 0
        for i, v in enumerate(self.violations):
            if i >= 20:
                break
            p = os.path.join(d, "%s-%d.json" % (self.pid, i))
            json.dump(v, open(p, "w"))
            if shown < 3:
                print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, core.VERIF)))
                print("  %s: %s" % (v["inputs"], json.dumps(v["verdict"]["bad"])[:600]))
                if v["observed"].get("msg"):
                    print("  %s" % str(v["observed"]["msg"])[:300])
                shown += 1
        print("%s %s: %d states, %d traces, %d violations, %.1f s"
              % (self.pid, self.tier, self.states, self.traces, len(self.violations), wall))
        return 1 if self.violations else 0

ASSUME = ["TLC and the TLA+ modules under spec/ are the oracle; Rust and Python only drive and project",
          "floating-point results are compared in fixed point with the tolerances of spec/Scene.tla"]

def replay(ctx, r, case):
    slim, kw = None, {}
    if r["module"] == "JudgeTotal":
        slim = lambda r: {"id": r["id"], "missing": "path" in r, "obs": {"st": r["obs"]["st"]}}
    if r["module"] == "JudgeWad":
        slim = project.wad_case
    if r["module"] == "JudgeDeterminism":
        slim, kw = project.determinism_case, {"processes": 4}
    env = r.get("env")
    if env and "LD_PRELOAD" in env:
        env = dict(env, LD_PRELOAD=core.build_shim())
    ctx.conform(r["inputs"], r["mode"], r["module"], [case], env=env, slim=slim, **kw)

def neg(name):
    return '"%s"' % name

# ------------------------------------------------------------------ reading

def histories(ctx, label, depth, alphabet, detail, only_ok=False, full=False, sample=None):
    hs = ctx.mc("MCParser", Depth=depth, Emit="TRUE", Alphabet='"%s"' % alphabet)
    if only_ok:
        hs = [h for h in hs if h["ok"]]
    if sample and len(hs) > sample:
        hs = ctx.rng.sample(hs, sample)
    cases = [case(gen.parser_case(h["h"], alphabet, full), gen.base_cfg("convex" if full else "none",
                  "mesh" if full else "none"), detail=detail) for h in hs]
    ctx.conform(label, "map", "JudgeScene", cases)

def M01(ctx):
    histories(ctx, "every line history (nesting)", ctx.n(6, 7), "nest", "status")
    histories(ctx, "every line history (classnames)", ctx.n(7, 9), "class", "status", sample=ctx.n(4000, 60000))
    ctx.conform("random and damaged files", "map", "JudgeScene",
                [gen.m01(ctx.rng, i) for i in range(ctx.n(900, 8000))])
    ctx.conform("many entities", "map", "JudgeScene", large(ctx, 6, 60, gen.many_entities, (60, 200)))

def M02(ctx):
    histories(ctx, "every accepted line history", ctx.n(6, 7), "nest", "full", only_ok=True, full=True,
              sample=ctx.n(500, 4000))
    ctx.conform("random files", "map", "JudgeScene", [gen.m02(ctx.rng, i) for i in range(ctx.n(300, 3000))])
    ctx.conform("many entities", "map", "JudgeScene", large(ctx, 6, 60, gen.many_entities, (30, 70)))
    ctx.conform("many keys", "map", "JudgeScene", large(ctx, 16, 200, gen.many_props, (10, 40)))
    boxes(ctx, n=(4, 40), texs=gen.LONG, ents=3)
    boxes(ctx, n=(8, 80), size=(3, 10), vis="none", ents=3, copies=0.6)

def M03(ctx):
    ctx.mc("MCParser", Depth=ctx.n(6, 7))
    slim = lambda r: {"id": r["id"], "missing": "path" in r, "obs": {"st": r["obs"]["st"]}}
    ctx.conform("special files", "map", "JudgeTotal", gen.m03_fixed(), timeout=40, slim=slim)
    ctx.conform("damaged files", "map", "JudgeTotal", [gen.m03(ctx.rng, i) for i in range(ctx.n(3000, 40000))],
                slim=slim, batch=10000)

def M04(ctx):
    lines = ctx.mc("MCFaceLine", Emit="TRUE")
    ctx.mc("MCFaceLine", Lenient="TRUE", MaxExtra=1, expect="Agree")
    if not ctx.thorough:
        plain = [l for l in lines if not l["edits"]]
        lines = plain + ctx.rng.sample(lines, 1500)
    ctx.conform("face lines within one edit, enumerated by MCFaceLine", "map", "JudgeScene",
                [gen.edited_face(ctx.rng, l) for l in lines])
    ctx.conform("face lines", "map", "JudgeScene", [gen.m04(ctx.rng, i) for i in range(ctx.n(900, 8000))])

# ------------------------------------------------------------------ geometry

def cuts(ctx, n1, n2, **kw):
    """Boxes cut by planes, enumerated by TLC."""
    shapes = ctx.mc("MCGeometry", Emit="TRUE", MaxCuts=2, Big="TRUE" if ctx.thorough else "FALSE")
    one = [s for s in shapes if len(s["p"]) <= 7]
    two = [s for s in shapes if len(s["p"]) > 7]
    pick = ctx.rng.sample(one, min(n1, len(one))) + ctx.rng.sample(two, min(n2, len(two)))
    ctx.conform("cut boxes enumerated by MCGeometry", "map", "JudgeScene",
                [gen.from_planes(ctx.rng, s["p"], **kw) for s in pick])

def singles(ctx, label, n, **kw):
    cases = []
    for _ in range(n):
        k = dict(kw)
        f = k.pop("fn", None)
        if f:
            k.update(f(ctx.rng))
        cases.append(single_brush(ctx.rng, **k))
    ctx.conform(label, "map", "JudgeScene", cases)

def G01(ctx):
    cuts(ctx, ctx.n(60, 200), ctx.n(80, 3000), col="convex")
    singles(ctx, "random solids", ctx.n(200, 3000), col="convex")
    singles(ctx, "solids far from the origin", ctx.n(120, 1500), col="convex", far=True)
    singles(ctx, "solids on a fine grid", ctx.n(80, 1000), col="convex", fine=True)
    singles(ctx, "planes at small angles", ctx.n(60, 600), col="convex", families=["needle", "hull5", "hull6"])
    singles(ctx, "wedges", ctx.n(70, 600), col="convex", families=["wedge"], touching=False)
    singles(ctx, "shaved boxes", ctx.n(60, 600), col="convex", shave=True)
    singles(ctx, "shaved boxes far from the origin", ctx.n(30, 400), col="convex", shave=True, far=True)
    many_faced(ctx, col="convex")
    boxes(ctx, vis="mesh", col="convex")

def many_faced(ctx, n=(16, 300), fn=None, **kw0):
    kw = lambda: dict(kw0, **(fn(ctx.rng) if fn else {}))
    ctx.conform("brushes with many faces or many-cornered faces", "map", "JudgeScene",
                [gen.big_brush(ctx.rng, sides=(10, 12, 14, 16, 18, 24), shapes=("prism", "prism"), **kw()) for _ in range(ctx.n(*n)*2//3)]
                + [gen.big_brush(ctx.rng, sides=(8, 10, 12, 14), shapes=("cone",), **kw()) for _ in range(ctx.n(*n)//3)]
                + [gen.big_brush(ctx.rng, sides=(32,), **kw()) for _ in range(ctx.n(1, 8))])

def boxes(ctx, n=(6, 60), size=(20, 50), **kw):
    ctx.conform("many brushes", "map", "JudgeScene",
                [gen.many_boxes(ctx.rng, ctx.rng.randint(*size), **kw) for _ in range(ctx.n(*n))])

def large(ctx, quick, thorough, fn, size, **kw):
    return [fn(ctx.rng, ctx.rng.randint(*size), **kw) for _ in range(ctx.n(quick, thorough))]

def G02(ctx):
    cuts(ctx, ctx.n(60, 200), ctx.n(80, 3000), col="concave")
    singles(ctx, "random solids", ctx.n(250, 3000), col="concave")
    singles(ctx, "solids far from the origin", ctx.n(120, 1500), col="concave", far=True)
    singles(ctx, "solids on a fine grid", ctx.n(80, 1000), col="concave", fine=True)
    many_faced(ctx, col="concave")
    boxes(ctx, col="concave")

def G03(ctx):
    singles(ctx, "standard placement", ctx.n(200, 2500), col="none", kinds=("std",))
    singles(ctx, "Valve placement", ctx.n(150, 2000), col="none", kinds=("valve",))
    singles(ctx, "both placements, extra numbers", ctx.n(60, 800), col="none", extra=True)
    singles(ctx, "far from the origin", ctx.n(100, 1000), col="none", far=True)
    ctx.conform("several textures and entities", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(1, 3), cols=("none",), viss=("mesh",), groups=0, degenerate=0.1)
                 for _ in range(ctx.n(60, 600))])
    many_faced(ctx, col="none")
    boxes(ctx, n=(6, 60), size=(12, 30), col="none", texs=gen.LONG, plain=False)

PHONG = [[]] + [[("_phong", v)] for v in ("1", "1", "1", "0", "2", "", "10", "1.0", "01", " 1", "1 ", "+1", "-1", "true", "yes", "11")]
PHONG += [[("_Phong", "1")], [("phong", "1")], [("_phong", "1"), ("_phong", "0")], [("_phong", "0"), ("_phong", "1")]]
ANGLES = ["30", "45", "46", "60", "89", "90", "100", "120", "150", "0", "1", "x", "", "45.0", "6e1", "+60", " 60", "60 ", "60x", "179",
          "44.998", "45.002", "44.98", "44.9", "89.998", "89.98", "59.998", "59.97", "90.02", "30.5", "54.73", "54.75", "35.25", "70.52", "70.54",
          "109.46", "109.48", "-10", "-60", "-90", "180", "200", "270", "315", "360", "390", "1000", "0.001", "-0", "4.5e1", ".5", "nan"]
def phong(rng, always=True, angle=0.0):
    p = [("_phong", "1")] if always or rng.random() < 0.6 else list(rng.choice(PHONG))
    if rng.random() < angle:
        p.append(("_phong_angle", rng.choice(ANGLES)))
    return {"props": p}

def G04(ctx):
    singles(ctx, "flat and smoothed", ctx.n(120, 1500), col="none", fn=lambda r: phong(r, False, 0.3))
    singles(ctx, "smoothed", ctx.n(120, 1500), col="none", fn=lambda r: phong(r))
    singles(ctx, "smoothed within an angle", ctx.n(220, 3000), col="none", touching=False,
            families=["cut1", "cut2", "cut3", "prism", "pyramid", "octa", "cubocta", "box", "poly9", "hull6"],
            fn=lambda r: phong(r, True, 1.0))
    ctx.conform("several entities", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(2, 4), cols=("none",), viss=("mesh",), groups=0.2, phong=0.7, brush_n=(1, 2))
                 for _ in range(ctx.n(60, 600))])
    many_faced(ctx, col="none", fn=phong)
    many_faced(ctx, n=(12, 200), col="none", fn=lambda r: phong(r, True, 1.0))
    boxes(ctx, n=(4, 40), size=(12, 30), col="none", ents=3, props=[("_phong", "1")])

def G05(ctx):
    singles(ctx, "standard placement", ctx.n(250, 3000), col="none", kinds=("std",))
    singles(ctx, "Valve placement", ctx.n(200, 2500), col="none", kinds=("valve",))
    singles(ctx, "any rotation", ctx.n(120, 1500), col="none", kinds=("std",), rots=list(range(-360, 361, 7)))
    many_faced(ctx, col="none")
    boxes(ctx, n=(4, 40), size=(12, 30), col="none", plain=False)

def G06(ctx):
    ctx.conform("brushes with degenerate faces", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(1, 3), degenerate=0.6, phong=0.3, groups=0.3, water=0.1, layers=0.4)
                 for _ in range(ctx.n(150, 2500))])
    ctx.conform("single brushes with degenerate faces", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(1, 1), degenerate=0.7, brush_n=(0, 0), viss=("mesh",), defs=1,
                           cols=("convex", "concave"), phong=0.4, extra=True) for _ in range(ctx.n(200, 2500))])
    many_faced(ctx, degenerate=0.7)

def G07(ctx):
    ctx.conform("entities with and without origin", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(2, 5), origin=0.5, groups=0.4, water=0.2, layers=0.3, degenerate=0.1,
                           cols=("convex", "concave"), defs=0.95) for _ in range(ctx.n(220, 3000))])
    singles(ctx, "single brush centres", ctx.n(120, 1500), col="convex")
    singles(ctx, "far centres", ctx.n(80, 1000), col="concave", far=True)
    many_faced(ctx, col="convex")
    boxes(ctx, ents=3, col="concave", water=0.2, layers=True)
    ctx.conform("many entities", "map", "JudgeScene", large(ctx, 6, 60, gen.many_entities, (20, 60)))

# ------------------------------------------------------------------ scene

def L01(ctx):
    ctx.mc("MCSurfaces", Mode=neg("layers"))
    starts = ctx.mc("MCSurfaces", Mode=neg("layers"), Emit="TRUE")
    starts = ctx.rng.sample(starts, min(len(starts), ctx.n(250, 1296)))
    ctx.conform("brush textures enumerated by MCSurfaces", "map", "JudgeScene",
                [gen.surface_case(ctx.rng, s) for s in starts])
    ctx.conform("random maps with layers", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(1, 4), water=0.8, layers=1.0, groups=0.3, degenerate=0.05)
                 for _ in range(ctx.n(180, 2500))])
    boxes(ctx, n=(10, 100), ents=2, col="convex", water=0.6, layers=True)
    boxes(ctx, n=(10, 100), size=(3, 10), ents=2, col="convex", water=0.6, layers=True, copies=0.6)
    ctx.conform("brushes with one odd face", "map", "JudgeScene", [gen.odd_face(ctx.rng) for _ in range(ctx.n(50, 600))])

def group_cases(ctx, k):
    rows = ctx.mc("MCScene", Emit="TRUE", N=3)
    rows = ctx.rng.sample(rows, min(k, len(rows)))
    return [gen.group_case(ctx.rng, r["e"]) for r in rows]

def S01(ctx):
    if ctx.thorough:
        ctx.mc("MCScene", N=4)
    ctx.mc("MCScene", N=3, FirstOnly="FALSE", expect="LeftOut")
    ctx.mc("MCScene", N=3, Guarded="FALSE", expect="EachOnce")
    ctx.conform("group graphs enumerated by MCScene", "map", "JudgeScene", group_cases(ctx, ctx.n(1200, 2187)))
    ctx.conform("random group graphs", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(3, 12), groups=0.8, dup=0.3, cyc=0.25, brush_n=(0, 1), max_brushes=3, defs=0.4,
                           cols=("none", "convex"), viss=("none",), forge=0.2)
                 for _ in range(ctx.n(300, 4000))])
    ctx.conform("many entities", "map", "JudgeScene", large(ctx, 12, 150, gen.many_entities, (20, 70)))

def S02(ctx):
    ctx.conform("group graphs enumerated by MCScene", "map", "JudgeScene", group_cases(ctx, ctx.n(800, 2187)))
    ctx.conform("random maps with layers and groups", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(3, 8), groups=0.5, brush_n=(0, 1), max_brushes=5, layers=0.9, water=0.5, ws_last=0.8,
                           defs=0.9, forge=0.2) for _ in range(ctx.n(250, 3000))])
    ctx.conform("both layers", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(1, 4), groups=0.3, brush_n=(3, 4), max_brushes=6, layers=1.0, water=0.97, ws_last=0.5, origin=0.2,
                           layer_viss=("mesh",), viss=("none",), cols=("none", "convex"), layer_cols=("none", "convex"), forge=0.0, water_known=1.0)
                 for _ in range(ctx.n(60, 600))])
    ctx.conform("many entities", "map", "JudgeScene", large(ctx, 12, 150, gen.many_entities, (20, 70)))

def S03(ctx):
    ctx.conform("definitions", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(2, 7), unique=ctx.rng.random() < 0.4, groups=0.3, brush_n=(0, 1), max_brushes=5,
                           defs=0.8, dup_defs=0.4, point=0.3, forge=0.5, known=0.6, blb=0.15, blp=0.15, qid=True)
                 for _ in range(ctx.n(300, 4000))])
    ctx.conform("definitions and several brushes", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(2, 4), unique=ctx.rng.random() < 0.7, groups=0.3, brush_n=(0, 4), max_brushes=9, defs=1.0,
                           point=0.1, forge=0.2, known=0.7, blb=0.1, blp=0.1, layers=0.5, water=0.3, qid=True)
                 for _ in range(ctx.n(60, 700))])
    ctx.conform("many entities", "map", "JudgeScene", large(ctx, 12, 150, gen.many_entities, (20, 70)))

def S04(ctx):
    rows = ctx.mc("MCProps", Emit="TRUE")
    ctx.mc("MCProps", Rule=neg("kept"), expect="TableIsRight")
    ctx.conform("every kind with every spelling, and under every bookkeeping key, enumerated by MCProps", "map", "JudgeScene",
                gen.prop_cases(ctx.rng, rows))
    ctx.conform("random properties", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(3, 8), unique=ctx.rng.random() < 0.5, groups=0.5, brush_n=(0, 0), max_brushes=0, forge=0.9,
                           forge_props=(0, 8), defs=0.3) for _ in range(ctx.n(400, 6000))])
    ctx.conform("many properties", "map", "JudgeScene", large(ctx, 24, 300, gen.many_props, (10, 40)))
    ctx.conform("many entities", "map", "JudgeScene", large(ctx, 4, 40, gen.many_entities, (20, 50)))

def S05(ctx):
    starts = ctx.mc("MCSurfaces", Mode=neg("lists"), Textures='{"t0", "t1", "t2"}', Emit="TRUE")
    starts = ctx.rng.sample(starts, ctx.n(300, 6000))
    ctx.conform("textures and blacklists enumerated by MCSurfaces", "map", "JudgeScene",
                [gen.surface_case(ctx.rng, s) for s in starts])
    ctx.conform("random maps", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(1, 3), texs=("t0", "t1", "t2", "t3"), known=0.6, blb=0.3, blp=0.3, groups=0.1,
                           viss=("mesh",), cols=("none", "convex", "concave"), brush_n=(1, 3), water=0.2, layers=0.5)
                 for _ in range(ctx.n(150, 2000))])
    boxes(ctx, n=(10, 100), texs=gen.LONG, bl=0.3, ents=2)
    boxes(ctx, n=(4, 40), texs=["t%d" % i for i in range(50)], bl=0.2)
    boxes(ctx, n=(10, 100), size=(3, 10), ents=2, copies=0.6)
    ctx.conform("brushes with one odd face", "map", "JudgeScene", [gen.odd_face(ctx.rng) for _ in range(ctx.n(60, 600))])

def S06(ctx):
    ctx.mc("MCMerge", Size=ctx.n(1, 2))
    if ctx.thorough:
        ctx.mc("MCMerge", Size=3)
    ctx.mc("MCMerge", Size=1, Rule=neg("last"), expect="Lossless")
    ctx.conform("surfaces with many mergeable vertices", "map", "JudgeScene",
                [gen.s06(ctx.rng, i) for i in range(ctx.n(220, 3000))])
    singles(ctx, "single brushes", ctx.n(60, 600), col="none", extra=True, fn=lambda r: phong(r, False, 0.0))
    many_faced(ctx, fn=lambda r: dict(phong(r, False, 0.0), texs=["t0"] if r.random() < 0.5 else ["t0", "t1"]))
    boxes(ctx, texs=["t0", "t1"], props=[("_phong", "1")])

def S07(ctx):
    ctx.conform("convex collision", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(2, 4), cols=("convex",), viss=("none", "none", "mesh"), defs=1.0, point=0.05,
                           blb=0.4, blp=0.4, known=0.5, water=0.3, layers=0.8, layer_cols=("convex",), degenerate=0.1,
                           brush_n=(0, 3), groups=0.3, dup_defs=0) for _ in range(ctx.n(200, 3000))])
    singles(ctx, "single brushes", ctx.n(120, 1500), vis="none", col="convex")
    singles(ctx, "far single brushes", ctx.n(60, 800), vis="none", col="convex", far=True)
    many_faced(ctx, vis="none", col="convex")
    boxes(ctx, vis="none", col="convex", ents=2, bl=0.2)
    boxes(ctx, n=(10, 100), size=(3, 12), vis="none", col="convex", ents=3, copies=0.6)
    ctx.conform("brushes of 44 and more sides", "map", "JudgeScene",
                [gen.big_brush(ctx.rng, sides=ctx.n((44, 48), (44, 48, 56, 64, 80)), vis="none", col="convex", texs=["t0"]) for _ in range(ctx.n(3, 20))])

def S08(ctx):
    ctx.conform("concave collision", "map", "JudgeScene",
                [gen.scene(ctx.rng, n=(2, 4), cols=("concave",), viss=("none", "none", "mesh"), defs=1.0, point=0.05,
                           blb=0.4, blp=0.4, known=0.5, water=0.3, layers=0.8, layer_cols=("concave",), degenerate=0.1,
                           brush_n=(0, 3), groups=0.3, dup_defs=0) for _ in range(ctx.n(200, 3000))])
    singles(ctx, "single brushes", ctx.n(120, 1500), vis="none", col="concave")
    singles(ctx, "far single brushes", ctx.n(60, 800), vis="none", col="concave", far=True)
    many_faced(ctx, vis="none", col="concave")
    boxes(ctx, vis="none", col="concave", ents=2, bl=0.2)
    boxes(ctx, n=(10, 100), size=(3, 12), vis="none", col="concave", ents=3, copies=0.6)

def S09(ctx):
    ctx.mc("MCDeterminism")
    ctx.mc("MCDeterminism", Ordered="FALSE", expect="SameEveryTime")
    slim = project.determinism_case
    ctx.conform("repeated runs and changed maps, 4 processes", "map", "JudgeDeterminism",
                [gen.determinism_case(ctx.rng, 3, n=(3, 8), groups=0.5, brush_n=(0, 2), layers=0.9, water=0.6, ws_last=0.5,
                                      forge=0.8, phong=0.2, defs=0.9, degenerate=0.05)
                 for _ in range(ctx.n(300, 4000))], slim=slim, processes=4)
    ctx.conform("repeated runs of large properties tables, 4 processes", "map", "JudgeDeterminism",
                [gen.determinism_case(ctx.rng, 4, n=(2, 4), groups=0.3, brush_n=(0, 1), layers=1.0, water=1.0, water_known=1.0,
                                      forge=1.0, forge_props=(4, 8), defs=1.0) for _ in range(ctx.n(100, 1500))],
                slim=slim, processes=4)
    ctx.conform("repeated runs of many entities, 4 processes", "map", "JudgeDeterminism",
                [gen.determinism_case(ctx.rng, 2, n=(20, 40), groups=0.7, brush_n=(0, 1), forge=0.3, forge_props=(0, 2), defs=0.9)
                 for _ in range(ctx.n(20, 200))], slim=slim, processes=4)

# ------------------------------------------------------------------ diff

def D01(ctx):
    ctx.mc("MCDiff", MaxLen=ctx.n(4, 6))
    ctx.mc("MCDiff", MaxLen=2, Complete="FALSE", expect="ComputedIsShortest")
    pairs = ctx.mc("MCDiff", MaxLen=3, Tokens='{"x", "y", "z"}', Emit="TRUE")
    ctx.conform("every pair of files of up to three lines", "diff", "JudgeDiff",
                [gen.diff_pair(ctx.rng, p) for p in pairs])
    if ctx.thorough:
        pairs = ctx.mc("MCDiff", MaxLen=5, Emit="TRUE")
        ctx.conform("every pair of files of up to five lines of two kinds", "diff", "JudgeDiff",
                    [gen.diff_pair(ctx.rng, p) for p in pairs])
    ctx.conform("files that are missing, directories or not text", "diff", "JudgeDiff",
                [gen.diff_unreadable(ctx.rng) for _ in range(ctx.n(40, 200))])
    ctx.conform("edited maps", "diff", "JudgeDiff", [gen.diff_case(ctx.rng) for _ in range(ctx.n(500, 8000))])
    ctx.conform("long files", "diff", "JudgeDiff",
                [gen.diff_long(ctx.rng, ctx.rng.choice([40, 100, 257, 260, 300, ctx.rng.randint(20, 300)])) for _ in range(ctx.n(16, 200))])

# ------------------------------------------------------------------ game data

def F01(ctx):
    ctx.mc("MCFgd", MaxProps=2)
    games = ctx.mc("MCFgd", MaxProps=1, Emit="TRUE")
    ctx.conform("small definition sets enumerated by MCFgd", "fgd", "JudgeFgd", [gen.fgd_case(ctx.rng, g) for g in games])
    ctx.conform("random definition sets", "fgd", "JudgeFgd",
                [gen.fgd_case(ctx.rng, gen.fgd_game(ctx.rng)) for _ in range(ctx.n(700, 12000))])
    ctx.conform("large definition sets", "fgd", "JudgeFgd",
                [gen.fgd_case(ctx.rng, gen.fgd_large(ctx.rng)) for _ in range(ctx.n(24, 300))])

def F02(ctx):
    ctx.conform("every value and every valid code", "fgd", "JudgeFgd", [{"kind": "codes"} for _ in range(2)])

# ------------------------------------------------------------------ WAD files

def W01(ctx):
    ctx.wad("well-formed files", [gen.wad_case(ctx.rng) for _ in range(ctx.n(500, 8000))])
    ctx.wad("many small textures", [gen.wad_case(ctx.rng, n=ctx.rng.randint(5, 24), sizes=((8, 8), (0, 0)))
                                    for _ in range(ctx.n(40, 500))])
    ctx.wad("larger textures", [gen.wad_case(ctx.rng, n=ctx.rng.randint(1, 2), sizes=((32, 32), (64, 16), (16, 64), (40, 24), (128, 16), (80, 8), (16, 96)))
                                for _ in range(ctx.n(60, 500))])
    ctx.wad("hundreds of entries", [gen.wad_case(ctx.rng, n=ctx.rng.choice([100, 257, 300]), magic=b"WAD2", sizes=((4, 4), (0, 0), (8, 2)))
                                    for _ in range(ctx.n(3, 30))])
    ctx.wad("large pictures", [gen.wad_case(ctx.rng, n=1, sizes=((256, 256), (320, 64), (64, 512))) for _ in range(ctx.n(3, 30))])

def W02(ctx):
    ctx.mc("MCWad", Jobs=3, Threads=ctx.n(2, 3))
    ctx.mc("MCWad", Shared="TRUE", expect="SameAsSequential")
    if ctx.thorough:
        ctx.mc("MCWad", Jobs=4, Threads=4, Stops="FALSE")
    for th in (2, 3, 8):
        cases = []
        for _ in range(ctx.n(60, 600)):
            c = gen.wad_case(ctx.rng, n=ctx.rng.randint(2, 12), sizes=((8, 8), (16, 8), (16, 16)))
            c["white"] = [] if ctx.rng.random() < 0.8 else c["white"]
            c["repeat"] = ctx.n(6, 20)
            c["shim"] = [ctx.rng.randrange(1 << 30), ctx.rng.choice([0, 1, 7, 100, 1000]), ctx.rng.choice([0, 1]),
                         ctx.rng.choice([0, 20, 60]), 0]
            cases.append(c)
        ctx.wad("%d readers, reads in pieces, interrupted and delayed" % th, cases, env=ctx.shim(th), timeout=60, jobs=4)
    # damaged textures in the middle of others: the error does not depend on the schedule
    cases = []
    for _ in range(ctx.n(60, 600)):
        f, _names = gen.wad_file(ctx.rng, n=ctx.rng.randint(3, 10), sizes=((8, 8),))
        cases.append({"hex": gen.wad_damage(ctx.rng, f).hex(), "white": [], "mips": 4, "repeat": ctx.n(4, 12),
                      "shim": [ctx.rng.randrange(1 << 30), 64, 1, 20, 0]})
    ctx.wad("damaged files under schedules", cases, env=ctx.shim(4), timeout=60, jobs=4)

def W03(ctx):
    bases = []
    for magic, n in ((b"WAD2", 1), (b"WAD2", 2), (b"WAD3", 1)):
        f, _ = gen.wad_file(ctx.rng, magic=magic, n=n, sizes=((8, 8),), others=0.2)
        bases.append({"f": list(f), "pos": gen.wad_targets(f), "mips": ctx.rng.choice([1, 4, 4])})
    path = os.path.join(core.work(), "wadfiles.ndjson")
    open(path, "w").write("".join(json.dumps(b) + "\n" for b in bases))
    muts = ctx.mc("MCWadFile", env={"FILES": path})
    cases = []
    for m in muts:
        b = bases[m["n"]-1]
        f = bytearray(b["f"])
        if m["mut"][0] == "cut":
            del f[m["mut"][1]:]
        elif m["mut"][0] == "set":
            f[m["mut"][1]] = m["mut"][2]
        cases.append({"hex": bytes(f).hex(), "white": [], "mips": b["mips"]})
    if len(cases) > ctx.n(2500, 10**6):
        cases = ctx.rng.sample(cases, 2500)
    ctx.wad("every truncation and corrupted field (MCWadFile)", cases, timeout=30)
    cases = []
    for _ in range(ctx.n(1200, 20000)):
        f, names = gen.wad_file(ctx.rng, n=ctx.rng.choice([1, 1, 2, 3]), sizes=((8, 8), (16, 8), (5, 3), (1, 1), (0, 4)))
        cases.append({"hex": gen.wad_damage(ctx.rng, f).hex(), "white": gen.whitelist(ctx.rng, names), "mips": ctx.rng.choice([1, 2, 3, 4])})
    ctx.wad("damaged files", cases, timeout=30)
    cases = []
    for k in sorted(set(list(range(0, 800)) + [1000, 1024, 1536, 2304])):
        cases.append({"kind": "palette", "hex": bytes(ctx.rng.randrange(256) for _ in range(k)).hex()})
    for p in ("/nonexistent/x.wad", "/", "/proc/self/mem"):
        cases.append({"path": p, "white": [], "mips": 4})
        cases.append({"path": p, "kind": "palette"})
    ctx.wad("palettes and missing files", cases)
    # every call that reads the file fails once
    cases = []
    for _ in range(ctx.n(12, 80)):
        f, _ = gen.wad_file(ctx.rng, n=ctx.rng.choice([1, 2]), sizes=((8, 8),), others=0.2)
        for k in range(1, 26):
            cases.append({"hex": f.hex(), "white": [], "mips": 4, "shim": [1, ctx.rng.choice([0, 0, 200]), 0, 0, k]})
    for k in range(1, 5):
        cases.append({"kind": "palette", "hex": bytes(768).hex(), "shim": [1, 0, 0, 0, k]})
    ctx.wad("read errors at every call", cases, env=ctx.shim(2), jobs=4)

def W04(ctx):
    for magic in (b"WAD2", b"WAD3"):
        ctx.wad("%s textures converted" % magic.decode(), [gen.wad_case(ctx.rng, convert=True, magic=magic, n=ctx.rng.randint(1, 3))
                                                   for _ in range(ctx.n(140, 2000))])
    ctx.wad("larger textures converted", [gen.wad_case(ctx.rng, convert=True, n=ctx.rng.choice([1, 20]), sizes=((64, 16), (16, 64)))
                                        for _ in range(ctx.n(6, 60))])
