"""Brush shapes for test maps: planes with integer normals, written as three
lattice points. Nothing here is trusted by the verdict: the specification
recomputes every corner from the written points."""
from math import gcd, isqrt
from itertools import combinations

def cross(a, b):
    return (a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0])

def dot(a, b):
    return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]

def sub(a, b):
    return (a[0]-b[0], a[1]-b[1], a[2]-b[2])

def add(a, b):
    return (a[0]+b[0], a[1]+b[1], a[2]+b[2])

def mul(k, a):
    return (k*a[0], k*a[1], k*a[2])

def prim(n):
    g = gcd(gcd(n[0], n[1]), n[2])
    return (n[0]//g, n[1]//g, n[2]//g)

def egcd(a, b):
    if b == 0:
        return (abs(a), (1 if a >= 0 else -1), 0)
    g, s, t = egcd(b, a % b)
    return (g, t, s - (a//b)*t)

def lattice(n, d):
    """A point on n.x = d and a basis of the lattice of the plane."""
    a, b, c = n
    if a == 0 and b == 0:
        return (0, 0, d*c), (1, 0, 0), (0, 1, 0)
    g, s, t = egcd(a, b)
    u = (b//g, -a//g, 0)
    v = (-c*s, -c*t, g)
    # z with d - c z divisible by g
    for z in range(abs(g)):
        if (d - c*z) % g == 0:
            k = (d - c*z)//g
            return (s*k, t*k, z), u, v
    raise ValueError

def near(p, u, v, target):
    """Moves p within the plane towards target."""
    def dist(q):
        w = sub(q, target)
        return dot(w, w)
    step = 1 << 12
    while step:
        moved = True
        while moved:
            moved = False
            for w in (u, v, add(u, v), sub(u, v)):
                for k in (step, -step):
                    q = add(p, mul(k, w))
                    if dist(q) < dist(p):
                        p, moved = q, True
        step //= 2
    return p

def plane_points(rng, n, d, target=(0, 0, 0), spread=6):
    """Three integer points of n.x=d, clockwise seen from outside."""
    p, u, v = lattice(n, d)
    p = near(p, u, v, target)
    # reduce the basis so that points stay close together
    for _ in range(20):
        if dot(u, u) > dot(v, v):
            u, v = v, u
        k = round(dot(u, v)/dot(u, u))
        if k == 0:
            break
        v = sub(v, mul(k, u))
    while True:
        pts = [add(p, add(mul(rng.randint(-spread, spread), u), mul(rng.randint(-spread, spread), v)))
               for _ in range(3)]
        m = cross(sub(pts[2], pts[0]), sub(pts[1], pts[0]))
        if m == (0, 0, 0):
            continue
        # avoid slivers: the three points should span a fair angle
        e1, e2 = sub(pts[1], pts[0]), sub(pts[2], pts[0])
        if dot(m, m)*100 < dot(e1, e1)*dot(e2, e2):
            continue
        if dot(m, n) < 0:
            pts[1], pts[2] = pts[2], pts[1]
        return pts

LIMIT = 2**31 - 1

def len8(n):
    """Eight times the length, rounded up, as in Scene.tla."""
    q = dot(n, n)
    m = 64*q if q < 30000000 else q
    r = isqrt(m)
    u = r if r*r == m else r+1
    return u if q < 30000000 else 8*u

def prod3(a, b, c):
    p = -(-a*b//8)
    return -(-p*c//64) if p < 60000 else -(-p//8)*-(-c//8)

def analyse(planes, gs=1):
    """(corners, ok): corners of the intersection as homogeneous points; ok if
    the specification's arithmetic stays within 32 bits and no rounding-
    sensitive coincidence occurs."""
    k = len(planes)
    ok = True
    cands = {}
    for i, j, l in combinations(range(k), 3):
        (a, da), (b, db), (c, dc) = planes[i], planes[j], planes[l]
        bc, ca, ab = cross(b, c), cross(c, a), cross(a, b)
        w = dot(a, bc)
        if w == 0:
            continue
        big = max(abs(x) for x in bc+ca+ab)
        if max(abs(da), abs(db), abs(dc))*big*3 > LIMIT:
            ok = False
        if abs(w) <= 10**6 and abs(w)*500 <= prod3(len8(a), len8(b), len8(c)):
            ok = False
        X = [da*bc[m]+db*ca[m]+dc*ab[m] for m in range(3)]
        g = gcd(gcd(X[0], X[1]), gcd(X[2], w))
        if w < 0:
            g = -g
        cands[tuple(x//g for x in X)+(w//g,)] = (i, j, l)
    corners = []
    for x in cands:
        inside = True
        for (n, d) in planes:
            if sum(abs(n[m]*x[m]) for m in range(3)) > LIMIT or abs(d*x[3]) > LIMIT:
                ok = False
            e = dot(n, x[:3]) - d*x[3]
            if e > 0:
                inside = False
                k, l = x[3]*gs, len8(n)
                if e <= 100000 and e*500 <= (-(-k*l//8) if k < 50000 and l < 40000 else k*-(-l//8)):
                    ok = False
        if inside:
            corners.append(x)
    for x, y in combinations(corners, 2):
        if all(abs(x[m]/x[3]-y[m]/y[3])/gs*30 <= 1.05 for m in range(3)):
            ok = False
    return corners, ok

def faces_with_area(planes, corners):
    return [i for i, (n, d) in enumerate(planes)
            if sum(1 for x in corners if dot(n, x[:3]) == d*x[3]) >= 3]

def is_solid(planes, corners):
    """Bounded with non-empty interior (Euler's formula on the proper faces)."""
    if len(set(planes)) != len(planes) or len(corners) < 4:
        return False
    pf = faces_with_area(planes, corners)
    if len(pf) < 4:
        return False
    on = {i: {x for x in corners if dot(planes[i][0], x[:3]) == planes[i][1]*x[3]} for i in pf}
    edges = 0
    for i, j in combinations(pf, 2):
        if len(on[i] & on[j]) == 2:
            edges += 1
    if len(set().union(*on.values())) - edges + len(pf) != 2:
        return False
    return all(sum(1 for j in pf if j != i and len(on[i] & on[j]) == 2) == len(on[i]) for i in pf)

# ---------------------------------------------------------------- families

def box(lo, hi):
    return [((1, 0, 0), hi[0]), ((-1, 0, 0), -lo[0]), ((0, 1, 0), hi[1]), ((0, -1, 0), -lo[1]),
            ((0, 0, 1), hi[2]), ((0, 0, -1), -lo[2])]

def rand_box(rng, r=48, mn=8):
    lo = [rng.randint(-r, r-mn) for _ in range(3)]
    hi = [rng.randint(l+mn, r) for l in lo]
    return box(lo, hi)

def normal(rng, m):
    while True:
        n = tuple(rng.randint(-m, m) for _ in range(3))
        if n != (0, 0, 0):
            return prim(n)

def cut_box(rng, cuts, m=3, r=48):
    p = rand_box(rng, r, 16)
    for _ in range(cuts):
        corners, _ = analyse(p)
        for _ in range(20):
            n = normal(rng, m)
            if any(n == q[0] for q in p):
                continue
            vals = sorted(dot(n, x[:3])/x[3] for x in corners)
            lo, hi = vals[0], vals[-1]
            if rng.random() < 0.35:
                d = round(rng.choice(vals[len(vals)//2:]))     # through (or near) a corner
            else:
                d = round(lo + (hi-lo)*rng.uniform(0.55, 0.98))
            q = p + [(n, d)]
            c2, ok = analyse(q)
            if ok and is_solid(q, c2):
                p = q
                break
    return p

def polytope(rng, k, m=3, radius=40):
    c = tuple(rng.randint(-8, 8) for _ in range(3))
    ns = set()
    while len(ns) < k:
        ns.add(normal(rng, m))
    out = []
    for n in sorted(ns):
        l = dot(n, n)**0.5
        out.append((n, round(dot(n, c)+l*rng.uniform(0.7, 1.0)*radius)))
    rng.shuffle(out)
    return out

def hull(points):
    """Planes of the convex hull of integer points."""
    planes = set()
    for a, b, c in combinations(points, 3):
        n = cross(sub(b, a), sub(c, a))
        if n == (0, 0, 0):
            continue
        n = prim(n)
        d = dot(n, a)
        s = [dot(n, p)-d for p in points]
        if all(x <= 0 for x in s):
            planes.add((n, d))
        if all(x >= 0 for x in s):
            planes.add((mul(-1, n), -d))
    return sorted(planes)

def hull_shape(rng, k, r=5, unit=8):
    while True:
        pts = list({tuple(rng.randint(-r, r)*unit for _ in range(3)) for _ in range(k)})
        p = hull(pts)
        if len(p) >= 4 and max(abs(x) for n, _ in p for x in n) <= 40:
            return p

def pyramid(rng):
    w, h = rng.choice([8, 16, 24, 32]), rng.choice([8, 16, 24])
    z0, z1 = rng.choice([-16, -8, 0]), rng.choice([8, 16, 32])
    pts = [(w, h, z0), (w, -h, z0), (-w, -h, z0), (-w, h, z0), (0, 0, z1)]
    if rng.random() < 0.5:
        pts.append((0, 0, z0-8))
    return hull(pts)

def prism(rng):
    ring = rng.choice([
        [(16, 0), (0, 16), (-16, 0), (0, -16)],
        [(24, 8), (8, 24), (-8, 24), (-24, 8), (-24, -8), (-8, -24), (8, -24), (24, -8)],
        [(16, 8), (0, 16), (-16, 8), (-16, -8), (0, -16), (16, -8)],
        [(24, 0), (-8, 16), (-8, -16)],
        [(16, 16), (-16, 16), (-16, -16)]])
    z0, z1 = rng.choice([-8, 0]), rng.choice([8, 16, 40])
    perm = rng.choice([(0, 1, 2), (2, 0, 1), (1, 2, 0)])
    pts = [(x, y, z) for x, y in ring for z in (z0, z1)]
    pts = [tuple(p[perm[i]] for i in range(3)) for p in pts]
    return hull(pts)

def octahedron(rng):
    a, b, c = (rng.choice([8, 16, 24]) for _ in range(3))
    return hull([(a, 0, 0), (-a, 0, 0), (0, b, 0), (0, -b, 0), (0, 0, c), (0, 0, -c)])

def cuboctahedron(rng):
    s = rng.choice([8, 16])
    pts = set()
    for i in range(3):
        for a in (s, -s):
            for b in (s, -s):
                p = [a, b]
                p.insert(i, 0)
                pts.add(tuple(p))
    return hull(sorted(pts))

def needle(rng):
    """Faces nearly parallel to each other."""
    k = rng.choice([10, 14, 20])
    h, w = 40, rng.choice([16, 24])
    p = box((-w, -w, -8), (w, w, h))
    p = [q for q in p if q[0] != (0, 0, 1)]
    p += [((1, 0, k), k*20 + rng.randint(0, 10)), ((-1, 0, k), k*20 + rng.randint(0, 10))]
    if rng.random() < 0.5:
        p.append(((0, 1, k), k*20 + rng.randint(0, 12)))
    return p

def wedge(rng):
    """Long brushes with gently sloping faces."""
    k = rng.choice([8, 12, 16, 20, 30, 40, 60, 90, 120, 150, 200, 300, 400, 450])
    w, l = rng.choice([16, 32]), rng.choice([40, 60]) if k < 100 else rng.choice([240, 400]) if k < 250 else rng.choice([500, 700])
    a = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)])
    top = ((a[0], a[1], k), k*rng.choice([8, 12, 16]) + rng.randint(0, k//2))
    lo, hi = [-w, -w, -8], [w, w, 24]
    j = 0 if a[0] else 1
    lo[j], hi[j] = -l, l
    p = [q for q in box(lo, hi) if q[0] != (0, 0, 1)] + [top]
    if rng.random() < 0.4 or k >= 100:      # meets the flat top in a shallow ridge
        p.append(((0, 0, 1), rng.choice([8, 12, 16])))
    perm = rng.choice([(0, 1, 2), (2, 0, 1), (1, 2, 0)])
    return [(tuple(n[perm[i]] for i in range(3)), d) for n, d in p]

def shaved(rng, gs):
    """A box of a few dozen units with corners and edges shaved by fractions
    of a unit, or faces that barely miss it; in grid units."""
    while True:
        lo = [rng.randint(-48, 20)*gs for _ in range(3)]
        hi = [l+rng.randint(2, 40)*gs for l in lo]
        p = box(lo, hi)
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([(1, 1, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (2, 1, 1), (1, 2, 2), (1, 1, 3)])
            n = tuple(rng.choice([-1, 1])*x for x in n)
            top = sum(x*(h if x > 0 else l) for x, l, h in zip(n, lo, hi))
            j = rng.choice([1, 2, 3, 4, 6, 9, 16])
            if not any(q[0] == n for q in p):
                p.append((n, top + (j if rng.random() < 0.4 else -j)))
        c, ok = analyse(p, gs)
        if ok and is_solid(p, c):
            rng.shuffle(p)
            return p

def translate(planes, t):
    return [(n, d + dot(n, t)) for n, d in planes]

def redundant(rng, planes):
    """Adds a face that only touches or misses the solid."""
    corners, _ = analyse(planes)
    n = normal(rng, 2)
    if any(n == q[0] for q in planes):
        return planes
    top = max(dot(n, x[:3])/x[3] for x in corners)
    d = int(top) if (float(int(top)) == top and rng.random() < 0.6) else int(top) + rng.choice([1, 5, 30])
    return planes + [(n, d)]

FAMILIES = {
    "box": lambda r: rand_box(r),
    "cut1": lambda r: cut_box(r, 1),
    "cut2": lambda r: cut_box(r, 2),
    "cut3": lambda r: cut_box(r, 3),
    "cut4": lambda r: cut_box(r, 4, 2),
    "poly6": lambda r: polytope(r, 7),
    "poly9": lambda r: polytope(r, 10, 2),
    "hull5": lambda r: hull_shape(r, 5),
    "hull6": lambda r: hull_shape(r, 6, 4),
    "hull8": lambda r: hull_shape(r, 8, 3, 16),
    "pyramid": pyramid, "prism": prism, "octa": octahedron, "cubocta": cuboctahedron,
    "needle": needle, "wedge": wedge,
}

def shape(rng, families=None, touching=True, gs=1):
    """A solid, well-conditioned shape: list of (normal, distance)."""
    names = families or list(FAMILIES)
    while True:
        name = rng.choice(names)
        p = FAMILIES[name](rng)
        if touching and rng.random() < 0.25:
            p = redundant(rng, p)
        if len(p) > 14:
            continue
        c, ok = analyse(p, gs)
        if ok and is_solid(p, c):
            p = list(p)
            rng.shuffle(p)
            return p, name

def centroid(planes):
    c, _ = analyse(planes)
    m = [sum(x[i]/x[3] for x in c)/len(c) for i in range(3)]
    return tuple(round(v) for v in m)
