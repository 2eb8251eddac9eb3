"""C15: enumerates attributes, constructors, containers and all operations of the Python module against the C++ library."""
import itertools, json, math, mmap, os, struct, sys
bd = sys.argv[1]
arg = dict(zip(sys.argv[2::2], sys.argv[3::2]))
sys.path.insert(0, bd)
import pyami, ami_probe as P  # noqa: E402
B = pyami.AmiBase
thorough = arg["--tier"] == "thorough"
worker, workers, only = int(arg["--worker"]), int(arg["--workers"]), int(arg.get("--only", -1))
cur = open(arg["--cur"], "w+b")
cur.truncate(4096)
cur = mmap.mmap(cur.fileno(), 4096)
idx = cases = 0
cnt, outcomes, samples, viol = {"comparisons": 0}, set(), [], []


class Bad(Exception):
    pass


def eq(a, b, what):
    cnt["comparisons"] += 1
    if repr(a) != repr(b):  # repr of doubles is exact; nan equals nan
        raise Bad(f"{what}: Python module {str(a)[:600]} C++ {str(b)[:600]}")


def visit(desc, body):
    global idx, cases
    i = idx
    idx += 1
    if (i != only) if only >= 0 else (i % workers != worker or len(viol) >= 3):
        return
    cur[0:8] = struct.pack("<q", i)
    cases += 1
    if len(samples) < 2:
        samples.append(desc)
    try:
        body()
    except Bad as e:
        viol.append([i, desc + " :: " + str(e)])
    except Exception as e:  # an operation of the C++ library that the module refuses
        viol.append([i, f"{desc} :: exception {type(e).__name__}: {e}"[:1500]])


VI, VC = pyami.VectorInt, pyami.VectorComplex
tup = lambda v: tuple(v)
ctup = lambda v: tuple((z.real, z.imag) for z in v)


def r_g(g):  # the same tuples as the probe, through the attributes of the module
    return (tup(g.eps_), tup(g.alpha_), int(g.stat_), g.species_, int(g.eff_stat_), g.pp)


def r_p(p):
    return (tup(p.eps_), tup(p.alpha_), p.index_, p.multiplicity_, p.der_, tup(p.which_g_), tup(p.x_alpha_))


def r_gs(v):
    return tuple(r_g(x) for x in v)


def r_ps(v):
    return tuple(r_p(x) for x in v)


def r_term(t):
    return (t.sign, r_ps(t.p_list), r_gs(t.g_list))


def r_terms(v):
    return tuple(r_term(x) for x in v)


def r_R(v):
    return tuple(tuple(r_gs(y) for y in x) for x in v)


def r_P(v):
    return tuple(tuple(r_ps(y) for y in x) for x in v)


def r_S(v):
    return tuple(tuple(tup(z) for z in x) for x in v)


def r_ref(v):
    return tuple(tuple(tuple(z) for z in x) for x in v)


def r_parms(p):
    return (p.N_INT_, p.N_EXT_, p.E_REG_, p.tol_, int(p.TYPE_), int(p.int_type_), int(p.dispersion_))


def r_vars(v):
    return (ctup(v.energy_), ctup(v.frequency_), v.prefactor, v.BETA_, v.gamma_)


# ---- enumerations
ENUM = {}
for cls, name, val in P.enums():
    ENUM.setdefault(cls, []).append(val)

    def f(cls=cls, name=name, val=val):
        e = getattr(getattr(B, cls), name)
        eq(int(e), val, f"{cls}.{name}")
        eq(getattr(B, cls)(val).name, name, f"{cls}({val})")
    visit(f"enumeration {cls}.{name}", f)
E = lambda cls, i: getattr(B, cls)(i)

# ---- attributes: (class, probe, reader, [(attribute, values, plain form)])
gA = lambda n: pyami.g_prod_t([B.g_struct(VI([1, n]), VI([0, n, -1])), B.g_struct(VI([n]), VI([n, 1]))][: n])
pA = lambda n: pyami.pole_array_t([B.pole_struct(VI([1, n]), VI([0, n, -1])), B.pole_struct(VI([n]), VI([n, 1]))][: n])
ident = lambda x: x
ints = [VI([]), VI([3]), VI([1, -2, 0, 7])]
nums = [0.0, -2.5, 1e-300, 1e300, 0.1]
whole = [0, -1, 5, 2147483647]
CL = [
    ("g_struct", P.d_g, r_g, [("eps_", ints, tup), ("alpha_", ints, tup), ("stat_", "stat_type", int), ("species_", whole, int), ("eff_stat_", "stat_type", int), ("pp", whole, int)]),
    ("pole_struct", P.d_p, r_p, [("eps_", ints, tup), ("alpha_", ints, tup), ("index_", whole, int), ("multiplicity_", whole, int), ("der_", whole, int), ("which_g_", ints, tup), ("x_alpha_", ints, tup)]),
    ("ami_parms", P.d_parms, r_parms, [("N_INT_", whole, int), ("N_EXT_", whole, int), ("E_REG_", nums, float), ("tol_", nums, float), ("TYPE_", "graph_type", int), ("int_type_", "int_type", int), ("dispersion_", "disp_type", int)]),
    ("ami_vars", P.d_vars, r_vars, [("energy_", [VC([]), VC([1, 2j]), VC([0.1 - 3j])], ctup), ("frequency_", [VC([]), VC([1, 2j]), VC([0.1 - 3j])], ctup), ("prefactor", nums, float), ("BETA_", nums, float), ("gamma_", nums, float)]),
    ("term", P.d_term, r_term, [("sign", nums, float), ("p_list", [pA(0), pA(1), pA(2)], r_ps), ("g_list", [gA(0), gA(1), gA(2)], r_gs)]),
]
for cname, probe, reader, attrs in CL:
    cls = getattr(B, cname)
    vals = [[E(v, i) for i in ENUM[v]] if isinstance(v, str) else v for _, v, _ in attrs]

    def default(cls=cls, probe=probe, reader=reader, cname=cname):
        eq(reader(cls()), probe(cls()), "default " + cname)
        if cname != "term":
            eq(probe(cls()), P.native_ctor(cname), "default constructor " + cname)
    visit("default " + cname, default)
    # every ordered pair of assignments: the second neither disturbs the first nor any other field
    for (i, j) in itertools.product(range(len(attrs)), repeat=2):
        for x, y in itertools.product(vals[i], vals[j]):
            def pair(cls=cls, probe=probe, reader=reader, attrs=attrs, i=i, j=j, x=x, y=y, cname=cname):
                o = cls()
                want = list(probe(o))
                for k, v in ((i, x), (j, y)):
                    setattr(o, attrs[k][0], v)
                    want[k] = attrs[k][2](v)
                    eq(attrs[k][2](getattr(o, attrs[k][0])), want[k], f"{cname}.{attrs[k][0]} read back")
                    eq(tuple(want), probe(o), f"{cname} after writing {attrs[k][0]}")
                eq(reader(o), probe(o), f"{cname} attributes")
            visit(f"attributes {cname}.{attrs[i][0]}={attrs[i][2](x)}, then .{attrs[j][0]}={attrs[j][2](y)}", pair)
    # containers held by attributes are modified in place
    for a, v, plain in attrs:
        if isinstance(v, str) or not hasattr(v[0], "append"):
            continue

        def inplace(cls=cls, probe=probe, attrs=attrs, a=a, v=v, plain=plain, cname=cname):
            k = [t[0] for t in attrs].index(a)
            for src in v[1:]:
                o = cls()
                setattr(o, a, v[1])
                for x in src:
                    getattr(o, a).append(x)
                eq(plain(list(v[1]) + list(src)), probe(o)[k], f"{cname}.{a}.append")
        visit(f"in place {cname}.{a}", inplace)

# ---- constructors
num2 = [(1, 0.0), (4, 1e-8), (0, -0.5)]
for N, r in num2:
    def f(N=N, r=r):
        eq(P.d_parms(B.ami_parms(N, r)), P.native_ctor("ami_parms", N, r), "ami_parms(N, E_REG)")
        eq(P.d_parms(B.ami_parms(N, 3)), P.native_ctor("ami_parms", N, 3.0), "ami_parms(N, integer E_REG)")
    visit(f"ami_parms({N},{r})", f)
    for t in ENUM["graph_type"]:
        def f(N=N, r=r, t=t):
            eq(P.d_parms(B.ami_parms(N, r, E("graph_type", t))), P.native_ctor("ami_parms", N, r, t), "ami_parms(N, E_REG, type)")
        visit(f"ami_parms({N},{r},{t})", f)
        for i, d in itertools.product(ENUM["int_type"], ENUM["disp_type"]):
            def f(N=N, r=r, t=t, i=i, d=d):
                eq(P.d_parms(B.ami_parms(N, r, E("graph_type", t), E("int_type", i), E("disp_type", d))), P.native_ctor("ami_parms", N, r, t, i, d), "ami_parms(all)")
            visit(f"ami_parms({N},{r},{t},{i},{d})", f)
cl = [[], [1 + 2j], [0.1j, -3.0, 1e300]]
for e, f_ in itertools.product(cl, cl):
    for more in [(), (0.7,), (1000.0,), (0.7, -2.5), (3.0, 1e-3)]:
        def f(e=e, f_=f_, more=more):
            eq(P.d_vars(B.ami_vars(VC(e), VC(f_), *more)), P.native_ctor("ami_vars", e, f_, *more), "ami_vars")
        visit(f"ami_vars({e},{f_},{more})", f)
il = [[], [1], [0, -1, 1], [2, 0, 0, -7]]
for e, a in itertools.product(il, il):
    def f(e=e, a=a):
        eq(P.d_g(B.g_struct(VI(e), VI(a))), P.native_ctor("g_struct", e, a), "g_struct")
        eq(P.d_p(B.pole_struct(VI(e), VI(a))), P.native_ctor("pole_struct", e, a), "pole_struct")
        for s in ENUM["stat_type"]:
            eq(P.d_g(B.g_struct(VI(e), VI(a), E("stat_type", s))), P.native_ctor("g_struct", e, a, s), "g_struct with statistics")
        t = B.term(-1.5, pA(2), gA(1))
        eq(P.d_term(t), (-1.5, r_ps(pA(2)), r_gs(gA(1))), "term")
    visit(f"g_struct, pole_struct({e},{a})", f)

# ---- vectors: every short sequence of operations, against a Python list
mk = {"VectorInt": (VI, [1, -2], int, None), "VectorDouble": (pyami.VectorDouble, [0.5, -1e300], float, None), "VectorComplex": (VC, [1j, 0.25], complex, None),
      "g_prod_t": (pyami.g_prod_t, [B.g_struct(VI([1]), VI([2])), B.g_struct(VI([3]), VI([4, 5]))], r_g, P.d_gs),
      "pole_array_t": (pyami.pole_array_t, [B.pole_struct(VI([1]), VI([2])), B.pole_struct(VI([3]), VI([4, 5]))], r_p, P.d_ps),
      "terms": (pyami.terms, [B.term(1, pA(1), gA(2)), B.term(-2, pA(0), gA(1))], r_term, P.d_terms)}
for vn, (cls, el, plain, probe) in mk.items():
    acts = ["append0", "append1", "pop", "clear", "set0", "insert0", "extend", "del0"]
    for seq in itertools.product(acts, repeat=4 if thorough else 3):
        def f(cls=cls, el=el, plain=plain, probe=probe, seq=seq, vn=vn):
            v, l = cls(), []
            for s in seq:
                for o in (v, l):
                    if s == "append0": o.append(el[0])
                    elif s == "append1": o.append(el[1])
                    elif s == "pop" and len(o): o.pop()
                    elif s == "clear": o.clear()
                    elif s == "set0" and len(o): o[0] = el[1]
                    elif s == "insert0": o.insert(0, el[1])
                    elif s == "extend": o.extend(cls([el[1], el[0]]))
                    elif s == "del0" and len(o): del o[0]
                want = tuple(plain(x) for x in l)
                eq(tuple(plain(x) for x in v), want, f"{vn} {seq}")
                eq(len(v), len(l), f"{vn} length")
                if probe:
                    eq(want, probe(v), f"{vn} {seq}")
        visit(f"{vn} {seq}", f)

# ---- operations
ALPH = {F: list(itertools.product((0, 1, -1), repeat=F)) for F in (1, 2, 3, 4)}
unit = lambda n, i: tuple(1 if k == i else 0 for k in range(n))


def part(n):
    def rec(p, mx):
        if len(p) == n:
            yield p
            return
        for v in range(mx + 1, -1, -1):
            yield from rec(p + (v,), max(mx, v))
    return list(rec((), -1))


def mkd(N, rows, q):
    n = max(q) + 1
    return (N, tuple((unit(n, q[i]), rows[i]) for i in range(len(rows))))


def diagrams():
    for F in (1, 2):
        for b in ALPH[F]:
            yield mkd(0, [b], (0,))
    for b in ALPH[2]:
        yield mkd(1, [b], (0,))
        for c in ALPH[2]:
            for q in part(2):
                yield mkd(1, [b, c], q)
            for d in ALPH[2]:
                for q in part(3) if thorough else ((0, 1, 2), (0, 1, 0)):
                    yield mkd(1, [b, c, d], q)
    for b in ALPH[3]:
        for q in part(3):
            yield mkd(2, [unit(3, 0), unit(3, 1), b], q)
        for c in ALPH[3] if thorough else ALPH[3][::3]:
            yield mkd(2, [unit(3, 0), b, unit(3, 1), c], (0, 1, 2, 1))
    for b in ALPH[4]:
        yield mkd(3, [unit(4, 0), unit(4, 1), unit(4, 2), b], (0, 1, 2, 3))
    yield mkd(4, [(1, 0, 0, 1, -1), (0, 0, 0, 1, 0), (1, 0, 0, 0, 0), (1, 0, 0, 0, 0), (0, 1, 0, 0, 0), (-1, 1, 1, 0, 0), (0, 0, 1, 0, 0)], (0, 1, 2, 2, 3, 4, 5))


def valid(N, lines):  # every summed frequency occurs when its turn comes, no vanishing line (cf. diag.hpp)
    seen = set()

    def rec(k, ls):
        if (k, ls) in seen:
            return True
        seen.add((k, ls))
        for e, a in ls:
            if any(abs(x) > 1 for x in a) or (not any(a) and not any(e)):
                return False
        if k == N:
            return True
        poles = {}
        for i, (e, a) in enumerate(ls):
            if a[k]:
                poles.setdefault((tuple(-a[k] * x for x in e), tuple(0 if j == k else -a[k] * x for j, x in enumerate(a))), []).append(i)
        if not poles:
            return False
        for (pe, pa), who in poles.items():
            if not any(pe) and sum(map(abs, pa)) % 2:
                return False
            rest = tuple((tuple(x + a[k] * y for x, y in zip(e, pe)), tuple(0 if j == k else x + a[k] * pa[j] for j, x in enumerate(a))) for i, (e, a) in enumerate(ls) if i not in who)
            if not rec(k + 1, tuple(sorted(rest))):
                return False
        return True
    return rec(0, tuple(lines))


EN = [0.7320508, -1.2360680, 0.4142136, 1.6457513, -0.3166248, 2.1231056, -0.8284271]
left = {}  # containers and object reused by all cases of this worker


def operate(N, lines, n):
    F, nE = len(lines[0][1]), len(lines[0][0])
    fr = [0] * N + [0.3 + 1.1j] * (F - N)
    pts = [(EN[:nE], fr, 1.7, 1.0, 0.0, 0), ([-x + 0.05j for x in EN[:nE]], fr, 5.0, -2.5, 1e-3, 1), (EN[1:nE + 1], [0] * N + [math.pi / 0.6 * 1j] * (F - N), 0.6, 3.0, 0.0, 8)]
    want = P.native(N, [list(l) for l in lines], [list(p) for p in pts], bool(n % 2))
    g = pyami.g_prod_t()
    for e, a in lines:
        g.append(B.g_struct(VI(e), VI(a)))
    gg = P.d_gs(g)
    p0 = B.ami_parms(N, 0)
    first = "ami" not in left
    for fresh in (True, False):  # new containers, then containers that hold the result of another case
        if fresh:
            ami = B(p0) if n % 2 else B()
            c = [pyami.R_t(), pyami.P_t(), pyami.S_t(), pyami.terms(), pyami.g_prod_t(), pyami.R_ref_t(), pyami.R_ref_t(), pyami.g_prod_t(), pyami.R_ref_t(), pyami.R_ref_t()]
        elif first:
            break
        else:
            ami, c = left["ami"], left["c"]
        R, Po, S, t, u, rr, el, u2, rr2, el2 = c
        how = "new containers" if fresh else "reused containers"
        eq(ami.construct(p0, g, R, Po, S), None, "construct")
        eq(P.d_R(R), want["R"], "R_t, " + how)
        eq(P.d_P(Po), want["P"], "P_t, " + how)
        eq(P.d_S(S), want["S"], "S_t, " + how)
        eq(r_R(R), want["R"], "R_t read in Python")
        eq(r_P(Po), want["P"], "P_t read in Python")
        eq(r_S(S), want["S"], "S_t read in Python")
        ami.construct(N, g, t)
        eq(P.d_terms(t), want["terms"], "terms, " + how)
        eq(r_terms(t), want["terms"], "terms read in Python")
        ami.factorize_Rn(R[N], u, rr, el)
        eq((P.d_gs(u), P.d_ref(rr), P.d_ref(el)), want["spr_fac"], "factorize_Rn, " + how)
        eq((r_gs(u), r_ref(rr), r_ref(el)), want["spr_fac"], "factorize_Rn read in Python")
        ami.factorize_terms(t, u2, rr2, el2)
        eq((P.d_gs(u2), P.d_ref(rr2), P.d_ref(el2)), want["term_fac"], "factorize_terms, " + how)
        for k, (e, f, b, pf, reg, ty) in enumerate(pts):
            v = B.ami_vars(VC(e), VC(f), b, pf)
            if reg == 0 and ty == 0:
                p = p0
            elif k == 1:
                p = B.ami_parms(N, reg, E("graph_type", ty))
            else:
                p = B.ami_parms()
                p.N_INT_, p.E_REG_, p.TYPE_ = N, reg, E("graph_type", ty)
                v = B.ami_vars()
                v.energy_, v.frequency_, v.BETA_, v.prefactor = VC(e), VC(f), b, pf
            b4 = (P.d_parms(p), P.d_vars(v))
            e0 = (pyami.g_prod_t(), pyami.R_ref_t(), pyami.R_ref_t())
            got = (ami.evaluate(p, R, Po, S, v), ami.evaluate(p, R, Po, S, v, u, rr, el), ami.evaluate(p, R, Po, S, v, *e0),
                   ami.evaluate(p, t, v), ami.evaluate(p, t, v, u2, rr2, el2), ami.evaluate(p, t, v, *e0))
            eq(tuple((z.real, z.imag) for z in got), want["values"][k], f"evaluate at point {k}, {how}")
            eq((P.d_parms(p), P.d_vars(v)), b4, "arguments of evaluate unchanged")
            if len(outcomes) < 48:
                outcomes.add("%.3g%+.3gi" % (got[0].real, got[0].imag))
        eq(P.d_gs(g), gg, "integrand unchanged")
        if fresh:
            keep = (ami, c)
    left["ami"], left["c"] = keep
    cnt["states"] = cnt.get("states", 0) + sum(len(x) for x in want["R"])
    cnt["transitions"] = cnt.get("transitions", 0) + sum(len(y) for x in want["P"] for y in x)
    cnt["integrands"] = cnt.get("integrands", 0) + 1


for n, (N, lines) in enumerate(diagrams()):
    if valid(N, lines):
        visit(f"operations N_INT={N} lines[eps;alpha]={lines}", lambda: operate(N, lines, n))
json.dump({"cases": cases, "total": idx, "cnt": cnt, "max": {}, "outcomes": sorted(outcomes), "samples": samples, "viol": viol}, open(arg["--out"], "w"))
cur[0:8] = struct.pack("<q", -2)
sys.exit(1 if viol else 0)
