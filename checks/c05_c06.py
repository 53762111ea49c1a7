"""C05 counter_agg, C06 gauge_agg: behaviours of Counter.tla replayed as counter_agg/gauge_agg queries."""
import math
from fractions import Fraction
from core import feq, frac
from series import CONCS, pick_conc, PG2000, US
from pg import copy_in

# accessor -> (power of value, power of seconds)
DIM = {"delta": (1, 0), "rate": (1, -1), "time_delta": (0, 1), "idelta_left": (1, 0), "idelta_right": (1, 0),
       "irate_left": (1, -1), "irate_right": (1, -1)}


def counter_like(ctx, gauge):
    name = "gauge_agg" if gauge else "counter_agg"
    zero = "gauge_zero_time" if gauge else "counter_zero_time"
    inv = ("BufOK", "Refines", "CombineOK", "Monotone", "EmitCase")
    base = {"Gauge": "TRUE" if gauge else "FALSE"}
    vmin = -1 if gauge else 0
    futs = [
        ctx.spec("Counter", {**base, "T": 3, "V": vmin + 2, "Vmin": vmin, "MaxRows": ctx.pick(4, 5), "WithNull": "TRUE", "EmitAll": "TRUE"}, invariants=inv, heap="6g"),
        ctx.spec("Counter", {**base, "T": 14, "V": 7, "Vmin": -3 if gauge else 0, "MaxRows": 8, "WithNull": "FALSE", "EmitAll": "FALSE"},
                 spec="SpecRandom", simulate=ctx.pick(1500, 20000), depth=12, invariants=inv, workers=1),
        ctx.spec("Counter", {**base, "T": 60, "V": 5, "Vmin": -2 if gauge else 0, "MaxRows": 70, "WithNull": "FALSE", "EmitAll": "FALSE"},
                 spec="SpecRandom", simulate=ctx.pick(80, 1500), depth=80, invariants=("EmitCase",), workers=1),
    ]
    if not gauge:   # negative counters follow the same reset rule
        futs.append(ctx.spec("Counter", {**base, "T": 9, "V": 2, "Vmin": -3, "MaxRows": 6, "WithNull": "FALSE", "EmitAll": "FALSE"},
                             spec="SpecRandom", simulate=ctx.pick(300, 3000), depth=12, invariants=inv, workers=1))
    ctx.start()
    cases = []
    for f in futs: cases += ctx.take(f)
    if not ctx.thorough():       # keep every fourth of the exhaustive set (by seed), all of the rest
        cases = [c for i, c in enumerate(cases) if len(c["rows"]) != 4 or (i + ctx.seed) % 3 == 0]
    rows, conc = [], []
    for i, c in enumerate(cases):
        k = pick_conc(i, ctx.seed)
        conc.append(k)
        # parts that do not overlap in time, for the roll-up
        top = max([t for t, _ in c["rows"]] + [1])
        cuts = sorted(ctx.rng.sample(range(1, top + 1), ctx.rng.randint(0, min(3, top))))
        for s, (t, v) in enumerate(c["rows"]): rows.append((i, s, sum(t >= x for x in cuts), k.ts(t), k.v(v)))
    ctx.server.sql("CREATE UNLOGGED TABLE r(id int, seq int, g int, ts timestamptz, v float8);\n" + copy_in("r", rows) + "ANALYZE r;")
    ctx.partial("rp", "SELECT * FROM r ORDER BY seq")
    acc = list(DIM) + ["num_elements", "num_changes"] + ([] if gauge else ["num_resets", "first_val", "last_val"]) + ["slope", "intercept", "corr"]
    tacc = [zero] + ([] if gauge else ["first_time", "last_time"])
    cols = acc + tacc
    fsel = ", ".join([f"{a}(s)::text" for a in acc] + [f"us({a}(s))" for a in tacc])
    asel = ", ".join([f"(s -> {a}())::text" for a in acc] + [f"us(s -> {a.replace('gauge_zero', 'counter_zero')}())" for a in tacc])
    # NULL bounds must make no difference; alternate between the forms of the aggregate and of the accessors
    forms = [("f", fsel, f"{name}(ts, v ORDER BY seq)"), ("a", asel, f"{name}(ts, v, NULL::tstzrange ORDER BY seq)"),
             ("rollup", fsel, "rollup(s ORDER BY seq)"), ("partial states", fsel, f"{name}(ts, v)")]
    ctx.note_plan(f"SELECT id, {forms[-1][2]} FROM rp GROUP BY id")
    for form, sel, agg in forms:
        src = "rp" if form == "partial states" else "r" if form != "rollup" else f"(SELECT id, g, min(seq) AS seq, {name}(ts, v ORDER BY seq) AS s FROM r GROUP BY id, g) r"
        q = lambda where: f"SELECT id, {sel} FROM (SELECT id, {agg} AS s FROM {src} WHERE {where} GROUP BY id) q"
        got = ctx.bulk("", q, range(len(cases)), cols, pre=ctx.PARTIAL)
        for i, c in enumerate(cases):
            if not c["rows"]: continue
            k = conc[i]
            ctx.traces += 1
            g = got.get(i)
            e = c["exp"]
            if len(c["rows"]) >= 2 and e and e[0]["num_elements"] >= 2: ctx.nontrivial += 1
            bad = check(c, k, e[0] if e else None, dict(zip(cols, g)) if g else None, gauge, zero)
            ctx.evals += len(cols)
            if bad:
                a, w, gg = bad
                ctx.violation(f"{name}/{a}", f"{name} over {[(k.ts(t), k.v(v)) for t, v in c['rows']]} ({form}): {a} is {gg}, the specification says {w}",
                              {"case": c, "conc": k.name, "sql": [sel, agg]})
    ctx.samples += [cases[len(cases) // 3], cases[-1]]


def check(c, k, e, g, gauge, zero):
    if e is None:
        if g is None: return ("row", "a NULL row", None)
        for a, v in g.items():
            if v is not None: return (a, None, v)
        return None
    if g is None: return ("row", "an answer", None)
    a_, s_ = Fraction(k.scale), k.sec
    def cmp(a, want, rel=1e-9, absol=0.0):
        return None if feq(g[a], want, rel, absol) else (a, want if want is None else float(want), g[a])
    for a, (pv, ps) in DIM.items():
        w = frac(e[a])
        if w is not None: w = w * a_ ** pv * s_ ** ps
        b = cmp(a, w, 1e-9, 1e-12)
        if b: return b
    for a in ("num_elements", "num_changes") + (() if gauge else ("num_resets",)):
        if g[a] != str(e[a]): return (a, e[a], g[a])
    if not gauge:
        for a, p, j in (("first_val", "first", 1), ("last_val", "last", 1)):
            b = cmp(a, Fraction(e[p][j]) * a_, 0)
            if b: return b
        for a, p in (("first_time", "first"), ("last_time", "last")):
            if g[a] != str(k.t(e[p][0])): return (a, k.t(e[p][0]), g[a])
    r = e["regr"]
    slope, icpt, z, corr = frac(r["slope"]), frac(r["intercept"]), frac(r["zero"]), r["corr"]
    # the implementation measures time in seconds since 2000-01-01
    x0 = Fraction(k.base - PG2000, US)
    # rounding of seconds near x0 relative to the unit: far bases with tiny units lose digits, as the code documents
    loss = float(abs(x0) / s_) * 1e-15
    rel = max(1e-9, loss * 1e2)
    vs = float(a_) * (1 + abs(float(frac(e["delta"]) or 0)) + abs(e["last"][1]))
    if slope is None:
        for a in ("slope", "intercept", "corr", zero):
            if g[a] is not None: return (a, None, g[a])
        return None
    b = cmp("slope", slope * a_ / s_, rel, rel * vs / float(s_))
    if b: return b
    b = cmp("intercept", icpt * a_ - slope * a_ / s_ * x0, rel, rel * vs * (1 + float(abs(x0) / s_)))
    if b: return b
    cxy, cxx, cyy = corr
    if cyy == 0:
        if g["corr"] is not None: return ("corr", None, g["corr"])
        if g[zero] is not None: return (zero, None, g[zero])
    else:
        b = cmp("corr", cxy / math.sqrt(cxx * cyy), rel * 10, rel * 10)
        if b: return b
        if z is not None:
            if g[zero] is None: return (zero, float(z), None)
            want = k.base + k.unit * z
            tol = 2 + float(k.unit) * (1 + abs(float(z))) * rel * 10 + abs(float(x0)) * 1e6 * 1e-12
            if abs(float(Fraction(g[zero]) - want)) > tol: return (zero, float(want), g[zero])
    return None


def c05(ctx): counter_like(ctx, False)
def c06(ctx): counter_like(ctx, True)
