"""C17 stats_agg: behaviours of Stats.tla replayed as queries."""
import math
from fractions import Fraction as F
from core import frac, feq
from pg import copy_in

# abstract v -> a*v + b for x and for y (exactly representable)
CONCS = [(F(1), F(0), F(1), F(0)), (F(1, 4), F(3), F(1024), F(-7)), (F(1), F(1000), F(1, 8), F(100)), (F(2) ** 40, F(0), F(1, 2 ** 40), F(0)), (F(-3), F(11), F(1, 2), F(-250))]
ONE = ["num_vals", "sum", "average", "stddev", "stddev:population", "stddev:sample", "variance", "variance:pop", "variance:samp", "skewness", "skewness:population", "kurtosis", "kurtosis:population"]
TWO = ["num_vals"] + [f"{a.split(':')[0]}_{d}" + (":" + a.split(":")[1] if ":" in a else "") for d in "xy" for a in ONE[1:]] + \
      ["slope", "intercept", "x_intercept", "corr", "determination_coeff", "covariance", "covariance:population", "covariance:sample"]


def call(x, a, arrow):
    n, _, m = a.partition(":")
    if arrow: return f"({x} -> {n}({repr(m) if m else ''}))"
    return f"{n}({x}{', ' + repr(m) if m else ''})"


def c17(ctx):
    inv = ("Refines", "CombineOK", "RemoveOK", "EmitCase")
    base = {"EmitAll": "TRUE", "Multisets": "TRUE"}
    futs = [ctx.spec("Stats", {**base, "Values": "{-1, 0, 2}", "Groups": "1..2", "MaxRows": 2, "WithNull": "TRUE"}, invariants=inv, workers=2),
            ctx.spec("Stats", {**base, "Values": ctx.pick("{-1, 2}", "{-1, 0, 2}"), "Groups": "1..2", "MaxRows": 4, "WithNull": "FALSE"}, invariants=inv, workers=3),
            ctx.spec("Stats", {"EmitAll": "FALSE", "Multisets": "FALSE", "Values": "-4..4", "Groups": "1..3", "MaxRows": 6, "WithNull": "FALSE"}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(500, 12000), depth=8, workers=1),
            ctx.spec("Stats", {"EmitAll": "FALSE", "Multisets": "FALSE", "Values": "-5..5", "Groups": "1..4", "MaxRows": 20, "WithNull": "FALSE"}, invariants=("EmitCase",), spec="SpecRandom", simulate=ctx.pick(800, 10000), depth=24, workers=1)]
    ctx.start()
    cases = []
    for f in futs: cases += ctx.take(f)
    conc = lambda i: CONCS[(i + ctx.seed) % len(CONCS)]
    rows = []
    for i, c in enumerate(cases):
        ax, bx, ay, by = conc(i)
        order = list(range(len(c["rows"])))
        ctx.rng.shuffle(order)
        for s, (g, x, y) in zip(order, c["rows"]):
            fx = None if x == -99 else ax * x + bx
            rows.append((i, s, g, None if fx is None else repr(float(fx)), None if y == -99 else repr(float(ay * y + by)), None if fx is None else int(round(fx * 4))))
    ctx.server.sql("CREATE UNLOGGED TABLE r(id int, seq int, g int, x float8, y float8, ix int8);\n" + copy_in("r", rows) + "CREATE INDEX ON r(id); ANALYZE r;")
    ctx.partial("rp", "SELECT * FROM r ORDER BY seq")
    src = "FROM r WHERE {w} GROUP BY id"
    sub = lambda a, k=1: f"(SELECT id, g, {a} AS s FROM r WHERE {{w}} GROUP BY id, g)"
    R1 = "SELECT id, rollup(s ORDER BY g) AS s FROM %s q GROUP BY id"
    nest = lambda a: f"SELECT id, rollup(s) AS s FROM (SELECT id, rollup(s) AS s FROM {sub(a)} q GROUP BY id, g % 2) q2 GROUP BY id"
    routes = [("stats_agg(x)", 1, "f", "SELECT id, stats_agg(x ORDER BY seq) AS s " + src, False), ("stats_agg(x) ->", 1, "f", "SELECT id, stats_agg(x ORDER BY seq) AS s " + src, True),
              ("stats_agg_no_inv(x)", 1, "f", "SELECT id, stats_agg_no_inv(x) AS s " + src, False), ("stats_agg(bigint)", 1, "i", "SELECT id, stats_agg(ix) AS s " + src, False),
              ("stats_agg_tf(x)", 1, "f", "SELECT id, toolkit_experimental.stats_agg_tf(x) AS s " + src, False),
              ("rollup 1D", 1, "f", R1 % sub("stats_agg(x)"), False), ("rolling 1D", 1, "f", (R1 % sub("stats_agg(x)")).replace("rollup", "rolling"), False), ("nested rollup 1D", 1, "f", nest("stats_agg(x)"), True),
              ("stats_agg(y,x)", 2, "f", "SELECT id, stats_agg(y, x ORDER BY seq) AS s " + src, False), ("stats_agg(y,x) ->", 2, "f", "SELECT id, stats_agg(y, x ORDER BY seq) AS s " + src, True),
              ("stats_agg_no_inv(y,x)", 2, "f", "SELECT id, stats_agg_no_inv(y, x) AS s " + src, False), ("stats_agg_tf(y,x)", 2, "f", "SELECT id, toolkit_experimental.stats_agg_tf(y, x) AS s " + src, False),
              ("rollup 2D", 2, "f", R1 % sub("stats_agg(y, x)"), False), ("rolling 2D", 2, "f", (R1 % sub("stats_agg(y, x)")).replace("rollup", "rolling"), False), ("nested rollup 2D", 2, "f", nest("stats_agg(y, x)"), True),
              ("partial states 1D", 1, "f", "SELECT id, stats_agg(x) AS s FROM rp WHERE {w} GROUP BY id", False), ("partial states 2D", 2, "f", "SELECT id, stats_agg(y, x) AS s FROM rp WHERE {w} GROUP BY id", True)]
    ctx.note_plan(routes[-1][3].replace("{w}", "true"))
    for name, dim, ty, inner, arrow in routes:
        cols = ONE if dim == 1 else TWO
        ids = range(len(cases)) if ctx.thorough() or name.startswith("stats_agg(") and not arrow else range(len(name) % 2, len(cases), 2)
        got = ctx.bulk("", lambda w: f"SELECT id, {', '.join(call('s', a, arrow) for a in cols)} FROM ({inner.replace('{w}', w)}) q", ids, cols, pre=ctx.PARTIAL)
        for i in ids:
            c = cases[i]
            ctx.traces += 1; ctx.evals += len(cols)
            if len(c["rows"]) > 1: ctx.nontrivial += 1
            bad = judge(c, conc(i), dim, ty, dict(zip(cols, got[i])) if i in got else None)
            if bad:
                ctx.violation(f"stats/{name}/{bad[0]}", f"{name} over (group, x, y) rows {c['rows']} with x = {conc(i)[0]}*x+{conc(i)[1]}, y = {conc(i)[2]}*y+{conc(i)[3]}: {bad[0]} is {bad[2]}, the specification says {bad[1]}",
                              {"case": c, "conc": list(map(str, conc(i))), "sql": inner})
    V = lambda *v: "FROM (VALUES " + ", ".join(f"({x})" if not isinstance(x, tuple) else "(" + ", ".join(x) + ")" for x in v) + ")"
    inf, nan = "'inf'::float8", "'nan'::float8"
    for sql, want in [(f"SELECT sum(stats_agg(x)) {V(inf, '1')} v(x)", ["Infinity"]), (f"SELECT average(stats_agg(x)) {V('1', inf)} v(x)", ["Infinity"]), (f"SELECT variance(stats_agg(x)) {V('1', inf, '3')} v(x)", ["NaN", ""]),
                      (f"SELECT stddev(stats_agg(x)) {V(inf, '3')} v(x)", ["NaN", ""]), (f"SELECT sum(stats_agg(x)) {V(nan, '3')} v(x)", ["NaN"]), (f"SELECT sum(stats_agg(x)) {V(inf, '-' + inf[1:-9] if False else chr(39) + '-inf' + chr(39) + '::float8')} v(x)", ["NaN"]),
                      (f"SELECT skewness(stats_agg(x)) {V('1', nan)} v(x)", ["NaN", ""]), (f"SELECT kurtosis(stats_agg(x)) {V(inf, '1', '2')} v(x)", ["NaN", ""]),
                      (f"SELECT slope(stats_agg(y, x)) {V(('1', inf), ('2', '3'), ('5', '6'))} v(y, x)", ["NaN", ""]), (f"SELECT corr(stats_agg(y, x)) {V((nan, '1'), ('2', '3'), ('5', '6'))} v(y, x)", ["NaN", ""]),
                      (f"SELECT sum_y(stats_agg(y, x)) {V((inf, '1'), ('2', '3'))} v(y, x)", ["Infinity"]), (f"SELECT covariance(stats_agg(y, x)) {V((inf, '1'), ('2', '3'))} v(y, x)", ["NaN", ""]),
                      (f"SELECT average_x(stats_agg(y, x)) {V((inf, '1'), ('2', '3'))} v(y, x)", ["2"]),
                      ("SELECT num_vals(stats_agg(x)) FROM (SELECT 1.0::float8 x WHERE false) v", ["", "0"]), ("SELECT average(stats_agg(NULL::float8))", [""]), ("SELECT sum(stats_agg(NULL::bigint))", ["", ]),
                      ("SELECT (rollup(NULL::statssummary1d) IS NULL)::text", ["true"]), ("SELECT num_vals(rollup(NULL::statssummary2d))", ["", "0"]),
                      (f"SELECT variance(stats_agg(x), 'wrong') {V('1', '2')} v(x)", "ERR"), (f"SELECT sum(stats_agg(x)) {V('1e308', '1.7e308')} v(x)", "ERR"), (f"SELECT sum_x(stats_agg(1, x)) {V('1e308', '1.7e308')} v(x)", "ERR")]:
        r = ctx.server.sql("SELECT vtry($q$" + sql + "$q$);").strip()
        ctx.evals += 1
        if not (r.startswith("ERR:") if want == "ERR" else r in want): ctx.violation("stats/const/" + sql, f"{sql} gives {r!r}, expected {want!r}", {"sql": sql})
    ctx.samples += [cases[len(cases) // 3], cases[-1]]


def judge(c, conc, dim, ty, g):
    if g is None: return ("row", "a row", None)
    ax, bx, ay, by = conc
    if ty == "i": ax, bx = ax * 4, bx * 4
    if ty == "i" and (ax.denominator != 1 or bx.denominator != 1): return None

    def scaled(m, a, b):
        n, s, m2, m3, m4 = m[0], *map(frac, m[1:])
        return n, s * a + n * b, m2 * a * a, m3 * a ** 3, m4 * a ** 4
    o, x, y = scaled(c["o"], ax, bx), scaled(c["x"], ax, bx), scaled(c["y"], ay, by)
    rel = 1e-7 if max(abs(bx / ax), abs(by / ay)) > 50 else 1e-9
    UND = "undefined"

    def one(a, m):
        n, s, m2, m3, m4 = m
        acc, _, meth = a.partition(":")
        d = n if meth.startswith("pop") else n - 1
        if acc == "num_vals": return n
        if n == 0: return UND
        if acc == "sum": return s
        if acc == "average": return s / n
        if d == 0: return UND
        var = m2 / d
        if acc == "variance": return var
        if acc == "stddev": return math.sqrt(var)
        if var == 0: return UND
        if acc == "skewness": return float(m3 / d) / math.sqrt(var) ** 3
        return float(m4 / d / (var * var))
    # cancellation: the third moment of a symmetric set is 0 up to rounding of its terms
    for a, got in g.items():
        absol = 0.0
        if dim == 1:
            w, m = one(a, o), o
        elif a.split(":")[0][-2:] in ("_x", "_y"):
            m = x if a.split(":")[0].endswith("_x") else y
            w = one(a.replace("_x", "").replace("_y", ""), m)
        else:
            n = x[0]
            p, l = frac(c["p"]) * ax * ay, c["line"]
            if a == "num_vals": w = n
            elif a.startswith("covariance"):
                d = n if a.endswith("population") else n - 1
                w = UND if n == 0 or d == 0 else p / d
                absol = 1e-9 * float(abs(ax * ay)) * 10
            elif n == 0: w = UND
            elif a == "corr": w = UND if x[2] == 0 or y[2] == 0 else float(p) / math.sqrt(x[2]) / math.sqrt(y[2]); absol = 1e-9
            elif a == "determination_coeff": w = UND if x[2] == 0 else 1 if y[2] == 0 else p * p / x[2] / y[2]; absol = 1e-9
            elif a == "x_intercept":
                if l["vertical"]: w = x[1] / n
                elif l["slope"] == [] or y[2] == 0: w = UND
                elif frac(l["slope"]) == 0:
                    continue                    # rounding decides between an infinite and a far away answer
                else: w = (frac(l["slope"]) * bx / ax * ay - frac(l["intercept"]) * ay - by) / (frac(l["slope"]) * ay / ax); absol = float(abs(ax) + abs(bx)) * 1e-8 * max(1, abs(float(1 / frac(l["slope"])))); rel = 1e-6
            elif l["slope"] == []: w = UND
            elif a == "slope": w = frac(l["slope"]) * ay / ax; absol = 1e-9 * abs(float(ay / ax))
            else: w = frac(l["intercept"]) * ay + by - frac(l["slope"]) * ay / ax * bx; absol = 1e-8 * float(abs(by) + abs(ay) * (1 + abs(bx / ax)))
            m = None
        if m is not None:
            sc = float(max(abs(bx), abs(ax), abs(by) if m is y else 0))
            if a.startswith("skewness"): absol = 1e-8
            if a.startswith("sum") or a.startswith("average"): absol = 1e-9 * float(abs(ay) + abs(by) if m is y else abs(ax) + abs(bx))
            if a.startswith("variance") or a.startswith("stddev"): absol = 0
        if w == UND:
            # the deviation is zero: the rounding of the numerator decides between NaN and an infinity
            if got is not None and got != "NaN" and not (a[:4] in ("skew", "kurt") and "Inf" in got): return (a, "NULL or NaN", got)
        elif not feq(got, w, rel, absol): return (a, f"{w} = {float(w)}", got)
    return None
