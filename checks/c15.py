"""C15 uddsketch / percentile_agg: behaviours of Udd.tla replayed as queries."""
import math
from core import feq
from pg import copy_in

ALPHAS = [0.1, 0.001, 0.01, 0.3, 0.005, 0.05]
QS = [j / 8 for j in range(9)]


def values(rows, alpha, rng, big):
    """concrete rows (group, text of the value) of the abstract ones; every value lies well inside its bucket"""
    gamma = (1 + alpha) / (1 - alpha)
    out = []
    for g, s, lo, hi in rows:
        if s == 0: out.append((g, rng.choice(["0", "-0"]), 0, 0)); continue
        if lo > hi: out.append((g, None, None, None)); continue
        for i in range(lo, hi + 1):
            v = 1.0 if i == 0 and rng.random() < 0.3 else gamma ** (i - 1 + rng.uniform(0.03, 0.97))
            out.append((g, repr(s * v), s, i))
    return out


def c15(ctx):
    inv = ("Refines", "EmitCase")
    futs = [ctx.spec("Udd", {"Keys": "0..3", "MaxRun": 1, "Groups": "1..2", "Sizes": "{5, 6, 20}", "MaxRows": 3, "EmitAll": "FALSE"}, invariants=inv, workers=3),
            ctx.spec("Udd", {"Keys": "-6..12", "MaxRun": 3, "Groups": "1..3", "Sizes": "{5, 7, 8, 13, 20}", "MaxRows": 10, "EmitAll": "FALSE"}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(500, 6000), depth=12, workers=1),
            ctx.spec("Udd", {"Keys": "-60..60", "MaxRun": 12, "Groups": "1..4", "Sizes": "{5, 6, 9, 20, 50, 201}", "MaxRows": 14, "EmitAll": "FALSE"}, invariants=("EmitCase",), spec="SpecRandom", simulate=ctx.pick(600, 6000), depth=18, workers=2),
            ctx.spec("Udd", {"Keys": "-300..500", "MaxRun": 80, "Groups": "1..4", "Sizes": "{200, 210, 1001}", "MaxRows": 12, "EmitAll": "FALSE"}, invariants=("EmitCase",), spec="SpecRandom", simulate=ctx.pick(60, 800), depth=16, workers=2)]
    ctx.start()
    cases = []
    for f in futs: cases += ctx.take(f)
    if not ctx.thorough() and len(cases) > 3000: cases = ctx.rng.sample(cases, 3000)
    rows, ms, al, conc, probes = [], [], {}, {}, []
    for i, c in enumerate(cases):
        al[i] = 0.001 if c["size"] == 200 else ALPHAS[(i + ctx.seed) % len(ALPHAS)]
        conc[i] = values(c["rows"], al[i], ctx.rng, False)
        order = list(range(len(conc[i])))
        ctx.rng.shuffle(order)
        ms.append((i, c["size"], repr(al[i])))
        for s, (g, v, _, _) in zip(order, conc[i]): rows.append((i, s, g, v))
    ctx.server.sql("CREATE UNLOGGED TABLE r(id int, seq int, g int, v float8);\nCREATE UNLOGGED TABLE m(id int primary key, size int, alpha float8);\nCREATE UNLOGGED TABLE pr(id int, k int, v float8);\n"
                   + copy_in("r", rows) + copy_in("m", ms))
    # probes for the rank: the middle of every occupied bucket (at most 9 of them), below and above everything
    for i, c in enumerate(cases):
        cs = c["counts"]
        pick = sorted(ctx.rng.sample(range(len(cs)), min(6, len(cs))))
        conc_gamma = fgamma(al[i], c["level"])[1]
        for k in pick:
            s, b, _ = cs[k]
            v = 0.0 if s == 0 else s * conc_gamma ** (b - 0.5) if abs((b - 0.5) * math.log(conc_gamma)) < 600 else None
            if v is not None: probes.append((i, k, repr(v)))
        probes += [(i, 900, "-1e307"), (i, 901, "1e307")]
    ctx.server.sql(copy_in("pr", probes) + "CREATE INDEX ON r(id); CREATE INDEX ON pr(id); ANALYZE r; ANALYZE m; ANALYZE pr;")
    ctx.partial("rp", "SELECT r.*, size, alpha FROM r JOIN m USING (id) ORDER BY seq")
    U = "uddsketch(size, alpha, v"
    src = "FROM r JOIN m USING (id) WHERE {w}"
    routes = {"uddsketch": f"SELECT id, {U} ORDER BY seq) AS s {src} GROUP BY id", "uddsketch, ascending": f"SELECT id, {U} ORDER BY v) AS s {src} GROUP BY id",
              "uddsketch, descending": f"SELECT id, {U} ORDER BY v DESC) AS s {src} GROUP BY id",
              "rollup": f"SELECT id, rollup(s ORDER BY g) AS s FROM (SELECT id, g, {U}) AS s {src} GROUP BY id, g) q GROUP BY id",
              "rollup, descending": f"SELECT id, rollup(s ORDER BY g DESC) AS s FROM (SELECT id, g, {U}) AS s {src} GROUP BY id, g) q GROUP BY id",
              "nested rollup": f"SELECT id, rollup(s ORDER BY c) AS s FROM (SELECT id, g % 2 AS c, rollup(s) AS s FROM (SELECT id, g, seq % 3, {U}) AS s {src} GROUP BY id, g, seq % 3) q GROUP BY id, g % 2) q2 GROUP BY id",
              "percentile_agg": f"SELECT id, percentile_agg(v ORDER BY seq) AS s {src} AND size = 200 AND alpha = 0.001 GROUP BY id", "partial states": f"SELECT id, {U}) AS s FROM rp WHERE {{w}} GROUP BY id"}
    ctx.note_plan(routes["partial states"].replace("{w}", "true"))
    arr = "ARRAY[" + ",".join(map(str, QS)) + "]"
    cols = ["n", "mean", "error", "total", "q", "qa", "ranks"]
    for name, inner in routes.items():
        ids = [i for i, c in enumerate(cases) if name != "percentile_agg" or c["size"] == 200]
        arrow = "rollup" in name
        f = (lambda a, arg="": f"(s -> {a}({arg}))") if arrow else (lambda a, arg="": f"{a}({arg + ', ' if arg else ''}s)")
        got = ctx.bulk("", lambda w: f"SELECT q.id, {f('num_vals')}, {f('mean')}, {f('error')}, total(s), array_to_string(ARRAY[{', '.join(f('approx_percentile', str(x)) for x in QS)}], ',', 'NULL'), "
                       f"array_to_string({f('approx_percentile_array', arr) if not arrow else f's -> approx_percentiles({arr})'}, ',', 'NULL'), "
                       f"(SELECT string_agg(pr.k || ':' || coalesce({f('approx_percentile_rank', 'pr.v')}::text, 'NULL'), ',' ORDER BY k) FROM pr WHERE pr.id = q.id) FROM ({inner.replace('{w}', w)}) q", ids, cols, pre=ctx.PARTIAL)
        for i in ids:
            c = cases[i]
            ctx.traces += 1; ctx.evals += 22 + len(c["counts"])
            if c["level"] > 0: ctx.nontrivial += 1
            bad = judge(c, al[i], conc[i], dict(zip(cols, got[i])) if i in got else None)
            if bad:
                ctx.violation(f"udd/{name}/{bad[0]}", f"{name} of size {c['size']} and error {al[i]} over (group, sign, first bucket, last bucket) rows {c['rows']}: {bad[0]} is {bad[2]}, the specification says {bad[1]} after {c['level']} compactions",
                              {"case": c, "alpha": al[i], "values": conc[i], "sql": inner})
    two = lambda a, b: f"SELECT num_vals(rollup(s)) FROM (VALUES ((SELECT uddsketch({a}, 1.0 * x) FROM generate_series(1, 9) x)), ((SELECT uddsketch({b}, 2.0 * x) FROM generate_series(1, 5) x))) v(s)"
    for sql, want in [("SELECT (uddsketch(20, 0.1, NULL) IS NULL)::text", "true"), ("SELECT (rollup(NULL::uddsketch) IS NULL)::text", "true"), ("SELECT (percentile_agg(NULL) IS NULL)::text", "true"),
                      ("SELECT num_vals(uddsketch(0, 0.1, 1))", "ERR"), ("SELECT num_vals(uddsketch(20, 0, 1))", "ERR"), ("SELECT num_vals(uddsketch(20, 1, 1))", "ERR"), ("SELECT num_vals(uddsketch(20, -0.1, 1))", "ERR"), ("SELECT num_vals(uddsketch(20, 'nan', 1))", "ERR"),
                      ("SELECT approx_percentile(1.01, percentile_agg(1))", "ERR"), ("SELECT approx_percentile(-0.01, percentile_agg(1))", "ERR"), ("SELECT approx_percentile('nan', percentile_agg(1))", "ERR"), ("SELECT percentile_agg(1) -> approx_percentile(2)", "ERR"),
                      (two("20, 0.1", "20, 0.2"), "ERR"), (two("20, 0.1", "30, 0.1"), "ERR"), (two("200, 0.001", "100, 0.001"), "ERR"), (two("200, 0.01", "200, 0.011"), "ERR"), (two("200, 0.01", "200, 0.01"), "14")]:
        r = ctx.server.sql("SELECT vtry($q$" + sql + "$q$);").strip()
        ctx.evals += 1
        if not (r.startswith("ERR:") if want == "ERR" else r == want): ctx.violation("udd/const/" + sql, f"{sql} gives {r!r}, expected {want!r}", {"sql": sql})
    ctx.samples += [cases[len(cases) // 3], cases[-1]]


def fgamma(alpha, level):
    g = (1 + alpha) / (1 - alpha)
    a = alpha
    for _ in range(level): a, g = 2 * a / (1 + a * a), g * g if g < 1e150 else math.inf
    return a, g


def judge(c, alpha, conc, g):
    vals = sorted(float(v) for _, v, s, _ in conc if v is not None)
    n = len(vals)
    if g is None: return ("row", "a row", None)
    if n == 0: return None if g["n"] is None and g["q"] is None or g["q"] == "" else ("aggregate", "NULL", g["n"]) if g["n"] is not None else None
    a, gam = fgamma(alpha, c["level"])
    if not feq(g["n"], n): return ("num_vals", n, g["n"])
    if not feq(g["error"], a, 1e-9): return ("error", a, g["error"])
    s, sc = math.fsum(vals), max(map(abs, vals))
    if not feq(g["total"], s, 1e-9, 1e-11 * sc * n): return ("total", s, g["total"])
    if not feq(g["mean"], s / n, 1e-9, 1e-11 * sc): return ("mean", s / n, g["mean"])
    exact = [(sg, b) for sg, b, k in c["counts"] for _ in range(k)]
    if len(exact) != n: return ("harness", n, len(exact))

    def value(b): return 0.0 if b[0] == 0 else b[0] * math.exp(min(709, (b[1] - 1) * math.log(gam))) * (1 + a)
    precise = 1 - a > 1e-9      # after very many compactions gamma cannot be told from the error any more
    for col in ("q", "qa"):
        if g[col] is None: return (col, "an answer", None)
        got = g[col].split(",")
        if len(got) != 9: return (col, "9 quantiles", g[col])
        prev = -math.inf
        for j, x in enumerate(got):
            try: x = float(x)
            except ValueError: return (f"approx_percentile({QS[j]})", "a number", x)
            true = vals[c["q"][j] - 1]
            if not abs(x - true) <= a * abs(true) * (1 + 1e-9): return (f"approx_percentile({QS[j]})", f"{true} give or take {a:.4g} of it", x)
            if precise and not math.isclose(x, value(exact[c["q"][j] - 1]), rel_tol=1e-6): return (f"approx_percentile({QS[j]})", value(exact[c["q"][j] - 1]), x)
            if x < prev: return (f"approx_percentile({QS[j]})", f"no less than {prev}", x)
            prev = x
    ranks = dict(p.split(":") for p in g["ranks"].split(",")) if g["ranks"] else {}
    below, top = 0, 0.0
    for k, (sg, b, cnt) in enumerate(c["counts"]):
        if str(k) in ranks:
            if not precise: pass
            elif not feq(ranks[str(k)], (below + cnt / 2) / n, 1e-9): return (f"approx_percentile_rank(in bucket {sg}*gamma^{b})", (below + cnt / 2) / n, ranks[str(k)])
        below += cnt
    if precise and not feq(ranks["900"], 0): return ("approx_percentile_rank(-1e307)", 0, ranks["900"])
    if precise and not feq(ranks["901"], 1): return ("approx_percentile_rank(1e307)", 1, ranks["901"])
    return None
