"""C16 tdigest: behaviours of Digest.tla replayed as queries."""
import math
from core import feq
from pg import copy_in

QS = [j / 8 for j in range(9)]
# increasing maps from the abstract values (given doubled, as integers)
MAPS = [lambda v: v / 2, lambda v: v * 1000.25 - 3, lambda v: math.sinh(v / 8), lambda v: 0.001 * v + 7.5, lambda v: float(v) ** 3 * 1e6]


def c16(ctx):
    base = {"Groups": "1..2", "EmitAll": "FALSE", "WithNull": "FALSE"}
    inv = ("Refines", "EmitCase")
    futs = [ctx.spec("Digest", {"Values": "0..2", "Copies": "{1}", "Groups": "1..2", "Sizes": "{1, 2, 3, 5, 10}", "MaxRows": ctx.pick(4, 5), "WithNull": "FALSE", "EmitAll": "TRUE"}, invariants=inv, workers=3),
            ctx.spec("Digest", {"Values": "0..5", "Copies": "{1, 2, 3}", "Groups": "1..3", "Sizes": "{2, 4, 10, 20, 100}", "MaxRows": 9, "WithNull": "TRUE", "EmitAll": "FALSE"}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(700, 8000), depth=12, workers=1),
            ctx.spec("Digest", {"Values": "-20..20", "Copies": "1..3", "Groups": "1..4", "Sizes": "{4, 10, 20, 50, 100}", "MaxRows": 25, "WithNull": "TRUE", "EmitAll": "FALSE"}, invariants=("Shapes", "EmitCase"), spec="SpecRandom", simulate=ctx.pick(300, 5000), depth=28, workers=1),
            ctx.spec("Digest", {"Values": "-40..40", "Copies": "{1, 2, 5, 30}", "Groups": "1..5", "Sizes": "{10, 26, 64, 100, 200}", "MaxRows": 60, "WithNull": "TRUE", "EmitAll": "FALSE"}, invariants=("EmitCase",), spec="SpecRandom", simulate=ctx.pick(120, 1500), depth=64, workers=1)]
    ctx.start()
    cases = []
    for f in futs: cases += ctx.take(f)
    if not ctx.thorough() and len(cases) > 2500: cases = ctx.rng.sample(cases, 2500)
    rows, ms, probes = [], [], []
    mp = lambda i: MAPS[(i + ctx.seed) % len(MAPS)]
    for i, c in enumerate(cases):
        ms.append((i, c["size"]))
        s = 0
        for g, v, k in c["rows"]:
            for _ in range(k):
                rows.append((i, s, g, ["NaN", None][s % 2] if v == -99 else repr(mp(i)(2 * v))))
                s += 1
        # the middle probes may not be exact images under the map: only the order matters
        for k, (v, _, _) in enumerate(c["r"]): probes.append((i, k, repr(mp(i)(v))))
    ctx.server.sql("CREATE UNLOGGED TABLE r(id int, seq int, g int, v float8);\nCREATE UNLOGGED TABLE m(id int primary key, size int);\nCREATE UNLOGGED TABLE pr(id int, k int, v float8);\n"
                   + copy_in("r", rows) + copy_in("m", ms) + copy_in("pr", probes) + "CREATE INDEX ON r(id); CREATE INDEX ON pr(id); ANALYZE r; ANALYZE m; ANALYZE pr;")
    ctx.partial("rp", "SELECT r.*, size FROM r JOIN m USING (id) ORDER BY seq")
    T = "tdigest(size, v"
    src = "FROM r JOIN m USING (id) WHERE {w}"
    routes = {"tdigest": f"SELECT id, {T} ORDER BY seq) AS s {src} GROUP BY id", "tdigest, ascending": f"SELECT id, {T} ORDER BY v) AS s {src} GROUP BY id", "tdigest, descending": f"SELECT id, {T} ORDER BY v DESC) AS s {src} GROUP BY id",
              "rollup": f"SELECT id, rollup(s ORDER BY g) AS s FROM (SELECT id, g, {T} ORDER BY seq) AS s {src} GROUP BY id, g) q GROUP BY id",
              "nested rollup": f"SELECT id, rollup(s ORDER BY c) AS s FROM (SELECT id, g % 2 AS c, rollup(s ORDER BY g) AS s FROM (SELECT id, g, {T} ORDER BY v DESC) AS s {src} GROUP BY id, g) q GROUP BY id, g % 2) q2 GROUP BY id",
              "partial states": f"SELECT id, {T}) AS s FROM rp WHERE {{w}} GROUP BY id"}
    ctx.note_plan(routes["partial states"].replace("{w}", "true"))
    cols = ["n", "mean", "total", "min", "max", "q", "ranks"]
    for name, inner in routes.items():
        arrow = name in ("rollup", "tdigest, ascending")
        f = (lambda a, arg="": f"(s -> {a}({arg}))") if arrow else (lambda a, arg="": f"{a}({arg + ', ' if arg else ''}s)")
        got = ctx.bulk("", lambda w: f"SELECT q.id, {f('num_vals')}, {f('mean')}, total(s), {f('min_val')}, {f('max_val')}, array_to_string(ARRAY[{', '.join(f('approx_percentile', str(x)) for x in QS)}], ',', 'NULL'), "
                       f"(SELECT string_agg(coalesce({f('approx_percentile_rank', 'pr.v')}::text, 'NULL'), ',' ORDER BY k) FROM pr WHERE pr.id = q.id) FROM ({inner.replace('{w}', w)}) q", range(len(cases)), cols, pre=ctx.PARTIAL)
        for i, c in enumerate(cases):
            ctx.traces += 1; ctx.evals += 14 + len(c["r"])
            if c["n"] > 1: ctx.nontrivial += 1
            bad = judge(c, mp(i), dict(zip(cols, got[i])) if i in got else None)
            if bad:
                ctx.violation(f"tdigest/{name}/{bad[0]}", f"{name} of size {c['size']} over (group, value, copies) rows {c['rows']} under map {(i + ctx.seed) % len(MAPS)}: {bad[0]} is {bad[2]}, the specification says {bad[1]}",
                              {"case": c, "map": (i + ctx.seed) % len(MAPS), "sql": inner})
    two = lambda a, b: f"SELECT num_vals(rollup(s)) FROM (VALUES ((SELECT tdigest({a}, x) FROM generate_series(1, 9) x)), ((SELECT tdigest({b}, x) FROM generate_series(1, 5) x))) v(s)"
    for sql, want in [("SELECT (tdigest(20, NULL) IS NULL)::text", "true"), ("SELECT (tdigest(20, 'nan') IS NULL)::text", "true"), ("SELECT (rollup(NULL::tdigest) IS NULL)::text", "true"), ("SELECT num_vals(tdigest(-1, 1))", "ERR"),
                      (two(20, 21), "ERR"), (two(100, 10), "ERR"), (two(50, 50), "14"), ("SELECT approx_percentile_rank(5, tdigest(100, 5))", "1"), ("SELECT approx_percentile(0.3, tdigest(100, 5))", "5"),
                      ("SELECT max_val(tdigest(10, x)) FROM unnest('{1,inf}'::float8[]) x", "Infinity"), ("SELECT min_val(tdigest(10, x)) FROM unnest('{1,-inf,3}'::float8[]) x", "-Infinity")]:
        r = ctx.server.sql("SELECT vtry($q$" + sql + "$q$);").strip()
        ctx.evals += 1
        if not (r.startswith("ERR:") if want == "ERR" else r == want): ctx.violation("tdigest/const/" + sql, f"{sql} gives {r!r}, expected {want!r}", {"sql": sql})
    ctx.samples += [cases[len(cases) // 3], cases[-1]]


def judge(c, m, g):
    if g is None: return ("row", "a row", None)
    n = c["n"]
    if n == 0: return None if g["n"] is None else ("aggregate", "NULL", g["n"])
    vals = sorted(m(2 * v) for _, v, k in c["rows"] if v != -99 for _ in range(k))
    sc = max(map(abs, vals))
    tol = 1e-9 * sc
    if not feq(g["n"], n): return ("num_vals", n, g["n"])
    if not feq(g["total"], math.fsum(vals), 1e-9, tol * n): return ("total", math.fsum(vals), g["total"])
    if not feq(g["mean"], math.fsum(vals) / n, 1e-9, tol): return ("mean", math.fsum(vals) / n, g["mean"])
    if not feq(g["min"], vals[0], 0): return ("min_val", vals[0], g["min"])
    if not feq(g["max"], vals[-1], 0): return ("max_val", vals[-1], g["max"])
    try: q, r = [float(x) for x in g["q"].split(",")], [float(x) for x in g["ranks"].split(",")]
    except (ValueError, AttributeError): return ("approx_percentile", "numbers", (g["q"], g["ranks"]))
    for j, x in enumerate(q):
        lo, hi = (m(2 * v) for v in c["q"][j])
        if not lo - tol <= x <= hi + tol: return (f"approx_percentile({QS[j]})", f"between {lo} and {hi}", x)
        if j and x < q[j - 1] - tol: return (f"approx_percentile({QS[j]})", f"no less than {q[j - 1]}", x)
    for k, x in enumerate(r):
        v, lo, hi = c["r"][k]
        if not lo / n - 1e-9 <= x <= hi / n + 1e-9: return (f"approx_percentile_rank({m(v)})", f"between {lo / n} and {hi / n}", x)
        if k and x < r[k - 1] - 1e-9: return (f"approx_percentile_rank({m(v)})", f"no less than {r[k - 1]}", x)
    return None
