"""C14 hyperloglog: behaviours of Hll.tla replayed as queries."""
import math
from pg import copy_in

# how the abstract value v is written in each type; the second form is an equal value written differently
TYPES = {"int4": ("n::int4", "n::int4"), "int8": ("(n::int8 << 20) - 77", "(n::int8 << 20) - 77"), "float8": ("n::float8 * 0.5 - 4", "CASE WHEN n = 8 THEN '-0'::float8 ELSE n::float8 * 0.5 - 4 END"),
         "text": ("'valu\u00e9 ' || n", "'valu\u00e9 ' || n"), "numeric": ("n::numeric", "(n || '.000')::numeric"), "timestamptz": ("timestamptz '1999-12-31 00:00:00+00' + n * interval '1 hour'", "timestamptz '1999-12-31 00:00:00+00' + n * interval '1 hour'"),
         "uuid": ("md5(n::text)::uuid", "upper(md5(n::text))::uuid"), "interval": ("n * interval '1 day'", "n * interval '24 hours'"), "text COLLATE ci": ("('val\u00e9 ' || n) COLLATE ci", "upper('val\u00e9 ' || n) COLLATE ci"),
         "text[] COLLATE ci": ("ARRAY['k', 'val ' || n] COLLATE ci", "ARRAY['K', upper('val ' || n)] COLLATE ci"), "text COLLATE \"und-x-icu\"": ("('k' || n) COLLATE \"C\"", "('k' || n) COLLATE \"C\"")}
SIZES = [16, 17, 32, 64, 100, 256, 1000, 1024, 4096, 9000, 32768, 262144]


def c14(ctx):
    inv = ("Refines", "RankOK", "EmitCase")
    big = {"EmitAll": "FALSE", "Buffer": 2, "Room": 4}
    futs = [ctx.spec("Hll", {"Values": "0..5", "MaxSpan": 2, "Groups": "1..2", "MaxRows": ctx.pick(3, 4), "EmitAll": "FALSE", "Buffer": 2, "Room": 3}, invariants=inv, workers=3),
            ctx.spec("Hll", {"Values": "0..15", "MaxSpan": 4, "Groups": "1..3", "MaxRows": 8, **big}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(800, 8000), depth=10, workers=1),
            ctx.spec("Hll", {"Values": "0..59", "MaxSpan": 9, "Groups": "1..5", "MaxRows": 20, **big}, invariants=("EmitCase",), spec="SpecRandom", simulate=ctx.pick(700, 8000), depth=24, workers=1)]
    ctx.start()
    cases = []
    for f in futs: cases += ctx.take(f)
    if not ctx.thorough() and len(cases) > 3600: cases = ctx.rng.sample(cases, 3600)
    types = list(TYPES)
    ctx.server.sql("CREATE COLLATION ci (provider = icu, locale = 'und-u-ks-level2', deterministic = false);\nCREATE UNLOGGED TABLE r(id int, seq int, g int, lo int, hi int, alt bool);\nCREATE UNLOGGED TABLE m(id int primary key, size int, scale int);\n"
                   "CREATE UNLOGGED TABLE filler(ty text, p int, h hyperloglog);")
    rows, ms, ty, scale, size = [], [], {}, {}, {}
    for i, c in enumerate(cases):
        ty[i] = types[(i + ctx.seed) % len(types)]
        size[i] = SIZES[(i // len(types) + ctx.seed) % len(SIZES)]
        # most behaviours are replayed value by value, some with every value standing for many
        scale[i] = [1, 1, 1, 3, 10, 1, 40][i % 7] if i % 101 else ctx.pick(300, 1500)
        ms.append((i, size[i], scale[i]))
        for s, (g, lo, hi) in enumerate(c["rows"]): rows.append((i, s, g, lo, hi, "t" if s % 2 else "f"))
    ctx.server.sql(copy_in("r", rows) + copy_in("m", ms) + "CREATE INDEX ON r(id); ANALYZE r; ANALYZE m;")
    P = lambda n: max(16, 1 << (n - 1).bit_length())
    for k, t in enumerate(types):
        e, e2 = TYPES[t]
        ids = [i for i in range(len(cases)) if ty[i] == t]
        pn = sorted({P(size[i]) for i in ids})
        # a dense sketch over other values: rolled up with it every sketch must show the same registers
        ctx.server.sql("".join(f"INSERT INTO filler SELECT '{k}', {p}, hyperloglog({p}, {e}) FROM generate_series(1000000, 1000000 + {p} / 3 + 40) n;\n" for p in pn if p <= 4096))
        val = f"CASE WHEN hi < lo THEN NULL WHEN alt THEN {e2} ELSE {e} END"
        vals = f"(SELECT id, g, size, seq, {val} AS v FROM r JOIN m USING (id), LATERAL generate_series(lo * scale, CASE WHEN hi < lo THEN lo * scale ELSE hi * scale + scale - 1 END) n WHERE {{w}}) x"
        pow2 = "(SELECT min(1 << k) FROM generate_series(4, 18) k WHERE (1 << k) >= size)::int"
        routes = {"direct": f"SELECT id, hyperloglog(size, v ORDER BY seq) AS h FROM {vals} GROUP BY id",
                  "any order": f"SELECT id, hyperloglog(size, v ORDER BY md5(v::text || id)) AS h FROM {vals} GROUP BY id",
                  "distinct": f"SELECT id, hyperloglog({pow2}, v) AS h FROM (SELECT DISTINCT id, size, v FROM {vals}) d GROUP BY id",
                  "rollup": f"SELECT id, rollup(h ORDER BY g) AS h FROM (SELECT id, g, hyperloglog(size, v) AS h FROM {vals} GROUP BY id, g) q GROUP BY id",
                  "nested rollup": f"SELECT id, rollup(h ORDER BY c) AS h FROM (SELECT id, g % 2 AS c, rollup(h) AS h FROM (SELECT id, g, seq % 3, hyperloglog(size, v) AS h FROM {vals} GROUP BY id, g, seq % 3) q GROUP BY id, g % 2) q2 GROUP BY id"}
        few = [i for i in ids if scale[i] <= 40]
        if few:
            ctx.partial(f"rp{k}", f"SELECT id, size, seq % 3 + 1 AS g, v FROM {vals.replace('{w}', 'id = ANY(' + chr(39) + '{' + ','.join(map(str, few)) + '}' + chr(39) + '::int[])')} ORDER BY seq")
            routes["partial states"] = f"SELECT id, hyperloglog(size, v) AS h FROM rp{k} WHERE {{w}} GROUP BY id"
            ctx.note_plan(routes["partial states"].replace("{w}", "true"))
        cols = ["distinct_count", "->", "stderror", "-> stderror", "md5", "kind", "canonical"]
        ans = {}
        for name, inner in routes.items():
            ans[name] = ctx.bulk("", lambda w: f"SELECT q.id, distinct_count(h), h -> distinct_count(), stderror(h), h -> stderror(), md5(h::text), substr(h::text, 16, 6), "
                                 f"(SELECT md5(rollup(z)::text) FROM (VALUES (h), ((SELECT f.h FROM filler f JOIN m ON m.id = q.id WHERE f.ty = '{k}' AND f.p = {pow2}))) w(z)) FROM ({inner.replace('{w}', w)}) q",
                                 few if name == "partial states" else ids, cols, pre=ctx.PARTIAL if name == "partial states" else "")
        acd = ctx.bulk("", lambda w: f"SELECT id, (md5(approx_count_distinct(v)::text) = md5(hyperloglog(32768, v)::text))::text, distinct_count(approx_count_distinct(v)) FROM {vals.replace('{w}', w)} GROUP BY id",
                       ids[::3], ["same", "distinct_count"])
        for i in ids:
            n, p = cases[i]["distinct"] * scale[i], P(size[i])
            ctx.traces += 1
            if n > 1: ctx.nontrivial += 1
            base = dict(zip(cols, ans["direct"].get(i, ["no row"] * 7)))
            for name in routes:
                if name == "partial states" and scale[i] > 40: continue
                ctx.evals += len(cols)
                g = dict(zip(cols, ans[name].get(i, ["no row"] * 7)))
                bad = judge(n, p, base, g)
                if bad:
                    ctx.violation(f"hll/{name}/{bad[0]}", f"{name} of hyperloglog({size[i]}, {t}) over runs (group, lo, hi) {cases[i]['rows']} of {scale[i]} values each, {n} distinct values: {bad[0]} is {bad[2]}, the specification says {bad[1]}",
                                  {"case": cases[i], "type": t, "size": size[i], "scale": scale[i], "sql": routes[name]})
            if i in acd:
                ctx.evals += 2
                if n == 0: continue
                if acd[i][0] != "true" or not count_ok(acd[i][1], n, 32768):
                    ctx.violation("hll/approx_count_distinct", f"approx_count_distinct({t}) of {n} distinct values: same as hyperloglog(32768): {acd[i][0]}, distinct_count {acd[i][1]}", {"case": cases[i], "type": t})
    for sql, want in [("SELECT distinct_count(hyperloglog(64, 1)) FROM generate_series(1, 100)", "1"), ("SELECT distinct_count(hyperloglog(262145, 1))", "ERR"), ("SELECT distinct_count(hyperloglog(8, 1))", "ERR"),
                      ("SELECT distinct_count(hyperloglog(0, 1))", "ERR"), ("SELECT distinct_count(hyperloglog(-16, 1))", "ERR"), ("SELECT distinct_count(hyperloglog(2147483647, 1))", "ERR"),
                      ("SELECT (hyperloglog(64, NULL::int) IS NULL)::text", "true"), ("SELECT (rollup(NULL::hyperloglog) IS NULL)::text", "true"), ("SELECT (approx_count_distinct(NULL::text) IS NULL)::text", "true"),
                      ("SELECT (rollup(h) IS NULL)::text FROM (SELECT hyperloglog(64, 1) AS h) q WHERE false", "true")] + \
                     [(f"SELECT distinct_count(rollup(h)) FROM (VALUES ((SELECT hyperloglog({a}, x::int) FROM generate_series(1, {n}) x)), ((SELECT hyperloglog({b}, x::int) FROM generate_series(1, {k}) x))) v(h)", "ERR")
                      for a, b in ((64, 128), (128, 64), (16, 262144)) for n in (2, 2000) for k in (2, 2000)] + \
                     [(f"SELECT stderror(hyperloglog({s}, 1))", str(1.04 / math.sqrt(P(s)))) for s in (16, 17, 60, 256, 3000, 32768, 200000, 262144)]:
        r = ctx.server.sql("SELECT vtry($q$" + sql + "$q$);").strip()
        ctx.evals += 1
        if not (r.startswith("ERR:") if want == "ERR" else r == want or (want[:2] == "0." and abs(float(r) - float(want)) < 1e-12)): ctx.violation("hll/const/" + sql, f"{sql} gives {r!r}, expected {want!r}", {"sql": sql})
    ctx.samples += [cases[len(cases) // 3], cases[-1]]


def count_ok(got, n, p):
    try: c = int(got)
    except (ValueError, TypeError): return False
    if n <= p / 8 and n <= 300: return c == n
    return abs(c - n) <= max(3, 5 * 1.04 / math.sqrt(p) * n)


def judge(n, p, base, g):
    if g["md5"] == "no row": return ("row", "a row", None)
    if str(g["distinct_count"]).startswith("ERR:"): return ("answer", "no error", g["distinct_count"])
    if n == 0:
        return None if g["distinct_count"] is None else ("distinct_count", "NULL", g["distinct_count"])
    if not count_ok(g["distinct_count"], n, p): return ("distinct_count", n if n <= p / 8 and n <= 300 else f"{n} give or take {5 * 1.04 / math.sqrt(p) * n:.0f}", g["distinct_count"])
    if g["->"] != g["distinct_count"]: return ("-> distinct_count()", g["distinct_count"], g["->"])
    want = 1.04 / math.sqrt(p)
    for a in ("stderror", "-> stderror"):
        if g[a] is None or abs(float(g[a]) - want) > 1e-9: return (a, want, g[a])
    if p <= 4096 and g["canonical"] != base["canonical"]: return ("registers", "those of the direct sketch", "others")
    if g["kind"] == base["kind"] and (g["md5"] != base["md5"] or g["distinct_count"] != base["distinct_count"]): return ("sketch", f"that of the direct one, counting {base['distinct_count']}", f"another one, counting {g['distinct_count']}")
    return None
