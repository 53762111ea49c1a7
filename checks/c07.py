"""C07 windowed counter and gauge answers: behaviours of CounterWindow.tla replayed as queries."""
from fractions import Fraction
from core import feq, frac
from series import Conc, PG2000, US, us_to_ts
from pg import copy_in

# (unit in microseconds, its share in a millisecond)
UNITS = {"1ms": [Conc("2000/1ms", PG2000 - 3000, 1000, 1.0), Conc("2021/1ms", 1609459200 * US + 5000, 1000, 0.25)],
         "250us": [Conc("1999/250us", PG2000 - 1000, 250, 4.0), Conc("1970/250us", -500, 250, 1.0)],
         "1s": [Conc("2000-origin/1s", PG2000 - 4 * US, US, 1.0), Conc("2023/1s", 1690000000 * US, US, 0.5)]}
MS = {"1ms": (1, 1), "250us": (4, 1), "1s": (1, 1000)}


def c07(ctx):
    inv = ("WRefines", "WEmit")
    futs, tags = [], []
    for gauge in (False, True):
        g = "TRUE" if gauge else "FALSE"
        vm = -1 if gauge else 0
        for u, cs, big in [("1ms", "{<<2, 4>>}", False), ("250us", "{<<5, 11>>, <<7, 9>>}", True), ("1s", "{<<5, 11>>, <<4, 14>>}", True)]:
            ms = MS[u]
            k = {"Gauge": g, "MsNum": ms[0], "MsDen": ms[1], "CutSets": cs, "WithNull": "FALSE"}
            if not big:
                futs.append(ctx.spec("CounterWindow", {**k, "T": 5, "V": vm + 2, "Vmin": vm, "MaxRows": ctx.pick(3, 4), "EmitAll": "TRUE", "Multisets": "TRUE"}, spec="WSpec", invariants=inv, workers=2))
            else:
                futs.append(ctx.spec("CounterWindow", {**k, "T": 15, "V": 6, "Vmin": -2 if gauge else 0, "MaxRows": 9, "EmitAll": "FALSE", "Multisets": "FALSE"}, spec="WSpecRandom", invariants=inv,
                                     simulate=ctx.pick(250, 4000), depth=12, workers=1))
            tags.append((gauge, u))
    ctx.start()
    cases = []
    for f, t in zip(futs, tags): cases += [(t, c) for c in ctx.take(f)]
    rows, ij, ej, im, em = [], [], [], {}, {}
    conc = {}
    for i, ((gauge, u), c) in enumerate(cases):
        k = conc[i] = UNITS[u][(i + ctx.seed) % 2]
        order = list(range(len(c["rows"])))
        # of two rows at one time the first one fed counts: shuffle only where times differ
        if len({t for t, _ in c["rows"]}) == len(order): ctx.rng.shuffle(order)
        for s, (t, v) in zip(order, c["rows"]):
            rows.append((i, 1 if t < c["cuts"][0] else 2 if t < c["cuts"][1] else 3, s, k.ts(t), k.v(v)))
        n = len(c["interp"])
        for m in sorted({(i * 5 + j * 7 + ctx.seed) % n for j in range(ctx.pick(6, 20))} if n else []):
            e = c["interp"][m]
            d = len(im)
            im[d] = (i, e)
            ij.append((d, i, gauge, k.ts(e["w"][0]), (e["w"][1] - e["w"][0]) * k.unit, 1 if e["u"] else None, 3 if e["v"] else None))
        for a in c["extra"]:
            A = a["A"][0] if len(a["A"]) == 1 else 0
            for m in {(i * 5 + j * 7 + ctx.seed) % len(a["ex"]) for j in range(ctx.pick(3, 10))}:
                e = a["ex"][m]
                d = len(em)
                l, r = e["b"]
                if l > r: continue
                # the same half-open bounds in the four ways of writing them
                f = (i + m) % 4 if l < r else 0
                lo = "[" + us_to_ts(k.t(l)) if f % 2 == 0 else "(" + us_to_ts(k.t(l) - 1)
                hi = us_to_ts(k.t(r)) + ")" if f < 2 else us_to_ts(k.t(r) - 1) + "]"
                em[d] = (i, A, e)
                ej.append((d, i, gauge, A, f"{lo},{hi}"))
    ctx.server.sql("CREATE UNLOGGED TABLE r(cid int, a int, seq int, ts timestamptz, v float8);\nCREATE UNLOGGED TABLE ij(id int primary key, cid int, gauge bool, ws timestamptz, wd bigint, p int, n int);\n"
                   "CREATE UNLOGGED TABLE ej(id int primary key, cid int, gauge bool, a int, b tstzrange);\nCREATE UNLOGGED TABLE x(cid int, a int, c countersummary, g gaugesummary); CREATE INDEX ON x(cid, a);\n"
                   + copy_in("r", rows) + copy_in("ij", ij) + copy_in("ej", ej) + "CREATE INDEX ON r(cid, a); ANALYZE r; ANALYZE ij; ANALYZE ej;")
    ids = list(range(len(cases)))
    for i, e in ctx.fill("x", lambda w: f"SELECT cid, a, counter_agg(ts, v ORDER BY seq), gauge_agg(ts, v ORDER BY seq) FROM r WHERE {w} GROUP BY cid, a", "cid", ids) + \
                ctx.fill("x", lambda w: f"SELECT cid, 0, rollup(c ORDER BY -a), rollup(g ORDER BY a) FROM x WHERE {w} AND a > 0 GROUP BY cid", "cid", ids):
        ctx.violation("window/build", f"counter_agg/gauge_agg or rollup over rows {cases[i][1]['rows']} cut at {cases[i][1]['cuts']} fails: {e}", {"case": cases[i][1]})
    ctx.server.sql("ANALYZE x")
    say = lambda i: f"rows (time, value) {cases[i][1]['rows']} cut at {cases[i][1]['cuts']} ({conc[i].name})"
    # interpolated
    for gauge, col, forms in [(False, "c", ["interpolated_{m}(h, ws, wl, hp, hn)", "(h -> interpolated_{m}(ws, wl, hp, hn))"]), (True, "g", ["interpolated_{m}(h, ws, wl, hp, hn)"])]:
        for form in forms:
            todo = [d for d, (i, e) in im.items() if cases[i][0][0] == gauge]
            src = f"SELECT ij.*, wd * interval '1 us' AS wl, x.{col} AS h, xp.{col} AS hp, xn.{col} AS hn FROM ij JOIN x ON x.cid = ij.cid AND x.a = 2 LEFT JOIN x xp ON xp.cid = ij.cid AND xp.a = ij.p LEFT JOIN x xn ON xn.cid = ij.cid AND xn.a = ij.n"
            got = ctx.bulk("", lambda w: f"SELECT id, {form.format(m='delta')}, {form.format(m='rate')} FROM ({src} WHERE {w.replace('id =', 'ij.id =')} OFFSET 0) q", todo, ["delta", "rate"])
            for d in todo:
                i, e = im[d]
                k = conc[i]
                ctx.traces += 1; ctx.evals += 2
                if len(cases[i][1]["rows"]) > 2: ctx.nontrivial += 1
                g = got.get(d) or [None, None]
                wd, wr = frac(e["delta"]) * Fraction(k.scale), frac(e["rate"])
                if wr is not None: wr = wr * Fraction(k.scale) / k.sec
                for a, w, gg in (("delta", wd, g[0]), ("rate", wr, g[1])):
                    if not feq(gg, w, 1e-9, 1e-9 * abs(k.scale) / (1 if a == "delta" else float(k.sec))):
                        ctx.violation(f"interpolated/{'gauge' if gauge else 'counter'}/{a}", f"{form.format(m=a)} of {'gauge' if gauge else 'counter'}_agg over {say(i)}, window {e['w']}, "
                                      f"{'with' if e['u'] else 'without'} previous, {'with' if e['v'] else 'without'} next, is {gg}, the specification says {w if w is None else float(w)}", {"case": cases[i][1], "job": e})
    # extrapolated, over with_bounds and over bounds given when aggregating
    for gauge, col in [(False, "c"), (True, "g")]:
        m = "'prometheus'"
        cm = "" if gauge else ", 'prometheus'"
        agg = "gauge_agg" if gauge else "counter_agg"
        S = f"(SELECT {agg}(ts, v, q.b ORDER BY seq) FROM r WHERE r.cid = q.cid AND r.a = q.a)"
        routes = [("with_bounds", f"extrapolated_{{m}}(with_bounds(h, b){cm})", lambda A: True), ("-> with_bounds", f"(h -> with_bounds(b) -> extrapolated_{{m}}({m}))", lambda A: True),
                  ("bounds argument", f"extrapolated_{{m}}({S}{cm})", lambda A: A > 0)]
        for name, form, ok in routes:
            todo = [d for d, (i, A, e) in em.items() if cases[i][0][0] == gauge and ok(A) and not e["x"]["err"]]
            src = f"SELECT ej.*, x.{col} AS h FROM ej JOIN x ON x.cid = ej.cid AND x.a = ej.a"
            got = ctx.bulk("", lambda w: f"SELECT id, {form.format(m='delta')}, {form.format(m='rate')} FROM ({src} WHERE {w.replace('id =', 'ej.id =')} OFFSET 0) q", todo, ["delta", "rate"])
            for d in todo:
                i, A, e = em[d]
                k, x = conc[i], e["x"]
                if x["tie"]: continue
                ctx.traces += 1; ctx.evals += 2
                if x["delta"] != []: ctx.nontrivial += 1
                g = got.get(d) or [None, None]
                wd, wr = frac(x["delta"]), frac(x["rate"])
                if wd is not None: wd *= Fraction(k.scale)
                if wr is not None: wr = wr * Fraction(k.scale) / k.sec
                for a, w, gg in (("delta", wd, g[0]), ("rate", wr, g[1])):
                    if not feq(gg, w, 1e-9, 1e-12 * abs(k.scale) / (1 if a == "delta" else float(k.sec))):
                        ctx.violation(f"extrapolated/{'gauge' if gauge else 'counter'}/{a}", f"{form.format(m=a)} ({name}) of {agg} over {say(i)}, {'all' if A == 0 else 'aggregate %d' % A}, bounds {e['b']} is {gg}, "
                                      f"the specification says {w if w is None else float(w)}", {"case": cases[i][1], "job": [A, e]})
            # bounds that do not hold the points
            bad = [d for d, (i, A, e) in em.items() if cases[i][0][0] == gauge and ok(A) and e["x"]["err"]][:ctx.pick(60, 600)]
            q = "".join("SELECT vtry($q$SELECT " + form.format(m=("delta", "rate")[d % 2]) + f" FROM ({src} WHERE ej.id = {d} OFFSET 0) q$q$);\n" for d in bad)
            for d, r in zip(bad, ctx.server.sql(q).splitlines() if q else []):
                i, A, e = em[d]
                ctx.evals += 1
                if not r.startswith("ERR:"):
                    ctx.violation(f"extrapolated/{'gauge' if gauge else 'counter'}/bad bounds", f"{form.format(m='delta')} ({name}) of {agg} over {say(i)}, {'all' if A == 0 else 'aggregate %d' % A}, bounds {e['b']} must be rejected, answers {r}", {"case": cases[i][1], "job": [A, e]})
    # rolling up aggregates with their own bounds extends the bounds to their hull
    rl = [(i, a) for i, (t, c) in enumerate(cases) for a in c["extra"] if len(a["A"]) == 3 and c["rows"]]
    q2, meta = [], []
    for i, a in rl[::max(1, len(rl) // ctx.pick(300, 3000))]:
        (gauge, u), c = cases[i]
        k = conc[i]
        e = a["ex"][(i + ctx.seed) % len(a["ex"])]
        l, r = e["b"]
        if e["x"]["err"] or e["x"]["tie"]: continue
        c1, c2 = c["cuts"]
        used = sorted({1 if t < c1 else 2 if t < c2 else 3 for t, _ in c["rows"]})
        lo = {1: l, 2: max(l, c1) if 1 in used else l, 3: max(l, c2) if used != [3] else l}
        hi = {1: min(r, c1) if used != [1] else r, 2: min(r, c2) if 3 in used else r, 3: r}
        b = {x: f"'[{us_to_ts(k.t(lo[x]))},{us_to_ts(k.t(hi[x]))})'::tstzrange" for x in used}
        if any(lo[x] >= hi[x] for x in used): continue
        agg = "gauge_agg" if gauge else "counter_agg"
        cm = "" if gauge else ", 'prometheus'"
        cs = "CASE a " + " ".join(f"WHEN {x} THEN {b[x]}" for x in used) + " END"
        q2.append(f"SELECT vtry($q$SELECT extrapolated_delta(s{cm})::text || ' ' || coalesce(extrapolated_rate(s{cm})::text, 'NULL') FROM (SELECT rollup(s ORDER BY -a) AS s FROM (SELECT a, {agg}(ts, v, {cs} ORDER BY seq) AS s FROM r WHERE cid = {i} GROUP BY a) z) y$q$);\n")
        meta.append((i, e))
    for (i, e), r in zip(meta, ctx.server.sql("".join(q2)).splitlines()):
        k, x = conc[i], e["x"]
        ctx.evals += 1; ctx.traces += 1
        if x["delta"] == []: ok = r == ""
        else:
            g = (r + " ").split(" ")
            wr = frac(x["rate"])
            ok = feq(g[0], frac(x["delta"]) * Fraction(k.scale), 1e-9, 1e-12) and (g[1] == "NULL" if wr is None else feq(g[1], wr * Fraction(k.scale) / k.sec, 1e-9, 1e-9))
        if not ok: ctx.violation("extrapolated/rollup", f"rollup of bounded aggregates over {say(i)}, hull {e['b']}: (delta rate) is {r!r}, the specification says {x}", {"case": cases[i][1], "job": e})
    C = "counter_agg(t, v) FROM (VALUES ('2020-01-01 05:00+00'::timestamptz, 1.0::float8), ('2020-01-01 07:00+00', 3)) v(t, v)"
    for agg, m in (("counter_agg", ", 'prometheus'"), ("gauge_agg", "")):
        c = C.replace("counter_agg", agg)
        for sql in [f"SELECT extrapolated_delta(s{m}) FROM (SELECT {c}) q(s)", f"SELECT extrapolated_rate(s{m}) FROM (SELECT {c}) q(s)", f"SELECT extrapolated_delta(with_bounds(s, 'empty'){m}) FROM (SELECT {c}) q(s)",
                    f"SELECT extrapolated_delta(with_bounds(s, '[2019-01-01,)'){m}) FROM (SELECT {c}) q(s)", f"SELECT extrapolated_rate(with_bounds(s, '(,2022-01-01)'){m}) FROM (SELECT {c}) q(s)",
                    f"SELECT {c.replace('t, v)', 't, v, ' + chr(39) + '[2020-01-01 06:00+00,2020-01-02)' + chr(39) + ')', 1)}", f"SELECT {c.replace('t, v)', 't, v, ' + chr(39) + '[2020-01-01 05:00+00,2020-01-01 07:00+00)' + chr(39) + ')', 1)}",
                    f"SELECT interpolated_delta(s, '2020-01-01 04:00+00', '1 day', s, NULL) FROM (SELECT {c}) q(s)", f"SELECT interpolated_delta(s, '2020-01-01 04:00+00', '1 day', NULL, s) FROM (SELECT {c}) q(s)"] + \
                   ([f"SELECT extrapolated_delta(with_bounds(s, '[2020-01-01,2020-01-02)'), 'nonsense') FROM (SELECT {c}) q(s)"] if m else []):
            r = ctx.server.sql("SELECT vtry($q$" + sql + "$q$);").strip()
            ctx.evals += 1
            if not r.startswith("ERR:"): ctx.violation("window/const", f"{sql} gives {r!r}, expected an error", {"sql": sql})
    ctx.samples += [cases[len(cases) // 3][1]["rows"], cases[-1][1]["rows"], im.get(7), em.get(7)]
