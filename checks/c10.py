"""C10 heartbeat_agg: behaviours of Heartbeat.tla replayed as queries."""
from series import pick_conc, us_to_ts, US, PG2000, Conc
from pg import copy_in

COLS = ["live", "dead", "up", "down", "nlive", "ngaps", "at"]
CONCS = [Conc("2020/1h", 1577836800 * US, 3600 * US, 1), Conc("2000-origin/1min", PG2000 - 180 * US, 60 * US, 1), Conc("1999/3us", PG2000 - 4 * 3, 3, 1), Conc("1960/1day", -3650 * 86400 * US, 86400 * US, 1)]


def sel(x, fn=True):
    """answer columns over an aggregate expression; ticks from us0 to us1 in steps of unit"""
    f = (lambda n: f"{n}({x})") if fn else (lambda n: f"({x} -> {n}())")
    la = "live_at({x}, tsus(t))" if fn else "({x} -> live_at(tsus(t)))"
    if not fn: lr = lambda n: f"(SELECT string_agg(us((q.r).start) || '|' || us((q.r).\"end\"), ',' ORDER BY (q.r).start) FROM (SELECT {x} -> {n}() AS r OFFSET 0) q)"
    else: lr = lambda n: (f"(SELECT string_agg(us(start) || '|' || us(\"end\"), ',' ORDER BY start) FROM {n}({x}))")
    return ", ".join([lr("live_ranges"), lr("dead_ranges"), f"us({f('uptime')})", f"us({f('downtime')})", f"{f('num_live_ranges')}::text", f"{f('num_gaps')}::text",
                      f"(SELECT string_agg(CASE WHEN {la.replace('{x}', x)} THEN '1' ELSE '0' END, '' ORDER BY t) FROM (SELECT generate_series(us0, us1, unit) AS t UNION SELECT us1 - 1 UNION SELECT us0 + unit - 1) ticks)"])


def c10(ctx):
    inv = ("Refines", "EmitCase")
    two = "{<<<<0, 4>>, <<4, 8>>>>, <<<<0, 5>>, <<3, 7>>>>, <<<<0, 4>>, <<6, 10>>>>}"
    big = "{<<<<0, 10>>, <<10, 20>>>>, <<<<0, 12>>, <<12, 20>>, <<20, 32>>>>, <<<<0, 15>>, <<9, 20>>>>, <<<<0, 8>>, <<11, 19>>, <<25, 40>>>>, <<<<10, 20>>, <<0, 10>>>>, <<<<0, 20>>, <<5, 15>>>>}"
    futs = [ctx.spec("Heartbeat", {"RangeSets": two, "Lens": "{1, 2, 3}", "Batch": 2, "MaxRows": ctx.pick(4, 5), "EmitAll": "TRUE", "Multisets": "TRUE"}, invariants=inv, workers=4),
            ctx.spec("Heartbeat", {"RangeSets": big, "Lens": "{1, 2, 4, 7}", "Batch": 3, "MaxRows": 9, "EmitAll": "FALSE", "Multisets": "FALSE"}, spec="SpecRandom", simulate=ctx.pick(700, 12000), depth=12, invariants=inv, workers=1),
            ctx.spec("Heartbeat", {"RangeSets": "{<<<<0, 40>>>>, <<<<0, 20>>, <<20, 40>>>>, <<<<0, 60>>, <<50, 90>>>>}", "Lens": "{1, 2, 3}", "Batch": 5, "MaxRows": 24, "EmitAll": "FALSE", "Multisets": "FALSE"},
                     spec="SpecRandom", simulate=ctx.pick(40, 600), depth=30, invariants=("EmitCase",), workers=1)]
    ctx.start()
    cases = []
    for f in futs: cases += ctx.take(f)
    rows, aggs, jobs, meta = [], [], [], {}
    jid = 0
    for i, c in enumerate(cases):
        k = CONCS[(i + ctx.seed) % len(CONCS)]
        rep = 130 if i % 40 == 7 or len(c["rows"]) == 24 else 1     # repeated heartbeats change nothing but cross the internal batches
        order = list(range(len(c["rows"])))
        ctx.rng.shuffle(order)
        for s, (a, t) in zip(order, c["rows"]):
            for j in range(rep): rows.append((i, a, s * 1000 + j, k.ts(t)))
        for a, (s, e) in enumerate(c["rg"], 1): aggs.append((i, a, k.ts(s), (e - s) * k.unit, c["len"] * k.unit))
        def job(kind, x, a=None, p=None, ws=None, wd=None):
            nonlocal jid
            jobs.append((jid, i, kind, a, p, ws, wd, k.t(x["s"]), k.t(x["e"]), k.unit))
            meta[jid] = (i, k, kind, a, p, ws, wd, x)
            jid += 1
        for n, e in enumerate(c["single"]):
            job("base", e["x"], e["a"])
            ts = e["trims"]
            S, E = c["rg"][e["a"] - 1]
            for m in range(ctx.pick(2, 10)):
                w = ts[(i * 7 + m * 13 + ctx.seed) % len(ts)]
                ws, wd = k.ts(w["s"]), (w["e"] - w["s"]) * k.unit
                if w["e"] == E and m % 2: wd = None
                if w["s"] == S and m % 2: job("trimd", w, e["a"], None, None, wd); continue
                job("trim", w, e["a"], None, ws, wd)
            if ts:
                w = ts[(i * 5 + ctx.seed) % len(ts)]
                if S < w["s"] < E: job("halves", e["x"], e["a"], None, k.ts(w["s"]), None)
        for e in c["interp"]:
            job("interp", e["x"], e["a"], e["p"])
            S, E = c["rg"][e["p"] - 1]
            job("interptrim", e["x"], e["a"], e["p"], k.ts(S + (i % (E - S))), None)
        job("roll", c["roll"])
    ctx.server.sql("CREATE UNLOGGED TABLE r(cid int, a int, seq int, ts timestamptz);\nCREATE UNLOGGED TABLE g(cid int, a int, s timestamptz, dur bigint, len bigint);\n"
                   "CREATE UNLOGGED TABLE j(id int primary key, cid int, kind text, a int, p int, ws timestamptz, wd bigint, us0 bigint, us1 bigint, unit bigint);\n"
                   + copy_in("r", rows) + copy_in("g", aggs) + copy_in("j", jobs)
                   + "CREATE UNLOGGED TABLE x(cid int, a int, h heartbeatagg); CREATE INDEX ON x(cid); CREATE INDEX ON r(cid); ANALYZE r; ANALYZE j; ANALYZE g;\n")
    for i, e in ctx.fill("x", lambda w: f"SELECT cid, a, heartbeat_agg(ts, s, dur * interval '1 us', len * interval '1 us' ORDER BY seq) FROM r JOIN g USING (cid, a) WHERE {w} GROUP BY cid, a", "cid", range(len(cases))):
        c = cases[i]
        ctx.violation("heartbeat/build", f"heartbeat_agg over heartbeats (aggregate, time) {c['rows']}, ranges {c['rg']}, liveness {c['len']} fails: {e}", {"case": c})
    ctx.server.sql("ANALYZE x")
    W = "wd * interval '1 us'"
    src = {"base": ("x1.h", ""), "trim": (f"trim_to(x1.h, ws, {W})", ""), "trimd": (f"trim_to(x1.h, duration => {W})", ""),
           "interp": ("interpolate(x1.h, x2.h)", "JOIN x x2 ON x2.cid = j.cid AND x2.a = j.p"),
           "interptrim": ("interpolate(x1.h, trim_to(x2.h, ws))", "JOIN x x2 ON x2.cid = j.cid AND x2.a = j.p"),
           "halves": ("(SELECT rollup(y) FROM (VALUES (trim_to(x1.h, duration => ws - tsus(us0))), (trim_to(x1.h, ws))) v(y))", "")}
    arrows = {"trim": f"(x1.h -> trim_to(ws, {W}))", "interp": "(x1.h -> interpolate(x2.h))", "base": "x1.h"}
    # every kind, function form and (where there is one) arrow form
    todo = [(k, e, jn, True) for k, (e, jn) in src.items()] + [(k, arrows[k], src[k][1], False) for k in arrows]
    for kind, expr, join, fn in todo + [("roll", "y.h", None, True)]:
        ids = [q for q in meta if meta[q][2] == kind]
        if join is None:
            q = lambda w: (f"SELECT id, {sel('h', fn)} FROM (SELECT id, us0, us1, unit, (SELECT rollup(h ORDER BY a) FROM x WHERE x.cid = j.cid) AS h FROM j WHERE {w} OFFSET 0) z")
        else:
            q = lambda w: f"SELECT id, {sel('h', fn)} FROM (SELECT id, us0, us1, unit, {expr} AS h FROM j JOIN x x1 ON x1.cid = j.cid AND x1.a = j.a {join} WHERE {w} OFFSET 0) z"
        got = ctx.bulk("", q, ids, COLS)
        for q_ in ids:
            i, k, kd, a, p, ws, wd, x = meta[q_]
            ctx.traces += 1; ctx.evals += len(COLS)
            if len(cases[i]["rows"]) > 1: ctx.nontrivial += 1
            bad = judge(k, x, dict(zip(COLS, got[q_])) if q_ in got else None)
            if bad:
                c = cases[i]
                ctx.violation(f"heartbeat/{kind}/{bad[0]}", f"heartbeat {kind} ({'function' if fn else 'arrow'} form): heartbeats (aggregate, time) {c['rows']}, ranges {c['rg']}, liveness {c['len']} ({k.name}), aggregate {a}, previous {p}, window from {ws} for {wd} us: "
                              f"{bad[0]} is {bad[2]}, the specification says {bad[1]}", {"case": c, "job": meta[q_][2:], "sql": expr})
    # interpolated_uptime / downtime, both forms
    ids = [q for q in meta if meta[q][2] == "interp"]
    e4 = "us(interpolated_uptime(x1.h, x2.h)), us(interpolated_downtime(x1.h, x2.h)), us(x1.h -> interpolated_uptime(x2.h)), us(x1.h -> interpolated_downtime(x2.h)), (x1.h = interpolate(x1.h, NULL))::text, us(interpolated_uptime(x1.h, NULL) - uptime(x1.h)), (x1.h = x2.h)::text, (x1.h <> x2.h)::text"
    got = ctx.bulk("", lambda w: f"SELECT id, {e4} FROM j JOIN x x1 ON x1.cid = j.cid AND x1.a = j.a JOIN x x2 ON x2.cid = j.cid AND x2.a = j.p WHERE {w}", ids, ["iu", "id", "aiu", "aid", "eq", "z", "same", "differ"])
    for q_ in ids:
        i, k, kd, a, p, ws, wd, x = meta[q_]
        want = [str(x["up"] * k.unit), str(x["down"] * k.unit)] * 2 + ["true", "0"]
        one, other = ({f: e["x"][f] for f in ("s", "e", "live")} for b in (a, p) for e in cases[i]["single"] if e["a"] == b)
        g = got.get(q_) or []
        want += ["false", "true"] if one != other else ["false", "true"] if g[6:7] == ["false"] else ["true", "false"]      # equality also looks at the last heartbeat
        ctx.evals += 8
        if got.get(q_) != want:
            ctx.violation("heartbeat/interpolated", f"interpolated uptime/downtime over {cases[i]['rows']}, ranges {cases[i]['rg']}, liveness {cases[i]['len']} ({k.name}), aggregate {a} after {p}: {got.get(q_)}, the specification says {want}", {"case": cases[i]})
    H = "heartbeat_agg(t, '2020-01-01', '1 day', '1 hour') FROM (VALUES ('2020-01-01 05:00+00'::timestamptz)) v(t)"
    for sql in ["SELECT uptime(heartbeat_agg('2020-01-02 00:00+00', '2020-01-01', '1 day', '1 hour'))::text", "SELECT uptime(heartbeat_agg('2019-12-31 23:59+00', '2020-01-01', '1 day', '1 hour'))::text",
                "SELECT uptime(heartbeat_agg('2020-01-01', '2020-01-01', '1 hour', '1 hour'))::text", f"SELECT live_at(h, '2020-01-02 00:00:01+00')::text FROM (SELECT {H}) q(h)", f"SELECT live_at(h, '2019-12-31 23:59:59+00')::text FROM (SELECT {H}) q(h)",
                f"SELECT uptime(trim_to(h, '2019-12-31 23:00+00'))::text FROM (SELECT {H}) q(h)", f"SELECT uptime(trim_to(h, '2020-01-01 23:00+00', '2 hours'))::text FROM (SELECT {H}) q(h)",
                f"SELECT uptime(interpolate(h, h))::text FROM (SELECT {H}) q(h)",
                f"SELECT uptime(rollup(h))::text FROM (SELECT {H} UNION ALL SELECT heartbeat_agg('2020-01-03', '2020-01-03', '1 day', '2 hours')) q(h)"]:
        r = ctx.server.sql("SELECT vtry($q$" + sql + "$q$);").strip()
        ctx.evals += 1
        if not r.startswith("ERR:"): ctx.violation("heartbeat/error", f"must be rejected, but answers {r!r}: {sql}", {"sql": sql})
    ctx.samples += [cases[len(cases) // 3], cases[-1]]


def judge(k, x, g):
    if g is None: return ("row", "a row", None)
    rg = lambda q: ",".join(f"{k.t(a)}|{k.t(b)}" for a, b in q) or None
    n = x["e"] - x["s"]
    cells = ["0"] * n + ["0"]
    for a, b in x["live"]:
        for t in range(a, b): cells[t - x["s"]] = "1"
    # ticks, plus one microsecond before the end of the first and of the last cell
    at = [(t * k.unit, cells[t]) for t in range(n + 1)] + [(n * k.unit - 1, cells[n - 1]), (k.unit - 1, cells[0])]
    at = "".join(v for _, v in sorted(dict(at).items()))
    want = {"live": rg(x["live"]), "dead": rg(x["dead"]), "up": str(x["up"] * k.unit), "down": str(x["down"] * k.unit), "nlive": str(len(x["live"])), "ngaps": str(len(x["dead"])), "at": at}
    for c in COLS:
        if g[c] != want[c]: return (c, want[c], g[c])
    return None
