"""C11 candlestick: behaviours of Candle.tla replayed as queries."""
from fractions import Fraction
from core import feq, frac
from series import pick_conc, NULL
from pg import copy_in

VALS = [("open", "o"), ("high", "h"), ("low", "l"), ("close", "c")]
TIMES = [("open_time", "ot"), ("high_time", "ht"), ("low_time", "lt"), ("close_time", "ct")]


def c11(ctx):
    inv = ("Refines", "Sane", "EmitCase")
    futs = [ctx.spec("Candle", {"Times": "0..2", "Prices": "1..2", "Vols": ctx.pick("{NULL, 1}", "{NULL, 0, 1}"), "Groups": "1..2", "BarGroups": "{}", "MaxRows": 3, "WithNull": "TRUE", "EmitAll": "TRUE"}, invariants=inv, heap="6g"),
            ctx.spec("Candle", {"Times": "0..1", "Prices": "{-1, 2}", "Vols": "{-1, 3}", "Groups": "{1}", "BarGroups": "{}", "MaxRows": 4, "WithNull": "FALSE", "EmitAll": "TRUE"}, invariants=inv),
            ctx.spec("Candle", {"Times": "0..9", "Prices": "(0-5)..9", "Vols": "0..7", "Groups": "1..5", "BarGroups": "{2, 4}", "MaxRows": 9, "WithNull": "FALSE", "EmitAll": "FALSE"},
                     spec="SpecRandom", simulate=ctx.pick(1500, 20000), depth=12, invariants=inv, workers=1),
            ctx.spec("Candle", {"Times": "0..30", "Prices": "1..20", "Vols": "{NULL} \\cup 0..60", "Groups": "1..3", "BarGroups": "{3}", "MaxRows": 25, "WithNull": "FALSE", "EmitAll": "FALSE"},
                     spec="SpecRandom", simulate=ctx.pick(100, 1500), depth=30, invariants=("EmitCase",), workers=1)]
    ctx.start()
    cases = []
    for f in futs: cases += ctx.take(f)
    ticks, bars, conc = [], [], []
    for i, c in enumerate(cases):
        k = pick_conc(i, ctx.seed)
        conc.append(k)
        for s, (g, t, o, h, l, cl, v) in enumerate(c["rows"]):
            vol = None if v == NULL else repr(v * 0.5)
            if g in c["bars"]: bars.append((i, s, g, k.ts(t), k.v(o), k.v(h), k.v(l), k.v(cl), vol))
            else: ticks.append((i, s, g, k.ts(t), k.v(o), vol))
    ctx.server.sql("CREATE UNLOGGED TABLE r(id int, seq int, g int, ts timestamptz, p float8, vol float8);\n"
                   "CREATE UNLOGGED TABLE b(id int, seq int, g int, ts timestamptz, o float8, h float8, l float8, c float8, vol float8);\n"
                   + copy_in("r", ticks) + copy_in("b", bars) + "ANALYZE r; ANALYZE b;")
    ctx.partial("rp", "SELECT * FROM r ORDER BY seq")
    cols = [a for a, _ in VALS + TIMES] + ["volume", "vwap"]
    fsel = ", ".join([f"{a}(s)::text" for a, _ in VALS] + [f"us({a}(s))" for a, _ in TIMES] + ["volume(s)::text", "vwap(s)::text"])
    asel = ", ".join([f"(s->{a}())::text" for a, _ in VALS] + [f"us(s->{a}())" for a, _ in TIMES] + ["volume(s)::text", "vwap(s)::text"])
    groups = ("SELECT id, g, candlestick_agg(ts, p, vol ORDER BY seq) AS x FROM r WHERE {w} GROUP BY id, g UNION ALL "
              "SELECT id, g, candlestick(ts, o, h, l, c, vol) FROM b WHERE {w}")
    single = ("SELECT id, (g-1)*1000+seq AS g, candlestick(ts, p, p, p, p, vol) AS x FROM r WHERE {w} UNION ALL "
              "SELECT id, (g-1)*1000+seq, candlestick(ts, o, h, l, c, vol) FROM b WHERE {w}")
    routes = [("direct", fsel, "SELECT id, candlestick_agg(ts, p, vol ORDER BY seq) AS s FROM r WHERE {w} GROUP BY id"),
              ("roll", asel, "SELECT id, rollup(x ORDER BY g) AS s FROM (" + groups + ") y GROUP BY id"),
              ("roll", fsel, "SELECT id, rollup(x ORDER BY g) AS s FROM (" + single + ") y GROUP BY id")]
    # from PostgreSQL's own partial states, which it combines in any order: where no two ticks share their time
    routes.append(("direct", fsel, "SELECT id, candlestick_agg(ts, p, vol) AS s FROM rp WHERE {w} GROUP BY id"))
    ctx.note_plan(routes[-1][2].replace("{w}", "true"))
    clear = {i for i, c in enumerate(cases) if len({r[1] for r in c["rows"] if r[0] not in c["bars"]}) == sum(r[0] not in c["bars"] for r in c["rows"])}
    for route, sel, src in routes:
        q = lambda where: f"SELECT id, {sel} FROM ({src.replace('{w}', where)}) q"
        part = "FROM rp" in src
        ids = [i for i, c in enumerate(cases) if c["rows"] and (not part or i in clear)]
        got = ctx.bulk("", q, ids, cols, pre=ctx.PARTIAL)
        for i in ids:
            c, k, e = cases[i], conc[i], cases[i][route]
            g = got.get(i)
            ctx.traces += 1; ctx.evals += len(cols)
            if len(c["rows"]) > 1 and e: ctx.nontrivial += 1
            bad = judge(k, e, dict(zip(cols, g)) if g else None, part)
            if bad:
                ctx.violation(f"candlestick/{route}/{bad[0]}", f"candlestick, {src[:60]}..., over items (group, time, open, high, low, close, volume) {c['rows']} scaled by {k.name}: {bad[0]} is {bad[2]}, the specification says {bad[1]}",
                              {"case": c, "conc": k.name, "sql": [sel, src]})
    # candlestick() of absent parts, and rollup of nothing
    for sql, want in [("SELECT open(candlestick(NULL, 1, 2, 0, 1, 5))::text", ""), ("SELECT open(candlestick('2020-01-01', 1, NULL, 0, 1, 5))::text", ""),
                      ("SELECT volume(candlestick('2020-01-01', 1, 2, 0, 1, NULL))::text", ""), ("SELECT high(candlestick('2020-01-01', 1, 2, 0, 1, NULL))::text", "2"),
                      ("SELECT open(candlestick('2020-01-01', NULL, 2, 0, 1, 5))::text", ""), ("SELECT open(candlestick('2020-01-01', 1, 2, NULL, 1, 5))::text", ""), ("SELECT open(candlestick('2020-01-01', 1, 2, 0, NULL, 5))::text", ""),
                      ("SELECT (rollup(NULL::candlestick) IS NULL)::text", "true"), ("SELECT (candlestick_agg(NULL::timestamptz, 1.0, 1.0) IS NULL)::text", "true"),
                      ("SELECT vwap(candlestick('2020-01-01', 1, 4, 1, 1, 5))::text", "2")]:
        r = ctx.server.sql("SELECT vtry($q$" + sql + "$q$);").strip()
        ctx.evals += 1
        if r != want: ctx.violation("candlestick/const", f"{sql} gives {r!r}, expected {want!r}", {"sql": sql})
    ctx.samples += [cases[len(cases) // 3], cases[-1]]


def judge(k, e, g, part):
    if not e:
        if g is None: return None
        for a, v in g.items():
            if v is not None: return (a, None, v)
        return None
    if g is None: return ("row", "an answer", None)
    for a, f in VALS:
        if not feq(g[a], Fraction(k.scale) * e[f], 0): return (a, k.scale * e[f], g[a])
    for a, f in TIMES:
        if part and f in ("ht", "lt"): continue
        if g[a] != str(k.t(e[f])): return (a, k.t(e[f]), g[a])
    vol = frac(e["vol"]); vw = frac(e["vwap"])
    if not feq(g["volume"], None if vol is None else vol * Fraction(1, 2), 1e-12): return ("volume", vol, g["volume"])
    if not feq(g["vwap"], None if vw is None else vw * Fraction(k.scale), 1e-11, 1e-12): return ("vwap", vw, g["vwap"])
    return None
