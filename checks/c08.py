"""C08 time_weight: behaviours of TimeWeight.tla replayed as queries."""
from fractions import Fraction
from core import feq, frac
from series import CONCS, pick_conc, PG2000, US, us_to_ts, NULL
from pg import copy_in

UNITS = [("second", 1), ("usecond", Fraction(1, 10**6)), ("MSecond", Fraction(1, 1000)), ("minute", 60), ("hrs", 3600), ("Hour", 3600), ("ms", Fraction(1, 1000)), ("s", 1)]
METHODS = {"LOCF": ["LOCF", " locf ", "Locf"], "Linear": ["Linear", "trapezoidal", "LINEAR "]}


def c08(ctx):
    inv = ("Refines", "CombineOK", "Additive", "EmitCase")
    futs = []
    for m in ("LOCF", "Linear"):
        c = {"Method": f'"{m}"'}
        futs += [
            ctx.spec("TimeWeight", {**c, "T": 3, "V": 1, "Vmin": -1, "MaxRows": 3, "WithNull": "TRUE", "EmitAll": "TRUE", "Starts": "{0, 1, 2}", "Ends": "{2, 3, 4}"}, invariants=inv, workers=3),
            ctx.spec("TimeWeight", {**c, "T": 10, "V": 6, "Vmin": -4, "MaxRows": 7, "WithNull": "FALSE", "EmitAll": "FALSE", "Starts": "{2, 3, 4}", "Ends": "{6, 7, 9}"},
                     spec="SpecRandom", simulate=ctx.pick(900, 15000), depth=10, invariants=inv, workers=1),
            ctx.spec("TimeWeight", {**c, "T": 120, "V": 5, "Vmin": -5, "MaxRows": 70, "WithNull": "FALSE", "EmitAll": "FALSE", "Starts": "{20}", "Ends": "{100}"},
                     spec="SpecRandom", simulate=ctx.pick(60, 1000), depth=80, invariants=("EmitCase",), workers=1)]
    ctx.start()
    cases = []
    for f in futs: cases += ctx.take(f)
    rows, conc, meta = [], [], []
    for i, c in enumerate(cases):
        k = pick_conc(i, ctx.seed)
        conc.append(k)
        S, E = c["s"], c["e"]
        meth = METHODS[c["method"]]
        meta.append((i, us_to_ts(k.t(S)), (E - S) * k.unit, meth[(i + ctx.seed) % len(meth)], UNITS[(i + ctx.seed) % len(UNITS)][0]))
        cuts = sorted(ctx.rng.sample(range(1, E + 4), min(3, E + 3)))      # parts for the roll-up
        for s, (t, v) in enumerate(c["rows"]):
            b = 2 if t == NULL else 1 if t < S else 2 if t < E else 3
            rows.append((i, s, b, sum(t >= x for x in cuts), k.ts(t), k.v(v)))
    ctx.server.sql("CREATE UNLOGGED TABLE r(id int, seq int, b int, g int, ts timestamptz, v float8);\nCREATE UNLOGGED TABLE m(id int primary key, s timestamptz, len bigint, meth text, unit text);\n"
                   + copy_in("r", rows) + copy_in("m", meta) + "ANALYZE r; ANALYZE m;")
    cols = ["avg", "int", "intu", "fv", "lv", "ft", "lt"] + [f"{x}{p}{n}" for p in "01" for n in "01" for x in ("ia", "ii", "iu")]
    def opt(p, n, arrow):
        P = "a1" if p == "1" else "NULL::timeweightsummary"
        N = "a3" if n == "1" else "NULL::timeweightsummary"
        cond = "TRUE" + (" AND a1 IS NOT NULL" if p == "1" else "") + (" AND a3 IS NOT NULL" if n == "1" else "")
        args = f"s, len * interval '1 us', {P}, {N}"
        if arrow: e = [f"a2 -> interpolated_average({args})", f"a2 -> interpolated_integral({args})", f"a2 -> interpolated_integral({args}, unit)"]
        else: e = [f"interpolated_average(a2, {args})", f"interpolated_integral(a2, {args})", f"interpolated_integral(a2, {args}, unit)"]
        return [f"CASE WHEN {cond} AND a2 IS NOT NULL THEN ({x})::text END" for x in e]
    ctx.partial("rp", "SELECT r.*, s, len, meth, unit FROM r JOIN m USING (id) ORDER BY seq")
    for arrow, rolled, part in ((False, False, False), (True, False, False), (ctx.seed % 2 == 0, True, False), (ctx.seed % 2 == 1, False, True)):
        f = (lambda n, *a: f"(a2 -> {n}({', '.join(a)}))") if arrow else (lambda n, *a: f"{n}({', '.join(('a2',) + a)})")
        sel = [f("average") + "::text", f("integral") + "::text", "CASE WHEN a2 IS NOT NULL THEN " + f("integral", "unit") + "::text END", f("first_val") + "::text", f("last_val") + "::text",
               f"us({f('first_time')})", f"us({f('last_time')})"]
        for p in "01":
            for n in "01": sel += opt(p, n, arrow)
        agg = lambda b: f"time_weight(meth, ts, v ORDER BY seq) FILTER (WHERE b = {b}) AS a{b}"
        src = "r JOIN m USING (id)"
        if rolled:
            agg = lambda b: f"rollup(w ORDER BY (g * 7 + id) % 5) FILTER (WHERE b = {b}) AS a{b}"
            src = "(SELECT id, b, g, s, len, unit, time_weight(meth, ts, v ORDER BY seq) AS w FROM r JOIN m USING (id) WHERE {w} GROUP BY id, b, g, s, len, unit) r"
        if part:         # from PostgreSQL's own partial states
            agg = lambda b: f"time_weight(meth, ts, v) FILTER (WHERE b = {b}) AS a{b}"
            src = "rp"
        q = lambda where: (f"SELECT id, {', '.join(sel)} FROM (SELECT id, min(s) AS s, min(len) AS len, min(unit) AS unit, {agg(1)}, {agg(2)}, {agg(3)} "
                           f"FROM {src.replace('{w}', where)} WHERE {where} GROUP BY id) q")
        if part: ctx.note_plan(q("true"))
        got = ctx.bulk("", q, [i for i, c in enumerate(cases) if c["rows"]], cols, pre=ctx.PARTIAL if part else "")
        for i, c in enumerate(cases):
            if not c["rows"]: continue
            k, e, g = conc[i], c["exp"], got.get(i)
            ctx.traces += 1
            ctx.evals += len(cols)
            if e and e[0]["first"] != e[0]["last"]: ctx.nontrivial += 1
            bad = judge(c, k, e[0] if e else None, dict(zip(cols, g)) if g else None, UNITS[(i + ctx.seed) % len(UNITS)][1])
            if bad:
                ctx.violation("time_weight/" + bad[0], f"time_weight({meta[i][3]!r}) {'arrow' if arrow else 'function'} form{', rolled up from parts,' if rolled else ''} over {[(k.ts(t), k.v(v)) for t, v in c['rows']]}, "
                              f"window {meta[i][1]} + {meta[i][2]} us, unit {meta[i][4]}: {bad[0]} (ia/ii/iu = interpolated average/integral/integral in unit, then prev, next given) is {bad[2]}, the specification says {bad[1]}",
                              {"case": c, "conc": k.name, "meta": meta[i], "cols": cols, "sql": sel})
    # errors: windows that do not hold the points; unknown methods and units; mixed methods
    A = "time_weight('linear', ts, v) FROM (VALUES ('2020-01-01 00:00:10+00'::timestamptz, 1.0), ('2020-01-01 00:00:20+00', 2.0)) t(ts, v)"
    errs = [f"SELECT interpolated_average(a, '2020-01-01 00:00:11+00', '1 hour')::text FROM (SELECT {A}) q(a)",
            f"SELECT interpolated_integral(a, '2020-01-01 00:00:05+00', '15 seconds')::text FROM (SELECT {A}) q(a)",
            f"SELECT interpolated_integral(a, '2020-01-01 00:00:05+00', '5 seconds')::text FROM (SELECT {A}) q(a)",
            f"SELECT integral(a, 'fortnight')::text FROM (SELECT {A}) q(a)",
            "SELECT average(time_weight('cubic', '2020-01-01'::timestamptz, 1.0))::text",
            "SELECT average(rollup(a))::text FROM (SELECT time_weight('linear', '2020-01-01'::timestamptz, 1.0) UNION ALL SELECT time_weight('locf', '2020-01-02'::timestamptz, 1.0)) q(a)"]
    for e in errs:
        r = ctx.server.sql("SELECT vtry($q$" + e + "$q$);").strip()
        ctx.evals += 1
        if not r.startswith("ERR:"): ctx.violation("time_weight/error", f"must be rejected, but answers {r!r}: {e}", {"sql": e})
    ctx.samples += [cases[len(cases) // 3], cases[-1]]


def judge(c, k, e, g, unit):
    if g is None: return ("row", "a row", None)
    if e is None:
        for a in g:
            if g[a] is not None: return (a, None, g[a])
        return None
    a_, s_ = Fraction(k.scale), k.sec
    def chk(col, want):
        return None if feq(g[col], want, 1e-9, 1e-12) else (col, want if want is None else float(want), g[col])
    x = lambda r, ps: None if r == [] else frac(r) * a_ * s_ ** ps
    tests = [("avg", x(e["plain"]["average"], 0)), ("int", x(e["plain"]["integral"], 1)), ("intu", x(e["plain"]["integral"], 1) / unit),
             ("fv", a_ * e["first"][1]), ("lv", a_ * e["last"][1])]
    for o in e["opts"]:
        p = f"{int(o['p'])}{int(o['n'])}"
        tests += [("ia" + p, x(o["a"]["average"], 0)), ("ii" + p, x(o["a"]["integral"], 1)), ("iu" + p, x(o["a"]["integral"], 1) / unit)]
    for col, w in tests:
        b = chk(col, w)
        if b: return b
    for col, p in (("ft", "first"), ("lt", "last")):
        if g[col] != str(k.t(e[p][0])): return (col, k.t(e[p][0]), g[col])
    return None
