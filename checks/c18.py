"""C18 timevector and its pipelines: behaviours of Pipeline.tla replayed as queries."""
import re, math
from fractions import Fraction
from core import feq, frac
from series import pick_conc, us_to_ts, NULL
from pg import copy_in

ELS_SMALL = """{<<"sort">>, <<"delta">>, <<"fill", 1, "locf">>, <<"fill", 2, "interpolate">>, <<"fill", 2, "nearest">>, <<"fill", 0, "locf">>, <<"arith", "mul", <<3, 2>>>>, <<"arith", "mod", <<-3, 2>>>>,
 <<"arith", "round", <<0, 1>>>>, <<"arith", "sign", <<0, 1>>>>, <<"map", "tval", 0>>, <<"map", "lin", <<1, 2>>>>, <<"map", "shift", 2>>, <<"filter", "gt", <<0, 1>>>>, <<"filter", "until", 4>>, <<"series">>}"""
ELS_BIG = "<<" + ", ".join(
    ['<<"sort">>'] * 6 + ['<<"delta">>'] * 3 + [f'<<"fill", {k}, "{m}">>' for k, m in [(1, "locf"), (2, "interpolate"), (3, "nearest"), (2, "locf"), (1, "interpolate"), (4, "nearest"), (30, "locf")]]
    + [f'<<"arith", "{f}", <<{n}, {d}>>>>' for f, n, d in [("add", 1, 2), ("add", -3, 1), ("sub", 5, 2), ("mul", -1, 1), ("mul", 3, 2), ("div", 2, 1), ("div", -3, 1), ("mod", 3, 1), ("mod", -5, 2), ("power", 2, 1),
        ("abs", 0, 1), ("ceil", 0, 1), ("floor", 0, 1), ("round", 0, 1), ("sign", 0, 1), ("trunc", 0, 1)]]
    + ['<<"data">>', '<<"series">>', '<<"map", "lin", <<-1, 2>>>>', '<<"map", "lin", <<3, 1>>>>', '<<"map", "sq", <<1, 1>>>>', '<<"map", "shift", 3>>', '<<"map", "shift", -7>>', '<<"map", "tval", 0>>']
    + [f'<<"filter", "{f}", <<{n}, {d}>>>>' for f, n, d in [("gt", 1, 2), ("le", 9, 2), ("gt", -3, 1), ("ne", 3, 2), ("eq", 1, 1), ("notgt", 7, 2)]] + ['<<"filter", "from", 6>>', '<<"filter", "until", 22>>', '<<"filter", "from", 12>>']) + ">>"


def num(q): return repr(float(Fraction(q[0], q[1])))


def plus(q):
    x = float(Fraction(q[0], q[1]))
    return f"- {-x!r}" if x < 0 else f"+ {x!r}"


def element(e, conc, ci):
    us = lambda k: f"{k * conc.unit} microseconds"
    if e[0] in ("sort", "delta"): return e[0] + "()"
    if e[0] == "fill":
        iv = "1 month" if conc.unit == 86400_000_000 and e[1] == 30 else f"{e[1]} days" if conc.unit == 86400_000_000 else us(e[1])
        return f"fill_to('{iv}', '{'linear' if e[1] == 1 and e[2] == 'interpolate' else e[2].upper() if e[1] == 4 else e[2]}')"
    if e[0] == "arith": return e[1] + (f"({num(e[2])})" if e[1] in ("add", "sub", "mul", "div", "mod", "power") else "()")
    if e[0] == "data": return "map_data('t3m1')"
    if e[0] == "series": return f"map_series('tneg{ci}')"
    if e[0] == "map":
        l = {"lin": lambda: f"$value * 2 {plus(e[2])}", "sq": lambda: f"let $x = $value {plus(e[2])}; $x * $x",
             "shift": lambda: f"($time {'+' if e[2] >= 0 else '-'} '{us(abs(e[2]))}'i, -$value)", "tval": lambda: f"($time - '{us(1)}'i * $value, $value)"}[e[1]]()
        return f"map($l${l}$l$)"
    l = {"gt": lambda: f"$value > {num(e[2])}", "le": lambda: f"$value <= {num(e[2])}", "eq": lambda: f"$value = {num(e[2])}", "ne": lambda: f"$value != {num(e[2])}", "notgt": lambda: f"not ($value > {num(e[2])})",
         "from": lambda: f"$time >= '{conc.ts(e[2])}'t", "until": lambda: f"$time < '{conc.ts(e[2])}'t"}[e[1]]()
    return f"filter($l${l}$l$)"


PT = re.compile(r'\(ts:"([^"]*)",val:([^)]*)\)')


def parse_tv(s):
    """text of a timevector -> (flags, [(time, value)], [null bit])"""
    m = re.fullmatch(r"\(version:1,num_points:(\d+),flags:(\d+),internal_padding:\(0,0,0\),points:\[(.*)\],null_val:\[([\d,]*)\]\)", s)
    if not m: return None
    pts = PT.findall(m.group(3))
    bits = [int(x) for x in m.group(4).split(",")] if m.group(4) else []
    if len(pts) != int(m.group(1)) or len(bits) < (len(pts) + 7) // 8: return None
    return int(m.group(2)), pts, [bool(bits[i // 8] >> (i % 8) & 1) for i in range(len(pts))]


def norm_ts(t):
    t = t.replace("+00:00", "").removesuffix("+00")
    return t.rstrip("0").rstrip(".") if "." in t else t


def near(a, b):
    """equal texts, numbers up to 1e-9"""
    if a is None or b is None: return a == b
    if a.startswith("ERR:") or b.startswith("ERR:"): return a.startswith("ERR:") and b.startswith("ERR:")
    N = r"-?(?:\d+\.?\d*(?:e-?\d+)?|NaN|inf)"
    if re.sub(N, "#", a) != re.sub(N, "#", b): return False
    return all(x == y or abs(float(x) - float(y)) <= 1e-9 * max(abs(float(x)), abs(float(y)), 1e-3) for x, y in zip(re.findall(N, a), re.findall(N, b)))


def c18(ctx):
    inv = ("BuildMeans", "FlagsSound", "Laws", "EmitCase")
    base = {"Parts": "1..2", "Els": "{}", "Weighted": ELS_BIG, "EmitAll": "FALSE"}
    V = "{NULL, -9, -4, -3, -1, 0, 1, 2, 4, 5, 6, 8, 14, 21}"
    futs = [ctx.spec("Pipeline", {"Parts": "1..2", "Times": "{1, 2, 5, NULL}", "Vals": "{-3, 2, NULL}", "Els": ELS_SMALL, "Weighted": "<<>>", "MaxRows": 2, "MaxOps": 2, "EmitAll": "FALSE"}, invariants=inv, workers=3),
            ctx.spec("Pipeline", {"Parts": "1..1", "Times": "{1, 2, 5}", "Vals": "{-3, 2, NULL}", "Els": ELS_SMALL, "Weighted": "<<>>", "MaxRows": 3, "MaxOps": ctx.pick(1, 2), "EmitAll": "FALSE"}, invariants=inv, workers=2),
            ctx.spec("Pipeline", {**base, "Times": "{NULL} \\cup 0..30", "Vals": V, "MaxRows": 12, "MaxOps": 4}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(900, 9000), depth=20, workers=2),
            ctx.spec("Pipeline", {**base, "Parts": "1..3", "Times": "{NULL} \\cup 0..40", "Vals": V, "MaxRows": 20, "MaxOps": 6}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(500, 6000), depth=30, workers=2),
            ctx.spec("Pipeline", {**base, "Parts": "1..2", "Times": "0..40", "Vals": V.replace("NULL, ", ""), "MaxRows": 20, "MaxOps": 5}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(500, 6000), depth=30, workers=2),
            ctx.spec("Pipeline", {**base, "Parts": "1..3", "Times": "{NULL} \\cup 0..40", "Vals": V, "MaxRows": 180, "MaxOps": 2}, invariants=("BuildMeans", "FlagsSound", "EmitCase"), spec="SpecLong", simulate=ctx.pick(120, 2000), depth=8, workers=2)]
    ctx.start()
    cases = []
    for k, f in enumerate(futs):
        cs = ctx.take(f)
        lim = ctx.pick(1500, 12000) if k < 2 else 10 ** 9
        cases += ctx.rng.sample(cs, min(lim, len(cs)))
    sv = ctx.server
    srows, qs, meaning = [], [], []
    conc = {}
    units = {}
    for i, c in enumerate(cases):
        conc[i] = pick_conc(i, ctx.seed)
        units.setdefault(conc[i].name, (len(units), conc[i]))
        for s, (p, t, v) in enumerate(c["rows"]): srows.append((i, s, p, conc[i].ts(t), None if v == NULL else repr(v / 2)))
    pre = "ALTER DATABASE postgres SET search_path TO public, toolkit_experimental;"
    try: sv.sql(pre)
    except Exception: pass
    sv.sql("SET search_path TO public, toolkit_experimental;\nCREATE UNLOGGED TABLE r(id int, seq int, p int, t timestamptz, v float8);\nCREATE UNLOGGED TABLE qs(id int primary key, q text);\n"
           "CREATE FUNCTION t3m1(double precision) RETURNS double precision AS 'SELECT 3 * $1 - 1' LANGUAGE SQL IMMUTABLE;\n"
           + "".join(f"CREATE FUNCTION tneg{k}(timevector_tstz_f64) RETURNS timevector_tstz_f64 AS $f$SELECT timevector(time + interval '{c.unit} microseconds', -value ORDER BY n) FROM unnest($1) WITH ORDINALITY u(time, value, n)$f$ LANGUAGE SQL IMMUTABLE;\n" for k, c in units.values())
           + copy_in("r", srows) + "CREATE INDEX ON r(id); ANALYZE r;")

    def add(i, what, q, judge):
        qs.append((len(qs), q)); meaning.append((i, what, judge))
    for i, c in enumerate(cases):
        els = [element(e, conc[i], units[conc[i].name][0]) for e in c["ops"]]
        src = f"(SELECT rollup(x ORDER BY p) FROM (SELECT p, timevector(t, v ORDER BY seq) AS x FROM r WHERE id = {i} GROUP BY p) g)"
        one = len({r[0] for r in c["rows"]}) == 1
        agg, frm = ("timevector(t, v ORDER BY seq)", f"FROM r WHERE id = {i}") if one else ("x", f"FROM (SELECT {src} AS x OFFSET 0) z")
        chain = " -> ".join([agg] + els)
        cast = [e + "::UnstableTimevectorPipeline" if e == "delta()" else e for e in els]
        comp = " -> ".join(cast)
        add(i, "chain", f"SELECT ({chain})::text {frm}", "tv")
        def grow(a, how):
            """the elements put before a finalizer all at once, one after another from the back, or in two lots: a finalizer that already holds elements takes more"""
            groups = [cast] if how % 3 == 0 else [[e] for e in cast] if how % 3 == 1 else [g for g in (cast[:(len(cast) + 1) // 2], cast[(len(cast) + 1) // 2:]) if g]
            for g in reversed(groups):
                before = " -> ".join(g)
                a = f"{before} -> {a if a.endswith('()') and g is groups[-1] else '(' + a + ')'}" if fname(a) is None else f"finalize_with_{fname(a)}({before}, {a})"
            return a
        if els:
            add(i, "composed", f"SELECT ({agg} -> ({comp}))::text {frm}", "tv")
            stepq = f"SELECT {agg} AS y {frm} OFFSET 0"
            for e in els: stepq = f"SELECT y -> {e} AS y FROM ({stepq}) s OFFSET 0"
            add(i, "step by step", f"SELECT y::text FROM ({stepq}) s", "tv")
            k = i % 3
            if k == 0: add(i, "through the pipeline's text", f"SELECT (y -> (({comp})::text)::UnstableTimevectorPipeline)::text FROM (SELECT {agg} AS y {frm} OFFSET 0) s", "tv")
            elif k == 1: add(i, "pipeline as data", f"SELECT (y -> pl)::text FROM (SELECT {agg} AS y, ({comp}) AS pl {frm} {'GROUP BY id' if one else ''} OFFSET 0) s", "tv")
            else: add(i, "materialize", f"SELECT ({chain} -> materialize())::text {frm}" if i % 2 else f"SELECT ({agg} -> ({grow('materialize()', i)}))::text {frm}", "tv")
            add(i, "num_vals", f"SELECT {chain} -> num_vals() {frm}" if i % 2 else f"SELECT {agg} -> ({grow('num_vals()', i // 2)}) {frm}", "num_vals")
            j = (i // 3) % 6
            fin = lambda a: (f"SELECT ({chain} -> {a})::text {frm}" if (i // 18) % 2 else f"SELECT ({agg} -> ({grow(a, i // 36 + i // 18)}))::text {frm}")
            ref = lambda a: f"SELECT ({a})::text FROM (SELECT (unnest({chain})).* {frm}) u"
            if j == 0: add(i, "sum", fin("sum()"), "sum")
            elif j == 1: add(i, "average", fin("average()"), "average")
            elif j == 2: add(i, "unnest", f"SELECT string_agg(((z.u).time, (z.u).value)::text, ';') FROM (SELECT ({chain + ' -> unnest()' if (i // 18) % 2 else agg + ' -> (' + grow('toolkit_experimental.unnest()', i // 36) + ')'}) AS u {frm}) z", "unnest")
            elif j == 3: add(i, "asof", f"SELECT string_agg(coalesce((u.z).value1::text, 'none') || '|' || (u.z).value2 || '|' || us((u.z).time), ';') FROM (SELECT ({chain}) -> asof({agg} -> sort()) AS z {frm}) u", "asof")
            else:
                a, b = {4: [("stats_agg()", "stats_agg(value)"), ("hyperloglog(64)", "hyperloglog(64, value)")], 5: [("counter_agg()", "counter_agg(time, value)"), ("percentile_agg()", "percentile_agg(value)")]}[j][(i // 36) % 2]
                add(i, a, fin(a), ("law", len(qs) + 1)); add(i, b, ref(b), None)
    sv.sql(copy_in("qs", qs) + "ANALYZE qs;")
    got = ctx.bulk("", lambda w: f"SELECT id, vtry(q) FROM qs WHERE {w}", range(len(qs)), ["r"], pre="SET search_path TO public, toolkit_experimental;\nSET timezone TO 'UTC';\nSET datestyle TO 'ISO';\n")
    ctx.traces += len(cases)
    for k, (i, what, j) in enumerate(meaning):
        if j is None: continue
        c, ans = cases[i], got.get(k, [None])[0]
        ctx.evals += 1
        if isinstance(j, tuple):
            other = got.get(j[1], [None])[0]
            if c["status"] == "refused": ok = ans is not None and ans.startswith("ERR:"); want = "an error"
            elif c["status"] == "may refuse" or c["anynull"] or not c["pts"] or (what == "counter_agg()" and any(a[0] > b[0] for a, b in zip(c["pts"], c["pts"][1:]))): continue
            else: ok, want = near(ans, other), other
            if ok: continue
            bad = (want, ans)
        else: bad = judge(c, conc[i], ans, j)
        if bad:
            ctx.violation(f"pipeline/{what}", f"{what}: {qs[k][1][:700]} over (part, time, value/2) rows {c['rows']} at {conc[i].name} gives {bad[1]}, the specification says {bad[0]}", {"case": c, "sql": qs[k][1], "conc": conc[i].name})
    ctx.nontrivial += sum(1 for c in cases if len(c["pts"]) >= 2)
    constants(ctx)
    ctx.samples += [cases[len(cases) // 2], cases[-1]]


def fname(a):
    """finalizers that take elements by a function of their own rather than by the arrow"""
    m = re.match(r"(?:finalize_with_)?(stats_agg|hyperloglog|counter_agg|percentile_agg)\(", a)
    return m.group(1) if m else None


def same(x, want):
    """text of a float against a rational or None (not a number)"""
    return math.isnan(float(x)) if want is None else feq(x, want, 1e-9, 1e-11)


def judge(c, conc, ans, j):
    if c["status"] == "refused": return None if ans is not None and ans.startswith("ERR:") else ("an error", ans)
    if c["status"] == "may refuse": return None
    want = [(norm_ts(conc.ts(t)), frac(v), n) for t, v, n in c["pts"]]
    show = str([(t, v if v is None else float(v), n) for t, v, n in want])
    if ans is not None and ans.startswith("ERR:") and not (j in ("sum", "average") and c["anynull"]): return (show, ans) if j != "asof" or c["asof"] else None
    if j == "tv":
        p = parse_tv(ans) if ans is not None else None
        if p is None: return (show, ans)
        flags, pts, nulls = p
        if len(pts) != len(want) or any(norm_ts(t) != w[0] or not same(v, w[1]) for (t, v), w in zip(pts, want)) or nulls != [w[2] for w in want]: return (show, ans)
        if flags & 1 and any(a[0] > b[0] for a, b in zip(c["pts"], c["pts"][1:])): return ("points that are not in order, not flagged as sorted", ans)
        if any(nulls) and not flags & 2: return ("NULL points and the flag that says so", ans)
        return None
    if j == "num_vals": return None if ans == str(len(want)) else (len(want), ans)
    if j in ("sum", "average"):
        if c["anynull"]: return None
        if not want: return None if ans is None or j == "sum" and float(ans) == 0 else ("NULL", ans)
        s = frac(c["sum"])
        if ans is None: return (s, ans)
        return None if same(ans, None if s is None else s if j == "sum" else s / len(want)) else (s, ans)
    if j == "unnest":
        got = re.findall(r'\("([^"]*)",([^)]*)\)', ans or "")
        return None if len(got) == len(want) and all(norm_ts(t) == w[0] and same(v, w[1]) for (t, v), w in zip(got, want)) else (show, ans)
    if j == "asof":
        if not c["asof"]: return None
        got = [x.split("|") for x in (ans or "").split(";")]
        ok = len(got) == len(c["asof"]) and all((g[0] == "none" if not has else g[0] != "none" and same(g[0], frac(v1))) and same(g[1], frac(v2)) and int(g[2]) == conc.t(t) for g, (has, v1, v2, t) in zip(got, c["asof"]))
        return None if ok else (c["asof"], ans)


def constants(ctx):
    tv = "timevector('2020-01-01 UTC'::timestamptz + i * '1 day'::interval, v ORDER BY i)"
    frm = "FROM (VALUES (1, 0.25::float8), (2, 2), (3, 8.5), (4, 1), (5, 100), (6, 1e-3)) x(i, v)"
    tests = []
    for el, fn in [("ln()", "ln(v)"), ("log10()", "log(v)"), ("logn(2)", "ln(v) / ln(2)"), ("logn(10)", "log(v)"), ("sqrt()", "sqrt(v)"), ("cbrt()", "cbrt(v)"), ("power(3)", "v * v * v"), ("power(0.5)", "sqrt(v)"), ("power(-1)", "1 / v"), ("power(0)", "1"),
                   ("abs()", "abs(v)"), ("mod(0.75)", "v - 0.75 * trunc(v / 0.75)")]:
        tests.append((f"SELECT bool_and(abs(a.v - b.w) <= 1e-9 * greatest(abs(b.w), 1e-9)) AND count(*) = 6 FROM (SELECT row_number() OVER () AS n, (u).value AS v FROM (SELECT unnest({tv} -> {el}) u {frm}) z) a JOIN (SELECT i AS n, ({fn})::float8 AS w {frm}) b USING (n)", "true"))
    sv = "timevector('2020-01-01 UTC'::timestamptz + i * '1 day'::interval, v)"
    tests += [("SELECT (timevector(NULL::timestamptz, 1) IS NULL)::text", "true"), ("SELECT timevector('2020-01-01 UTC'::timestamptz, NULL) -> num_vals()", "1"),
              (f"SELECT to_text({tv}, '{{{{TIMES | length}}}} {{{{VALUES}}}}') {frm}", "6 [0.25, 2, 8.5, 1, 100, 0.001]"),
              ("SELECT to_plotly(timevector(t, v)) FROM (VALUES ('2020-01-01 UTC'::timestamptz, 1.5::float8), ('2020-01-02 UTC'::timestamptz, NULL)) x(t, v)", '{"times": ["2020-01-01 00:00:00+00","2020-01-02 00:00:00+00"], "vals": ["1.5","null"]}'),
              ("SELECT to_text(timevector(t, v), '{{TIMEVALS}}')::jsonb FROM (VALUES ('2020-01-01 UTC'::timestamptz, 1.5::float8), ('2020-01-02 UTC'::timestamptz, -2)) x(t, v)", '[{"val": 1.5, "time": "2020-01-01 00:00:00+00"}, {"val": -2, "time": "2020-01-02 00:00:00+00"}]'),
              ("SELECT to_text(timevector(t, v), '{{VALUES}}') FROM (VALUES ('2020-01-01 UTC'::timestamptz, 'nan'::float8)) x(t, v)", "ERR"), ("SELECT to_text(timevector(t, v), '{{VALUES}}') FROM (VALUES ('2020-01-01 UTC'::timestamptz, 'inf'::float8)) x(t, v)", "ERR"),
              (f"SELECT {sv} -> map($$ $value > 1 $$) {frm}", "ERR"), (f"SELECT {sv} -> map($$ $time $$) {frm}", "ERR"), (f"SELECT {sv} -> filter($$ $value $$) {frm}", "ERR"), (f"SELECT {sv} -> filter($$ ($time, $value) $$) {frm}", "ERR"),
              (f"SELECT {sv} -> fill_to('1 day', 'wrong') {frm}", "ERR"), (f"SELECT {sv} -> fill_to('-1 day', 'locf') {frm}", "ERR"), (f"SELECT {sv} -> map_data('length(text)'::regprocedure::regproc) {frm}", "ERR"), (f"SELECT {sv} -> map_series('t3m1') {frm}", "ERR"), (f"SELECT {sv} -> map_data('tneg0') {frm}", "ERR"),
              (f"SELECT ({sv} -> NULL::UnstableTimevectorPipeline IS NULL)::text {frm}", "true"),
              (f"SELECT {tv} -> asof({tv} -> filter($$ $value > 1000 $$)) {frm}", "ERR"), (f"SELECT ({tv} -> filter($$ $value > 1000 $$)) -> asof({tv}) {frm}", "ERR"), (f"SELECT count(*) FROM (SELECT {tv} -> asof({tv} -> filter($$ $value > 99 $$)) {frm}) x", "1")]
    for sql, want in tests:
        r = ctx.server.sql("SET search_path TO public, toolkit_experimental; SET timezone TO 'UTC';\nSELECT vtry($q$" + sql.replace("$q$", "") + "$q$);").strip()
        ctx.evals += 1
        if not (r.startswith("ERR:") if want == "ERR" else r == want): ctx.violation("pipeline/const/" + sql, f"{sql} gives {r!r}, expected {want!r}", {"sql": sql})
