"""C23 to_text / to_plotly: vectors of Render.tla are rendered, and the text is read back."""
import json, math, struct
from series import us_to_ts, US
from pg import copy_in

BASE = 1577836800 * US
HUGE = ["NaN", "Infinity", "-Infinity"]
NUMS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 5e-324, 123456789.123456789, 1 / 3, 1e21, 1e-7, 2.0 ** 53, -1.7976931348623157e308, 1e16, 100.0]
TPL = ["{{ TIMEVALS }}", '{"times": {{ TIMES | json_encode() | safe }}, "vals": {{ VALUES | json_encode() | safe }}}', "{{ TIMES }}|{{ VALUES }}",
       "{% for v in VALUES %}{{ TIMES[loop.index0] }}={{ v }};{% endfor %}", "{{ VALUES | length }} {{ TIMES | length }}"]
BAD = ["{{ TIMES", "{{ NOTHING }}", "{% for x in TIMES %}{{ x }}", "{{ TIMES | nofilter }}"]


def same(text, x):
    """text denotes exactly the float x"""
    try: return struct.pack(">d", float(text)) == struct.pack(">d", x)
    except ValueError: return False


def c23(ctx):
    inv = ("RoundTrip", "NeverHuge", "EmitCase")
    futs = [ctx.spec("Render", {"Times": "1..2", "Vals": "0..1", "MaxPoints": 3}, invariants=inv, workers=2),
            ctx.spec("Render", {"Times": "0..40", "Vals": "0..15", "MaxPoints": 9}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(4000, 30000), depth=24, workers=2),
            ctx.spec("Render", {"Times": "0..400", "Vals": "0..15", "MaxPoints": 70}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(800, 8000), depth=150, workers=2)]
    ctx.start()
    cases = []
    for n, f in enumerate(futs):
        cs = ctx.take(f)
        ref = [c for c in cs if c["refused"]]
        cs = [c for c in cs if not c["refused"]]
        cases += ctx.rng.sample(cs, min(len(cs), ctx.pick(900, 20000))) + ctx.rng.sample(ref, min(len(ref), ctx.pick(250, 3000)))
    # long random behaviours nearly always hold a refused value: the same vectors without it are vectors too
    for c in [c for c in cases if c["refused"]][-ctx.pick(200, 2000):]: cases.append({"vec": [p for p in c["vec"] if p[1] != -2], "refused": False})
    rows, pts = [], {}
    for i, c in enumerate(cases):
        sp = [1, 7, 1000003, 3600 * US + 1][(i + ctx.seed) % 4]
        pts[i] = []
        for n, (t, v) in enumerate(c["vec"]):
            ts = BASE + t * sp - (10 ** 15 if i % 5 == 0 else 0)
            x = None if v == -1 else HUGE[(i + n) % 3] if v == -2 else NUMS[(v + i) % len(NUMS)]
            pts[i].append((ts, x))
            rows.append((i, n, us_to_ts(ts), x if x is None or isinstance(x, str) else repr(x)))
    zones = ["UTC", "America/St_Johns", "Asia/Kathmandu", "Europe/Berlin"]
    ctx.server.sql("CREATE UNLOGGED TABLE pts(id int, n int, t timestamptz, v float8);\n" + copy_in("pts", rows) + "CREATE UNLOGGED TABLE vs AS SELECT id, timevector(t, v ORDER BY n) AS tv FROM pts GROUP BY id;\nCREATE INDEX ON pts(id); ANALYZE;")
    ids = [i for i in range(len(cases)) if pts[i]]
    q = lambda i: (["to_plotly(tv)"] + [f"to_text(tv, $t${t}$t$)" for t in TPL])
    for z in zones:
        part = [i for i in ids if i % len(zones) == zones.index(z)]
        pre = f"SET search_path TO public, toolkit_experimental; SET timezone TO '{z}';"
        sel = lambda w: f"SELECT id, " + ", ".join(q(0)) + ", (SELECT array_to_json(array_agg(t::text ORDER BY n)) FROM pts WHERE pts.id = vs.id) FROM vs WHERE " + w
        ok = [i for i in part if not cases[i]["refused"]]
        got = ctx.bulk("", sel, ok, ["r"] * 7, pre=pre)
        for i in ok:
            g = got.get(i)
            ctx.evals += len(TPL) + 1
            bad = judge(pts[i], g)
            if bad: ctx.violation(bad[0], f"in {z}, {bad[0]} of {[(us_to_ts(t), v) for t, v in pts[i]]} gives {bad[2]}, expected {bad[1]}", {"points": pts[i], "zone": z})
        ref = [i for i in part if cases[i]["refused"]]
        lst = []
        for i in ref:
            f = q(i)[i // 4 % len(q(i))]
            lst.append((len(lst), f"SELECT {f} FROM vs WHERE id = {i}", i))
        ctx.server.sql("DROP TABLE IF EXISTS qs; CREATE UNLOGGED TABLE qs(id int primary key, q text);\n" + copy_in("qs", [(a, b) for a, b, _ in lst]))
        got = ctx.bulk("", lambda w: f"SELECT id, vtry(q) FROM qs WHERE {w}", range(len(lst)), ["r"], pre=pre)
        for a, b, i in lst:
            ctx.evals += 1
            r = got.get(a, [None])[0]
            if r is None or not r.startswith("ERR:") or "finite" not in r: ctx.violation("refuse", f"{b}: values that are not finite give {r}, expected an error that says so", {"points": pts[i]})
    for t in BAD:
        rc, o, e = ctx.server.try_sql(f"SELECT toolkit_experimental.to_text((SELECT tv FROM vs WHERE id = {ids[0]}), $t${t}$t$)")
        ctx.evals += 1
        if rc == 0: ctx.violation("bad template", f"template {t} is accepted: {o}", {"template": t})
        ctx.await_server()
    ctx.traces += len(cases)
    ctx.nontrivial = sum(len(c["vec"]) > 1 for c in cases)
    ctx.extra["refused"] = sum(c["refused"] for c in cases)
    ctx.samples += [cases[0], cases[-1]]


def judge(p, g):
    if g is None: return ("to_plotly", "an answer", None)
    bad = next((x for x in g if x is None or x.startswith("ERR:")), None)
    if bad is not None or len(g) != 7: return ("rendering", "an answer", g[0])
    times = json.loads(g[6])
    vals = [v for _, v in p]
    fits = lambda x, v: x == "null" if v is None else same(x, v)
    for k in (0, 2):
        what = ["to_plotly", "", "to_text " + TPL[1]][k]
        try: j = json.loads(g[k])
        except ValueError: return (what, "JSON", g[k])
        if j["times"] != times or len(j["vals"]) != len(vals) or not all(map(fits, j["vals"], vals)) or set(j) != {"times", "vals"}: return (what, str((times, vals)), g[k])
    try: j = json.loads(g[1], parse_float=str, parse_int=str)
    except ValueError: return ("to_text TIMEVALS", "JSON", g[1])
    if [x["time"] for x in j] != times or not all(fits("null" if x["val"] is None else x["val"], v) for x, v in zip(j, vals)): return ("to_text TIMEVALS", str((times, vals)), g[1])
    a, _, b = g[3].partition("|")
    if a != "[" + ", ".join(times) + "]" or not all(map(fits, b[1:-1].split(", "), vals)) or b[1:-1].count(",") != len(vals) - 1: return ("to_text " + TPL[2], str((times, vals)), g[3])
    ps = [x.split("=") for x in g[4].split(";")[:-1]]
    if [x[0] for x in ps] != times or not all(fits(x[1], v) for x, v in zip(ps, vals)): return ("to_text " + TPL[3], str((times, vals)), g[4])
    if g[5] != f"{len(p)} {len(p)}": return ("to_text " + TPL[4], len(p), g[5])
    return None
