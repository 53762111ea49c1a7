"""C13 freq_agg / mcv_agg / count_min_sketch: behaviours of Freq.tla replayed as queries (Cms.tla: the sketch under every hash function)."""
import json, math
from core import feq
from pg import copy_in

X = "toolkit_experimental."
# concrete values of the abstract ones, per SQL type
WORDS = ["", "a", "A", "ä", "a b", 'q"uote', "back\\slash", "new\nline", "it's", "comma,", "(paren)", "[x]", "日本", "NULL", "23", "0", "tab\there", "é", "x" * 300, "{}"]
CLASSES = {
    # name: (sql type, value of i, freq function, mcv function, raw?)
    "bigint": ("bigint", lambda v, k: str((v - 3) * [1, 7_000_000_000, 281474976710656][k % 3]), X + "freq_agg", "mcv_agg", False),
    "text": ("text", lambda v, k: WORDS[(v + k) % len(WORDS)] if v < 20 else f"{WORDS[(v + k) % len(WORDS)]}#{v}", X + "freq_agg", "mcv_agg", False),
    "float": ("float8", lambda v, k: repr([v * 0.1, float(v) - 2, v * 1e300][k % 3]), X + "raw_freq_agg", "raw_mcv_agg", True),
    "rawtext": ("text", lambda v, k: WORDS[(v + k) % len(WORDS)] if v < 20 else f"w{v}", X + "raw_freq_agg", "raw_mcv_agg", True),
    "time": ("timestamptz", lambda v, k: f"2020-01-{1 + v % 28:02d} {(v // 28) % 24:02d}:00:0{k % 7}.5+00", X + "raw_freq_agg", "raw_mcv_agg", True),
    "numeric": ("numeric", lambda v, k: f"{v}.{k % 5}01", X + "raw_freq_agg", "raw_mcv_agg", True)}

SAMPLE = {"float8": "0", "text": "''", "timestamptz": "'2020-01-01'", "numeric": "1"}


def zeta(s):
    n = 2000
    return math.fsum(i ** -s for i in range(1, n)) + n ** (1 - s) / (s - 1) + 0.5 * n ** -s + s * n ** (-s - 1) / 12


def le_n(s, n): return math.fsum(i ** -s for i in range(1, n + 1)) / zeta(s)


def mcv_sizes():
    """size -> [(n, skew)] of the mcv_aggs with that many counters: enough for the n-th of a zeta distribution"""
    out = {}
    for n in range(1, 8):
        for s in (1.1, 1.2, 1.3, 1.5, 1.7, 2.0, 2.5, 3.0, 4.0):
            x = (1 - (le_n(s, n - 1) if n > 1 else 0)) / (n ** -s / zeta(s))
            if abs(x - round(x)) > 1e-6: out.setdefault(n - 1 + int(x) + 1, []).append((n, s))
    return out


def c13(ctx):
    inv = ("Refines", "EmitCase")
    cms_fut = ctx.spec("Cms", {"Values": "1..3", "W": 2, "D": 2, "MaxRows": ctx.pick(3, 5)}, invariants=("Refines",), workers=2)
    futs = [ctx.spec("Freq", {"Values": "1..3", "Copies": "{1, 2}", "Groups": "1..2", "Sizes": "{2, 3}", "MaxRows": 3, "WithNull": "FALSE", "EmitAll": "TRUE"}, invariants=inv, workers=2),
            ctx.spec("Freq", {"Values": "1..7", "Copies": "{1, 2, 3}", "Groups": "1..3", "Sizes": "{2, 3, 4, 5, 6}", "MaxRows": 14, "WithNull": "TRUE", "EmitAll": "FALSE"}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(700, 8000), depth=16, workers=2),
            ctx.spec("Freq", {"Values": "1..14", "Copies": "1..4", "Groups": "1..4", "Sizes": "{3, 4, 6, 8, 11}", "MaxRows": 30, "WithNull": "TRUE", "EmitAll": "FALSE"}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(150, 2500), depth=32, workers=2),
            ctx.spec("Freq", {"Values": "1..60", "Copies": "1..6", "Groups": "1..5", "Sizes": "{2, 4, 11, 21, 40, 70}", "MaxRows": 70, "WithNull": "TRUE", "EmitAll": "FALSE"}, invariants=("EmitCase",), spec="SpecRandom", simulate=ctx.pick(120, 1500), depth=74, workers=1)]
    ctx.start()
    cases = []
    for f in futs: cases += ctx.take(f)
    ctx.take(cms_fut)
    if not ctx.thorough() and len(cases) > 2200: cases = ctx.rng.sample(cases, 2200)
    mcv = mcv_sizes()
    names = list(CLASSES)
    cls, par, conc, rows, pr, ms = {}, {}, {}, [], [], []
    for i, c in enumerate(cases):
        k = i + ctx.seed
        cls[i] = names[k % len(names)] if k % 3 else names[(k // 3) % 2]
        ty, val, _, _, _ = CLASSES[cls[i]]
        opts = mcv.get(c["size"], [])
        par[i] = ("mcv", *ctx.rng.choice(opts)) if opts and ctx.rng.random() < 0.6 else ("freq", 1 / (c["size"] - 0.5) if ctx.rng.random() < 0.7 else 1 / (c["size"] - 1), 0)
        if par[i][0] == "freq" and not 0 < par[i][1] < 1: par[i] = ("freq", 1 / (c["size"] - 0.5), 0)
        conc[i] = {v: val(v, i) for v in {x[1] for x in c["cnt"]} | {61, 62}}
        assert len(set(conc[i].values())) == len(conc[i])
        s = 0
        stream = [(g, v) for g, v, n in c["rows"] for _ in range(n)]
        for g, v in stream:
            rows.append((i, s, g, None if v == -99 else conc[i][v]))
            s += 1
        for v, t in conc[i].items(): pr.append((i, v, t))
        ms.append((i, par[i][1], repr(float(par[i][2]))))
    ctx.server.sql("CREATE UNLOGGED TABLE r(id int, seq int, g int, v text);\nCREATE UNLOGGED TABLE m(id int primary key, p float8, skew float8);\nCREATE UNLOGGED TABLE pr(id int, k int, v text);\n"
                   + copy_in("r", rows) + copy_in("m", ms) + copy_in("pr", pr) + "CREATE INDEX ON r(id); CREATE INDEX ON pr(id); ANALYZE r; ANALYZE m; ANALYZE pr;")
    ctx.partial("rp", "SELECT r.*, p, skew FROM r JOIN m USING (id) ORDER BY seq")
    cols = ["list", "alist", "probe", "top"]
    for name in names:
        ty, _, ff, mf, raw = CLASSES[name]
        kind, akind = (f", NULL::{ty}", f", {SAMPLE[ty]}::{ty}") if raw else ("", "")
        for which in ("freq", "mcv"):
            ids = [i for i in cls if cls[i] == name and par[i][0] == which]
            if not ids: continue
            # feed(x): the aggregate over rows in the order x
            call = (lambda o: f"{ff}(p, v::{ty} {o})") if which == "freq" else (lambda o: f"{mf}(p::int, skew, v::{ty} {o})")
            src = "FROM r JOIN m USING (id) WHERE {w}"
            ctx.note_plan(f"SELECT id, {call('')} AS s FROM rp GROUP BY id")
            routes = {"in order": f"SELECT id, {call('ORDER BY seq')} AS s {src} GROUP BY id", "backwards": f"SELECT id, {call('ORDER BY seq DESC')} AS s {src} GROUP BY id", "shuffled": f"SELECT id, {call('ORDER BY md5(seq::text || id)')} AS s {src} GROUP BY id",
                      "rollup": f"SELECT id, rollup(s ORDER BY g) AS s FROM (SELECT id, g, {call('ORDER BY seq')} AS s {src} GROUP BY id, g) q GROUP BY id",
                      "nested rollup": f"SELECT id, rollup(s ORDER BY c) AS s FROM (SELECT id, g % 2 AS c, rollup(s ORDER BY g DESC) AS s FROM (SELECT id, g, {call('ORDER BY seq DESC')} AS s {src} GROUP BY id, g) q GROUP BY id, g % 2) q2 GROUP BY id",
                      "partial states": f"SELECT id, {call('')} AS s FROM rp WHERE {{w}} GROUP BY id"}
            for rname, inner in routes.items():
                tbl = f"a_{name}_{which}_{rname.replace(' ', '')}"
                ctx.server.sql(f"CREATE UNLOGGED TABLE {tbl} AS {inner.replace('{w}', 'false')};")
                bad = ctx.fill(tbl, lambda w: inner.replace("{w}", w), "id", ids, shards=4, pre=ctx.PARTIAL)
                for i, e in bad: ctx.violation(f"freq/{rname}/error", f"{name} {par[i]} {rname} over (group, value, copies) rows {cases[i]['rows']} fails: {e}", {"case": cases[i]})
                ctx.server.sql(f"CREATE INDEX ON {tbl}(id);")
                arr = "NULL" if raw else "(SELECT json_agg(json_build_array((x.r).value::text, (x.r).min_freq, (x.r).max_freq)) FROM (SELECT s -> into_values() AS r) x)"
                pf = f"(SELECT json_agg(json_build_array(k, min_frequency(s, v::{ty}), max_frequency(s, v::{ty}))) FROM pr WHERE pr.id = q.id)"
                if ty == "bigint" and not raw: pf = pf.replace(f"max_frequency(s, v::{ty})", "max_frequency(s, v::bigint), s -> min_frequency(v::bigint), s -> max_frequency(v::bigint)")
                tops = ", ".join(f"vtry(format('SELECT array_to_json(array(SELECT topn(s, {k}{kind})::text)) FROM {tbl} WHERE id = %s', id))" for k in (1, 2, 3, 100))
                tops += f", vtry(format('SELECT array_to_json(array(SELECT topn(s{kind})::text)) FROM {tbl} WHERE id = %s', id))"
                if not raw: tops += f", vtry(format('SELECT array_to_json(array(SELECT (s -> topn(2))::text)) FROM {tbl} WHERE id = %s', id)), vtry(format('SELECT array_to_json(array(SELECT (s -> topn())::text)) FROM {tbl} WHERE id = %s', id))"
                got = ctx.bulk("", lambda w: f"SELECT id, (SELECT json_agg(json_build_array(value::text, min_freq, max_freq) ORDER BY o) FROM into_values(s{akind}) WITH ORDINALITY t(value, min_freq, max_freq, o)), {arr}, {pf}, array_to_json(ARRAY[{tops}]) FROM {tbl} q WHERE {w}", ids, cols, shards=5)
                skip = {i for i, _ in bad}
                for i in ids:
                    if i in skip: continue
                    c = cases[i]
                    ctx.traces += 1; ctx.evals += 6 + 3 * len(conc[i])
                    if c["n"] > 2: ctx.nontrivial += 1
                    v = judge(c, conc[i], par[i], raw, ty, dict(zip(cols, got[i])) if i in got else None)
                    if v: ctx.violation(f"freq/{which}/{rname}/{v[0]}", f"{name} {par[i]} ({c['size']} counters), {rname}, over (group, value, copies) rows {c['rows']}: {v[0]} is {v[2]}, the specification says {v[1]}", {"case": c, "values": conc[i], "sql": inner, "param": par[i]})
    cms(ctx, cases, conc, cls)
    for sql, want in [(f"SELECT {X}freq_agg(0, 1::bigint)", "ERR"), (f"SELECT {X}freq_agg(1, 1::bigint)", "ERR"), (f"SELECT {X}freq_agg(-0.5, 'a'::text)", "ERR"), ("SELECT mcv_agg(0, 1::bigint)", "ERR"), ("SELECT mcv_agg(-3, 'x'::text)", "ERR"),
                      ("SELECT mcv_agg(3, 1.0, 1::bigint)", "ERR"), ("SELECT mcv_agg(3, 0.5, 'x'::text)", "ERR"), ("SELECT (mcv_agg(3, NULL::bigint) IS NULL)::text", "true"), (f"SELECT ({X}freq_agg(0.1, NULL::text) IS NULL)::text", "true"),
                      ("SELECT (rollup(NULL::spacesavingbigintaggregate) IS NULL)::text", "true"), ("SELECT (rollup(NULL::spacesavingtextaggregate) IS NULL)::text", "true"),
                      ("SELECT max_frequency(rollup(a), 1) FROM (SELECT NULL::spacesavingbigintaggregate a UNION ALL (SELECT mcv_agg(3, 2.0, 1::bigint))) v(a)", "1"),
                      ("SELECT topn(mcv_agg(3, 1.5, x), -1) FROM generate_series(1, 3) x", "ERR"), (f"SELECT topn({X}freq_agg(0.2, x), -1) FROM generate_series(1, 3) x", "ERR"), ("SELECT topn(mcv_agg(3, 1.5, x::text), -2147483648) FROM generate_series(1, 3) x", "ERR"),
                      ("SELECT topn(mcv_agg(2, 1.5, x), 3) FROM generate_series(1, 3) x", "ERR"), (f"SELECT topn({X}freq_agg(0.2, x)) FROM generate_series(1, 3) x", "ERR"),
                      ("SELECT string_agg(t::text, ',') FROM (SELECT topn(mcv_agg(1, 3.0, x)) FROM (SELECT 1::bigint x FROM generate_series(1, 83) UNION ALL SELECT 2) q) y(t)", "1"),
                      ("SELECT string_agg(t::text, ',') FROM (SELECT topn(mcv_agg(1, 2.0, x)) FROM (SELECT 5::bigint x FROM generate_series(1, 80) UNION ALL SELECT generate_series(6, 9)) q) y(t)", "5"),
                      (f"SELECT (SELECT count(*) FROM into_values(mcv_agg(5, x))) >= 50 FROM generate_series(1, 1000) x", "t"),
                      ("SELECT max_frequency(raw_mcv_agg(3, 1.5, 1.5::float8), 'a'::text)", "ERR|0"), ("SELECT count(*) FROM (SELECT into_values(raw_mcv_agg(3, 1.5, 1.5::float8), 0::int)) q", "ERR"), ("SELECT topn(raw_mcv_agg(3, 1.5, 1.5::float8), 1, NULL::text)", "ERR"),
                      (f"SELECT ({X}count_min_sketch(NULL, 0.1, 0.1) IS NULL)::text", "true"), (f"SELECT {X}count_min_sketch('a', 0, 0.1)", "ERR"), (f"SELECT {X}count_min_sketch('a', 0.1, 1)", "ERR"), (f"SELECT {X}count_min_sketch('a', 1.5, 0.1)", "ERR")]:
        r = ctx.server.sql("SELECT vtry($q$" + sql + "$q$);").strip()
        ctx.evals += 1
        ok = (r.startswith("ERR:") or ("|" in want and r in want.split("|"))) if want.startswith("ERR") else r in (want, {"t": "true"}.get(want))
        if not ok: ctx.violation("freq/const/" + sql, f"{sql} gives {r!r}, expected {want!r}", {"sql": sql})
    ctx.samples += [cases[len(cases) // 3], cases[-1]]


def same(ty, a, b):
    if ty == "float8": return float(a) == float(b)
    if ty == "timestamptz": return a.replace("T", " ").split(".")[0].split("+")[0] == b.split(".")[0].split("+")[0]
    return a == b


def judge(c, conc, par, raw, ty, g):
    if g is None: return ("row", "a row", None)
    n = c["n"]
    if n == 0:
        return None if g["list"] is None and (g["probe"] is None or all(x[1] is None and x[2] is None for x in json.loads(g["probe"]))) else ("aggregate", "NULL", g["list"])
    if g["list"] is None or g["list"].startswith("ERR:"): return ("into_values", "a list", g["list"])
    back = lambda t: next((v for v, x in conc.items() if same(ty, t, x)), None)
    lst = [(back(t), lo, hi) for t, lo, hi in json.loads(g["list"])]
    true = {v: k for k, v in c["cnt"]}
    if not raw:
        al = [(back(t), lo, hi) for t, lo, hi in json.loads(g["alist"])]
        if al != lst: return ("-> into_values()", lst, al)
    if len(lst) > c["size"] or len({x[0] for x in lst}) != len(lst): return ("into_values", f"at most {c['size']} different values", lst)
    eps = 1e-9
    for v, lo, hi in lst:
        if v not in true: return ("into_values", f"only fed values", (v, g["list"]))
        t = true[v] / n
        if not lo - eps <= t <= hi + eps: return (f"frequency of value {v}", f"bracketing {true[v]}/{n}", (lo, hi))
        if c["exact"] and not (abs(lo - t) < eps and abs(hi - t) < eps): return (f"frequency of value {v}", f"exactly {true[v]}/{n}", (lo, hi))
    if any(a[2] < b[2] - eps for a, b in zip(lst, lst[1:])): return ("into_values", "in descending order of frequency", lst)
    listed = {v: (lo, hi) for v, lo, hi in lst}
    miss = [v for v in c["must"] if v not in listed]
    if miss: return ("into_values", f"a list with the frequent values {c['must']}", [x[0] for x in lst])
    if c["exact"] and len(lst) != len(true): return ("into_values", f"all of {sorted(true)}", [x[0] for x in lst])
    for v, lo, hi, *arrow in json.loads(g["probe"]):
        if arrow and arrow != [lo, hi]: return (f"-> min_frequency()/max_frequency() of value {v}", (lo, hi), arrow)
        w = listed.get(v, (0, 0))
        if abs(lo - w[0]) > eps or abs(hi - w[1]) > eps: return (f"min_frequency/max_frequency of value {v}", w, (lo, hi))
    top = json.loads(g["top"])
    ks = [1, 2, 3, 100, None] + ([] if raw else [2, None])
    for k, t in zip(ks, top):
        lab = f"topn({k})"
        if par[0] == "freq":
            if k is None:
                if not t.startswith("ERR:"): return (lab, "an error: a freq_agg has no default n", t)
                continue
            want = [v for v, lo, hi in lst if hi >= par[1] - (1e-12 if hi * n != round(hi * n) else 0)][:k]
        else:
            kk = par[1] if k is None else k
            x = le_n(par[2], kk) * n if kk <= par[1] else 0
            have = round(sum(hi for _, _, hi in lst[:kk]) * n)
            if abs(x - round(x)) < 1e-6 and kk <= par[1]: continue
            if kk > par[1] or have < math.ceil(x):
                if not t.startswith("ERR:"): return (lab, f"a refusal (n {par[1]}, skew {par[2]}, the top {kk} hold {have} of {n})", t)
                continue
            want = [v for v, lo, hi in lst][:kk]
        if t is None or t.startswith("ERR:"): return (lab, want, t)
        gotv = [back(x) for x in json.loads(t)]
        if gotv != want: return (lab, want, gotv)
    return None


def cms(ctx, cases, conc, cls):
    """count_min_sketch over the same streams"""
    params = [(0.01, 0.01), (0.1, 0.05), (0.5, 0.5), (0.9, 0.9), (0.02, 0.001)]
    ids = [i for i in range(len(cases)) if cls[i] in ("text", "bigint")]
    ctx.server.sql("CREATE UNLOGGED TABLE cp(id int primary key, e float8, d float8);" + copy_in("cp", [(i, *params[i % len(params)]) for i in ids]))
    S = f"{X}count_min_sketch(v, e, d"
    routes = {"count_min_sketch": f"SELECT id, {S} ORDER BY seq) AS s FROM r JOIN cp USING (id) WHERE {{w}} GROUP BY id",
              "count_min_sketch, combined": f"""SELECT id, vd('{X}count_min_sketch(text,double precision,double precision)', '{{text,float8,float8}}',
                     (SELECT string_agg('t' || (j % 3) || ',' || j, ' ' ORDER BY j) FROM generate_series(0, n - 1) j) || ' s1 c1,0 c2,1 f2', arr, NULL::{X}countminsketch) AS s
                     FROM (SELECT id, count(*)::int / 3 AS n, array_agg(x ORDER BY seq, o) AS arr FROM (SELECT id, seq, v, e::text AS e, d::text AS d FROM r JOIN cp USING (id) WHERE {{w}}) q, LATERAL unnest(ARRAY[v, e, d]) WITH ORDINALITY AS u(x, o) GROUP BY id) z"""}
    err = {}
    for name, inner in routes.items():
        got = ctx.bulk("", lambda w: f"SELECT q.id, (SELECT json_agg(json_build_array(k, {X}approx_count(v, s))) FROM pr WHERE pr.id = q.id) FROM ({inner.replace('{w}', w)}) q", ids, ["est"])
        for i in ids:
            c = cases[i]
            ctx.traces += 1; ctx.evals += len(conc[i])
            true = {v: k for k, v in c["cnt"]}
            g = got.get(i, [None])[0]
            bad = None
            if c["n"] == 0:
                if g is None or any(x[1] is not None for x in json.loads(g)): bad = ("NULL", g)
            elif g is None or g.startswith("ERR:"): bad = ("estimates", g)
            else:
                e, d = params[i % len(params)]
                for v, x in json.loads(g):
                    t = true.get(v, 0)
                    if x is None or not t <= x <= c["n"]: bad = (f"between {t} and {c['n']} for value {v}", x); break
                    if len(true) == 1 and v in true and x != t: bad = (f"exactly {t}: no other value was fed", x); break
                    z = err.setdefault((name, e, d), [0, 0])
                    z[1] += 1
                    if x > t + e * c["n"]: z[0] += 1
            if bad: ctx.violation(f"cms/{name}", f"{name} with parameters {params[i % len(params)]} over {c['rows']}: the estimate is {bad[1]}, the specification says {bad[0]}", {"case": c, "values": conc[i]})
    for (name, e, d), (k, n) in err.items():
        # the error guarantee: an estimate is off by more than error * rows with at most the given probability
        if k > d * n + 3 * math.sqrt(d * n) + 3: ctx.violation(f"cms/{name}/error", f"{name} with error {e} and probability {d}: {k} of {n} estimates are off by more than error * rows", {"params": [e, d]})
    ctx.extra["count_min_sketch_errors"] = {f"{n}/{e}/{d}": v for (n, e, d), v in err.items()}
