"""C01 partial aggregation: schedules of TwoStep.tla run on every aggregate through its transition, combine, serialize, deserialize and final functions."""
import re
from catalogue import AGGS, ROLLS
from series import PG2000, US, us_to_ts, NULL
from pg import copy_in

UNITS = [US, 250_000, 60 * US]
NUM = re.compile(r"-?(?:\d+\.?\d*(?:e[-+]?\d+)?|NaN|Infinity)")


def close(a, b, rel=1e-8):
    """equal texts up to rounding of their numbers"""
    if a == b: return True
    if a is None or b is None or a.startswith("ERR:") or b.startswith("ERR:"): return False
    x, y = NUM.findall(a), NUM.findall(b)
    if NUM.sub("#", a) != NUM.sub("#", b) or len(x) != len(y): return False
    return all(p == q or ("NaN" not in p + q and "Inf" not in p + q and abs(float(p) - float(q)) <= rel * max(abs(float(p)), abs(float(q)), 1e-2)) for p, q in zip(x, y))


def prog_text(prog):
    r = lambda p: p - 1
    return " ".join(f"t{r(a)},{b - 1}" if o == "t" else f"c{r(a)},{r(b)}" if o == "c" else f"{o}{r(a)}" for o, a, b in prog)


def widen(c, n):
    """the same behaviour with a block of n rows for each row of the specification: disjoint in time as the rows were, with values of their own"""
    d = dict(c, wide=n)
    d["rows"] = [[t * n + j, v if v == NULL else v + j * 13 % 97, (k + j * j) % 6, *rest] for t, v, k, *rest in c["rows"] for j in range(n)]
    if "prog" in c: d["prog"] = [[o, a, (b - 1) * n + j + 1] if o == "t" else [o, a, b] for o, a, b in c["prog"] for j in range(n if o == "t" else 1)]
    if "leaf" in c: d["leaf"] = [l for l in c["leaf"] for _ in range(n)]
    return d


def widened(ctx, cases, num):
    """some of the behaviours once more, wide enough to fill the buffers of the aggregates"""
    many = [c for c in cases if 4 <= len(c["rows"]) <= 24]
    return [widen(c, (9, 40, 130)[i % 3]) for i, c in enumerate(ctx.rng.sample(many, min(len(many), num)))]


def load(ctx, cases, rows_of):
    """table r from the cases; -> the time unit of each case"""
    rows, units = [], []
    for i, c in enumerate(cases):
        u = UNITS[(i + ctx.seed) % len(UNITS)]
        units.append(u)
        for s, row in enumerate(rows_of(c)):
            t, v, k = row[:3]
            rows.append((i, s, row[3] if len(row) > 3 else 0, us_to_ts(PG2000 + t * u), None if v == NULL else repr(v / 4), k))
    ctx.server.sql("CREATE UNLOGGED TABLE r(id int, seq int, g int, t timestamptz, v float8, k int);\n" + copy_in("r", rows) + "CREATE INDEX ON r(id); ANALYZE r;")
    return units


def define(ctx, name, params, body):
    """an SQL function giving text, 'ERR:..' if its body fails"""
    ctx.server.sql(f"CREATE FUNCTION {name}({params}) RETURNS text LANGUAGE plpgsql AS $f$ BEGIN RETURN ({body}); EXCEPTION WHEN OTHERS THEN RETURN 'ERR:' || replace(SQLERRM, E'\\n', ' '); END $f$;")


def direct(a, where, order="seq", src="r"):
    return f"SELECT {a.answers()} FROM (SELECT {a.call(order)} AS s FROM {src} WHERE {where} OFFSET 0) z"


def agree(a, direct, got, mayerr):
    """whether the answers of another route (got) are right, given the answers of the plain aggregate"""
    if mayerr and a.ordered and got is not None and got.startswith("ERR:"): return True
    if close(direct, got): return True
    if "hll" in a.tags and direct and got:
        # a sketch changes its representation when it grows, which depends on the order: the two estimate differently, within the error
        d, g = direct.split(" | "), got.split(" | ")
        if len(d) == len(g) == 4 and d[2] != g[2]: return abs(int(d[0]) - int(g[0])) <= max(3, 5 * float(d[1]) * int(d[0]))
    return False


def mayerr(a, c): return c["mayerr"] if a.nulls else c["mayall"]


def c01(ctx):
    inv = ("Conserve", "Refines", "NoRefusal", "Ranges", "EmitCase")
    B = {"EmitAll": "TRUE"}
    futs = [ctx.spec("TwoStep", {**B, "Sizes": "{2, 3}", "Vals": "{-2}", "Keys": "{0}", "Slots": "1..2", "MaxShips": 2, "MaxMoves": 2}, invariants=inv, workers=3),
            ctx.spec("TwoStep", {**B, "Sizes": "{1, 2}", "Vals": "{3, NULL}", "Keys": "{1}", "Slots": "1..2", "MaxShips": 1, "MaxMoves": ctx.pick(2, 3)}, invariants=inv, workers=2),
            ctx.spec("TwoStep", {**B, "Sizes": "3..12", "Vals": "{NULL} \\cup -6..9", "Keys": "0..5", "Slots": "1..3", "MaxShips": 4, "MaxMoves": 9}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(700, 9000), depth=80, workers=1),
            ctx.spec("TwoStep", {**B, "Sizes": "10..20", "Vals": "{NULL} \\cup 0..30", "Keys": "0..5", "Slots": "1..5", "MaxShips": 8, "MaxMoves": 12}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(250, 4000), depth=120, workers=1),
            ctx.spec("TwoStep", {**B, "Sizes": "30..60", "Vals": "{NULL} \\cup -90..90", "Keys": "0..5", "Slots": "1..4", "MaxShips": 6, "MaxMoves": 9}, invariants=("Conserve", "EmitCase"), spec="SpecRandom", simulate=ctx.pick(60, 900), depth=180, workers=1)]
    sv = ctx.start()
    cases = []
    for k, f in enumerate(futs):
        cs = ctx.take(f)
        cases += ctx.rng.sample(cs, min(len(cs), ctx.pick(600, 12000))) if k < 2 else cs
    cases += widened(ctx, cases, ctx.pick(18, 240))
    ctx.rng.shuffle(cases)
    units = load(ctx, cases, lambda c: c["rows"])
    sv.sql("CREATE UNLOGGED TABLE p(id int primary key, prog text);\n" + copy_in("p", [(i, prog_text(c["prog"])) for i, c in enumerate(cases)]) + "ANALYZE p;")
    aggs = AGGS + ROLLS
    for j, a in enumerate(aggs):
        define(ctx, f"d{j}", "i int", direct(a, "id = i"))
        arr = f"(SELECT array_agg(u.x ORDER BY r.seq, u.o) FROM r, LATERAL unnest(ARRAY[{', '.join(f'({x})::text' for x in a.args)}]) WITH ORDINALITY u(x, o) WHERE r.id = i)"
        define(ctx, f"s{j}", "i int, pr text", f"SELECT {a.answers()} FROM (SELECT vd('{a.sig}', '{{{','.join(a.argtypes)}}}', pr, {arr}, NULL::{a.ret}) AS s OFFSET 0) z")
    step = ctx.pick(9, 3)
    refused = 0
    for j, a in enumerate(aggs):
        ids = [i for i in range(len(cases)) if (i + j) % step == 0 or "wide" in cases[i]]
        got = ctx.bulk("", lambda w: f"SELECT id, d{j}(id), s{j}(id, prog) FROM p WHERE {w}", ids, ["direct", "schedule"], shards=8)
        for i in ids:
            c, (d, s) = cases[i], got.get(i, [None, None])
            ctx.traces += 1; ctx.evals += len(a.ans)
            if len(c["rows"]) > 1: ctx.nontrivial += 1
            if s is not None and s.startswith("ERR:") and mayerr(a, c) and a.ordered: refused += 1
            if d is not None and d.startswith("ERR:"): bad = "the aggregate itself fails"
            elif not agree(a, d, s, mayerr(a, c)): bad = "the schedule gives another answer"
            else: continue
            ctx.violation(f"twostep/{a.name}", f"{a.name} over (time, value*4, key) rows {str(c['rows'])[:3000]} with schedule '{prog_text(c['prog'])[:3000]}': {bad}: a single pass answers {d}, the schedule {s}",
                          {"case": c, "agg": a.sig, "prog": prog_text(c["prog"]), "unit": units[i]})
    ctx.extra["refused_interleaved_parts"] = refused
    parallel(ctx)
    ctx.samples += [cases[0], cases[len(cases) // 2]]


def parallel(ctx):
    """the same through PostgreSQL's own parallel plans: one large table, workers that each see some of the rows"""
    sv = ctx.server
    sv.sql("CREATE TABLE big AS SELECT i AS id, i AS seq, '2000-01-01 UTC'::timestamptz + i * interval '1 second' AS t, ((i * 37) % 101)::float8 / 4 AS v, i % 6 AS k, (i * 7) % 3 AS g FROM generate_series(1, 6000) i;\nALTER TABLE big SET (parallel_workers = 3); ANALYZE big;")
    on = "SET parallel_setup_cost = 0; SET parallel_tuple_cost = 0; SET min_parallel_table_scan_size = 0; SET max_parallel_workers_per_gather = 3; SET enable_sort = on;"
    off = "SET max_parallel_workers_per_gather = 0;"
    used = 0
    for a in AGGS:
        # time-ordered aggregates cannot take interleaved parts; the digests answer within bounds only
        if a.ordered or "digest" in a.tags: continue
        ans = [x for x in a.ans]
        q = f"SELECT {a.answers()} FROM (SELECT {a.call(None)} AS s FROM big OFFSET 0) z"
        plan = sv.sql(on + "EXPLAIN " + q)
        r1, r2 = sv.try_sql(on + q), sv.try_sql(off + q)
        ctx.evals += len(ans)
        if "Partial Aggregate" in plan: used += 1
        if r1[0] or r2[0] or not agree(a, r2[1].strip(), r1[1].strip(), False):
            ctx.violation(f"parallel/{a.name}", f"{a.name} over 6000 rows answers {r2[1].strip()[:200] or r2[2][:200]} serially and {r1[1].strip()[:200] or r1[2][:200]} with parallel workers", {"sql": q})
    ctx.extra["parallel_plans"] = used
