"""C02 rollups: trees of RollTree.tla built with GROUP BY and rollup(), compared with one aggregate over all the rows."""
from catalogue import AGGS, PLAIN, Agg, BYNAME
from c01 import load, define, direct, agree, widened
from pg import copy_in


def c02(ctx):
    inv = ("Partition", "Refines", "Whole", "Apart", "EmitCase")
    B = {"EmitAll": "TRUE"}
    futs = [ctx.spec("RollTree", {**B, "Sizes": "1..3", "Vals": "{-2, 3}", "Keys": "{0}", "MaxLeaves": 3, "MaxLevels": 2, "MaxNulls": 0}, invariants=inv, workers=3),
            ctx.spec("RollTree", {**B, "Sizes": "0..2", "Vals": "{3, NULL}", "Keys": "{1, 2}", "MaxLeaves": 2, "MaxLevels": 2, "MaxNulls": 1}, invariants=inv + ("SumLaws",), workers=2),
            ctx.spec("RollTree", {**B, "Sizes": "3..12", "Vals": "{NULL} \\cup -6..9", "Keys": "0..5", "MaxLeaves": 8, "MaxLevels": 3, "MaxNulls": 2}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(600, 9000), depth=60, workers=1),
            ctx.spec("RollTree", {**B, "Sizes": "10..24", "Vals": "{NULL} \\cup 0..30", "Keys": "0..5", "MaxLeaves": 12, "MaxLevels": 3, "MaxNulls": 3}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(250, 4000), depth=80, workers=1),
            ctx.spec("RollTree", {**B, "Sizes": "30..60", "Vals": "{NULL} \\cup -90..90", "Keys": "0..5", "MaxLeaves": 9, "MaxLevels": 3, "MaxNulls": 1}, invariants=("EmitCase",), spec="SpecRandom", simulate=ctx.pick(60, 900), depth=120, workers=1)]
    sv = ctx.start()
    cases = []
    for k, f in enumerate(futs):
        cs = ctx.take(f)
        cases += ctx.rng.sample(cs, min(len(cs), ctx.pick(700, 15000))) if k < 2 else cs
    cases += widened(ctx, cases, ctx.pick(18, 240))
    ctx.rng.shuffle(cases)
    units = load(ctx, cases, lambda c: [[*r, c["leaf"][i]] for i, r in enumerate(c["rows"])])
    tree = [(i, l + 1, k + 1, p, c["levels"][l]["ord"][k]) for i, c in enumerate(cases) for l in range(len(c["levels"])) for k, p in enumerate(c["levels"][l]["par"])]
    sv.sql("CREATE UNLOGGED TABLE tr(id int, lvl int, node int, par int, ord int);\nCREATE UNLOGGED TABLE c(id int primary key, depth int);\n" + copy_in("tr", tree) + copy_in("c", [(i, len(c["levels"])) for i, c in enumerate(cases)]) + "CREATE INDEX ON tr(id, lvl); ANALYZE tr; ANALYZE c;")
    aggs = [a for a in AGGS + PLAIN if a.rollup]
    # stats_agg also rolls up with rolling()
    for n in ("stats_agg", "stats_agg 2D"):
        b = BYNAME[n]
        aggs.append(Agg(f"{n} with rolling", b.sig, b.args, b.ret, b.ans, rollup="rolling", tags=b.tags))
    for j, a in enumerate(aggs):
        define(ctx, f"d{j}", "i int", direct(a, "id = i"))
        for d in (1, 2, 3):
            q = f"SELECT g AS n, {a.call()} AS s FROM r WHERE id = i GROUP BY g"
            for l in range(1, d + 1): q = f"SELECT t.par AS n, {a.rollup}(z.s ORDER BY t.ord) AS s FROM tr t LEFT JOIN ({q}) z ON z.n = t.node WHERE t.id = i AND t.lvl = {l} GROUP BY t.par"
            define(ctx, f"r{j}_{d}", "i int", f"SELECT {a.answers()} FROM ({q} OFFSET 0) z")
    step = ctx.pick(9, 3)
    for j, a in enumerate(aggs):
        n_most = a.fn.startswith(("max_n", "min_n"))
        ids = [i for i, c in enumerate(cases) if ((i + j) % step == 0 or "wide" in c) and (c["contig"] or not a.ordered) and not (n_most and (c["nulls"] > 0 or len(c["levels"][0]["par"]) > len(set(c["leaf"]))))]
        got = ctx.bulk("", lambda w: f"SELECT id, d{j}(id), CASE depth WHEN 1 THEN r{j}_1(id) WHEN 2 THEN r{j}_2(id) ELSE r{j}_3(id) END FROM c WHERE {w}", ids, ["direct", "rolled"], shards=8)
        for i in ids:
            c, (d, s) = cases[i], got.get(i, [None, None])
            ctx.traces += 1; ctx.evals += len(a.ans)
            if len(c["rows"]) > 1: ctx.nontrivial += 1
            if d is not None and d.startswith("ERR:"): bad = "the aggregate itself fails"
            elif not agree(a, d, s, False): bad = "rolled up it answers otherwise"
            else: continue
            ctx.violation(f"rollup/{a.name}", f"{a.name} over (time, value*4, key) rows {str(c['rows'])[:3000]} in groups {str(c['leaf'])[:2000]} rolled up by {[(l['par'], l['ord']) for l in c['levels']]}: {bad}: one aggregate answers {d}, the rollup {s}",
                          {"case": c, "agg": a.sig, "unit": units[i]})
    ctx.samples += [cases[0], cases[len(cases) // 2]]
