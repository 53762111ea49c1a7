"""C04 window functions: frames of Window.tla run as OVER (...), each row's result compared with the plain aggregate over its frame."""
from catalogue import AGGS, ROLLS, PLAIN, Agg, BYNAME, one
from c01 import load, define, direct, agree, close
from pg import copy_in

OPEN = 99
SHAPES = ["ROWS BETWEEN UNBOUNDED PRECEDING AND b FOLLOWING", "ROWS BETWEEN UNBOUNDED PRECEDING AND b PRECEDING", "ROWS BETWEEN a PRECEDING AND b FOLLOWING", "ROWS BETWEEN a PRECEDING AND b PRECEDING",
          "ROWS BETWEEN a FOLLOWING AND b FOLLOWING", "ROWS BETWEEN a PRECEDING AND UNBOUNDED FOLLOWING", "ROWS BETWEEN a FOLLOWING AND UNBOUNDED FOLLOWING", "ROWS BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED FOLLOWING"]


def shape(f, t):
    if f == -OPEN: return 7 if t == OPEN else 0 if t >= 0 else 1
    if t == OPEN: return 5 if f <= 0 else 6
    return 4 if f > 0 else 2 if t >= 0 else 3


def c04(ctx):
    inv = ("FrameIs", "Restarts", "Inverts", "EmitCase")
    B = {"EmitAll": "TRUE"}
    futs = [ctx.spec("Window", {**B, "Sizes": "1..3", "Vals": "{-2, NULL}", "Keys": "{0}", "Reach": 2}, invariants=inv, workers=2),
            ctx.spec("Window", {**B, "Sizes": "{4}", "Vals": "{3}", "Keys": "{1}", "Reach": 3}, invariants=inv, workers=2),
            ctx.spec("Window", {**B, "Sizes": "3..9", "Vals": "{NULL} \\cup -6..9", "Keys": "0..5", "Reach": 4}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(900, 9000), depth=20, workers=1),
            ctx.spec("Window", {**B, "Sizes": "10..24", "Vals": "{NULL} \\cup 0..30", "Keys": "0..5", "Reach": 8}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(250, 3000), depth=40, workers=1)]
    sv = ctx.start()
    cases = []
    for k, f in enumerate(futs):
        cs = ctx.take(f)
        cases += ctx.rng.sample(cs, min(len(cs), ctx.pick(500, 9000))) if k < 2 else cs
    ctx.rng.shuffle(cases)
    units = load(ctx, cases, lambda c: c["rows"])
    sv.sql("CREATE UNLOGGED TABLE f(id int, row int, lo int, hi int);\nCREATE UNLOGGED TABLE c(id int primary key, shape int, a int, b int);\n" +
           copy_in("f", [(i, k, lo - 1, hi - 1) for i, c in enumerate(cases) for k, (lo, hi) in enumerate(c["frames"])]) +
           copy_in("c", [(i, shape(c["from"], c["to"]), abs(c["from"]), abs(c["to"])) for i, c in enumerate(cases)]) + "CREATE INDEX ON f(id); ANALYZE f; ANALYZE c;")
    aggs = AGGS + ROLLS + PLAIN
    for n in ("stats_agg", "stats_agg 2D"):
        b = BYNAME[n]
        aggs.append(Agg(f"rolling of {n}", f"rolling({b.ret})", [one(b.call(""))], b.ret, b.ans, tags=b.tags, roll_of=b))
    # infinite values and NaN that enter and leave the frame
    odd = lambda w: f"CASE k WHEN 0 THEN 'Infinity' WHEN 1 THEN '{w}' ELSE v END"
    for n in ("stats_agg", "stats_agg 2D"):
        b = BYNAME[n]
        for w in ("NaN", "-Infinity"):
            q = Agg(f"{n} with infinity and {w}", b.sig, [odd(w)] + (["CASE WHEN seq = 2 THEN 'Infinity' ELSE k END"] if len(b.args) > 1 else []), b.ret, b.ans, tags=b.tags)
            aggs += [q, Agg(f"rolling of {q.name}", f"rolling({b.ret})", [one(q.call(""))], b.ret, b.ans, tags=b.tags, roll_of=q)]
    # values so large that the others vanish next to them: they must not leave their rounding errors behind when they leave the frame
    far = lambda x: f"CASE k WHEN 0 THEN {x} ELSE v END"
    for n, k, args in [("stats_agg", 1, [far("1e60")]), ("stats_agg", 2, [far("-3e50")]), ("stats_agg 2D", 1, [far("1e60"), "seq * 0.5 + k"]), ("stats_agg 2D", 2, ["seq * 0.5 + k", far("1e60")]), ("stats_agg 2D", 3, [far("-2e55"), far("1e60")])]:
        b = BYNAME[n]
        q = Agg(f"{n} with far values {k}", b.sig, args, b.ret, b.ans, tags=b.tags)
        aggs += [q, Agg(f"rolling of {q.name}", f"rolling({b.ret})", [one(q.call(""))], b.ret, b.ans, tags=b.tags, roll_of=q)]
    for j, a in enumerate(aggs):
        args = ", ".join(f"({x})::{t}" for x, t in zip(a.args, a.argtypes))
        define(ctx, f"d{j}", "i int, lo int, hi int", direct(a, "id = i AND r.seq BETWEEN lo AND hi"))
        for s, sh in enumerate(SHAPES):
            define(ctx, f"w{j}_{s}", "i int, a int, b int", f"SELECT string_agg({a.answers('z.s')}, E'\\n' ORDER BY z.seq) FROM (SELECT r.seq, {a.fn}({args}) OVER (ORDER BY r.seq {sh}) AS s FROM r WHERE id = i OFFSET 0) z")
    step = ctx.pick(14, 4)
    sliding = 0
    for j, a in enumerate(aggs):
        ids = [i for i in range(len(cases)) if (i + j) % step == 0]
        pick = " ".join(f"WHEN {s} THEN w{j}_{s}(id, a, b)" for s in range(len(SHAPES)))
        got = ctx.bulk("", lambda w: f"SELECT id, CASE shape {pick} END, (SELECT string_agg(d{j}(f.id, lo, hi), E'\\n' ORDER BY f.row) FROM f WHERE f.id = c.id) FROM c WHERE {w}", ids, ["window", "plain"], shards=8)
        for i in ids:
            c, (w, d) = cases[i], got.get(i, [None, None])
            ctx.traces += 1; ctx.evals += len(a.ans) * len(c["rows"])
            if len(c["rows"]) > 1: ctx.nontrivial += 1
            if c["from"] != -OPEN: sliding += 1
            w, d = (w or "").split("\n"), (d or "").split("\n")
            for k, (lo, hi) in enumerate(c["frames"]):
                if "far" in a.name and any(r[2] == 0 for r in c["rows"][lo - 1:hi]): continue   # what is to be compared is the frames after the far values have left
                x, y = w[k] if len(w) == len(d) else w[0], d[k]
                if close(y, x, 1e-6) if "stats" in a.tags else agree(a, y, x, False): continue
                ctx.violation(f"window/{a.name}", f"{a.name} over (time, value*4, key) rows {c['rows']} with {SHAPES[shape(c['from'], c['to'])]} (a={abs(c['from'])}, b={abs(c['to'])}), row {k + 1}, frame {lo}..{hi}: the window gives {x}, the aggregate over the frame {y}",
                              {"case": c, "agg": a.sig, "unit": units[i], "row": k})
                break
    ctx.extra["sliding_frames"] = sliding
    ctx.samples += [cases[0], cases[len(cases) // 2]]
