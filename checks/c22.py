"""C22 saturating integer arithmetic: programs of Saturate.tla run by the functions."""
from pg import copy_in

LO, HI = -2 ** 31, 2 ** 31 - 1


def c22(ctx):
    seeds = ["-2147483647 - 1", "-2147483647", "-2147483646", "2147483647", "2147483646", "0", "1", "-1", "2", "-2", "46340", "46341", "-46340", "-46341", "65535", "65536", "-65536", "32768", "1073741823", "1073741824", "-1073741824", "-1073741825", "715827882", "715827883", "3", "-3", "7"]
    seeds += [str(ctx.rng.randint(-2 ** 31 + 1, 2 ** 31 - 1)) for _ in range(6)] + [str(ctx.rng.randint(-10 ** 5, 10 ** 5)) for _ in range(6)]
    S = "{" + ", ".join(dict.fromkeys(seeds)) + "}"
    futs = [ctx.spec("Saturate", {"Lo": "-8", "Hi": 7, "Seeds": "-8 .. 7", "MaxSteps": 1, "EmitAll": "FALSE"}, invariants=("Bounded", "Exact"), workers=2),
            ctx.spec("Saturate", {"Lo": "-13", "Hi": ctx.pick(13, 20), "Seeds": "{0}", "MaxSteps": 0, "EmitAll": "FALSE"}, invariants=("Bounded", "Exact"), workers=1),
            ctx.spec("Saturate", {"Lo": "-2147483647 - 1", "Hi": 2147483647, "Seeds": S, "MaxSteps": 1, "EmitAll": "TRUE"}, invariants=("Bounded", "EmitCase"), workers=2),
            ctx.spec("Saturate", {"Lo": "-2147483647 - 1", "Hi": 2147483647, "Seeds": S, "MaxSteps": 8, "EmitAll": "FALSE"}, invariants=("Bounded", "EmitCase"), spec="SpecRandom", simulate=ctx.pick(4000, 60000), depth=10, workers=2)]
    ctx.start()
    cases = [c["prog"] for f in futs for c in ctx.take(f)]
    rows, nest = [], []
    for n, p in enumerate(cases):
        acc = p[0][1]
        expr = f"({acc})"
        for k, (o, b, r, flip) in enumerate(p[1:]):
            x, y = (b, acc) if flip else (acc, b)
            rows.append((len(rows), o, x, y, r))
            expr = f"toolkit_experimental.saturating_{o}(({b}), {expr})" if flip else f"toolkit_experimental.saturating_{o}({expr}, ({b}))"
            acc = r
        if len(p) > 2: nest.append((len(nest), f"SELECT {expr}", acc))
    rows = [(i, *r) for i, r in enumerate(dict.fromkeys(r[1:] for r in rows))]
    ctx.server.sql("CREATE UNLOGGED TABLE a(id int, op text, x int, y int, r int);\n" + copy_in("a", rows) + "CREATE UNLOGGED TABLE nest(id int, q text, r int);\n" + copy_in("nest", nest))
    case = "CASE op " + " ".join(f"WHEN '{o}' THEN toolkit_experimental.saturating_{o}(x, y)" for o in ("add", "add_pos", "sub", "sub_pos", "mul")) + " END"
    got = ctx.bulk("", lambda w: f"SELECT id, {case} FROM a WHERE {w}", range(len(rows)), ["r"])
    for i, o, x, y, r in rows:
        ctx.evals += 1
        g = got.get(i, [None])[0]
        if g != str(r): ctx.violation(o, f"saturating_{o}({x}, {y}) is {g}, expected {r}", {"op": o, "x": x, "y": y})
    got = ctx.bulk("", lambda w: f"SELECT id, vtry(q) FROM nest WHERE {w}", range(len(nest)), ["r"])
    for i, q, r in nest:
        ctx.evals += 1
        g = got.get(i, [None])[0]
        if g != str(r): ctx.violation("program", f"{q} is {g}, expected {r}", {"sql": q})
    for o in ("add", "add_pos", "sub", "sub_pos", "mul"):
        r = ctx.server.sql(f"SELECT toolkit_experimental.saturating_{o}(NULL, 1) IS NULL AND toolkit_experimental.saturating_{o}(1, NULL) IS NULL").strip()
        if r != "t": ctx.violation("null", f"saturating_{o} of NULL is not NULL", {"op": o})
    ctx.traces += len(cases)
    ctx.nontrivial = sum(LO == r[4] or HI == r[4] or r[4] == 0 for r in rows)
    ctx.extra["rule"] = "programs of the register machine; non-trivial: operations whose result is an end of the range or zero"
    ctx.samples += [cases[0], cases[-1]]
