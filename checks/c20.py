"""C20 downsampling: behaviours of Lttb.tla and Asap.tla replayed through the aggregates, the timevector functions and the pipeline element."""
from core import feq
from series import CONCS, pick_conc, NULL
from pg import copy_in
from c18 import parse_tv, norm_ts


def exact_cuts(n, k):
    """whether double arithmetic finds the bucket borders of n points and k kept points that exact arithmetic finds"""
    if k == 0 or k >= n or k == 2: return True
    every = (n - 2) / (k - 2)
    return all(int(i * every) == i * (n - 2) // (k - 2) for i in range(k)) and min(int((k - 1) * every) + 1, n) == n


def exact_shares(runs, shares, left):
    size = lambda r: r[1] - r[0] + 1
    for j, r in enumerate(runs[:-1]):
        rest = runs[j:]
        need, total = sum(min(2, size(x)) for x in rest), sum(size(x) for x in rest)
        if size(r) > 2 and left > need:
            pct = (size(r) - 2) / (total - need)
            if int((left - need) * pct) != (left - need) * (size(r) - 2) // (total - need): return False
        left -= shares[j]
    return True


def c20(ctx):
    B = {"MaxTies": 12, "EmitAll": "FALSE"}
    inv, ainv = ("Refines", "GapLaws", "EmitCase"), ("Laws", "EmitCase")
    A = {"Steps": "{0}", "EmitAll": "FALSE"}
    lt = [ctx.spec("Lttb", {**B, "Times": "{1, 2, 5, 6}" if not ctx.thorough() else "{1, 2, 3, 5, 6, 9}", "Vals": "{0, 3}", "Resolutions": "{0, 3, 4}", "Gaps": "{0, 2}", "MaxRows": 4, "EmitAll": "TRUE"}, invariants=inv, workers=3),
          ctx.spec("Lttb", {**B, "Times": "{1, 2, 3, 5, 6, 8, 11, 12, NULL}", "Vals": "{0, 3, -4, 7, NULL}", "Resolutions": "2..9", "Gaps": "{0, 2, 3}", "MaxRows": 14}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(700, 9000), depth=20, workers=2),
          ctx.spec("Lttb", {**B, "Times": "{NULL} \\cup 0..90", "Vals": "{NULL} \\cup -30..30", "Resolutions": "{0} \\cup 2..20", "Gaps": "{0, 1, 3, 4, 8}", "MaxRows": 34}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(350, 5000), depth=40, workers=2),
          ctx.spec("Lttb", {**B, "Times": "0..400", "Vals": "-30..30", "Resolutions": "3..30", "Gaps": "{0, 3, 9, 20}", "MaxRows": 70}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(60, 1500), depth=80, workers=2)]
    asap = [ctx.spec("Asap", {**A, "Times": "{1, 2, 5, NULL}", "Vals": "{0, 3, NULL}", "Resolutions": "{1, 2}", "MaxRows": 4, "EmitAll": "TRUE"}, invariants=ainv, workers=2),
            ctx.spec("Asap", {**A, "Times": "{NULL} \\cup 0..90", "Vals": "{NULL, 0, 1, 2, 3, 5, -4, 30, -30}", "Resolutions": "{1, 3, 7, 12, 16, 25, 40}", "MaxRows": 52}, invariants=ainv, spec="SpecRandom", simulate=ctx.pick(250, 4000), depth=60, workers=2),
            ctx.spec("Asap", {**A, "Times": "0..3", "Steps": "{-1, 0, 1, 4, -4}", "Vals": "-3..3", "Resolutions": "{12, 25, 40}", "MaxRows": 60}, invariants=ainv, spec="SpecWalk", simulate=ctx.pick(150, 3000), depth=70, workers=2),
            ctx.spec("Asap", {**A, "Times": "0..3", "Steps": "{-1, 0, 2, -2, 20, -20}", "Vals": "-3..3", "Resolutions": "{15, 22, 30, 31}", "MaxRows": 62}, invariants=ainv, spec="SpecWalk", simulate=ctx.pick(150, 3000), depth=70, workers=2)]
    sv = ctx.start()
    cases = []
    for kind, futs in (("lttb", lt), ("asap", asap)):
        for k, f in enumerate(futs):
            cs = ctx.take(f)
            lim = ctx.pick(1500, 15000) if k == 0 else 10 ** 9
            cases += [(kind, c) for c in ctx.rng.sample(cs, min(lim, len(cs)))]
    srows, qs, meaning, conc = [], [], [], {}
    for i, (kind, c) in enumerate(cases):
        cc = pick_conc(i, ctx.seed)
        if kind == "lttb" and cc.unit < 1000: cc = CONCS[i % 4]       # the mean time is truncated to a microsecond
        conc[i] = cc
        for s, (t, v) in enumerate(c["rows"]): srows.append((i, s, ctx.rng.randrange(10 ** 6), cc.ts(t), cc.v(v)))
    sv.sql("CREATE UNLOGGED TABLE r(id int, seq int, mix int, t timestamptz, v float8);\nCREATE UNLOGGED TABLE qs(id int primary key, q text);\n" + copy_in("r", srows) + "CREATE INDEX ON r(id); ANALYZE r;")

    def add(i, what, q, want):
        qs.append((len(qs), q)); meaning.append((i, what, want))
    for i, (kind, c) in enumerate(cases):
        cc, n, res = conc[i], len(c["pts"]), c["res"]
        distinct = len({p[0] for p in c["pts"]}) == n
        feed = "seq" if i % 3 == 0 or not distinct else "mix, seq"
        frm = f"FROM r WHERE id = {i} AND t IS NOT NULL"
        tv = f"(SELECT timevector(t, v ORDER BY t, seq) {frm} AND v IS NOT NULL)"
        if kind == "lttb":
            kept = {"plain": (c["picks"], exact_cuts(n, res)), "gap": (c["gappicks"], exact_shares(c["runs"], c["shares"], res) and all(exact_cuts(b - a + 1, k) for (a, b), k in zip(c["runs"], c["shares"])))}
            err = "error" if res <= 2 and n else None
            add(i, "lttb(ts, value, n)", f"SELECT lttb(t, v, {res} ORDER BY {feed})::text {frm}", err or ("plain", kept["plain"]))
            if n: add(i, "lttb(timevector, n)" if i % 2 else "-> lttb(n)", f"SELECT {f'lttb({tv}, {res})' if i % 2 else f'({tv} -> lttb({res}))'}::text", ("plain", kept["plain"]))
            g = c["gap"]
            iv = f"'{g} days', " if cc.unit == 86400_000_000 else f"'{g * cc.unit} microseconds', "
            add(i, "gp_lttb(ts, value, gap, n)" if g else "gp_lttb(ts, value, n)", f"SELECT gp_lttb(t, v, {iv if g else ''}{res} ORDER BY {feed})::text {frm}", err or ("gap", kept["gap"]))
        else:
            frm2 = frm if i % 2 else f"FROM r WHERE id = {i}"
            add(i, "asap_smooth(ts, value, n)", f"SELECT asap_smooth(t, v, {res} ORDER BY {feed})::text {frm2}", "asap")
            if n: add(i, "asap_smooth(timevector, n)", f"SELECT asap_smooth({tv.replace('t, seq', feed) if i % 2 else tv}, {res})::text", "asap")
    sv.sql(copy_in("qs", qs) + "ANALYZE qs;")
    got = ctx.bulk("", lambda w: f"SELECT id, vtry(q) FROM qs WHERE {w}", range(len(qs)), ["r"], pre="SET search_path TO public, toolkit_experimental;\nSET timezone TO 'UTC';\nSET datestyle TO 'ISO';\n")
    ctx.traces += len(cases)
    weak = 0
    for k, (i, what, want) in enumerate(meaning):
        kind, c = cases[i]
        cc, ans = conc[i], got.get(k, [None])[0]
        ctx.evals += 1
        bad = None
        if want == "error":
            if ans is None or not ans.startswith("ERR:"): bad = "an error: the resolution must be greater than 2"
        elif not c["pts"]:
            if ans is not None: bad = "NULL"
        else:
            pts = [(norm_ts(cc.ts(t)), v * cc.scale) for t, v in c["pts"]]
            p = parse_tv(ans) if ans is not None else None
            n = len(pts)
            if p is None or not p[0] & 1 or any(p[2]): bad = "a sorted timevector"
            else:
                a = [(norm_ts(t), float(v)) for t, v in p[1]]
                if want == "asap":
                    opts = [[(norm_ts(cc.ts(t)), s * cc.scale / (c["block"] * w)) for t, s in x] for w, x in c["answers"]]
                    if not any(len(a) == len(o) and all(x[0] == y[0] and feq(repr(x[1]), y[1], 1e-9, 1e-9 * cc.scale) for x, y in zip(a, o)) for o in opts): bad = f"{opts[0]} (block {c['block']}, window {c['answers'][0][0]})"
                else:
                    mode, (picks, exact) = want
                    if picks and exact:
                        if not any(a == [pts[j - 1] for j in s] for s in picks): bad = str([pts[j - 1] for j in picks[0]])
                    else:       # too many ties, or borders that rounding moves: points in order, both ends
                        weak += 1
                        it = iter(pts)
                        if not all(x in it for x in a) or a[0] != pts[0] or a[-1] != pts[-1] or (mode == "plain" and len(a) != (n if c["res"] in (0, n) or c["res"] > n else c["res"])): bad = "points of the input in order, with both ends"
                        if mode == "gap":
                            need = [pts[j - 1] for r in c["runs"] for j in r]
                            if not all(x in a for x in need): bad = f"both ends of every run, {need}"
        if bad:
            ctx.violation(f"downsample/{what}", f"{what}: {qs[k][1]} over rows {c['rows']} at {cc.name} (gap {c.get('gap')}, resolution {c['res']}) gives {ans}, the specification says {bad}", {"case": c, "sql": qs[k][1], "conc": cc.name})
    ctx.extra["compared_by_structure_only"] = weak
    ctx.nontrivial += sum(1 for _, c in cases if len(c["pts"]) >= 3)
    constants(ctx)
    ctx.samples += [cases[len(cases) // 2][1], cases[-1][1]]


def constants(ctx):
    s = "(SELECT timevector('2020-01-01 UTC'::timestamptz + i * '1 hour'::interval, (i * i % 17)::float8 ORDER BY i) FROM generate_series(1, 40) i)"
    un = "(SELECT timevector('2020-01-01 UTC'::timestamptz - i * '1 hour'::interval, (i * i % 17)::float8 ORDER BY i) FROM generate_series(1, 40) i)"
    tests = [(f"SELECT lttb({un}, 10)", "ERR"), (f"SELECT {un} -> lttb(10)", "ERR"), (f"SELECT lttb({s}, 1)", "ERR"), (f"SELECT ({s} -> lttb(1))::text", "ERR"),
             (f"SELECT (lttb({s}, 2)::text = ({s} -> lttb(2))::text)::text", "true"), (f"SELECT lttb({s}, 2) -> num_vals()", "2"),
             (f"SELECT lttb({s}, 0) -> num_vals()", "40"), (f"SELECT lttb({s}, 40) -> num_vals()", "40"), (f"SELECT lttb({s}, 41) -> num_vals()", "40"), (f"SELECT lttb({s}, 39) -> num_vals()", "39"),
             (f"SELECT ({un} -> sort() -> lttb(10))::text = lttb({un} -> sort(), 10)::text", "true"),
             (f"SELECT asap_smooth({s}, 0)", "ERR"), (f"SELECT asap_smooth({s}, -1)", "ERR"), ("SELECT asap_smooth('2020-01-01 UTC'::timestamptz, 1.0, 0)", "ERR"), ("SELECT asap_smooth('2020-01-01 UTC'::timestamptz, 1.0, 5) -> num_vals()", "1"),
             ("SELECT lttb('2020-01-01 UTC'::timestamptz, 1.0, 3) -> num_vals()", "1"), ("SELECT gp_lttb('2020-01-01 UTC'::timestamptz, 1.0, 3) -> num_vals()", "1"), ("SELECT gp_lttb('2020-01-01 UTC'::timestamptz, 1.0, '1 day', 3) -> num_vals()", "1"),
             ("SELECT lttb('2020-01-01 UTC'::timestamptz, NULL::float8, 3)::text", None), ("SELECT gp_lttb('2020-01-01 UTC'::timestamptz, NULL::float8, 3)::text", None),
             # times whose sum does not fit 64 bits
             ("SELECT bool_and(t2 IS NULL OR t1 <= t2)::text || count(*) FROM (SELECT (u).time AS t1, lead((u).time) OVER () AS t2 FROM (SELECT unnest(lttb('200000-01-01 UTC'::timestamptz + i * '1 second'::interval, i % 7, 4)) u FROM generate_series(1, 3000) i) z) y", "true4")]
    for k in range(len(tests)):
        q, w = tests[k]
        ctx.evals += 1
        rc, o, e = ctx.server.try_sql("SET search_path TO public, toolkit_experimental;\nSET timezone TO 'UTC';\nCOPY (" + q + ") TO STDOUT;\n")
        v = "ERR" if rc else o.strip()
        v = None if v == "\\N" else {"t": "true", "f": "false"}.get(v, v)
        if rc: ctx.await_server()
        if v != w: ctx.violation("downsample/constant", f"{q} gives {v} {e.strip()[:200] if rc else ''}, expected {w}", {"sql": q})
