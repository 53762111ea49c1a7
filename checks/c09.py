"""C09 state_agg: behaviours of State.tla replayed as queries."""
import json
from series import pick_conc, us_to_ts, US, PG2000, Conc, NULL
from pg import copy_in

CONCS = [Conc("2020/1h", 1577836800 * US, 3600 * US, 1), Conc("2000-origin/1min", PG2000 - 180 * US, 60 * US, 1), Conc("1999/3us", PG2000 - 4 * 3, 3, 1), Conc("1960/1day", -3650 * 86400 * US, 86400 * US, 1)]
NAMES = [["run", "running", "un", "r", "nin", "g"], ["", "a'b\\\"", "é✓\n", "✓", "(", "\t,"], ["ERROR", "OK", "RROROK", "O", "KO", "E"]]
INTS = [[0, 1, 2, 3, 4, 5], [-9223372036854775808, 9223372036854775807, 0, -1, 4294967296, 7], [-1, -2, 10, 100, 3, 11]]


class Kind:
    """text or bigint states; state_agg or compact_state_agg; function or arrow forms"""
    def __init__(self, ty, compact, arrow):
        self.ty, self.compact, self.arrow = ty, compact, arrow
        self.col = ("c" if compact else "s") + ty
        self.st = "n.s" if ty == "t" else "n.i"
        self.int = "int_" if ty == "i" else ""
        self.values = "into_values" if ty == "t" else "into_int_values"
        self.at = "state_at" if ty == "t" else "state_at_int"
        self.type = "toolkit_experimental.compactstateagg" if compact else "stateagg"
        self.name = ("compact_state_agg" if compact else "state_agg") + ("(text)" if ty == "t" else "(bigint)") + (" ->" if arrow else "")

    def call(self, x, fn, *args):
        if self.arrow: return f"({x} -> {fn}({', '.join(args)}))"
        sch = "toolkit_experimental." if self.compact else ""
        return f"{sch}{fn}({', '.join((x,) + args)})"

    def names(self, expr, extra=""):
        """one answer per state name"""
        return f"(SELECT json_agg({expr} ORDER BY n.k) FROM n {extra} WHERE n.id = q.nset)"

    def rows(self, x, fn, cols, *args):
        c = ", ".join(f"us((y.r).{a})" if a != "state" else "(y.r).state::text" for a in cols)
        return f"(SELECT json_agg(json_build_array({c})) FROM (SELECT {self.call(x, fn, *args)} AS r) y)"

    def base(self, x):
        out = [self.names(f"us({self.call(x, 'duration_in', self.st)})")]
        c = ", ".join(["(y.r).state::text", "us((y.r).duration)"])
        out.append(f"(SELECT json_agg(json_build_array({c})) FROM (SELECT {self.call(x, self.values)} AS r) y)")
        if not self.compact:
            out.append(self.rows(x, f"state_{self.int}timeline", ["state", "start_time", "end_time"]))
            out.append(self.names(self.rows(x, "state_periods", ["start_time", "end_time"], self.st)))
            out.append(f"(SELECT json_agg({self.call(x, self.at, 'tsus(t)')}::text ORDER BY t) FROM generate_series(us0, us1, unit) t)")
        return out

    base_cols = property(lambda self: ["dur", "values"] + ([] if self.compact else ["timeline", "periods", "at"]))

    def window(self, x):
        return [self.names(f"us({self.call(x, 'duration_in', self.st, 'ws', 'wl')})"), self.names(f"us({self.call(x, 'duration_in', self.st, 'ws')})")]

    def interp(self, x, p):
        a = ("ws", "wl", p)
        out = [self.names(f"us({self.call(x, 'interpolated_duration_in', self.st, *a)})")]
        if not self.compact:
            out.append(self.rows(x, f"interpolated_state_{self.int}timeline", ["state", "start_time", "end_time"], *a))
            out.append(self.names(self.rows(x, "interpolated_state_periods", ["start_time", "end_time"], self.st, *a)))
        return out


def c09(ctx):
    inv = ("Refines", "EmitCase")
    futs = [ctx.spec("State", {"T": 4, "States": "0..1", "CutSets": "{<<2, 4>>, <<1, 3>>}", "MaxRows": ctx.pick(3, 4), "WithNull": "TRUE", "EmitAll": "TRUE", "Multisets": "TRUE"}, invariants=inv, workers=4),
            ctx.spec("State", {"T": 20, "States": "0..3", "CutSets": "{<<6, 14>>, <<3, 11>>, <<9, 16>>}", "MaxRows": 10, "WithNull": "FALSE", "EmitAll": "FALSE", "Multisets": "FALSE"}, spec="SpecRandom",
                     simulate=ctx.pick(400, 8000), depth=14, invariants=inv, workers=1),
            ctx.spec("State", {"T": 60, "States": "0..5", "CutSets": "{<<20, 40>>}", "MaxRows": 40, "WithNull": "FALSE", "EmitAll": "FALSE", "Multisets": "FALSE"}, spec="SpecRandom",
                     simulate=ctx.pick(40, 600), depth=44, invariants=inv, workers=1)]
    ctx.start()
    cases = []
    for f in futs: cases += ctx.take(f)
    rows, jobs, meta = [], [], {}
    conc = lambda i: CONCS[(i + ctx.seed) % len(CONCS)]
    for i, c in enumerate(cases):
        k, ns = conc(i), i % 3
        order = list(range(len(c["rows"])))
        ctx.rng.shuffle(order)
        cut = c["cuts"]
        for s, (t, st) in zip(order, c["rows"]):
            a = 1 if t < cut[0] else 2 if t < cut[1] else 3
            rows.append((i, a, s, k.ts(t), None if st == NULL else NAMES[ns][st], None if st == NULL else INTS[ns][st]))

        def job(kind, e, A, ws=None, wl=None, prev=None):
            jobs.append((len(jobs), i, kind, A, prev, k.ts(ws) if ws is not None else None, None if wl is None else wl * k.unit, k.t(0), k.t(c["tmax"] + 1), k.unit, ns))
            meta[len(jobs) - 1] = (i, kind, A, e, ws, wl, prev)
        for e in c["single"] + [c["roll"]]:
            if e["conflict"]: continue
            A = e["A"][0] if e in c["single"] else 0
            if A == 0 and any(s["conflict"] for s in c["single"]): continue
            job("base", e, A)
            for m in range(ctx.pick(2, 8)):
                w = e["win"][(i * 3 + m * 17 + ctx.seed) % len(e["win"])]
                job("window", dict(w, tl=e["x"][0]["tl"]), A, w["w"][0], w["w"][1] - w["w"][0])
        n = len(c["interp"])
        for m in sorted({(i * 5 + m * 11 + ctx.seed) % n for m in range(ctx.pick(4, 12))} if n else []):
            e = c["interp"][m]
            job("interp", e, 2, e["w"][0], e["w"][1] - e["w"][0], 1 if e["u"] else None)
            if e["w"][0] <= e["f"] and e["w"][1] >= e["l"]: job("cinterp", e, 2, e["w"][0], e["w"][1] - e["w"][0], 1 if e["u"] else None)
    names = [(z, k_, NAMES[z][k_], INTS[z][k_]) for z in range(3) for k_ in range(6)]
    ctx.server.sql("CREATE UNLOGGED TABLE r(cid int, a int, seq int, ts timestamptz, s text, i bigint);\nCREATE TABLE n(id int, k int, s text, i bigint);\n"
                   "CREATE UNLOGGED TABLE j(id int primary key, cid int, kind text, a int, p int, ws timestamptz, wd bigint, us0 bigint, us1 bigint, unit bigint, nset int);\n"
                   "CREATE UNLOGGED TABLE x(cid int, a int, st stateagg, si stateagg, ct toolkit_experimental.compactstateagg, ci toolkit_experimental.compactstateagg); CREATE INDEX ON x(cid, a); CREATE INDEX ON r(cid);\n"
                   + copy_in("r", rows) + copy_in("n", names) + copy_in("j", jobs) + "ANALYZE r; ANALYZE j; ANALYZE n;")
    # conflicts must be rejected
    conf = [(i, e["A"][0]) for i, c in enumerate(cases) for e in c["single"] if e["conflict"]]
    ag = ["state_agg(ts, s ORDER BY seq)", "state_agg(ts, i ORDER BY seq)", "toolkit_experimental.compact_state_agg(ts, s ORDER BY seq)", "toolkit_experimental.compact_state_agg(ts, i ORDER BY seq)"]
    q = "".join(f"SELECT {i}, {a}, vtry($q$SELECT ({ag[(m + i) % 4]})::text FROM r WHERE cid = {i} AND a = {a}$q$);\n" for m, (i, a) in enumerate(conf[:ctx.pick(300, 3000)]))
    for line in ctx.server.sql(q).splitlines():
        ctx.evals += 1
        i, a, txt = line.split("|", 2)
        if not txt.startswith("ERR:"): ctx.violation("state/conflict", f"two states at the same time must be rejected: rows (time, state) {cases[int(i)]['rows']}, aggregate {a} of cuts {cases[int(i)]['cuts']} gives {txt}", {"case": cases[int(i)]})
    # the aggregates, and their rollup as aggregate 0
    sconf = set(conf)
    ids = list(range(len(cases)))
    skip = "" if not conf else f"AND (cid, a) NOT IN (SELECT * FROM cf)"
    ctx.server.sql("CREATE TABLE cf(cid int, a int);\n" + copy_in("cf", conf) + "ANALYZE cf;")
    for i, e in ctx.fill("x", lambda w: f"SELECT cid, a, {', '.join(ag)} FROM r WHERE {w} AND NOT EXISTS (SELECT 1 FROM cf WHERE cf.cid = r.cid AND cf.a = r.a) GROUP BY cid, a", "cid", ids):
        ctx.violation("state/build", f"state_agg over rows (time, state) {cases[i]['rows']}, cuts {cases[i]['cuts']} fails: {e}", {"case": cases[i]})
    rollable = [i for i in ids if not any((i, a) in sconf for a in (1, 2, 3))]
    for i, e in ctx.fill("x", lambda w: f"SELECT cid, 0, rollup(st ORDER BY -a), rollup(si ORDER BY a), toolkit_experimental.rollup(ct ORDER BY a), toolkit_experimental.rollup(ci ORDER BY -a) FROM x WHERE {w} GROUP BY cid", "cid", rollable):
        ctx.violation("state/rollup", f"rollup of state_agg over rows (time, state) {cases[i]['rows']}, cuts {cases[i]['cuts']} fails: {e}", {"case": cases[i]})
    # PostgreSQL's own partial states give the same aggregates as the rows in order
    ctx.partial("rp", "SELECT cid, a, s, i, ts, seq, seq % 3 + 1 AS g FROM r ORDER BY seq", key="cid")
    part = lambda w: (f"SELECT cid, a, {', '.join(x.replace(' ORDER BY seq', '') + ' AS c%d' % n for n, x in enumerate(ag))} FROM rp WHERE {w} AND (cid, a) NOT IN (SELECT * FROM cf) GROUP BY cid, a")
    ctx.note_plan(part("true"))
    def show(x, n):
        v = "into_int_values" if n % 2 else "into_values"
        e = f"(SELECT string_agg(v::text, ' ' ORDER BY v::text) FROM {'toolkit_experimental.' if n > 1 else ''}{v}({x}) v)"
        return e if n > 1 else f"concat_ws(' / ', {e}, (SELECT string_agg(v::text, ' ') FROM state_{'int_' if n else ''}timeline({x}) v))"
    diff = ctx.bulk("", lambda w: "SELECT id, string_agg(d, ' ') FROM (SELECT p.cid AS id, NULLIF(concat_ws(' ', " + ", ".join(f"CASE WHEN {show('p.c%d' % n, n)} IS DISTINCT FROM {show('x.' + k, n)} THEN '{k} of aggregate ' || p.a || ': ' || {show('p.c%d' % n, n)} END" for n, k in enumerate(("st", "si", "ct", "ci")))
                    + f"), '') AS d FROM ({part(w.replace('id =', 'cid ='))}) p JOIN x ON x.cid = p.cid AND x.a = p.a) q GROUP BY id", ids, ["diff"], pre=ctx.PARTIAL)
    for i, (d,) in diff.items():
        ctx.evals += 4
        if d: ctx.violation("state/partial states", f"state_agg over rows (time, state) {cases[i]['rows']}, cuts {cases[i]['cuts']} from partial states is another aggregate than from the rows in order: {d}", {"case": cases[i]})
    ctx.server.sql("ANALYZE x")
    kinds = [Kind("t", False, False), Kind("i", False, False), Kind("t", False, True), Kind("i", False, True), Kind("t", True, False), Kind("i", True, False)]
    for kd in kinds:
        for kind in ("base", "window", "interp"):
            jk = kind
            if kd.compact:
                if kind == "window": continue
                if kind == "interp": jk = "cinterp"
            todo = [m for m in meta if meta[m][1] == jk]
            # the arrow forms and the compact aggregate share their inner functions; half of the cases each
            if kd.arrow or kd.compact: todo = todo[(0 if kd.ty == "t" else 1)::2]
            cols = kd.base_cols if kind == "base" else ["duration_in(window)", "duration_in(from)"] if kind == "window" else ["interpolated_duration_in", "interpolated_timeline", "interpolated_periods"][:1 if kd.compact else 3]
            sel = kd.base("h") if kind == "base" else kd.window("h") if kind == "window" else kd.interp("h", "hp")
            src = (f"SELECT j.*, wd * interval '1 us' AS wl, x.{kd.col} AS h, xp.{kd.col} AS hp FROM j JOIN x ON x.cid = j.cid AND x.a = j.a LEFT JOIN x xp ON xp.cid = j.cid AND xp.a = j.p")
            got = ctx.bulk("", lambda w: f"SELECT id, {', '.join(sel)} FROM ({src} WHERE {w.replace('id =', 'j.id =')} OFFSET 0) q", todo, cols)
            for m in todo:
                i, _, A, e, ws, wl, prev = meta[m]
                c, k = cases[i], conc(i)
                ctx.traces += 1; ctx.evals += len(cols) * 3
                if len(c["rows"]) > 1: ctx.nontrivial += 1
                bad = judge(c, k, i % 3, kd, kind, e, ws, wl, dict(zip(cols, got[m])) if m in got else None)
                if bad:
                    ctx.violation(f"state/{kd.name}/{kind}/{bad[0]}", f"{kd.name} over rows (time, state) {c['rows']}, {'rolled up' if A == 0 else 'aggregate %d' % A} of cuts {c['cuts']} ({k.name}, states {(NAMES if kd.ty == 't' else INTS)[i % 3]}), "
                                  f"window {ws} + {wl}, previous {prev}: {bad[0]} is {bad[2]}, the specification says {bad[1]}", {"case": c, "job": [kind, A, e, ws, wl, prev], "sql": sel})
    S = "state_agg(t, s) FROM (VALUES ('2020-01-01 05:00+00'::timestamptz, 'a'), ('2020-01-01 07:00+00', 'b')) v(t, s)"
    for sql, want in [(f"SELECT duration_in(a, 1)::text FROM (SELECT {S}) q(a)", "ERR:"), (f"SELECT duration_in(a, 'a', '2020-01-01', '-1 hour')::text FROM (SELECT {S}) q(a)", "ERR:"),
                      (f"SELECT interpolated_duration_in(a, 'a', '2020-01-01 06:00+00', '1 day', a)::text FROM (SELECT {S}) q(a)", "ERR:"), (f"SELECT duration_in(rollup(a), 'a')::text FROM (SELECT {S} UNION ALL SELECT {S}) q(a)", "ERR:"),
                      (f"SELECT duration_in(rollup(a), 'a')::text FROM (SELECT {S} UNION ALL SELECT {S.replace('05:00', '06:00').replace('07:00', '09:00')}) q(a)", "ERR:"),
                      (f"SELECT duration_in(rollup(a), 'a')::text FROM (SELECT {S} UNION ALL SELECT state_agg('2020-01-05', 7)) q(a)", "ERR:"),
                      ("SELECT duration_in(state_agg(NULL::timestamptz, 'a'::text), 'a')::text", None), ("SELECT (state_agg('2020-01-01'::timestamptz, NULL::text) IS NULL)::text", "true"),
                      ("SELECT (rollup(NULL::stateagg) IS NULL)::text", "true"), ("SELECT duration_in(NULL::stateagg, 'x')::text", "00:00:00")]:
        r = ctx.server.sql("SELECT vtry($q$" + sql + "$q$);").strip()
        ctx.evals += 1
        if want is None: continue
        if not (r.startswith("ERR:") if want == "ERR:" else r == want): ctx.violation("state/const", f"{sql} gives {r!r}, expected {want!r}", {"sql": sql})
    ctx.samples += [cases[len(cases) // 3], cases[-1]]


def judge(c, k, ns, kd, kind, e, ws, wl, g):
    if g is None: return ("row", "a row", None)
    for v in g.values():
        if v and v.startswith("ERR:"): return ("answer", "an answer", v)
    g = {a: (json.loads(v) if v is not None else None) for a, v in g.items()}
    name = lambda s: NAMES[ns][s] if kd.ty == "t" else str(INTS[ns][s])
    us = lambda n: str(n * k.unit)
    per = lambda d: [us(dict(map(tuple, d)).get(s, 0)) for s in range(6)]
    line = lambda tl: [[name(s), str(k.t(a)), str(k.t(b))] for s, a, b in tl]
    periods = lambda tl: [[[str(k.t(a)), str(k.t(b))] for s, a, b in tl if s == z] or None for z in range(6)]
    if kind == "base":
        x = e["x"][0]
        want = {"dur": per(x["dur"]), "timeline": line(x["tl"]), "periods": periods(x["tl"]), "at": [None if s == NULL else name(s) for s in e["at"]]}
        vals = sorted([name(s), us(d)] for s, d in x["dur"])
        if sorted(g["values"] or []) != vals: return ("values", vals, g["values"])
    elif kind == "window":
        want = {"duration_in(window)": per(e["d"])}
    else:
        want = {"interpolated_duration_in": per(e["d"]), "interpolated_timeline": line(e["x"]["tl"]), "interpolated_periods": periods(e["x"]["tl"])}
    for a, w in want.items():
        if a in g and g[a] != w: return (a, w, g[a])
    if kind == "window":
        # from ws on, without an end
        a = "duration_in(from)"
        tl = e["tl"]
        w = [us(sum(max(0, b - max(s0, ws)) for s, s0, b in tl if s == z)) for z in range(6)]
        if g[a] != w: return (a, w, g[a])
    return None
