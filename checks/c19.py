"""C19 lambda expressions: programs of Lambda.tla evaluated by the real language."""
import math
from fractions import Fraction
from core import feq, frac
from series import us_to_ts, US
from pg import copy_in

BASE = 1577836800 * US           # hour 0
HOUR = 3600 * US
PTS = [(-3, Fraction(1, 4)), (0, Fraction(3, 2)), (2, Fraction(0)), (5, Fraction(-2))]
TLAPTS = "<< " + ", ".join(f"<<{t}, <<{v.numerator}, {v.denominator}>>>>" for t, v in PTS) + " >>"
FN = {"D": "f64_lambda", "B": "bool_lambda", "T": "ttz_lambda", "I": "interval_lambda"}
NAMES = ["$x", "$Y_1", "$a2", "$let"]


def token(t, k):
    """text of a token; k varies the spelling"""
    if t[0] == "op": return {"!=": ["!=", "<>"], "and": ["and", "AND", "And"], "or": ["or", "OR"], "not": ["not", "NOT "]}.get(t[1], [t[1]])[k % {"!=": 2, "and": 3, "or": 2, "not": 2}.get(t[1], 1)]
    if t[0] == "val": return ["$value", "$VALUE", "$Value"][k % 3]
    if t[0] == "time": return ["$time", "$TIME"][k % 2]
    if t[0] == "num":
        x = Fraction(t[1], t[2])
        return [repr(float(x)), repr(float(x * 100)) + "e-2", str(x.numerator) if x.denominator == 1 else repr(float(x))][k % 3]
    if t[0] == "t": return "'" + us_to_ts(BASE + t[1] * HOUR) + ["'t", "'t"][k % 2]
    if t[0] == "i":
        h = t[1]
        return "'" + ([f"{h} hours", f"{h * 60} minutes", f"{h * 3600} seconds"] + ([f"{h // 24} days"] if h % 24 == 0 else []))[k % (3 + (h % 24 == 0))] + "'i"
    if t[0] == "var": return NAMES[t[1] - 1]
    if t[0] == "fun": return t[1]
    raise ValueError(t)


def text(ts, k):
    out, prev = "", None
    for n, t in enumerate(ts):
        s = token(t, k + n)
        glue = " " if k % 4 or s[-1:].isalnum() or s[:1].isalnum() or s[0] in "$'" else ""
        if prev is not None and prev[0] == "fun": glue = ""
        out += (glue if out else "") + s
        prev = t
    return out


def program(c, k): return "".join(f"let {NAMES[n]} = {text(l, k + n)};" + (" " if k % 2 else "\n") for n, l in enumerate(c["lets"])) + text(c["text"], k)


def named(c): return any(t[0] == "var" for l in c["lets"] + [c["text"]] for t in l)


def c19(ctx):
    inv = ("Reads", "Sane", "EmitCase")
    small = dict(Pts=TLAPTS, MinSize=1, UnOps='{"neg", "not"}')
    big = dict(Pts=TLAPTS, MinSize=5, MaxLets=2, UnOps='{"neg", "not", "group"}', BinOps='{"+", "-", "*", "/", "^", "<", "<=", ">", ">=", "=", "!=", "and", "or"}', Funs='{"abs", "ceil", "floor", "round", "sign", "trunc", "sqrt"}')
    NUM = '<<"val">>, <<"num", 2, 1>>, <<"num", 1, 2>>, <<"num", 3, 1>>, <<"num", 0, 1>>, <<"num", 9, 4>>'
    futs = [ctx.spec("Lambda", dict(small, Leaves='{<<"val">>, <<"num", 2, 1>>, <<"num", 3, 1>>}', BinOps='{"+", "-", "*", "/", "^", "<", "="}', Funs='{"round"}', MaxSteps=5, MaxLets=0), invariants=inv, workers=2),
            ctx.spec("Lambda", dict(small, Leaves='{<<"val">>, <<"num", 2, 1>>, <<"time">>, <<"i", 2>>, <<"t", 1>>}', BinOps='{"+", "-", "*", "/", "<", ">=", "!=", "and", "or"}', Funs='{"abs"}', MaxSteps=ctx.pick(4, 5), MaxLets=1), invariants=inv, workers=2),
            ctx.spec("Lambda", dict(small, UnOps='{}', Leaves='{<<"val">>, <<"num", 3, 2>>}', BinOps='{"+", "*", ">"}', Funs='{}', MaxSteps=ctx.pick(7, 8), MaxLets=2), invariants=inv, workers=2),
            ctx.spec("Lambda", dict(big, Leaves='{' + NUM + '}', MaxSteps=18), invariants=inv, spec="SpecRandom", simulate=ctx.pick(700, 8000), depth=20, workers=3),
            ctx.spec("Lambda", dict(big, Leaves='{' + NUM + ', <<"time">>, <<"t", 1>>, <<"t", 4>>, <<"i", 2>>, <<"i", 24>>, <<"i", -3>>, <<"i", 1>>}', MaxSteps=22), invariants=inv, spec="SpecRandom", simulate=ctx.pick(700, 8000), depth=24, workers=3)]
    ctx.start()
    cases = []
    for k, f in enumerate(futs):
        cs = ctx.take(f)
        if k < 3:     # many small programs: all the accepted ones, a sample of the rejected
            rej = [c for c in cs if c["type"] == "X"]
            acc = [c for c in cs if c["type"] != "X"]
            if k == 2: acc = [c for c in acc if named(c)]      # this one is about variables
            cs = ctx.rng.sample(acc, min(len(acc), ctx.pick(2500, 10 ** 6))) + ctx.rng.sample(rej, min(len(rej), ctx.pick(500, 20000)))
        cases += cs
    # pairs: a time and a number make a point
    plain = lambda t: [c for c in cases if c["type"] == t and not c["lets"] and [] not in c["vals"]]
    ts, ds = plain("T"), plain("D")
    pairs = [(ctx.rng.choice(ts), ctx.rng.choice(ds)) for _ in range(ctx.pick(300, 3000))] if ts and ds else []
    qs, meaning = [], []
    pts = "(VALUES " + ", ".join(f"({n}, '{us_to_ts(BASE + t * HOUR)}'::timestamptz, {float(v)!r}::float8)" for n, (t, v) in enumerate(PTS)) + ") p(n, t, v)"

    def add(c, what, q): qs.append((len(qs), q)); meaning.append((c, what))
    arr = lambda f, p: f"SELECT string_agg({f}, ' ' ORDER BY n) FROM {p}"
    out = {"D": "%s::text", "B": "%s::text", "T": "us(%s)", "I": "us(%s)"}
    for i, c in enumerate(cases):
        prog = program(c, i + ctx.seed)
        lam = f"$l$ {prog} $l$"
        if c["type"] == "X":
            for f in (FN.values() if i % 7 == 0 else [list(FN.values())[i % 4]]): add(c, f, f"SELECT {f}({lam}, now(), 1)::text")
            continue
        f = FN[c["type"]]
        add(c, f, arr(out[c["type"]] % f"{f}({lam}, t, v)", pts))
        if c["type"] in "DB" and i % 3 == 0: add(c, "trace", f"SELECT string_agg((SELECT (regexp_match(l, '[(](.*)[)]\"$'))[1] FROM trace_lambda({lam}, t, v) WITH ORDINALITY x(l, o) ORDER BY o DESC LIMIT 1), ' ' ORDER BY n) FROM {pts}")
        if c["type"] == "D": add(c, "map", f"SELECT string_agg(value::text, ' ' ORDER BY ordinality) FROM unnest((SELECT timevector(t, v ORDER BY n) FROM {pts}) -> map({lam})) WITH ORDINALITY")
        if c["type"] == "B": add(c, "filter", f"SELECT coalesce(string_agg(value::text, ' ' ORDER BY ordinality), '') FROM unnest((SELECT timevector(t, v ORDER BY n) FROM {pts}) -> filter({lam})) WITH ORDINALITY")
        if i % 5 == 0:
            wrong = FN["BDIT"[(i // 5) % 4]]
            if wrong != f: add(c, "wrong " + wrong, f"SELECT {wrong}({lam}, now(), 1)::text")
    for n, (a, b) in enumerate(pairs):
        prog = f"$l$ {'(' if n % 2 else ''}{text(a['text'], n)}, {text(b['text'], n)}{')' if n % 2 else ''} $l$"
        if n % 3: add((a, b), "point_lambda", f"SELECT string_agg(us((x).time) || ' ' || (x).value, ' ' ORDER BY n) FROM (SELECT n, point_lambda({prog}, t, v) AS x FROM {pts}) q")
        else: add((a, b), "map to points", f"SELECT string_agg(us(time) || ' ' || value, ' ' ORDER BY ordinality) FROM unnest((SELECT timevector(t, v ORDER BY n) FROM {pts}) -> map({prog})) WITH ORDINALITY")
    ctx.server.sql("CREATE UNLOGGED TABLE qs(id int primary key, q text);\n" + copy_in("qs", qs) + "ANALYZE qs;")
    SETUP = "SET search_path TO public, toolkit_experimental;\nSET timezone TO 'UTC';\nSET datestyle TO 'ISO';\n"
    got = ctx.bulk("", lambda w: f"SELECT id, vtry(q) FROM qs WHERE {w}", range(len(qs)), ["r"], pre=SETUP)
    ctx.traces += len(cases) + len(pairs)
    ctx.extra["types"] = {t: sum(c["type"] == t for c in cases) for t in "DBTIX"}
    for k, (c, what) in enumerate(meaning):
        ans = got.get(k, [None])[0]
        ctx.evals += 1
        bad = judge(c, what, ans)
        if bad: ctx.violation(f"lambda/{what}", f"{what}: {qs[k][1]} gives {bad[1]}, the specification says {bad[0]}", {"case": c, "sql": qs[k][1]})
    ctx.nontrivial += sum(c["type"] != "X" for c in cases)
    constants(ctx, SETUP)
    ctx.samples += [cases[0], cases[-1]]


def value(x, t, v, exact):
    if v == []: return True
    v = frac(v)
    if t == "B": return x == ("true" if v else "false")
    if t == "D": return feq(x, v, 1e-9, 1e-11)
    want = v * HOUR + (BASE if t == "T" else 0)
    try: return int(x) == want if exact else abs(int(x) - want) <= 5
    except ValueError: return False


def judge(c, what, ans):
    if ans is None: return ("an answer", None) if what != "filter" else ("an answer", None)
    if isinstance(c, tuple):
        a, b = c
        want = str([(str(frac(x)), str(frac(y))) for x, y in zip(a["vals"], b["vals"])])
        g = ans.split(" ")
        if ans.startswith("ERR:") or len(g) != 2 * len(PTS): return (want, ans)
        ok = all(value(g[2 * n], "T", a["vals"][n], a["exact"][n]) and value(g[2 * n + 1], "D", b["vals"][n], True) for n in range(len(PTS)))
        return None if ok else (want, ans)
    if c["type"] == "X" or what.startswith("wrong"): return None if ans.startswith("ERR:") else ("an error: the types do not fit", ans)
    want = str([None if v == [] else str(frac(v)) for v in c["vals"]])
    if ans.startswith("ERR:"): return None if c["type"] in "TIB" and [] in c["vals"] else (want, ans)
    g = ans.split(" ") if ans else []
    if what == "filter":
        if [] in c["vals"]: return None
        return None if [float(x) for x in g] == [float(p[1]) for p, v in zip(PTS, c["vals"]) if frac(v)] else (want, ans)
    if len(g) != len(PTS): return (want, ans)
    return None if all(value(x, c["type"], v, e) for x, v, e in zip(g, c["vals"], c["exact"])) else (want, ans)


def constants(ctx, setup):
    tests = []
    f64 = lambda l, v="1": f"SELECT f64_lambda($l${l}$l$, '2020-01-01 UTC', {v})"
    near = lambda l, pg, v: f"SELECT abs(f64_lambda($l${l}$l$, '2020-01-01 UTC', {v}) - ({pg.replace('$', v)})::float8) <= 1e-12 * greatest(1, abs(({pg.replace('$', v)})::float8))"
    for v in ("0.3::float8", "0.9::float8", "0.01::float8"):
        for l, pg in [("cbrt($value)", "cbrt($)"), ("ln($value)", "ln($)"), ("log10($value)", "log($)"), ("log($value, 3)", "ln($) / ln(3::float8)"), ("sqrt($value)", "sqrt($)"), ("pi() * $value", "pi() * $"), ("acos($value)", "acos($)"), ("asin($value)", "asin($)"),
                      ("atan($value)", "atan($)"), ("atan2($value, 2)", "atan2($, 2)"), ("cos($value)", "cos($)"), ("sin($value)", "sin($)"), ("tan($value)", "tan($)"), ("sinh($value)", "sinh($)"), ("cosh($value)", "cosh($)"), ("tanh($value)", "tanh($)"),
                      ("asinh($value)", "asinh($)"), ("acosh($value + 1)", "acosh($ + 1)"), ("atanh($value)", "atanh($)"), ("$value ^ 0.5", "sqrt($)"), ("2 ^ $value", "power(2::float8, $)"), ("$value ^ -1.5", "power($, -1.5::float8)"), ("exp1()", None), ("log(8, 2)", "3")]:
            if pg: tests.append((near(l, pg, v), "true"))
    tests += [(f64("-2^2"), "4"), (f64("2^3^2"), "512"), (f64("-$value^2", "3"), "9"), (f64("2 - 3 - 4"), "-5"), (f64("2 - -3"), "5"), (f64("8 / 4 / 2"), "1"), (f64("1 + 2 * 3 ^ 2"), "19"), (f64("1/0"), "Infinity"), (f64("-1/0"), "-Infinity"), (f64("0/0"), "NaN"),
              (f64("sign(0)"), "0"), (f64("sign($value)", "'nan'"), "NaN"), (f64("sign(-0.1)"), "-1"), (f64("round(2.5)"), "3"), (f64("round(-2.5)"), "-3"), (f64("trunc(-2.7)"), "-2"), (f64("let $a = $value + 1; let $b = $a * $a; $b - $a", "2"), "6"),
              (f64("(let $b = 2; $b + 1) * $b"), "6"), (f64("let $a = 1; let $a = 2; $a"), "ERR"), (f64("$a"), "ERR"), (f64("nofun(1)"), "ERR"), (f64("abs(1, 2)"), "ERR"), (f64("log(2)"), "ERR"), (f64("1 +"), "ERR"), (f64("(1"), "ERR"), (f64("1) + (2"), "ERR"), (f64(""), "ERR"), (f64("1 2"), "ERR"),
              (f64("true"), "ERR"), (f64("'x"), "ERR"), (f64("$time"), "ERR"), (f64("$time - $time"), "ERR"), (f64("-$time"), "ERR"), (f64("1 and 2"), "ERR"), (f64("not 1"), "ERR"), (f64("'no time't"), "ERR"), (f64("'no interval'i"), "ERR"), (f64("let $a = $b; let $b = 1; $a"), "ERR"),
              ("SELECT bool_lambda($l$not 1 = 2$l$, now(), 1)", "ERR"), ("SELECT bool_lambda($l$not (1 = 2)$l$, now(), 1)", "true"), ("SELECT bool_lambda($l$1 < 2 < 3$l$, now(), 1)", "ERR"), ("SELECT bool_lambda($l$1 < 2 = (3 < 4)$l$, now(), 1)", "true"),
              ("SELECT bool_lambda($l$$value = $value$l$, now(), 'nan')", "false"), ("SELECT bool_lambda($l$$value != $value$l$, now(), 'nan')", "true"), ("SELECT bool_lambda($l$$value < 1 or $value >= 1$l$, now(), 'nan')", "false"),
              ("SELECT bool_lambda($l$'1 day'i = '24 hours'i$l$, now(), 1)", "true"), ("SELECT bool_lambda($l$'1 month'i > '29 days'i$l$, now(), 1)", "true"), ("SELECT bool_lambda($l$($time, $value) = ($time, $value)$l$, now(), 1)", "true"), ("SELECT bool_lambda($l$($time, $value) = ($time, 2)$l$, now(), 1)", "false"),
              ("SELECT interval_lambda($l$'1 month'i + '1 day'i$l$, now(), 1)", "1 mon 1 day"), ("SELECT ttz_lambda($l$$time + '1 month'i$l$, '2020-01-31 UTC', 1)", "2020-02-29 00:00:00+00"), ("SELECT interval_lambda($l$0.5 * '1 day'i$l$, now(), 1)", "12:00:00"), ("SELECT interval_lambda($l$'1 day'i / 4$l$, now(), 1)", "06:00:00"),
              ("SELECT point_lambda($l$$time, $value$l$, '2020-01-01 UTC', 5)", '("2020-01-01 00:00:00+00",5)'), ("SELECT point_lambda($l$$value, $time$l$, '2020-01-01 UTC', 5)", "ERR"), ("SELECT point_lambda($l$$time$l$, now(), 5)", "ERR"), ("SELECT point_lambda($l$$time, $value, 1$l$, now(), 5)", "ERR"),
              ("SELECT 'not a program +'::lambda", "ERR"), ("SELECT f64_lambda(('$value + 1'::lambda::text)::lambda, now(), 2)", "3")]
    for sql, want in tests:
        r = ctx.server.sql(setup + "SELECT vtry($q$" + sql + "$q$);").strip()
        ctx.evals += 1
        if not (r.startswith("ERR:") if want == "ERR" else r == want): ctx.violation("lambda/const/" + sql, f"{sql} gives {r!r}, expected {want!r}", {"sql": sql})
