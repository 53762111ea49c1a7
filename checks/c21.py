"""C21 days_in_month, month_normalize, to_epoch: the clock of Calendar.tla against the functions, in many time zones."""
from core import feq
from pg import copy_in

ZONES = ["UTC", "America/New_York", "Europe/London", "Europe/Berlin", "Australia/Lord_Howe", "Asia/Kathmandu", "America/St_Johns", "Pacific/Apia", "America/Sao_Paulo", "Asia/Tehran",
         "Africa/Casablanca", "Asia/Gaza", "Pacific/Kiritimati", "+13:30", "-11"]


def c21(ctx):
    runs = [(1970 - 30, 30), (1970, ctx.pick(80, 180)), (1896, 8), (2096, 10), (2396, 8), (1, 5)]
    inv = ("Agrees", "Counted", "MonthLengths", "YearLengths", "EmitCase")
    civil = lambda y: (lambda y1: (y1 // 400) * 146097 + ((y1 % 400) * 365 + (y1 % 400) // 4 - (y1 % 400) // 100 + 306) - 719468)(y - 1)
    futs = [ctx.spec("Calendar", {"StartYear": y, "StartDays": civil(y), "Years": n}, invariants=inv, workers=1) for y, n in runs]
    full = ctx.spec("Calendar", {"StartYear": 1600, "StartDays": civil(1600), "Years": 401}, invariants=inv[:-1], workers=1) if ctx.thorough() else None
    ctx.start()
    months = {}
    for f in futs:
        for c in ctx.take(f): months[(c["y"], c["m"])] = c
    if full: ctx.take(full)
    rows, k = [], 0
    order = sorted(months)
    ask = []
    for n, (y, m) in enumerate(order):
        c = months[(y, m)]
        days = sorted({1, c["len"], c["len"] - 1, ctx.rng.randint(1, c["len"])})
        for d in days:
            # the ends of the days and of the months, and times in between
            for tod in ctx.rng.sample(["00:00:00", "23:59:59.999999", "12:30:00", "01:59:59.5", "02:00:00", "03:00:00.000001"], ctx.pick(2, 4)):
                if tod == "02:00:00" and ctx.rng.random() < 0.5: tod = "00:00:00"
                ask.append((k, y, m, d, tod, c["len"])); k += 1
    ctx.server.sql("CREATE UNLOGGED TABLE ask(id int, y int, m int, d int, tod text, len int);\n" + copy_in("ask", ask) + "ANALYZE ask;")
    # local calendar: the month in which the session's clock reads the date
    zones = ZONES if ctx.thorough() else [ZONES[0]] + ctx.rng.sample(ZONES[1:], 7) + (["America/New_York"] if ctx.seed % 2 else ["Europe/Berlin"])
    for z in dict.fromkeys(zones):
        ctx.server.sql("DROP TABLE IF EXISTS lt")
        out = ctx.server.sql(f"""SET timezone TO '{z}';
CREATE UNLOGGED TABLE lt AS SELECT id, make_timestamptz(y, m, d, split_part(tod, ':', 1)::int, split_part(tod, ':', 2)::int, split_part(tod, ':', 3)::float8) AS t, y, m, len FROM ask;
COPY (SELECT id, t, extract(year FROM t), extract(month FROM t), days_in_month(t), month_normalize(1000, t, 30.5), month_normalize(-7.25, t), month_normalize(0.1::float8, t, len), days_in_month(t + '0 days') FROM lt) TO STDOUT;""")
        for l in out.splitlines():
            i, t, ty, tm, dm, n1, n2, n3, dm2 = l.split("\t")
            c = months.get((int(float(ty)), int(float(tm))))
            if c is None: continue       # a skipped local time that fell into a month outside the runs
            ctx.evals += 5
            want = c["len"]
            if dm != str(want) or dm2 != str(want): ctx.violation("days_in_month", f"days_in_month({t}) in {z} is {dm}, the month has {want} days", {"t": t, "zone": z})
            for got, w, what in ((n1, 1000 * 30.5 / want, "1000, t, 30.5"), (n2, -7.25 * (365.25 / 12) / want, "-7.25, t"), (n3, 0.1 * ask[int(i)][5] / want, f"0.1, t, {ask[int(i)][5]}")):
                if not feq(got, w, 1e-12): ctx.violation("month_normalize", f"month_normalize({what}) for {t} in {z} is {got}, expected {w}: the month has {want} days", {"t": t, "zone": z})
    # the epoch: day numbers of the clock, whatever the session's zone and the zone the time is written in
    off = [("Z", 0), ("+05:45", 20700), ("-09:30", -34200), ("+14", 50400)]
    es, want = [], []
    for (i, y, m, d, tod, _) in ask:
        o, s = off[i % 4]
        h, mi, sec = tod.split(":")
        day = months[(y, m)]["first"] + d - 1
        us = (day * 86400 + int(h) * 3600 + int(mi) * 60 - s) * 10 ** 6 + round(float(sec) * 10 ** 6)
        es.append((i, f"{y:04d}-{m:02d}-{d:02d} {tod}{o}")); want.append(us)
    ctx.server.sql("CREATE UNLOGGED TABLE es(id int, t timestamptz);\n" + copy_in("es", es) + "ANALYZE es;")
    for z in ("UTC", "Asia/Kathmandu"):
        out = ctx.server.sql(f"SET timezone TO '{z}'; COPY (SELECT id, to_epoch(t), to_timestamp(to_epoch(t)) - t, t FROM es) TO STDOUT;")
        for l in out.splitlines():
            i, e, back, t = l.split("\t")
            ctx.evals += 2
            w = want[int(i)]
            if abs(float(e) * 10 ** 6 - w) > max(1, abs(w) * 2e-16): ctx.violation("to_epoch", f"to_epoch({es[int(i)][1]}) is {e}, expected {w / 1e6!r}", {"t": es[int(i)][1]})
            if abs(w) < 4 * 10 ** 15 and back not in ("00:00:00", "00:00:00.000001", "-00:00:00.000001"): ctx.violation("to_epoch/inverse", f"to_timestamp(to_epoch({t})) is off by {back}", {"t": t})
    for q in ("days_in_month(NULL)", "month_normalize(NULL, now())", "month_normalize(1, NULL)", "month_normalize(1, now(), NULL)", "to_epoch(NULL)"):
        ctx.evals += 1
        r = ctx.server.sql(f"SELECT ({q}) IS NULL").strip()
        if r != "t": ctx.violation("null", f"{q} is not NULL", {"sql": q})
    ctx.traces += len(ask)
    ctx.nontrivial = len(months)
    ctx.extra["rule"] = "months of the clock's run; every month is asked for at its first and last days and at random ones, at the ends and in the middle of days, in several time zones"
    ctx.samples += [months[order[0]], months[order[-1]]]
