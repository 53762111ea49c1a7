"""The aggregates of the extension over a common table r(id, seq, g, t timestamptz, v float8, k int): how to call each one, which
answers to read from it, and what the cross-cutting properties (C01 to C04) may expect of it.

v may be NULL and is a multiple of 1/4, k is 0..5 and never NULL."""

X = "toolkit_experimental."


class Agg:
    def __init__(self, name, sig, args, ret, ans, ordered=False, combine=True, nulls=True, rollup=None, exact=True, roll_of=None, moving=False, ftypes=None, order_matters=False, tags=()):
        self.name = name            # for messages
        self.sig = sig              # regprocedure
        self.args = args            # SQL of each argument over a row of r
        self.types = ftypes         # argument types, when the signature has anyelement
        self.ret = ret              # result type
        self.ans = ans              # SQL expressions over s
        self.ordered = ordered      # parts must not interleave in time: an error is an answer then
        self.combine = combine      # has combine, serialize and deserialize functions
        self.nulls = nulls
        self.rollup = rollup        # name of the roll-up aggregate
        self.exact = exact          # False: the answers depend on the order within error bounds
        self.roll_of = roll_of
        self.tags = tags

    @property
    def fn(self): return self.sig[:self.sig.index("(")]

    @property
    def argtypes(self): return self.types or self.sig[self.sig.index("(") + 1:-1].split(",")

    def call(self, order="seq", over=None, args=None):
        a = ", ".join(f"({x})::{t}" for x, t in zip(args or self.args, self.argtypes))
        return f"{self.fn}({a}{f' ORDER BY {order}' if order else ''})"

    def answers(self, s="s"):
        return "concat_ws(' | ', " + ", ".join(f"coalesce(({a.replace('$s', s)})::text, 'NULL')" for a in self.ans) + ")"


def fns(*names): return [f"{n}($s)" for n in names]


ZERO = "CASE WHEN abs(slope($s)) > 1e-9 AND num_elements($s) > 1 THEN us({z}_zero_time($s)) END"
LINE = ["slope($s)", "intercept($s)"]
COUNTER = fns("delta", "rate", "time_delta", "idelta_left", "idelta_right", "irate_left", "irate_right", "num_elements", "num_changes", "num_resets", "first_val", "last_val") + LINE + \
    ["us(first_time($s))", "us(last_time($s))", "CASE WHEN abs(slope($s)) > 1e-9 THEN corr($s) END", ZERO.replace("{z}", "counter")]
GAUGE = fns("delta", "rate", "time_delta", "idelta_left", "idelta_right", "irate_left", "irate_right", "num_elements", "num_changes") + LINE + ["CASE WHEN abs(slope($s)) > 1e-9 THEN corr($s) END", ZERO.replace("{z}", "gauge")]
CANDLE = fns("open", "high", "low", "close", "volume", "vwap") + [f"us({x}_time($s))" for x in ("open", "high", "low", "close")]
WEIGHT = fns("average", "first_val", "last_val") + ["integral($s)", "integral($s, 'minute')", "us(first_time($s))", "us(last_time($s))"]
HLL = fns("distinct_count", "stderror") + ["CASE WHEN $s::text LIKE '%Sparse%' THEN 'sparse' ELSE 'dense' END", "md5(substring($s::text FROM '(?:compressed|registers):[[].*'))"]
VAR = "variance{}($s, 'pop') > 1e-9"
STAT1 = fns("num_vals", "sum", "average") + ["CASE WHEN num_vals($s) > 1 THEN variance($s) END", "CASE WHEN variance($s, 'pop') > 1e-9 THEN stddev($s, 'pop') END", "CASE WHEN variance($s, 'pop') > 1e-9 THEN skewness($s) END", "CASE WHEN variance($s, 'pop') > 1e-9 THEN kurtosis($s, 'pop') END"]
STAT2 = fns("num_vals", "sum_x", "sum_y", "average_x", "average_y") + ["CASE WHEN num_vals($s) > 1 THEN variance_x($s) END", "CASE WHEN variance_y($s, 'pop') > 1e-9 THEN stddev_y($s, 'pop') END", "CASE WHEN variance_x($s, 'pop') > 1e-9 THEN skewness_x($s) END", "CASE WHEN variance_y($s, 'pop') > 1e-9 THEN kurtosis_y($s, 'pop') END",
                                                                            "CASE WHEN variance_x($s, 'pop') > 1e-9 THEN slope($s) END", "CASE WHEN variance_x($s, 'pop') > 1e-9 THEN intercept($s) END",
                                                                            "CASE WHEN variance_x($s, 'pop') > 1e-9 AND variance_y($s, 'pop') > 1e-9 THEN corr($s) END", "covariance($s)"]
UDD = fns("num_vals", "mean", "error") + [f"approx_percentile({q}, $s)" for q in (0, 0.1, 0.5, 0.9, 1)] + ["approx_percentile_rank(1, $s)"]
DIG = fns("num_vals", "total", "mean", "min_val", "max_val")
DIGQ = [f"approx_percentile({q}, $s)" for q in (0, 0.25, 0.5, 0.8, 1)] + ["approx_percentile_rank(1, $s)"]
ARR = ["array_to_string(into_array($s), ',')"]
LISTED = lambda kind: [f"(SELECT string_agg(value::text || ':' || min_freq || ':' || max_freq, ',' ORDER BY value) FROM into_values($s{kind}))"]
TV = ["(SELECT count(*) FROM unnest($s))", "(SELECT string_agg(us(x.time) || ':' || coalesce(x.value::text, 'NULL'), ',' ORDER BY x.time, x.value) FROM unnest($s) x)"]


def state_ans(ty, compact):
    sch = X if compact else ""
    st = (lambda k: f"'s{k}'") if ty == "text" else (lambda k: f"{k}::bigint")
    iv = "into_values" if ty == "text" else "into_int_values"
    out = [f"(SELECT string_agg(x.state || ':' || us(x.duration), ',' ORDER BY x.state) FROM {sch}{iv}($s) x)"] + [f"us({sch}duration_in($s, {st(k)}))" for k in (0, 1)]
    if not compact:
        n = "state_timeline" if ty == "text" else "state_int_timeline"
        out += [f"(SELECT string_agg(x.state || ':' || us(x.start_time) || ':' || us(x.end_time), ',' ORDER BY x.start_time) FROM {n}($s) x)",
                f"(SELECT string_agg(us(x.start_time) || ':' || us(x.end_time), ',' ORDER BY x.start_time) FROM state_periods($s, {st(1)}) x)"]
    return out


def one(expr):
    """a summary of one row of r as text"""
    return f"(SELECT ({expr})::text FROM (SELECT r.t, r.v, r.k, r.seq OFFSET 0) x)"


TXT = "'s' || k"
NM = [("max_n", "double precision", "coalesce(v, -7)", "maxfloats"), ("min_n", "double precision", "coalesce(v, -7)", "minfloats"), ("max_n", "bigint", "(coalesce(v, 3) * 4)::bigint", "maxints"),
      ("min_n", "bigint", "(coalesce(v, 3) * 4)::bigint", "minints"), ("max_n", "timestamp with time zone", "t", "maxtimes"), ("min_n", "timestamp with time zone", "t", "mintimes")]

AGGS = [
    Agg("counter_agg", "counter_agg(timestamptz,double precision)", ["t", "abs(v)"], "countersummary", COUNTER, ordered=True, rollup="rollup"),
    Agg("counter_agg with bounds", "counter_agg(timestamptz,double precision,tstzrange)", ["t", "abs(v)", "'[1999-01-01 UTC,2030-01-01 UTC)'"], "countersummary", COUNTER + ["extrapolated_delta($s, 'prometheus')", "extrapolated_rate($s, 'prometheus')"], ordered=True, rollup="rollup"),
    Agg("gauge_agg", "gauge_agg(timestamptz,double precision)", ["t", "v"], "gaugesummary", GAUGE, ordered=True, rollup="rollup"),
    Agg("gauge_agg with bounds", "gauge_agg(timestamptz,double precision,tstzrange)", ["t", "v", "'[1999-01-01 UTC,2030-01-01 UTC)'"], "gaugesummary", GAUGE + ["extrapolated_delta($s, 'prometheus')"] if False else GAUGE, ordered=True, rollup="rollup"),
    Agg("time_weight LOCF", "time_weight(text,timestamptz,double precision)", ["'locf'", "t", "v"], "timeweightsummary", WEIGHT, ordered=True, rollup="rollup"),
    Agg("time_weight Linear", "time_weight(text,timestamptz,double precision)", ["'Linear'", "t", "v"], "timeweightsummary", WEIGHT, ordered=True, rollup="rollup"),
    Agg("candlestick_agg", "candlestick_agg(timestamptz,double precision,double precision)", ["t", "abs(v) + k / 8.0 + seq / 1024.0", "k"], "candlestick", CANDLE, rollup="rollup"),
    Agg("state_agg(text)", "state_agg(timestamptz,text)", ["t", TXT], "stateagg", state_ans("text", False) + ["state_at($s, '2000-01-01 00:00:07 UTC')"], ordered=True, rollup="rollup", nulls=False),
    Agg("state_agg(bigint)", "state_agg(timestamptz,bigint)", ["t", "k"], "stateagg", state_ans("bigint", False) + ["state_at_int($s, '2000-01-01 00:00:07 UTC')"], ordered=True, rollup="rollup", nulls=False),
    Agg("compact_state_agg(text)", X + "compact_state_agg(timestamptz,text)", ["t", TXT], X + "compactstateagg", state_ans("text", True), ordered=True, rollup=X + "rollup", nulls=False),
    Agg("compact_state_agg(bigint)", X + "compact_state_agg(timestamptz,bigint)", ["t", "k"], X + "compactstateagg", state_ans("bigint", True), ordered=True, rollup=X + "rollup", nulls=False),
    Agg("hyperloglog", "hyperloglog(integer,anyelement)", ["64", "v"], "hyperloglog", HLL, rollup="rollup", ftypes=["integer", "double precision"], tags=("hll",)),
    Agg("hyperloglog(text)", "hyperloglog(integer,anyelement)", ["4096", TXT + " || v"], "hyperloglog", HLL, rollup="rollup", ftypes=["integer", "text"], tags=("hll",)),
    Agg("approx_count_distinct", "approx_count_distinct(anyelement)", ["k"], "hyperloglog", HLL, rollup="rollup", ftypes=["integer"], tags=("hll",)),
] + [Agg(f"{n}({t})", f"{n}({t},bigint)", [a, "3"], ret, ARR, rollup="rollup", nulls=False) for n, t, a, ret in NM] + [
    Agg("stats_agg", "stats_agg(double precision)", ["v"], "statssummary1d", STAT1, rollup="rollup", tags=("stats",)),
    Agg("stats_agg(bigint)", "stats_agg(bigint)", ["(v * 4)::bigint"], "statssummary1d", STAT1, rollup="rolling", tags=("stats",)),
    Agg("stats_agg 2D", "stats_agg(double precision,double precision)", ["v", "k"], "statssummary2d", STAT2, rollup="rollup", tags=("stats",)),
    Agg("stats_agg_no_inv", "stats_agg_no_inv(double precision)", ["v"], "statssummary1d", STAT1, rollup="rolling"),
    Agg("stats_agg_no_inv 2D", "stats_agg_no_inv(double precision,double precision)", ["k", "v"], "statssummary2d", STAT2, rollup="rolling"),
    Agg("uddsketch", "uddsketch(integer,double precision,double precision)", ["100", "0.01", "v"], "uddsketch", UDD, rollup="rollup"),
    Agg("percentile_agg", "percentile_agg(double precision)", ["v"], "uddsketch", UDD, rollup="rollup"),
    Agg("tdigest of 100", "tdigest(integer,double precision)", ["100", "v"], "tdigest", DIG, rollup="rollup", tags=("digest",)),
    Agg("tdigest of 10", "tdigest(integer,double precision)", ["10", "v"], "tdigest", DIG, rollup="rollup", tags=("digest",)),
    Agg("timevector", "timevector(timestamptz,double precision)", ["t", "v"], "timevector_tstz_f64", TV, rollup="rollup"),
    Agg("mcv_agg(bigint)", "mcv_agg(integer,bigint)", ["8", "k"], "spacesavingbigintaggregate", LISTED(""), rollup="rollup", nulls=False),
    Agg("mcv_agg(text)", "mcv_agg(integer,double precision,text)", ["8", "1.5", TXT], "spacesavingtextaggregate", LISTED(""), rollup="rollup", nulls=False),
    Agg("raw_mcv_agg", "raw_mcv_agg(integer,anyelement)", ["8", "v"], "spacesavingaggregate", LISTED(", NULL::float8"), rollup="rollup", ftypes=["integer", "double precision"]),
    Agg("freq_agg(bigint)", X + "freq_agg(double precision,bigint)", ["0.05", "k"], "spacesavingbigintaggregate", LISTED(""), rollup="rollup", nulls=False),
    Agg("freq_agg(text)", X + "freq_agg(double precision,text)", ["0.05", TXT], "spacesavingtextaggregate", LISTED(""), rollup="rollup", nulls=False),
    Agg("raw_freq_agg", X + "raw_freq_agg(double precision,anyelement)", ["0.05", TXT], "spacesavingaggregate", LISTED(", NULL::text"), rollup="rollup", ftypes=["double precision", "text"], nulls=False),
    Agg("count_min_sketch", X + "count_min_sketch(text,double precision,double precision)", [TXT, "0.01", "0.01"], X + "countminsketch", [f"{X}approx_count('s{k}', $s)" for k in range(6)], nulls=False),
]
BYNAME = {a.name: a for a in AGGS}

# roll-ups as aggregates: a row is the summary of one row of r
ROLLS = [Agg(f"rollup of {a.name}", f"{a.rollup}({a.ret})", [one(a.call("").replace("(t)", "(x.t)").replace("(v)", "(x.v)"))], a.ret, a.ans, ordered=a.ordered, nulls=a.nulls, roll_of=a, tags=a.tags)
         for a in AGGS if a.rollup and a.name not in ("stats_agg_no_inv", "stats_agg_no_inv 2D", "approx_count_distinct", "percentile_agg", "hyperloglog(text)", "freq_agg(text)")]
for r in ROLLS: r.args = [one(r.roll_of.call(""))]

# no combine function
PLAIN = [
    Agg(f"{n}_by({t})", f"{n}_by({t},anyelement,bigint)", [a, TXT, "3"], ret, ["(SELECT string_agg(x.value || ':' || x.data, ',') FROM into_values($s, NULL::text) x)"], rollup="rollup", nulls=False, combine=False, ftypes=[t, "text", "bigint"])
    for n, t, a, ret in [("max_n", "double precision", "coalesce(v, -7) + seq / 1024.0", "maxbyfloats"), ("min_n", "bigint", "(coalesce(v, 3) * 4)::bigint * 64 + seq", "minbyints"), ("max_n", "timestamp with time zone", "t", "maxbytimes"),
                         ("min_n", "double precision", "coalesce(v, -7) + seq / 1024.0", "minbyfloats"), ("max_n", "bigint", "(coalesce(v, 3) * 4)::bigint * 64 + seq", "maxbyints"), ("min_n", "timestamp with time zone", "t", "minbytimes")]
] + [
    Agg("heartbeat_agg", "heartbeat_agg(timestamptz,timestamptz,interval,interval)", ["t", "'2000-01-01 UTC'", "'200 days'", "'3 seconds'"], "heartbeatagg",
        ["us(uptime($s))", "us(downtime($s))", "num_gaps($s)", "(SELECT string_agg(us(start) || '-' || us(\"end\"), ',' ORDER BY start) FROM live_ranges($s))", "(SELECT string_agg(us(start) || '-' || us(\"end\"), ',' ORDER BY start) FROM dead_ranges($s))"],
        rollup="rollup", combine=False),
    Agg("lttb", "lttb(timestamptz,double precision,integer)", ["t", "v", "4"], "timevector_tstz_f64", TV, combine=False),
    Agg("asap_smooth", "asap_smooth(timestamptz,double precision,integer)", ["t", "v", "3"], "timevector_tstz_f64", TV, combine=False),
    Agg("gp_lttb", X + "gp_lttb(timestamptz,double precision,interval,integer)", ["t", "v", "'4 seconds'", "4"], "timevector_tstz_f64", TV, combine=False),
]
