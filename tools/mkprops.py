#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

E = "extension/src/"
prop("C01", "Partial aggregation is independent of how the work is split and shipped",
 "For every aggregate with partial-aggregation support, splitting the input rows over any number of (possibly empty) partial states, combining them in any tree and order, and serializing and deserializing any of the states on the way gives an aggregate whose accessors answer exactly what a single pass over the rows answers (up to floating-point rounding; for tdigest, freq_agg and mcv_agg the exact counters and the documented error bounds). "
 "Aggregates over time that need each partial to cover its own time range reject partials whose time ranges overlap with an error instead of returning a wrong answer. "
 "A partial state that saw no row is neutral.",
 ["schedules", "inputs"], "all assignments of rows to partial states, all combine trees, all placements of serialize/deserialize, all row multisets",
 "pg_tests mostly call the combine and serialize functions once on two hand-made halves, or not at all; PostgreSQL only uses them under parallel or partitionwise plans, which no stable test forces; the quantifier is over schedules.",
 [E+"counter_agg.rs", E+"gauge_agg.rs", E+"time_weighted_average.rs", E+"state_aggregate.rs", E+"candlestick.rs", E+"nmost.rs", E+"frequency.rs", E+"countminsketch.rs", E+"hyperloglog.rs", E+"uddsketch.rs", E+"tdigest.rs", E+"stats_agg.rs", E+"time_vector.rs", E+"serialization.rs"],
 [("combine and serialize functions of each aggregate", E+"*_combine*, *_serialize, *_deserialize"), ("bincode based state serialization", E+"serialization.rs do_serialize!/do_deserialize!")],
 [("transition state", "internal state of one worker", "Internal<...TransState> in each module")],
 ["aggregate result and all its accessors"])
prop("C02", "rollup() of aggregates equals the aggregate of all their rows",
 "Rolling up aggregates that were built over groups of rows (groups that do not overlap in time where the aggregate is ordered by time) gives an aggregate whose accessors answer what one aggregate over all the rows answers, whatever the grouping, however deep the rollups are nested, and (except for min_n/max_n, which refuse NULL aggregates) whether or not NULL aggregates from groups without usable rows are mixed in. "
 "This holds for counter_agg, gauge_agg, time_weight, state_agg, compact_state_agg, candlestick, heartbeat_agg, min_n/max_n and their _by forms, stats_agg, hyperloglog, uddsketch and timevector; for tdigest, freq_agg and mcv_agg it holds for the exact counters and the documented error bounds. "
 "Rolling up only NULLs gives NULL (or an error for min_n/max_n).",
 ["inputs", "programs"], "all groupings of all row multisets into sub-aggregates and all nestings of rollup",
 "each aggregate has one or two rollup tests on fixed groups; nothing covers nested rollups, under-full groups, NULL aggregates or unusual groupings.",
 [E+"counter_agg.rs", E+"gauge_agg.rs", E+"time_weighted_average.rs", E+"state_aggregate/rollup.rs", E+"candlestick.rs", E+"heartbeat_agg.rs", E+"nmost.rs", E+"frequency.rs", E+"hyperloglog.rs", E+"uddsketch.rs", E+"tdigest.rs", E+"stats_agg.rs", E+"time_vector.rs"],
 [("rollup transition functions", E+"*rollup*")])
prop("C03", "Aggregates survive text, binary and table storage unchanged",
 "Any aggregate value that the system produces can be written out as text and read back, put into and taken out of arrays and composite rows, and stored in and fetched from a table (inline, compressed or out of line), any number of times and under any session time zone and date style, and every accessor of the value, and its text form, are after it exactly what they were before. "
 "This includes NaN, infinities and negative zero, minimal and maximal timestamps, absent optional fields, and state names and text data with quotes, backslashes, line breaks or non-ASCII characters, values over user-defined types and collations of any names, and databases of other encodings, locale providers and templates. Text that is cut short or has something appended is refused with an error, and no text, however damaged, takes the server down.",
 ["inputs"], "all values of all aggregate types reachable through SQL",
 "the tests round-trip a handful of fixed values per type, and fix the text of a few.",
 [E+"type_builder.rs", E+"serialization.rs", E+"serialization/", "crates/flat_serialize/", E+"state_aggregate.rs", E+"time_vector.rs"],
 [("pg_type! in/out functions using RON", E+"type_builder.rs"), ("flat_serialize layout", "crates/flat_serialize/flat_serialize_macro")])
prop("C04", "Window frames give each row the aggregate of exactly its frame",
 "Used as a window function, every aggregate gives for each row the result that the plain aggregate gives over the rows of that row's frame, for growing frames (where the result is taken while the aggregation continues) and for sliding frames (including the frames where rows leave again, for stats_agg and its rollup/rolling forms). "
 "Reading a result never changes the results that follow.",
 ["histories", "inputs"], "all row sequences and all frame specifications",
 "the tests take the result once, at the end; sliding-frame tests cover stats_agg on a few random sequences only.",
 [E+"nmost.rs", E+"state_aggregate.rs", E+"stats_agg.rs", "crates/stats-agg/src/stats1d.rs", "crates/stats-agg/src/stats2d.rs", E+"counter_agg.rs", E+"candlestick.rs", E+"heartbeat_agg.rs"],
 [("final functions", E+"*_final"), ("inverse transition functions", E+"stats_agg.rs stats1d_inv_trans, stats2d_inv_trans")])
prop("C05", "counter_agg reports reset-adjusted change over time",
 "For any set of (time, value) rows in any order (rows with a NULL time or value ignored; of rows with the same time the first one fed counts), counter_agg's accessors answer as defined on the time-ordered points: a point lower than its predecessor is a reset and restarts the counter from zero, so delta is last minus first plus the values reached before each reset, rate is delta over time_delta in seconds, idelta/irate use the first or last two points with that same reset rule, and num_elements, num_changes, num_resets, first/last value and time count and name those points. "
 "slope, intercept, corr and counter_zero_time are those of the least-squares line through the reset-adjusted points. "
 "With fewer points than an answer needs the answer is NULL (or 0 for delta, time_delta, idelta and the counts), and no rows give NULL.",
 ["inputs", "histories"], "all multisets and orders of rows",
 "tests sample fixed sequences and some random monotone ones; the resets, ties and orders multiply.",
 ["crates/counter-agg/src/lib.rs", E+"counter_agg.rs", E+"counter_agg/accessors.rs", "crates/stats-agg/src/stats2d.rs", E+"accessors.rs"],
 [("CounterSummaryBuilder::add_point / combine", "crates/counter-agg/src/lib.rs"), ("stats2d offset", "crates/stats-agg/src/stats2d.rs")],
 [("CounterSummary", "first, second, penultimate, last, reset_sum, num_resets, num_changes, stats, bounds", "crates/counter-agg/src/lib.rs")])
prop("C06", "gauge_agg reports plain change over time",
 "For any set of (time, value) rows in any order (rows with a NULL time or value ignored; of rows with the same time the first one fed counts), gauge_agg's accessors answer as defined on the time-ordered points with no reset adjustment: delta is last minus first, rate is delta over the seconds between them, idelta/irate use the first or last two points (where, as for counters, a drop counts as a restart from zero), num_elements and num_changes count the points and the value changes. "
 "slope, intercept, corr and gauge_zero_time are those of the least-squares line through the points. "
 "With fewer points than an answer needs the answer is NULL (or 0 for delta, time_delta and idelta), and no rows give NULL.",
 ["inputs", "histories"], "all multisets and orders of rows",
 "few fixed sequences are tested.",
 [E+"gauge_agg.rs", "crates/counter-agg/src/lib.rs", E+"accessors.rs"],
 [("GaugeSummaryBuilder", "crates/counter-agg/src/lib.rs")])
prop("C07", "Counter and gauge answers for a time window extrapolate as documented",
 "With bounds attached, extrapolated_delta and extrapolated_rate (method 'prometheus') follow the Prometheus rule: the observed delta is stretched towards each bound, fully when the gap to it is below 1.1 times the average spacing and by half the spacing otherwise, and never past the point where the counter would have been zero. "
 "interpolated_delta and interpolated_rate over a window answer the reset-adjusted (for gauges plain) change between the values linearly interpolated at the window's start and end, using the neighbouring aggregates where they are given and where the window does not begin or end on a point, and otherwise the aggregate's own first or last point. "
 "Bounds that do not contain the aggregate's points are rejected, and extrapolation without bounds is an error.",
 ["inputs"], "all point sequences, bounds, windows and neighbouring aggregates",
 "two or three fixed examples are tested.",
 ["crates/counter-agg/src/lib.rs", "crates/counter-agg/src/range.rs", E+"counter_agg.rs", E+"gauge_agg.rs", E+"range.rs"],
 [("prometheus_delta/rate", "crates/counter-agg/src/lib.rs"), ("interpolate / interpolated_delta", E+"counter_agg.rs CounterSummary::interpolate"), ("I64Range", "crates/counter-agg/src/range.rs")])
prop("C08", "time_weight integrates the series by its interpolation method",
 "For any set of (time, value) rows in any order (NULLs ignored, of rows with equal time the first one fed counts), integral answers the area under the time-ordered series, holding each value until the next point for 'LOCF' and joining the points by straight lines for 'Linear', in the requested time unit, and average answers that area over the time from first to last point; first/last value and time name those points. "
 "interpolated_average and interpolated_integral do so over exactly the given window: LOCF carries the previous aggregate's last value in and the own last value to the window's end, Linear interpolates to the window's edges from the previous and next aggregates where given. "
 "An aggregate of zero duration has no average, no rows give NULL, and rolling up time weights of different methods is an error.",
 ["inputs", "histories"], "all multisets and orders of rows, windows, neighbours, methods, units",
 "a few fixed sequences.",
 ["crates/time-weighted-average/src/lib.rs", E+"time_weighted_average.rs", E+"time_weighted_average/accessors.rs", E+"duration.rs", "crates/tspoint/src/lib.rs"],
 [("TimeWeightSummary accum/combine/with_prev/with_next", "crates/time-weighted-average/src/lib.rs")],
 [("TimeWeightSummary", "first, last, weighted sum", "crates/time-weighted-average/src/lib.rs")])
prop("C09", "state_agg accounts for every instant between state changes exactly once",
 "For any rows (time, state) in any order (NULL states ignored, repeated states merged, two different states at one time rejected), each state holds from its row until the next state change and the last one until the last row; duration_in, into_values, state_timeline, state_periods and state_at (text or integer states; compact_state_agg for the duration accessors) all answer from that one timeline, so durations of all states add up to the covered span. "
 "With a window given, duration_in counts only the part inside the window, and the interpolated forms extend the previous aggregate's last state from the window's start to the first row and the own last state to the window's end, never beyond the window. "
 "Rolling up credits the gap between aggregates to the state in which the earlier one ended.",
 ["inputs", "histories"], "all row sets, orders, groupings, windows and neighbouring aggregates",
 "fixed examples only; boundaries between window edges and state changes are not enumerated.",
 [E+"state_aggregate.rs", E+"state_aggregate/accessors.rs", E+"state_aggregate/rollup.rs"],
 [("StateAgg::new, get, interpolate; MaterializedState/trans", E+"state_aggregate.rs"), ("rollup combine", E+"state_aggregate/rollup.rs")],
 [("durations, state_periods", "per-state total and timeline", E+"state_aggregate.rs")])
prop("C10", "heartbeat_agg partitions its range into live and dead time exactly",
 "For any heartbeats in any order inside the aggregate's range, the system is live at an instant of the range exactly when some heartbeat lies at most the liveness interval before it; uptime, downtime, live_ranges, dead_ranges, live_at, num_live_ranges and num_gaps all answer from that one partition (uptime and downtime add up to the range, the ranges are disjoint, ordered, and merged when they touch). "
 "interpolate and interpolated_uptime/downtime additionally count the liveness that the previous aggregate's last heartbeat carries into the range, rollup answers for the union of the ranges as if all heartbeats had been seen together, and trim_to answers the same partition restricted to the given window. "
 "Heartbeats outside the range, or questions about instants outside it, are rejected.",
 ["inputs", "histories"], "all heartbeat sets and orders, ranges, liveness intervals, neighbours, groupings and trim windows",
 "fixed examples; batching at 1000 heartbeats, touching intervals and trims in gaps are not enumerated.",
 [E+"heartbeat_agg.rs", E+"heartbeat_agg/accessors.rs"],
 [("HeartbeatTransState insert/process_batch/combine_intervals", E+"heartbeat_agg.rs"), ("trim_to, interpolate_start, rollup", E+"heartbeat_agg.rs")])
prop("C11", "candlestick answers open, high, low, close, volume and vwap of its ticks",
 "For any ticks (time, price, volume) in any order (ticks with NULL time or price ignored), open and close are the prices at the earliest and latest time, high and low the greatest and least price, each *_time the time of that tick (the earliest fed one on ties), volume the sum of the volumes and vwap the volume-weighted mean price; if any volume is NULL, volume and vwap are NULL (vwap also when the total volume is not positive), and no usable ticks give NULL. "
 "candlestick(ts, open, high, low, close, volume) makes the same from given values, with all four times at ts and the typical price (high+low+close)/3 in vwap, and rollup of candlesticks answers the open of the earliest, the close of the latest, the extremes of all and the vwap of the total.",
 ["inputs", "histories"], "all tick multisets, orders and groupings",
 "fixed examples, no ties, no NULL mixes beyond one.",
 [E+"candlestick.rs"],
 [("Candlestick::from_tick/add_tick_data/combine", E+"candlestick.rs")])
prop("C12", "min_n/max_n and their _by forms keep exactly the n extreme rows",
 "For any rows of an integer, float or timestamp column and any positive n, min_n (max_n) followed by into_array or into_values answers the n smallest (largest) of the values with their multiplicities in ascending (descending) order, or all of them when there are fewer. "
 "min_n_by (max_n_by) answers the same with each value's accompanying data, every row appearing at most as often as it was fed. "
 "Rolling up aggregates of the same n answers the n extreme of all their rows together; no rows give NULL.",
 ["inputs", "histories"], "all multisets, orders, groupings and n",
 "random tests exist for the plain aggregates but only for large n<input and one grouping.",
 [E+"nmost.rs", E+"nmost/"],
 [("NMostTransState belongs_in_heap/new_entry/combine", E+"nmost.rs"), ("nmost_rollup_trans_function", E+"nmost.rs")])
prop("C13", "Frequency sketches bracket every true count and never miss a frequent value",
 "For any stream of values, freq_agg(f) lists every value whose share of the rows is at least f, mcv_agg never loses a value that occurs in more rows than the sketch's guaranteed resolution allows, and for every listed value the reported min_freq and max_freq bracket its true share, with min_frequency/max_frequency answering the same numbers; when the number of distinct values fits the sketch, the numbers are exact. "
 "topn answers the most frequent listed values in descending order of frequency, at most n of them, and refuses rather than guesses for skews it cannot support. "
 "approx_count of a count_min_sketch never underestimates, is exact when there are no collisions (a single distinct value), and is never more than the total number of rows fed.",
 ["inputs", "histories", "schedules"], "all streams, orders, sketch parameters and partial-aggregation schedules",
 "tests use long fixed Zipf streams and exact checks on a handful of values.",
 [E+"frequency.rs", E+"countminsketch.rs", "crates/count-min-sketch/src/lib.rs"],
 [("SpaceSavingTransState add/combine", E+"frequency.rs"), ("CountMinSketch add_value/estimate/combine", "crates/count-min-sketch/src/lib.rs")])
prop("C14", "hyperloglog counts distinct values within its error and mergeably",
 "The distinct_count of a hyperloglog depends only on the set of values fed: repetitions, order, grouping into rollups and NULLs change nothing, and values that are equal under their type's and collation's equality count once. "
 "As long as the distinct values number at most an eighth of the buckets (and at most a few hundred) it is exact, beyond that it stays within a small multiple of stderror (1.04 over the square root of the bucket count, the requested size rounded up to a power of two) of the truth, and adding values never makes the merged sketch disagree with the sketch of the union. "
 "Rolling up sketches of different sizes, and sizes that do not round up to a power of two in 16..262144, are rejected with an error.",
 ["inputs", "histories", "schedules"], "all value sets, multiplicities, orders, sizes and merge trees, including those crossing from sparse to dense",
 "tests check a few fixed counts; the sparse-to-dense boundary, and merges across it, are sampled once.",
 ["crates/hyperloglogplusplus/src/lib.rs", "crates/hyperloglogplusplus/src/sparse.rs", "crates/hyperloglogplusplus/src/dense.rs", "crates/hyperloglogplusplus/src/registers.rs", E+"hyperloglog.rs"],
 [("sparse/dense add, merge and conversion", "crates/hyperloglogplusplus/src/")])
prop("C15", "uddsketch percentiles are within the reported error of the true quantile",
 "For any set of finite values of either sign and any size of at least 5, approx_percentile(q) of an uddsketch/percentile_agg answers a value whose relative difference to the exact q-quantile value of the rows is at most the sketch's error(), and error() is the requested max_error as long as the distinct buckets fit the sketch size and otherwise grows only by the documented doubling steps. "
 "num_vals and mean are exact, NULLs are ignored, approx_percentile_rank inverts approx_percentile up to the bucket that holds the value, and both are monotone. "
 "Order, grouping and rollups of sketches with equal parameters change none of the answers; different parameters are rejected.",
 ["inputs", "histories", "schedules"], "all finite value multisets, sketch sizes, errors, quantiles and merge trees",
 "fixed data sets with hard-coded results.",
 ["crates/udd-sketch/src/lib.rs", E+"uddsketch.rs"],
 [("UDDSketch add_value/compact/merge/estimate_quantile", "crates/udd-sketch/src/lib.rs")])
prop("C16", "tdigest keeps exact totals and monotone, bounded quantiles",
 "For any set of values (NULL and NaN ignored), a tdigest's num_vals, mean, min_val and max_val are exact, approx_percentile(0) and (1) are the minimum and maximum, approx_percentile is non-decreasing in the quantile and never leaves [min, max], and approx_percentile_rank is non-decreasing, 0 below the minimum and 1 at or above the maximum. "
 "While the digest is large enough to keep all values apart the quantiles lie between the neighbouring order statistics of the rows, and otherwise the rank error stays within what the digest's size allows. "
 "This holds after any grouping and rollup; digests of different sizes are rejected.",
 ["inputs", "histories", "schedules"], "all value multisets, sizes, quantiles and merge trees",
 "fixed data sets with loose tolerance.",
 ["crates/t-digest/src/lib.rs", "crates/t-digest-lib/src/lib.rs", E+"tdigest.rs"],
 [("TDigest merge_sorted/merge_digests/estimate_quantile", "crates/t-digest/src/lib.rs")])
prop("C17", "stats_agg answers the moments and regression of its rows",
 "For any set of rows (rows with a NULL ignored), the accessors of one-dimensional and two-dimensional stats_agg answer the textbook count, sum, average, sample and population variance, standard deviation, skewness, kurtosis and covariance, and the least-squares slope, intercept, x_intercept, correlation and determination coefficient of those rows, up to floating-point rounding. "
 "Where the quantity is undefined (no rows, too few rows, no variation) the answer is NULL or NaN (for skewness and kurtosis without variation possibly infinite) and never a wrong number. "
 "Order, grouping and rollups do not matter.",
 ["inputs", "histories", "schedules"], "all row multisets, orders and merge trees",
 "fixed data sets, though compared with PostgreSQL's own regr functions in places.",
 ["crates/stats-agg/src/stats1d.rs", "crates/stats-agg/src/stats2d.rs", "crates/stats-agg/src/lib.rs", E+"stats_agg.rs"],
 [("StatsSummary1D/2D accum/combine/m3/m4 helpers", "crates/stats-agg/src/")])
prop("C18", "timevector pipelines transform each point as their elements say, in order",
 "A timevector holds exactly the fed (time, value) points (rows with a NULL time dropped, NULL values kept), and unnest, materialize, rollup and asof join return them as defined; each pipeline element (sort, delta, map, filter, fill_to, arithmetic and rounding functions) changes the points exactly as documented and keeps the nullness of each point attached to that point; elements that need ordered or NULL-free points (delta, fill_to) raise an error on any other vector instead of answering wrongly. "
 "Applying a composed pipeline equals applying its elements one after the other, whether or not the planner folds it to a constant, and the finalizers (sum, average, num_vals, stats_agg, counter_agg, percentile_agg, hyperloglog, unnest) equal the aggregate over the unnested points. "
 "No pipeline over a valid timevector crashes or hangs.",
 ["inputs", "programs"], "all timevectors and all pipelines",
 "each element has one or two fixed examples; compositions and NULLs within the vector are barely tested.",
 [E+"time_vector.rs", E+"time_vector/pipeline.rs", E+"time_vector/pipeline/", E+"time_vector/iter.rs"],
 [("run_pipeline_elements", E+"time_vector/pipeline.rs"), ("elements", E+"time_vector/pipeline/*.rs")])
prop("C19", "Lambda expressions evaluate by the documented grammar and SQL arithmetic",
 "A lambda expression used by map, map_data, map_series or filter evaluates for every point as its grammar says: a unary minus or not binds tightest, then ^ to the right, then * and /, then + and -, then comparisons, then and, then or; $time and $value name the point, let binds variables for the expression that follows, and a pair of time and value makes the new point. "
 "Numbers, booleans, times and intervals follow SQL arithmetic (time plus or minus interval), and every named function computes its mathematical namesake with its arguments in the documented order. "
 "Expressions that do not type-check or use unknown names are rejected when parsed.",
 ["programs", "inputs"], "all expressions of the grammar and all points",
 "each operator has one or two examples; nesting, associativity and precedence mixes are barely tested.",
 [E+"time_vector/pipeline/lambda.rs", E+"time_vector/pipeline/lambda/", E+"time_vector/pipeline/lambda/lambda_expr.pest"],
 [("parser", E+"time_vector/pipeline/lambda/parser.rs"), ("executor", E+"time_vector/pipeline/lambda/executor.rs")])
prop("C20", "Downsampling keeps real points, the ends and the time order",
 "lttb answers at most the requested number of points, each of them one of the input points, in the input's time order, with the first and last point kept, the whole input when it is small enough, and in each of the equal-width buckets between them the point that makes the largest triangle with the previously chosen point and the average of the next bucket. "
 "gp_lttb does so on each run of points without gaps larger than the limit and keeps both ends of every run, answering no more points than requested unless those ends alone are more. "
 "asap_smooth averages the input over equal runs so that fewer than about twice the requested number remain, then over the window of those that leaves the smoothest series among the windows it tries without lowering the kurtosis; the answer is in time order, at times of input points, each value within the range of the input values, and the aggregate and the timevector form agree.",
 ["inputs"], "all series, resolutions and gap limits",
 "one or two fixed series.",
 [E+"lttb.rs", E+"asap.rs", "crates/asap/src/lib.rs"],
 [("lttb", E+"lttb.rs"), ("gap preserving lttb", E+"lttb.rs"), ("asap_smooth", "crates/asap/src/lib.rs")])
prop("C21", "Calendar helpers follow the calendar of the session's time zone",
 "days_in_month answers the number of days of the month in which the given time falls on the session's clock, and month_normalize scales a metric by the wanted number of days (365.25/12 unless given) over exactly that number, whatever the day of the month, the time of day, the time zone and the clock changes in the month. "
 "to_epoch answers the seconds since 1970-01-01 00:00 UTC including fractions, independently of the session's time zone, and is undone by to_timestamp. NULL arguments give NULL.",
 ["inputs"], "all times, time zones, metrics and numbers of days",
 "a handful of dates in one time zone; not one date near a clock change.",
 [E+"utilities.rs"],
 [("days_in_month, month_normalize, to_epoch", E+"utilities.rs")])
prop("C22", "Saturating integer arithmetic never wraps and never fails",
 "saturating_add, saturating_sub and saturating_mul answer the exact result of the operation on two integers, or the end of the 32-bit integer range nearest to it; saturating_add_pos and saturating_sub_pos answer the exact result, or zero where it is negative, or the largest integer where it is too large. No arguments raise an error, NULL arguments give NULL.",
 ["inputs"], "all pairs of 32-bit integers and all nestings of the operations",
 "one example per function.",
 [E+"saturation.rs"],
 [("saturating_*", E+"saturation.rs")])
prop("C23", "A timevector rendered by to_text or to_plotly reads back as the same points",
 "to_plotly answers a JSON object with the lists of the vector's times (as the session writes timestamps) and of its values, entry by entry in the vector's order, each value written so that it reads back exactly and NULL written as null; to_text gives a template the same two lists as TIMES and VALUES and the pairs as TIMEVALS, a JSON list of the points. "
 "A vector with a value that is not finite, and a template that cannot be rendered, are refused with an error.",
 ["inputs"], "all vectors, templates over TIMES, VALUES and TIMEVALS, and session time zones",
 "one vector of five points.",
 [E+"time_vector.rs"],
 [("format_timevector", E+"time_vector.rs")])
prop("C24", "An update leaves exactly the new version, and what users made of stable parts",
 "post-install turns the built package into one whose library, scripts and control file name their version, with an update script from every version that the control file lists as upgradeable. On an installation of such a version - which has what had become stable by then - the update script to the later version succeeds and leaves exactly the functions, aggregates, types, operators, casts and schemas of a fresh installation of the later version, every function bound to the later version's library; updates may follow each other. "
 "What users made of stable objects (views, columns and the data in them) is untouched by it, what they made of experimental objects goes with those.",
 ["history", "inputs"], "all pairs of an earlier and a later version, all chains of updates, and all user objects made of the installed ones",
 "one operator in one update script, as text; no update script is ever run.",
 ["tools/post-install/src/update_script.rs", "tools/post-install/src/main.rs", E+"stabilization_info.rs"],
 [("generate_from_install, new_objects", "tools/post-install/src/update_script.rs"), ("generate_update_scripts, add_version_to_*", "tools/post-install/src/main.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
