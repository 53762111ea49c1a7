"""C12 min_n/max_n: behaviours of NMost.tla replayed as queries."""
from collections import Counter
from pg import copy_in

# monotone embeddings of the abstract values 0..9 into each type (text as PostgreSQL prints it)
INTS = [["-9223372036854775808", "-5000000000", "-7", "-1", "0", "1", "42", "4294967296", "9007199254740993", "9223372036854775807"],
        ["-4", "-3", "-2", "-1", "0", "1", "2", "3", "4", "5"]]
FLOATS = [["-Infinity", "-1e+300", "-2.5", "-1e-300", "0", "5e-324", "0.1", "0.30000000000000004", "1.7976931348623157e+308", "Infinity"],
          ["-4.5", "-3", "-2", "-1.25", "-1", "-0.5", "-0.25", "-0.125", "0.5", "1"]]
TIMES = [["-infinity", "1700-02-28 23:59:59.999999+00", "1969-12-31 23:59:59.999999+00", "1970-01-01 00:00:00+00", "1999-12-31 23:59:59.5+00", "2000-01-01 00:00:00+00", "2000-01-01 00:00:00.000001+00",
          "2024-02-29 12:00:00+00", "9999-12-31 23:59:59+00", "infinity"],
         [f"2020-01-0{i}" + " 00:00:00+00" for i in range(1, 10)] + ["2020-01-10 00:00:00+00"]]
DOM = {"i": INTS, "f": FLOATS, "t": TIMES}
# the data that max_n_by and min_n_by carry along: by value, of some fixed length (a multiple of eight or not), or of variable length
DATA = {"text": "'d' || seq", "timetz": "timetz '12:00:00.5+00' + seq * interval '601 seconds'", "int4": "7 - seq", "macaddr": "('08:00:2b:01:02:' || lpad(to_hex(seq), 2, '0'))::macaddr", "tid": "('(7,' || seq + 1 || ')')::tid",
        "numeric": "seq * 1.000000000000000000001 - 3", "uuid": "md5(seq::text)::uuid", "interval": "seq * interval '1 month 2 days 3.5 s'", "name": "('n' || seq)::name", "bool": "seq % 2 = 0", "text[]": "ARRAY['a,', seq::text, NULL]",
        "box": "box(point(seq, -seq), point(0.5, seq))", "pair": "ROW(seq, CASE WHEN seq % 3 > 0 THEN 'x/' || seq END)::pair", "float4": "(seq / 3.0)::float4", "jsonb": "jsonb_build_object('k', seq, 'l', repeat('z', 200 * seq))", '"char"': 'chr(65 + seq)::"char"', "bytea": "decode(repeat(md5(seq::text), seq * 3), 'hex')"}


def c12(ctx):
    inv = ("Refines", "EmitCase")
    futs = [ctx.spec("NMost", {"Values": "3..5", "Groups": "1..2", "Ns": "{1, 2, 3}", "MaxRows": ctx.pick(4, 5), "EmitAll": "TRUE"}, invariants=inv, heap="6g"),
            ctx.spec("NMost", {"Values": "0..9", "Groups": "1..4", "Ns": "{1, 2, 4, 5, 8}", "MaxRows": 11, "EmitAll": "FALSE"}, invariants=("EmitCase",), spec="SpecRandom",
                     simulate=ctx.pick(2500, 30000), depth=14, workers=1),
            ctx.spec("NMost", {"Values": "0..9", "Groups": "1..5", "Ns": "{3, 20, 31, 100}", "MaxRows": 40, "EmitAll": "FALSE"}, invariants=("EmitCase",), spec="SpecRandom",
                     simulate=ctx.pick(150, 2000), depth=45, workers=1)]
    ctx.start()
    cases = []
    for f in futs: cases += ctx.take(f)
    rows, ns = [], []
    for i, c in enumerate(cases):
        k = i % 2
        ns.append((i, c["n"]))
        for s, (g, v) in enumerate(c["rows"]): rows.append((i, s, g, INTS[k][v], FLOATS[k][v], TIMES[k][v], ""))
    ctx.server.sql("CREATE UNLOGGED TABLE r(id int, seq int, g int, i int8, f float8, t timestamptz, d text);\nCREATE UNLOGGED TABLE m(id int primary key, n bigint);\nCREATE TYPE pair AS (a int, b text);\n"
                   + copy_in("r", rows) + copy_in("m", ns) + "ANALYZE r; ANALYZE m;")
    cols, aggs, groups, rolls, outs = [], [], [], [], []
    for ty in "ift":
        for d in ("min", "max"):
            nm = d + "_" + ty
            groups += [f"{d}_n({ty}, n ORDER BY seq) AS {nm}", f"{d}_n_by({ty}, ({{data}})::{{dt}}, n ORDER BY seq) AS {nm}b"]
            rolls += [f"rollup({nm} ORDER BY g) AS {nm}", f"rollup({nm}b ORDER BY g) AS {nm}b"]
            outs += [f"array_to_string(into_array({nm}), ',')", f"array_to_string({nm}->into_array(), ',')", f"(SELECT string_agg(x::text, ',') FROM into_values({nm}) x)", f"(SELECT string_agg(x::text, ',') FROM (SELECT {nm} -> into_values() AS x) y)",
                     f"(SELECT string_agg(x.value::text || '/' || md5(x.data::text), ',') FROM into_values({nm}b, NULL::{{dt}}) x)"]
            cols += [nm + ":array", nm + ":array->", nm + ":values", nm + ":values->", nm + ":by"]
    src = "FROM r JOIN m USING (id) WHERE {w}"
    routes = {"direct": "SELECT id, " + ", ".join(groups) + f" {src} GROUP BY id",
              "rollup": "SELECT id, " + ", ".join(rolls) + " FROM (SELECT id, g, " + ", ".join(groups) + f" {src} GROUP BY id, g) q GROUP BY id"}
    # min_n and max_n from PostgreSQL's own partial states (the by-forms have no combine function)
    ctx.partial("rp", "SELECT r.*, n FROM r JOIN m USING (id) ORDER BY seq")
    plain = [j for j, c in enumerate(cols) if not c.endswith(":by")]
    routes["partial states"] = "SELECT id, " + ", ".join(x.replace(" ORDER BY seq", "") for x in groups if "_by" not in x) + " FROM rp WHERE {w} GROUP BY id"
    ctx.note_plan(routes["partial states"].replace("{w}", "true"))
    ctx.server.sql("".join(f"CREATE TABLE data{k} AS SELECT seq, md5((({e})::{t})::text) AS m FROM generate_series(0, 60) seq;" for k, (t, e) in enumerate(DATA.items())))
    names = list(DATA)
    texts = [dict(r) for k in range(len(DATA)) for r in [[(int(a), b) for a, b in (x.split("|") for x in ctx.server.sql(f"SELECT seq, m FROM data{k};").split())]]]
    dt = lambda i: (i // 2 + ctx.seed) % len(DATA)
    for route, inner in routes.items():
        use = plain if route == "partial states" else range(len(cols))
        got = {}
        for k, t in [(0, "")] if route == "partial states" else enumerate(DATA):
            ids = [i for i in range(len(cases)) if t == "" or dt(i) == k]
            put = lambda q: q.replace("{data}", DATA.get(t, "")).replace("{dt}", t)
            got.update(ctx.bulk("", lambda w: f"SELECT id, {put(', '.join(outs[j] for j in use))} FROM ({put(inner).replace('{w}', w)}) q", ids, [cols[j] for j in use], pre=ctx.PARTIAL))
        for i, c in enumerate(cases):
            g = got.get(i)
            ctx.traces += 1; ctx.evals += len(cols)
            if len(c["rows"]) > c["n"]: ctx.nontrivial += 1
            bad = judge(c, i % 2, dict(zip([cols[j] for j in use], g)) if g else None, texts[dt(i)])
            if bad:
                ctx.violation(f"nmost/{route}/{bad[0]}", f"{route} {bad[0]} over (group, value) rows {c['rows']} with n={c['n']}{' and data of type ' + names[dt(i)] if bad[0].endswith('by') else ''}: answer {bad[2]}, the specification says {bad[1]} (values are indexes into {DOM[bad[0].split(':')[0][-1]][i % 2]})",
                              {"case": c, "route": route, "sql": inner})
    for sql, want in [("SELECT into_array(min_n(x, 3))::text FROM (SELECT 1::bigint AS x WHERE false) q", ""), ("SELECT (max_n_by(x, 1, 3) IS NULL)::text FROM (SELECT 1.0::float8 AS x WHERE false) q", "true"),
                      ("SELECT (rollup(x) IS NULL)::text FROM (SELECT min_n(1::bigint, 3) AS x) q WHERE false", "true"),
                      ("SELECT string_agg(x.data::text, ' ') FROM into_values((SELECT max_n_by(v, r, 2) FROM (VALUES (1, '{a,NULL}'::text[]), (5, '{\"b c\"}'), (3, '{}')) r(v, r)), NULL::text[]) x", '{"b c"} {}'),
                      ("SELECT string_agg(x.data::text, ' ') FROM into_values((SELECT min_n_by(v, r, 2) FROM (VALUES (1.5::float8, 1.23456789012345678901234567890::numeric), (5, 7), (3, -1e30)) r(v, r)), NULL::numeric) x",
                       "1.23456789012345678901234567890 -1000000000000000000000000000000"),
                      ("SELECT string_agg(x.data::text, ' ') FROM into_values((SELECT min_n_by(v, r, 2) FROM (VALUES (timestamptz '2020-01-01', true), ('2019-01-01', false)) r(v, r)), NULL::bool) x", "false true")]:
        r = ctx.server.sql("SELECT vtry($q$" + sql + "$q$);").strip()
        ctx.evals += 1
        if r != want: ctx.violation("nmost/const", f"{sql} gives {r!r}, expected {want!r}", {"sql": sql})
    ctx.samples += [cases[len(cases) // 3], cases[-1]]


def judge(c, k, g, texts):
    if g is None: return ("min_i:row", "a row", None)
    for col, txt in g.items():
        nm, form = col.split(":")
        d, ty = nm.split("_")
        dom = DOM[ty][k]
        want = [dom[v] for v in c[d]]
        if txt is None: return (col, want, None)
        items = txt.split(",")
        vals = [x.split("/")[0] for x in items]
        if vals != want: return (col, want, txt)
        if form == "by":
            fed = Counter((dom[v], texts[s]) for s, (_, v) in enumerate(c["rows"]))
            if Counter(tuple(x.split("/")) for x in items) - fed: return (col, f"{want} with data of fed rows (as md5)", txt)
    return None
