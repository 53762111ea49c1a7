"""C03 storage: values are sent along the paths of Storage.tla (text, arrays, rows, tables with every kind of storage) and must answer the same after it."""
import re
from concurrent.futures import ThreadPoolExecutor
from catalogue import AGGS, PLAIN, Agg
from c01 import define, direct
from series import NULL
from pg import copy_in, parse_copy

TIMES = {0: "2000-01-01 00:00:00+00", 1: "2023-11-05 05:30:00+00", 2: "2023-11-05 06:30:00+00", 3: "1999-12-31 23:59:59.999999+00", 4: "2024-02-29 12:34:56.789012+00", 5: "2023-03-12 07:00:00.000001+00", 6: "1969-12-31 23:59:59+00",
         -1: "4714-11-24 00:00:00+00 BC", -2: "294276-12-31 23:59:59.999999+00", -3: "infinity", -4: "-infinity", -5: "0001-01-01 00:00:00+00", -6: "1883-11-18 17:00:00+00", -7: "10000-01-01 00:00:00+00"}
NUMS = {0: "0", 1: "0.1", 2: "-3.25", 3: "123456789.12345679", 4: "1e22", 5: "2", 6: "-0.5",
        -1: "NaN", -2: "Infinity", -3: "-Infinity", -4: "-0", -5: "5e-324", -6: "1.7976931348623157e308", -7: "2.2250738585072014e-308"}
CHARS = {"q": '"', "b": "\\", "n": "\n", "a": "a", "e": "é", "s": "'", "p": ")", "c": ",", "t": "\t", "j": "日", "o": "😀", "r": "\r", "z": " ", "u": "\u0301", "x": "\x7f", "k": "\x01", "N": "N", "l": "\u2028", "g": "{", "S": "/"}
SESSIONS = [("UTC", "ISO"), ("America/New_York", "ISO"), ("Asia/Kathmandu", "ISO, DMY"), ("UTC", "SQL, DMY"), ("UTC", "Postgres, MDY"), ("Europe/Amsterdam", "ISO")]


def c03(ctx):
    inv = ("Preserved", "Readable", "Robust", "Headers", "Fits", "EmitCase")
    B = {"EmitAll": "TRUE", "Narrow": "{" + ", ".join(f'"{c}"' for c in CHARS if ord(CHARS[c]) < 256) + "}"}
    marks = ["cut", "add", "drop", "double", "0", "9", "99", "-1", "4294967295", "99999999999", "Foo", "1e300", "NaN", "None", ")", ":", '\'']
    D = "{" + ", ".join(f'<<"{m}", 0>>' for m in marks) + "}"
    cls = "{" + ", ".join(map(str, TIMES)) + "}", "{" + ", ".join(map(str, NUMS)) + "}"
    ch = "{" + ", ".join(f'"{c}"' for c in CHARS) + "}"
    B2 = {**B, "Damages": D, "Chars": ch, "Times": cls[0], "Nums": cls[1], "Names": "{<<>>}"}
    futs = [ctx.spec("Storage", {**B, "Damages": '{<<"cut", 500>>, <<"drop", 700>>, <<"None", 300>>}', "Chars": "{}", "Times": "{0, NULL}", "Nums": "{-1}", "Names": '{<<>>, <<"q">>, <<"b", "n">>, <<"b", "q">>, <<"q", ",", "(">>, <<"n", "b">>, <<"N", "a">>}', "Sizes": "1..2", "MaxSteps": 2}, invariants=inv, workers=4),
            ctx.spec("Storage", {**B2, "Sizes": "1..4", "MaxSteps": 4}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(700, 9000), depth=20, workers=1),
            ctx.spec("Storage", {**B2, "Sizes": "{0, 8, 20, 40, 260}", "MaxSteps": 6}, invariants=inv, spec="SpecRandom", simulate=ctx.pick(250, 4000), depth=24, workers=1)]
    sv = ctx.start()
    cases = []
    for k, f in enumerate(futs):
        cs = ctx.take(f)
        cases += ctx.rng.sample(cs, min(len(cs), ctx.pick(300, 4000))) if k == 0 else cs
    ctx.rng.shuffle(cases)
    rows = []
    for i, c in enumerate(cases):
        for s, (t, v, x) in enumerate(c["rows"]):
            rows.append((i, s, 0, TIMES[max(t, min(TIMES))] if t != NULL else None, None if v == NULL else NUMS[v], (s * 7 + i) % 6, "".join(CHARS.get(ch, ch) for ch in x)))
    sv.sql("CREATE UNLOGGED TABLE r(id int, seq int, g int, t timestamptz, v float8, k int, x text);\n" + copy_in("r", rows) +
           "CREATE UNLOGGED TABLE c(id int primary key, path text, session int, kind text, place int);\n" + copy_in("c", [(i, "".join(c["path"]), c["session"], *c["damage"]) for i, c in enumerate(cases)]) + "CREATE INDEX ON r(id); ANALYZE r; ANALYZE c;\nCREATE UNLOGGED TABLE bad(j int, id int, msg text);")
    aggs = []
    for a in AGGS + PLAIN:
        args = [x.replace("'s' || k", "x") for x in a.args]
        b = Agg(a.name, a.sig, args, a.ret, a.ans, nulls=a.nulls, ftypes=a.types, tags=a.tags)
        aggs.append(b)
    step = ctx.pick(8, 3)
    jobs = [(j, a) for j, a in enumerate(aggs)]
    ids_of = {j: [i for i in range(len(cases)) if (i + j) % step == 0] for j, _ in jobs}
    for j, a in jobs:
        T = a.ret
        define(ctx, f"d{j}", "i int", direct(a, "id = i"))
        sv.sql(f"""CREATE TYPE row{j} AS (pad "char", s {T});
{''.join(f'CREATE UNLOGGED TABLE m{j}{m}(id int, n int, pad "char", s {T}) WITH (toast_tuple_target = 128); ALTER TABLE m{j}{m} ALTER s SET STORAGE {w};' + chr(10) for m, w in (("P", "PLAIN"), ("M", "MAIN"), ("X", "EXTENDED"), ("E", "EXTERNAL")))}
CREATE FUNCTION go{j}(i_ int, p_ text) RETURNS text LANGUAGE plpgsql AS $f$ DECLARE val_ {T}; c_ text; step_ int := 0; o_ text; first_ text; BEGIN
  SELECT {a.call()} INTO val_ FROM r WHERE id = i_;
  FOREACH c_ IN ARRAY array_prepend('-', string_to_array(p_, NULL)) LOOP
    step_ := step_ + 1;
    {'''IF c_ = 'P' THEN c_ := 'X'; END IF;''' if a.name == 'count_min_sketch' else ''}
    IF c_ = 'T' THEN val_ := (val_::text)::{T};
    ELSIF c_ = 'A' THEN val_ := (array_append(ARRAY[NULL::{T}], val_))[2];
    ELSIF c_ = 'R' THEN val_ := (ROW('x', val_)::row{j}).s;
    {''.join(f"ELSIF c_ = '{m}' THEN INSERT INTO m{j}{m} VALUES (i_, step_, 'y', val_); SELECT {a.answers('z.s')} || '  as text: ' || (z.s::text), z.s INTO o_, val_ FROM m{j}{m} z WHERE z.id = i_ AND z.n = step_;" + chr(10) for m in "PMXE")} END IF;
    IF c_ NOT IN ('P', 'M', 'X', 'E') THEN SELECT {a.answers('z.s')} || '  as text: ' || (z.s::text) INTO o_ FROM (SELECT val_ AS s OFFSET 0) z; END IF;
    first_ := coalesce(first_, o_);
    IF o_ <> first_ THEN RETURN 'after step ' || (step_ - 1) || ': ' || o_ || '  at first: ' || first_; END IF;
  END LOOP;
  SELECT {a.answers('z.s')} INTO o_ FROM (SELECT val_ AS s OFFSET 0) z;
  RETURN o_; EXCEPTION WHEN OTHERS THEN RETURN 'ERR:' || replace(SQLERRM, E'\\n', ' '); END $f$;""")

        sv.sql(f"""CREATE FUNCTION cut{j}(i_ int, kind_ text, place_ int) RETURNS text LANGUAGE plpgsql AS $f$ DECLARE t_ text; p_ int; z_ text; val_ {T}; o_ text; BEGIN
  SELECT ({a.call()})::text INTO t_ FROM r WHERE id = i_;
  IF t_ IS NULL THEN RETURN 'no value'; END IF;
  p_ := 1 + place_ * length(t_) / 1000; z_ := substr(t_, p_ + 1);
  -- numbers are what can make a text say something else: of the marks put into it, three of four go over a digit
  IF kind_ NOT IN ('cut', 'add') AND place_ % 4 > 0 THEN WHILE p_ < length(t_) AND substr(t_, p_, 1) !~ '[0-9]' LOOP p_ := p_ + 1; END LOOP; z_ := substr(t_, p_ + 1); END IF;
  t_ := CASE kind_ WHEN 'cut' THEN left(t_, p_ - 1) WHEN 'add' THEN t_ || CASE WHEN substr(t_, p_, 1) ~ '\\s' THEN ')' ELSE substr(t_, p_, 1) END WHEN 'drop' THEN left(t_, p_ - 1) || z_
        WHEN 'double' THEN left(t_, p_) || substr(t_, p_, 1) || z_ ELSE left(t_, p_ - 1) || kind_ || z_ END;
  BEGIN val_ := t_::{T}; EXCEPTION WHEN OTHERS THEN RETURN 'refused'; END;
  IF kind_ IN ('cut', 'add') THEN RETURN 'accepted: ' || t_; END IF;
  SELECT {a.answers('z.s')} INTO o_ FROM (SELECT val_ AS s OFFSET 0) z;
  RETURN 'read'; EXCEPTION WHEN OTHERS THEN RETURN 'error'; END $f$;""")

    sv.sql("CREATE FUNCTION session(n int) RETURNS text LANGUAGE sql AS $f$ SELECT set_config('timezone', (ARRAY[%s])[n + 1], false) || set_config('datestyle', (ARRAY[%s])[n + 1], false) $f$;" % (", ".join(f"'{z}'" for z, _ in SESSIONS), ", ".join(f"'{d}'" for _, d in SESSIONS)))
    skipped = {}
    for j, a in jobs:
        ids = ids_of[j]
        got = ctx.bulk("", lambda w: f"SELECT id, session(session), d{j}(id), go{j}(id, path) FROM c WHERE {w}", ids, ["session", "direct", "after"], shards=8)
        for i in ids:
            c, (_, d, g) = cases[i], got.get(i, [None] * 3)
            if d is not None and d.startswith("ERR:"):
                skipped[a.name] = skipped.get(a.name, 0) + 1
                continue
            ctx.traces += 1; ctx.evals += len(a.ans) * (len(c["path"]) + 1)
            if c["rows"]: ctx.nontrivial += 1
            if d == g and d is not None: continue
            ctx.violation(f"storage/{a.name}", f"{a.name} over {[r[1:] for r in rows if r[0] == i][:9]} ({len(c['rows'])} rows) taken along {''.join(c['path'])} (T text, A array, R row, P/M/X/E table storage) with session {SESSIONS[c['session']]}: answered {d} before and {g} after it",
                          {"case": c, "agg": a.sig})
    elsewhere(ctx, cases)
    # damaged texts: the server must live, and a text cut short or continued is refused
    seen = {}
    def harm(ja):
        j, a = ja
        return sv.try_sql(f"SET statement_timeout = '100s'; COPY (SELECT id, kind, session(session), cut{j}(id, kind, place) FROM c WHERE id = ANY('{{{','.join(map(str, ids_of[j]))}}}'::int[])) TO STDOUT;")
    for (j, a), (rc, o, e) in zip(jobs, ThreadPoolExecutor(max_workers=8).map(harm, jobs)):
        if rc and "another server process" not in e:
            ctx.violation(f"damaged/{a.name}", f"{a.name}: reading damaged texts of its values did not end with a value or an error of the statement, but: {e.strip()[:300]}", {"agg": a.sig, "cases": [cases[i] for i in ids_of[j]][:200]})
        for x in parse_copy(o):
            seen[x[3].split(":")[0]] = seen.get(x[3].split(":")[0], 0) + 1
            ctx.evals += 1
            if x[3].startswith("accepted"):
                ctx.violation(f"cut/{a.name}", f"{a.name}: {x[3][:300]!r} was read as a value, although it is not the text of one", {"case": cases[int(x[0])], "agg": a.sig})
    ctx.extra["damaged_texts"] = seen
    ctx.extra["values_not_formed"] = skipped
    ctx.samples += [cases[0], cases[len(cases) // 2]]


# values over texts, and over types and under collations whose names are the names of a behaviour, in databases of another kind
NAMED = [("hyperloglog(64, v)", "hyperloglog", "distinct_count(s)"), ("hyperloglog(64, v::text COLLATE {c})", "hyperloglog", "distinct_count(s)"), ("raw_mcv_agg(3, v)", "spacesavingaggregate", "(SELECT string_agg(ROW(x.value, min_freq, max_freq)::text, ',' ORDER BY x.value) FROM into_values(s, NULL::{t}) x)"),
         ("toolkit_experimental.raw_freq_agg(0.1, v)", "spacesavingaggregate", "(SELECT string_agg(ROW(x.value, min_freq, max_freq)::text, ',' ORDER BY x.value) FROM into_values(s, NULL::{t}) x)"),
         ("max_n_by(n, v, 3)", "maxbyints", "(SELECT string_agg(x.value || ':' || x.data, ',') FROM into_values(s, NULL::{t}) x)"), ("min_n_by(n::float8, v, 3)", "minbyfloats", "(SELECT string_agg(x.value || ':' || x.data, ',') FROM into_values(s, NULL::{t}) x)")]
TEXTS = [("mcv_agg(3, v)", "spacesavingtextaggregate", "''"), ("hyperloglog(4096, v || n)", "hyperloglog", "distinct_count(s)"), ("approx_count_distinct(v)", "hyperloglog", "distinct_count(s)")] + [(e, t, a.replace("{t}", "text")) for e, t, a in NAMED[2:]]
BASES = ["postgres", "narrow", "icu", "template"]


def elsewhere(ctx, cases):
    sv = ctx.server
    sv.sql("CREATE DATABASE narrow ENCODING 'LATIN1' LOCALE 'C' TEMPLATE template0;\nCREATE DATABASE icu LOCALE 'C' LOCALE_PROVIDER icu ICU_LOCALE 'en' TEMPLATE template0;\nCREATE DATABASE template TEMPLATE template0;\nALTER DATABASE template IS_TEMPLATE true;")
    q = "SET client_min_messages=error; SET check_function_bodies=off;\nBEGIN;\n" + open(sv.libdir + "/ext.sql").read().replace("MODULE_PATHNAME", sv.libdir + "/ext").replace("@extschema@", "public") + "\nCOMMIT;\n"
    # a value is written as text and read as often as the behaviour says; every text and answer must be those of the first
    trip = """CREATE FUNCTION trip(make text, typ text, answers text, times int) RETURNS text LANGUAGE plpgsql AS $f$ DECLARE first_ text; now_ text; t_ text; BEGIN
  EXECUTE make INTO t_;
  IF t_ IS NULL THEN RETURN 'ok'; END IF;
  FOR k IN 1..times LOOP
    EXECUTE format('SELECT concat_ws('' | '', s::text, %s), s::text FROM (SELECT %L::%s AS s OFFSET 0) x', answers, t_, typ) INTO now_, t_;
    first_ := coalesce(first_, now_);
    IF now_ <> first_ THEN RETURN 'after ' || k || ' trips ' || now_ || ' at first ' || first_; END IF;
  END LOOP;
  EXECUTE format('SELECT concat_ws('' | '', s::text, %s) FROM (%s) x', answers, replace(make, '::text AS made', ' AS s')) INTO now_;
  IF now_ <> first_ THEN RETURN 'at first ' || now_ || ' as read from its text ' || first_; END IF;
  RETURN 'ok'; EXCEPTION WHEN OTHERS THEN RETURN 'ERR:' || SQLERRM; END $f$;
CREATE FUNCTION named(nm text, times int) RETURNS text LANGUAGE plpgsql AS $f$ DECLARE t_ text; c_ text; r_ text; BEGIN
  t_ := format('%I.%I', 's' || nm, nm); c_ := format('%I.%I', 's' || nm, 'c' || nm);
  DROP TABLE IF EXISTS e;
  EXECUTE format('CREATE SCHEMA %I; CREATE TYPE %s AS ENUM (%L, %L, ''z''); CREATE COLLATION %s FROM "C"; CREATE TEMP TABLE e AS SELECT n, (ARRAY[%L, %L, ''z''])[n %% 3 + 1]::%s AS v FROM generate_series(1::int8, 8) n', 's' || nm, t_, nm, 'b' || nm, c_, nm, 'b' || nm, t_);
  """ + "".join(f"""r_ := trip(replace(replace($q$SELECT ({e})::text AS made FROM e$q$, '{{c}}', c_), '{{t}}', t_), '{t}', replace($q${a}$q$, '{{t}}', t_), times);
  IF r_ <> 'ok' THEN RETURN $q${e}: $q$ || r_; END IF;
  """ for e, t, a in NAMED) + """DROP TABLE e; RETURN 'ok'; END $f$;
CREATE UNLOGGED TABLE r(id int, n int8, v text);
CREATE FUNCTION texts(i int, times int) RETURNS text LANGUAGE plpgsql AS $f$ DECLARE r_ text; BEGIN
  """ + "".join(f"""r_ := trip('SELECT ({e.replace("'", "''")})::text AS made FROM r WHERE id = ' || i, '{t}', $q${a}$q$, times);
  IF r_ <> 'ok' THEN RETURN $q${e}: $q$ || r_; END IF;
  """ for e, t, a in TEXTS) + "RETURN 'ok'; END $f$;\n"
    counts = {}
    for b, db in enumerate(BASES):
        if b: sv.sql(q, db=db)
        own = "SET client_encoding = 'UTF8';" + ("SET search_path = own, public;" if b == 0 else "")
        ids = [i for i, c in enumerate(cases) if c["base"] == b and c["rows"]][:ctx.pick(120, 2000)]
        word = lambda x: "".join(CHARS.get(ch, ch) for ch in x)
        words = sorted({w for i in ids for _, _, x in cases[i]["rows"] for w in [word(x)] if w and len(w.encode()) < 60})
        ctx.rng.shuffle(words)
        words = words[:ctx.pick(25, 300)]
        sv.sql(("CREATE SCHEMA own;" if b == 0 else "") + own + trip + copy_in("r", [(i, s, word(x)) for i in ids for s, (_, _, x) in enumerate(cases[i]["rows"])]) + "CREATE UNLOGGED TABLE nm(id int, times int, w text);\n" + copy_in("nm", [(k, 1 + k % 3, w) for k, w in enumerate(words)]), db=db)
        for what, src in (("names", "SELECT id, named(w, times) FROM nm"), ("texts", f"SELECT id, texts(id, 1 + id % 3) FROM (SELECT DISTINCT id FROM r) z")):
            rc, o, e = sv.try_sql(own + f"COPY ({src} ORDER BY id) TO STDOUT;", db=db)
            if rc:
                ctx.violation(f"elsewhere/{db}/{what}", f"values over {what} in database {db}: {e.strip()[:400]}", {"sql": src})
                continue
            for k, g in parse_copy(o):
                ctx.traces += 1; ctx.evals += len(NAMED); ctx.nontrivial += 1
                counts[db + " " + what] = counts.get(db + " " + what, 0) + 1
                if g == "ok": continue
                ctx.violation(f"elsewhere/{db}/{what}", f"{'a type and a collation named ' + repr(words[int(k)]) if what == 'names' else 'texts ' + repr([word(x) for _, _, x in cases[int(k)]['rows']][:9])} in database {db}: {g[:600]}", {"case": cases[int(k)] if what == "texts" else words[int(k)], "database": db})
    ctx.extra["elsewhere"] = counts
