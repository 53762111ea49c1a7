"""C24 updating an installation: histories of Upgrade.tla replayed with the scripts that tools/post-install makes."""
import os, re, json, random, shutil, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
import pg
from pg import VERIF, REPO, ENVSH, ToolError

EXTRA = ["1.5.0", "1.9.0", "1.9.1", "1.10.0", "1.11.1", "1.14.1", "1.15.0-dev", "1.15.2", "1.16.0-dev", "1.16.5", "1.20.0", "1.23.1", "1.24.0-dev", "1.25.0-dev"]
# a value of some of the stable types, by a call that every version with the type has
VALUES = {"statssummary1d": "stats_agg(2.5)", "statssummary2d": "stats_agg(2.5, 1.0)", "timeweightsummary": "time_weight('linear', '2020-01-01'::timestamptz, 1.5)", "countersummary": "counter_agg('2020-01-01'::timestamptz, 1.5)",
          "gaugesummary": "gauge_agg('2020-01-01'::timestamptz, 1.5)", "hyperloglog": "hyperloglog(64, 7)", "uddsketch": "uddsketch(10, 0.1, 5.0)", "tdigest": "tdigest(10, 5.0)", "candlestick": "candlestick_agg('2020-01-01'::timestamptz, 1.5, 2.0)"}


def key(v): return tuple(int(x) for x in v.replace("-dev", "").split(".")) + (-1 if v.endswith("-dev") else 0,)


def since(v, vs):
    """the first of the versions vs that has what became stable in v"""
    if v == "prehistory": return 0
    p = (tuple(int(x) for x in v.split(".")) + (0, 0))[:3]
    return next((k + 1 for k, w in enumerate(vs) if key(w)[:3] >= p), len(vs) + 1)


def stabilizations(src):
    """what became stable when, as the repository records it"""
    out = {}
    for kind in ("functions", "types", "operators"):
        m = re.search(r"%s_stabilized_at!\s*\{(.*?)\n\}" % kind, src, re.S)
        for v, b in re.findall(r'"([\w.]+)"\s*=>\s*\{(.*?)\}', re.sub(r"//[^\n]*", "", m.group(1)) if m else "", re.S):
            if kind == "types": out.update({"type " + t.strip().lower(): v for t in b.split(",") if t.strip()})
            else:
                for nm, a in re.findall(r'("?[^\s",]+?"?)\s*\(([^)]*)\)', b): out[kind[:-1] + " " + nm.strip('"').lower() + "(" + ",".join(" ".join(x.split()).lower() for x in a.split(",") if x.strip()) + ")"] = v
    return out


def bare(s): return re.sub(r"--[^\n]*", "", re.sub(r"/\*.*?\*/", " ", s, flags=re.S))


def statements(s):
    out, i, st = [], 0, 0
    while i < len(s):
        if s.startswith("--", i): i = (s.find("\n", i) + 1) or len(s)
        elif s.startswith("/*", i): i = s.index("*/", i) + 2
        elif s[i] in "'\"": i = s.index(s[i], i + 1) + 1
        elif s[i] == "$" and re.match(r"\$\w*\$", s[i:i + 40]):
            t = re.match(r"\$\w*\$", s[i:i + 40]).group()
            i = s.index(t, i + len(t)) + len(t)
        elif s[i] == ";":
            out.append(s[st:i + 1])
            st = i = i + 1
        else: i += 1
    return [x for x in out if bare(x).strip()]


FP = """SELECT 'function', p.oid::regprocedure::text, prokind, prorettype::regtype, proretset, prosrc, regexp_replace(probin, '.*/', ''), provolatile, proisstrict, proparallel, proargnames, proargmodes, pg_get_expr(proargdefaults, 0), prosupport::regproc, proconfig
 FROM pg_proc p WHERE pronamespace = ANY(SELECT oid FROM pg_namespace WHERE nspname IN ('public', 'toolkit_experimental')) AND proname !~ '^old_' ORDER BY 2;
SELECT 'aggregate', aggfnoid::regprocedure::text, a.aggkind, aggtransfn, aggfinalfn, aggcombinefn, aggserialfn, aggdeserialfn, aggmtransfn, aggminvtransfn, aggmfinalfn, aggfinalextra, aggmfinalextra, aggtranstype::regtype, aggmtranstype::regtype, agginitval FROM pg_aggregate a WHERE aggfnoid >= 16384 ORDER BY 2;
SELECT 'type', t.oid::regtype::text, typlen, typbyval, typisdefined, typinput, typoutput, typreceive, typsend, typalign, typstorage FROM pg_type t WHERE oid >= 16384 AND typtype = 'b' AND typcategory <> 'A' ORDER BY 2;
SELECT 'operator', o.oid::regoperator::text, oprcode, oprcom::regoperator, oprnegate::regoperator, oprrest, oprjoin FROM pg_operator o WHERE oid >= 16384 ORDER BY 2;
SELECT 'cast', castsource::regtype::text, casttarget::regtype::text, castfunc::regprocedure, castcontext FROM pg_cast WHERE castfunc >= 16384 ORDER BY 2, 3;
SELECT 'schema', nspname, nspacl FROM pg_namespace WHERE nspname !~ '^pg_|information' ORDER BY 2;
SELECT 'event trigger', evtname FROM pg_event_trigger;"""
TRIGGERS = """CREATE FUNCTION disallow_experimental_dependencies() RETURNS event_trigger LANGUAGE plpgsql AS $$ BEGIN END $$;
CREATE FUNCTION disallow_experimental_view_dependencies() RETURNS event_trigger LANGUAGE plpgsql AS $$ BEGIN END $$;
CREATE EVENT TRIGGER disallow_experimental_deps ON ddl_command_end EXECUTE FUNCTION disallow_experimental_dependencies();
CREATE EVENT TRIGGER disallow_experimental_dependencies_on_views ON ddl_command_end EXECUTE FUNCTION disallow_experimental_view_dependencies();
CREATE FUNCTION timescaledb_toolkit_probe() RETURNS int LANGUAGE sql AS $$ SELECT 1 $$;
"""


class Catalog:
    """the install script of the present version, taken apart; from it the install scripts of other versions"""
    def __init__(self, ctx):
        S, d = ctx.server, ctx.libdir
        st = statements(open(d + "/ext.sql").read())
        self.st = st = [x for x in st if not re.search(r'\btests\b|\btest_schema\b', bare(x))]       # what a release build has
        words = [bare(x).split() for x in st]
        q = "SET client_min_messages = error; SET check_function_bodies = off;\n"
        for k, x in enumerate(st):
            q += x.replace("MODULE_PATHNAME", d + "/ext").replace("@extschema@", "public") + "\n"
            if words[k][0] != "CREATE": continue
            if words[k][1] in ("FUNCTION", "AGGREGATE"): q += f"SELECT '@{k}@function ' || oid::regprocedure FROM pg_proc ORDER BY oid DESC LIMIT 1;\n"
            elif words[k][1] == "OPERATOR": q += f"SELECT '@{k}@operator ' || oid::regoperator FROM pg_operator WHERE oprcode <> 0 ORDER BY age(xmin), oid DESC LIMIT 1;\n"
            elif words[k][1] == "TYPE": q += f"SELECT '@{k}@type {words[k][2].strip(';').lower()}';\n"
        S.sql("CREATE DATABASE c24whole")
        self.id = {int(l.split("@")[1]): l.split("@")[2] for l in S.sql(q, db="c24whole").splitlines() if l.startswith("@")}
        self.kind = {k: "agg" if words[k][1] == "AGGREGATE" else {"FUNCTION": "fn", "TYPE": "type", "OPERATOR": "op"}[words[k][1]] for k in self.id}
        self.fname = {k: re.match(r'(?:toolkit_experimental\.)?"?(\w+)', i.split(" ", 1)[1]).group(1) for k, i in self.id.items() if self.kind[k] == "fn"}
        # the record of what became stable when: ours as far as it goes, the repository's for what is new
        rec = stabilizations(open(REPO + "/extension/src/stabilization_info.rs").read())
        rec.update(json.load(open(VERIF + "/harness/stable.json")))
        self.rec = {k: rec.get(i) for k, i in self.id.items()}
        # may users make something of it?
        self.usable = {k: ("toolkit_experimental" in i, i) for k, i in self.id.items() if not re.search(r"\b(internal|cstring)\b", i)}

    def ctl(self, path):
        t = open(path).read()
        f = lambda n: re.search(n + r"\s*=\s*'([^']*)'", t).group(1)
        return f("default_version"), [x.strip() for x in f("upgradeable_from").split(",")]

    def script(self, v, vs):
        """the install script of version vs[v - 1]"""
        have = [k for k in range(len(self.st)) if self.rec.get(k) is None or since(self.rec[k], vs) <= v]
        # what is experimental and mentions what is not there yet: it mentioned something else then
        gone = {self.id[k].split(" ", 1)[1] for k in self.id if self.kind[k] == "type" and self.rec.get(k) is not None and since(self.rec[k], vs) > v}
        left = {self.fname[k] for k in have if k in self.fname}
        gone |= {n for n in self.fname.values() if n not in left}
        text = {k: {w.lower() for w in re.findall(r"\w+", bare(self.st[k]))} for k in have if self.rec.get(k) is None}
        while True:
            drop = [k for k in text if text[k] & gone]
            if not drop: break
            gone |= {w for k in drop if k in self.id for w in [self.id[k].split(" ", 1)[1].split("(")[0].split(".")[-1]] if self.kind[k] in ("type", "fn") and sum(self.fname.get(j) == w for j in have) <= 1}
            for k in drop: del text[k]
            have = [k for k in have if k not in set(drop)]
        hset = set(have)
        names = {self.fname[k] for k in have if k in self.fname}
        out, made = [], set()
        for k in have:
            x = self.st[k]
            if self.kind.get(k) in ("agg", "op"):
                # what is made of functions that came later was made of others, which are no more
                for n in dict.fromkeys(re.findall(r"\w+", bare(x))):
                    if n in names or n not in self.fname.values(): continue
                    if not any(m not in hset and self.fname.get(m) == n and re.search(r"\b(SFUNC|FINALFUNC|COMBINEFUNC|SERIALFUNC|DESERIALFUNC|MSFUNC|MINVFUNC|MFINALFUNC|PROCEDURE|FUNCTION)\s*=\s*(toolkit_experimental\.)?\"?" + n + r'\b', bare(x), re.I) for m in self.fname): continue
                    if n not in made:
                        made.add(n)
                        out += [re.sub(r'"?\b%s\b"?(?=\s*\()' % n, "old_" + n, self.st[m], count=1) for m in self.fname if self.fname[m] == n]
                    x = re.sub(r'"?\b%s\b"?(?=\s*(,|/|\n|--))' % n, "old_" + n, x)
            out.append(x)
        return "".join(out)


class Packager:
    def __init__(self, ctx, cat, vs):
        self.ctx, self.cat, self.vs, self.cache, self.lock = ctx, cat, vs, {}, threading.Lock()
        os.utime(REPO + "/tools/post-install/src/main.rs")
        r = subprocess.run(["bash", "-c", f". {ENVSH}; export CARGO_TARGET_DIR={REPO}/target; cd {REPO} && cargo build --offline -p post-install"], capture_output=True, text=True)
        if r.returncode != 0: raise ToolError("building post-install failed:\n" + r.stderr[-3000:])
        self.bin = ctx.libdir + "/post-install"
        shutil.copy(REPO + "/target/debug/post-install", self.bin)

    def get(self, v):
        with self.lock:
            if v not in self.cache: self.cache[v] = threading.Lock(), []
            lk, c = self.cache[v]
        with lk:
            if not c: c.append(self.make(v))
            return c[0]

    def make(self, v):
        """runs post-install for version v -> (install script, {earlier version: update script})"""
        ver, froms = self.vs[v - 1], list(range(1, v)) if v > 1 else []
        D = f"{self.ctx.libdir}/pkg{v}"
        lib, ext = D + "/usr/lib", D + "/usr/share/extension"
        os.makedirs(lib); os.makedirs(ext)
        open(lib + "/timescaledb_toolkit.so", "w").write("library")
        ctl = open(REPO + "/extension/timescaledb_toolkit.control").read().replace("@CARGO_VERSION@", ver)
        ctl = re.sub(r"(upgradeable_from\s*=\s*)'[^']*'", lambda m: m.group(1) + "'" + (", " if v % 2 else ",").join([self.vs[f - 1] for f in froms] or ["1.4.0"]) + "'", ctl)
        open(ext + "/timescaledb_toolkit.control", "w").write(ctl)
        inst = f"{ext}/timescaledb_toolkit--{ver}.sql"
        open(inst, "w").write(self.cat.script(v, self.vs))
        os.chmod(inst, 0o640)
        cmd = [self.bin, "--dir", D]
        if v % 3 == 0:
            pc = D + "/pg_config"
            open(pc, "w").write(f'#!/bin/sh\ncase "$1" in --pkglibdir) echo {lib};; --sharedir) echo {D}/usr/share;; *) exit 1;; esac\n')
            os.chmod(pc, 0o755)
            cmd = [self.bin, pc]
        r = subprocess.run(cmd, capture_output=True, text=True)
        bad = lambda what: self.ctx.violation("upgrade/package", f"post-install for version {ver}, upgradeable from {[self.vs[f - 1] for f in froms]}: {what}", {"version": ver, "cmd": cmd})
        if r.returncode != 0:
            bad("fails: " + r.stderr.split("stack backtrace")[0][-400:])
            return None, {}
        if os.listdir(lib) != [f"timescaledb_toolkit-{ver}.so"]: bad(f"the libraries are {os.listdir(lib)}")
        c = open(ext + "/timescaledb_toolkit.control").read()
        if "\nmodule_pathname" in c or f"default_version = '{ver}'" not in c: bad(f"the control file is {c!r}")
        want = {"timescaledb_toolkit.control", f"timescaledb_toolkit--{ver}.sql"} | {f"timescaledb_toolkit--{self.vs[f - 1]}--{ver}.sql" for f in froms or [0] if f} | ({f"timescaledb_toolkit--1.4.0--{ver}.sql"} if not froms else set())
        if set(os.listdir(ext)) != want: bad(f"the files are {sorted(os.listdir(ext))}, not {sorted(want)}")
        out = {}
        for f in froms:
            p = f"{ext}/timescaledb_toolkit--{self.vs[f - 1]}--{ver}.sql"
            if not os.path.exists(p): continue
            out[f] = open(p).read()
            if os.stat(p).st_mode & 0o777 != 0o640: bad(f"{p} has mode {oct(os.stat(p).st_mode)}, the install script has 0640")
        s = open(inst).read()
        if "MODULE_PATHNAME" in s or any("MODULE_PATHNAME" in x for x in out.values()): bad("a script still says MODULE_PATHNAME")
        shutil.rmtree(D)
        return s, out

    def sql(self, s):
        """as PostgreSQL would run it; each version's library is the present one under that version's name"""
        def lib(m):
            p = f"{self.ctx.libdir}/timescaledb_toolkit-{m.group(1)}"
            with self.lock:
                if m.group(1) in self.vs and not os.path.exists(p + ".so"): os.link(self.ctx.libdir + "/ext.so", p + ".so")
            return p
        return "SET client_min_messages = error; SET check_function_bodies = off; BEGIN;\n" + re.sub(r"\$libdir/timescaledb_toolkit-([\w.-]+)", lib, s).replace("@extschema@", "public") + "\nCOMMIT;\n"


def c24(ctx):
    inv = ("NoFailure", "Exact", "Survive", "Cut", "EmitCase")
    cur = re.search(r'^version\s*=\s*"([^"]+)"', open(REPO + "/extension/Cargo.toml").read(), re.M).group(1)
    listed = [x.strip() for x in re.search(r"upgradeable_from\s*=\s*'([^']*)'", open(REPO + "/extension/timescaledb_toolkit.control").read()).group(1).split(",")]
    vs = sorted({v for v in EXTRA + listed if key(v) < key(cur)}, key=key) + [cur]
    snap = json.load(open(VERIF + "/harness/stable.json"))
    S = sorted({since(v, vs) for v in snap.values() if since(v, vs) <= len(vs)})
    futs = [ctx.spec("Upgrade", {"NV": 3, "Sinces": "{0, 2, 3}", "MaxUpdates": 2, "MaxUsers": 2, "EmitAll": "TRUE"}, invariants=inv, workers=2),
            ctx.spec("Upgrade", {"NV": ctx.pick(4, 5), "Sinces": "{0, 1, 3, 4}", "MaxUpdates": 4, "MaxUsers": 1, "EmitAll": "FALSE"}, invariants=inv, workers=2),
            ctx.spec("Upgrade", {"NV": len(vs), "Sinces": "{" + ", ".join(map(str, S)) + "}", "MaxUpdates": 4, "MaxUsers": 14, "EmitAll": "FALSE"}, spec="SpecRandom", simulate=ctx.pick(60, 500), depth=24, invariants=inv, workers=1)]
    ctx.start()
    cat = Catalog(ctx)
    P = Packager(ctx, cat, vs)
    small, four, deep = [ctx.take(f) for f in futs]
    # the small histories, their three versions put anywhere such that what is stable comes at the same points
    jobs = [[["install", vs.index(v) + 1], ["user", "type", 0], ["user", "fn", 0], ["user", "xfn", 0], ["user", "xtype", 0], ["update", len(vs), [True, True, False, False]]] for v in listed]
    for c in deep: jobs.append(c["hist"])
    for c in ctx.rng.sample(small, ctx.pick(24, 200)) + ctx.rng.sample(four, min(len(four), ctx.pick(8, 100))):
        top = max([e[1] for e in c["hist"] if e[0] != "user"])
        place = sorted(ctx.rng.sample(range(1, len(vs) + 1), top))
        okS = {s: max([x for x in S if x <= place[s - 1]], default=0) if s else 0 for s in range(top + 1)}
        jobs.append([[e[0], place[e[1] - 1], *e[2:]] if e[0] != "user" else ["user", e[1], okS[e[2]] if e[1][0] != "x" else 0] for e in c["hist"]])
    fresh, flock = {}, threading.Lock()
    ctx.evals += len(vs)

    def fingerprint(v):
        with flock:
            if v not in fresh: fresh[v] = threading.Lock(), []
            lk, c = fresh[v]
        with lk:
            if not c:
                db = f"c24fresh{v}"
                ctx.server.sql(f"CREATE DATABASE {db}")
                s = P.get(v)[0]
                rc, o, e = ctx.server.try_sql(P.sql(s), db=db) if s is not None else (1, "", "no install script")
                if rc:
                    ctx.violation("upgrade/install", f"the install script of version {vs[v - 1]} fails: {e[-300:]}", {"version": vs[v - 1]})
                    c.append(None)
                else: c.append(set(l for l in ctx.server.sql(FP, db=db).splitlines()))
            return c[0]

    def run(n):
        hist, db = jobs[n], f"c24_{n}"
        rng = random.Random(f"{ctx.seed}/{n}")
        at, us, say = None, [], []
        ctx.server.sql(f"CREATE DATABASE {db}")
        try:
            for e in hist:
                if e[0] == "install":
                    at = e[1]
                    say.append("install " + vs[at - 1])
                    if fingerprint(at) is None: return
                    ctx.server.sql(P.sql(P.get(at)[0] + (TRIGGERS if n % 4 == 0 and n < len(listed) + len(deep) else "")), db=db)        # as versions long ago had
                elif e[0] == "user":
                    us.append(depend(rng, e[1], e[2], f"u{len(us)}", at, db))
                    say.append(us[-1][0])
                else:
                    to = e[1]
                    say.append("update to " + vs[to - 1])
                    want = fingerprint(to)
                    if want is None: return
                    script = P.get(to)[1].get(at)
                    if script is None: return
                    rc, o, err = ctx.server.try_sql(P.sql(script), db=db)
                    fail = lambda k, what: ctx.violation("upgrade/" + k, f"{'; '.join(say)}: {what}", {"history": say, "versions": vs})
                    ctx.evals += 1 + len(us)
                    if rc: return fail("fails", "the update script fails: " + err.strip()[-300:])
                    have = set(l for l in ctx.server.sql(FP, db=db).splitlines() if not re.match(r"\w+\|u\d+\|", l))
                    if have != want: return fail("catalog", f"the installation is not that of a fresh {vs[to - 1]}: missing {sorted(want - have)[:3]}, in excess {sorted(have - want)[:3]} ({len(want - have)} and {len(have - want)} in all)")
                    for u, alive in zip(us, e[2]):
                        if u[1] is None: continue
                        rc, o, err = ctx.server.try_sql(u[1], db=db)
                        if (rc == 0 and o.strip() == u[2]) != alive: return fail("user", f"{u[0]} is {'gone or another' if alive else 'still there'}: {u[1]} gives {(o or err).strip()[:200]!r}{', was ' + repr(u[2]) if alive else ''}")
                    at = to
            with flock:
                ctx.traces += 1
                if sum(x[0] == "update" for x in hist) > 1 or us: ctx.nontrivial += 1
        finally: ctx.server.try_sql(f"DROP DATABASE {db}")

    def depend(rng, kind, s, name, v, db):
        """makes a view or a column of an object of that kind that became stable at s -> (what, query about it, its answer)"""
        x = kind[0] == "x"
        k = kind[1:] if x else kind
        cand = [m for m, (e, i) in cat.usable.items() if e == x and cat.kind[m] == k and (x or (cat.rec.get(m) and since(cat.rec[m], vs) == s))]
        for _ in range(12):
            if not cand: break
            m = rng.choice(cand)
            ident = cat.id[m].split(" ", 1)[1]
            if k == "type":
                value = VALUES.get(ident, f"NULL::{ident}")
                sql, q = f"CREATE TABLE {name} AS SELECT {value} AS x;", f"SELECT x::text FROM {name}"
            else:
                fn, args = re.match(r"(.*)\((.*)\)$", ident).groups()
                a = ["NULL::" + ("int" if t == "anyelement" else t) for t in args.split(",")] if args else []
                e = f"{fn}({', '.join(a)})" if k != "op" else f"({a[0]} OPERATOR({fn if '.' in fn else 'public.' + fn}) {a[1]})"
                sql, q = f"CREATE VIEW {name} AS SELECT {e} AS x;", f"SELECT pg_get_viewdef('{name}'::regclass)"
            rc, o, err = ctx.server.try_sql("SET search_path = public; " + sql, db=db)
            if rc == 0: return (sql, q, ctx.server.sql(q, db=db).strip())
        return (f"(no {kind} to depend on)", None, None)
    with ThreadPoolExecutor(7) as ex: list(ex.map(run, range(len(jobs))))
    ctx.extra["updates"] = sum(sum(e[0] == "update" for e in j) for j in jobs)
    ctx.extra["versions"] = vs
    ctx.samples += [small[len(small) // 2], deep[-1]]
