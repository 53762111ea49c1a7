"""The frame of every check: build, server, specification runs, comparison, evidence."""
import os, sys, json, time, random, math, hashlib, shutil, atexit, threading, traceback
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import pg, tlc
from pg import ToolError, VERIF, copy_in, parse_copy

MAXREPORT = 4


def known_findings():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []


class Ctx:
    def __init__(self, pid, level, technique=""):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.t0 = time.time()
        self.viol = []          # (key, description)
        self.known_hit = {}
        self.known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "open"]
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.notes, self.assumptions = [], [], []
        self.extra = {}
        self.pool = ThreadPoolExecutor(max_workers=12)
        self.server = None
        self.repdir = VERIF + "/work/replays"
        self.nontrivial = 0

    def thorough(self): return self.tier == "thorough"

    def pick(self, quick, thorough): return thorough if self.thorough() else quick

    # -- specification ---------------------------------------------------------------------------
    def spec(self, *a, **kw):
        """Starts TLC in the background -> future of tlc.Result."""
        kw.setdefault("seed", self.seed)
        def go():
            r = tlc.run(*a, **kw)
            return r
        return self.pool.submit(go)

    def take(self, fut):
        r = fut.result()
        self.states += r.distinct
        self.transitions += r.states
        self.extra.setdefault("tlc_runs", []).append({"module": r.module, "states_generated": r.states, "distinct": r.distinct,
                                                      "behaviours": len(r.cases), "wall_s": round(r.wall, 1)})
        return r.cases

    # -- implementation --------------------------------------------------------------------------
    def start(self):
        """Builds and starts the implementation (call after starting the TLC runs, to overlap)."""
        d = pg.build()
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
        self.libdir = d
        self.server = pg.Server(d, self.pid.lower())
        self.server.load()
        self.t_ready = time.time()
        return self.server

    # -- verdicts --------------------------------------------------------------------------------
    def violation(self, key, text, replay):
        for k in self.known:
            if k["key"] == key:
                self.known_hit[key] = k
                return
        self.viol.append((key, text, replay))

    def finish(self):
        rep = None
        if self.viol:
            os.makedirs(self.repdir, exist_ok=True)
            for i, (key, text, replay) in enumerate(self.viol[:MAXREPORT]):
                rep = f"{self.repdir}/{self.pid}-{i}.json"
                json.dump({"property": self.pid, "key": key, "what": text, "replay": replay, "seed": self.seed, "tier": self.tier}, open(rep, "w"), indent=1, default=str)
                print(f"VIOLATION property={self.pid} replay={rep}")
                print("  " + (text if len(text) < 420 else text[:150] + " ... " + text[-260:]))
            if os.environ.get("VERIF_KEYS"):
                for k in sorted({v[0] for v in self.viol}): print(f"  {sum(v[0] == k for v in self.viol):6} {k}: {next(v[1] for v in self.viol if v[0] == k)[-700:]}")
            if len(self.viol) > MAXREPORT: print(f"  ... and {len(self.viol) - MAXREPORT} more")
        for k in self.known_hit.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        cov = {"samples": self.samples[:12], "traces_validated_against_impl": self.traces, "evaluations": self.evals,
               "distinct_nontrivial": self.nontrivial,
               "rule": self.extra.pop("rule", "behaviours emitted by TLC, each replayed in the real extension; non-trivial: at least two usable rows")}
        cov.update({"states": self.states, "transitions": self.transitions})
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{self.pid}.json", "w"), indent=1, default=str)
        print(f"{self.pid}: tier={self.tier} seed={self.seed} states={self.states} behaviours replayed={self.traces} "
              f"answers compared={self.evals} violations={len(self.viol)} wall={ev['wall_s']}s")
        return 1 if self.viol else 0

    # -- bulk evaluation -------------------------------------------------------------------------
    def bulk(self, setup, query_of, ids, cols, shards=6, pre=""):
        """Evaluates for every case id a row of text columns.

        setup: SQL run once.  query_of(where) -> SQL text of a SELECT giving (id, col1, col2, ...) for the ids that satisfy
        `where` (an SQL condition on the column id).  If a shard's statement fails, it is split until the failing case is
        found; its row is then {col: 'ERR:..'} for every column ("ERR" is also found per column with single()).
        -> {id: [texts]}
        """
        if setup: self.server.sql(setup)
        out = {}
        ids = sorted(ids)
        chunks = [ids[i::shards] for i in range(shards)]
        chunks = [c for c in chunks if c]

        def one(chunk):
            stack, res = [chunk], {}
            while stack:
                c = stack.pop()
                where = "id = ANY('{" + ",".join(map(str, c)) + "}'::int[])"
                rc, o, e = self.server.try_sql(pre + "COPY (" + query_of(where) + ") TO STDOUT;\n")
                if rc == 0:
                    for r in parse_copy(o): res[int(r[0])] = r[1:]
                elif len(c) == 1 or "statement timeout" in e:
                    for i in c[1:]: res[i] = ["ERR:statement timeout"] * len(cols)
                    res[c[0]] = ["ERR:" + e.strip()[:300]] * len(cols)
                    self.await_server()
                else:
                    self.await_server()
                    if self.nerr > 60: continue
                    self.nerr += 1
                    h = (len(c) + 1) // 2
                    stack += [c[:h], c[h:]]
            return res
        self.nerr = 0
        for r in ThreadPoolExecutor(max_workers=shards).map(one, chunks): out.update(r)
        return out

    def fill(self, table, select_of, idcol, ids, shards=6, pre=""):
        """INSERT INTO table <select_of(condition on idcol)> in chunks; a failing chunk is split until the failing case is found.
        -> [(id, error)]"""
        ids = list(ids)
        bad = []

        def one(chunk):
            stack = [chunk]
            while stack:
                c = stack.pop()
                where = f"{idcol} = ANY('{{{','.join(map(str, c))}}}'::int[])"
                rc, o, e = self.server.try_sql(f"{pre}INSERT INTO {table} {select_of(where)};")
                if rc == 0: continue
                self.await_server()
                if len(c) == 1 or "statement timeout" in e: bad.append((c[0], e.strip()[:300]))
                elif len(bad) < 30:
                    h = (len(c) + 1) // 2
                    stack += [c[:h], c[h:]]
        chunks = [c for c in (ids[i::shards] for i in range(shards)) if c]
        list(ThreadPoolExecutor(max_workers=shards).map(one, chunks))
        return sorted(bad)

    PARTIAL = "SET enable_partitionwise_aggregate = on; SET max_parallel_workers_per_gather = 0;"

    def partial(self, name, select, part="g", key="id"):
        """A table partitioned by group whose statistics make PostgreSQL aggregate each partition by itself and combine the partial
        states (with PARTIAL set), when grouped by its key."""
        parts = [f"{name}_{k}" for k in ("1", "2", "3", "x")]
        self.server.sql(f"CREATE UNLOGGED TABLE {name}_src AS {select};\nCREATE UNLOGGED TABLE {name} (LIKE {name}_src) PARTITION BY LIST ({part});\n"
                        + "".join(f"CREATE UNLOGGED TABLE {q} PARTITION OF {name} " + (f"FOR VALUES IN ({q[-1]});" if q[-1] != "x" else "DEFAULT;") for q in parts)
                        + "".join(f"ALTER TABLE {q} ALTER {key} SET (n_distinct = 1, n_distinct_inherited = 1);" for q in [name] + parts)
                        + f"INSERT INTO {name} SELECT * FROM {name}_src; ANALYZE {name};" + "".join(f"ANALYZE {q};" for q in parts))

    def note_plan(self, query):
        """records whether a query is answered from partial states"""
        plan = self.server.sql(self.PARTIAL + "EXPLAIN " + query)
        self.extra.setdefault("partial_plans", []).append("Partial" in plan and "Finalize" in plan)

    def await_server(self):
        for _ in range(100):
            if self.server.try_sql("select 1")[0] == 0: return
            time.sleep(0.1)
        if self.server.p.poll() is not None: self.server.start()


# ---- comparing ----------------------------------------------------------------------------------

def feq(got, want, rel=1e-9, absol=0.0):
    """got: text of a float8 (or None); want: float/Fraction/int/None."""
    if want is None: return got is None
    if got is None: return False
    if got.startswith("ERR:"): return False
    try: g = float(got)
    except ValueError: return False
    w = float(want)
    if math.isnan(w): return math.isnan(g)
    if math.isinf(w) or math.isinf(g): return g == w
    return abs(g - w) <= max(rel * max(abs(g), abs(w)), absol)


def frac(x):
    """JSON of a specification rational: [] none, [n, d]."""
    if x == []: return None
    return Fraction(x[0], x[1])


def main(pid, fn, level="model_checking"):
    ctx = Ctx(pid, level)
    try:
        fn(ctx)
        sys.stdout.flush()
        rc = ctx.finish()
    except ToolError as e:
        print("TOOL ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    try:
        if ctx.server: ctx.server.stop()
    except Exception: pass
    sys.exit(rc)
