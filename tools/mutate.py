#!/usr/bin/env python3
"""mutate.py LOG N [seed] [file-substring...]: a development aid that looks for blind spots. Applies single-line mutations of the sources in
the scratch copy /tmp/wt (shown as /repo), builds it, runs the quick checks of the properties the file belongs to and logs which mutants none of
them notices. No check uses it; survivors are reviewed by hand (many are equivalent)."""
import os, re, sys, random, subprocess, json, time
if os.environ.get("MUT_NS") != "1":
    os.environ["MUT_NS"] = "1"
    os.execvp("unshare", ["unshare", "-m", "bash", "-c", "mount --bind /tmp/wt /repo; exec \"$@\"", "x", sys.executable] + sys.argv)
log, n = sys.argv[1], int(sys.argv[2])
seed = sys.argv[3] if len(sys.argv) > 3 else "1"
subs = sys.argv[4:]
os.chdir("/repo")
E = "extension/src/"
MAP = [("crates/counter-agg/src/lib.rs", "C05 C06 C07"), ("crates/counter-agg/src/range.rs", "C07 C03"), (E + "counter_agg.rs", "C05 C07 C03 C02"), (E + "counter_agg/accessors.rs", "C05 C07"), (E + "gauge_agg.rs", "C06 C07 C02"), (E + "range.rs", "C07 C03"),
       ("crates/time-weighted-average/src/lib.rs", "C08 C02"), (E + "time_weighted_average.rs", "C08 C01"), (E + "time_weighted_average/accessors.rs", "C08"),
       (E + "state_aggregate.rs", "C09 C01"), (E + "state_aggregate/rollup.rs", "C09 C02"), (E + "state_aggregate/accessors.rs", "C09"), (E + "heartbeat_agg.rs", "C10 C01"), (E + "candlestick.rs", "C11 C02"),
       (E + "nmost.rs", "C12 C01"), (E + "nmost/min_int.rs", "C12"), (E + "nmost/max_by_float.rs", "C12 C03"), (E + "nmost/max_time.rs", "C12"), (E + "nmost/min_by_time.rs", "C12"), (E + "frequency.rs", "C13 C01"), (E + "countminsketch.rs", "C13 C01"), ("crates/count-min-sketch/src/lib.rs", "C13"),
       (E + "hyperloglog.rs", "C14 C01 C03"), ("crates/hyperloglogplusplus/src/lib.rs", "C14"), ("crates/hyperloglogplusplus/src/sparse.rs", "C14 C01"), ("crates/hyperloglogplusplus/src/dense.rs", "C14"), ("crates/hyperloglogplusplus/src/registers.rs", "C14"), ("crates/encodings/src/lib.rs", "C14 C15 C03"),
       (E + "uddsketch.rs", "C15 C03 C01"), ("crates/udd-sketch/src/lib.rs", "C15 C01"), (E + "tdigest.rs", "C16 C01"), ("crates/t-digest/src/lib.rs", "C16 C01"),
       (E + "stats_agg.rs", "C17 C04 C01"), ("crates/stats-agg/src/stats1d.rs", "C17 C04"), ("crates/stats-agg/src/stats2d.rs", "C17 C04"), ("crates/stats-agg/src/lib.rs", "C17 C04"),
       (E + "time_vector.rs", "C18 C23 C01"), (E + "time_vector/iter.rs", "C18"), (E + "time_vector/pipeline.rs", "C18"), (E + "time_vector/pipeline/fill_to.rs", "C18"), (E + "time_vector/pipeline/delta.rs", "C18"), (E + "time_vector/pipeline/sort.rs", "C18"), (E + "time_vector/pipeline/filter.rs", "C18 C19"), (E + "time_vector/pipeline/map.rs", "C18 C19"),
       (E + "time_vector/pipeline/arithmetic.rs", "C18"), (E + "time_vector/pipeline/aggregation.rs", "C18"), (E + "time_vector/pipeline/expansion.rs", "C18"), (E + "time_vector/pipeline/lambda.rs", "C19"), (E + "time_vector/pipeline/lambda/parser.rs", "C19"), (E + "time_vector/pipeline/lambda/executor.rs", "C19"),
       (E + "lttb.rs", "C20"), (E + "asap.rs", "C20"), ("crates/asap/src/lib.rs", "C20"), ("crates/asap/src/fft.rs", "C20"), (E + "utilities.rs", "C21"), (E + "saturation.rs", "C22"), (E + "duration.rs", "C08"),
       (E + "datum_utils.rs", "C03 C12 C13"), (E + "aggregate_utils.rs", "C01"), (E + "palloc.rs", "C01"), (E + "type_builder.rs", "C03"), (E + "serialization/types.rs", "C03 C12"), (E + "serialization/collations.rs", "C14 C03"), (E + "serialization.rs", "C03"), ("crates/tspoint/src/lib.rs", "C05 C07"), (E + "accessors.rs", "C05 C18"),
       ("tools/post-install/src/update_script.rs", "C24"), ("tools/post-install/src/main.rs", "C24")]
OPS = [(r"<=", "<"), (r"(?<![<\-=|])>=", ">"), (r"(?<= )<(?= )", "<="), (r"(?<= )>(?= )", ">="), (r"==", "!="), (r"!=", "=="), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"&&", "||"), (r"\|\|(?= )(?<! \|\|$)", "&&"),
       (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"),
       (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "/"), (r"(?<= )/(?= )", "*"), (r" \+= ", " -= "), (r"^(\s+)[\w.\[\]]+ [+\-*]?= [^;]*;$", r"\1"), (r"^(\s+)[\w.]+\([^;{}]*\);$", r"\1"), (r"\bcontinue;", ""), (r"if !", "if "), (r"\b2\b", "3"), (r"\b0\b", "1"), (r"\b1\b", "2"),
       (r"\.rev\(\)", ""), (r"first_val|\.first\b", "last"), (r"\bstart\b", "end"), (r"\.ts\b", ".val")]
SKIP = re.compile(r"^\s*(//|#\[|use |pub use |\*|/\*|fn |pub fn |impl|where|type |mod |pub mod |extern|\"|sfunc|msfunc|finalfunc)|debug_assert|panic!|error!|expect\(|FIXME|stype|parallel|\\n")


def sites(f):
    lines = open(f).read().split("\n")
    out, sql = [], False
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\((any\()?test", l) and i > 20: break
        if "extension_sql!" in l or "pg_type!" in l or "ron_inout" in l: sql = True
        if sql:
            if l.startswith(")") or l.startswith("}"): sql = False
            continue
        if SKIP.search(l) or not l.strip(): continue
        code = l.split("//")[0].rstrip()
        for p, r in OPS:
            for m in re.finditer(p, code):
                new = code[:m.start()] + m.expand(r) + code[m.end():]
                if new.strip() != code.strip(): out.append((i, code, new))
    return out


def family(pid):
    """kills a process and all that it started, and nothing else"""
    ps = subprocess.run(["ps", "-eo", "pid=,ppid="], capture_output=True, text=True).stdout.split("\n")
    kids = {}
    for x in ps:
        if x.strip(): a, b = map(int, x.split()); kids.setdefault(b, []).append(a)
    todo, all_ = [pid], []
    while todo:
        q = todo.pop(); all_.append(q); todo += kids.get(q, [])
    for q in all_:
        try: os.kill(q, 9)
        except ProcessLookupError: pass


rng = random.Random(seed)
files = [(f, c) for f, c in MAP if os.path.exists(f) and (not subs or any(s in f for s in subs))]
BUILD = '. /opt/vp/env.sh; export CARGO_TARGET_DIR=/repo/target; cd /repo/extension && timeout 600 cargo test --no-run --offline --no-default-features --features "$FEATURES"'
done, skipped = 0, 0
while done < n and skipped < 5 * n + 20:
    f, checks = rng.choice(files)
    s = sites(f)
    if not s: continue
    i, old, new = rng.choice(s)
    lines = open(f).read().split("\n")
    lines[i] = new
    open(f, "w").write("\n".join(lines))
    try:
        b = subprocess.run(["bash", "-c", BUILD], capture_output=True, text=True)
        if b.returncode: skipped += 1; continue
        done += 1
        caught = None
        for c in checks.split():
            t = time.time()
            p = subprocess.Popen([sys.executable, "/verif/check.py", c], env=dict(os.environ, VERIF_NO_BUILD="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            try: out, rc = p.communicate(timeout=400)[0], p.returncode
            except subprocess.TimeoutExpired:
                family(p.pid)
                caught = c + " (timeout)"
                break
            if rc == 1 and "VIOLATION" in out: caught = c; break
            if rc: caught = f"{c} (exit {rc})"; break
        open(log, "a").write(f"{'caught by ' + caught if caught else 'MISSED by ' + checks}: {f}:{i + 1}\n    - {old.strip()}\n    + {new.strip()}\n")
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/repo")
