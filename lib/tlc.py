"""Runs TLC on a module of /verif/spec and collects the behaviours that the specification emits."""
import os, subprocess, tempfile, shutil, json, re, time
from pg import VERIF, ToolError

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Result:
    def __init__(self):
        self.cases, self.states, self.distinct, self.wall, self.out, self.module, self.violated = [], 0, 0, 0.0, "", "", None


def run(module, consts=None, invariants=("Inv",), properties=(), spec="Spec", simulate=None, depth=None, seed=1, workers=4,
        constraints=(), timeout=700, heap="3g", extra=(), expect_ok=True, deadlock=False, files=None, symmetry=None):
    """simulate: number of random behaviours, or None for exhaustive exploration."""
    d = tempfile.mkdtemp(prefix="verif-tlc-", dir="/tmp")
    try:
        for f in os.listdir(VERIF + "/spec"):
            if f.endswith(".tla"): shutil.copy(VERIF + "/spec/" + f, d)
        for n, body in (files or {}).items():
            open(d + "/" + n, "w").write(body)
        cfg = [f"SPECIFICATION {spec}"]
        # the configuration language knows few expressions: constants are defined in a module around the specification
        with open(d + "/MC.tla", "w") as f:
            f.write(f"---- MODULE MC ----\nEXTENDS {module}\n")
            for k, v in (consts or {}).items():
                f.write(f"mc_{k} == {v}\n")
                cfg.append(f"CONSTANT {k} <- mc_{k}")
            f.write("====\n")
        for i in invariants: cfg.append(f"INVARIANT {i}")
        for i in properties: cfg.append(f"PROPERTY {i}")
        for i in constraints: cfg.append(f"CONSTRAINT {i}")
        if symmetry: cfg.append(f"SYMMETRY {symmetry}")
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        open(d + "/MC.cfg", "w").write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", f"-Xmx{heap}", "-Dtlc2.TLC.ide=no", "-cp", CP, "tlc2.TLC", "-config", "MC.cfg",
               "-workers", str(workers), "-metadir", d + "/md", "-seed", str(seed), "-fp", "7"]
        if simulate: cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 100)]
        cmd += list(extra) + ["MC.tla"]
        t = time.time()
        with open(d + "/out", "wb") as f:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC timed out on {module}")
        r = Result()
        r.module, r.wall = module, time.time() - t
        other = []
        seen = set()
        for line in open(d + "/out", errors="replace"):
            if line.startswith('"@@'):
                if line in seen: continue
                seen.add(line)
                r.cases.append(json.loads(json.loads(line.rstrip("\n"))[2:]))
            else: other.append(line)
        r.out = "".join(other)
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", r.out)
        if m: r.states, r.distinct = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        m = re.search(r"The number of states generated: (\d[\d,]*)", r.out)
        if m: r.states = r.distinct = int(m.group(1).replace(",", ""))
        r.rc = p.returncode
        m = re.search(r"Invariant (\w+) is violated|Error: .*", r.out)
        r.violated = m.group(0) if m and p.returncode != 0 else None
        if p.returncode != 0 and expect_ok:
            raise ToolError(f"TLC failed on {module} (exit {p.returncode}):\n" + r.out[-6000:])
        # TLC's workers print in any order; the driver's choices must depend on the seed alone
        r.cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
