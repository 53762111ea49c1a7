"""Builds the extension from /repo's working tree and runs it in a scratch PostgreSQL server."""
import os, subprocess, shutil, tempfile, time, pwd, fcntl, sys, atexit, json
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PGBIN = "/usr/lib/postgresql/16/bin"
ENVSH = "/opt/vp/env.sh"


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def touch_sources():
    """cargo decides by modification time; make sure that it looks at what is there now."""
    for top in ("extension", "crates"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            if "target" in dirs: dirs.remove("target")
            for f in files:
                if f == "lib.rs" and os.path.basename(d) == "src":
                    os.utime(os.path.join(d, f))


def build(log=None):
    """-> (path of the shared library, path of the schema script); the same command as /opt/vp/build.sh."""
    lockf = open("/tmp/verif-build.lock", "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        if os.environ.get("VERIF_NO_BUILD") != "1":
            touch_sources()
            r = sh(["bash", "-c", f". {ENVSH}; export CARGO_TARGET_DIR={REPO}/target; cd {REPO}/extension && "
                    'cargo test --no-run --offline --no-default-features --features "$FEATURES"'])
            if r.returncode != 0:
                raise ToolError("build failed:\n" + r.stdout[-3000:] + r.stderr[-6000:])
        so = f"{REPO}/target/debug/deps/libtimescaledb_toolkit.so"
        out = tempfile.mkdtemp(prefix="verif-so-", dir="/tmp")
        shutil.copy(so, out + "/ext.so")
        # the schema is embedded in the library; cargo pgrx reads it from target/debug
        dst = f"{REPO}/target/debug/libtimescaledb_toolkit.so"
        tmp = dst + ".verif"
        shutil.copy(so, tmp); os.replace(tmp, dst)
        r = sh(["bash", "-c", f". {ENVSH}; export CARGO_TARGET_DIR={REPO}/target; cd {REPO}/extension && "
                f'cargo pgrx schema --skip-build --no-default-features --features "$FEATURES" -c {PGBIN}/pg_config -o {out}/ext.sql'])
        if r.returncode != 0:
            raise ToolError("schema failed:\n" + r.stdout[-3000:] + r.stderr[-3000:])
        r = sh(["gcc", "-O1", "-shared", "-fPIC", "-I/usr/include/postgresql/16/server", "-o", out + "/vdrive.so",
                VERIF + "/harness/vdrive.c"])
        if r.returncode != 0:
            raise ToolError("gcc failed:\n" + r.stderr[-3000:])
        os.chmod(out, 0o755)
        return out
    finally:
        lockf.close()


class Server:
    def __init__(self, libdir, name="pg"):
        self.dir = tempfile.mkdtemp(prefix=f"verif-{name}-", dir="/tmp")
        self.libdir = libdir
        pw = pwd.getpwnam("postgres")
        os.chown(self.dir, pw.pw_uid, pw.pw_gid)
        os.chmod(self.dir, 0o755)
        self.pre = (lambda: (os.setgid(pw.pw_gid), os.setgroups([]), os.setuid(pw.pw_uid))) if os.getuid() == 0 else None
        self.pre = (lambda: (os.setgroups([]), os.setgid(pw.pw_gid), os.setuid(pw.pw_uid))) if os.getuid() == 0 else None
        self.data = self.dir + "/data"
        r = subprocess.run([PGBIN + "/initdb", "-D", self.data, "-A", "trust", "-E", "UTF8", "--locale=C.UTF-8", "-U", "postgres",
                            "--no-sync"], capture_output=True, text=True, preexec_fn=self.pre, cwd="/tmp")
        if r.returncode != 0: raise ToolError("initdb: " + r.stderr)
        with open(self.data + "/postgresql.conf", "a") as f:
            f.write(f"""
listen_addresses = ''
unix_socket_directories = '{self.dir}'
fsync = off
full_page_writes = off
synchronous_commit = off
max_connections = 60
shared_buffers = 256MB
max_worker_processes = 24
max_parallel_workers = 24
timezone = 'UTC'
datestyle = 'ISO'
jit = off
statement_timeout = 100s
log_min_messages = fatal
autovacuum = off
max_wal_size = 4GB
work_mem = 64MB
bytea_output = 'hex'
dynamic_shared_memory_type = posix
""" + ("track_functions = all\n" if os.environ.get("VERIF_TRACK") else ""))
        self.start()
        atexit.register(self.stop)

    def start(self):
        self.logf = open(self.dir + "/log", "ab")
        self.p = subprocess.Popen([PGBIN + "/postgres", "-D", self.data], stdout=self.logf, stderr=self.logf,
                                  preexec_fn=self.pre, cwd="/tmp", env={"PATH": os.environ.get("PATH", ""), "LC_ALL": "C.UTF-8", "RUST_BACKTRACE": "0"})
        for _ in range(300):
            if self.try_sql("select 1")[0] == 0: return
            if self.p.poll() is not None: break
            time.sleep(0.1)
        raise ToolError("postgres did not start: " + open(self.dir + "/log").read()[-2000:])

    def stop(self):
        if getattr(self, "p", None) and self.p.poll() is None:
            if os.environ.get("VERIF_TRACK"):  # a development aid: which of the extension's functions were called (tools/untested.py)
                with open(os.environ["VERIF_TRACK"], "a") as f:
                    f.write(self.try_sql("select funcid::regprocedure, calls from pg_stat_user_functions")[1])
            self.p.send_signal(3)
            try: self.p.wait(10)
            except subprocess.TimeoutExpired: self.p.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    def psql(self, stdin, db="postgres", timeout=600, stop=True):
        return subprocess.run(["psql", "-X", "-q", "-A", "-t", "-v", "ON_ERROR_STOP=" + ("1" if stop else "0"), "-v", "VERBOSITY=terse",
                               "-h", self.dir, "-U", "postgres", "-d", db], input=stdin, capture_output=True, text=True, timeout=timeout,
                              env={"PATH": os.environ.get("PATH", ""), "LC_ALL": "C.UTF-8", "PGOPTIONS": "-c client_min_messages=error"})

    def try_sql(self, q, db="postgres"):
        r = self.psql(q, db)
        return r.returncode, r.stdout, r.stderr

    def sql(self, q, db="postgres", timeout=600):
        r = self.psql(q, db, timeout)
        if r.returncode != 0: raise ToolError("sql failed: " + r.stderr[-2000:] + "\n" + q[:600])
        return r.stdout

    def load(self):
        s = open(self.libdir + "/ext.sql").read()
        s = s.replace("MODULE_PATHNAME", self.libdir + "/ext").replace("@extschema@", "public")
        r = self.psql("SET client_min_messages=error; SET check_function_bodies=off;\nBEGIN;\n" + s + "\nCOMMIT;\n")
        if r.returncode != 0: raise ToolError("loading the extension failed: " + r.stderr[-2000:])
        self.sql(f"""
CREATE FUNCTION vd(regprocedure, regtype[], text, text[], anyelement) RETURNS anyelement AS '{self.libdir}/vdrive', 'vd' LANGUAGE c VOLATILE;
CREATE FUNCTION vtry(q text) RETURNS text LANGUAGE plpgsql AS $$
DECLARE r text; BEGIN EXECUTE q INTO r; RETURN r; EXCEPTION WHEN OTHERS THEN RETURN 'ERR:' || replace(replace(SQLERRM, E'\\n', ' '), E'\\t', ' '); END $$;
-- microseconds since 1970 / of an interval without months
CREATE FUNCTION us(t timestamptz) RETURNS text LANGUAGE sql IMMUTABLE AS $$ SELECT CASE WHEN isfinite(t) THEN (extract(epoch from t) * 1000000)::numeric(40,0)::text ELSE t::text END $$;
CREATE FUNCTION us(t interval) RETURNS text LANGUAGE sql IMMUTABLE AS $$ SELECT (extract(epoch from t) * 1000000)::numeric(40,0)::text $$;
CREATE FUNCTION tsus(u bigint) RETURNS timestamptz LANGUAGE sql IMMUTABLE AS $$ SELECT '1970-01-01 00:00:00+00'::timestamptz + make_interval(secs => 0) + (u * interval '1 microsecond') $$;
""")


def parse_copy(out):
    """Rows of COPY TO STDOUT text format."""
    rows = []
    for line in out.split("\n"):
        if line == "": continue
        cells = []
        for c in line.split("\t"):
            if c == "\\N": cells.append(None)
            elif "\\" in c:
                cells.append(c.replace("\\\\", "\0").replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r").replace("\\b", "\b").replace("\\f", "\f").replace("\\v", "\v").replace("\0", "\\"))
            else: cells.append(c)
        rows.append(cells)
    return rows


def copy_cell(v):
    if v is None: return "\\N"
    if isinstance(v, bool): return "t" if v else "f"
    return str(v).replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r")


def copy_in(table, rows):
    return f"COPY {table} FROM STDIN;\n" + "".join("\t".join(map(copy_cell, r)) + "\n" for r in rows) + "\\.\n"
