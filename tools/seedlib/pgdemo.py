"""Scratch PostgreSQL with the extension that build.sh built; everything lives in a temporary directory."""
import os, subprocess, tempfile, shutil, pwd, time, sys
B = "/usr/lib/postgresql/16/bin"
def run(sql, load_only=False):
    so = os.getcwd() + "/target/debug/deps/libtimescaledb_toolkit.so"
    d = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    p = None
    try:
        pw = pwd.getpwnam("postgres")
        os.chmod(d, 0o755)
        shutil.copy(so, d + "/ext.so"); os.chmod(d + "/ext.so", 0o755)
        dst = os.getcwd() + "/target/debug/libtimescaledb_toolkit.so"
        shutil.copy(so, dst + ".demo"); os.replace(dst + ".demo", dst)
        r = subprocess.run(["bash", "-c", f'. /opt/vp/env.sh; export CARGO_TARGET_DIR={os.getcwd()}/target; cd extension && cargo pgrx schema --skip-build --no-default-features --features "$FEATURES" -c {B}/pg_config -o {d}/ext.sql'],
                           capture_output=True, text=True)
        if r.returncode: print(r.stderr[-2000:]); sys.exit(3)
        os.mkdir(d + "/s"); os.chown(d + "/s", pw.pw_uid, pw.pw_gid)
        pre = lambda: (os.setgroups([]), os.setgid(pw.pw_gid), os.setuid(pw.pw_uid))
        r = subprocess.run([B + "/initdb", "-D", d + "/s/data", "-A", "trust", "-E", "UTF8", "--locale=C.UTF-8", "-U", "postgres", "--no-sync"], capture_output=True, text=True, preexec_fn=pre, cwd="/tmp")
        if r.returncode: print(r.stderr); sys.exit(3)
        open(d + "/s/data/postgresql.conf", "a").write(f"\nlisten_addresses=''\nunix_socket_directories='{d}/s'\nfsync=off\ntimezone='UTC'\nstatement_timeout='60s'\nmax_worker_processes=16\nmax_parallel_workers=16\njit=off\n")
        p = subprocess.Popen([B + "/postgres", "-D", d + "/s/data"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=pre, cwd="/tmp")
        def q(s):
            return subprocess.run(["psql", "-X", "-q", "-A", "-t", "-h", d + "/s", "-U", "postgres", "-d", "postgres", "-v", "VERBOSITY=terse"], input=s, capture_output=True, text=True, timeout=240)
        for _ in range(200):
            if q("select 1").returncode == 0: break
            time.sleep(0.1)
        s = open(d + "/ext.sql").read().replace("MODULE_PATHNAME", d + "/ext").replace("@extschema@", "public")
        r = q("SET client_min_messages=error; SET check_function_bodies=off; \\set ON_ERROR_STOP 1\nBEGIN;\n" + s + "\nCOMMIT;\n")
        if r.returncode: print(r.stderr[-2000:]); sys.exit(3)
        r = q("SET client_min_messages=error;\n" + sql)
        return r.stdout, r.stderr
    finally:
        if p is not None and p.poll() is None:
            p.send_signal(3)
            try: p.wait(10)
            except subprocess.TimeoutExpired: p.kill()
        shutil.rmtree(d, ignore_errors=True)
def expect(sql, want):
    """Every line of the answer must be the wanted one ('ERR' for an error; '~x' approximately x)."""
    out, err = run(sql)
    got = [l for l in out.split("\n") if l != ""]
    print("got ", got); print("want", want)
    if err: print(err[-600:])
    def same(g, w):
        if w.startswith("~"):
            try: return abs(float(g) - float(w[1:])) <= 1e-9 * max(1.0, abs(float(w[1:])))
            except ValueError: return False
        return g == w
    ok = len(got) == len(want) and all(same(g, w) for g, w in zip(got, want))
    sys.exit(0 if ok else 1)
