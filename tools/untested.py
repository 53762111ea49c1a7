"""untested.py TRACKFILE: the extension's functions that no check called (run the checks with VERIF_TRACK=TRACKFILE first). Development aid."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import pg
called = {}
for l in open(sys.argv[1]):
    f, c = l.strip().rsplit("|", 1)
    called[f] = called.get(f, 0) + int(c)
s = pg.Server(pg.build()); s.load()
out = s.sql("""select p.oid::regprocedure, p.prokind from pg_proc p join pg_depend d on d.objid = p.oid and d.classid = 'pg_proc'::regclass and d.deptype = 'e' where p.prokind = 'f'
union select p.oid::regprocedure, p.prokind from pg_proc p join pg_language l on l.oid = p.prolang where l.lanname = 'c' and p.prosrc like '%wrapper' and p.prokind='f'""")
names = {l.split("|")[0] for l in out.splitlines() if l}
un = sorted(n for n in names if called.get(n, 0) == 0)
print(len(names), "functions,", len(un), "not called")
for n in un: print(n)
