#!/usr/bin/env python3
"""A scratch server for experiments: sqlsh.py 'sql' (builds unless VERIF_NO_BUILD=1)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/../lib")
import pg, shutil
d = pg.build(); s = pg.Server(d); s.load()
r = s.psql(sys.stdin.read() if len(sys.argv) < 2 else sys.argv[1], stop=False)
print(r.stdout); print(r.stderr)
s.stop(); shutil.rmtree(d)
