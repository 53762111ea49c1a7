#!/bin/bash
# mkseed.sh ID PROPERTY < demo.py : makes seeded/ID from the uncommitted change in /repo (and leaves it there); NEEDS and BREAKS from the environment
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C ${SEED_REPO:-/repo} diff > $d/patch.diff
cat > $d/demo.py
cp /verif/tools/seedlib/pgdemo.py $d/
printf '#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n' > $d/demo.sh; chmod +x $d/demo.sh
python3 - "$d" "$2" <<'PY'
import sys, os, json
json.dump({"property": sys.argv[2], "needs": os.environ["NEEDS"], "what_it_breaks": os.environ["BREAKS"]}, open(sys.argv[1] + "/meta.json", "w"), indent=1)
PY
