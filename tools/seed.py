"""from seed import seed: writes one planted bug from textual replacements in /repo, and undoes them there."""
import subprocess, os
R = os.environ.get("SEED_REPO", "/repo")
def seed(id, prop, edits, needs, breaks, demo):
    subprocess.run(["git", "-C", R, "diff", "--quiet"], check=True)
    try:
        for file, old, new in edits:
            p = R + "/" + file; s = open(p).read(); assert s.count(old) == 1, (id, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        subprocess.run(["/verif/tools/mkseed.sh", id, prop], input=("" if demo.startswith("import") else "from pgdemo import expect\n") + demo, text=True, check=True, env=dict(os.environ, NEEDS=needs, BREAKS=breaks))
    finally:
        subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True)
