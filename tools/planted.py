"""Applies each change in seeded/ to a scratch copy of /repo, runs its property's check there and rewrites the table at the end of
DESIGN.md.  Usage: planted.py"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i):
    d = tempfile.mkdtemp(prefix="planted."); r, v = d + "/repo", d + "/verif"
    try:
        meta = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        subprocess.run(["git", "-C", r, "apply", f"{ROOT}/seeded/{i}/patch.diff"], check=True)
        shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns(".git", "build", "evidence", "seeded"))
        p = subprocess.run([sys.executable, "run.py", meta["property"]], cwd=v, env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
        keys = re.findall(r"^  (\S[^\[]*?) \[", p.stdout, re.M)
        return i, meta, p.returncode, keys
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = sorted(os.listdir(ROOT + "/seeded"))
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    res = list(ex.map(run, ids))
lines = ["| planted | needs | reported by |", "|---|---|---|"]
for i, m, rc, keys in res:
    what = {1: ", ".join(f"`{k}`" for k in keys[:2]) + (f" and {len(keys) - 2} more" if len(keys) > 2 else ""), 0: "**missed**"}.get(rc, f"no answer ({rc})")
    lines.append(f"| {i} | {m['needs']} | {m['property']}: {what} |")
f = ROOT + "/DESIGN.md"
s = open(f).read()
a = s.index("<!-- planted -->")
open(f, "w").write(s[:a] + "<!-- planted -->\n" + "\n".join(lines) + "\n")
print(sum(rc == 1 for _, _, rc, _ in res), "of", len(res), "reported;", [i for i, _, rc, _ in res if rc != 1])
