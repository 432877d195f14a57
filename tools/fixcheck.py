"""Undoes each repair recorded in known_findings.txt in a scratch copy of /repo and runs the property's check there: every
one must be reported again.  Usage: fixcheck.py [commit...]"""
import concurrent.futures, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(prop, commit):
    d = tempfile.mkdtemp(prefix="fixcheck."); r = d + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        p = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "-C", r, "revert", "-n", commit], capture_output=True, text=True)
        if p.returncode: return prop, commit, "CONFLICT"
        v = d + "/verif"; shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns(".git", "build", "evidence", "seeded", "replays"))
        p = subprocess.run([sys.executable, "run.py", prop], cwd=v, env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
        return prop, commit, f"rc={p.returncode} " + " | ".join(re.findall(r"VIOLATION.*|OK .*", p.stdout))[:200] + " " + " ".join(re.findall(r"key=\S+|does-not-build", p.stdout + p.stderr))[:200]
    finally: shutil.rmtree(d, ignore_errors=True)
todo = [m for m in re.findall(r"^fixed: property=(\w+) (\w+)", open(ROOT + "/known_findings.txt").read(), re.M) if len(sys.argv) < 2 or m[1] in sys.argv[1:]]
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for r in ex.map(lambda m: run(*m), todo): print(*r, flush=True)
