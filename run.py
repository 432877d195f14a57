#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

Builds the property's harness against /repo's working tree in several variants (sanitizers, release, ...), runs them,
and turns what the monitors reported into a verdict:
  exit 0  held on everything explored
  exit 1  violated: a line "VIOLATION property=<id> replay=<path>"
  exit 2  no verdict: the machinery failed, was killed, or observed too little
"""
import argparse, concurrent.futures as cf, json, mmap, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import PROPS, VARIANTS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
LOG_SIZE = 1 << 16
REPLAYS = os.path.join(VERIF, "evidence", "replays")


class Inconclusive(Exception):
    pass


def known_findings(prop):
    found = {}
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m and m[1] == prop:
            found[m[2]] = m[3].strip()
    return found


def sh(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def compiler(cmd):
    """Runs a compiler: (whether it succeeded, its messages)"""
    for attempt in (1, 2):
        rc, out, err = sh(cmd, 600)
        if rc == 0:
            return True, err
        if rc is None:
            raise Inconclusive("the compiler did not finish")
        if rc < 0 or re.search(r"internal compiler error|Killed|No space left|Cannot allocate memory|PLEASE submit a bug report", err):
            if attempt == 2:
                raise Inconclusive("the compiler failed: " + err[-300:])
            continue
        if attempt == 2:
            return False, err
    raise Inconclusive("unreachable")


def build(spec, variant, tmp, tag, defines=()):
    v = VARIANTS[variant]
    exe = os.path.join(tmp, f"{tag}.exe")
    srcs = [os.path.join(VERIF, "harness", s) for s in spec["sources"]] + [os.path.join(REPO, s) for s in spec.get("repo_sources", [])]
    base = [v["cxx"], "-std=gnu++20", "-w", *v["flags"], *spec.get("flags", []), *defines, "-I" + os.path.join(REPO, "include"),
            "-I" + os.path.join(VERIF, "harness")]
    if "generate" in spec:
        return build_parts(spec, base, srcs, exe, tmp, tag)
    cmd = [*base, *srcs, "-o", exe, *spec.get("libs", [])]
    ok, err = compiler(cmd)
    return (exe, None, cmd) if ok else (None, err, cmd)


def build_parts(spec, base, srcs, exe, tmp, tag):
    """A program of several units: generated ones in addition to the sources, some of them in shared libraries"""
    where = os.path.join(tmp, tag + ".units")
    os.makedirs(where, exist_ok=True)
    program = next(int(d[10:].rstrip("u")) for d in base if d.startswith("-DPROGRAM="))
    rc, out, err = sh([sys.executable, os.path.join(VERIF, "harness", spec["generate"]), REPO, where, str(program)], 60)
    if rc != 0:
        raise Inconclusive("the units could not be generated: " + err[-300:])
    parts = json.loads(out)
    lib = lambda n: os.path.join(where, f"lib{n}.so")
    base = [*base, "-fPIC", f'-DLOADED="{lib("loaded")}"']
    groups = {"program": srcs + [os.path.join(where, f) for f in parts["program"]], "loaded": [os.path.join(where, f) for f in parts["loaded"]]}
    for i, fs in enumerate(parts["libraries"]):
        groups[f"part{i}"] = [os.path.join(where, f) for f in fs]
    strict = [x if not x.startswith("-std=") else "-std=c++20" for x in base]
    objects = lambda g: [os.path.join(where, f"{g}_{i}.o") for i in range(len(groups[g]))]
    cmds = [[*(strict if os.path.basename(f).startswith("alone_") else base), "-c", f, "-o", o] for g in groups for f, o in zip(groups[g], objects(g))]
    with cf.ThreadPoolExecutor(6) as ex:
        for cmd, (ok, err) in zip(cmds, ex.map(compiler, cmds)):
            if not ok:
                return None, err, cmd
    libs = [g for g in groups if g != "program"]
    links = [[*base, "-shared", *objects(g), "-o", lib(g)] for g in libs]
    links.append([*base, "-rdynamic", "-Wl,--no-as-needed", *objects("program"), "-o", exe, *(lib(g) for g in libs if g != "loaded"), "-Wl,-rpath," + where, *spec.get("libs", []), "-ldl"])
    for cmd in links:
        ok, err = compiler(cmd)
        if not ok:
            return None, err, cmd
    return exe, None, links[-1]


ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:hard_rss_limit_mb=6000:detect_odr_violation=2:handle_abort=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=77",
           TSAN_OPTIONS="halt_on_error=1:exitcode=77:second_deadlock_stack=1",
           LC_ALL="C.UTF-8", MALLOC_PERTURB_="165")


def classify(rc, err):
    """The kind of an abnormal end."""
    m = re.search(r"SUMMARY: (\w+): ([\w-]+(?: [\w-]+)?)", err)
    if m:
        return f"{m[1]}:{m[2]}".replace(" ", "-")
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "UBSan:" + re.sub(r"[^A-Za-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+|'[^']*'", "", m[1]))[:60].strip("-")
    m = re.search(r"==\d+== (Invalid \w+ of size \d+|Conditional jump or move depends on uninitialised|Use of uninitialised value|"
                  r"Mismatched free|Invalid free|Syscall param \S+ points to uninitialised)", err)
    if m:
        return "memcheck:" + m[1].replace(" ", "-")
    if "hard rss limit exhausted" in err:
        return "memory-exhausted"
    if re.search(r"Error: attempt to|Assertion '.*' failed|__glibcxx_assert", err):
        return "libstdc++-assertion"
    if rc is not None and rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return f"signal-{-rc}"
    return f"exit-{rc}"


def read_page(path):
    try:
        b = open(path, "rb").read()
        suite = b[:64].split(b"\0")[0].decode()
        case, used, _ = struct.unpack_from("QQQ", b, 64)
        return suite, case, b[88:88 + min(used, LOG_SIZE)].decode("utf-8", "replace")
    except (OSError, struct.error):
        return "", 0, ""


def execute(prop, job, exe, tmp, tier, seed, extra=()):
    """One run of one variant: (violations, summary)"""
    v = VARIANTS[job["variant"]]
    tag = job["tag"]
    out, hashes, page = (os.path.join(tmp, f"{tag}.{x}") for x in ("out", "hashes", "page"))
    for f in (out, hashes, page):
        if os.path.exists(f):
            os.unlink(f)
    scale = job.get("scale", 100)
    cmd = [*v.get("wrap", []), exe, "--seed", str(seed), "--tier", job.get("tier", tier), "--scale", str(scale), "--out", out, "--hashes", hashes,
           "--page", page, "--variant", job["variant"], *extra]
    limit = job.get("timeout", 150 if tier == "quick" else 1500)
    cwd = os.path.join(tmp, tag + ".cwd")
    os.makedirs(cwd, exist_ok=True)
    rc, so, err = sh(cmd, limit, cwd=cwd, env=ENV)
    violations, summary, unobserved = [], None, []
    if os.path.exists(out):
        for line in open(out, encoding="utf-8", errors="replace"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["t"] == "violation":
                violations.append(d)
            elif d["t"] == "summary":
                summary = d
            elif d["t"] == "unobserved":
                unobserved.append(f"{d['event']}: {d['seen']} < {d['needed']}")
    suite, case, history = read_page(page)
    if rc is None:
        return violations, None, ("hang", suite, case, history)
    if rc in (0, 10, 4) and summary is not None:
        h = set()
        if os.path.exists(hashes):
            b = open(hashes, "rb").read()
            h = set(struct.unpack(f"{len(b) // 8}Q", b))
        summary["hashes"] = h
        summary["unobserved"] = unobserved
        return violations, summary, None
    if rc == 10 and violations:
        return violations, None, None
    if rc == 3 and not violations:
        raise Inconclusive("the harness could not start")
    if rc in (-signal.SIGKILL, -signal.SIGTERM) and not violations:
        raise Inconclusive(f"the run was killed from outside in {suite} case {case}")
    kind = classify(rc, err)
    if kind in ("exit-0", "exit-10") or (kind == "exit-1" and "valgrind" in err[:300] and not suite):
        raise Inconclusive(f"the harness ended without a summary: {err[-300:]}")
    violations.append({"key": f"abnormal-end/{suite}/{kind}", "suite": suite, "case": case, "detail": err[-6000:] or kind, "history": history})
    return violations, None, None


def run_job(prop, job, exe, tmp, tier, seed):
    for attempt in (1, 2):
        violations, summary, hang = execute(prop, job, exe, tmp, tier, seed)
        if hang is None or violations:
            return violations, summary
        if attempt == 2:  # twice in the same place, with a limit far above the usual time
            _, suite, case, history = hang
            if suite == first[1] and case == first[2]:
                return [{"key": f"hang/{suite}", "suite": suite, "case": case, "detail": "the case does not end", "history": history}], None
            raise Inconclusive(f"timed out twice, in {first[1]} case {first[2]} and {suite} case {case}")
        first = hang
    raise Inconclusive("unreachable")


def job_seed(seed, index):
    return (seed * 1000003 + index * 7919 + 12345) & 0x7FFFFFFFFFFFFFFF


def write_replay(prop, v, job, seed, tier, src):
    os.makedirs(REPLAYS, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{prop}_{v['key']}")[:100]
    path = os.path.join(REPLAYS, name + ".json")
    json.dump({"property": prop, "key": v["key"], "variant": job["variant"], "job": job, "seed": seed, "tier": tier, "suite": v.get("suite"),
               "case": v.get("case"), "detail": v.get("detail"), "history": v.get("history"), "build": src,
               "replay": f"python3 run.py {prop} --replay {path}"}, open(path, "w"), indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selfcheck", action="store_true", help="check that the tools are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.selfcheck:
        missing = [t for t in {v["cxx"] for v in VARIANTS.values()} | {"valgrind"} if not shutil.which(t)]
        print("missing tools: " + " ".join(missing) if missing else "ready")
        return 1 if missing else 0
    prop, tier, seed = a.prop, a.tier, a.seed
    spec = PROPS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        if a.replay:
            return replay(prop, spec, json.load(open(a.replay)), tmp)
        return check(prop, spec, tier, seed, tmp, t0)
    except Inconclusive as e:
        print(f"INCONCLUSIVE property={prop}: {e}")
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)


def units(spec):
    return spec["units"] if "units" in spec else [spec]


def replay(prop, spec, r, tmp):
    job = r["job"]
    exe, err, _ = build(units(spec)[job["unit"]], job["variant"], tmp, job["tag"], job.get("defines", ()))
    if exe is None:
        print(err)
        print(f"VIOLATION property={prop} replay={r['replay'].split()[-1]}")
        return 1
    job["timeout"] = 300
    extra = ("--suite", r["suite"], "--case", str(r["case"])) if r.get("suite") else ()
    violations, _, hang = execute(prop, job, exe, tmp, r["tier"], r["seed"], extra)
    for v in violations:
        print(f"{v['key']}: {v['detail']}\n  history: {v.get('history')}")
    if hang:
        print("hang:", hang)
    if violations or hang:
        print(f"VIOLATION property={prop} replay={r['replay'].split()[-1]}")
        return 1
    print("the violation did not occur again")
    return 0


def check(prop, spec, tier, seed, tmp, t0):
    jobs = []
    for ui, u in enumerate(units(spec)):
        plan = u[tier]
        for item in plan:
            variant, opts = (item, {}) if isinstance(item, str) else item
            for rep in range(opts.get("repeat", 1)):
                job = dict(opts, variant=variant, unit=ui, tag=f"u{ui}_{variant}_{rep}", buildtag=f"u{ui}_{variant}")
                if u.get("programs"):  # the program itself is generated from the seed
                    job.update(defines=[f"-DPROGRAM={job_seed(seed, len(jobs))}u"], buildtag=job["tag"])
                jobs.append(job)
    # build each (unit, variant) once
    builds = {}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {j["buildtag"]: ex.submit(build, units(spec)[j["unit"]], j["variant"], tmp, j["buildtag"], j.get("defines", ())) for j in reversed(jobs)}
        for k, f in futs.items():
            builds[k] = f.result()
    found = []  # (violation, job, seed, build command)
    summaries = []
    runnable = []
    for i, j in enumerate(jobs):
        exe, err, cmd = builds[j["buildtag"]]
        if exe is None:
            first = next((l for l in err.splitlines() if re.search(r"error:|undefined reference|multiple definition|duplicate symbol", l)), err[:200])
            found.append(({"key": f"does-not-build/unit{j['unit']}", "detail": "a program using the public interface no longer builds: " + first + "\n" + err[-4000:],
                           "suite": "", "case": 0, "history": ""}, j, 0, cmd))
        else:
            runnable.append((i, j, exe, cmd))
    inconclusive = []
    with cf.ThreadPoolExecutor(4 if tier == "quick" else 6) as ex:
        futs = [(j, job_seed(seed, i), cmd, ex.submit(run_job, prop, j, exe, tmp, tier, job_seed(seed, i))) for i, j, exe, cmd in runnable]
        for j, s, cmd, f in futs:
            try:
                violations, summary = f.result()
            except Inconclusive as e:
                inconclusive.append(str(e))
                continue
            found += [(v, j, s, cmd) for v in violations]
            if summary is not None:
                summaries.append((j, summary))
                if summary["unobserved"] and not violations and j.get("scale", 100) >= 100:
                    inconclusive.append(f"{j['tag']} observed too little: " + "; ".join(summary["unobserved"]))
    known = known_findings(prop)
    seen_known, fresh = {}, {}
    for v, j, s, cmd in found:
        if v["key"] in known:
            seen_known[v["key"]] = v
        elif v["key"] not in fresh:
            fresh[v["key"]] = (v, j, s, cmd)
    for k in seen_known:
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    write_evidence(prop, spec, tier, seed, summaries, fresh, seen_known, time.time() - t0)
    for k, (v, j, s, cmd) in fresh.items():
        path = write_replay(prop, v, j, s, tier, " ".join(cmd))
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {k} [{j['variant']}, suite {v.get('suite')}, case {v.get('case')}]: {(v.get('detail') or '')[:600]}")
    if fresh:
        return 1
    if inconclusive:
        raise Inconclusive(" | ".join(inconclusive))
    total = sum(s["cases"] for _, s in summaries)
    print(f"OK property={prop} tier={tier} seed={seed}: {total} cases in {len(summaries)} runs, "
          f"{sum(s['checks'] for _, s in summaries)} oracle decisions, {time.time() - t0:.1f}s")
    return 0


def write_evidence(prop, spec, tier, seed, summaries, fresh, seen_known, wall):
    events, hashes, samples, runs = {}, set(), [], []
    for j, s in summaries:
        for k, n in s["events"].items():
            events[k] = events.get(k, 0) + n
        hashes |= s["hashes"]
        for x in s["samples"]:
            if len(samples) < 6:
                samples.append(f"[{j['variant']}] {x}")
        runs.append({"run": j["tag"], "variant": " ".join([VARIANTS[j["variant"]]["cxx"], *VARIANTS[j["variant"]]["flags"]]),
                     "cases": s["cases"], "oracle_decisions": s["checks"], "nontrivial_cases": s["nontrivial"]})
    e = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
         "coverage": {"evaluations": sum(s["cases"] for _, s in summaries), "distinct_nontrivial": len(hashes), "rule": spec["rule"],
                      "samples": samples or ["no run ended normally"], "oracle_decisions": sum(s["checks"] for _, s in summaries),
                      "observed_events": events, "runs": runs, "known_findings_observed": sorted(seen_known), "exhaustive": False},
         "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(e, open(path + ".tmp", "w"), indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
