#!/usr/bin/env python3
"""Driver of the runtime monitors:  check.py <property> [--tier quick|thorough] [--seed N]

Builds the harness (/verif/harness) against /repo's working tree in the configurations the property needs, runs the
workloads in parallel worker processes, merges what the monitors observed into evidence/<id>.json and decides:
  exit 0  the property held on everything observed
  exit 1  violated: prints  VIOLATION property=<id> replay=<path>
  exit 2  inconclusive / error of the check (never folded into the other two)
"""
import json, os, re, shutil, signal, subprocess, sys, time, concurrent.futures as cf
from dataclasses import dataclass, field

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("QC_REPO", "/repo")          # development only: check a scratch copy
BUILD = os.environ.get("QC_BUILD", os.path.join(HERE, ".build"))
EVID = os.environ.get("QC_EVID", os.path.join(HERE, "evidence"))
sys.path.insert(0, HERE)
from plan import PLAN, BUILDS  # noqa: E402


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def harness_dir():
    src = os.path.join(HERE, "harness")
    if REPO == "/repo":
        return src
    dst = os.path.join(BUILD, "harness")
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(os.path.join(src, "src"), os.path.join(dst, "src"), dirs_exist_ok=True)
    shutil.copy(os.path.join(src, "Cargo.lock"), dst)
    t = open(os.path.join(src, "Cargo.toml")).read().replace('path = "/repo"', f'path = "{REPO}"')
    p = os.path.join(dst, "Cargo.toml")
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)
    return dst


def build(cfg):
    """returns the command prefix that runs the harness in configuration cfg"""
    b = BUILDS[cfg]
    td = os.path.join(BUILD, cfg)
    env = dict(os.environ, CARGO_TARGET_DIR=td, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **b.get("env", {}))
    env.pop("RUSTC_WRAPPER", None)
    hd = harness_dir()
    t0 = time.time()
    r = subprocess.run(b["cmd"], cwd=hd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        # another cargo may have been killed in the middle of writing: one clean retry
        if "error[E" not in r.stdout and "could not compile" not in r.stdout:
            shutil.rmtree(td, ignore_errors=True)
            r = subprocess.run(b["cmd"], cwd=hd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log(r.stdout[-4000:])
            raise RuntimeError(f"build {cfg} failed")
    log(f"built {cfg} in {time.time()-t0:.1f}s")
    if "run" in b:
        return dict(prefix=b["run"], cwd=hd, env=dict(b.get("env", {}), CARGO_TARGET_DIR=td, CARGO_NET_OFFLINE="true", **b.get("run_env", {})))
    return dict(prefix=[os.path.join(td, b["bin"])], cwd=BUILD, env=b.get("run_env", {}))


@dataclass
class Res:
    job: object
    cmd: list
    rc: int = 0
    out: dict = field(default_factory=dict)
    sigs: set = field(default_factory=set)
    err: str = ""
    wall: float = 0.0


# what in the output of a sanitizer/interpreter is a finding
SAN = re.compile(r"(WARNING: ThreadSanitizer: .*|ERROR: AddressSanitizer: .*|ERROR: LeakSanitizer: .*|error: Undefined Behavior: .*|"
                 r"error: .*[Dd]ata race detected.*|error: the evaluated program deadlocked.*|error: memory leaked: .*|error: deadlock: .*)")


def run_worker(job, w, runner, seed, work, deadline):
    """a worker that ended early without a verdict (a call that never returned) is followed by others, with other seeds"""
    t0 = time.time()
    r = run_once(job, w, runner, seed, work, deadline, 0)
    for i in range(1, 4):
        left = job.secs - (time.time() - t0)
        if not r.out.get("inconclusive") or r.out.get("violations") or not job.writes_out or left < 5:
            break
        n = run_once(job, w, runner, seed, work, deadline, i, left)
        merge_out(n.out, r.out)
        n.sigs |= r.sigs
        r = n
    return r


def run_once(job, w, runner, seed, work, deadline, again, secs=None):
    out = os.path.join(work, f"{job.name}-{w}-{again}.json")
    args = [a.format(seed=seed, w=w, cases=job.cases, secs=secs or job.secs) for a in job.args]
    cmd = runner["prefix"] + args + ["--seed", str((seed * 1000 + w * 7 + job.salt + again * 50_021) & 0x7FFFFFFF)]
    if job.writes_out:
        cmd += ["--out", out]
    env = {**os.environ, **runner["env"], **job.env_for(seed, w)}
    t0 = time.time()
    r = Res(job, cmd)
    p = subprocess.Popen(cmd, cwd=runner["cwd"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        so, se = p.communicate(timeout=max(5, min(job.timeout, deadline - time.time())))
        r.rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        so, se = p.communicate()
        r.rc = -999
    r.wall = time.time() - t0
    r.err = se.decode(errors="replace")[-20000:]
    if not job.writes_out:
        m = [l for l in so.decode(errors="replace").splitlines() if l.startswith("{\"focus\"")]
        try:
            r.out = json.loads(m[-1]) if m else {}
            for l in m[:-1]:
                merge_out(r.out, json.loads(l))
        except ValueError:
            r.out = {}
    elif os.path.exists(out):
        try:
            r.out = json.load(open(out))
        except ValueError:
            r.out = {}
        if os.path.exists(out + ".sig"):
            d = open(out + ".sig", "rb").read()
            r.sigs = {d[i:i + 8] for i in range(0, len(d), 8)}
    return r


def merge_out(a, b):
    a["evals"] = a.get("evals", 0) + b.get("evals", 0)
    a["distinct"] = a.get("distinct", 0) + b.get("distinct", 0)
    a.setdefault("violations", []).extend(b.get("violations", []))
    a.setdefault("inconclusive", []).extend(b.get("inconclusive", []))
    for k, v in b.get("cov", {}).items():
        c = a.setdefault("cov", {})
        c[k] = max(c.get(k, 0), v) if k.startswith("max_") else c.get(k, 0) + v


def known_findings(pid):
    res = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            res.append((m.group(2), m.group(3).strip()))
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier":
            tier = a[1]
        elif a[0] == "--seed":
            seed = int(a[1])
        a = a[2:]
    if pid not in PLAN:
        die(f"unknown property {pid}")
    plan = PLAN[pid]
    jobs = plan.jobs(tier)
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    work = os.path.join(BUILD, f"run-{pid}-{os.getpid()}")
    os.makedirs(work)
    results, viol, inconc = [], [], []
    try:
        need = sorted({j.cfg for j in jobs})
        runners = {}
        try:
            with cf.ThreadPoolExecutor(4) as ex:
                for c, r in zip(need, ex.map(build, need)):
                    runners[c] = r
        except RuntimeError as e:
            die(str(e))
        t1 = time.time()
        # phases keep timing sensitive jobs away from the others
        for ph in sorted({j.phase for j in jobs}):
            tasks = [(j, w) for j in jobs if j.phase == ph for w in range(j.workers)]
            par = min(j.par for j in jobs if j.phase == ph)
            with cf.ThreadPoolExecutor(par) as ex:
                fs = [ex.submit(run_worker, j, w, runners[j.cfg], seed, work, deadline) for j, w in tasks]
                for f in fs:
                    results.append(f.result())
            if any(r.out.get("violations") for r in results):
                break
        log(f"{len(results)} workers done in {time.time()-t1:.1f}s")
        cov, samples, evals, other = {}, [], 0, {}
        sigs, dist = {}, 0
        perjob = {}
        for r in results:
            o = r.out
            rel = [x for x in r.cmd]
            base = dict(cmd=rel, build=r.job.cfg, job=r.job.name, seed=seed)
            if r.rc == -999:
                inconc.append(f"{r.job.name}: watchdog fired after {r.wall:.0f}s: {' '.join(rel)}")
            san = SAN.findall(r.err)
            for s in san:
                viol.append(dict(base, sig="sanitizer", msg=s + "\n" + r.err[-6000:]))
            for v in o.get("violations", []):
                viol.append(dict(base, sig=v["sig"], msg=v["msg"], stderr=r.err[-2000:]))
            inconc += [f"{r.job.name}: {x}" for x in o.get("inconclusive", [])]
            if not o and not san and r.rc != -999:
                oom = "memory allocation of" in r.err or r.rc == -9
                if r.rc < 0 and not oom and r.rc in (-6, -11, -4, -7, -8):
                    viol.append(dict(base, sig="crash", msg=f"worker died with signal {-r.rc}: {r.err[-3000:]}"))
                else:
                    inconc.append(f"{r.job.name}: worker exited with {r.rc} and no result: {r.err[-1500:]}")
            evals += o.get("evals", 0)
            if r.job.writes_out:
                sigs.setdefault(r.job.name, set()).update(r.sigs)
            else:
                dist += o.get("distinct", 0)
            pj = perjob.setdefault(r.job.name, dict(build=r.job.cfg, workers=0, executions=0, wall_s=0.0))
            pj["workers"] += 1
            pj["executions"] += o.get("evals", 0)
            pj["wall_s"] = round(max(pj["wall_s"], r.wall), 1)
            for k, v in o.get("cov", {}).items():
                k = f"{r.job.group}.{k}" if r.job.group else k
                cov[k] = max(cov.get(k, 0), v) if ".max_" in k or k.startswith("max_") else cov.get(k, 0) + v
            for k, v in o.get("other", {}).items():
                other[k] = other.get(k, 0) + v
            samples += [s[:1500] for s in o.get("samples", [])][:1]
        dist += sum(len(s) for s in sigs.values())
        known = known_findings(pid)
        fresh = []
        for v in viol:
            k = next((d for s, d in known if s == v["sig"]), None)
            if k is None:
                fresh.append(v)
        for s, d in known:
            if any(v["sig"] == s for v in viol):
                print(f"KNOWN-FINDING: property={pid} {d}", flush=True)
        if not fresh and not inconc:
            for name, least in plan.floors(tier).items():
                if cov.get(name, 0) < least:
                    inconc.append(f"observed too little: {name}={cov.get(name, 0)} < {least}")
        ev = dict(property=pid, tier=tier, seed=seed, level=plan.level,
                  coverage=dict(evaluations=evals, distinct_nontrivial=dist, rule=plan.rule, samples=samples[:6] or ["(none)"],
                                observed=cov, jobs=perjob, anomalies_of_other_properties=other, exhaustive=False),
                  assumptions=plan.assumptions, wall_s=round(time.time() - t0, 1), violations=len(fresh))
        tmp = os.path.join(EVID, f".{pid}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(EVID, f"{pid}.json"))
        if fresh:
            path = os.path.join(rdir, f"{pid}-{tier}-{seed}.json")
            json.dump(dict(property=pid, tier=tier, seed=seed, repo_head=subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip(),
                           how_to="run the command of a violation again; for the seq engine add '--case N --trace' with the case number of the message",
                           violations=fresh[:10]), open(path, "w"), indent=1)
            for v in fresh[:3]:
                print(f"  {v['job']} {v['sig']}: {v['msg'][:1200]}", flush=True)
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            return 1
        if inconc:
            for i in inconc[:10]:
                print("INCONCLUSIVE:", i[:2000], flush=True)
            return 2
        print(f"OK property={pid} tier={tier} seed={seed} executions={evals} distinct={dist} wall={time.time()-t0:.1f}s", flush=True)
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:  # an error of the check is no verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
