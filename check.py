#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Builds the conformance harness against /repo's working tree, lets TLC generate
behaviours of the specification for the property's scenarios (checking the
specification's own invariants on the way), replays every behaviour into the
real decoder, and writes evidence/<property>.json.

exit 0: held on everything explored;  exit 1: VIOLATION line printed;
exit 2: the machinery itself failed (no verdict).
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plans import PLANS, SCENARIOS  # noqa: E402

CPUS = 8
REPO = "/repo"
T0 = time.time()


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def cargo_env():
    e = dict(os.environ)
    sh = "/opt/vp/env.sh"
    if os.path.exists(sh):
        out = subprocess.run(["bash", "-c", f". {sh}; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                e[k.decode()] = v.decode()
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    return e


def build():
    h = os.path.join(HERE, "harness")
    r = subprocess.run(["cargo", "build", "--offline", "--release", "-q"], cwd=h, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(h, "target", "release", "vharness")
    if r.returncode != 0 or not os.path.exists(exe):
        die("the harness does not build:\n" + r.stdout[-3000:])
    return exe


class Job:
    """one TLC run"""

    def __init__(self, name, env, args, root, out, deadline):
        """root: X.tla, checked with X's configuration; deadline: seconds after the start of the check"""
        self.name, self.env, self.args, self.out, self.deadline = name, env, args, out, deadline
        self.root, self.cfg = root
        self.states = self.transitions = self.distinct = 0
        self.complete = False
        self.error = ""
        self.wall = 0.0

    def run(self, work):
        md = os.path.join(work, "md-" + self.name)
        env = dict(os.environ, **self.env)
        cmd = [os.path.join(HERE, "tools", "tlcx")] + self.args + ["-metadir", md, "-config", self.cfg, self.root]
        t = time.time()
        left = self.deadline - (t - T0)
        if left < 5:
            open(self.out, "w").close()
            return self
        with open(self.out, "wb") as f:
            p = subprocess.Popen(cmd, cwd=os.path.join(HERE, "spec"), env=env, stdout=f, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            try:
                rc = p.wait(left)
                timed = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc, timed = -9, True
        self.wall = time.time() - t
        shutil.rmtree(md, ignore_errors=True)
        tail = b""
        head = b""
        with open(self.out, "rb") as f:
            for line in f:
                if line.startswith((b'"CASE ', b'"OUT ', b'"CRC ')):
                    continue
                if (b"rror" in line and b"No error" not in line) or b"xception" in line or b"violated" in line:
                    head += line
                elif head and len(head) < 3000:
                    head += line
                tail = (tail + line)[-4000:]
        txt = tail.decode(errors="replace")
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states", txt):
            self.states = int(m[2].replace(",", ""))
            self.transitions = int(m[1].replace(",", ""))
        for m in re.finditer(r"The number of states generated: ([\d,]+)", txt):
            self.states = int(m[1].replace(",", ""))
            self.transitions = self.states
        for m in re.finditer(r"Progress: ([\d,]+) states checked", txt):
            if timed:
                self.states = self.transitions = int(m[1].replace(",", ""))
        if timed:
            self.complete = False
        elif rc != 0 or head:
            self.error = head.decode(errors="replace")[:3000] or f"TLC exit {rc}: {txt[-1500:]}"
        else:
            self.complete = True
        return self


SIM = ("MC.tla", "sim.cfg")
BFS = ("Scenarios.tla", "bfs.cfg")
PROP = ("Scenarios.tla", "prop.cfg")             # the same, with the action and liveness properties


def jobs_for(plan, tier, seed, work):
    jobs = []
    deadline = 450 if tier == "quick" else plan.get("budget", 3600)
    for name, weight in plan[tier]:
        sc = SCENARIOS[name]
        env = dict({k: str(v) for k, v in sc.get("env", {}).items()}, PROFILE=name, TIER=tier)
        if sc["mode"] == "sim":
            shards, num = weight
            for s in range(shards):
                sd = (seed * 1000003 + sum(map(ord, name)) * 7919 + s * 104729) % 2147483647
                jobs.append(Job(f"{name}-{s}", env, ["-simulate", f"num={num}", "-depth", "100000", "-seed", str(sd), "-workers", "1"],
                                sc.get("root", SIM), os.path.join(work, f"{name}-{s}.out"), deadline))
        else:
            for s in range(weight):
                e = dict(env, PART=str(s), PARTS=str(weight), SEED=str(seed))
                jobs.append(Job(f"{name}-{s}", e, ["-workers", "1", "-seed", str(seed)], sc.get("root", PROP if (tier == "thorough" or plan.get("prop")) and not sc.get("noprop") else BFS),
                                os.path.join(work, f"{name}-{s}.out"), deadline))
    return jobs


def read_known():
    """case keys of recorded, unrepaired findings: property -> [(key, text)]"""
    known = {}
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
        if m:
            known.setdefault(m[1], []).append((m[2], m[3]))
    return known


class Replayer:
    def __init__(self, exe, pid, work, replays):
        self.exe, self.pid, self.work, self.replays = exe, pid, work, replays
        self.stats = {"cases": 0, "parses": 0, "bytes": 0, "kinds": {}, "max_mem": 0, "max_mem_ratio": 0.0}
        self.bad = []

    def run(self, sub, extra, files, timeout=800):
        out = os.path.join(self.work, "stats.json")
        prog = os.path.join(self.work, "progress")
        if os.path.exists(out):
            os.remove(out)
        base = [self.exe, sub, "--out", out, "--replays", self.replays] + extra
        try:
            p = subprocess.run(base + ["--progress", prog] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            die("the replay harness ran out of time")
        if os.path.exists(out):
            st = json.load(open(out))
            for k in ("cases", "parses", "bytes"):
                self.stats[k] += st[k]
            for k, v in st["kinds"].items():
                self.stats["kinds"][k] = self.stats["kinds"].get(k, 0) + v
            for k in ("max_mem", "max_mem_ratio"):
                self.stats[k] = max(self.stats[k], st[k])
        if p.returncode == 0:
            if "OK cases=" not in p.stdout:
                die("no verdict from the harness: " + p.stdout[-500:] + p.stderr[-500:])
            return
        if p.returncode == 1:
            for line in p.stdout.splitlines():
                m = re.match(r"BAD aspect=(\S+) case=(\d+) replay=(\S+) (.*)", line)
                if m:
                    self.bad.append((m[3], f"{m[1]}: {m[4][:600]}"))
            if not self.bad:
                die("harness exit 1 without a finding: " + p.stdout[-500:] + p.stderr[-2000:])
            return
        if p.returncode == 2:
            die("harness usage error: " + p.stderr[-2000:])
        # crash or hang: find the case
        self.crashed(sub, extra, files, prog, p)

    def crashed(self, sub, extra, files, prog, p):
        cands = []
        m = re.search(r"HANG thread \d+ case (\d+)", p.stdout)
        if m:
            cands = [int(m[1])]
        elif os.path.exists(prog):
            d = open(prog, "rb").read()
            cands = sorted({v - 1 for (v,) in struct.iter_unpack("<Q", d[: len(d) // 8 * 8]) if v})
        for c in cands:
            last = os.path.join(self.replays, f"crash-{c}-{os.getpid()}.replay")
            if m:
                one = None
                txt = "parsing does not end within a minute"
                try:
                    subprocess.run([self.exe, sub] + extra + ["--only", str(c), "--dump", last] + files, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
                except subprocess.TimeoutExpired:
                    pass                                      # as expected; what it parsed last is written
            else:
                try:
                    one = subprocess.run([self.exe, sub] + extra + ["--threads", "1", "--only", str(c), "--dump", last] + files,
                                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200, errors="replace")
                except subprocess.TimeoutExpired:
                    self.bad.append((last, f"case {c} does not end"))
                    continue
                if one.returncode in (0, 1, 2):
                    continue
                txt = f"the process dies ({one.returncode}): {one.stderr.strip()[-300:]}"
            self.bad.append((last, txt))
        if not self.bad:
            die(f"harness ended with {p.returncode} and no case reproduces it: {p.stderr[-1500:]}")


def sample_lines(path, n=1):
    got = []
    try:
        with open(path, "rb") as f:
            for line in f:
                if line.startswith((b'"CASE ', b'"CRC ')):
                    s = line.decode(errors="replace").strip()[5:-1].strip().replace('\\"', '"').replace("\\\\", "\\")
                    got.append(s[:1500])
                    if len(got) >= n:
                        break
    except OSError:
        pass
    return got


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PLANS:
        die("usage: check.py <property id> [quick|thorough]")
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLANS[pid]
    work = os.path.join(HERE, "work", f"{pid}-{tier}")
    shutil.rmtree(work, ignore_errors=True)
    replays = os.path.join(work, "replays")
    os.makedirs(replays)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = os.path.join(HERE, "evidence", f"{pid}.json")

    with cf.ThreadPoolExecutor(CPUS + 1) as ex:
        fb = ex.submit(build)
        jobs = jobs_for(plan, tier, seed, work)
        futs = [ex.submit(j.run, work) for j in jobs]
        exe = fb.result()
        for f in futs:
            f.result()
    broken = [j for j in jobs if j.error]
    if broken:
        die("TLC: " + "; ".join(f"{j.name}: {j.error}" for j in broken[:2]))
    rp = Replayer(exe, pid, work, replays)
    tlc_wall = time.time() - T0
    groups = {}
    for j in jobs:
        sc = SCENARIOS[j.name.rsplit("-", 1)[0]]
        key = (sc.get("sub", "run"), sc.get("tails", plan.get("tails", 1)))
        groups.setdefault(key, []).append(j.out)
    for (sub, tails), files in groups.items():
        rp.run(sub, ["--aspects", ",".join(plan["aspects"]), "--tails", str(tails), "--seed", str(seed)] + plan.get("args", []), files,
               timeout=400 if tier == "quick" else 20000)
        if rp.bad:
            break
    for step in plan.get("steps", {}).get(tier, []) if not rp.bad else []:
        import steps
        steps.run(step, rp, dict(exe=exe, seed=seed, tier=tier, work=work, jobs=jobs, Job=Job, die=die, cpus=CPUS, plan=plan, repo=REPO,
                                deadline=600 if tier == "quick" else 4 * plan.get("budget", 3600)))
        if rp.bad:
            break

    known = read_known().get(pid, [])
    new, seen = [], set()
    for path, what in rp.bad:
        hit = [k for k in known if k[0] in what]
        if hit:
            seen.add(hit[0])
        else:
            new.append((path, what))
    for key, text in sorted(seen):
        print(f"KNOWN-FINDING: property={pid} {text}")
    st = rp.stats
    if not new and st["cases"] < plan.get("min_cases", 100):
        die(f"only {st['cases']} behaviours were generated")
    need = plan.get("need", [])
    missing = [k for k in need if not any(x.startswith(k) for x in st["kinds"])]
    if not new and missing:
        die(f"vacuous: no behaviour of kind {missing}")
    samples = []
    for j in jobs[:3]:
        samples += sample_lines(j.out)
    cov = {
        "states": sum(j.states for j in jobs),
        "transitions": sum(j.transitions for j in jobs),
        "traces_validated_against_impl": st["cases"],
        "samples": samples or ["see scenarios"],
        "evaluations": st["parses"],
        "bytes_parsed": st["bytes"],
        "outcome_kinds": dict(sorted(st["kinds"].items())),
        "scenarios": {j.name: {"states": j.states, "complete": j.complete, "wall_s": round(j.wall, 1)} for j in jobs},
        "aspects": plan["aspects"],
        "tlc_wall_s": round(tlc_wall, 1),
    }
    if "alloc" in plan["aspects"]:
        cov["max_bytes_allocated"] = st["max_mem"]
        cov["max_bytes_allocated_per_input_byte"] = round(st["max_mem_ratio"], 2)
    cov.update(getattr(rp, "extra", {}))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(new),
    }
    json.dump(ev, open(evidence, "w"), indent=1)
    if new:
        for path, what in new[:5]:
            print(what)
        print(f"VIOLATION property={pid} replay={new[0][0]}")
        sys.exit(1)
    for p in os.listdir(work):
        if p.endswith(".out") or p == "progress":
            os.remove(os.path.join(work, p))
    print(f"{pid} {tier}: held on {st['cases']} behaviours ({st['parses']} parses), {cov['states']} model states, {ev['wall_s']} s")


if __name__ == "__main__":
    main()
