"""Replays that exist, read by the specification (spec/Given.tla) and by the decoder:
corrupted forms of the replays this check generated, and the first frames of
the repository's sample replays, as they are and corrupted."""
import concurrent.futures as cf
import array, glob, os, subprocess, time


def read(name, root, make, rp, ctx, aspects):
    """let the harness make the replays, TLC read them, and the decoder too"""
    nd = os.path.join(ctx["work"], name + ".ndjson")
    r = subprocess.run([ctx["exe"], "mutants", "--out", nd] + make, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        ctx["die"]("no corrupted replays: " + r.stdout[-1000:])
    n = sum(1 for _ in open(nd))
    if n == 0:
        return
    parts = min(ctx["cpus"], n)
    t = time.time()
    jobs = [ctx["Job"](f"{name}-{p}", dict(CASES=nd, PART=str(p), PARTS=str(parts), PROFILE="given", TIER=ctx["tier"]), ["-workers", "1"], root,
                       os.path.join(ctx["work"], f"{name}-{p}.out"), ctx["deadline"]) for p in range(parts)]
    with cf.ThreadPoolExecutor(parts) as ex:
        list(ex.map(lambda j: j.run(ctx["work"]), jobs))
    broken = [j for j in jobs if j.error]
    if broken:
        ctx["die"]("TLC: " + "; ".join(f"{j.name}: {j.error}" for j in broken[:2]))
    ctx["jobs"].extend(jobs)
    before = rp.stats["cases"]
    rp.run("run", ["--aspects", ",".join(aspects), "--given", nd, "--seed", str(ctx["seed"])], [j.out for j in jobs], timeout=300 if ctx["tier"] == "quick" else 20000)
    got = rp.stats["cases"] - before
    if not rp.bad:
        os.remove(nd)
        if all(j.complete for j in jobs) and got != n:
            ctx["die"](f"{name}: {n} replays were given, {got} were read")
    rp.extra = getattr(rp, "extra", {})
    rp.extra[name] = {"given": n, "read": got, "wall_s": round(time.time() - t, 1)}


UNREAD = 2**64 - 1


def orders(rp, ctx):
    """what a process parsed before, and in which order, has no influence: the
    same inputs in separate processes, forwards, backwards, shuffled over
    threads, and with many parses between one and the next (then only some of
    the inputs), give the same results"""
    files = [j.out for j in ctx["jobs"] if os.path.exists(j.out)]
    t = time.time()
    ps = []
    for name, threads in (("fwd", 1), ("rev", 1), ("mix", 6), ("far", 1)):
        out = os.path.join(ctx["work"], "digest-" + name)
        ps.append((name, out, subprocess.Popen([ctx["exe"], "digest", "--order", name, "--threads", str(threads), "--out", out] + files,
                                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    got = {}
    late = 0    # not having had the time for this one says nothing
    for name, out, p in ps:
        try:
            err = p.communicate(timeout=250 if ctx["tier"] == "quick" else 20000)[1]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            if name == "far":
                late = 1
            continue
        if p.returncode == 0:
            got[name] = array.array("Q", open(out, "rb").read())
            os.remove(out)
        else:
            rp.orders_err = err.decode(errors="replace")[-1000:]
    if not got:
        ctx["die"]("no order of the inputs could be parsed: " + getattr(rp, "orders_err", "out of time"))
    first = next((got[n] for n in ("fwd", "mix", "rev") if n in got), [])
    what = None
    at = 0
    if len(got) + late < 4:
        what = f"inputs can be parsed in the orders {sorted(got)} only: " + getattr(rp, "orders_err", "out of time")
    for name, g in got.items():
        differ = [] if g == first else [i for i in range(min(len(g), len(first))) if g[i] != first[i] and (name != "far" or g[i] != UNREAD)]
        if differ or len(g) != len(first):
            at = differ[0] if differ else 0
            pol = ["Never/Always", "OnError/Always", "Always/Never", "OnError/IgnoreOnError"][at % 4]
            what = f"pure: with {pol}, the result depends on what was parsed before (order {name}, slot {at})"
            break
    if what:
        path = os.path.join(rp.replays, "orders.replay")
        subprocess.run([ctx["exe"], "digest", "--slot", str(at), "--out", path] + files)
        rp.bad.append((path, what))
    rp.stats["parses"] += sum(len(g) for g in got.values())
    rp.extra = getattr(rp, "extra", {})
    rp.extra["orders"] = {"orders": len(got), "results": len(first), "wall_s": round(time.time() - t, 1)}


def run(step, rp, ctx):
    if step[0] == "orders":
        return orders(rp, ctx)
    kind, num = step[0], step[1]
    seed = str(ctx["seed"])
    asp = ctx["plan"]["aspects"]
    if kind == "mutants":
        outs = [j.out for j in ctx["jobs"] if os.path.exists(j.out) and not j.name.startswith("b_")]
        read("mutants", ("Given.tla", "given.cfg"), ["--kind", "generated", "--num", str(num), "--seed", seed] + outs, rp, ctx, asp)
    elif kind == "real":
        d = os.path.join(ctx["repo"], "assets", "replays")
        files = sorted(f for k in ("good", "bad", "partial") for f in glob.glob(os.path.join(d, k, "*.replay")))
        if files:
            read("real", ("Given.tla", "real.cfg"), ["--kind", "short", "--num", str(num), "--seed", seed, "--net", str(step[2]), "--frames", str(step[3])] + files, rp, ctx, asp)
    else:
        ctx["die"](f"no such step: {kind}")
