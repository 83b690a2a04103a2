"""run.py <property id> [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: check error.
"""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(REPO, "src")]

import importlib  # noqa: E402
import json  # noqa: E402
import logging  # noqa: E402
import multiprocessing as mp  # noqa: E402
import shutil  # noqa: E402
import subprocess  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402

import engine  # noqa: E402

OUT = os.environ.get("VERIF_OUT", ROOT)  # evidence/ and replays/ go here
KNOWN_FILE = os.path.join(ROOT, "known_findings.txt")
SHARDS = {"quick": 8, "thorough": 32}
LIMIT_S = {"quick": 420, "thorough": 3000}
FUZZ_S = float(os.environ.get("VERIF_FUZZ_S", "600"))  # thorough: coverage-guided time per check and core


def known_keys(pid):
    """key -> description of the listed (unrepaired) findings of this property"""
    out = {}
    with open(KNOWN_FILE, encoding="utf-8") as f:
        for line in f:
            if line.startswith(f"known: property={pid} "):
                _, _, key, desc = line.rstrip("\n").split(" ", 3)
                out[key.partition("=")[2]] = desc
    return out


def subseed(pid, name, engine_name, shard, seed):
    return engine.digest((pid, name, engine_name, shard, seed)) >> 20


def job(args):
    pid, idx, eng, shard, shards, count, seed, deadline, known = args
    mod = importlib.import_module(f"props.{pid.lower()}")
    sub = mod.SUBS[idx]
    stats = engine.Stats()
    engine.set_zone(shard)
    engine.SLOWEST = (0.0, "")
    try:
        if eng == "enum":
            fail = engine.run_enum(sub, shard, shards, stats, deadline, known)
        elif eng == "hyp":
            fail = engine.run_hyp(sub, subseed(pid, sub.name, eng, shard, seed), count, stats,
                                  deadline, known, idx)
        else:
            fail = engine.run_rnd(sub, subseed(pid, sub.name, eng, shard, seed), count, stats,
                                  deadline, known, idx)
        stats.slowest = engine.SLOWEST
        return idx, eng, stats, fail, None
    except Exception:  # pylint: disable=broad-except
        return idx, eng, stats, None, traceback.format_exc()


def fuzz(pid, mod, seed, known, workers):
    """coverage-guided phase (harness/fuzz.py): yields (sub index, stats, fail, error)"""
    subs = [i for i, s in enumerate(mod.SUBS) if s.gen is not None]
    if not subs or FUZZ_S <= 0:
        return
    tasks = [(i, k) for k in range(max(1, -(-workers // len(subs)))) for i in subs]
    rounds = -(-len(tasks) // workers)
    secs = max(20.0, FUZZ_S / rounds)
    work = tempfile.mkdtemp(prefix="verif-fuzzrun-")

    def start(task):
        i, k = task
        out = os.path.join(work, f"{i}-{k}")
        with open(out + ".log", "w", encoding="utf-8") as log:
            proc = subprocess.Popen(
                [sys.executable, os.path.join(HERE, "fuzz.py"), pid, str(i),
                 str(subseed(pid, mod.SUBS[i].name, "cov", k, seed) % (1 << 31)), str(secs), out, " ".join(known)],
                stdout=log, stderr=log, stdin=subprocess.DEVNULL)
        return proc, i, out, time.time() + secs + 200

    try:
        running = []
        while tasks or running:
            while tasks and len(running) < workers:
                running.append(start(tasks.pop(0)))
            time.sleep(0.2)
            for ent in list(running):
                proc, i, out, end = ent
                if proc.poll() is None and time.time() < end:
                    continue
                proc.kill()
                proc.wait()
                running.remove(ent)
                stats = engine.Stats()
                if not os.path.exists(out):
                    with open(out + ".log", encoding="utf-8", errors="replace") as f:
                        yield i, stats, None, f"coverage-guided run of {mod.SUBS[i].name} ended: {f.read()[-1500:]}"
                    continue
                rec = engine.load_case(out)
                stats.evals = rec["evals"]
                stats.hashes = set(rec["hashes"])
                stats.labels.update(rec["labels"])
                stats.excluded.update(rec["excluded"])
                stats.samples = rec["samples"]
                yield i, stats, rec["fail"], rec["error"]
    finally:
        for proc, *_ in running:
            proc.kill()
        shutil.rmtree(work, ignore_errors=True)


def replay_text(pid, sub, case, msg):
    return repr({"property": pid, "sub": sub, "case": case, "message": msg}) + "\n"


def write_replay(pid, sub, case, msg):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{sub}-{engine.digest(case):016x}.case")
    with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
        f.write(replay_text(pid, sub, case, msg))
    return path


def replay(path):
    rec = engine.load_case(path)
    engine.worker_init()
    mod = importlib.import_module(f"props.{rec['property'].lower()}")
    sub = next(s for s in mod.SUBS if s.name == rec["sub"])
    for zone in range(len(engine.ZONES)):
        engine.set_zone(zone)
        try:
            res = engine.run_check(sub, rec["case"])
        except engine.Hang:
            res = (f"used {engine.CPU_LIMIT_S} s of CPU without finishing", None)
        if res is not None:
            break
    print("case:", repr(rec["case"])[:2000])
    if res is None:
        print("holds for this case")
        return 0
    print("fails:", res[0])
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1


def main():
    logging.disable(logging.CRITICAL)
    if "--replay" in sys.argv:
        return replay(sys.argv[sys.argv.index("--replay") + 1])
    pid = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    deadline = start + LIMIT_S[tier]

    import pynmeagps

    if not os.path.abspath(pynmeagps.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print(f"error: wrong pynmeagps {pynmeagps.__file__}", file=sys.stderr)
        return 2
    mod = importlib.import_module(f"props.{pid.lower()}")
    known = known_keys(pid)
    engine.POOL.load(os.path.join(REPO, "src", "pynmeagps"), os.path.join(ROOT, "golden", "literals.json"))
    # VERIF_SCALE: fraction of the quick amount (for trying many planted bugs)
    scale = getattr(mod, "SCALE", 6) * float(os.environ.get("VERIF_SCALE", "1"))
    jobs = []
    shards = SHARDS[tier]
    for idx, sub in enumerate(mod.SUBS):
        if sub.enum is not None:
            n = min(shards, 8)
            jobs += [(pid, idx, "enum", k, n, 0, seed, deadline, set(known)) for k in range(n)]
            continue
        total = int(sub.quick * scale) if tier == "quick" else sub.thorough
        nh = int(total * sub.hyp)
        hs = max(1, min(shards, nh // 100))
        jobs += [(pid, idx, "hyp", k, hs, max(1, nh // hs), seed, deadline, set(known))
                 for k in range(hs if nh else 0)]
        nr = total - nh
        rs = max(1, min(shards, nr // 200))
        jobs += [(pid, idx, "rnd", k, rs, max(1, nr // rs), seed, deadline, set(known))
                 for k in range(rs if nr else 0)]
    # big jobs first
    jobs.sort(key=lambda j: -j[5] * mod.SUBS[j[1]].weight * (20 if j[2] == "hyp" else 1))

    total = engine.Stats()
    fails, errors, per_sub = [], [], {}
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    ctx = mp.get_context("fork")
    engine.FOUND = ctx.RawArray("b", len(mod.SUBS))

    def results():
        with ctx.Pool(workers, initializer=engine.worker_init) as pool:
            done = pool.imap_unordered(job, jobs)
            for _ in jobs:
                yield done.next(timeout=LIMIT_S[tier] + 300)
        if tier == "thorough" and not fails and not errors:
            for idx, stats, fail, err in fuzz(pid, mod, seed, known, workers):
                yield idx, "cov", stats, fail, err

    for idx, eng, stats, fail, err in results():
        total.evals += stats.evals
        total.hashes |= stats.hashes
        total.labels.update(stats.labels)
        total.excluded.update(stats.excluded)
        total.truncated |= stats.truncated
        total.slowest = max(total.slowest, stats.slowest)
        name = mod.SUBS[idx].name
        per_sub.setdefault(name, {}).setdefault(eng, 0)
        per_sub[name][eng] += stats.evals
        if sum(s.startswith(name + ":") for s in total.samples) < 2:
            total.samples += stats.samples[:1]
        if fail:
            fails.append((name, *fail))
        if err:
            errors.append(err)

    wall = time.time() - start
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evals,
            "distinct_nontrivial": len(total.hashes),
            "rule": mod.RULE,
            "samples": total.samples[:24],
            "per_sub": per_sub,
            "labels": dict(sorted(total.labels.items())),
            "excluded_known": dict(total.excluded),
            "slowest_case_cpu_s": total.slowest,
            "stopped_at_time_limit": total.truncated,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w", encoding="utf-8",
              errors="backslashreplace") as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write("\n")

    for key, desc in known.items():
        print(f"KNOWN-FINDING: property={pid} {desc} [{key}, met {total.excluded[key]} times]")
    if fails:
        seen = set()
        for name, case, msg, key in sorted(fails, key=lambda x: len(repr(x[1]))):
            if name in seen:
                continue
            seen.add(name)
            path = write_replay(pid, name, case, msg)
            print(f"{name}: {msg[:1500]}\n  case: {repr(case)[:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
        sys.stdout.flush()
        return 1
    if errors:
        for e in errors[:3]:
            print(e, file=sys.stderr)
        return 2
    print(f"{pid} {tier} seed={seed}: held on {total.evals} cases "
          f"({len(total.hashes)} distinct non-trivial) in {wall:.1f} s"
          f", slowest case {total.slowest[0]:.2f} s ({total.slowest[1]})"
          + (" [stopped at time limit]" if total.truncated else ""))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
