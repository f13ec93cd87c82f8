"""Runner: shards generated search over forked workers, merges coverage,
shrinks, writes replay + evidence, prints verdict."""
from __future__ import annotations

import argparse
import faulthandler
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import zlib

from . import boot, scratch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SKOPS_REPO", "/repo")
NPROC = int(os.environ.get("PBT_NPROC", "8"))


class Violation(Exception):
    """The property is broken on this case."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.detail = detail


class Skip(Exception):
    """The case is outside the property's domain (counted, never a pass)."""


def dumps_spec(spec) -> str:
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


class Ctx:
    """Per-evaluation record: labels and triviality."""

    __slots__ = ("labels", "nontrivial", "units", "fingerprint")

    def __init__(self):
        self.labels = []
        self.nontrivial = True
        self.units = 1
        self.fingerprint = None

    def label(self, *names):
        self.labels.extend(names)

    def trivial(self, cond=True):
        if cond:
            self.nontrivial = False


class Sub:
    """One generated sub-check.

    strategy: () -> hypothesis strategy of JSON-able specs, or None
    cases:    (tier) -> list of specs (complete enumeration)   [optional]
    evaluate: (spec, ctx) -> None; raises Violation / Skip
    n:        (quick, thorough) number of generated cases
    """

    def __init__(self, name, evaluate, strategy=None, cases=None, n=(400, 4000),
                 chunk=150, timeout=120, setup=None, max_shards=NPROC, exhaustive=False,
                 shrink_s=40):
        self.name = name
        self.evaluate = evaluate
        self.strategy = strategy
        self.cases = cases
        self.n = n
        self.chunk = chunk
        self.timeout = timeout
        self.setup = setup
        self.max_shards = max_shards
        self.exhaustive = exhaustive
        self.shrink_s = shrink_s


def _seed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


class _Stop(BaseException):
    pass


class Worker:
    """Runs one shard in this (forked) process; streams progress to `path`."""

    def __init__(self, check, sub, shard, nshards, tier, seed, path, deadline):
        self.check, self.sub = check, sub
        self.shard, self.nshards = shard, nshards
        self.tier, self.seed, self.path = tier, seed, path
        self.deadline = deadline
        self.res = {
            "sub": sub.name, "evaluations": 0, "skipped": 0, "trivial": 0,
            "labels": {}, "hashes": set(), "samples": [], "failure": None,
            "error": None, "truncated": False, "units": 0,
        }
        self.cur = None
        self.fail_best = None
        self.fail_at = None
        self.cur_fd = os.open(path + ".cur", os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)

    def note_current(self, text):
        b = text.encode("utf-8", "surrogatepass")
        hdr = b"%020d%020d" % (time.monotonic_ns(), len(b))
        os.pwrite(self.cur_fd, b, 40)
        os.pwrite(self.cur_fd, hdr, 0)

    def one(self, spec):
        """Evaluate a spec, count it; re-raise Violation."""
        if self.fail_at is not None and time.monotonic() - self.fail_at > self.sub.shrink_s:
            return
        text = dumps_spec(spec)
        self.note_current(text)
        ctx = Ctx()
        r = self.res
        spec = json.loads(text)  # evaluation sees exactly what a replay sees
        try:
            self.sub.evaluate(spec, ctx)
        except Skip:
            r["skipped"] += 1
            return
        except Violation as e:
            if self.fail_at is None:
                self.fail_at = time.monotonic()
            if self.fail_best is None or len(text) <= len(self.fail_best[0]):
                self.fail_best = (text, str(e), {k: repr(v)[:4000] for k, v in e.detail.items()})
            raise
        finally:
            if self.fail_at is None:
                r["evaluations"] += 1
                r["units"] += ctx.units
                for lab in ctx.labels:
                    r["labels"][lab] = r["labels"].get(lab, 0) + 1
                if ctx.nontrivial:
                    h = zlib.crc32(text.encode("utf-8", "surrogatepass")) | (zlib.adler32(text.encode("utf-8", "surrogatepass")) << 32)
                    if ctx.fingerprint is not None:
                        h = _seed(ctx.fingerprint)
                    if h not in r["hashes"]:
                        r["hashes"].add(h)
                        n = len(r["hashes"])
                        if len(text) < 3000 and (n in (1, 5) or n % 97 == 0) and len(r["samples"]) < 4:
                            r["samples"].append({"sub": self.sub.name, "case": spec, "labels": ctx.labels[:8]})
                else:
                    r["trivial"] += 1

    def run(self):
        try:
            if self.sub.setup:
                self.sub.setup()
            if self.sub.cases is not None:
                self.run_cases()
            if self.sub.strategy is not None and self.res["failure"] is None:
                self.run_search()
        except _Stop:
            pass
        except BaseException:
            self.res["error"] = traceback.format_exc()
        if self.fail_best is not None:
            t, m, d = self.fail_best
            self.res["failure"] = {"spec": json.loads(t), "message": m, "detail": d}

    def run_cases(self):
        cases = self.sub.cases(self.tier)
        for i, spec in enumerate(cases):
            if i % self.nshards != self.shard:
                continue
            if time.monotonic() > self.deadline:
                self.res["truncated"] = True
                return
            try:
                self.one(spec)
            except Violation:
                return

    def run_search(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        total = self.sub.n[0 if self.tier == "quick" else 1]
        todo = total // self.nshards + (1 if self.shard < total % self.nshards else 0)
        strat = self.sub.strategy()
        chunk_no = 0
        while todo > 0:
            if time.monotonic() > self.deadline:
                self.res["truncated"] = True
                return
            n = min(todo, self.sub.chunk)
            todo -= n
            seed = _seed(self.seed, self.check, self.sub.name, self.shard, chunk_no)
            chunk_no += 1

            def test(spec):
                if self.fail_at is None and time.monotonic() > self.deadline:
                    self.res["truncated"] = True
                    raise _Stop()
                self.one(spec)

            test.__name__ = test.__qualname__ = "test_" + self.sub.name
            t = given(strat)(test)
            t = settings(
                max_examples=n, deadline=None, database=None,
                derandomize=False, report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.explicit, Phase.generate, Phase.shrink],
                print_blob=False, verbosity=hypothesis.Verbosity.quiet,
            )(t)
            t = hypothesis.seed(seed)(t)
            try:
                t()
            except _Stop:
                raise
            except Violation:
                return
            except BaseException:
                if self.fail_best is not None:
                    return  # shrinking was cut short / flaky; failure is recorded
                raise
            if self.fail_best is not None:
                return


def _spawn(fn, path):
    """Fork; child runs fn() -> picklable, written atomically to path."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 0
    try:
        os.setpgid(0, 0)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0)
        log = os.open(path + ".log", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        os.dup2(log, 1)
        os.dup2(log, 2)
        sys.setrecursionlimit(1000)
        res = fn()
        with open(path + ".tmp", "wb") as f:
            pickle.dump(res, f)
        os.replace(path + ".tmp", path)
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        code = 3
    finally:
        os._exit(code)


def _kill(pid):
    for target in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            target()
        except OSError:
            pass


def run_isolated(fn, timeout, scratch, tag):
    """-> ('ok', result) | ('signal', n) | ('exit', n) | ('timeout', None)"""
    path = os.path.join(scratch, tag)
    for suffix in ("", ".log"):
        if os.path.exists(path + suffix):
            os.unlink(path + suffix)
    pid = _spawn(fn, path)
    end = time.monotonic() + timeout
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            if os.WIFSIGNALED(st):
                return "signal", os.WTERMSIG(st)
            if os.path.exists(path):
                with open(path, "rb") as f:
                    return "ok", pickle.load(f)
            return "exit", os.WEXITSTATUS(st)
        if time.monotonic() > end:
            _kill(pid)
            os.waitpid(pid, 0)
            return "timeout", None
        time.sleep(0.01)


def eval_once(check_mod, sub, spec):

    ctx = Ctx()
    scratch.enter_worker(scratch.base_dir, "iso%d" % os.getpid())
    if sub.setup:
        sub.setup()
    try:
        sub.evaluate(spec, ctx)
    except Skip:
        return {"status": "skip"}
    except Violation as e:
        return {"status": "violation", "message": str(e),
                "detail": {k: repr(v)[:4000] for k, v in e.detail.items()}}
    except BaseException:
        return {"status": "error", "error": traceback.format_exc()}
    return {"status": "ok", "labels": ctx.labels}


def load_check(cid):
    return importlib.import_module("pbt.checks." + cid.lower())


def known_findings(cid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [d for d in data["findings"] if d["property"] == cid]


def make_replay(cid, failure):
    d = os.path.join(VERIF, "out", cid)
    os.makedirs(d, exist_ok=True)
    body = {"property": cid, **failure}
    name = hashlib.sha1(dumps_spec(failure["spec"]).encode("utf-8", "surrogatepass")).hexdigest()[:12]
    path = os.path.join(d, f"{failure['sub']}-{name}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--only", help="comma separated sub names (development)")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    cid = a.check.upper()
    t0 = time.monotonic()
    boot.setup()
    if cid == "SETUP":
        # nothing to build: check that the interpreter can run the harness
        import hypothesis
        import skops.io

        print(f"hypothesis {hypothesis.__version__}, skops from {os.path.dirname(skops.io.__file__)}")
        return 0
    faulthandler.disable()
    import warnings

    warnings.simplefilter("ignore")

    with scratch.session(cid) as tmp:
        if a.replay:
            return replay(cid, a.replay, tmp)
        return run(cid, tier, seed, tmp, t0, a)


def replay(cid, path, tmp):
    mod = load_check(cid)
    with open(path) as f:
        body = json.load(f)
    sub = {s.name: s for s in mod.subs("quick")}[body["sub"]]
    st, res = run_isolated(lambda: eval_once(mod, sub, body["spec"]), sub.timeout, tmp, "replay")
    print(json.dumps({"outcome": st, "result": res}, indent=1)[:8000])
    if st in ("signal", "timeout") or (st == "ok" and res["status"] == "violation"):
        print(f"VIOLATION property={cid} replay={path}")
        return 1
    return 0 if st == "ok" and res["status"] in ("ok", "skip") else 2


def run(cid, tier, seed, tmp, t0, a):
    mod = load_check(cid)
    subs = mod.subs(tier)
    if a.only:
        subs = [s for s in subs if s.name in a.only.split(",")]
    for s in subs:
        s.n = tuple(max(1, int(x * a.scale)) if x else 0 for x in s.n)
    if hasattr(mod, "prepare"):
        mod.prepare(tmp)
    budget = a.budget or (getattr(mod, "BUDGET", (240, 3000))[0 if tier == "quick" else 1])
    deadline = t0 + budget

    failures, errors = [], []

    # known findings first: each must still fail exactly as recorded
    for kf in known_findings(cid):
        if kf.get("status") == "fixed":
            continue
        sub = {s.name: s for s in mod.subs(tier)}[kf["sub"]]
        st, res = run_isolated(lambda: eval_once(mod, sub, kf["spec"]), sub.timeout, tmp, "kf")
        still = st in ("signal", "timeout") or (st == "ok" and res["status"] == "violation")
        if still:
            print(f"KNOWN-FINDING: property={cid} {kf['what']}")
        elif st == "ok" and res["status"] == "error":
            errors.append(f"known finding {kf['id']}: {res}")

    # tasks: (sub, shard)
    tasks = []
    for s in subs:
        ncases = s.n[0 if tier == "quick" else 1] if s.strategy else NPROC
        k = max(1, min(s.max_shards, NPROC, ncases))
        for i in range(k):
            tasks.append((s, i, k))
    # interleave so a single heavy sub does not serialise the tail
    tasks.sort(key=lambda t: t[1])
    running = {}
    results = []
    qi = 0
    stop = False
    while qi < len(tasks) or running:
        while not stop and qi < len(tasks) and len(running) < NPROC:
            s, i, k = tasks[qi]
            path = os.path.join(tmp, f"w{qi}")
            qi += 1
            w = Worker(cid, s, i, k, tier, seed, path, deadline)

            def body(w=w, tag=qi):
                scratch.enter_worker(tmp, tag)
                try:
                    w.run()
                finally:
                    scratch.leave_worker()
                return w.res

            pid = _spawn(body, path)
            os.close(w.cur_fd)
            running[pid] = (s, path, time.monotonic())
        if stop and not running:
            break
        time.sleep(0.02)
        for pid in list(running):
            if pid not in running:
                continue
            s, path, started = running[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            cur = None
            stalled = False
            if not p:
                try:
                    with open(path + ".cur", "rb") as f:
                        hdr = f.read(40)
                    if len(hdr) == 40:
                        age = (time.monotonic_ns() - int(hdr[:20])) / 1e9
                        stalled = age > s.timeout
                except (OSError, ValueError):
                    pass
                if not stalled:
                    continue
                _kill(pid)
                os.waitpid(pid, 0)
            del running[pid]
            _kill(pid)  # stray grandchildren in the worker's group
            if p and os.WIFEXITED(st) and os.path.exists(path):
                with open(path, "rb") as f:
                    res = pickle.load(f)
                results.append(res)
                if res["failure"]:
                    failures.append({"sub": s.name, **res["failure"]})
                if res["error"]:
                    errors.append(f"{s.name}: {res['error']}")
            else:
                # died or hung: replay the recorded spec alone
                spec = read_cur(path)
                why = "hang" if stalled else (
                    f"signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else f"exit {os.WEXITSTATUS(st)}")
                log = ""
                try:
                    log = open(path + ".log").read()[-3000:]
                except OSError:
                    pass
                if spec is None:
                    errors.append(f"{s.name}: worker {why} before any case\n{log}")
                else:
                    st2, res2 = run_isolated(lambda: eval_once(mod, s, spec), s.timeout, tmp, "iso")
                    if st2 in ("signal", "timeout") or (st2 == "ok" and res2["status"] == "violation"):
                        msg = res2["message"] if st2 == "ok" else f"interpreter {st2} {res2 or ''} on this case"
                        failures.append({"sub": s.name, "spec": spec, "message": msg, "detail": {"first": why}})
                    else:
                        errors.append(f"{s.name}: worker {why}, not reproduced: {st2} {str(res2)[:500]}\n{log}")
            if failures and not stop and not a.keep_going:
                stop = True
                # let the others finish briefly? one counterexample decides the run
                for q in list(running):
                    _kill(q)
                    os.waitpid(q, 0)
                    del running[q]

    return report(cid, tier, seed, mod, subs, results, failures, errors, t0)


def read_cur(path):
    try:
        with open(path + ".cur", "rb") as f:
            data = f.read()
        n = int(data[20:40])
        return json.loads(data[40:40 + n].decode("utf-8", "surrogatepass"))
    except (OSError, ValueError):
        return None


def report(cid, tier, seed, mod, subs, results, failures, errors, t0):
    hashes, labels, per_sub, samples = set(), {}, {}, []
    ev = sk = 0
    truncated = False
    for r in results:
        ev += r["evaluations"]
        sk += r["skipped"]
        truncated |= r["truncated"]
        hashes |= {(r["sub"], h) for h in r["hashes"]}
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        d = per_sub.setdefault(r["sub"], {"evaluations": 0, "trivial": 0, "skipped": 0, "units": 0, "hashes": set()})
        d["evaluations"] += r["evaluations"]
        d["trivial"] += r["trivial"]
        d["skipped"] += r["skipped"]
        d["units"] += r["units"]
        d["hashes"] |= r["hashes"]
    seen = {}
    for r in results:
        for smp in r["samples"]:
            if seen.get(smp["sub"], 0) < 3 and len(json.dumps(smp)) < 4000:
                seen[smp["sub"]] = seen.get(smp["sub"], 0) + 1
                samples.append(smp)
    for d in per_sub.values():
        d["distinct_nontrivial"] = len(d.pop("hashes"))
    rule = getattr(mod, "RULE", "")
    evidence = {
        "property": cid, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(hashes),
            "rule": rule,
            "samples": samples[:30],
            "subs": per_sub,
            "labels": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:200]),
            "out_of_domain": sk,
            "cut_by_time_budget": truncated,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
    }
    if all(s.exhaustive for s in subs) and subs and not truncated:
        evidence["coverage"]["exhaustive"] = True
    if hasattr(mod, "extra_evidence"):
        evidence["coverage"].update(mod.extra_evidence())
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{cid}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{cid}.json"))
    print(f"{cid}: {ev} evaluations, {len(hashes)} distinct non-trivial, "
          f"{sk} out of domain, {evidence['wall_s']} s"
          + (" (cut by time budget)" if truncated else ""))
    for name, d in sorted(per_sub.items()):
        print(f"  {name}: {d['evaluations']} evaluated, {d['distinct_nontrivial']} distinct non-trivial, {d['skipped']} skipped")
    if failures and os.environ.get("PBT_ALL"):
        seen_msgs = set()
        for f in sorted(failures, key=lambda f: len(dumps_spec(f["spec"]))):
            if f["message"][:60] not in seen_msgs:
                seen_msgs.add(f["message"][:60])
                print(f"  ** {f['sub']}: {f['message'][:400]}\n       {dumps_spec(f['spec'])[:600]}")
    if failures:
        f = min(failures, key=lambda f: len(dumps_spec(f["spec"])))
        path = make_replay(cid, f)
        print(f"  {f['sub']}: {f['message']}")
        for k, v in (f.get("detail") or {}).items():
            print(f"    {k}: {v[:1500]}")
        print(f"    spec: {dumps_spec(f['spec'])[:1500]}")
        print(f"VIOLATION property={cid} replay={path}")
        return 1
    if errors:
        print("HARNESS ERROR")
        for e in errors[:5]:
            print(e)
        return 2
    if ev == 0:
        print("HARNESS ERROR: nothing evaluated")
        return 2
    return 0
