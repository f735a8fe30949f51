"""Case runner, verdict bookkeeping and evidence writer shared by all the monitors.

A check module (checks/cNN.py) defines:

  SCENARIOS = [Scenario(func, quick=<cases>, thorough=<cases>), ...]
  RULE      = text: how cases are made and what makes one non-trivial
  REQUIRED  = event names ("kind" or "kind:key") every full run must have observed
  ASSUMPTIONS = [...]  (optional)

Each scenario function receives a Case: a seeded generator (`c.rng`), the assertion methods that
are the oracle's voice (`c.ok`, `c.close`, `c.equal`, `c.raises`) and `c.seen` for recording what
the monitor observed.  A case is a pure function of (property, scenario, VERIF_SEED, index).
"""

import argparse
import faulthandler
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter, defaultdict
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = VERIF / "evidence"
REPO_SRC = "/repo/src"

import numpy as np  # noqa: E402


class Violation(Exception):
    """Raised to abandon a case after a fatal mismatch."""


class Skip(Exception):
    """Raised when a generated case turns out to be meaningless (counted, never a verdict)."""


class Scenario:
    def __init__(self, func, quick, thorough=None, once=False):
        self.func = func
        self.name = func.__name__
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        if once:
            self.quick = self.thorough = 1

    def count(self, tier):
        return self.thorough if tier == "thorough" else self.quick


def _short(v, n=400):
    try:
        s = repr(v)
    except Exception as err:  # pragma: no cover
        s = f"<unprintable {type(v)}: {err}>"
    return s if len(s) <= n else s[:n] + "..."


class Recorder:
    """Accumulates what the monitors observed and every violation."""

    def __init__(self):
        self.cases = 0
        self.skipped = 0
        self.asserts = Counter()
        self.seen = defaultdict(Counter)
        self.fingerprints = set()
        self.samples = []
        self.violations = []
        self.known_hits = Counter()

    def to_json(self):
        return {
            "cases": self.cases,
            "skipped": self.skipped,
            "asserts": dict(self.asserts),
            "seen": {k: dict(v) for k, v in self.seen.items()},
            "fingerprints": sorted(self.fingerprints),
            "samples": self.samples,
            "violations": self.violations,
            "known_hits": dict(self.known_hits),
        }

    def merge(self, d):
        self.cases += d["cases"]
        self.skipped += d["skipped"]
        self.asserts.update(d["asserts"])
        for k, v in d["seen"].items():
            self.seen[k].update(v)
        self.fingerprints.update(d["fingerprints"])
        self.samples.extend(d["samples"])
        self.violations.extend(d["violations"])
        self.known_hits.update(d["known_hits"])


class Case:
    MAX_SEEN_KEYS = 5000

    def __init__(self, pid, scenario, index, seed, tier, rec, known, tmpdir):
        self.pid, self.scenario, self.index, self.seed, self.tier = pid, scenario, index, seed, tier
        self.rec, self.known = rec, known
        h = hashlib.sha256(f"{pid}|{scenario}|{seed}|{index}".encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], "big"))
        self.thorough = tier == "thorough"
        self.facts = {}
        self._tmpdir = tmpdir
        self._nontrivial = None
        self.failed = False

    # ---- what the monitor saw -----------------------------------------------------------
    def seen(self, kind, key="", n=1):
        ctr = self.rec.seen[kind]
        key = str(key)
        if key in ctr or len(ctr) < self.MAX_SEEN_KEYS:
            ctr[key] += n

    def fact(self, **kw):
        """Facts about the generated case: part of the sample / replay record."""
        for k, v in kw.items():
            self.facts[k] = _short(v)

    def nontrivial(self, *key):
        """Mark the case as non-trivial, fingerprinted by `key` (defaults to the facts)."""
        self._nontrivial = repr(key) if key else repr(sorted(self.facts.items()))

    @property
    def tmp(self):
        d = Path(self._tmpdir) / f"{self.scenario}_{self.index}"
        d.mkdir(parents=True, exist_ok=True)
        return d

    # ---- the oracle's voice -------------------------------------------------------------
    def fail(self, tag, msg, **data):
        for k in self.known:
            if k["tag"] == tag and all(str(self.facts.get(f, "")) == v for f, v in k.get("where", {}).items()):
                self.rec.known_hits[k["id"]] += 1
                return
        self.failed = True
        self.rec.violations.append(
            {
                "property": self.pid,
                "scenario": self.scenario,
                "index": self.index,
                "seed": self.seed,
                "tier": self.tier,
                "tag": tag,
                "message": msg,
                "data": {k: _short(v, 2000) for k, v in data.items()},
                "facts": self.facts,
            }
        )

    def ok(self, cond, tag, msg="", **data):
        self.rec.asserts[tag] += 1
        if not bool(cond):
            self.fail(tag, msg or "condition does not hold", **data)
            return False
        return True

    def equal(self, got, want, tag, msg="", **data):
        self.rec.asserts[tag] += 1
        try:
            same = got is want or bool(np.all(got == want)) and np.shape(got) == np.shape(want)
        except Exception:
            same = False
        if not same:
            self.fail(tag, msg or "values differ", got=got, want=want, **data)
        return same

    def close(self, got, want, tag, rtol=1e-9, atol=0.0, msg="", **data):
        """Element-wise |got-want| <= atol + rtol*|want|; shapes must agree; NaN equals NaN."""
        self.rec.asserts[tag] += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as err:
            self.fail(tag, f"not numeric: {err}", got=got, want=want, **data)
            return False
        if g.shape != w.shape:
            self.fail(tag, f"shape {g.shape}, expected {w.shape}. {msg}", got=got, want=want, **data)
            return False
        good = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(good):
            bad = np.argwhere(~good)[:5].tolist()
            self.fail(
                tag,
                f"{int(np.sum(~good))} of {g.size} values differ (first at {bad}). {msg}",
                got=g[~good][:8],
                want=w[~good][:8],
                **data,
            )
            return False
        return True

    def raises(self, exc, func, tag, msg=""):
        """The call must be rejected with one of the exception types in `exc`."""
        self.rec.asserts[tag] += 1
        try:
            res = func()
        except exc:
            return True
        except Exception as err:
            self.fail(tag, f"expected {exc}, got {type(err).__name__}: {err}. {msg}")
            return False
        self.fail(tag, f"expected {exc}, but the call returned. {msg}", result=res)
        return False


def load_known(pid):
    path = VERIF / "known_findings.json"
    if not path.is_file():
        return []
    data = json.loads(path.read_text())
    return [k for k in data.get("known", []) if k["property"] == pid]


def run_shard(mod, pid, tier, seed, shard, nshards, deadline, only=None):
    rec = Recorder()
    known = load_known(pid)
    tmpdir = tempfile.mkdtemp(prefix=f"lclmon_{pid}_")
    cut = Counter()
    try:
        for sc in mod.SCENARIOS:
            if only is not None and sc.name != only[0]:
                continue
            indices = range(sc.count(tier)) if only is None else [only[1]]
            for index in indices:
                if only is None and index % nshards != shard and sc.count(tier) > 1:
                    continue
                if only is None and sc.count(tier) == 1 and hash_mod(sc.name, nshards) != shard:
                    continue
                if time.time() > deadline:
                    cut[sc.name] += 1
                    continue
                c = Case(pid, sc.name, index, seed, tier, rec, known, tmpdir)
                rec.cases += 1
                # A call that never returns ends the shard, with the stack it hangs in on stderr.
                faulthandler.dump_traceback_later(300 if tier == "quick" else 900, exit=True)
                try:
                    with warnings.catch_warnings(), np.errstate(all="ignore"):
                        warnings.simplefilter("ignore")
                        sc.func(c)
                except Skip:
                    rec.skipped += 1
                    continue
                except Violation:
                    pass
                except Exception as err:
                    tb = traceback.extract_tb(err.__traceback__)
                    where = [f"{f.filename}:{f.lineno} {f.name}" for f in tb][-6:]
                    c.fail(
                        f"exception:{sc.name}",
                        f"unexpected {type(err).__name__}: {str(err)[:500]}",
                        traceback=" <- ".join(reversed(where)),
                    )
                if c._nontrivial is not None:
                    fp = hashlib.sha256(f"{sc.name}|{c._nontrivial}".encode()).hexdigest()[:16]
                    rec.fingerprints.add(fp)
                if index < 2 and len(rec.samples) < 40 and c.facts:
                    rec.samples.append({"scenario": sc.name, "index": index, **c.facts})
                if len(rec.violations) >= 60:
                    break
            if len(rec.violations) >= 60:
                break
    finally:
        faulthandler.cancel_dump_traceback_later()
        shutil.rmtree(tmpdir, ignore_errors=True)
    out = rec.to_json()
    out["cut"] = dict(cut)
    return out


def hash_mod(name, n):
    return int(hashlib.sha256(name.encode()).hexdigest(), 16) % n


def check_env():
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONNOUSERSITE="1",
        MPLBACKEND="Agg",
        JAX_PLATFORMS="cpu",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        PYTHONPATH=f"{REPO_SRC}:{VERIF}",
        PYTHONWARNINGS="ignore",
    )
    return env


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--shards", type=int, default=None)
    ap.add_argument("--shard", type=int, default=None)
    ap.add_argument("--out", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--only", default=None, help="scenario name")
    a = ap.parse_args(argv)
    pid = a.property
    t0 = time.time()
    limit = 780.0 if a.tier == "quick" else 3300.0
    deadline = t0 + float(os.environ.get("LCLMON_LIMIT", limit))

    import logging

    logging.disable(logging.CRITICAL)
    if a.shard is not None or a.replay or a.only:
        sys.path.insert(0, REPO_SRC)
        mod = importlib.import_module(f"checks.{pid.lower()}")
        import lightcurvelynx

        assert str(Path(lightcurvelynx.__file__)).startswith(REPO_SRC), lightcurvelynx.__file__

    if a.shard is not None:
        # Cheap checks run their scenarios more often (see QUICK_SCALE in the check module).
        for sc in mod.SCENARIOS:
            if sc.quick > 1:
                sc.quick = max(sc.quick, min(sc.thorough, int(sc.quick * getattr(mod, "QUICK_SCALE", 1))))
        res = run_shard(mod, pid, a.tier, a.seed, a.shard, a.shards, deadline)
        Path(a.out).write_text(json.dumps(res))
        return 0

    if a.replay:
        r = json.loads(Path(a.replay).read_text())
        res = run_shard(
            mod, pid, r["tier"], r["seed"], 0, 1, deadline, only=(r["scenario"], r["index"])
        )
        print(json.dumps(res["violations"], indent=1))
        return 1 if res["violations"] else 0

    if a.only:
        mod.SCENARIOS = [s for s in mod.SCENARIOS if s.name == a.only]
        res = run_shard(mod, pid, a.tier, a.seed, 0, 1, deadline)
        print(json.dumps({k: v for k, v in res.items() if k != "fingerprints"}, indent=1)[:6000])
        return 1 if res["violations"] else 0

    # ---- full run: one process per shard ---------------------------------------------------
    nshards = a.shards or 8
    work = tempfile.mkdtemp(prefix=f"lclmon_run_{pid}_")
    procs, rec, cut, errors = [], Recorder(), Counter(), []
    try:
        for s in range(nshards):
            out = f"{work}/{s}.json"
            log = open(f"{work}/{s}.log", "w")
            cmd = [sys.executable, "-m", "lclmon.core", pid, "--tier", a.tier, "--seed", str(a.seed)]
            cmd += ["--shards", str(nshards), "--shard", str(s), "--out", out]
            procs.append((subprocess.Popen(cmd, env=check_env(), cwd=VERIF, stdout=log, stderr=log), out, log))
        for s, (p, out, log) in enumerate(procs):
            rc = p.wait()
            log.close()
            if rc != 0 or not Path(out).is_file():
                errors.append((s, rc, Path(f"{work}/{s}.log").read_text()[-3000:]))
                continue
            d = json.loads(Path(out).read_text())
            rec.merge(d)
            cut.update(d["cut"])
    finally:
        shutil.rmtree(work, ignore_errors=True)

    sys.path.insert(0, str(VERIF))
    meta = check_meta(pid)
    EVIDENCE.mkdir(exist_ok=True)

    # A shard that cannot even import the code under test, or dies, has observed a broken program:
    # only report it as a violation when the failure is inside /repo's code.
    import_failure = [e for e in errors if "/repo/src/lightcurvelynx" in e[2]]
    for s, rc, text in errors:
        print(f"shard {s} ended with {rc}:\n{text}", file=sys.stderr)
    if import_failure:
        rec.violations.append(
            {
                "property": pid,
                "scenario": "import",
                "index": 0,
                "seed": a.seed,
                "tier": a.tier,
                "tag": "import",
                "message": "the code under test fails while being loaded, ends the process or never returns",
                "data": {"log": import_failure[0][2][-1500:]},
                "facts": {},
            }
        )

    missing = []
    for req in meta["required"]:
        kind, _, key = req.partition(":")
        n = rec.seen.get(kind, {})
        if (key and not n.get(key)) or not n:
            missing.append(req)

    inconclusive = bool((errors and not import_failure) or (missing and not rec.violations))
    observed = {
        k: {"events": int(sum(v.values())), "distinct": len(v), "top": dict(Counter(v).most_common(6))}
        for k, v in sorted(rec.seen.items())
    }
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rec.cases,
            "distinct_nontrivial": len(rec.fingerprints),
            "rule": meta["rule"],
            "samples": rec.samples[:30],
            "oracle_decisions": {k: int(v) for k, v in sorted(rec.asserts.items())},
            "oracle_decisions_total": int(sum(rec.asserts.values())),
            "observed": observed,
            "skipped_cases": rec.skipped,
            "cases_cut_by_time": dict(cut),
            "required_events_missing": missing,
            "known_finding_hits": dict(rec.known_hits),
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(rec.violations),
    }
    (EVIDENCE / f"{pid}.json").write_text(json.dumps(ev, indent=1))

    for k in load_known(pid):
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if rec.violations:
        rdir = EVIDENCE / "replay"
        rdir.mkdir(exist_ok=True)
        shown = {}
        for v in rec.violations:
            shown.setdefault((v["scenario"], v["tag"]), v)
        for n, v in enumerate(list(shown.values())[:8]):
            path = rdir / f"{pid}-{n}.json"
            path.write_text(json.dumps(v, indent=1))
            print(f"[{v['scenario']}#{v['index']}] {v['tag']}: {v['message']} {_short(v['data'], 300)}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if inconclusive:
        print(f"INCONCLUSIVE property={pid} missing={missing} shard_errors={len(errors)}")
        return 3
    print(
        f"OK property={pid} tier={a.tier} seed={a.seed} cases={rec.cases} "
        f"distinct={len(rec.fingerprints)} decisions={sum(rec.asserts.values())} wall={ev['wall_s']}s"
    )
    return 0


def check_meta(pid):
    """RULE / REQUIRED / ASSUMPTIONS are read without importing the code under test."""
    import ast

    text = (VERIF / "checks" / f"{pid.lower()}.py").read_text()
    tree = ast.parse(text)
    vals = {"RULE": "", "REQUIRED": [], "ASSUMPTIONS": []}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in vals:
                vals[node.targets[0].id] = ast.literal_eval(node.value)
    return {"rule": vals["RULE"], "required": vals["REQUIRED"], "assumptions": vals["ASSUMPTIONS"]}


if __name__ == "__main__":
    # Run the imported module's copy so that Skip / Violation are the classes the checks raise.
    from lclmon.core import main as _main

    sys.exit(_main())
