"""Bounded-exhaustive exploration engine.

A property module defines ``run(ex)`` where ``ex`` is an :class:`Explorer`.
It registers *spaces*:

``ex.cases(name, cases, fn, rule)``
    every case of a finite, fully enumerated list is executed against the real
    code; ``fn(case)`` compares with a reference model and raises ``Fail`` (or
    any exception) when the property is broken there.  It returns an
    ``outcome`` (hashable/representable; ``None`` = trivial).

``ex.bfs(name, init, events, step, canon, rule, depth)``
    explicit-state breadth-first search over histories of real calls.  A state
    is rebuilt by replaying its history; ``step(hist)`` runs the history on the
    real code, checks every invariant and returns the canonical state key.

Cases must be JSON values: a violation is stored as a replayable artefact
(`run.sh replay FILE`).
"""
import collections
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "60"))
FAST = bool(os.environ.get("VERIF_FAST"))      # stop at the first violation (development only)
SPACE = os.environ.get("VERIF_SPACE")           # only spaces whose name contains this (development only)
SUB = int(os.environ.get("VERIF_SUB", "1"))    # first pass over every SUB-th case only (development only; evidence says so)


class Fail(Exception):
    """The property does not hold for this case."""


class CaseTimeout(BaseException):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


def jkey(case):
    return json.dumps(case, sort_keys=True, default=str)


def product(**dims):
    """All combinations, as dicts, simplest first (dims listed simplest first)."""
    names = list(dims)
    for vals in itertools.product(*[list(dims[n]) for n in names]):
        yield dict(zip(names, vals))


_SPACES = {}     # name -> (fn)   (inherited by forked workers)
_KNOWN = []      # known findings of the property
_SCRATCH = None


def scratch():
    """A fresh scratch directory for the current case (removed afterwards)."""
    d = tempfile.mkdtemp(dir=_SCRATCH)
    return d


def _alarm(signum, frame):
    raise CaseTimeout()


def _digest(o):
    return hashlib.blake2b(repr(o).encode(), digest_size=8).hexdigest()


def run_case(fn, case):
    """-> (ok, outcome_digest | None, message)"""
    global _SCRATCH
    base = _SCRATCH
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    mydir = tempfile.mkdtemp(prefix="c", dir=base)
    _SCRATCH = mydir
    cwd = os.getcwd()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = fn(case)
        return True, (None if out is None else _digest(out)), None
    except Fail as e:
        return False, None, "Fail: %s" % e
    except CaseTimeout:
        return False, None, "Timeout: no answer within %d s" % CASE_TIMEOUT
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
        return False, None, "%s: %s [%s]" % (type(e).__name__, str(e)[:400], " < ".join(reversed(where)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        _SCRATCH = base
        shutil.rmtree(mydir, ignore_errors=True)


def _winit():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("VERIF_STDERR"):
        os.dup2(dn, 2)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _work(args):
    name, chunk = args
    fn = _SPACES[name]
    res = []
    nfail = 0
    for i, case in chunk:
        ok, out, msg = run_case(fn, case)
        res.append((i, ok, out, msg))
        if not ok and match_known(_KNOWN, dict(space=name, case=case, message=msg)) is None:
            nfail += 1
            if nfail >= 25 or (msg or "").startswith("Timeout"):
                break
    return res


class Explorer:
    def __init__(self, prop, tier, level, budget):
        self.prop = prop
        self.tier = tier
        self.level = level
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.spaces = []
        self.violations = []     # dict(space, case, message)
        self.fns = {}
        self.only = None         # replay mode: (space)
        self.assumptions = []
        self.capped = False
        self._pool = None

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def assume(self, *txt):
        self.assumptions += txt

    def _enough(self):
        return FAST and any(match_known(_KNOWN, v) is None for v in self.violations)

    # -- enumeration -------------------------------------------------------
    def cases(self, name, cases, fn, rule=""):
        self.fns[name] = fn
        if self.only is not None or self._enough() or SPACE and SPACE not in name:
            return
        cases = list(cases)
        if SUB > 1:
            cases = cases[::min(SUB, max(1, len(cases) // 16))]
            self.capped = True
        keys = set(jkey(c) for c in cases)
        t = time.time()
        _SPACES[name] = fn
        n = len(cases)
        idx = list(enumerate(cases))
        nchunk = max(1, min(n, NPROC * 12))
        # interleave so that every chunk has a mix of cheap and expensive cases
        chunks = [(name, idx[k::nchunk]) for k in range(nchunk)]
        done = {}
        outs = collections.Counter()
        known = _KNOWN[:] = load_known(self.prop)
        ctx = mp.get_context("fork")
        with ctx.Pool(min(NPROC, max(1, n)), initializer=_winit) as pool:
            it = pool.imap_unordered(_work, chunks)
            nbad = 0
            try:
                for _ in range(len(chunks)):
                    left = self.deadline - time.time()
                    res = it.next(timeout=max(1, left))
                    for i, ok, out, msg in res:
                        done[i] = (ok, out, msg)
                        nbad += not ok and match_known(known, dict(space=name, case=cases[i], message=msg)) is None
                        if ok and out is not None:
                            outs[out] += 1
                    if nbad >= (1 if FAST else 400) or time.time() > self.deadline:
                        break
            except mp.TimeoutError:
                pass
            pool.terminate()
        nontrivial = sum(1 for ok, out, m in done.values() if ok and out is not None)
        bad = sorted(i for i, r in done.items() if not r[0])
        complete = len(done) == n
        if not complete:
            self.capped = True
        for i in bad:
            self.violations.append(dict(space=name, case=cases[i], message=done[i][2]))
        samp = [cases[i] for i in sorted({0, n // 2, n - 1})] if n else []
        self.spaces.append(dict(name=name, kind="cases", rule=rule, enumerated=n, distinct_cases=len(keys),
                                evaluated=len(done), nontrivial=nontrivial, distinct_outcomes=len(outs),
                                failures=len(bad), exhaustive=complete, wall_s=round(time.time() - t, 2),
                                samples=samp))
        sys.stderr.write("  [%s] %s: %d/%d cases, %d nontrivial, %d distinct outcomes, %d failing, %.1fs\n" % (
            self.prop, name, len(done), n, nontrivial, len(outs), len(bad), time.time() - t))

    # -- explicit-state search --------------------------------------------
    def bfs(self, name, inits, events, step, depth, rule="", merge=True):
        """Explicit-state breadth-first search over the real code.

        inits  : list of JSON values (initial configurations)
        events : fn(init, hist) -> list of JSON events enabled after hist
        step   : fn({'init':..,'hist':[..]}) -> canonical state key; runs the
                 whole history on fresh real objects and checks the invariants
        States with an equal canonical key are merged (expanded once).
        """
        self.fns[name] = step
        if self.only is not None or self._enough() or SPACE and SPACE not in name:
            return
        t = time.time()
        _SPACES[name] = step
        seen = {}
        transitions = 0
        frontier = [dict(init=i, hist=[]) for i in inits]
        merged = 0
        fails = 0
        maxd = 0
        complete = True
        samples = []
        ctx = mp.get_context("fork")
        with ctx.Pool(NPROC, initializer=_winit) as pool:
            d = 0
            while frontier:
                nchunk = max(1, min(len(frontier), NPROC * 6))
                idx = list(enumerate(frontier))
                chunks = [(name, idx[k::nchunk]) for k in range(nchunk)]
                res = {}
                it = pool.imap_unordered(_work, chunks)
                try:
                    for _ in chunks:
                        for i, ok, out, msg in it.next(timeout=max(1, self.deadline - time.time())):
                            res[i] = (ok, out, msg)
                except mp.TimeoutError:
                    complete = False
                nxt = []
                for i, c in enumerate(frontier):
                    if i not in res:
                        complete = False
                        continue
                    ok, out, msg = res[i]
                    transitions += bool(c["hist"])
                    if not ok:
                        fails += 1
                        self.violations.append(dict(space=name, case=c, message=msg))
                        continue
                    maxd = max(maxd, len(c["hist"]))
                    key = (jkey(c["init"]), out) if merge else jkey(c)
                    if key in seen:
                        merged += 1
                        continue
                    seen[key] = 1
                    if len(samples) < 2 or (len(c["hist"]) == depth and len(samples) < 4):
                        samples.append(c)
                    if len(c["hist"]) < depth:
                        for ev in events(c["init"], c["hist"]):
                            nxt.append(dict(init=c["init"], hist=c["hist"] + [ev]))
                frontier = nxt
                d += 1
                if not complete or fails >= 200 or self._enough():
                    break
            pool.terminate()
        if not complete:
            self.capped = True
        self.spaces.append(dict(name=name, kind="bfs", rule=rule, states=len(seen), transitions=transitions,
                                merged=merged, max_depth=maxd, depth_bound=depth, initial_states=len(inits),
                                closed=complete and not frontier and maxd < depth,
                                failures=fails, exhaustive=complete, wall_s=round(time.time() - t, 2),
                                evaluated=transitions + len(inits), enumerated=transitions + len(inits),
                                distinct_cases=transitions + len(inits), nontrivial=len(seen),
                                distinct_outcomes=len(seen), samples=samples))
        sys.stderr.write("  [%s] %s: bfs states=%d transitions=%d merged=%d depth=%d failing=%d %.1fs\n" % (
            self.prop, name, len(seen), transitions, merged, maxd, fails, time.time() - t))

    # -- reporting ---------------------------------------------------------
    def finish(self):
        known = load_known(self.prop)
        unlisted, hit = [], {}
        for v in self.violations:
            k = match_known(known, v)
            if k is None:
                unlisted.append(v)
            else:
                hit.setdefault(k, v)
        S = self.spaces
        ev = sum(s["evaluated"] for s in S)
        cov = dict(evaluations=ev,
                   distinct_nontrivial=sum(s["nontrivial"] for s in S),
                   rule="; ".join("%s: %s" % (s["name"], s["rule"]) for s in S) +
                        ". A case is non-trivial when the reference model produced a non-empty result that was compared.",
                   samples=[dict(space=s["name"], case=c) for s in S for c in s["samples"][:2]],
                   exhaustive=not self.capped and all(s["exhaustive"] for s in S),
                   spaces=[{k: v for k, v in s.items() if k != "samples"} for s in S])
        if self.level == "model_checking":
            cov["states"] = sum(s.get("states", s["distinct_outcomes"]) for s in S)
            cov["transitions"] = sum(s.get("transitions", s["evaluated"]) for s in S)
            cov["traces_validated_against_impl"] = ev
        out = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                   assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                   violations=len(unlisted))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(out, f, indent=1, default=str)
        os.replace(path + ".tmp", path)
        for k, v in hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]["what"]))
        if unlisted:
            unlisted.sort(key=lambda v: len(jkey(v["case"])))
            v = unlisted[0]
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s-%s.json" % (self.prop, _digest((v["space"], jkey(v["case"])))))
            with open(rp, "w") as f:
                json.dump(dict(property=self.prop, tier=self.tier, **v), f, indent=1, default=str)
            if os.environ.get("VERIF_DEBUG"):
                grp = {}
                for w in unlisted:
                    m = re.sub(r"-?[0-9][0-9.e+-]*|/tmp/\S*", "#", w["message"])[:50]
                    grp.setdefault((w["space"], m), []).append(w)
                for (sp, m), ws in sorted(grp.items(), key=lambda x: -len(x[1]))[:14]:
                    sys.stderr.write("  GROUP %s n=%d %s\n     case=%s\n" % (sp, len(ws), ws[0]["message"][:300], jkey(ws[0]["case"])[:300]))
                return 1
            for w in unlisted[:5]:
                sys.stderr.write("  violation in %s case=%s\n    %s\n" % (w["space"], jkey(w["case"])[:600], w["message"]))
            print("%d failing cases" % len(unlisted))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s evaluations=%d exhaustive=%s wall=%.1fs" % (
            self.prop, ev, cov["exhaustive"], time.time() - self.t0))
        return 0


KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


def load_known(prop):
    """Lines `known: {json}` with keys property, space, match (subset of the
    case), message (substring), what.  `fixed: ...` lines suppress nothing."""
    out = []
    if os.path.exists(KNOWN_FILE):
        for ln in open(KNOWN_FILE):
            if ln.startswith("known:"):
                e = json.loads(ln[len("known:"):])
                if e["property"] == prop:
                    out.append(e)
    return out


def _subset(m, c):
    if isinstance(m, dict):
        return isinstance(c, dict) and all(k in c and _subset(v, c[k]) for k, v in m.items())
    return jkey(m) == jkey(c)


def match_known(known, v):
    for i, e in enumerate(known):
        if e["space"] == v["space"] and _subset(e["match"], v["case"]) and e["message"] in v["message"]:
            return i
    return None


def main(argv):
    global _SCRATCH
    import importlib
    _SCRATCH = tempfile.mkdtemp(prefix="dolfynmc.", dir="/tmp")
    try:
        if argv[0] == "replay":
            rec = json.load(open(argv[1]))
            prop, tier = rec["property"], rec.get("tier", "quick")
        else:
            rec = None
            prop = argv[0]
            tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        mod = importlib.import_module("mc.props." + prop.lower())
        ex = Explorer(prop, tier, getattr(mod, "LEVEL", "exploration"),
                      budget=float(os.environ.get("VERIF_BUDGET", "700" if tier == "quick" else "3000")))
        if rec is not None:
            ex.only = rec["space"]
            mod.run(ex)
            ok, out, msg = run_case(ex.fns[rec["space"]], rec["case"])
            print("replay %s/%s case=%s" % (prop, rec["space"], jkey(rec["case"])))
            print("HOLDS" if ok else "BROKEN: %s" % msg)
            return 0 if ok else 1
        mod.run(ex)
        return ex.finish()
    finally:
        shutil.rmtree(_SCRATCH, ignore_errors=True)
