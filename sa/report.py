"""Collecting obligations: each one holds, is violated, or could not be decided."""
from __future__ import annotations

import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

_J = {}


class JobTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise JobTimeout()


# seconds for one job and for the whole check; what is cut off is undecided
LIMITS = {"quick": (90, 420), "thorough": (240, 760)}


class Report:
    def __init__(self, prop, tier="quick", repo="/repo"):
        self.prop, self.tier, self.repo = prop, tier, repo
        self.recs = []
        self.units = set()
        self.paths = 0
        self.notes = []
        self.errors = []
        self.low = []
        self.t0 = time.time()
        self.texts = []
        self._w = None

    @property
    def world(self):
        if self._w is None:
            from world import World
            self._w = World(self.repo)
            self._w.base()
        return self._w

    @property
    def thorough(self):
        return self.tier == "thorough"

    def _add(self, st, clause, key, msg, loc):
        self.recs.append({"st": st, "clause": clause, "key": f"{clause}:{key}", "msg": msg, "loc": self.where(loc)})

    def where(self, loc):
        if loc is None:
            return "?"
        if isinstance(loc, str):
            return loc
        try:
            m, l = loc[0], loc[1]
            return f"{self.world.relpath(m)}:{l}"
        except Exception:
            return str(loc)

    def ok(self, clause, key, msg="", loc=None):
        self._add("ok", clause, key, msg, loc)

    def bad(self, clause, key, msg, loc=None):
        self._add("bad", clause, key, msg, loc)

    def undecided(self, clause, key, msg="", loc=None):
        self._add("undecided", clause, key, msg, loc)

    def verdict(self, cond, clause, key, msg, loc=None):
        """cond True/False/None"""
        (self.ok if cond else self.undecided if cond is None else self.bad)(clause, key, msg, loc)

    def note(self, s):
        self.notes.append(s)

    def broken(self, s):
        self.errors.append(s)

    def text(self, s):
        self.texts.append(s)

    def floor(self, clause, n):
        """Fewer than n decided obligations in a clause means the analysis lost its subject."""
        k = sum(1 for r in self.recs if r["clause"] == clause and r["st"] != "undecided")
        if k < n:
            self.low.append(f"{self.prop}: clause {clause}: only {k} decided obligations, expected at least {n}")

    def unit(self, name):
        self.units.add(name)

    def violations(self):
        out, seen = [], set()
        for r in self.recs:
            if r["st"] == "bad" and r["key"] not in seen:
                seen.add(r["key"])
                out.append(r)
        return out

    def counts(self):
        c = {"ok": 0, "bad": 0, "undecided": 0}
        for r in self.recs:
            c[r["st"]] += 1
        c["obligations"] = len(self.recs)
        return c

    def by_clause(self):
        out = {}
        for r in self.recs:
            d = out.setdefault(r["clause"], {"ok": 0, "bad": 0, "undecided": 0})
            d[r["st"]] += 1
        return out

    def explain(self):
        n = self.counts()
        s = " ".join(self.texts)
        return (f"{s} {n['obligations']} obligations from {len(self.units)} functions of the current source: {n['ok']} hold, "
                f"{n['bad']} violated, {n['undecided']} undecided (an undecided obligation never alarms).").strip()

    # ---- parallel jobs: func(sub_report, job)
    def pmap(self, func, jobs, procs=None):
        jobs = list(jobs)
        self.world
        _J["r"], _J["f"], _J["jobs"] = self, func, jobs
        procs = min(procs or int(os.environ.get("VSA_PROCS", "8")), max(1, len(jobs)))
        if procs <= 1 or len(jobs) <= 1:
            res = [_run(i) for i in range(len(jobs))]
        else:
            with mp.get_context("fork").Pool(procs) as p:
                res = p.map(_run, range(len(jobs)), 1)
        for r in res:
            self.low += r["low"]
            self.recs += r["recs"]
            self.units |= r["units"]
            self.paths += r["paths"]
            self.notes += r["notes"]
            self.errors += r["errors"]
        return [r["ret"] for r in res]


def _run(i):
    sys.setrecursionlimit(12000)
    r, f, jobs = _J["r"], _J["f"], _J["jobs"]
    s = Report(r.prop, r.tier, r.repo)
    s._w = r._w
    ret = None
    one, total = LIMITS.get(r.tier, LIMITS["quick"])
    left = total - (time.time() - r.t0)
    try:
        if left <= 1:
            raise JobTimeout()
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(min(one, left)) or 1)
        try:
            ret = f(s, jobs[i])
        finally:
            signal.alarm(0)
    except JobTimeout:
        s.undecided("analysis", f"job {jobs[i]!r}"[:120], "time limit")
        s.note(f"time limit in job {jobs[i]!r}"[:200])
    except RecursionError:
        s.note(f"recursion limit in job {jobs[i]!r}"[:200])
    except Exception:
        # a construct the analysis cannot handle is an undecided obligation; the floors catch a lost subject
        s.undecided("analysis", f"job {jobs[i]!r}"[:120], traceback.format_exc()[-400:])
        s.note(f"job {jobs[i]!r}"[:200] + " failed: " + traceback.format_exc()[-600:])
    return {"recs": s.recs, "units": s.units, "paths": s.paths, "notes": s.notes, "errors": s.errors, "low": s.low, "ret": ret}
