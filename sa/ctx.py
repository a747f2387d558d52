"""Bookkeeping shared by all rules: the program, summaries, obligations and violations."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import mir
import engine
from terms import *
from engine import Ev, Loop, State, showlits


class Ob:
    __slots__ = ("rule", "inst", "ok", "where", "msg", "fn")

    def __init__(self, rule, inst, ok, where, msg, fn):
        self.rule, self.inst, self.ok, self.where, self.msg, self.fn = rule, inst, ok, where, msg, fn

    def key(self):
        return "%s|%s|%s" % (self.rule, self.fn, self.inst)


class Ctx:
    def __init__(self, dump):
        self.prog = mir.Program(dump)
        self.obs = []
        self.analysed = {}
        self.paths = 0
        self.loops = 0
        self._cache = {}
        self.notes = []

    # ---- summaries
    def engine(self, opaque=(), **kw):
        e = engine.Engine(self.prog, opaque)
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    def fn(self, name):
        """canonical name -> engine.Fn or None"""
        if not hasattr(self, "_names"):
            self._names = self.engine().names
        return self._names.get(name)

    def role(self, name, sig):
        """a function by name, or else the only one with this signature (it may have been renamed)"""
        if self.has(name):
            return name
        self.fn(name)
        c = [n for n, f in self._names.items() if f.d["sig"] == sig]
        return c[0] if len(c) == 1 else name

    def has(self, name):
        return self.fn(name) is not None

    def run(self, name, opaque=(), args=None, **kw):
        """(paths, engine) of a function; missing function or failed analysis -> fails the check"""
        key = (name, tuple(sorted(opaque)), tuple(args) if args else None, tuple(sorted(kw.items())))
        if key in self._cache:
            return self._cache[key]
        if not self.has(name):
            self.ob("anchor", name, False, None, "function %s is not in the program" % name, name)
            self._cache[key] = ([], None)
            return self._cache[key]
        e = self.engine(opaque, **kw)
        try:
            ps = e.run(name, args)
        except Exception as x:          # no summary: fail closed
            if os.environ.get("SA_DEBUG"):
                raise
            self.ob("analysis", name, False, self.where_fn(name), "no summary of %s: %s %s" % (name, type(x).__name__, x), name)
            self._cache[key] = ([], None)
            return self._cache[key]
        self.analysed[name] = self.analysed.get(name, 0) + len(ps)
        self.paths += len(ps)
        for p in ps:
            for l in loops_of(p.events):
                self.loops += 1
        self._cache[key] = (ps, e)
        return self._cache[key]

    def where_fn(self, name):
        f = self.fn(name)
        return f.d["span"] if f else None

    def adt(self, name):
        """type by its last path segment -> its record or None (and a failed obligation)"""
        for k, a in self.prog.adts.items():
            if k.split("::")[-1] == name:
                return a
        self.ob("anchor", name, False, None, "type %s not found" % name)
        return None

    def fields(self, name):
        a = self.adt(name)
        return [tuple(f) for f in a["variants"][0]["fields"]] if a else []

    # ---- obligations
    def ob(self, rule, inst, ok, where, msg, fn=""):
        o = Ob(rule, inst, bool(ok), where, msg, fn)
        self.obs.append(o)
        return bool(ok)

    def floor(self, what, n, least):
        self.ob("floor", what, n >= least, None, "%s: found %d, expected at least %d" % (what, n, least))


def loops_of(events, deep=True):
    for e in events:
        if isinstance(e, tuple):
            yield e[1]
            if deep:
                for p in e[1].paths:
                    yield from loops_of(p.events)


def flat_events(events):
    """all effects on a path, those of loops included (with the loop they are in)"""
    for e in events:
        if isinstance(e, tuple):
            for p in e[1].paths:
                for x, ls in flat_events(p.events):
                    yield x, (e[1],) + ls
        else:
            yield e, ()


def callee_terms(t, name):
    return [x for x in walk(t) if x.op == "call" and x.a[0] == name]
