"""Rejected input leaves the object as it was: no member is written on any path on which a modifier then throws."""
import re
from ..core import Result
from ..excfx import ExcEffects
from ..regions import rstr
from .. import caches

MODIFIER = re.compile(r'^(set|add|append|remove|initialize|insert|replace|clear|empty)')
FILE_ARG = re.compile(r'(File|Directory|Filename)$')


def reads_files(ctx):
    """functions that (transitively) open a file"""
    out = set()
    for f in ctx.M.functions.values():
        for i in f.insts():
            if i.callee and 'basic_ifstream' in i.callee:
                out.add(f.name)
    ch = True
    while ch:
        ch = False
        for n in list(out):
            for c in ctx.R.callers.get(n, ()):
                if c not in out:
                    out.add(c); ch = True
    return out


def run(ctx):
    res = Result()
    res.rule = ("For every public modifier (set/add/append/remove/initialize/clear...) fed with in-memory data: collect, flow-sensitively and through calls, the members of "
                "the receiver that may already have been written when an explicit exception leaves the function (write effects split by exit). Dropping a cache is not a "
                "modification; operations that read files are out of scope. Any remaining member is a violation.")
    ex = ExcEffects(ctx)
    files = reads_files(ctx)
    for f in sorted(ctx.M.functions.values(), key=lambda f: ctx.sig(f)):
        if not ctx.is_public(f) or not ctx.is_method(f) or ctx.is_ctor(f) or ctx.is_dtor(f):
            continue
        n = ctx.name(f)
        if n.const or not MODIFIER.match(n.base):
            continue
        if f.name in files:
            res.count('file_operations_out_of_scope')
            continue
        res.count('modifiers')
        res.count('obligations')
        if not ctx.F.throws[f.name]:
            res.count('never_throws')
            continue
        res.count('may_throw')
        res.sample(ctx.sig(f))
        for (r, kind), (ev, th) in sorted(ex.exc[f.name].items(), key=lambda kv: str(kv[0])):
            if r[0] != 'P0' or not r[1]:
                continue
            if any(x in caches.ALLCACHE for x in r[1]):
                continue
            mem = '.'.join(x for x in r[1] if x not in ('[]', '*'))
            path = []
            e = ev
            seen = 0
            while e is not None and seen < 6:
                path.append("%s of %s at %s" % (e.kind, rstr(e.region), e.inst.where()))
                e = e.via[1] if e.via else None
                seen += 1
            path.append("exception leaves at %s" % th.where())
            res.add('partial-change', ctx.short(f), mem, ev.inst.where(),
                    "%s can throw (at %s) after it has already changed %s (at %s): the rejected call leaves the object modified" %
                    (ctx.sig(f), th.where(), mem, ev.inst.where()), path)
    res.need('modifiers', 70)
    res.need('may_throw', 25)
    res.notes = ["allocation failure is not modelled", "operations reading files (loaders, configuration reading) are out of scope: they stop at the first bad record"]
    return res
