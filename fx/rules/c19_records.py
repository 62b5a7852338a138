"""Every record in an answer carries all its fields."""
from ..core import Result
from .. import records


def judge(ctx, res, only=None):
    for f, d, keys in records.producers(ctx):
        if only is not None and ctx.name(f).base not in only:
            continue
        R = records.Records(ctx, f, 'RET', d, keys, records.SCHEMA)
        res.count('producers'); res.count('creations', R.creations); res.count('obligations', max(1, R.creations * (len(keys) - 1)))
        for i, msg, key in R.problems:
            res.add('incomplete-record', ctx.short(f), key, i.where(), "%s: %s" % (ctx.short(f), msg))
        res.sample("%s %s" % (ctx.short(f), sorted(keys)))


def run(ctx):
    res = Result()
    res.rule = "path analysis from every creation of a record (plain store through operator[], assignment from a producer) to the return: every required field is stored before or after it on every path"
    judge(ctx, res)
    res.need('producers', 4)
    return res
