"""Helpers shared by the harnesses."""
from aas_test_engines.result import AasTestResult, Level

LEVELS = [Level.INFO, Level.WARNING, Level.ERROR, Level.CRITICAL]


def nodes(r):
    out = [r]
    for i in r.sub_results:
        out += nodes(i)
    return out


def val(level):
    return level.value


def check_tree(S, r, what=""):
    """every node is at least as severe as everything below it, and ok() says 'no error below'"""
    for n in nodes(r):
        for c in n.sub_results:
            S.require(val(n.level) >= val(c.level), "a report is less severe than one of its findings " + what)
    worst = 0
    for n in nodes(r):
        worst = S.If(val(n.level) > worst, val(n.level), worst)
    S.require(S.Iff(r.ok(), worst <= 1), "ok() does not reflect the worst finding " + what)


def worst_of(S, r):
    w = 0
    for n in nodes(r):
        w = S.If(val(n.level) > w, val(n.level), w)
    return w


def messages(r):
    return [n.message for n in nodes(r)]


def errors(r):
    """leaf findings that are errors"""
    out = []
    for n in nodes(r):
        if not n.sub_results and n.level.value >= 2:
            out.append(n.message)
    return out
