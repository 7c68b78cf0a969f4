"""Python regular expressions -> NFA -> minimal DFA -> formula over symbolic characters.

The parse tree is the one the re module itself builds (re._parser), so the encoding follows the
pattern objects the code under test creates at run time.
"""
import re
import functools
import re._parser as sp
import re._constants as sc
import z3
from .engine import mk_and, mk_or, mk_not

MAXCP = 0x10FFFF
FULL = ((0, MAXCP),)


class Unsupported(Exception):
    pass


# ---- interval sets ------------------------------------------------------
def iv_norm(ivs):
    ivs = sorted((a, b) for a, b in ivs if a <= b)
    out = []
    for a, b in ivs:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def iv_union(*xs):
    return iv_norm([i for x in xs for i in x])


def iv_not(x):
    out = []
    p = 0
    for a, b in x:
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def iv_and(x, y):
    return iv_not(iv_union(iv_not(x), iv_not(y)))


def iv_has(x, c):
    import bisect
    i = bisect.bisect_right(x, (c, MAXCP + 1)) - 1
    return i >= 0 and x[i][0] <= c <= x[i][1]


@functools.lru_cache(maxsize=None)
def iv_pred(name):
    """Interval set of code points c for which chr(c).<name>() holds."""
    out = []
    st = None
    f = getattr(str, name)
    for c in range(MAXCP + 1):
        if f(chr(c)):
            if st is None:
                st = c
        elif st is not None:
            out.append((st, c - 1))
            st = None
    if st is not None:
        out.append((st, MAXCP))
    return tuple(out)


@functools.lru_cache(maxsize=None)
def iv_re(cls, ascii_):
    fl = re.ASCII if ascii_ else 0
    p = re.compile(cls, fl)
    if cls == r"\s" and not ascii_:
        return iv_pred("isspace")
    if cls == r"\d" and not ascii_:
        return iv_pred("isdecimal")
    if cls == r"\w" and not ascii_:
        return iv_union(iv_pred("isalnum"), ((95, 95),))
    out = []
    for c in range(128):
        if p.match(chr(c)):
            out.append((c, c))
    return iv_norm(out)


_cls_cache = {}


def in_class(c, ivs):
    """c: int or z3 Int. Returns bool or z3 Bool."""
    if isinstance(c, int):
        return iv_has(ivs, c)
    if ivs == FULL:
        return True
    if not ivs:
        return False
    key = (c.get_id(), ivs)
    r = _cls_cache.get(key)
    if r is not None and r[0].eq(c):
        return r[1]
    n = iv_not(ivs)
    if len(n) < len(ivs):
        e = mk_not(_in(c, n))
    else:
        e = _in(c, ivs)
    _cls_cache[key] = (c, e)
    return e


def _in(c, ivs):
    parts = []
    for a, b in ivs:
        if a == b:
            parts.append(c == a)
        elif a == 0:
            parts.append(c <= b)
        elif b == MAXCP:
            parts.append(c >= a)
        else:
            parts.append(z3.And(c >= a, c <= b))
    return mk_or(parts)


# ---- parse tree -> NFA --------------------------------------------------
CATS = {
    sc.CATEGORY_DIGIT: (r"\d", False), sc.CATEGORY_NOT_DIGIT: (r"\d", True),
    sc.CATEGORY_SPACE: (r"\s", False), sc.CATEGORY_NOT_SPACE: (r"\s", True),
    sc.CATEGORY_WORD: (r"\w", False), sc.CATEGORY_NOT_WORD: (r"\w", True),
}


def _ci(ivs):
    """Case-insensitive closure (simple, ASCII + single-char mappings)."""
    out = list(ivs)
    n = 0
    for a, b in ivs:
        for c in range(a, min(b, a + 5000) + 1):
            for o in (chr(c).lower(), chr(c).upper()):
                if len(o) == 1:
                    out.append((ord(o), ord(o)))
            n += 1
            if n > 20000:
                raise Unsupported("ignorecase over large class")
    return iv_norm(out)


def class_of(op, av, flags):
    ascii_ = bool(flags & re.ASCII)
    ic = bool(flags & re.IGNORECASE)
    if op is sc.LITERAL:
        ivs = ((av, av),)
        return _ci(ivs) if ic else ivs
    if op is sc.NOT_LITERAL:
        ivs = ((av, av),)
        return iv_not(_ci(ivs) if ic else ivs)
    if op is sc.ANY:
        return FULL if flags & re.DOTALL else iv_not(((10, 10),))
    if op is sc.IN:
        neg = False
        out = []
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                out.append((a, a))
            elif o is sc.RANGE:
                out.append(a)
            elif o is sc.CATEGORY:
                c, n = CATS[a]
                s = iv_re(c, ascii_)
                out.extend(iv_not(s) if n else s)
            else:
                raise Unsupported(str(o))
        ivs = iv_norm(out)
        if ic:
            ivs = _ci(ivs)
        return iv_not(ivs) if neg else ivs
    raise Unsupported(str(op))


class NFA:
    """States are ints. eps edges may carry an assertion: 'bos' | 'eos' | 'eosnl'."""

    def __init__(self):
        self.eps = []
        self.trans = []

    def new(self):
        self.eps.append([])
        self.trans.append([])
        if len(self.eps) > 200000:
            raise Unsupported("nfa too large")
        return len(self.eps) - 1


def build(nfa, seq, flags, start):
    cur = start
    for op, av in seq:
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            n = nfa.new()
            nfa.trans[cur].append((class_of(op, av, flags), n))
            cur = n
        elif op is sc.SUBPATTERN:
            _g, add, rem, p = av
            cur = build(nfa, p, (flags | add) & ~rem, cur)
        elif op is sc.ATOMIC_GROUP:
            cur = build(nfa, av, flags, cur)
        elif op is sc.BRANCH:
            end = nfa.new()
            for alt in av[1]:
                s = nfa.new()
                nfa.eps[cur].append((None, s))
                e = build(nfa, alt, flags, s)
                nfa.eps[e].append((None, end))
            cur = end
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            lo, hi, p = av
            for _ in range(lo):
                cur = build(nfa, p, flags, cur)
            if hi == sc.MAXREPEAT:
                s = nfa.new()
                nfa.eps[cur].append((None, s))
                e = build(nfa, p, flags, s)
                nfa.eps[e].append((None, s))
                n = nfa.new()
                nfa.eps[s].append((None, n))
                cur = n
            else:
                end = nfa.new()
                nfa.eps[cur].append((None, end))
                for _ in range(hi - lo):
                    cur = build(nfa, p, flags, cur)
                    nfa.eps[cur].append((None, end))
                cur = end
        elif op is sc.AT:
            if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                word = sp.parse(r"\w", flags & (re.ASCII | re.UNICODE))
                end = nfa.new()
                for behind in (True, False):
                    n = nfa.new()
                    nfa.eps[cur].append((("behind", behind, word, flags), n))
                    nfa.eps[n].append((("ahead", behind == (av is sc.AT_NON_BOUNDARY), word, flags), end))
                cur = end
                continue
            kinds = {sc.AT_BEGINNING: "bos", sc.AT_BEGINNING_STRING: "bos", sc.AT_END: "eosnl", sc.AT_END_STRING: "eos"}
            if av not in kinds or (flags & re.MULTILINE and av in (sc.AT_BEGINNING, sc.AT_END)):
                raise Unsupported(str(av))
            n = nfa.new()
            nfa.eps[cur].append((kinds[av], n))
            cur = n
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, p = av
            n = nfa.new()
            nfa.eps[cur].append((("ahead" if direction > 0 else "behind", op is sc.ASSERT, p, flags), n))
            cur = n
        else:
            raise Unsupported(str(op))
    return cur


def _anchored(seq):
    """contains an anchor at the beginning, a look-around or a boundary"""
    for op, av in seq:
        if op is sc.AT and av not in (sc.AT_END, sc.AT_END_STRING) or op in (sc.ASSERT, sc.ASSERT_NOT):
            return True
        if op is sc.SUBPATTERN and _anchored(av[3]) or op is sc.ATOMIC_GROUP and _anchored(av):
            return True
        if op is sc.BRANCH and any(_anchored(i) for i in av[1]):
            return True
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT) and _anchored(av[2]):
            return True
    return False


class DFA:
    """Minimal DFA of L(pattern, mode). trans[s] = tuple of (intervals, target)."""

    def __init__(self, trans, accept):
        self.trans = trans
        self.accept = accept


def _closure(nfa, states, at_bos, lookahead):
    """lookahead: 'end' (no more input), 'nl-end' (exactly one newline left), 'more'."""
    seen = set(states)
    st = list(states)
    while st:
        s = st.pop()
        for g, t in nfa.eps[s]:
            if g == "bos" and not at_bos:
                continue
            if g == "eos" and lookahead != "end":
                continue
            if g == "eosnl" and lookahead not in ("end", "nl-end"):
                continue
            if t not in seen:
                seen.add(t)
                st.append(t)
    return seen


@functools.lru_cache(maxsize=None)
def compile_dfa(pattern, flags, mode):
    """mode: 'fullmatch' | 'match' | 'search'. Language = strings for which the method succeeds."""
    tree = sp.parse(pattern, flags & ~re.DEBUG)
    if isinstance(pattern, bytes):
        raise Unsupported("bytes pattern")
    return _compile_tree(tree, tree.state.flags, mode)


def _step(dfa, s, c):
    for ivs, t in dfa.trans[s]:
        if iv_has(ivs, c):
            return t
    raise AssertionError


def _compile_tree(tree, flags, mode):
    nfa = NFA()
    start = nfa.new()
    end = build(nfa, tree, flags, start)
    # The position automaton is nondeterministic about "what is left" because of $/\Z: a configuration
    # is (state, phase) with phase 'more' (nothing guessed), 'end' (guessed end of input),
    # 'nl' (guessed exactly one newline left). Guesses are verified by the input itself.
    done = nfa.new()  # matched; rest of input free (match/search) or must be empty (fullmatch)
    nfa.eps[end].append(("eos" if mode == "fullmatch" else None, done))

    # Look-arounds: what must (not) follow is run along as an obligation of the configuration, the state of an
    # automaton that accepts as soon as the look-ahead has matched; what must (not) precede is run along globally,
    # as the state of an automaton for everything that ends with the look-behind.
    ahead, behind = [], []
    for k, edges in enumerate(nfa.eps):
        for j, (g, t) in enumerate(edges):
            if isinstance(g, tuple):
                kind, sign, p, f = g
                if _anchored(p):
                    raise Unsupported("anchor in a look-around")
                if kind == "ahead":
                    l, d = ahead, _compile_tree(p, f, "match")
                else:
                    l, d = behind, _compile_tree([(sc.MAX_REPEAT, (0, sc.MAXREPEAT, [(sc.ANY, None)])), (sc.SUBPATTERN, (None, 0, 0, p))], f | re.DOTALL, "fullmatch")
                    if any(op is sc.AT for op, _ in p):
                        raise Unsupported("anchor in a look-behind")
                l.append(d)
                edges[j] = ((kind, sign, len(l) - 1), t)

    def close(conf, bos, before):
        out = set()
        st = list(conf)
        while st:
            c = st.pop()
            if c in out:
                continue
            out.add(c)
            s, ph, obl = c
            if ph == "more":
                st.append((s, "end", obl))
                st.append((s, "nl", obl))
            for g, t in nfa.eps[s]:
                if g == "bos" and not bos:
                    continue
                if g == "eos" and ph != "end":
                    continue
                if g == "eosnl" and ph not in ("end", "nl"):
                    continue
                o = obl
                if isinstance(g, tuple):
                    kind, sign, k = g
                    if kind == "behind":
                        if behind[k].accept[before[k]] != sign:
                            continue
                    else:
                        o = oblige(obl, sign, k, 0)
                        if o is None:
                            continue
                st.append((t, ph, o))
        return frozenset(out)

    def oblige(obl, sign, k, state):
        d = ahead[k]
        # accepted for whatever follows (the automata run in 'match' mode)
        if d.accept[state] and all(t == state for _, t in d.trans[state]):
            return obl if sign else None
        return obl | {(sign, k, state)}

    def go(obl, c):
        o = frozenset()
        for sign, k, state in obl:
            o = oblige(o, sign, k, _step(ahead[k], state, c))
            if o is None:
                return None
        return o

    init = {(start, "more", frozenset())}
    before = tuple(0 for _ in behind)
    first = (close(init, True, before), before)
    # alphabet partition
    bounds = {0, 10, 11}
    classes = list({ivs for tr in nfa.trans for ivs, _t in tr} | {ivs for d in ahead + behind for tr in d.trans for ivs, _t in tr})
    for ivs in classes:
        for a, b in ivs:
            bounds.add(a)
            bounds.add(b + 1)
    bl = sorted(x for x in bounds if x <= MAXCP)
    segs = [(bl[i], (bl[i + 1] - 1) if i + 1 < len(bl) else MAXCP) for i in range(len(bl))]
    # group segments by signature over all distinct classes
    sig = {}
    for a, b in segs:
        k = (a == 10, tuple(iv_has(c, a) for c in classes))
        sig.setdefault(k, []).append((a, b))
    groups = [iv_norm(v) for v in sig.values()]
    reps = [g[0][0] for g in groups]
    cls_in = [{c: iv_has(c, r) for c in classes} for r in reps]

    ids = {first: 0}
    order = [first]
    trans = []
    accept = []
    i = 0
    while i < len(order):
        S, before = order[i]
        i += 1
        accept.append(any(s == done and ph == "end" and all(ahead[k].accept[d] == sign for sign, k, d in obl) for s, ph, obl in S))
        row = []
        for gi, r in enumerate(reps):
            nxt = set()
            for s, ph, obl in S:
                if ph == "end":
                    continue
                nph = "more" if ph == "more" else "end"
                if ph == "nl" and r != 10:
                    continue
                o = go(obl, r) if obl else obl
                if o is None:
                    continue
                for ivs, t in nfa.trans[s]:
                    if cls_in[gi][ivs]:
                        nxt.add((t, nph, o))
                if s == done and mode != "fullmatch":
                    nxt.add((done, nph, o))
            if mode == "search":
                nxt.add((start, "more", frozenset()))
            b = tuple(_step(d, q, r) for d, q in zip(behind, before))
            T = (close(nxt, False, b), b)
            if T not in ids:
                ids[T] = len(order)
                order.append(T)
                if len(order) > 20000:
                    raise Unsupported("dfa too large")
            row.append(ids[T])
        trans.append(row)
    # In 'match'/'search' mode a state containing done in phase 'more' also contains (done,'end') by
    # closure, and stays accepting under any further input through the loop above.
    n = len(order)
    # Moore minimisation
    part = [1 if a else 0 for a in accept]
    while True:
        sigs = {}
        new = [0] * n
        for s in range(n):
            k = (part[s], tuple(part[t] for t in trans[s]))
            new[s] = sigs.setdefault(k, len(sigs))
        if len(sigs) == len(set(part)):
            break
        part = new
    # canonical numbering by BFS
    num = {part[0]: 0}
    rep = {part[0]: 0}
    q = [part[0]]
    mtrans, macc = [], []
    j = 0
    while j < len(q):
        p = q[j]
        j += 1
        s = next(x for x in (rep[p],))
        byt = {}
        for gi, t in enumerate(trans[s]):
            byt.setdefault(part[t], []).append(groups[gi])
        rows = [(iv_union(*g), pt) for pt, g in byt.items()]
        rows.sort(key=lambda r: r[0])
        for ivs, pt in rows:
            if pt not in num:
                num[pt] = len(q)
                q.append(pt)
                rep[pt] = next(x for x in range(n) if part[x] == pt)
        mtrans.append(tuple((ivs, num[pt]) for ivs, pt in rows))
        macc.append(accept[s])
    return DFA(mtrans, macc)


def dfa_formula(dfa, chars):
    """Boolean formula: the string of given (possibly symbolic) chars is accepted."""
    # backward: acc[s] = formula that suffix from position i is accepted from state s
    n = len(chars)
    # forward reachable sets to avoid useless work
    reach = [set() for _ in range(n + 1)]
    reach[0].add(0)
    for i, c in enumerate(chars):
        for s in reach[i]:
            for ivs, t in dfa.trans[s]:
                if isinstance(c, int) and not iv_has(ivs, c):
                    continue
                reach[i + 1].add(t)
    acc = {s: dfa.accept[s] for s in reach[n]}
    for i in range(n - 1, -1, -1):
        c = chars[i]
        cur = {}
        for s in reach[i]:
            if isinstance(c, int):
                for ivs, t in dfa.trans[s]:
                    if iv_has(ivs, c):
                        cur[s] = acc[t]
                        break
                continue
            bye = {}
            for ivs, t in dfa.trans[s]:
                a = acc[t]
                if a is False:
                    continue
                k = a if a is True else a.get_id()
                if k in bye:
                    bye[k] = (iv_union(bye[k][0], ivs), a)
                else:
                    bye[k] = (ivs, a)
            cur[s] = mk_or([mk_and([in_class(c, ivs), a]) for ivs, a in bye.values()])
        acc = cur
    return acc[0]


def dfa_rep_formula(dfa, prefix, ch, count, suffix):
    """Formula over count (z3 Int >= 0): prefix + ch*count + suffix accepted. Exact for every count."""
    def step(s, c):
        for ivs, t in dfa.trans[s]:
            if iv_has(ivs, c):
                return t
        raise AssertionError

    s = 0
    for c in prefix:
        s = step(s, ord(c))
    seen = {}
    seq = []
    while s not in seen:
        seen[s] = len(seq)
        seq.append(s)
        s = step(s, ch)
    loop = seen[s]
    per = len(seq) - loop

    def fin(st):
        for c in suffix:
            st = step(st, ord(c))
        return dfa.accept[st]
    res = [fin(st) for st in seq]
    parts = []
    for k in range(loop):
        if res[k]:
            parts.append(count == k)
    body = res[loop:]
    if all(body):
        parts.append(count >= loop)
    else:
        for k, r in enumerate(body):
            if r:
                parts.append(z3.And(count >= loop, (count - loop) % per == k))
    return mk_or(parts)


# ---- backtracking with captures -------------------------------------------
class Backtrack:
    """Follows re's own search order over a string of concrete length with symbolic characters;
    character tests are decided by `decide` (which forks)."""

    def __init__(self, pattern, flags, chars, decide):
        self.tree = sp.parse(pattern, flags & ~re.DEBUG)
        self.flags = self.tree.state.flags
        self.chars = chars
        self.decide = decide
        self.groups = self.tree.state.groups
        self.groupdict = dict(self.tree.state.groupdict)

    def run(self, mode):
        n = len(self.chars)
        starts = range(n + 1) if mode == "search" else [0]
        for st in starts:
            caps = {}
            for end, c in self.m(list(self.tree), 0, st, caps, self.flags):
                if mode == "fullmatch" and end != n:
                    continue
                c = dict(c)
                c[0] = (st, end)
                return c
        return None

    def m(self, seq, k, i, caps, flags):
        if k == len(seq):
            yield i, caps
            return
        op, av = seq[k]
        n = len(self.chars)
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if i < n and self.decide(in_class(self.chars[i], class_of(op, av, flags))):
                yield from self.m(seq, k + 1, i + 1, caps, flags)
        elif op is sc.SUBPATTERN:
            g, add, rem, p = av
            f2 = (flags | add) & ~rem
            for e, c in self.m(list(p), 0, i, caps, f2):
                c2 = dict(c)
                if g is not None:
                    c2[g] = (i, e)
                yield from self.m(seq, k + 1, e, c2, flags)
        elif op is sc.ATOMIC_GROUP:
            for e, c in self.m(list(av), 0, i, caps, flags):
                yield from self.m(seq, k + 1, e, c, flags)
                break
        elif op is sc.BRANCH:
            for alt in av[1]:
                for e, c in self.m(list(alt), 0, i, caps, flags):
                    yield from self.m(seq, k + 1, e, c, flags)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            greedy = op is sc.MAX_REPEAT

            def rep(cnt, pos, c):
                if not greedy and cnt >= lo:
                    yield pos, c
                if hi == sc.MAXREPEAT or cnt < hi:
                    for e, c2 in self.m(p, 0, pos, c, flags):
                        if e == pos and cnt >= lo:
                            continue
                        yield from rep(cnt + 1, e, c2)
                if greedy and cnt >= lo:
                    yield pos, c
            for e, c in rep(0, i, caps):
                yield from self.m(seq, k + 1, e, c, flags)
        elif op is sc.AT:
            ok = False
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = i == 0
            elif av is sc.AT_END_STRING:
                ok = i == n
            elif av is sc.AT_END:
                ok = i == n or (i == n - 1 and self.decide(in_class(self.chars[i], ((10, 10),))))
            elif av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                word = class_of(sc.IN, [(sc.CATEGORY, sc.CATEGORY_WORD)], flags)
                l, r = (0 <= x < n and self.decide(in_class(self.chars[x], word)) for x in (i - 1, i))
                ok = (l != r) == (av is sc.AT_BOUNDARY)
            else:
                raise Unsupported(str(av))
            if ok:
                yield from self.m(seq, k + 1, i, caps, flags)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, p = av
            if direction > 0:
                c = next((c for _, c in self.m(list(p), 0, i, caps, flags)), None)
            else:
                w = p.getwidth()[0]
                c = next((c for e, c in self.m(list(p), 0, i - w, caps, flags) if e == i), None) if i >= w else None
            if (c is not None) == (op is sc.ASSERT):
                yield from self.m(seq, k + 1, i, c if op is sc.ASSERT else caps, flags)
        else:
            raise Unsupported(str(op))
