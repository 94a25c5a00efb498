"""Compare regular expressions: what they match, and how much of it.

A pattern becomes a program of prioritised steps, as in a matcher without
backtracking. `ends` follows two programs together over every string, by classes of
characters that neither tells apart, and finds a string of which they match prefixes of
different lengths; `groups` ignores priorities and compares the ways to divide matched
strings into groups. Lookaheads are guessed at each position and the guesses are held
against what follows. Nothing is matched against sample text: the state spaces are
finite and are explored in full.
"""

import collections
import itertools
from re import _constants as C, _parser


class Unsupported(Exception):
    pass


FLAGS = {'VERBOSE': 64, 'X': 64, 'IGNORECASE': 2, 'I': 2, 'ASCII': 256, 'A': 256,
         'UNICODE': 32, 'U': 32, 'DOTALL': 16, 'S': 16}


class Program:
    """Steps: (char, test), (split, a, b), (mark, label), (look, body, value), (match,)."""

    def __init__(self, text, flags=0):
        try:
            tree = _parser.parse(text, flags)
        except Exception as e:
            raise Unsupported(str(e))
        self.flags = flags | tree.state.flags
        self.names = {v: k for k, v in tree.state.groupdict.items()}
        self.steps = []
        self.tests = []
        self.seq(tree)
        self.emit('match')

    def emit(self, *step):
        self.steps.append(list(step))
        return len(self.steps) - 1

    def char(self, test):
        self.tests.append(test)
        self.emit('char', test)

    def seq(self, tree):
        for op, av in tree:
            self.item(op, av)

    def item(self, op, av):
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            self.char((str(op), str(av), self.test(op, av)))
        elif op is C.BRANCH:
            ends = []
            for i, b in enumerate(av[1]):
                if i + 1 < len(av[1]):
                    at = self.emit('split', len(self.steps) + 1, None)
                    self.seq(b)
                    ends.append(self.emit('jump', None))
                    self.steps[at][2] = len(self.steps)
                else:
                    self.seq(b)
            for e in ends:
                self.steps[e][1] = len(self.steps)
        elif op is C.SUBPATTERN:
            group, add, remove, body = av
            if add or remove:
                raise Unsupported('flags of a group')
            if group is not None:
                self.emit('mark', ('open', self.names.get(group, group)))
            self.seq(body)
            if group is not None:
                self.emit('mark', ('close', self.names.get(group, group)))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            low, high, body = av
            if low > 20 or (high is not C.MAXREPEAT and high > 20):
                raise Unsupported('long repeat')
            order = (lambda a, b: (a, b)) if op is C.MAX_REPEAT else (lambda a, b: (b, a))
            for _ in range(low):
                self.seq(body)
            if high is C.MAXREPEAT:
                at = self.emit('split', None, None)
                self.seq(body)
                self.emit('jump', at)
                self.steps[at][1:] = order(at + 1, len(self.steps))
            else:
                ats = []
                for _ in range(high - low):
                    ats.append(self.emit('split', None, None))
                    self.seq(body)
                for at in ats:
                    self.steps[at][1:] = order(at + 1, len(self.steps))
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, body = av
            sub = Program.__new__(Program)
            sub.flags, sub.names, sub.steps, sub.tests = self.flags, self.names, [], []
            sub.seq(body)
            sub.emit('match')
            if any(s[0] in ('look', 'behind') for s in sub.steps):
                raise Unsupported('nested assertion')
            self.tests += sub.tests
            if direction == 1:
                self.emit('look', sub, op is C.ASSERT)
            else:
                if [s[0] for s in sub.steps] != ['char', 'match']:
                    raise Unsupported('long lookbehind')
                self.emit('behind', sub.steps[0][1], op is C.ASSERT)
        else:
            raise Unsupported(str(op))

    def test(self, op, av):
        low = bool(self.flags & 2)
        ascii_ = bool(self.flags & 256)

        def one(kind, v, ch):
            if kind is C.LITERAL:
                return ord(ch) == v
            if kind is C.RANGE:
                return v[0] <= ord(ch) <= v[1]
            if kind is C.CATEGORY:
                name = str(v)
                got = {'DIGIT': ch.isdecimal(), 'SPACE': ch.isspace(),
                       'WORD': ch.isalnum() or ch == '_'}[name.rpartition('_')[2]]
                if ascii_ and ord(ch) > 127:
                    got = False
                return got != ('NOT_' in name)
            raise Unsupported(str(kind))

        def any_(kind, v, ch):
            chars = {ch, ch.lower(), ch.upper()} if low else {ch}
            return any(one(kind, v, c) for c in chars if len(c) == 1)

        if op is C.LITERAL:
            return lambda ch: any_(C.LITERAL, av, ch)
        if op is C.NOT_LITERAL:
            return lambda ch: not any_(C.LITERAL, av, ch)
        if op is C.ANY:
            return lambda ch: ch != '\n' or bool(self.flags & 16)
        negate = any(k is C.NEGATE for k, _ in av)
        items = [(k, v) for k, v in av if k is not C.NEGATE]
        return lambda ch: any(any_(k, v, ch) for k, v in items) != negate


def alphabet(*programs):
    """One character for each set of tests that some character passes."""
    tests = {(t[0], t[1]): t[2] for p in programs for t in p.tests}
    chars = [chr(i) for i in range(0x250)] + ['\u0391', '\u03a9', '\u2003', '\u0663',
                                              '\u4e2d', '\u2028', '\U0001f600']
    classes = {}
    order = sorted(chars, key=lambda c: (not c.isascii(), not c.isprintable(), not
                                         c.isalnum(), c))
    for ch in order:
        classes.setdefault(tuple(f(ch) for f in tests.values()), ch)
    return list(classes.values())


def closure(prog, pcs, truth, prev, marks=False):
    """Steps that wait for a character, in order, and whether the match ends here."""
    out, seen = [], set()
    done = []

    def walk(pc):
        if pc in seen:
            return False
        seen.add(pc)
        s = prog.steps[pc]
        if s[0] == 'char' or (s[0] == 'mark' and marks):
            out.append(pc)
        elif s[0] == 'match':
            done.append(True)
            return not marks
        elif s[0] == 'split':
            return walk(s[1]) or walk(s[2])
        elif s[0] == 'jump':
            return walk(s[1])
        elif s[0] == 'mark':
            return walk(pc + 1)
        elif s[0] == 'look':
            if truth[id(s[1])] == s[2]:
                return walk(pc + 1)
        elif s[0] == 'behind':
            if (prev is not None and s[1][2](prev)) == s[2]:
                return walk(pc + 1)
        return False
    for pc in pcs:
        if walk(pc):
            break
    return out, bool(done)


def follow(duties, ch):
    """Duties that remain after a character, or None when one is broken."""
    out = set()
    for look, value, pcs in duties:
        new = [pc + 1 for pc in closure(look, pcs, {}, None)[0]
               if look.steps[pc][1][2](ch)]
        if not new:
            if value:
                return None
            continue
        got = closure(look, new, {}, None)
        if got[1]:
            if not value:
                return None
            continue
        out.add((look, value, tuple(new)))
    return frozenset(out)


def possible(duties, chars):
    """A text that fulfils duties, or None."""
    seen, queue = {duties}, collections.deque([(duties, '')])
    while queue:
        d, text = queue.popleft()
        if not any(v for _, v, _ in d):
            return text
        for ch in chars:
            n = follow(d, ch)
            if n is not None and n not in seen:
                seen.add(n)
                queue.append((n, text + ch))
    return None


def guesses(looks, duties):
    """Values of the lookaheads at a position with the duties that they imply."""
    for values in itertools.product((True, False), repeat=len(looks)):
        new, ok = set(duties), True
        for look, v in zip(looks, values):
            pcs = (0,)
            if closure(look, pcs, {}, None)[1]:
                ok = ok and v
                continue
            new.add((look, v, pcs))
        if ok:
            yield {id(k): v for k, v in zip(looks, values)}, frozenset(new)


def explore(a, b, marks, limit=60000):
    """A text for which two programs differ, or None; with the number of states."""
    chars = alphabet(a, b)
    looks = [s[1] for p in (a, b) for s in p.steps if s[0] == 'look']
    start = ((0,), (0,), None, frozenset())
    seen, queue = {start}, collections.deque([(start, '')])
    while queue:
        (pa, pb, prev, duties), text = queue.popleft()
        for truth, new in guesses(looks, duties):
            if marks:
                rounds = [(pa, pb, '')]
                local = {(pa, pb)}
            else:
                rounds, local = [(pa, pb, '')], set()
            while rounds:
                qa, qb, tags = rounds.pop()
                la, ma = closure(a, qa, truth, prev, marks)
                lb, mb = closure(b, qb, truth, prev, marks)
                if ma != mb:
                    rest = possible(new, chars)
                    if rest is not None:
                        return text + tags, rest, (ma, mb), len(seen)
                labels = {p.steps[i][1] for p, l in ((a, la), (b, lb)) for i in l
                          if p.steps[i][0] == 'mark'}
                for label in sorted(labels, key=str):
                    na = tuple(i + 1 for i in la if a.steps[i][0] == 'mark'
                               and a.steps[i][1] == label)
                    nb = tuple(i + 1 for i in lb if b.steps[i][0] == 'mark'
                               and b.steps[i][1] == label)
                    if marks:
                        na, nb = tuple(sorted(set(na))), tuple(sorted(set(nb)))
                    if (na, nb) not in local:
                        local.add((na, nb))
                        sign = f"<{label[1]}" if label[0] == 'open' else '>'
                        rounds.append((na, nb, tags + sign))
                for ch in chars:
                    left = follow(new, ch)
                    if left is None:
                        continue
                    na = [i + 1 for i in la if a.steps[i][0] == 'char'
                          and a.steps[i][1][2](ch)]
                    nb = [i + 1 for i in lb if b.steps[i][0] == 'char'
                          and b.steps[i][1][2](ch)]
                    if marks:
                        na, nb = sorted(set(na)), sorted(set(nb))
                    if not na and not nb:
                        continue
                    state = (tuple(dict.fromkeys(na)), tuple(dict.fromkeys(nb)), ch, left)
                    if state not in seen:
                        if len(seen) > limit:
                            raise Unsupported('too many states')
                        seen.add(state)
                        queue.append((state, text + tags + ch))
    return None, None, None, len(seen)


def compare(text, flags, ref, refflags=64):
    """(True, ..) when two patterns match alike, (False, why), or (None, why)."""
    try:
        a, b = Program(text, flags), Program(ref, refflags)
        t, rest, which, n = explore(a, b, False)
        if t is not None:
            got = 'matches' if which[0] else 'does not match'
            return False, f"{got} {t!r} in {t + rest!r}", n
        t, rest, which, m = explore(a, b, True)
        if t is not None:
            got = 'divides' if which[0] else 'does not divide'
            return False, f"{got} text as {t!r}", n + m
        return True, '', n + m
    except Unsupported as e:
        return None, str(e), 0
