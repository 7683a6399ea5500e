"""
C18: sensor-channel expressions against a model of the language.

The denotation of an expression is a list of (sensor, tuple of channel names).
Family ``build`` enumerates syntax trees and prints them; family ``strings``
enumerates *all* strings over a small alphabet and decides with an independent
backtracking recognizer whether they belong to the language and what they mean.
"""
import contextlib
import io
import itertools
import pickle
import re

from mc import core
from mc.c16 import eq
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'

# channel codes, with the names the sensor grammar gives them and the names
# left after channel aliases are expanded as well
CODES = {
    'r': (['r'], ['r']), 'g': (['g'], ['g']), 'x y': (['x y'], ['x y']), 'x-1': (['x-1'], ['x-1']),
    'rgb': (['rgb'], ['r', 'g', 'b']),
    'm.2': (['m.2'],) * 2, 'm.0': (['m.0'],) * 2,
    'm:2': (['m.0', 'm.1'],) * 2, 'm.1:3': (['m.1', 'm.2'],) * 2, 'm:1:3': (['m.1', 'm.2'],) * 2,
    'm.0:3': (['m.0', 'm.1', 'm.2'],) * 2,
}


def fused(codes, k=1):
    return tuple(n for c in codes for n in CODES[c][k])


def denote(items, k=1):
    """items: [[sensors or None, [fused...] or None], ...]"""
    out = []
    for sensors, chans in items:
        for s in (sensors or ['*']):
            for f in ([[]] if chans is None else chans):
                out.append((s, fused(f, k)))
    return out


def show(items, paren):
    """paren: bit 0 parenthesizes single sensors, bit 1 single channels"""
    parts = []
    for sensors, chans in items:
        t = ''
        if sensors:
            t = ','.join(sensors)
            t = f'({t}):' if len(sensors) > 1 or paren & 1 else f'{t}:'
        if chans is not None:
            c = ','.join('|'.join(f) for f in chans)
            t += f'({c})' if len(chans) > 1 or paren & 2 else c
        parts.append(t)
    return ','.join(parts)


def meaning(spec):
    """the denotation the implementation reports"""
    return [(s.sensor.spec, tuple(s.chans.as_list())) for s in spec.streams()]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def plain_seq(text):
    """
    Known finding, reported by family plain_seq: a group of channels without a
    sensor that starts with a plain channel is taken for a group of sensors.
    """
    return any(re.match(r'[^,:.|]+,', m.group(2)) for m in re.finditer(r'(^|,)\(([^()]*)\)(?!:)', text))


def refused(fn):
    from lark.exceptions import LarkError
    try:
        with quiet():
            fn()
    except LarkError:
        return True
    except Exception as ex:
        if 'Unexpected' in type(ex).__name__:
            return True
        raise
    return False


class Str(str):
    """a string type the compiled parsers do not accept"""


def check_spec(text, want, simple=True):
    """want: denotation; simple: no duplicates and no empty streams"""
    from delayed_image import ChannelSpec, FusedChannelSpec, FusedSensorChanSpec, SensorChanSpec
    s = SensorChanSpec.coerce(text)
    eq(s.spec, text, 'spec')
    eq(str(s), text, 'str')
    eq(s.__json__(), text, 'json')
    eq(meaning(s), want, f'{text!r}: streams')
    eq(meaning(SensorChanSpec.coerce(s)), want, f'{text!r}: coerced again')
    eq(meaning(SensorChanSpec.coerce(Str(text))), want, f'{text!r}: str subclass')
    eq(meaning(pickle.loads(pickle.dumps(s))), want, f'{text!r}: pickled')
    eq(s.numel(), sum(len(c) for _, c in want), f'{text!r}: numel')
    n = s.normalize()
    eq(meaning(n), want, f'{text!r}: normalize {n.spec!r}')
    eq(n.normalize().spec, n.spec, f'{text!r}: normalize twice')
    if set(n.spec) & set('()'):
        raise Violation(f'{text!r}: normal form {n.spec!r} has groups')
    for part in n.spec.split(','):
        if ':' not in part:
            raise Violation(f'{text!r}: normal form {n.spec!r} lacks a sensor')
    eq(s.spec, text, 'spec afterwards')
    if simple:
        c = s.concise()
        cs = set(meaning(c))
        eq(cs, set(want), f'{text!r}: concise {c.spec!r}')
        if len(meaning(c)) != len(want):
            raise Violation(f'{text!r}: concise {c.spec!r} repeats or drops streams')
        eq(c.concise().spec, c.spec, f'{text!r}: concise twice')
        eq(n.concise().spec, c.spec, f'{text!r}: concise of normal')
        eq(set(meaning(c.normalize())), set(want), f'{text!r}: normal of concise')
    sp = s.split()
    eq(meaning(sp) if sp.spec else [], [(a, (x,)) for a, b in want for x in (b or ('',)) if b] or [],
       f'{text!r}: split {sp.spec!r}') if all(b for _, b in want) else None
    sensors = list(dict.fromkeys(a for a, _ in want))
    for q in sensors + ['none']:
        got = s.matching_sensor(q)
        if q == '*':
            eq(meaning(got), want, f'{text!r}: matching *')
            continue
        m = [(a, b) for a, b in want if a in (q, '*')] or [(q, ())]
        eq(meaning(got), m, f'{text!r}: matching {q}')
        if len({a for a, _ in m}) == 1:
            check_chans(got, m, text)
    if len(sensors) == 1:
        check_chans(s, want, text)
    else:
        try:
            got = s.chans
        except Exception:
            pass
        else:
            raise Violation(f'{text!r}: chans of several sensors gave {got}')
    for st, (a, b) in zip(s.streams(), want):
        if not isinstance(st, FusedSensorChanSpec):
            raise Violation(f'stream of type {type(st)}')
        eq(st.sensor.spec, a, 'stream sensor')
        eq(tuple(st.chans.as_list()), b, 'stream channels')
        eq(st.numel(), len(b), 'stream numel')
        eq(meaning(st), [(a, b)], 'streams of a stream')
        eq(meaning(st.normalize()), [(a, b)], 'stream normalize')
        eq(meaning(st.concise()), [(a, b)], 'stream concise')
        eq(meaning(FusedSensorChanSpec.coerce(st.spec)), [(a, b)], 'stream reparsed')
        if b:
            eq(meaning(st.split()), [(a, (x,)) for x in b], 'stream split')
    if len(want) > 1:
        try:
            with quiet():
                got = FusedSensorChanSpec.coerce(text)
        except ValueError:
            pass
        else:
            raise Violation(f'{text!r}: several streams became one: {got}')
    # again, with all caches filled
    eq(meaning(SensorChanSpec.coerce(text)), want, f'{text!r}: second time')
    eq(SensorChanSpec.coerce(text).normalize().spec, n.spec, f'{text!r}: second normalize')


def check_chans(s, want, text):
    got = [tuple(x.as_list()) for x in s.chans.streams()]
    got = [g for g in got if g]
    eq(got, [b for _, b in want if b], f'{text!r}: chans')


def run_build(case):
    items, paren = case
    text = show(items, paren)
    want = denote(items)
    simple = len(set(want)) == len(want) and (len(want) == 1 or all(b for _, b in want))
    if plain_seq(text) and refused(lambda: meaning(spec_of(text))):
        return Outcome([core.key(text)], 1, trivial=True)
    check_spec(text, want, simple)
    return Outcome([core.key(text)], 15)


def spec_of(text):
    from delayed_image import SensorChanSpec
    return SensorChanSpec.coerce(text)


def run_plain_seq(case):
    items, = case
    text = show(items, 0)
    check_spec(text, denote(items))
    return Outcome([core.key(text)], 15)


def cases_plain_seq():
    for chans in ([['r'], ['g']], [['x y'], ['r', 'm:2']], [['r'], ['m.0:3'], ['g']]):
        for before in ([], [[['A'], [['m.2']]]]):
            for after in ([], [[['A', 'B'], [['m.0']]]]):
                yield [before + [[None, chans]] + after]
    for ok in ([['r', 'g'], ['x y']], [['m:2'], ['r']]):
        yield [[[None, ok]]]


SENS = [None, ['A'], ['*'], ['B', 'A'], ['A', 'C c'], ['D-2*']]
CHANS = [None, [['r']], [['r', 'g']], [['rgb']], [['m:2', 'r']], [['m.1:3']], [['m:1:3', 'm.0']], [['r'], ['g', 'm.2']],
         [['x y'], ['r']], [['m.0:3'], ['m:2'], ['x-1']]]


def cases_build(sens, chans, depth, parens):
    its = [[s, c] for s in sens for c in chans if s or c]
    for d in range(1, depth + 1):
        for combo in itertools.product(its, repeat=d):
            for p in parens:
                yield [[list(x) for x in combo], p]


# ---------------------------------------------------------------- all strings
LET, DIG = set('ABr*'), set('12')


def rx(text):
    """All denotations of text (a list; empty if it is not in the language)."""
    N = len(text)

    def iden(i):
        if i < N and text[i] in LET:
            j = i + 1
            while j < N and (text[j] in LET or text[j] in DIG):
                j += 1
            yield text[i:j], j

    def integer(i):
        j = i
        while j < N and text[j] in DIG:
            j += 1
        if j > i:
            yield int(text[i:j]), j

    def lit(i, c):
        if i < N and text[i] == c:
            yield i + 1

    def code(i):
        for name, j in iden(i):
            yield [name], j
            for k in lit(j, '.'):
                for a, e in integer(k):
                    yield [f'{name}.{text[k:e]}'], e
            for k in lit(j, ':'):
                for a, e in integer(k):
                    yield [f'{name}.{x}' for x in range(a)], e
            for sep in '.:':
                for k in lit(j, sep):
                    for a, e in integer(k):
                        for k2 in lit(e, ':'):
                            for b, e2 in integer(k2):
                                yield [f'{name}.{x}' for x in range(a, b)], e2

    def fuse(i):
        for c, j in code(i):
            yield c, j
            for k in lit(j, '|'):
                for rest, e in fuse(k):
                    yield c + rest, e

    def seq(i, item):
        for a, j in item(i):
            yield [a], j
            for k in lit(j, ','):
                for rest, e in seq(k, item):
                    yield [a] + rest, e

    def group(i, item):
        for j in lit(i, '('):
            for a, e in seq(j, item):
                for k in lit(e, ')'):
                    yield a, k

    def rhs(i):
        for a, j in fuse(i):
            yield [a], j
        yield from group(i, fuse)

    def lhs(i):
        for a, j in iden(i):
            for k in lit(j, ':'):
                yield [a], k
        for a, j in group(i, iden):
            for k in lit(j, ':'):
                yield a, k

    def item(i):
        for r, j in rhs(i):
            yield [('*', tuple(f)) for f in r], j
        for s, j in lhs(i):
            yield [(a, ()) for a in s], j
            for r, e in rhs(j):
                yield [(a, tuple(f)) for a in s for f in r], e

    def stream(i):
        for a, j in item(i):
            yield a, j
            for k in lit(j, ','):
                for rest, e in stream(k):
                    yield a + rest, e

    found = []
    for d, e in stream(0):
        if e == N and d not in found:
            found.append(d)
    return found


def run_string(case):
    from delayed_image.sensorchan_spec import SensorChanSpec
    text, = case
    want = rx(text)
    try:
        with quiet():
            got = [(s.sensor.spec, tuple(s.chans.parsed)) for s in SensorChanSpec.coerce(text).streams()]
    except Exception as ex:
        got = None
        err = ex
    if got is None:
        if want and not (plain_seq(text) and 'Unexpected' in type(err).__name__):
            raise Violation(f'{text!r} is refused ({type(err).__name__}) but means {want}')
        return Outcome([], 1, trivial=True)
    if not want:
        raise Violation(f'{text!r} is not in the language but is read as {got}')
    if got not in want:
        raise Violation(f'{text!r} is read as {got} but means {want}')
    k = want.index(got)
    simple = len(set(got)) == len(got) and (len(got) == 1 or all(b for _, b in got))
    check_spec(text, want[k], simple)
    return Outcome([core.key(text)], 15)


def cases_string(alphabet, length, prefix=''):
    for n in range(1, length + 1):
        for t in itertools.product(alphabet, repeat=n):
            t = prefix + ''.join(t)
            if not any(len(x) > 2 for x in ''.join(c if c in DIG else ' ' for c in t).split()):
                yield [t]       # no huge ranges


# --------------------------------------------------------------------- fusing
def run_fuse(case):
    parts, paren = case
    from delayed_image import ChannelSpec, FusedChannelSpec, SensorChanSpec
    texts = [show(p, paren) if p else '' for p in parts]
    if any(map(plain_seq, texts)) and refused(lambda: [meaning(spec_of(t)) for t in texts if t]):
        return Outcome([core.key(texts)], 1, trivial=True)
    specs = [SensorChanSpec.coerce(t) for t in texts]
    want = [d for p in parts if p for d in denote(p)]
    joined = ','.join(t for t in texts if t)
    combos = [('late_fuse', specs[0].late_fuse(*specs[1:])), ('sum', sum(specs))]
    acc = specs[0]
    for s in specs[1:]:
        acc = acc + s
    combos.append(('+', acc))
    for name, got in combos:
        eq(got.spec, joined, name)
        if joined:
            eq(meaning(got), want, name)
    norm = sum([SensorChanSpec.coerce(t).normalize() for t in texts if t]) if any(texts) else None
    if norm is not None:
        eq(meaning(norm), want, 'sum of normal forms')
        simple = len(set(want)) == len(want)
        if simple and all(b for _, b in want):
            eq(norm.concise().spec, SensorChanSpec.coerce(joined).concise().spec, 'concise of the sum')
            # streams are unordered: permuting them denotes the same set
            rev = SensorChanSpec.coerce(','.join(t for t in texts[::-1] if t))
            eq(set(meaning(rev.concise())), set(want), 'concise of the reversed sum')
    for t, s, p in zip(texts, specs, parts):
        eq(s.spec, t, 'operand afterwards')
        if p:
            eq(meaning(s), denote(p), 'operand afterwards')
    return Outcome([core.key(joined)], 4)


def cases_fuse(th):
    its = [None] + [[[s, c]] for s in ([None, ['A'], ['B', 'A'], ['*']]) for c in (None, [['r']], [['rgb', 'm:2']], [['r'], ['g']])
                    if s or c]
    for n in (1, 2, 3):
        for combo in itertools.product(its, repeat=n):
            for p in (0, 3) if th else (0,):
                yield [list(combo), p]


def run_coerce(case):
    from delayed_image import ChannelSpec, FusedChannelSpec, SensorChanSpec
    chans, how = case
    text = ','.join('|'.join(f) for f in chans)
    want = [('*', fused(f)) for f in chans]
    if how == 'chan':
        s = SensorChanSpec.coerce(ChannelSpec.coerce(text))
    elif how == 'fused':
        s = SensorChanSpec.coerce(FusedChannelSpec.coerce(text))
    elif how == 'int':
        n = len(want[0][1])
        s = SensorChanSpec.coerce(n)
        want = [('*', tuple(f'u{i}' for i in range(n)))]
    eq(meaning(s), want, how)
    eq(meaning(s.normalize()), want, how + ' normalize')
    return Outcome([core.key(text, how)], 2)


def cases_coerce():
    for c in CHANS:
        if c:
            yield [c, 'chan']
            if len(c) == 1:
                yield [c, 'fused']
                yield [c, 'int']


def families(tier):
    th = tier == 'thorough'
    F = Family
    return [
        F('build', lambda: cases_build(SENS, CHANS, 2, (0, 3)), run_build, 'up to 2 of 59 items, with and without redundant groups'),
        F('build3', lambda: cases_build([None, ['A'], ['B', 'A']], [None, [['r', 'm:2']], [['r'], ['g']], [['m.0:3']]] if th else
                                        [None, [['r', 'm:2']], [['r'], ['g']]], 4 if th else 3, (0,)), run_build, 'up to 3 (thorough 4) items'),
        F('strings', lambda: cases_string('Ar1.:|,()', 6 if th else 4), run_string, 'all strings of up to 4 (thorough 6) of 9 characters'),
        F('strings_seq', lambda: cases_string('AB:,()r', 7 if th else 5), run_string, 'all strings of up to 5 (thorough 7) of 7 characters'),
        F('strings_num', lambda: cases_string('12.:|r', 6 if th else 5, 'A:'), run_string, 'A: followed by all strings of up to 5 (thorough 6) of 6 characters'),
        F('plain_seq', cases_plain_seq, run_plain_seq, 'groups of channels without a sensor'),
        F('fuse', lambda: cases_fuse(th), run_fuse, 'up to three late fused specs'),
        F('coerce', cases_coerce, run_coerce, 'other spec types'),
    ]
