"""C26: helpers on (jagged) nested sequences, for all small nestings."""

import itertools

import numpy as np

ID = 'C26'
TITLE = 'Jagged-array helpers agree on shape and size for every nesting'
BOUNDS = dict(
    quick='every nested list of depth 0-3 with 1-3 entries per level (depth 3: up to 2x2x2 entries), with scalar, list, tuple and array leaves',
    thorough='as quick with up to 3 entries per level at depth 3',
)
ASSUMPTIONS = ['nestings have the same depth everywhere, as produced for edges and points of several parameters, and no empty rows']


def cases(tier):
    quick = (tier == 'quick')
    out = [dict(depth=0)]
    for num in range(1, 5):
        out.append(dict(depth=1, lens=num))
    for num in range(1, 4):
        for lens in itertools.product([1, 2, 3, 4], repeat=num):
            out.append(dict(depth=2, lens=list(lens)))
    top = [1, 2] if quick else [1, 2, 3]
    for num in top:
        rows = [list(rr) for nn in top for rr in itertools.product([1, 2, 3], repeat=nn)]
        for combo in itertools.product(rows, repeat=num):
            out.append(dict(depth=3, lens=[list(cc) for cc in combo]))
    return out


def nest(lens, count):
    if isinstance(lens, int):
        return [next(count) for _ in range(lens)]
    return [nest(ll, count) for ll in lens]


def convert(obj, how):
    if not isinstance(obj, list):
        return obj
    inner = [convert(oo, how) for oo in obj]
    if how == 'tuple':
        return tuple(inner)
    if how == 'array' and not isinstance(obj[0], list):
        return np.array(inner)
    return inner


def flat(obj):
    if not isinstance(obj, list):
        return [obj]
    return [xx for oo in obj for xx in flat(oo)]


def shape(obj):
    """The regular shape, or None."""
    if not isinstance(obj, list):
        return ()
    subs = [shape(oo) for oo in obj]
    if any(ss is None for ss in subs) or len(set(subs)) > 1:
        return None
    return (len(obj),) + subs[0]


def run(case, rec):
    from kalepy import utils
    rec.state(case)
    if case['depth'] == 0:
        for val in [1.5, 3, np.float64(2.0), np.int64(1)]:
            rec.equal(utils.really1d(val), False, 'really1d() of a scalar')
            rec.equal(utils.isjagged(val), False, 'isjagged() of a scalar')
            rec.equal(int(utils.flatlen(val)), 1, 'flatlen() of a scalar')
        for val, want in [(3, True), (3.0, False), (np.int32(1), True), (np.arange(3), True), (np.arange(3.0), False), ([1, 2], True),
                          ([1.0, 2], False), (None, False), ('a', False)]:
            rec.equal(bool(utils.isinteger(val)), want, 'isinteger()', val=repr(val))
        for val in [[1, 2], np.arange(3)]:
            rec.equal(bool(utils.isinteger(val, iterable=False)), False, 'isinteger(iterable=False)', val=repr(val))
        rec.equal(utils.really1d([]), True, 'really1d() of an empty list')
        rec.trace()
        return
    obj = nest(case['lens'], itertools.count(1))
    want = shape(obj)
    vals = flat(obj)
    for how in ['list', 'tuple', 'array']:
        arr = convert(obj, how)
        rec.equal(bool(utils.really1d(arr)), case['depth'] == 1, 'really1d()', arr=repr(arr))
        rec.equal(bool(utils.isjagged(arr)), want is None, 'isjagged()', arr=repr(arr))
        rec.equal(int(utils.flatlen(arr)), len(vals), 'flatlen()', arr=repr(arr))
        rec.equal([int(vv) for vv in utils.flatten(arr)], vals, 'flatten()', arr=repr(arr))
        if want is not None:
            rec.equal(tuple(utils.jshape(arr)), want, 'jshape()', arr=repr(arr))
        elif case['depth'] == 2 and how != 'array':
            got = utils.jshape(arr)
            rec.equal(got, ((len(obj),), tuple((ll,) for ll in case['lens'])), 'jshape() of a jagged array', arr=repr(arr))
    rec.trace()
