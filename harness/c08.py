TICKS = True
BUDGET = {'quick': 300, 'thorough': 600}
BOUNDS = 'dividing: lists of 0 to 100000 items into 1 to 9 parts, batches: up to 60 items and batch sizes 1 to 70; ' \
         'mapping: lists of up to 5 items, up to 6 workers, every switch at item granularity, up to 2 failing items; up to 300 items and 64 workers without switches; one interruption before any statement'
ASSUMPTIONS = ['the position of each mark of numpy.linspace is within 1e-6 of the exact value']

CASES = ['divide %d' % n for n in range(1, 10)] + ['small %d' % n for n in range(1, 13)] + ['batch %d' % i for i in range(0, 7)] \
    + ['batch big'] + ['map %d/%d' % (n, w) for n in range(0, 5) for w in (1, 2, 3)] + ['map 5/2', 'map 2/5', 'map 1/4', 'map 3/5', 'map 0/4'] \
    + ['fail %d/%d' % (n, w) for n in (1, 2, 3, 4) for w in (1, 2, 3)] + ['empty 2/2', 'fail2 4/2', 'fail2 3/4', 'unhash 4/2', 'none 4/3'] \
    + ['~0 map 2/2 >> map 3/2', '~0 fail 2/2 >> map 3/2', '~1 map 3/2 >> fail 2/2', '~1 map 2/3 >> ~0 map 1/3 >> map 2/2', 'small 3 >> small 2', 'batch 1 >> batch 2'] \
    + ['many %d/%d' % x for x in ((15, 11), (49, 11), (13, 23), (31, 29), (100, 8), (150, 64), (300, 1))] + ['fragile'] \
    + ['interrupt %d/%d' % x for x in ((2, 2), (3, 2), (4, 2), (3, 3), (5, 3), (2, 4))]
THOROUGH = ['map 4/5', 'map 5/4'] + ['map %d/%d' % (n, w) for n in (5, 6) for w in (2, 3, 4, 6)] + ['fail %d/%d' % (n, w) for n in (5, 6) for w in (2, 3, 4, 7)] \
    + ['map 3/3 >> fail 3/2 >> map 2/2', 'fail2 5/3'] + ['divide %d' % n for n in range(10, 18)] + ['small %d' % n for n in range(13, 25)] + ['batch %d' % i for i in range(7, 13)]


def cases(tier):
    return CASES if tier == 'quick' else CASES + THOROUGH


# sizes for which dividing in floating point can round the other way
FRAGILE = [(n, k) for k in range(2, 64) for n in range(1, 130) if any([int(i * (n / k)) != n * i // k for i in (1, k - 1, k)])][::9]


class Boom(Exception):
    pass


class Empty(Exception):
    """An error that holds nothing"""

    def __len__(self):
        return 0


def run(ctx, case):
    kind, arg = (case + ' -').split()[:2]
    M = ctx.mod('utils.mutables')
    if kind in ('divide', 'small', 'fragile'):
        if kind == 'fragile':
            n, k = FRAGILE[ctx.choose('size', len(FRAGILE))]
            items = list(range(n))
        else:
            k = int(arg)
            items = ctx.items('len', 0, 100000) if kind == 'divide' else ctx.items('len', 0, 12)
        parts = M.divide_list(items, k)
        ctx.check([x for y in parts for x in y] == items if kind == 'fragile' else ctx.is_partition(parts, items), 'parts put together are not the list')
        ctx.check(len(parts) <= k, 'more parts than asked for')
        sizes = [len(x) if kind == 'fragile' else ctx.size(x) for x in parts]
        if kind == 'fragile':
            sizes = [min(sizes), max(sizes)]
        for i, a in enumerate(sizes):
            for b in sizes[:i]:
                ctx.check(ctx.all([a - b <= 2, b - a <= 2]), 'parts of unequal size')
        ctx.cover('divided')
        return
    if kind == 'batch':
        if arg == 'big':
            items = ctx.items('len', 0, 60)
            size = ctx.int('size', 20, 70)
        else:
            items = ctx.items('len', 0, 4 + int(arg))
            size = ctx.int('size', 1, 12)
        parts = M.make_batches(items, size)
        ctx.check(ctx.is_partition(parts, items), 'batches put together are not the list')
        for i, p in enumerate(parts):
            n = ctx.size(p)
            ctx.check(ctx.all([n >= 1, n <= size]), 'a batch is empty or too big')
        ctx.cover('batched')
        return
    n, w = [int(x) for x in arg.split('/')]
    T = ctx.mod('utils.multithreading')
    bad = []
    if kind in ('fail', 'empty'):
        bad = [ctx.choose('bad', n)]
    elif kind == 'fail2':
        a = ctx.choose('bad', n - 1)
        bad = [a, a + 1 + ctx.choose('bad2', n - 1 - a)]
    elif kind == 'map':
        pass
    calls = []
    if kind == 'interrupt':
        ctx.preempt(0, 60)
    elif kind != 'many':
        ctx.schedule()

    def f(x):
        if kind not in ('interrupt', 'many'):
            ctx.switch_point()
        calls.append(x)
        if x in bad:
            raise (Empty if kind == 'empty' else Boom)('item %d' % x)
        if kind == 'none':
            return None
        if kind == 'unhash':
            return [x]
        return 10 * x + 1
    res, err = ctx.call(T.run_multithreads, list(range(n)), f, w)
    if bad:
        ctx.check(err is not None, 'a failure of the function is swallowed')
        ctx.check(type(err).__name__ == ('Empty' if kind == 'empty' else 'Boom'), 'another error than that of the function')
        ctx.cover('failure')
        return
    ctx.check(err is None, 'mapping failed')
    ctx.observe('results', res)
    want = [f2(kind, x) for x in range(n)]
    ctx.check(list(res) == want, 'results are not those of the items in order')
    ctx.check(sorted(calls) == list(range(n)), 'function not applied exactly once per item')
    ctx.cover('mapped')


def f2(kind, x):
    return None if kind == 'none' else ([x] if kind == 'unhash' else 10 * x + 1)


COVER = ['divided', 'batched', 'failure', 'mapped']
