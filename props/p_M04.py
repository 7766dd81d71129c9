from vp import *
from array import array
from messaging.mms.iterator import PreviewIterator


def run(mk, m, ops, n, d, rest=True):
    it = PreviewIterator(mk(d))
    check(iter(it) == it, 'a preview iterator is its own iterator')
    took = 0
    peek = 0
    seen = 0                                   # items looked at and not yet taken
    for i in range(m):
        op = ops[i]
        if op == 0:
            exc, v = attempt(it.next)
            if took < n:
                check_eq((exc, v), (None, d[took]), 'next returns the underlying items in order')
                took += 1
                if seen > 0:
                    seen -= 1
            else:
                check_eq(exc, 'StopIteration', 'next stops exactly at the end')
            peek = took
        elif op == 1:
            exc, v = attempt(it.preview)
            if peek < n:
                check_eq((exc, v), (None, d[peek]), 'preview returns the items after the last next or reset in order')
                peek += 1
                if peek > took + seen:
                    seen += 1
            else:
                check_eq(exc, 'StopIteration', 'preview stops exactly at the end')
        else:
            it.reset_preview()
            peek = took
    if rest:
        check_eq(list(it), d[took:], 'the rest is what has not been taken')


def same(d):
    return d


def arr(d):
    return array('B', d)


@harness(n=Int(0, 5), d=Ints('n', 0, 255), m=Int(0, 9), o1=Int(0, 2), o2=Int(0, 2), o=Ints(7, 0, 2), split=['n', 'm', 'o1', 'o2'],
         thorough={'n': range(0, 6), 'm': range(0, 10)}, quick={'n': [0, 1, 2, 3, 4], 'm': [3, 7]}, bounded='histories of up to 9 operations')
def histories(n, d, m, o1, o2, o):
    ops = [o1, o2] + [concrete(x) for x in o]
    run(same, m, ops, n, d)


@harness(n=Int(0, 40), t=Int(0, 40), c=Int(0, 40), p=Int(0, 40), over=Int(0, 1), array_=Bool(), o1=Int(0, 2), o2=Int(0, 2), o3=Int(0, 2), d=Ints('n', 0, 255),
         split=['n', 't', 'c', 'p', 'over', 'array_'], quick={'n': [0, 1, 2, 6, 12], 't': [0, 1, 5], 'c': [0, 1, 2, 3, 4, 5, 6, 11], 'p': [0, 1, 2, 3, 4, 10]},
         thorough={'n': list(range(0, 9)) + [20, 40], 't': [0, 1, 2, 3, 7, 19], 'c': list(range(0, 9)) + [12, 33], 'p': list(range(0, 6)) + [8, 12, 25]},
         bounded='three operations after every combination of items taken, items looked at and look position, up to the stated sizes')
def states(n, t, c, p, over, array_, o1, o2, o3, d):
    """every state an iterator can be in: t items taken, c more looked at, then looking again up to p"""
    assume(t + c <= n and p <= c)
    assume(over == 0 or t + c == n)
    ops = [0] * t + [1] * (c + over) + [2] + [1] * p + [concrete(o1), concrete(o2), concrete(o3)]
    run(arr if array_ else same, len(ops), ops, n, d)


@harness(n=Int(0, 3), d=Ints('n', 0, 255), o=Ints(5, 0, 2), split=['n'], bounded='histories of 5 operations')
def histories_array(n, d, o):
    run(arr, 5, [concrete(x) for x in o], n, d)


def contract(n, d, m):
    def inv(i, took, peek, seen):
        return {'it._it': iter_at(d, took + seen), 'it._cached_values': d[took:took + seen], 'it._preview_pos': peek - took}
    loop('p_M04.run', inv, upto=m, free=['took', 'peek', 'seen'],
         cond=lambda i, took, peek, seen: allof([0 <= took, took <= peek, peek <= took + seen, took + seen <= n]))


@harness(n=Int(0, None, cap=300), d=Ints('n', 0, 255), m=Int(0, None, cap=600), ops=Ints('m', 0, 2), inductive=True)
def any_history(n, d, m, ops):
    contract(n, d, m)
    run(same, m, ops, n, d, False)


@harness(n=Int(0, 400), t=Int(0, 400), c=Int(0, 400), p=Int(0, 400), k=Int(0, 40), array_=Bool(), d=Ints('n', 0, 255), split=['n', 't', 'c', 'p', 'k', 'array_'],
         quick={'n': [300], 't': [0, 70], 'c': [33, 65, 130, 230], 'p': [0, 31], 'k': [1, 20], 'array_': [False]},
         thorough={'n': [300], 't': [0, 1, 17, 70], 'c': [17, 33, 65, 129, 230], 'p': [0, 1, 31], 'k': [1, 2, 20]}, bounded='long previews at the stated places')
def far(n, t, c, p, k, array_, d):
    """looking far ahead, then taking k items, looking again and taking the rest"""
    assume(t + c <= n and p <= c)
    ops = [0] * t + [1] * c + [2] + [1] * p + [0] * k + [1] * 3 + [0]
    run(arr if array_ else same, len(ops), ops, n, d)


ITEMS = [None, 0, '', False, (), [], -1, 'x', StopIteration, 1.5, {}]


@harness(i=Int(0, 10), j=Int(0, 10), n=Int(1, 4), p=Int(0, 4), c=Int(0, 4), o=Ints(4, 0, 2), d=Int(0, 255), split=['i', 'j', 'n', 'p', 'c'],
         quick={'j': [0, 1, 7], 'n': [1, 3], 'p': [0, 2], 'c': [0, 1, 3]}, thorough={'n': [1, 2, 4], 'c': [0, 1, 2, 4]}, bounded='lists of up to 4 items of any kind')
def odd_items(i, j, n, p, c, o, d):
    """items that are not octets"""
    l = [ITEMS[i], d, ITEMS[j], ITEMS[i]][4 - n:]
    assume(c <= n and p <= c)
    ops = [1] * c + [2] + [1] * p + [concrete(x) for x in o[:3]]
    run(same, len(ops), ops, n, l)
