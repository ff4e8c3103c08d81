"""Traversals of immutable objects under way at the same time: every way of advancing them alternately"""
import itertools


def orders(a, b):
    """Every order of a steps of the first and b of the second"""
    for at in itertools.combinations(range(a + b), a):
        chosen = set(at)
        yield [0 if i in chosen else 1 for i in range(a + b)]


def bursts(a, b, runs=4):
    """The orders of a steps of the first and b of the second that change between them fewer than so many times"""
    def cut(n, k):
        return itertools.combinations(range(1, n), k - 1)
    for first in (0, 1):
        for k in range(2, runs + 1):
            n = [a, b]
            mine, others = (k + 1) // 2, k // 2
            for x in cut(n[first], mine):
                for y in cut(n[1 - first], others):
                    x_, y_ = (0,) + x + (n[first],), (0,) + y + (n[1 - first],)
                    out = []
                    for i in range(k):
                        w, z = (first, x_) if i % 2 == 0 else (1 - first, y_)
                        out += [w] * (z[i // 2 + 1] - z[i // 2])
                    yield out


def alternate(ctx, what, starts, reads, key, late=False, orders=orders):
    """Advance two traversals (function starting one, what it gives) in every order, another use after each step; late: begin them when first advanced"""
    (f, want), (g, other) = starts
    for order in orders(len(want) + 1, len(other) + 1):
        ctx.cur = [key, order]
        its = [None, None] if late else [iter(f()), iter(g())]
        got = [[], []]
        for step, w in enumerate(order):
            if its[w] is None:
                its[w] = iter((f, g)[w]())
            v = next(its[w], StopIteration)
            if v is not StopIteration:
                got[w].append(v)
            elif len(got[w]) != len((want, other)[w]):
                ctx.fail(what + ':ended-early', 'a traversal ends early while another is under way', got=got[w], want=(want, other)[w], order=order)
            if reads:
                read, expected = reads[step % len(reads)]
                ctx.eq(read(), expected, what + ':read-meanwhile', order=order, step=step)
            ctx.step()
        ctx.eq(got, [want, other], what, order=order)
        ctx.state(key, len(want), len(other), late)
    ctx.trace([key, len(want), len(other)])
