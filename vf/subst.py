"""Equalities implied by a path condition, applied to the two sides of an obligation."""
from fractions import Fraction
from .terms import *
from . import terms as T


def equalities(pc):
    """(int map: atom idx -> IT/int, real map: RT var id -> term)"""
    im, rm = {}, {}

    def bind(d):
        # d == 0
        d = si(d, im)
        if not isinstance(d, IT):
            return
        al = IAtom.all
        # all terms pinned at a bound
        if d.lo == 0:
            for i, k in d.lin:
                put(i, al[i].lo if k > 0 else al[i].hi)
            return
        if d.hi == 0:
            for i, k in d.lin:
                put(i, al[i].hi if k > 0 else al[i].lo)
            return
        for i, k in sorted(d.lin, key=lambda x: -x[0]):
            if k in (1, -1) and al[i].kind == 'var':
                rest = T.mk_lin(dict((j, c) for j, c in d.lin if j != i), d.c)
                put(i, i_scale(rest, -k))
                return

    def put(i, v):
        if i in im:
            return
        for j in list(im):
            im[j] = si(im[j], {i: v})
        im[i] = v

    def leaf(b):
        if b.op == 'and':
            for x in b.args:
                if not isinstance(x, bool):
                    leaf(x)
        elif b.op == 'ieq':
            bind(b.args[0])
        elif b.op == 'not' and b.args[0].op == 'ilt':
            d = si(b.args[0].args[0], im)          # d >= 0
            if isinstance(d, IT) and d.hi == 0:
                bind(d)
        elif b.op == 'not' and b.args[0].op == 'or':
            for x in b.args[0].args:
                leaf(b_not(x))
        elif b.op == 'ilt':
            d = si(b.args[0], im)                  # d <= -1
            if isinstance(d, IT) and d.lo == -1:
                bind(i_add(d, 1))
        elif b.op == 'req':
            x, y = b.args
            memo = {}
            x, y = sr(x, im, rm, memo), sr(y, im, rm, memo)
            for u, v in ((x, y), (y, x)):
                if isinstance(u, RT) and u.op == 'var' and not occurs(u, v):
                    m = {u.id: v}
                    mm = {}
                    for k in list(rm):
                        rm[k] = sr(rm[k], {}, m, mm)
                    rm[u.id] = v
                    break

    for _ in range(2):
        for b in pc:
            if not isinstance(b, bool):
                leaf(b)
    return im, rm


def occurs(v, t):
    seen = set()
    todo = [t]
    while todo:
        u = todo.pop()
        if isinstance(u, RT) and u.id not in seen:
            seen.add(u.id)
            if u is v:
                return True
            todo.extend(u.args)
    return False


def si(t, im):
    if not isinstance(t, IT) or not im:
        return t
    r = t.c
    for i, k in t.lin:
        a = IAtom.all[i]
        if i in im:
            x = im[i]
        elif a.kind == 'var':
            x = IT(((i, 1),), 0)
        elif a.kind == 'mul':
            x = i_mul(si(a.args[0], im), si(a.args[1], im))
        elif a.kind == 'div':
            x = i_div(si(a.args[0], im), a.args[1])
        else:
            x = i_mod(si(a.args[0], im), a.args[1])
        r = i_add(r, i_scale(x, k))
    return r


def sr(t, im, rm, memo):
    if not isinstance(t, RT):
        return t
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in memo:
            stack.pop()
            continue
        if u.op == 'var':
            memo[u.id] = rm.get(u.id, u)
        elif u.op == 'toreal':
            memo[u.id] = r_int(si(u.args[0], im))
        elif u.op == 'table':
            memo[u.id] = r_table(u.args[0], si(u.args[1], im))
        elif u.op == 'pi':
            memo[u.id] = u
        else:
            pend = [x for x in u.args if isinstance(x, RT) and x.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            a = [memo[x.id] if isinstance(x, RT) else x for x in u.args]
            if all(x is y for x, y in zip(a, u.args)):
                memo[u.id] = u
            elif u.op == 'add':
                memo[u.id] = r_add(*a)
            elif u.op == 'sub':
                memo[u.id] = r_sub(*a)
            elif u.op == 'mul':
                memo[u.id] = r_mul(*a)
            elif u.op == 'div':
                memo[u.id] = r_div(*a)
            else:
                memo[u.id] = r_fn(u.op, *a)
        stack.pop()
    return memo[t.id]
