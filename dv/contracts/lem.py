"""Lemmas about distances and strings (ghost code of C06 and C07).

Each lemma is proved once, for arbitrary points, by `lemmas`; the other
functions state the hypotheses of an instance as obligations and give its
conclusion to the rest of the proof."""


def dist(c, p, q):
    return c.M.sqrt((q[1] - p[1]) ** 2 + (q[0] - p[0]) ** 2)


def cr(p, q, r):
    """> 0: r lies to the left of the line from p to q"""
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def hidden(g, p, o, s):
    """the line of sight from p to the ground point g passes above o, the
    low end of the row on the left (s = 1) or on the right (s = -1)"""
    return s * ((o[0] - g[0]) * (p[1] - g[1]) -
                (o[1] - g[1]) * (p[0] - g[0])) > 0


def path(c, p, g, o, s):
    """length of the string from p to g that passes below o"""
    if o is None:
        return dist(c, p, g)
    return c.M.ite(hidden(g, p, o, s), dist(c, g, o) + dist(c, o, p),
                   dist(c, p, g))


# ------------------------------------------------------------- instances
def triangle(c, p, q, r):
    give(c, dist(c, p, r) <= dist(c, p, q) + dist(c, q, r))


def give(c, f):
    c.fact(f)
    c.eng.kept.append(f)


def need(c, cond):
    return c.ok('hypotheses of a lemma', cond, keep=True)


def crossing(c, h, b, l, a, s):
    """the segments h-b and l-a cross: |hb| + |la| >= |ha| + |lb|"""
    good = [need(c, s * cr(l, a, h) <= 0), need(c, s * cr(l, a, b) >= 0),
            need(c, s * cr(h, b, l) >= 0), need(c, s * cr(h, b, a) <= 0),
            need(c, c.M.and_(s * (cr(l, a, b) - cr(l, a, h)) > 0,
                             s * (cr(h, b, l) - cr(h, b, a)) > 0))]
    if all(good):
        give(c, dist(c, h, b) + dist(c, l, a) >=
               dist(c, h, a) + dist(c, l, b))


def contained(c, h, x, l, o, s):
    """o lies in the triangle h, x, l: |ho| + |ox| <= |hl| + |lx|"""
    good = [need(c, s * cr(h, x, l) > 0), need(c, s * cr(h, x, o) >= 0),
            need(c, s * cr(x, l, o) >= 0), need(c, s * cr(l, h, o) >= 0)]
    if all(good):
        give(c, dist(c, h, o) + dist(c, o, x) <=
               dist(c, h, l) + dist(c, l, x))


def pocket(c, h, b, l, a, o, s):
    """h-b and l-a cross in X and o lies in the triangle h, X, a"""
    good = [need(c, s * cr(l, a, h) < 0), need(c, s * cr(l, a, b) >= 0),
            need(c, s * cr(h, b, l) >= 0), need(c, s * cr(h, b, a) < 0),
            need(c, s * cr(h, a, o) >= 0), need(c, s * cr(h, b, o) <= 0),
            need(c, s * cr(l, a, o) <= 0)]
    if all(good):
        give(c, dist(c, h, o) + dist(c, o, a) + dist(c, l, b) <=
               dist(c, h, b) + dist(c, l, a))


def cauchy(c, p, q):
    O = (0, 0)
    give(c, dist(c, O, p) * dist(c, O, q) >= p[0] * q[0] + p[1] * q[1])


def quotient(c, m, n, p, X):
    """m n >= n^2 + p, p >= X n, n > 0: m >= n + X"""
    good = [need(c, n > 0), need(c, m * n >= n * n + p), need(c, p >= X * n)]
    if all(good):
        give(c, m >= n + X)


def scaled(c, X, r, z, k):
    """r <= z, X z <= k, X > 0: X r <= k"""
    if all([need(c, X > 0), need(c, r <= z), need(c, X * z <= k)]):
        give(c, X * r <= k)


# ---------------------------------------------------------------- proofs
def norm(c, p, q, t, terms, name):
    """|p - q| <= sum of k |v - w| over terms (k, v, w), from
    p - q = sum of k (v - w), k >= 0"""
    (k1, v1, w1), (k2, v2, w2) = terms
    c.ok(name + ': weights', k1 >= 0, keep=True)
    c.ok(name + ': weights', k2 >= 0, keep=True)
    for i in (0, 1):
        c.eq(name + ': decomposition', p[i] - q[i],
             k1 * (v1[i] - w1[i]) + k2 * (v2[i] - w2[i]), keep=True)
    c.fact(dist(c, p, q) <= k1 * dist(c, v1, w1) + k2 * dist(c, v2, w2))


def lemmas(c):
    """the lemmas, for arbitrary points"""
    if not c.sym:
        return
    c.steps()
    M = c.M
    what = c.choice('lemma', ['cauchy', 'norm', 'triangle', 'crossing',
                              'contained', 'pocket', 'arithmetic'])
    if what == 'arithmetic':
        return arithmetic(c)
    v = lambda n: c.num(n, None, None)
    pt = lambda n: (v(n + 'x'), v(n + 'y'))
    O = (0, 0)
    if what == 'cauchy':
        p, q = pt('p'), pt('q')
        c.ok('lemma cauchy', dist(c, O, p) * dist(c, O, q) >=
             p[0] * q[0] + p[1] * q[1])
        return
    if what == 'norm':
        # |k p + m q| <= k |p| + m |q|
        p, q = pt('p'), pt('q')
        k, m = c.num('k', 0., None), c.num('m', 0., None)
        c.fact(dist(c, O, p) * dist(c, O, q) >= p[0] * q[0] + p[1] * q[1])
        c.ok('lemma norm', dist(c, O, (k * p[0] + m * q[0],
                                       k * p[1] + m * q[1])) <=
             k * dist(c, O, p) + m * dist(c, O, q))
        return
    h, b, l, a, o = (pt(n) for n in 'hblao')
    s = c.choice('side', [1, -1])
    if what == 'triangle':
        norm(c, h, a, None, [(1, h, b), (1, b, a)], 'lemma triangle')
        c.ok('lemma triangle', dist(c, h, a) <=
             dist(c, h, b) + dist(c, b, a))
        return
    if what == 'contained':
        x = a
        t = s * cr(h, x, l)
        c.fact(t > 0)
        for y in (s * cr(h, x, o), s * cr(x, l, o), s * cr(l, h, o)):
            c.fact(y >= 0)
        wl, wh = cr(h, x, o) / cr(h, x, l), cr(x, l, o) / cr(x, l, h)
        wx = cr(l, h, o) / cr(l, h, x)
        c.eq('lemma contained: weights sum to one', wl + wh + wx, 1,
             keep=True)
        norm(c, h, o, None, [(wl, h, l), (wx, h, x)], 'lemma contained')
        norm(c, o, x, None, [(wh, h, x), (wl, l, x)], 'lemma contained')
        triangle(c, h, l, x)
        # arithmetic 1
        c.fact(dist(c, h, o) + dist(c, o, x) <=
               dist(c, h, l) + dist(c, l, x))
        return
    # crossing of h-b and l-a in X = h + alpha (b - h) = l + beta (a - l)
    hh, bb, ll, aa = cr(l, a, h), cr(l, a, b), cr(h, b, l), cr(h, b, a)
    strict = what == 'pocket'
    c.fact(s * hh < 0 if strict else s * hh <= 0)
    c.fact(s * bb >= 0)
    c.fact(s * ll >= 0)
    c.fact(s * aa < 0 if strict else s * aa <= 0)
    c.fact(s * (bb - hh) > 0)
    c.fact(s * (ll - aa) > 0)
    al, al1 = hh / (hh - bb), bb / (bb - hh)
    be, be1 = ll / (ll - aa), aa / (aa - ll)
    c.eq('lemma crossing: weights sum to one', al + al1, 1, keep=True)
    c.eq('lemma crossing: weights sum to one', be + be1, 1, keep=True)
    norm(c, h, a, None, [(al, h, b), (be1, l, a)], 'lemma crossing')
    norm(c, l, b, None, [(be, l, a), (al1, h, b)], 'lemma crossing')
    if what == 'crossing':
        # arithmetic 2
        c.fact(dist(c, h, a) + dist(c, l, b) <=
               dist(c, h, b) + dist(c, l, a))
        return
    for y in (s * cr(h, a, o) >= 0, s * cr(h, b, o) <= 0,
              s * cr(l, a, o) <= 0):
        c.fact(y)
    w1, w3 = cr(l, a, o) / hh, cr(h, b, o) / aa
    X = (h[0] + al * (b[0] - h[0]), h[1] + al * (b[1] - h[1]))
    w2 = cr(h, a, o) / (al * cr(h, a, b))
    c.ok('lemma pocket: orientation', s * cr(h, a, b) > 0, keep=True)
    c.eq('lemma pocket: weights sum to one', w1 + w2 + w3, 1, keep=True)
    norm(c, h, o, None, [(w2 * al, h, b), (w3, h, a)], 'lemma pocket')
    norm(c, o, a, None, [(w1, h, a), (w2 * be1, l, a)], 'lemma pocket')
    # arithmetic 3
    c.fact(dist(c, h, o) + dist(c, o, a) + dist(c, l, b) <=
           dist(c, h, b) + dist(c, l, a))


def arithmetic(c):
    """the last steps of contained, crossing and pocket: what the bounds
    they established amount to, for any weights and any distances"""
    v = lambda n: c.num(n, 0., None)
    k = c.choice('step', [1, 2, 3, 4, 5])
    if k >= 4:
        w = lambda n: c.num(n, None, None)
        if k == 4:
            m, n, p, X = w('m'), w('n'), w('p'), w('X')
            for f in (n > 0, m * n >= n * n + p, p >= X * n):
                c.fact(f)
            c.ok('lemma arithmetic quotient', m >= n + X)
        else:
            X, r, z, q = w('X'), w('r'), w('z'), w('q')
            for f in (X > 0, r <= z, X * z <= q):
                c.fact(f)
            c.ok('lemma arithmetic scaled', X * r <= q)
        return
    ho, oa, hl, ha, la, hb, lb = (v(n) for n in (
        'ho', 'oa', 'hl', 'ha', 'la', 'hb', 'lb'))
    w1, w2, w3, al, be = (v(n) for n in ('w1', 'w2', 'w3', 'al', 'be'))
    if k == 1:      # w1: h, w2: l, w3: x = a
        c.fact(w1 + w2 + w3 == 1)
        c.fact(ho <= w2 * hl + w3 * ha)
        c.fact(oa <= w1 * ha + w2 * la)
        c.fact(ha <= hl + la)
        c.ok('lemma arithmetic contained', ho + oa <= hl + la)
        return
    c.fact(al <= 1)
    c.fact(be <= 1)
    c.fact(ha <= al * hb + (1 - be) * la)
    c.fact(lb <= be * la + (1 - al) * hb)
    if k == 2:
        c.ok('lemma arithmetic crossing', ha + lb <= hb + la)
        return
    c.fact(w1 + w2 + w3 == 1)
    c.fact(ho <= w2 * al * hb + w3 * ha)
    c.fact(oa <= w1 * ha + w2 * (1 - be) * la)
    c.ok('lemma arithmetic pocket', ho + oa + lb <= hb + la)
