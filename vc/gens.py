"""Seeded generators of calls (the wide-range complement of the calls that the
model checker enumerates).  They know nothing about results."""


def ri(r, lo, hi):
    return r.randint(lo, hi)


def vec(r, n, lo=-9, hi=9):
    return [r.randint(lo, hi) for _ in range(n)]


def nz(r, lo, hi):
    x = 0
    while x == 0:
        x = r.randint(lo, hi)
    return x


def distinct_vec(r, n, m=40):
    """pairwise different magnitudes, so that swapped elements or signs show"""
    return [x * r.choice([-1, 1]) for x in r.sample(range(1, max(m, 2 * n + 1)), n)]


def big_sizes(r, k):
    """sizes well beyond those with code of their own"""
    return [r.choice([12, 13, 14, 15, 16]), r.choice([17, 18, 19, 21, 23]), r.choice([31, 32, 33, 35])][:k]


def elem_vec0(r, scale):
    out = []
    for op in ("vadd", "vsub", "vhad"):
        out.append(dict(op=op, a=[], b=[], den=1, wide=0))
    for w in range(5):
        out.append(dict(op="vpm", which=w, a=[], b=[], den=1, wide=0))
    for w in range(4):
        out.append(dict(op="vin", which=w, a=[], s=3, e=0, den=1, wide=0))
    for op in ("vneg", "vmuls", "vdivs"):
        out.append(dict(op=op, a=[], s=3, den=1, wide=0))
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 11] + big_sizes(r, 3):
        for rep in range(max(1, int((4 if n <= 5 else 2 if n < 12 else 1) * scale))):
            mode = rep % 4 if n < 12 else 3
            den, wide = (1, 0) if mode == 0 else (r.choice([2, 4, 8]), 0) if mode == 1 else (1, 1) if mode == 2 else (1, 0)
            if mode == 2:
                def v(): return [r.randrange(2**24 + 1, 2**29, 2) * r.choice([-1, 1]) for _ in range(n)]
            elif mode == 3:
                def v(): return distinct_vec(r, n)
            else:
                def v(): return vec(r, n, -99, 99)
            base = dict(den=den, wide=wide)
            out.append(dict(op="vadd", a=v(), b=v(), **base))
            out.append(dict(op="vsub", a=v(), b=v(), **base))
            out.append(dict(op="vneg", a=v(), **base))
            for w in range(5):
                out.append(dict(op="vpm", which=w, a=v(), b=v(), **base))
            s = nz(r, -9, 9) if not wide else r.choice([-3, 3, 2, -1])
            out.append(dict(op="vmuls", a=v(), s=s, **base))
            if wide:
                out.append(dict(op="vin", which=0, a=v(), s=s, e=0, **base))
            else:
                out.append(dict(op="vhad", a=v(), b=v(), **base))
                out.append(dict(op="vdivs", a=v(), s=s, **base))
                for w in range(4):
                    out.append(dict(op="vin", which=w, a=v(), s=nz(r, -9, 9), e=0, **base))
                for w in (5, 6, 7):
                    out.append(dict(op="vin", which=w, a=v(), s=r.randrange(n), e=ri(r, -50, 50), **base))
                out.append(dict(op="vin", which=4, a=v(), s=r.randrange(n), e=0, **base))
                for w in (8, 9, 10, 11) + ((12,) if 2 <= n <= 4 else ()):
                    out.append(dict(op="vin", which=w, a=distinct_vec(r, n), s=r.randrange(n), e=0, **base))
            # equal and opposite operands
            a = v()
            out.append(dict(op="vsub", a=a, b=list(a), **base))
            out.append(dict(op="vpm", which=r.choice([2, 3]), a=a, b=[-x for x in a], **base))
    return out


def mixed(r, n, m=None):
    """(a, b, den): over den, one of them whole and the other not"""
    d = r.choice([2, 4, 8])
    def whole(k): return [x * d for x in distinct_vec(r, k, 30)]
    def part(k): return [x * d + r.randrange(1, d) for x in distinct_vec(r, k, 30)]
    return (whole(n), part(m or n), d) if r.random() < 0.5 else (part(n), whole(m or n), d)


def with_sd(calls):
    for c in calls:
        c.setdefault("sd", 1)
    return calls


def elem_vec(r, scale):
    out = elem_vec0(r, scale)
    for n in (1, 2, 3, 4, 5, 7):
        for rep in range(max(1, int(2 * scale))):
            for op in ("vadd", "vsub", "vhad"):
                a, b, d = mixed(r, n)
                out.append(dict(op=op, a=a, b=b, den=d, wide=0))
            for w in range(5):
                a, b, d = mixed(r, n)
                out.append(dict(op="vpm", which=w, a=a, b=b, den=d, wide=0))
            for a, d in ((distinct_vec(r, n), 1), mixed(r, n)[::2]):
                sd = r.choice([2, 4, 8])
                s = 2 * r.randint(-20, 20) + 1
                out += [dict(op=op, a=a, s=s, sd=sd, den=d, wide=0) for op in ("vmuls", "vdivs")]
                out += [dict(op="vin", which=w, a=a, s=s, sd=sd, e=0, den=d, wide=0) for w in (0, 1)]
    return with_sd(out)


def elem_mat(r, scale):
    out = elem_mat0(r, scale)
    for R, C in ((2, 3), (2, 2), (3, 3), (4, 4), (1, 4), (5, 2)):
        n = R * C
        for rep in range(max(1, int(scale))):
            for op in ("madd", "msub", "mhad"):
                a, b, d = mixed(r, n)
                out.append(dict(op=op, a=a, b=b, r=R, c=C, den=d, wide=0))
            for w in (0, 1, 4):
                a, b, d = mixed(r, n)
                out.append(dict(op="mpm", which=w, a=a, b=b, r=R, c=C, den=d, wide=0))
            a, d = (distinct_vec(r, n), 1) if r.random() < 0.5 else mixed(r, n)[::2]
            sd = r.choice([2, 4, 8])
            s = 2 * r.randint(-20, 20) + 1
            out += [dict(op=op, a=a, s=s, sd=sd, r=R, c=C, den=d, wide=0) for op in ("mmuls", "mdivs")]
            out += [dict(op="min", which=w, a=a, s=s, sd=sd, r=R, c=C, den=d, wide=0) for w in (0, 1)]
    return with_sd(out)


def elem_mat0(r, scale):
    out = []
    big = big_sizes(r, 3)
    shapes = [(2, 3), (2, 2), (3, 2), (3, 3), (1, 4), (4, 4), (4, 1), (1, 1), (5, 3), (6, 7), (big[0], r.randint(8, 11)), (r.randint(2, 5), big[1]), (big[2], r.randint(1, 3))]
    for (R, C) in [(0, 0), (0, 3), (2, 0)]:
        base = dict(den=1, wide=0, r=R, c=C)
        for op in ("madd", "msub", "mhad", "mneg", "mmuls", "mdivs"):
            out.append(dict(op=op, a=[], b=[], s=2, **base))
        for w in (0, 1, 4):
            out.append(dict(op="mpm", which=w, a=[], b=[], **base))
        for w in range(4):
            out.append(dict(op="min", which=w, a=[], s=2, **base))
    for (R, C) in shapes:
        n = R * C
        for rep in range(max(1, int((3 if n < 36 else 1) * scale))):
            mode = rep % 3
            den, wide = (1, 0) if mode == 0 else (r.choice([2, 4]), 0) if mode == 1 else (1, 1)

            def v():
                if wide:
                    return [r.randrange(2**24 + 1, 2**29, 2) * r.choice([-1, 1]) for _ in range(n)]
                return distinct_vec(r, n, 90)
            base = dict(den=den, wide=wide, r=R, c=C)
            out.append(dict(op="madd", a=v(), b=v(), **base))
            out.append(dict(op="msub", a=v(), b=v(), **base))
            out.append(dict(op="mneg", a=v(), **base))
            for w in (0, 1, 4):
                out.append(dict(op="mpm", which=w, a=v(), b=v(), **base))
            s = nz(r, -9, 9) if not wide else 3
            out.append(dict(op="mmuls", a=v(), s=s, **base))
            if not wide:
                out.append(dict(op="mhad", a=v(), b=v(), **base))
                out.append(dict(op="mdivs", a=v(), s=s, **base))
                for w in range(4):
                    out.append(dict(op="min", which=w, a=v(), s=nz(r, -9, 9), **base))
                for w in (8, 9, 10, 11):
                    out.append(dict(op="min", which=w, a=v(), s=r.randrange(n), **base))
    return out


def square_vec(r, n, m=20):
    """integer vector of integer length"""
    while True:
        a = [r.randint(-m, m) for _ in range(n)]
        q = sum(x * x for x in a)
        s = int(q ** 0.5 + 0.5)
        if q and s * s == q:
            return a


UNITS3 = [((1, 2, 2), 3), ((2, 3, 6), 7), ((1, 4, 8), 9), ((4, 4, 7), 9), ((2, 6, 9), 11), ((0, 3, 4), 5), ((0, 5, 12), 13), ((0, 0, 1), 1)]
UNITS2 = [((3, 4), 5), ((5, 12), 13), ((8, 15), 17), ((0, 1), 1), ((7, 24), 25)]


def unit(r, n):
    t, d = r.choice(UNITS3 if n == 3 else UNITS2)
    t = list(t)
    r.shuffle(t)
    return [x * r.choice([-1, 1]) for x in t], d


def prod_vec(r, scale):
    out = []
    reps = max(1, int(5 * scale))
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 9] + big_sizes(r, 3):
        for rep in range(reps if n < 7 else max(1, reps // 3)):
            den = 1 if rep % 2 == 0 else r.choice([2, 4, 8])
            b = dict(den=den, wide=0)
            out.append(dict(op="dot", a=distinct_vec(r, n), b=distinct_vec(r, n), **b))
            out.append(dict(op="lensq", a=distinct_vec(r, n), **b))
            out.append(dict(op="manhattan", a=distinct_vec(r, n), b=distinct_vec(r, n), **b))
            sv = square_vec(r, n)
            out.append(dict(op="length", a=sv, **b))
            out.append(dict(op="normalize", a=square_vec(r, n), **b))
            # nearly of unit length
            t = [x * r.choice([-1, 1]) for x in r.choice([(6, 8), (8, 15), (5, 12), (1, 2, 2), (2, 3, 6), (4, 4, 7), (1, 1, 3, 5), (2, 4, 5, 6)])]
            if n >= len(t):
                m = round(1000 / sum(x * x for x in t) ** 0.5)
                x = [v * m for v in t] + [0] * (n - len(t))
                r.shuffle(x)
                out.append(dict(op="normalize", a=x, **dict(b, den=1000)))
            out.append(dict(op="projv", a=distinct_vec(r, n), b=distinct_vec(r, n), **b))
            if n >= 2:
                out.append(dict(op="subvector", a=distinct_vec(r, n), i=r.randrange(n), **b))
            m = r.choice([1, 2, 3, 4, 5])
            out.append(dict(op="outer", a=distinct_vec(r, n), b=distinct_vec(r, m), **b))
            if n > 9:
                continue
            # full-width integers: one large factor per term
            w = [r.randrange(2**24 + 1, 2**26, 2) * r.choice([-1, 1]) for _ in range(n)]
            u = [r.choice([-1, 1, 3, -3]) for _ in range(n)]
            out.append(dict(op="dot", a=w, b=u, den=1, wide=1))
            out.append(dict(op="manhattan", a=w, b=[x + r.randrange(1, 9) for x in w], den=1, wide=1))
            out.append(dict(op="outer", a=w, b=[1, -3, 5], den=1, wide=1))
    for n in (1, 2, 3, 4, 5):
        for rep in range(reps):
            for op in ("dot", "manhattan", "outer") + (("cross",) if n == 3 else ()) + (("perp_dot",) if n == 2 else ()):
                a, b, d = mixed(r, n)
                out.append(dict(op=op, a=a, b=b, den=d, wide=0))
    for rep in range(reps * 6):
        den = 1 if rep % 2 == 0 else r.choice([2, 4, 8])
        b = dict(den=den, wide=0)
        out.append(dict(op="cross", a=distinct_vec(r, 3), b=distinct_vec(r, 3), **b))
        out.append(dict(op="triple", a=distinct_vec(r, 3), b=distinct_vec(r, 3), c=distinct_vec(r, 3), **b))
        out.append(dict(op="perp_dot", a=distinct_vec(r, 2), b=distinct_vec(r, 2), **b))
        out.append(dict(op="perp", a=distinct_vec(r, 2), **b))
        w = [r.randrange(2**24 + 1, 2**26, 2) * r.choice([-1, 1]) for _ in range(3)]
        out.append(dict(op="cross", a=w, b=vec(r, 3, -3, 3), den=1, wide=1))
        out.append(dict(op="cross", b=w, a=vec(r, 3, -3, 3), den=1, wide=1))
        out.append(dict(op="perp_dot", a=w[:2], b=vec(r, 2, -5, 5), den=1, wide=1))
        out.append(dict(op="triple", a=w, b=vec(r, 3, -2, 2), c=vec(r, 3, -2, 2), den=1, wide=1))
        for n in (2, 3):
            t, d = unit(r, n)
            out.append(dict(op="projh", a=[x * d for x in distinct_vec(r, n, 12)], b=t, den=d, wide=0))
    return out


def det(m):
    from fractions import Fraction
    n = len(m)
    a = [[Fraction(x) for x in row] for row in m]
    d = Fraction(1)
    for k in range(n):
        p = next((i for i in range(k, n) if a[i][k] != 0), None)
        if p is None:
            return 0
        if p != k:
            a[k], a[p] = a[p], a[k]
            d = -d
        d *= a[k][k]
        for i in range(k + 1, n):
            f = a[i][k] / a[k][k]
            for j in range(k, n):
                a[i][j] -= f * a[k][j]
    return int(d)


def leading_ok(m):
    return all(det([row[:k] for row in m[:k]]) != 0 for k in range(1, len(m) + 1))


def flat(m):
    return [x for row in m for x in row]


MODES = 19


def square_mat(r, n, mode=None, lim=9):
    """an integer matrix with a structure that selects particular code paths"""
    mode = mode if mode is not None else r.randrange(MODES)
    if mode == 0:      # dense
        m = [[r.randint(-lim, lim) for _ in range(n)] for _ in range(n)]
    elif mode == 1:    # sparse
        m = [[r.choice([0, 0, 0, r.randint(-lim, lim)]) for _ in range(n)] for _ in range(n)]
    elif mode == 2:    # signed permutation
        p = list(range(n))
        r.shuffle(p)
        m = [[r.choice([1, -1, 2, -2]) if p[i] == j else 0 for j in range(n)] for i in range(n)]
    elif mode == 3:    # permuted triangular
        p = list(range(n))
        r.shuffle(p)
        t = [[0 if j < i else (r.choice([-2, -1, 1, 2]) if i == j else r.randint(-3, 3)) for j in range(n)] for i in range(n)]
        m = [t[p[i]] for i in range(n)]
    elif mode == 4:    # diagonal with wide spread and signs
        m = [[r.choice([1, -1]) * r.choice([1, 2, 4, 8]) if i == j else 0 for j in range(n)] for i in range(n)]
    elif mode == 5:    # zero diagonal
        m = [[0 if i == j else r.randint(-4, 4) for j in range(n)] for i in range(n)]
    elif mode == 6:    # diagonally dominant
        m = [[r.choice([-1, 1]) * (3 * n + r.randint(0, 3)) if i == j else r.randint(-2, 2) for j in range(n)] for i in range(n)]
    elif mode in (8, 9):   # last row (column) zero but for the corner
        m = [[r.randint(-lim, lim) for _ in range(n)] for _ in range(n)]
        m[n - 1] = [0] * (n - 1) + [r.choice([1, 1, 2, -3])]
        m = m if mode == 8 else [[m[j][i] for j in range(n)] for i in range(n)]
    elif mode == 10:   # two diagonal blocks
        k = r.randint(0, n)
        m = [[r.randint(-5, 5) if (i < k) == (j < k) else 0 for j in range(n)] for i in range(n)]
    elif mode in (11, 12):  # triangular
        m = [[0 if j < i else (r.choice([-3, -1, 1, 2, 5]) if i == j else r.randint(-3, 3)) for j in range(n)] for i in range(n)]
        m = m if mode == 11 else [[m[j][i] for j in range(n)] for i in range(n)]
    elif mode == 13:   # first row and column zero but for the corner
        m = [[r.randint(-lim, lim) if (i == 0) == (j == 0) else 0 for j in range(n)] for i in range(n)]
    elif mode == 14:   # rows +-1
        m = [[r.choice([-1, 1]) for _ in range(n)] for _ in range(n)]
    elif mode == 15:   # identity plus skew-symmetric
        u = [[r.randint(-4, 4) for _ in range(n)] for _ in range(n)]
        m = [[1 if i == j else (u[i][j] if i < j else -u[j][i]) for j in range(n)] for i in range(n)]
    elif mode == 16:   # identity plus rank one
        u, w = vec(r, n, -3, 3), vec(r, n, -3, 3)
        m = [[(i == j) + u[i] * w[j] for j in range(n)] for i in range(n)]
    elif mode == 17:   # multiple of the identity
        k = r.choice([1, -1, 2, -3, 4])
        m = [[k * (i == j) for j in range(n)] for i in range(n)]
    elif mode == 18:   # circulant
        u = vec(r, n, -4, 4)
        m = [[u[(j - i) % n] for j in range(n)] for i in range(n)]
    elif mode == 19:   # a signed permutation and a few more elements
        m = square_mat(r, n, 2)
        for _ in range(n // 3):
            m[r.randrange(n)][r.randrange(n)] = r.choice([1, -1, 3])
    else:              # symmetric
        m = [[r.randint(-3, 3) for _ in range(n)] for _ in range(n)]
        m = [[m[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    return m


def det_ok(m):
    d = abs(det(m))
    return d != 0 and d < 10**7


def inv_mat(r, n, mode=None):
    k = 0
    while True:
        m = square_mat(r, n, mode if k < 50 else 0, lim=9 if n <= 4 else 4)
        k += 1
        if det_ok(m):
            return m


def singular_mat(r, n, binary=True):
    """exactly singular also in floating-point elimination"""
    m = square_mat(r, n, 0, 4)
    mode = r.randrange(4) if n > 1 else 1
    i, j = (r.sample(range(n), 2) if n > 1 else (0, 0))
    if mode == 0:
        m[i] = list(m[j])
    elif mode == 1:
        m[i] = [0] * n
    elif mode == 2:
        for row in m:
            row[i] = 0
    else:
        m[i] = [2 * x for x in m[j]]
    return m


def prod_mat(r, scale):
    out = []
    big = big_sizes(r, 3)
    shapes = [(2, 3, 2), (2, 2, 2), (3, 3, 3), (3, 2, 4), (1, 3, 1), (4, 4, 4), (5, 3, 2), (1, 1, 1), (6, 6, 6), (3, 1, 5),
              (2, 7, 3), (3, 8, 2), (2, 9, 2), (8, 5, 9), (7, 7, 7), (9, 9, 9), (3, big[0], 2), (big[1], 3, 2), (2, 3, big[1]), (2, big[1], 2), (1, big[2], 3)]
    for (R, K, C) in shapes:
        for rep in range(max(1, int((4 if R * K * C < 300 else 1) * scale))):
            den = 1 if rep % 2 == 0 else r.choice([2, 4])
            out.append(dict(op="mm", r=R, k=K, c=C, a=distinct_vec(r, R * K, 60), b=distinct_vec(r, K * C, 60), den=den, wide=0))
            if R == K == C:
                out.append(dict(op="mmself", r=R, k=K, c=C, a=distinct_vec(r, R * K, 60), b=distinct_vec(r, K * C, 60), den=den, wide=0))
        for op in ("mm", "mmself") if R == K == C else ("mm",):
            a, b, d = mixed(r, R * K, K * C)
            out.append(dict(op=op, r=R, k=K, c=C, a=a, b=b, den=d, wide=0))
        if K > 9:
            continue
        wd = [r.randrange(2**24 + 1, 2**26, 2) * r.choice([-1, 1]) for _ in range(R * K)]
        out.append(dict(op="mm", r=R, k=K, c=C, a=wd, b=[r.choice([-1, 1, 3]) for _ in range(K * C)], den=1, wide=1))
    for (R, K, C) in [(2, 0, 3), (1, 0, 1), (3, 0, 3), (0, 2, 3), (2, 3, 0), (0, 0, 0)]:
        out.append(dict(op="mm", r=R, k=K, c=C, a=distinct_vec(r, R * K, 60), b=distinct_vec(r, K * C, 60), den=1, wide=0))
    for (R, K) in [(2, 0), (0, 3), (0, 0), (1, 0)]:
        for w in (0, 1):
            out.append(dict(op="mv", which=w, r=R, k=K, a=[], b=distinct_vec(r, K if w == 0 else R), den=1, wide=0))
    for (R, K) in [(2, 3), (3, 3), (4, 4), (2, 2), (4, 3), (1, 5), (5, 1), (6, 5), (1, 1), (8, 7), (7, 9), (3, big[0]), (big[0], 2), (2, big[1]), (big[1], 3), (2, big[2])]:
        for rep in range(max(1, int(4 * scale))):
            den = 1 if rep % 2 == 0 else r.choice([2, 4])
            for w in (0, 1):
                out.append(dict(op="mv", which=w, r=R, k=K, a=distinct_vec(r, R * K, 60), b=distinct_vec(r, K if w == 0 else R), den=den, wide=0))
            for w in (0, 1):
                a, b, d = mixed(r, R * K, K if w == 0 else R)
                out.append(dict(op="mv", which=w, r=R, k=K, a=a, b=b, den=d, wide=0))
        for w in (0, 1) if max(R, K) < 10 else ():
            wd = [r.randrange(2**24 + 1, 2**26, 2) * r.choice([-1, 1]) for _ in range(R * K)]
            out.append(dict(op="mv", which=w, r=R, k=K, a=wd, b=[r.choice([-1, 1, 3]) for _ in range(K if w == 0 else R)], den=1, wide=1))
    return out


def linalg(r, scale):
    out = []
    for (R, C) in [(1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (2, 3), (4, 3), (3, 5), (1, 6), (7, 7), (8, 9), (13, 4), (3, 17), (12, 12)]:
        for rep in range(max(1, int(2 * scale))):
            b = dict(r=R, c=C, den=1 if rep % 2 == 0 else 4, wide=0)
            out.append(dict(op="transpose", a=distinct_vec(r, R * C, 90), **b))
            if R == C:
                out.append(dict(op="trace", a=distinct_vec(r, R * C, 90), **b))
            if R >= 2 and C >= 2:
                out.append(dict(op="trace22", a=distinct_vec(r, R * C, 90), **b))
            if R >= 3 and C >= 3:
                out.append(dict(op="trace33", a=distinct_vec(r, R * C, 90), **b))
    for n in list(range(1, 9)) + [9, r.choice([10, 11]), 12]:
        for mode in range(MODES) if n <= 6 else (2, 3, 4, 10, 11, 12) if n <= 8 else (2, 4, 19, 19):
            for rep in range(max(1, int((1 if n > 4 or mode >= 8 else 2) * scale))):
                pw = r.choice([0, 0, 1, -1]) * {1: 20, 2: 20, 3: 20, 4: 14, 5: 11}.get(n, 8)
                m = square_mat(r, n, mode, 9 if n <= 5 else 4)
                out.append(dict(op="det", r=n, c=n, a=flat(m), den=1, wide=0, pow=pw))
                m = inv_mat(r, n, mode)
                out.append(dict(op="inverse", r=n, c=n, a=flat(m), den=1, wide=0, pow=pw))
        for rep in range(max(1, int(3 * scale))) if n < 9 else ():
            out.append(dict(op="det", r=n, c=n, a=flat(singular_mat(r, n)), den=1, wide=0, pow=0))
    return out


def lu_calls(r, scale):
    out = []
    for n in list(range(1, 7)) + [7, r.choice([8, 9])]:
        for mode in range(MODES) if n <= 6 else (2, 4, 19):
            for rep in range(max(1, int((1 if n > 4 or mode >= 8 else 2) * scale))):
                pw = r.choice([0, 0, 1, -1]) * {1: 20, 2: 20, 3: 20, 4: 14, 5: 11}.get(n, 8)
                b = dict(r=n, c=n, den=1, wide=0, pow=pw)
                m = inv_mat(r, n, mode)
                out.append(dict(op="lup", a=flat(m), **b))
                out.append(dict(op="lusolve", which=1, a=flat(m), b=distinct_vec(r, n), **b))
                for _ in range(60):
                    m = inv_mat(r, n, mode if _ < 30 else 6)
                    if leading_ok(m):
                        break
                else:
                    continue
                out.append(dict(op="lu", a=flat(m), **b))
                out.append(dict(op="lusolve", which=0, a=flat(m), b=distinct_vec(r, n), **b))
        for rep in range(max(1, int(5 * scale))) if n < 7 else ():
            m = flat(singular_mat(r, n))
            out.append(dict(op="lup", a=m, r=n, c=n, den=1, wide=0, pow=0))
            out.append(dict(op="lusing", a=m, r=n, c=n, den=1, wide=0, pow=0))
    return out


PYTH = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29), (12, 35, 37), (9, 40, 41), (1, 0, 1), (0, 1, 1), (119, 120, 169)]


def angle(r, allow_special=True):
    """cosine, sine, denominator of an angle anywhere on the circle"""
    while True:
        c, s, d = r.choice(PYTH)
        if r.random() < .5:
            c, s = s, c
        c *= r.choice([-1, 1])
        s *= r.choice([-1, 1])
        if allow_special or (c and s):
            return c, s, d


def quat(r, scale):
    out = []
    reps = max(1, int(8 * scale))
    for rep in range(reps):
        den = 1 if rep % 2 == 0 else r.choice([2, 4, 8])
        b = dict(den=den, wide=0)

        def v(m=40):
            return distinct_vec(r, 4, m)
        out.append(dict(op="qadd", a=v(), b=v(), **b))
        out.append(dict(op="qsub", a=v(), b=v(), **b))
        for neg in (0, 1):
            out.append(dict(op="qmul", neg=neg, a=v(), b=v(), **b))
            out.append(dict(op="qmul3", neg=neg, a=v(9), b=v(9), c=v(9), **b))
            a = v()
            out.append(dict(op="qmul", neg=neg, a=a, b=list(a), **b))
            w = [r.randrange(2**24 + 1, 2**26, 2) * r.choice([-1, 1]) for _ in range(4)]
            out.append(dict(op="qmul", neg=neg, a=w, b=[r.choice([-1, 1, 2, -2]) for _ in range(4)], den=1, wide=1))
            # one part zero, pure and real quaternions
            for k in range(4):
                x = v()
                x[k] = 0
                y = [0] * 4
                y[k] = nz(r, -9, 9)
                out.append(dict(op="qmul", neg=neg, a=x, b=y, **b))
        out.append(dict(op="qdot", a=v(), b=v(), **b))
        for op in ("qadd", "qsub", "qdot", "qmul"):
            x, y, d = mixed(r, 4)
            out.append(dict(op=op, neg=rep // 2 % 2, a=x, b=y, den=d, wide=0))
        out.append(dict(op="qscale", which=0, a=v(), s=nz(r, -9, 9), **b))
        out.append(dict(op="qscale", which=1, a=v(), s=nz(r, -9, 9), **b))
        for w in (0, 1):
            out.append(dict(op="qown", which=w, a=distinct_vec(r, 4), s=r.randrange(4), **b))
        for op in ("qneg", "qconj", "qnorm", "qparts", "qbuild", "qinv"):
            out.append(dict(op=op, a=v(), **b))
        for op in ("qlen", "qnormalize"):
            out.append(dict(op=op, a=square_vec(r, 4), **b))
        out.append(dict(op="qconst", which=rep % 2, a=v(), **b))
    for k in range(4):
        for s in (1, -1):
            y = [0] * 4
            y[k] = s * 3
            out.append(dict(op="qinv", a=y, den=1, wide=0))
            out.append(dict(op="qnormalize", a=y, den=1, wide=0))
    for rep in range(int(40 * scale)):
        c, s, d = angle(r)
        u, du = unit(r, 3)
        p, q = r.choice([(1, 1), (2, 1), (1, 2), (3, 2), (5, 4), (7, 1), (1, 5)])
        out.append(dict(op="qexp", ca=c, sa=s, da=d, k=r.choice([0, 0, 1, -1]), b=u, du=du, p=p, r=q))
        if not (s == 0 and c < 0):
            out.append(dict(op="qlog", ca=c, sa=s, da=d, b=u, du=du, p=p, r=q))
        # large and small quaternions
        out[-1] = dict(out[-1], k2=r.choice([0, 9, 16, -9, -14, -17]))
    # small angles
    for rep in range(int(14 * scale)):
        k = r.choice([20, 50, 100, 200, 300, 1000])
        u, du = unit(r, 3)
        b = dict(ca=k * k - 1, sa=2 * k, da=k * k + 1, b=u, du=du, fm={20: 9, 50: 11, 100: 12, 200: 13, 300: 13, 1000: 15}[k])
        out.append(dict(op="qexp", k=0, p=1, r=r.choice([1, 1, 2]), **b))
        out.append(dict(op="qlog", p=1, r=r.choice([1, 2]), k2=r.choice([0, 5, -5]), **b))
    # nearly unit quaternions
    for rep in range(int(8 * scale)):
        q, d = unit_quat(r)
        m = 1000 // d
        a = [x * m for x in q]
        for op in ("qinv", "qlen", "qnormalize") if m * d != 1000 else ("qinv",):
            out.append(dict(op=op, a=list(a), den=1000, wide=0))
        a = list(a)
        a[r.randrange(4)] += r.choice([-1, 1])
        out.append(dict(op="qinv", a=a, den=1000, wide=0))
    # real quaternions
    for p, q in [(1, 1), (2, 1), (1, 3)]:
        out.append(dict(op="qexp", ca=1, sa=0, da=1, k=0, b=[0, 0, 1], du=1, p=p, r=q))
        out.append(dict(op="qlog", ca=1, sa=0, da=1, b=[0, 0, 1], du=1, p=p, r=q))
    return out


def unit_quat(r, big=False):
    """integer quaternion of integer length (w, x, y, z), den"""
    pool = [((1, 1, 1, 1), 2), ((1, 2, 2, 4), 5), ((2, 4, 5, 6), 9), ((1, 4, 4, 4), 7), ((1, 3, 5, 1), 6), ((2, 2, 4, 5), 7), ((1, 1, 3, 5), 6),
            ((0, 1, 2, 2), 3), ((0, 2, 3, 6), 7), ((0, 0, 3, 4), 5), ((0, 0, 0, 1), 1), ((0, 0, 5, 12), 13), ((2, 5, 6, 4), 9), ((1, 5, 7, 5), 10), ((8, 2, 6, 5), None), ((10, 1, 4, 2), 11), ((0, 1, 4, 8), 9)]
    while True:
        t, d = r.choice(pool)
        if d is None or sum(x * x for x in t) != d * d:
            continue
        t = list(t)
        r.shuffle(t)
        return [x * r.choice([-1, 1]) for x in t], d


def rot_of_quat(q):
    w, x, y, z = q
    return [w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y),
            2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x),
            2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]


HALF = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (1, 0, 1), (0, 1, 1), (8, 15, 17), (15, 8, 17)]


def half(r, small=False):
    c, s, d = r.choice(HALF[:6] if small else HALF)
    return c * r.choice([-1, 1]), s * r.choice([-1, 1]), d


def rot_build(r, scale):
    out = []
    for rep in range(int(25 * scale)):
        c, s, d = angle(r)
        out.append(dict(op="rot2", ca=c, sa=s, da=d, k=r.choice([0, 0, 1, -2])))
        for ax in range(3):
            c, s, d = angle(r)
            out.append(dict(op="rotw", axis=ax, ca=c, sa=s, da=d, k=r.choice([0, 0, 1, -2])))
            c, s, d = half(r)
            out.append(dict(op="qrotw", axis=ax, ca=c, sa=s, da=d, k=r.choice([0, 0, 1, -2])))
        c, s, d = half(r)
        u, du = unit(r, 3)
        out.append(dict(op="rotaa", ca=c, sa=s, da=d, k=r.choice([0, 0, 1, -2]), b=u, du=du))
        c, s, d = half(r)
        u, du = unit(r, 3)
        out.append(dict(op="qrotaa", ca=c, sa=s, da=d, k=r.choice([0, 0, 1, -2]), b=u, du=du))
        q, d = unit_quat(r)
        out.append(dict(op="rotq", a=q, den=d))
        q, d = unit_quat(r)
        u, du = unit(r, 3)
        out.append(dict(op="turn", a=q, den=d, b=[x * 3 for x in u], du=du))
    for order in range(12):
        for rep in range(int(4 * scale)):
            h = [half(r, True) for _ in range(3)]
            e = dict(order=order, ca=[x[0] for x in h], sa=[x[1] for x in h], da=[x[2] for x in h])
            out.append(dict(op="rote", **e))
            out.append(dict(op="qrote", **e))
            # one angle exactly zero (the drivers give it in a narrower type)
            h[rep % 3] = (1, 0, 1)
            e = dict(order=order, ca=[x[0] for x in h], sa=[x[1] for x in h], da=[x[2] for x in h])
            out.append(dict(op="rote", **e))
            out.append(dict(op="qrote", **e))
            if order % 2 == 0:
                for ax in range(3):
                    h = [half(r, True) for _ in range(3)]
                    h[(rep + ax) % 3] = r.choice([h[(rep + ax) % 3], (1, 0, 1)])
                    out.append(dict(op="roted", axis=ax, order=order, ca=[x[0] for x in h], sa=[x[1] for x in h], da=[x[2] for x in h]))
    for rep in range(int(60 * scale)):
        q, d = unit_quat(r)
        out.append(dict(op="qrotm", a=rot_of_quat(q), den=d * d, p=0, pa=0))
    out += rot_bent(r, scale * .5, ("qrotm",))
    return out


def signed_perms():
    """the 24 rotations of the cube"""
    import itertools
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product([1, -1], repeat=3):
            m = [0] * 9
            for i in range(3):
                m[3 * i + p[i]] = s[i]
            dt = (m[0]*(m[4]*m[8]-m[5]*m[7]) - m[1]*(m[3]*m[8]-m[5]*m[6]) + m[2]*(m[3]*m[7]-m[4]*m[6]))
            if dt == 1:
                out.append(m)
    return out


def mul3(a, b):
    return [sum(a[3 * i + k] * b[3 * k + j] for k in range(3)) for i in range(3) for j in range(3)]


def half_turn(r):
    """w = 0: trace -1"""
    u, d = unit(r, 3)
    return [0] + u, d


def rot_bent(r, scale, ops):
    """rotations a little off the identity, half turns, quarter turns and gimbal lock"""
    out = []
    for rep in range(int(20 * scale)):
        for op in ops:
            ps = [p for p in (2, 3, 4, 5, 7)]
            p, pa = ps[rep % 5] * r.choice([-1, 1]), r.randrange(3)
            kind = r.randrange(4)
            if kind == 0:
                q, d = half_turn(r)
            elif kind == 1:
                q, d = r.choice([[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]), 1
            elif kind == 2:
                q, d = [1, 0, 0, 0], 1
            else:
                q, d = unit_quat(r)
                while d > 20:
                    q, d = unit_quat(r)
            if d > 35:
                q, d = [0, 2, 2, 1], 3
            if op in ("qtoaa", "qtoeul"):
                e = dict(op=op, a=q, den=d)
            else:
                m, dd = rot_of_quat(q), d * d
                if op == "toeul" and rep % 2:
                    m, dd = r.choice(signed_perms()), 1
                e = dict(op=op, a=m, den=dd)
            if op != "qrotm":
                e["tol"] = 1
            if op in ("toeul", "qtoeul"):
                for o in range(12):
                    out.append(dict(e, order=o, p=p, pa=r.randrange(3)))
            else:
                out.append(dict(e, p=p, pa=pa))
    return out


def rot_recover(r, scale):
    out = rot_recover0(r, scale)
    for e in out:
        e.update(p=0, pa=0)
    for m in signed_perms():
        out.append(dict(op="qrotm", a=m, den=1, p=0, pa=0))
    for rep in range(max(3, int(20 * scale))):
        b, du = unit(r, 3)
        out.append(dict(op="tinyaa", b=b, du=du, tp=r.randint(16, 160)))
        out.append(dict(op="tinyeul", a=[r.choice([-1, 1]) * r.randint(0, 100) for _ in range(3)], order=r.choice(range(0, 12, 2))))
    return out + rot_bent(r, scale, ("toaa", "qtoaa", "toeul", "qtoeul", "qrotm"))


def rot_recover0(r, scale):
    out = []
    rots = [(m, 1) for m in signed_perms()]
    for rep in range(int(40 * scale)):
        q, d = unit_quat(r)
        rots.append((rot_of_quat(q), d * d))
    for rep in range(int(14 * scale)):
        q, d = half_turn(r)
        rots.append((rot_of_quat(q), d * d))
    for m, d in rots:
        # a half turn is recovered by the degenerate branch when the matrix is exactly symmetric
        out.append(dict(op="toaa", a=m, den=d, tol=0))
        out.append(dict(op="toaa", a=m, den=d, tol=1))
    for rep in range(int(50 * scale)):
        q, d = unit_quat(r) if rep % 3 else half_turn(r)
        out.append(dict(op="qtoaa", a=q, den=d, tol=rep % 2))
    for s in (1, -1):
        for k in range(4):
            q = [0] * 4
            q[k] = s
            for tol in (0, 1):
                out.append(dict(op="qtoaa", a=q, den=1, tol=tol))
                for o in range(12):
                    out.append(dict(op="qtoeul", a=q, den=1, tol=tol, order=o))
    for o in range(12):
        for m in signed_perms():
            out.append(dict(op="toeul", a=m, den=1, tol=0, order=o))
        for rep in range(int(14 * scale)):
            q, d = unit_quat(r)
            out.append(dict(op="toeul", a=rot_of_quat(q), den=d * d, tol=1, order=o))
            q, d = unit_quat(r)
            out.append(dict(op="qtoeul", a=q, den=d, tol=1, order=o))
        # gimbal lock: a cube rotation followed by a turn about one axis
        for rep in range(int(10 * scale)):
            ax = r.randrange(3)
            c, s, d = angle(r)
            w = [0] * 9
            j, k = (ax + 1) % 3, (ax + 2) % 3
            w[3*ax+ax] = d
            w[3*j+j] = w[3*k+k] = c
            w[3*k+j] = s
            w[3*j+k] = -s
            g = r.choice(signed_perms())
            out.append(dict(op="toeul", a=mul3(w, g) if rep % 2 else mul3(g, w), den=d, tol=1, order=o))
    return out


def pre4(r):
    return distinct_vec(r, 16, 60)


def trans_parts(r, scale):
    out = []
    for rep in range(max(1, int(4 * scale))):
        den = [1, 2, 4, 8][rep % 4]
        for dim in (2, 3):
            out.append(dict(op="tset", dim=dim, a=pre4(r), b=distinct_vec(r, dim), den=den))
            out.append(dict(op="tmake", dim=dim, a=pre4(r), b=distinct_vec(r, dim), den=den))
            out.append(dict(op="tget", dim=dim, a=pre4(r)))
            b = distinct_vec(r, dim)
            out.append(dict(op="scale", dim=dim, a=pre4(r), b=b, inv=0, den=den))
            out.append(dict(op="scale", dim=dim, a=pre4(r), b=[b[0]] * dim, inv=0, den=den))
            out.append(dict(op="scale", dim=dim, a=pre4(r), b=distinct_vec(r, dim, 9), inv=1, den=den))
            for tr in (0, 1):
                for i in range(dim):
                    out.append(dict(op="bset", dim=dim, i=i, tr=tr, a=pre4(r), b=distinct_vec(r, dim), den=den))
                    out.append(dict(op="bget", dim=dim, i=i, tr=tr, a=pre4(r)))
                out.append(dict(op="bsets", dim=dim, tr=tr, a=pre4(r), x=distinct_vec(r, dim), y=distinct_vec(r, dim), z=distinct_vec(r, dim)))
            out.append(dict(op="skew", dim=dim, a=pre4(r), b=distinct_vec(r, 3 if dim == 3 else 1), den=den))
        out.append(dict(op="tset", dim=3, a=pre4(r), b=distinct_vec(r, 2), den=den))
        out.append(dict(op="tmake", dim=3, a=pre4(r), b=distinct_vec(r, 2), den=den))
        out.append(dict(op="linear", a=pre4(r), l=distinct_vec(r, 9), den=den))
        out.append(dict(op="affine2", a=pre4(r), l=distinct_vec(r, 9), t=distinct_vec(r, 3), den=den))
        for norm in (0, 1):
            c, s, d = half(r)
            u, du = unit(r, 3)
            out.append(dict(op="affine", a=pre4(r), ca=c, sa=s, da=d, b=u, du=du, t=distinct_vec(r, 3), norm=norm, den=du))
        for hand in (0, 1):
            q, d = unit_quat(r)
            R = rot_of_quat(q)
            x, y, z = [[R[3 * i + j] for i in range(3)] for j in range(3)]
            eye = distinct_vec(r, 3)
            sg = 1 if hand else -1
            k = r.choice([1, 2])
            al, be = r.choice([(1, 0), (2, 1), (1, -3)])
            out.append(dict(op="look", a=pre4(r), hand=hand, q=q, den=d, b=eye, t=[eye[i] + sg * k * z[i] for i in range(3)],
                            u=[al * y[i] + be * z[i] for i in range(3)]))
    return [c for c in out]


def trans_parts_int(r, scale):
    return [c for c in trans_parts(r, scale) if c["op"] not in ("affine", "look") and not c.get("inv") and c.get("den", 1) == 1]


def trans_parts_mixed(r, scale):
    return [c for c in trans_parts(r, scale) if c["op"] not in ("affine", "look") and c.get("den", 1) == 1]


def trans_apply(r, scale):
    out = []
    for rep in range(max(1, int(6 * scale))):
        den = [1, 2, 4, 8][rep % 4]
        for n in (1, 2, 3, 4, 5):
            out.append(dict(op="concat", n=n, a=distinct_vec(r, n * n), b=distinct_vec(r, n * n), den=den))
        for n in (1, 2, 3, 4):
            if n == 3 and rep % 2:
                q, d = unit_quat(r)
                rot, dr = rot_of_quat(q), d * d
            elif n == 2:
                c, s, dr = angle(r)
                rot = [c, -s, s, c]
            else:
                p = list(range(n))
                r.shuffle(p)
                rot, dr = [0] * (n * n), 1
                for i in range(n):
                    rot[n * i + p[i]] = r.choice([-1, 1])
            out.append(dict(op="rtinv", n=n, rot=rot, dr=dr, t=distinct_vec(r, n)))
        for dim in (2, 3):
            out.append(dict(op="tvec", dim=dim, a=pre4(r), b=distinct_vec(r, dim), den=den))
            out.append(dict(op="tpt", dim=dim, a=pre4(r), b=distinct_vec(r, dim), den=den))
        out.append(dict(op="tvec4", a=pre4(r), b=distinct_vec(r, 4), den=den))
        for w in range(4):
            out.append(dict(op="tvi", which=w, a=pre4(r), b=distinct_vec(r, 2 if w < 2 else 3), dm=r.choice([2, 4, 8])))
        b = distinct_vec(r, 3, 9)
        a = pre4(r)
        while abs(sum(a[12 + i] * b[i] for i in range(3)) + a[15] * den) < den * 20:
            a = pre4(r)
        out.append(dict(op="tpt4", a=a, b=b, den=den))
        aff = lambda: distinct_vec(r, 12, 25) + [0, 0, 0, 1]
        out.append(dict(op="chain", a=aff(), m=aff(), b=b, den=den))
    return out


def trans_apply_int(r, scale):
    out = []
    for rep in range(max(2, int(6 * scale))):
        # homogeneous coordinates that divide evenly
        w = r.choice([2, -2, 3, -3, 1, -1, 5])
        a = [w * r.randint(-6, 6) for _ in range(12)]
        v = [r.randint(-5, 5) for _ in range(3)]
        last = [r.randint(-4, 4) for _ in range(3)]
        out.append(dict(op="tpt4", a=a + last + [w - sum(x * y for x, y in zip(last, v))], b=v, den=1))
    return out + [c for c in trans_apply(r, scale) if c["op"] not in ("chain", "tpt4", "tvi") and c.get("den", 1) == 1 and c.get("dr", 1) == 1]


PY = {12: [5, 9, 16, 35], 24: [7, 10, 18, 32, 45, 70], 15: [8, 20, 36], 8: [6, 15], 20: [15, 21, 48]}


def proj(r, scale):
    out = []
    for hand in (0, 1):
        for zc in (0, 1):
            for rep in range(max(1, int(10 * scale))):
                den = r.choice([1, 2, 4, 8])
                b = dict(hand=hand, zc=zc, den=den)
                for op in ("ortho", "persp"):
                    if rep % 3 == 0:
                        x, y = r.randint(1, 40), r.randint(1, 40)
                        bd = dict(l=-x, r=x, b=-y, t=y)
                    else:
                        x, y = sorted(r.sample(range(-40, 40), 2)), sorted(r.sample(range(-40, 40), 2))
                        bd = dict(l=x[0], r=x[1], b=y[0], t=y[1])
                    n, f = sorted(r.sample(range(1 if op == "persp" else -20, 60), 2))
                    out.append(dict(op=op, n=n, f=f, **bd, **b))
                    # bounds in the other order, far planes far away
                    if rep % 2:
                        c = dict(out[-1])
                        for p, q in r.sample([("n", "f"), ("l", "r"), ("b", "t")], r.randint(1, 3)):
                            c[p], c[q] = c[q], c[p]
                        if op == "ortho" or c["n"] > 0 and c["f"] > 0:
                            out.append(c)
                    else:
                        n = r.randint(1, 50)
                        out.append(dict(out[-1], n=n, f=n * r.choice([100, 1001, 2000, 30000]) + r.randint(0, n)))
                for op in ("planes", "planesraw", "nearp"):
                    for persp in (0, 1):
                        n = r.choice(list(PY))
                        s = PY[n] + [-x for x in PY[n]]
                        x, y = sorted(r.sample(s, 2)), sorted(r.sample(s, 2))
                        q, dq = unit_quat(r) if rep % 4 else ([1, 0, 0, 0], 1)
                        out.append(dict(op=op, persp=persp, l=x[0], r=x[1], b=y[0], t=y[1], n=n, f=n + r.randint(1, 60), q=q, dq=dq, v=distinct_vec(r, 3) if rep % 4 else [0, 0, 0], **b))
    for _ in range(max(4, int(40 * scale))):
        p, q = r.randint(1, 30), r.randint(1, 30)
        out.append(dict(op="fovz", p=p, q=q, an=r.randint(1, 20), ad=r.randint(1, 20)))
    return out


ORDERS = {0: (0, 1, 2), 2: (0, 2, 1), 4: (1, 2, 0), 6: (1, 0, 2), 8: (2, 0, 1), 10: (2, 1, 0)}


def align_scale(r, rep, d):
    """scale k/bd of an align vector of length d: any length, often close to one"""
    if rep % 3 == 0:
        return r.choice([1, 2, 5, 7]), r.choice([1, 4, 16])
    if rep % 3 == 1:
        n = r.choice([20, 50, 200, 1000])
        return n + r.choice([-1, 1]), n * d
    return r.choice([(1, 50 * d), (3, 4 * d), (9, 8 * d), (40, d)])


def frames(r, scale):
    out = []
    for rep in range(max(1, int(6 * scale))):
        for order in (0, 6):
            for norm in (0, 1):
                t, d = unit(r, 2)
                if norm:
                    k, bd = align_scale(r, rep, d)
                    out.append(dict(op="frame2", order=order, norm=1, b=[x * k for x in t], bd=bd))
                else:
                    out.append(dict(op="frame2", order=order, norm=0, b=t, bd=d))
        for order in ORDERS:
            q, dq = unit_quat(r)
            R = rot_of_quat(q)
            ax = [[R[3 * i + j] for i in range(3)] for j in ORDERS[order]]
            for norm in (0, 1):
                k, bd = (1, dq * dq) if norm == 0 else align_scale(r, rep, dq * dq)
                al, be = r.choice([(0, 1), (1, 1), (-2, 1), (3, 2), (-1, 4)])
                out.append(dict(op="frame3", order=order, norm=norm, q=q, dq=dq, b=[x * k for x in ax[0]], bd=bd,
                                c=[al * ax[0][i] + be * ax[1][i] for i in range(3)], cd=r.choice([1, 8]), p=distinct_vec(r, 3)))
        for i in range(2):
            q, dq = unit_quat(r)
            out.append(dict(op="qbasis", q=q, dq=dq))
    return out


def flat_pt(r, axis, den_ok=True):
    """point with integer distance from the axis and from the origin"""
    while True:
        kind = r.randrange(5)
        if kind == 0:
            j, k, h = r.choice([(3, 4, 12), (4, 3, 12), (8, 6, 24), (5, 12, 84), (3, 4, 0), (4, 3, 0)])
        elif kind == 1:
            j, k, h = r.choice([(0, 5, 12), (5, 0, 12), (8, 0, 15), (0, 8, 6), (0, 0, 7), (0, 0, 3), (7, 0, 0), (0, 7, 0)])
        elif kind == 2:
            j, k, h = 0, 0, r.choice([0, 1, 5])
        else:
            j, k, h = r.choice([(15, 20, 60), (9, 12, 8), (9, 12, 20), (9, 12, 36), (12, 16, 15), (12, 16, 21), (20, 15, 60)])
        v = [0, 0, 0]
        v[axis], v[(axis + 1) % 3], v[(axis + 2) % 3] = [x * r.choice([-1, 1]) for x in (h, j, k)]
        return v


def coords(r, scale):
    out = coords0(r, scale)
    for c in out:
        if c["op"] in ("sang", "uang", "csph"):
            c["fine"] = 0
    # vectors a little off parallel or opposite, points a little off an axis or its plane
    for rep in range(max(1, int(8 * scale))):
        den = r.choice([1, 2, 8])
        X, y = r.choice([1, -1]) * r.choice([100, 300, 999]), r.choice([-2, -1, 1, 2])
        for op in ("sang", "uang"):
            x2, dx = unit(r, 2)
            x2 = x2 if dx < 20 else [3, 4]
            out.append(dict(op=op, a=x2, b=[X * x2[0] - y * x2[1], X * x2[1] + y * x2[0]], den=den, fine=1))
            q, dq = r.choice([([0, 1, 2, 2], 3), ([1, 1, 1, 1], 2), ([0, 0, 3, 4], 5), ([1, 2, 2, 4], 5), ([1, 0, 0, 0], 1), ([1, 4, 4, 4], 7)])
            R = rot_of_quat([v * r.choice([-1, 1]) for v in q])
            v, w, u = [[R[3 * i + j] for i in range(3)] for j in range(3)]
            out.append(dict(op=op, a=v, b=[X * v[i] + y * w[i] for i in range(3)], c=[r.choice([1, -1]) * t for t in u], den=den, fine=1))
        for axis in range(3):
            for lat in (0, 1):
                f = [t * r.choice([-1, 1]) for t in r.choice([(1, 0), (0, 1), (3, 4)])]
                if r.random() < 0.5:
                    p = [r.choice([-1, 1]) * r.choice([200, 700, 999])] + f
                else:
                    p = [r.choice([-1, 1])] + [t * 100 for t in f]
                b = [0] * 3
                for j in range(3):
                    b[(axis + j) % 3] = p[j]
                out.append(dict(op="csph", axis=axis, lat=lat, b=b, den=den, tol=0, fine=1))
    return out


def coords0(r, scale):
    out = []
    for rep in range(max(1, int(16 * scale))):
        den = [1, 2, 4, 8][rep % 4]
        k = r.choice([0, 0, 1, -1])
        c, s, d = angle(r)
        out.append(dict(op="polar", p=r.randint(-9, 40), den=den, tc=c, ts=s, td=d, k=k))
        out.append(dict(op="cpolar", b=square_vec(r, 2) if rep % 4 else r.choice([[5, 0], [-5, 0], [0, 3], [0, -3], [0, 0]]), den=den, tol=0))
        out.append(dict(op="cpolar", b=r.choice([[3, 4], [-4, 3], [5, 0], [0, -5]]), den=den, tol=r.choice([1, 2, 5, 10, 20, 40])))
        for axis in range(3):
            c, s, d = angle(r)
            out.append(dict(op="cyl", axis=axis, p=r.randint(1, 40), h=nz(r, -40, 40), den=den, tc=c, ts=s, td=d, k=k))
            out.append(dict(op="ccyl", axis=axis, b=flat_pt(r, axis), den=den, tol=0))
            out.append(dict(op="ccyl", axis=axis, b=flat_pt(r, axis), den=den, tol=r.choice([1, 2, 5, 10, 20, 40])))
            for lat in (0, 1):
                c, s, d = angle(r)
                pc, ps, pd = angle(r)
                out.append(dict(op="sph", axis=axis, lat=lat, p=r.randint(1, 40), den=den, tc=c, ts=s, td=d, pc=pc, ps=ps, pd=pd, k=0))
                out.append(dict(op="csph", axis=axis, lat=lat, b=flat_pt(r, axis), den=den, tol=0))
                out.append(dict(op="csph", axis=axis, lat=lat, b=flat_pt(r, axis), den=den, tol=r.choice([1, 2, 5, 10, 20, 40])))
        for op in ("sang", "uang"):
            out.append(dict(op=op, a=square_vec(r, 2), b=square_vec(r, 2), den=den))
            a = square_vec(r, 2)
            z = r.choice([1, -1, 2])
            out.append(dict(op=op, a=a, b=[x * z for x in a], den=den))
            q, dq = r.choice([([0, 1, 2, 2], 3), ([1, 1, 1, 1], 2), ([0, 0, 3, 4], 5), ([1, 2, 2, 4], 5), ([1, 0, 0, 0], 1), ([1, 4, 4, 4], 7), ([1, 3, 1, 5], 6)])
            q = [x * r.choice([-1, 1]) for x in q]
            R = rot_of_quat(q)
            x, y, z = [[R[3 * i + j] for i in range(3)] for j in range(3)]
            c, s, d = r.choice([(3, 4, 5), (4, 3, 5), (0, 1, 1), (1, 0, 1), (5, 12, 13)])
            c, s = c * r.choice([-1, 1]), s * r.choice([-1, 1])
            m = r.choice([1, 2])
            ref = [r.choice([1, -1, 3, -2]) * z[i] + r.choice([0, 1]) * x[i] for i in range(3)]
            if sum(ref[i] * z[i] for i in range(3)) == 0:
                ref = z
            out.append(dict(op=op, a=[v * m for v in x], b=[c * x[i] + s * y[i] for i in range(3)], c=ref, den=den))
        # an angle of exactly zero
        for axis in range(3):
            c, s, d = angle(r)
            z = [(1, 0, 1), (c, s, d)]
            if rep % 2:
                z.reverse()
            out.append(dict(op="sph", axis=axis, lat=0 if rep % 2 else 1, p=r.randint(1, 40), den=den, tc=z[0][0], ts=z[0][1], td=z[0][2], pc=z[1][0], ps=z[1][1], pd=z[1][2], k=0))
        c, s, d = angle(r)
        u, du = unit(r, 3)
        out.append(dict(op="rotv", b=distinct_vec(r, 3), den=den, u=u, du=du, tc=c, ts=s, td=d, k=k))
    return out


def scalars(r, scale):
    out = []
    reps = max(1, int(30 * scale))
    for rep in range(reps):
        den = [1, 1, 2, 4, 8][rep % 5]
        b = dict(den=den)
        lo, hi = sorted(r.sample(range(-40, 40), 2))
        for x in {lo, hi, lo - 1, hi + 1, r.randint(lo, hi), 0, r.randint(-400, 400)}:
            out.append(dict(op="sclamp", a=[x, lo, hi], **b))
            out.append(dict(op="sinrange", a=[x, lo, hi], **b))
        p = hi - lo
        for x in {lo, hi, lo - 1, hi + 1, lo - p, hi + p, lo - 7 * p - 1, hi + 9 * p + 1, r.randint(-900, 900), lo - 5 * p, 0}:
            out.append(dict(op="swrap", a=[x, lo, hi], **b))
        out.append(dict(op="sclamp", a=[r.randint(-9, 9), lo, lo], **b))
        x = r.randint(-40, 40)
        out.append(dict(op="ssign", a=[x], **b))
        out.append(dict(op="spow", a=[x], **b))
        out.append(dict(op="smap", a=[r.randint(-60, 60)] + r.sample(range(-40, 40), 2) + [r.randint(-40, 40), r.randint(-40, 40)], **b))
        out.append(dict(op="slen", a=square_vec(r, 2 + rep % 2), **b))
        c, s, d = angle(r)
        for op in ("sacos", "sasin"):
            out.append(dict(op=op, a=[c], den=d))
            out.append(dict(op=op, a=[r.choice([-1, 1]) * r.randint(d, 3 * d)], den=d))
        n, q = r.choice([1, 4, 9, 16, 25, 49, 100]), r.choice([1, 4, 16, 64])
        out.append(dict(op="ssqrt", a=[n], den=q))
        out.append(dict(op="ssqrt", a=[-r.randint(1, 50)], den=q))
        out.append(dict(op="srad", a=[r.randint(-800, 800)], **b))
        out.append(dict(op="sdeg", a=[r.randint(-60, 60)], **b))
        for n in (2, 3, 4):
            small = lambda: [r.randint(-3, 3) for _ in range(n)]
            out.append(dict(op="sbest", a=small(), **b))
            out.append(dict(op="sbest", a=distinct_vec(r, n), **b))
    for v in (-1, 0, 1):
        out.append(dict(op="ssign", a=[v], den=1))
        out.append(dict(op="ssign", a=[v], den=8))
    out.append(dict(op="ssqrt", a=[0], den=1))
    for order in ORDERS:
        out.append(dict(op="sorder", order=order))
    for order in (0, 6):
        out.append(dict(op="sorder2", order=order))
    for order in range(12):
        out.append(dict(op="seuler", order=order))
    for n in range(1, 8):
        for i in range(n):
            out.append(dict(op="scyc", n=n, i=i))
    import itertools
    for n in (2, 3, 4):
        for a in itertools.product([-1, 0, 1], repeat=n):
            out.append(dict(op="sbest", a=list(a), den=1))
    out.append(dict(op="sconst"))
    for x in range(-4, 5):
        for y in range(-4, 5):
            if y:
                out.append(dict(op="straiti", x=x, y=y))
    for rep in range(max(4, int(12 * scale))):
        c, s, d = angle(r)
        p, q = r.choice([(3, 4), (4, 3), (5, 12), (15, 8), (7, 24), (24, 7)])
        out.append(dict(op="strait", ca=c, sa=s, da=d, p=p, q=q))
    out.append(dict(op="sconsti"))
    return out


def types_vec2(r, scale):
    return [dict(op="tvv", k1=a, k2=b, s1=s, s2=t, n=n) for a, b, n in ((7, 3, 3), (6, 7, 2), (3, 6, 4)) for s in range(6) for t in range(6)] + \
           [dict(op="tv", k=k, s=s, n=n) for k in (3, 6, 7) for s in range(4) for n in (2, 3, 5)]


def types_mat(r, scale):
    return [dict(op="tmm", k1=7, k2=3, s1=s, s2=t, r=2, c=3) for s in range(16) for t in range(16)] + \
           [dict(op="tmm", k1=a, k2=b, s1=s, s2=s, r=3, c=2) for a in range(1, 9) for b in range(1, 9) for s in (0, 13)] + \
           [dict(op="tm", k=k, s=s, r=rr, c=cc) for k, rr, cc in ((7, 2, 3), (3, 4, 2)) for s in range(16)]


def types_matvec(r, scale):
    return [dict(op="tmv", k1=a, k2=b, s1=s, s2=t, r=3, c=4) for a in range(1, 9) for b in range(1, 9) for s, t in ((0, 0), (13, 1), (2, 1), (5, 2))] + \
           [dict(op="tmv", k1=a, k2=b, s1=s, s2=t, r=rr, c=cc) for a, b, rr, cc in ((7, 3, 2, 3), (3, 6, 3, 2), (6, 6, 4, 4)) for s in range(16) for t in range(6)]


def types_quat(r, scale):
    return [dict(op="tqq", k1=a, k2=b, s1=i) for a in range(1, 9) for b in range(1, 9) for i in range(4) if i == 0 or (a in (3, 6, 7, 8) and b in (3, 6, 7, 8))]


def rands(r, scale):
    out = []
    k = max(1, int(scale))

    def sd():
        return r.randint(0, 2**31 - 1)
    for lo, hi in [(0, 1), (-2, 3), (5, 5), (-4, -1), (0, 0), (-1, 1), (1, 7), (-7, -7)]:
        for n in ([1, 3, 7] if k == 1 else [1, 2, 3, 4, 7]):
            out.append(dict(op="rvec", lo=lo, hi=hi, den=1, n=n, draws=200 if n < 3 else 60, seed=sd()))
        out.append(dict(op="rmat", lo=lo, hi=hi, den=1, draws=30, seed=sd()))
        out.append(dict(op="rint", lo=lo, hi=hi, den=1, draws=200 * k, seed=sd()))
    for _ in range(6 * k):
        a, b = sorted((r.randint(-5000, 5000), r.randint(-5000, 5000)))
        den = r.choice([1, 3, 7, 100, 1000])
        out.append(dict(op="rreal", lo=a, hi=b, den=den, draws=150, seed=sd()))
        out.append(dict(op="rreal", lo=a, hi=a, den=den, draws=3, seed=sd()))
        if den > 1:
            out.append(dict(op="rvec", lo=a, hi=b, den=den, n=r.choice([2, 4]), draws=12, seed=sd()))
            out.append(dict(op="rmat", lo=a, hi=b, den=den, draws=4, seed=sd()))
    out.append(dict(op="rvec", lo=0, hi=1, den=1000, n=4, draws=20, seed=sd()))
    for _ in range(2 * k):
        out.append(dict(op="rbin", draws=64, seed=sd()))
        out.append(dict(op="runit1", draws=200, seed=sd()))
    for n in (1, 2, 3, 4, 6):
        out.append(dict(op="ruvec", n=n, draws=60 * k, seed=sd()))
    cones = [(0, 1, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (63, 16, 65), (16, 63, 65), (99, 20, 101), (9999, 200, 10001), (20, 99, 101)]
    for n in (1, 2, 3, 4, 5):
        for p, s, q in (cones if k > 1 or n in (2, 3) else r.sample(cones, 4)):
            for m in (0, 1):
                if n == 1:
                    d, den = [r.choice([1, -1])], 1
                elif m == 0:
                    d, den = [0] * n, 1
                    d[r.randrange(n)] = r.choice([-1, 1])
                elif n in (2, 3):
                    d, den = unit(r, n)
                else:
                    d, den = unit(r, 3)
                    while len(d) < n:
                        d.insert(r.randint(0, len(d)), 0)
                out.append(dict(op="rcone", n=n, d=d, den=den, p=p, s=s, q=q, draws=50 if n > 1 else 6, seed=sd()))
    for n in (2, 3):
        for w in range(6):
            d, den = unit(r, n)
            out.append(dict(op="rconebad", n=n, d=d, den=den, which=w))
    out.append(dict(op="rzero", n=0))
    for n in (1, 2, 3, 4, 6):
        for i in range(n):
            out.append(dict(op="gvec", n=n, i=i))
    for rr, cc in ((2, 2), (3, 3), (4, 4), (2, 3), (4, 2), (1, 1)):
        out.append(dict(op="gmat", r=rr, c=cc))
    return out


def _near(r, a, vals):
    """a vector related to a: equal, prefix, extension, or differing in one place"""
    b = list(a)
    m = r.randrange(5)
    if m == 1 and len(b) > 1:
        b = b[:r.randint(1, len(b) - 1)]
    elif m == 2:
        b = b + [r.choice(vals) for _ in range(r.randint(1, 2))]
    elif m == 3:
        i = r.randrange(len(b))
        b[i] += r.choice([-1, 1])
    elif m == 4:
        i = r.randrange(len(b))
        b[i] += r.choice([-1, 1])
        for k in range(i + 1, len(b)):
            b[k] = r.choice(vals)
    return b


def cmps(r, scale):
    out = []
    k = max(1, int(scale))
    for _ in range(120 * k):
        vals = r.choice([[-1, 0, 1], list(range(-50, 50)), [0, 1], [-99999, 99999, 5]])
        a = [r.choice(vals) for _ in range(r.choice([1, 2, 3, 3, 4, 4, 5, 9, 8, 17, 33]))]
        b = _near(r, a, vals)
        den = r.choice([1, 1, 2, 8])
        if r.random() < .5:
            a, b = b, a
        out.append(dict(op="vcmp", a=a, b=b, den=den, nz=r.randint(0, 1)))
    for _ in range(60 * k):
        a = [r.choice([-1, 0, 1, 7, 100000]) for _ in range(r.choice([1, 2, 3, 4, 6, 8, 17]))]
        b = list(a) if r.random() < .6 else _near(r, a, [-1, 0, 1])
        out.append(dict(op="vhash", a=a, b=b, den=r.choice([1, 1, 4]), nz=r.randint(0, 1)))
    shapes = [(2, 3), (3, 2), (2, 2), (1, 4), (4, 1), (3, 3), (6, 1), (5, 9), (9, 5), (1, 17)]
    for _ in range(40 * k):
        R, C = r.choice(shapes)
        a = [r.choice([-1, 0, 1, 2]) for _ in range(R * C)]
        m = r.randrange(5)
        b, R2, C2 = list(a), R, C
        if m == 4:     # a row or column dropped, the rest equal
            if C > 1 and r.random() < .6:
                C2 = C - 1
                b = [a[i * C + j] for i in range(R) for j in range(C2)]
            elif R > 1:
                R2 = R - 1
                b = a[:R2 * C]
            if r.random() < .5:
                a, b, R, C, R2, C2 = b, a, R2, C2, R, C
        if m == 1:
            i = r.randrange(len(b))
            b[i] += r.choice([-1, 1])
        elif m == 2:
            R2, C2 = C, R
        elif m == 3:
            R2, C2 = r.choice(shapes)
            b = [a[i % len(a)] for i in range(R2 * C2)]
        out.append(dict(op="mcmp", a=a, b=b, r=R, c=C, r2=R2, c2=C2, den=r.choice([1, 1, 2])))
    # transposed contents, and every single element different
    for R, C in ((2, 3), (2, 2), (3, 3)):
        a = distinct_vec(r, R * C)
        out.append(dict(op="mcmp", a=a, b=[a[(i % R) * C + i // R] for i in range(R * C)], r=R, c=C, r2=R, c2=C, den=1))
        for i in range(R * C):
            b = list(a)
            b[i] += r.choice([-1, 1])
            out.append(dict(op="mcmp", a=a, b=b, r=R, c=C, r2=R, c2=C, den=1))
    for _ in range(60 * k):
        a = [r.choice([-1, 0, 1]) for _ in range(4)]
        b = list(a)
        for i in r.sample(range(4), r.choice([0, 1, 1, 2, 3])):
            b[i] += r.choice([-1, 1])
        out.append(dict(op="qcmp", a=a, b=b, den=r.choice([1, 1, 2]), nz=r.randint(0, 1)))
    return out


# ---- C05: element addressing ------------------------------------------------
ADDR_SHAPES = [(2, 2), (2, 3), (1, 4), (3, 1), (1, 1), (3, 2), (3, 3), (4, 3), (4, 4)]


def addr_prog(r, R, C, bas, n, resz):
    prog = []
    x = lambda: [r.choice([-1, 1]) * r.randint(1, 999) for _ in range(12)]
    mult = 0
    for _ in range(n):
        codes = [1, 2, 3, 4, 5, 6, 7, 11, 14, 15, 16, 22, 23]
        if mult < 2:
            codes += [20, 21]
        if R == C:
            codes += [30, 31, 32]
        if resz:
            codes += [33, 33, 33]
        k = r.choice(codes)
        i, j = 0, 0
        if k in (1, 2, 3, 11):
            i, j = r.randrange(R), r.randrange(C)
        elif k in (4, 14):
            i = r.randrange(R)
        elif k in (5, 15):
            j = r.randrange(C)
        elif k in (6, 16):
            i, j = (r.randrange(R), r.randrange(C)) if bas else (r.randrange(C), r.randrange(R))
        elif k == 7:
            i = r.randrange(R * C)
        elif k == 22:
            i, j = r.randrange(R), r.randrange(R)
        elif k == 23:
            i, j = r.randrange(C), r.randrange(C)
        elif k in (20, 21):
            mult += 1
        elif k == 33:
            R, C = C, R
        prog.append([k, i, j] + x())
    return prog


def addr(r, scale):
    out = []
    for (R, C) in ADDR_SHAPES:
        for bas in (0, 1):
            for lay in (0, 1):
                for ctor in range(9):
                    for rep in range(max(1, int((1 if ctor not in (0, 6) else 2) * scale))):
                        resz = 1 if ctor in (1, 3, 6) and rep % 2 == 0 and r.random() < 0.5 else 0
                        if ctor in (5, 8):
                            resz = 0
                        n = r.randint(1, 5) if R * C < 12 else r.randint(0, 2)
                        out.append(dict(op="addr", r=R, c=C, bas=bas, lay=lay, ctor=ctor, a=distinct_vec(r, R * C, 300), prog=addr_prog(r, R, C, bas, n, resz), resz=resz))
    for (R, C) in [(5, 5), (6, 6), (3, 7), (7, 3), (8, 8), (6, 2), (5, 8), (1, 8), (8, 1), (9, 9), (3, 12), (12, 3)]:
        for bas in (0, 1):
            for lay in (0, 1):
                for rep in range(max(1, int(scale))):
                    resz = r.randint(0, 1)
                    for k in (1, 2):
                        prog = addr_prog(r, R, C, bas, k, resz and rep % 2)
                        if R == C and k == 2:
                            prog.append([30 + r.randint(0, 1), 0, 0] + [1] * 12)
                        out.append(dict(op="addrl", r=R, c=C, bas=bas, lay=lay, ctor=k - 1, a=distinct_vec(r, R * C, 300), prog=prog, resz=resz and rep % 2))
    for n in (0, 1, 2, 3, 4, 5, 9):
        for rep in range(max(1, int(3 * scale))):
            out.append(dict(op="vprint", a=[r.choice([0, r.randint(-9, 9), r.randint(-99999, 99999)]) for _ in range(n)]))
    for rep in range(max(2, int(4 * scale))):
        out.append(dict(op="qprint", a=[r.choice([0, r.randint(-9, 9), r.randint(-99999, 99999)]) for _ in range(4)]))
    return out


def mhist_shapes(r, scale):
    """programs that take each resizable matrix through each shape and use all of it"""
    out = []
    shapes = [(7, 2), (2, 7), (8, 1), (1, 8), (5, 3), (4, 4), (3, 3), (1, 1), (2, 2)]

    def ins(c, p, q=0, t=0, a=0, b=0, x=()):
        return [c, p, q, t, a, b] + (list(x) + [0] * 6)[:6]
    for p in (3, 4, 5, 6):
        for R, C in shapes:
            def X():
                return distinct_vec(r, 6, 40)
            for mk in (5, 6, 21):
                pr = [ins(mk, p, a=R, b=C), ins(17, p, x=[r.randint(-9, 9)])]
                i, j = r.randrange(R), r.randrange(C)
                for i in {0, R - 1, i}:
                    pr.append(ins(31, p, a=i, b=C, x=X()))
                for j in {0, C - 1, j}:
                    pr.append(ins(32, p, a=j, b=R, x=X()))
                pr.append(ins(r.choice([7, 8]), p, a=R - 1, b=C - 1, x=X()))
                pr.append(ins(9, p, a=R * C - 1, x=X()))
                z = r.choice([2, -3])
                pr += [ins(r.choice([10, 11, 33]), p, p)] if mk == 5 else [ins(12, p, x=[z]), ins(37, p, x=[z])]
                q = r.choice([k for k in (3, 4, 5, 6) if k != p])
                pr.append(ins(r.choice([1, 15, 19, 28]), q, p))
                pr.append(ins(20, p))
                pr.append(ins(r.choice([1, 15, 19, 28]), p, q))
                pr.append(ins(31, p, a=0, b=C + 1 if C < 8 else 7, x=X()))
                pr.append(ins(16, p))
                R2, C2 = r.choice(shapes)
                pr.append(ins(5, p, a=R2, b=C2))
                out.append(dict(op="mhist", prog=pr))
    return out if scale > 1 else [o for k, o in enumerate(out) if k % 3 == r.randrange(3) or k % 9 == 0]


def vhist_shapes(r, scale):
    out = []

    def ins(c, p, q=0, t=0, n=0, x=()):
        return [c, p, q, t, n] + (list(x) + [0] * 5)[:5]
    for p in (2, 3, 4):
        for n in (8, 9, 12, 1, 5):
            for mk in (5, 6, 20):
                pr = [ins(mk, p, n=n), ins(17, p, x=[r.randint(-9, 9)])]
                for i in {0, n - 1, n // 2}:
                    pr.append(ins(r.choice([7, 8, 34]), p, n=i, x=[r.randint(-40, 40)]))
                q = r.choice([k for k in (2, 3, 4) if k != p])
                pr.append(ins(r.choice([1, 15, 28]), q, p))
                pr.append(ins(7, q, n=n - 1, x=[r.randint(-40, 40)]))
                pr.append(ins(r.choice([10, 11, 25, 26, 37]), p, q))
                if n > 1:
                    pr.append(ins(16, p, q, n=r.choice([0, n - 1, n // 2])))
                pr.append(ins(30, q, p, x=[7]))
                pr.append(ins(12, q, x=[2]))
                if n % 2:
                    pr.append(ins(38, q, x=[2]))
                pr.append(ins(19, q, n=n - 1))
                pr.append(ins(5, q, n=r.choice([2, 4, 12, 6])))
                out.append(dict(op="vhist", prog=pr))
    return out


# ---- scaled calls: operands times powers of two -------------------------------
def scaled(r, c, lim=17):
    """c with operands scaled by powers of two and the exponents of its outputs, or None"""
    op = c["op"]
    if c.get("wide") or c.get("pow"):
        return None

    sign = r.choice([0, 0, -1, 1])     # all small, all large, or any

    def x(m=lim, even=False):
        k = (sign or r.choice([-1, 1])) * r.choice([m, m, (3 * m) // 4, m // 2, m // 4 + 1])
        return k - k % 2 if even else k
    E, lg = {}, None
    if op in ("normalize", "qnormalize", "tpt4", "ssign", "sinrange", "sbest"):
        E, lg = dict(a=x()), [0]
    elif op == "qinv":
        E["a"] = x()
        lg = [-E["a"]]
    elif op in ("lensq", "qnorm"):
        E["a"] = x()
        lg = [2 * E["a"]]
    elif op == "spow":
        E["a"] = x()
        lg = [2 * E["a"], 3 * E["a"]]
    elif op == "slen":
        E["a"] = x()
        lg = [2 * E["a"], E["a"]]
    elif op == "ssqrt":
        E["a"] = x(even=True)
        lg = [E["a"] // 2, -(E["a"] // 2)]
    elif op in ("length", "subvector", "perp", "transpose", "trace", "trace22", "trace33", "qneg", "qconj", "qlen", "qparts", "qbuild", "vneg", "mneg",
                "tget", "bget", "sclamp", "swrap", "smap", "projh"):
        E["a"] = x(lim if op in ("length", "qlen") else 24 if op == "projh" else 100)
        lg = [E["a"]]
    elif op in ("vmuls", "vdivs", "mmuls", "mdivs") or (op in ("vin", "min", "qscale") and c["which"] in (0, 1)):
        E["a"], E["s"] = x(), x()
        lg = [E["a"] + E["s"] * (-1 if op in ("vdivs", "mdivs") or c.get("which") == 1 else 1)]
    elif op in ("manhattan", "qadd", "qsub", "vadd", "vsub", "madd", "msub", "vpm", "mpm", "tset", "bset", "vcmp", "vhash", "mcmp", "qcmp"):
        E["a"] = E["b"] = x(100)
        lg = [0 if op in ("vcmp", "vhash", "mcmp", "qcmp") else E["a"]]
    elif op in ("dot", "perp_dot", "cross", "outer", "mm", "mv", "qmul", "qdot", "concat", "tvec", "tvec4", "vhad", "mhad", "projv"):
        E["a"], E["b"] = x(), x()
        lg = [E["a"] if op == "projv" else E["a"] + E["b"]]
    elif op in ("triple", "qmul3"):
        E = dict(a=x(), b=x(), c=x())
        lg = [sum(E.values())]
    elif op in ("sang", "uang"):
        E = dict(a=x(12), b=x(12))
        if "c" in c and op == "sang":
            E["c"] = x(12)
        lg = [0]
    elif op in ("skew", "rotv", "lusolve"):
        E["b"] = x()
        lg = [E["b"]]
    elif op in ("polar", "sph", "cyl"):
        E["p"] = x()
        if op == "cyl":
            E["h"] = E["p"]
        lg = [E["p"]]
    elif op in ("cpolar", "ccyl", "csph") and c["tol"] == 0:
        k = E["b"] = abs(x())
        lg = {"cpolar": [k, 0, 0, 0], "ccyl": [k, k, 0, 0, 0], "csph": [k] + [0] * 6}[op]
    elif op == "bsets":
        k = x(24)
        E = dict(a=k, x=k, y=k, z=k)
        lg = [k]
    elif op == "look":
        E, lg = dict(u=x()), [0]
    elif op == "frame3":
        E = dict(c=x(12))
        if c["norm"]:
            E["b"] = x(12)
        lg = [0]
    elif op == "frame2" and c["norm"]:
        E, lg = dict(b=x()), [0]
    elif op in ("ortho", "persp", "planes", "planesraw", "nearp"):
        n = E["n"] = x(12)
        if op in ("planes", "planesraw", "nearp"):
            E["v"] = n
        m = -n if op in ("planesraw", "nearp") and not c["persp"] else 0
        lg = {"ortho": [-n if i in (0, 5, 10) else 0 for i in range(16)], "persp": [n if i == 11 else 0 for i in range(16)],
              "planes": [n if i % 4 == 3 else 0 for i in range(24)], "planesraw": [m + (n if i % 4 == 3 else 0) for i in range(24)],
              "nearp": [m, m, m, m + n]}[op]
    if lg is None:
        return None
    d = {"sc_" + f: k for f, k in E.items() if f in c}
    return dict(c, lg=lg, **d)


def with_scaled(g, share, keep=True):
    def f(r, scale):
        out = g(r, scale)
        more = [scaled(r, c) for c in out for _ in range(1 if c["op"] not in ("sang", "uang", "projv") else 3) if r.random() < share]
        return (out if keep else []) + [c for c in more if c]
    f.__name__ = g.__name__
    return f
