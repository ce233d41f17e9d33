"""Reference semantics, written per vote from the published definitions; independent of the package's code."""
import math
from fractions import Fraction
import numpy as np
from scipy.stats import chi2 as _chi2

NAN = float('nan')
Z95 = 1.95996


class Votes(object):
    """flat list of votes present in a table X[E,S,R]"""
    def __init__(self, X):
        self.shape = X.shape
        e, s, r = np.nonzero(~np.isnan(X))
        self.e, self.s, self.r = e, s, r
        self.x = X[e, s, r].astype(float)
        self.E, self.S, self.R = X.shape
        self.ne = np.bincount(e, minlength=self.E)
        self.ns = np.bincount(s, minlength=self.S)

    def by_e(self, w):
        return np.bincount(self.e, weights=w, minlength=self.E)

    def by_s(self, w):
        return np.bincount(self.s, weights=w, minlength=self.S)


def fmean(xs):
    return math.fsum(xs) / len(xs) if len(xs) else NAN


def fstd(xs, ddof=0):
    n = len(xs)
    if n - ddof <= 0:
        return NAN
    m = fmean(xs)
    return math.sqrt(math.fsum((x - m) ** 2 for x in xs) / (n - ddof))


def present(a):
    return [float(x) for x in np.ravel(a) if x == x]


def is_ref(st):
    cp = {c['content_id']: c['path'] for c in st.contents}
    return [cp[v['content_id']] == v['path'] for v in st.videos]


def has_unique_refs(st):
    fl = is_ref(st)
    for v in st.videos:
        n = sum(1 for w, f in zip(st.videos, fl) if f and w['content_id'] == v['content_id'])
        if n != 1:
            return False
    return True


def is_dyadic(fr):
    d = fr.denominator
    return d & (d - 1) == 0


def sqrt_dyadic(fr):
    """exact square root of a Fraction as dyadic Fraction, or None"""
    n, d = fr.numerator, fr.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d and (rd & (rd - 1)) == 0:
        return Fraction(rn, rd)
    return None


def kurtosis_counts(X, exact=True):
    """BT.500 counts P,Q per observer, or None for 'ambiguous' (a decision within rounding error)."""
    E, S, R = X.shape
    P, Q = [0] * S, [0] * S
    for e in range(E):
        cells = [(s, r, float(X[e, s, r])) for s in range(S) for r in range(R) if X[e, s, r] == X[e, s, r]]
        if not cells:
            continue
        xs = [c[2] for c in cells]
        n = len(xs)
        mu = fmean(xs)
        m2 = math.fsum((x - mu) ** 2 for x in xs) / n
        m4 = math.fsum((x - mu) ** 4 for x in xs) / n
        sig = math.sqrt(m2)
        halves = exact and all((x * 2).is_integer() and abs(x) < 1e6 for x in xs)
        exact_mu = exact_sig = exact_k = None
        if halves:
            fx = [Fraction(x) for x in xs]
            fmu = sum(fx) / n
            if is_dyadic(fmu):
                exact_mu = fmu
                fv = sum((x - fmu) ** 2 for x in fx) / n
                if is_dyadic(fv):
                    exact_sig = sqrt_dyadic(fv)
                    f4 = sum((x - fmu) ** 4 for x in fx) / n
                    if fv > 0 and is_dyadic(f4):
                        exact_k = f4 / fv ** 2
        degenerate = m2 <= 1e-18 * max(1.0, mu * mu)
        if degenerate:
            if exact_sig != 0:
                return None
            inside = False
        else:
            k = m4 / m2 ** 2
            if abs(k - 2) < 1e-9 or abs(k - 4) < 1e-9:
                if exact_k is None or not is_dyadic(exact_k):
                    return None
                inside = 2 <= exact_k <= 4
            else:
                inside = 2 <= k <= 4
        f = 2.0 if inside else math.sqrt(20.0)
        for s, r, x in cells:
            up = x - (mu + f * sig)
            lo = x - (mu - f * sig)
            for d, sign in ((up, 1), (lo, -1)):
                tol = 1e-9 * (1 + abs(x))
                if abs(d) < tol:
                    if exact_sig is None or (f != 2.0 and exact_sig != 0):
                        return None
                    fd = Fraction(x) - (exact_mu + sign * Fraction(f if f == 2.0 else 0) * exact_sig)
                    hit = (fd >= 0) if sign == 1 else (fd <= 0)
                else:
                    hit = (d > 0) if sign == 1 else (d < 0)
                if hit:
                    if sign == 1:
                        P[s] += 1
                    else:
                        Q[s] += 1
    return P, Q


def pearson(a, b):
    n = len(a)
    if n < 2:
        return NAN
    ma, mb = fmean(a), fmean(b)
    sa = math.fsum((x - ma) ** 2 for x in a)
    sb = math.fsum((y - mb) ** 2 for y in b)
    if sa <= 1e-20 * max(1, ma * ma) * n or sb <= 1e-20 * max(1, mb * mb) * n:
        return NAN
    return math.fsum((x - ma) * (y - mb) for x, y in zip(a, b)) / math.sqrt(sa * sb)


def ranks(a):
    idx = sorted(range(len(a)), key=lambda i: a[i])
    r = [0.0] * len(a)
    i = 0
    while i < len(idx):
        j = i
        while j + 1 < len(idx) and a[idx[j + 1]] == a[idx[i]]:
            j += 1
        for k in range(i, j + 1):
            r[idx[k]] = (i + j) / 2.0 + 1
        i = j + 1
    return r


class Ambiguous(Exception):
    pass


def prep(X, st, dscore=False, zscore=False, bias=False, rejection=None, ref_idx=None):
    """The preprocessing chain. Returns dict with X (all observers), keep, bias, flags, stat1, stat2."""
    X = np.array(X, dtype=float)
    X0 = X.copy()
    E, S, R = X.shape
    out = {}
    if dscore:
        fl = is_ref(st)
        mean_e = [fmean(present(X[e])) for e in range(E)]
        ref_of = {v['content_id']: mean_e[e] for e, (v, f) in enumerate(zip(st.videos, fl)) if f}
        for e in range(E):
            X[e] = X[e] + (st.ref_score - ref_of[st.videos[e]['content_id']])
    if zscore:
        for s in range(S):
            v = present(X[:, s, :])
            X[:, s, :] = (X[:, s, :] - fmean(v)) / fstd(v, 1)
    if bias:
        mean_e = [fmean(present(X[e])) for e in range(E)]
        b = []
        for s in range(S):
            d = [X[e, s, r] - mean_e[e] for e in range(E) for r in range(R) if X[e, s, r] == X[e, s, r]]
            b.append(fmean(d))
        out['bias'] = b
        for s in range(S):
            X[:, s, :] = X[:, s, :] - b[s]
    keep = list(range(S))
    if rejection == 'kurtosis':
        c = kurtosis_counts(X, exact=not (bias or dscore or zscore))      # computed votes carry rounding of their own
        if c is None:
            raise Ambiguous('vote at an outlier threshold within rounding')
        P, Q = c
        s1 = [(p + q) / float(E * R) for p, q in zip(P, Q)]
        s2 = [abs(p - q) / float(p + q) if p + q else NAN for p, q in zip(P, Q)]
        rej = [Fraction(p + q, E * R) > Fraction(1, 20) and p + q > 0 and Fraction(abs(p - q), p + q) < Fraction(3, 10) for p, q in zip(P, Q)]
        out['would_reject_all'] = all(rej)
        if all(rej):
            rej = [False] * S
        keep = [s for s in range(S) if not rej[s]]
        out.update(flags=rej, stat1=s1, stat2=s2, counts=(P, Q))
    elif rejection in ('pearson', 'spearman'):
        M = np.full((E, S), NAN)
        for e in range(E):
            for s in range(S):
                v = present(X[e, s])
                if v:
                    M[e, s] = fmean(v)
        mos = [fmean(present(M[e])) for e in range(E)]
        rs = []
        for s in range(S):
            ok = [e for e in range(E) if M[e, s] == M[e, s]]
            a = [M[e, s] for e in ok]
            b2 = [mos[e] for e in ok]
            if rejection == 'spearman':
                # ranks of computed means are only decidable when no two distinct ones nearly tie
                halves = all((2 * x).is_integer() and abs(x) < 1e6 for x in present(X0))
                exact_b = halves and R == 1 and not dscore and not zscore and not bias
                exact_a = R == 1 and not dscore
                for vals, exact in ((b2, exact_b), (a, exact_a)):
                    srt = sorted(vals)
                    if any(abs(y - x) < 1e-9 and not (exact and x == y) for x, y in zip(srt, srt[1:])):
                        raise Ambiguous('scores tie within rounding')
                a, b2 = ranks(a), ranks(b2)
            rs.append(pearson(a, b2))
        out['undefined_correlation'] = any(r != r for r in rs)
        if not out['undefined_correlation']:
            m, sd = fmean(rs), fstd(rs)
            if abs(m - sd - 0.7) < 1e-9:
                raise Ambiguous('correlation threshold within rounding of 0.7')
            thr = 0.7 if m - sd > 0.7 else m - sd
            if any(abs(r - thr) < 1e-9 for r in rs):
                raise Ambiguous('correlation at the threshold within rounding')
            rej = [r <= thr for r in rs]
            keep = [s for s in range(S) if not rej[s]]
            out.update(flags=rej, stat1=rs, stat2=[0.0] * S)
    out['X'] = X
    out['keep'] = keep
    return out


def mos_stats(X):
    E, S, R = X.shape
    mos, std, sem, n = [], [], [], []
    for e in range(E):
        v = present(X[e])
        mos.append(fmean(v))
        std.append(fstd(v, 1))
        sem.append(fstd(v, 1) / math.sqrt(len(v)) if v else NAN)
        n.append(len(v))
    return {'mos': mos, 'std': std, 'sem': sem, 'n': n}


def norm_logpdf(x, mu, sd):
    return -0.5 * math.log(2 * math.pi) - np.log(sd) - (x - mu) ** 2 / (2 * sd ** 2)


def p910(X, max_itr=1000, thr=1e-8):
    V = Votes(X)
    s = V.by_e(V.x) / V.ne
    b = V.by_s(V.x - s[V.e]) / V.ns
    it = 0
    while True:
        sp = s
        r = V.x - s[V.e] - b[V.s]
        ms = V.by_s(r) / V.ns
        vi = np.sqrt(V.by_s((r - ms[V.s]) ** 2) / V.ns)
        me = V.by_e(r) / V.ne
        vj = np.sqrt(V.by_e((r - me[V.e]) ** 2) / V.ne)
        w = 1.0 / (vi ** 2 + 1e-8)
        s = V.by_e(w[V.s] * (V.x - b[V.s])) / V.by_e(w[V.s])
        b = V.by_s(V.x - s[V.e]) / V.ns
        it += 1
        if np.linalg.norm(sp - s) < thr or it >= max_itr:
            break
    r = V.x - s[V.e] - b[V.s]
    with np.errstate(all='ignore'):
        s_std_i = 1.0 / np.sqrt(V.by_e(1.0 / vi[V.s] ** 2))
        s_std_j = vj / np.sqrt(V.ne)
        b_std = vi / np.sqrt(V.ns)
        lpp = V.ns / vi ** 2 - 3 * V.by_s(r ** 2) / vi ** 4
        v_std = 1.0 / np.sqrt(np.maximum(0., -lpp))
    return dict(s=s, b=b, v=vi, vj=vj, it=it, s_std_i=s_std_i, s_std_j=s_std_j, b_std=b_std, v_std=v_std, V=V, r=r)


def v_ci(v, n):
    v, n = np.asarray(v, float), np.asarray(n)
    return [(1 - np.sqrt(n / _chi2.ppf(1 - 0.025, df=n))) * v, (np.sqrt(n / _chi2.ppf(0.025, df=n)) - 1) * v]


def mle_grads(V, ce, C, x, b, v, a):
    """first and second derivatives of the Gaussian log-likelihood in each parameter block"""
    x, b, v, a = [np.asarray(t, float) for t in (x, b, v, a)]
    ae = a[ce[V.e]]
    vs = v[V.s]
    var = vs ** 2 + ae ** 2
    r = V.x - x[V.e] - b[V.s]
    ll = float(np.sum(-0.5 * np.log(2 * np.pi * var) - r ** 2 / (2 * var)))
    gx, hx = V.by_e(r / var), -V.by_e(1 / var)
    gb, hb = V.by_s(r / var), -V.by_s(1 / var)
    # d/dv: dl/dvar = -1/(2var)+r^2/(2var^2);  dvar/dv = 2v
    l1 = -0.5 / var + r ** 2 / (2 * var ** 2)
    l2 = 0.5 / var ** 2 - r ** 2 / var ** 3
    gv = V.by_s(l1 * 2 * vs)
    hv = V.by_s(l2 * 4 * vs ** 2 + l1 * 2)
    cidx = ce[V.e]
    ga = np.bincount(cidx, weights=l1 * 2 * ae, minlength=C)
    ha = np.bincount(cidx, weights=l2 * 4 * ae ** 2 + l1 * 2, minlength=C)
    return dict(ll=ll, gx=gx, hx=hx, gb=gb, hb=hb, gv=gv, hv=hv, ga=ga, ha=ha)


def close(a, b, rtol=1e-9, atol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b))))


def maxdiff(a, b):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return 'shapes %s %s' % (a.shape, b.shape)
    with np.errstate(all='ignore'):
        d = np.abs(a - b)
    if d.size == 0:
        return 0.0
    i = int(np.nanargmax(np.where(np.isnan(d), -1, d)))
    return {'at': i, 'got': float(a.ravel()[i]), 'want': float(b.ravel()[i]), 'nan_mismatch': int(np.sum(np.isnan(a) != np.isnan(b)))}


def mle_iter(T, ce, C, kind, mos, thr=1e-8, max_itr=10000, rate=0.1):
    """the documented damped Newton iteration (bias, inconsistency, ambiguity, quality in turn), on the flat vote list"""
    V = Votes(T)
    S = V.S
    x = np.array(mos, float)
    res = V.x - x[V.e]
    ms = V.by_s(res) / V.ns
    b = np.zeros(S)
    v = np.sqrt(V.by_s((res - ms[V.s]) ** 2) / V.ns) if kind != 'so' else np.zeros(S)
    a = np.zeros(C)
    cidx = ce[V.e]
    usedc = np.bincount(cidx, minlength=C) > 0
    if kind != 'co':
        for c in range(C):
            if usedc[c]:
                a[c] = res[cidx == c].std()
    it = 0
    with np.errstate(all='ignore'):
        while True:
            xp = x
            if kind != 'so':
                var = v[V.s] ** 2 + a[cidx] ** 2
                r = V.x - x[V.e]
                b = b * (1 - rate) + rate * V.by_s(r / var) / V.by_s(1 / var)
                g = mle_grads(V, ce, C, x, b, v, a)
                v = np.maximum(v - rate * g['gv'] / g['hv'], 0.0)
            if kind != 'co':
                g = mle_grads(V, ce, C, x, b, v, a)
                a = np.where(usedc, np.maximum(a - rate * g['ga'] / g['ha'], 0.0), 0.0)
            var = v[V.s] ** 2 + a[cidx] ** 2
            x = x * (1 - rate) + rate * V.by_e((V.x - b[V.s]) / var) / V.by_e(1 / var)
            it += 1
            d = np.linalg.norm(xp - x)
            if not d >= thr or it >= max_itr:
                break
    return dict(x=x, b=b, v=v, a=a, it=it, ok=bool(d < thr))
