"""Statistical oracles. A verdict always takes two stages: a first sample whose
p-value falls below P1 is only a suspicion; it is confirmed on a fresh, larger
sample whose p-value has to fall below P2. For code that satisfies the property
the chance of one false alarm per test is below P1 * P2 = 1e-15."""
import numpy as np
from scipy import stats as st

P1, P2 = 1e-6, 1e-9


def two_stage(draw, pvalue, n1, n2):
    """draw(n) -> sample, pvalue(sample) -> float. Returns (violated, p1, p2)."""
    p1 = float(pvalue(draw(n1)))
    if not p1 < P1:
        return False, p1, None
    p2 = float(pvalue(draw(n2)))
    return p2 < P2, p1, p2


def ks(u):
    """p-value of uniformity of u (PIT values in [0, 1])."""
    u = np.sort(np.asarray(u, np.float64).ravel())
    n = len(u)
    if not np.all(np.isfinite(u)):
        return 0.
    k = np.arange(1, n + 1)
    d = max(np.max(k / n - u), np.max(u - (k - 1) / n))
    # discreteness of float sampling may shift the cdf by a few 1e-7
    d = max(0., d - 1e-5)
    return float(st.kstwobign.sf(d * np.sqrt(n)))


def chi2_counts(counts, probs):
    """p-value of observed counts against cell probabilities; cells with small
    expectation are pooled."""
    counts = np.asarray(counts, np.float64).ravel()
    probs = np.asarray(probs, np.float64).ravel()
    n = counts.sum()
    if np.any(counts[probs <= 0] > 0):
        return 0.
    order = np.argsort(probs)
    c, p = counts[order], probs[order] * n
    oc, oe, ac, ae = [], [], 0., 0.
    for ci, pi in zip(c, p):
        ac += ci
        ae += pi
        if ae >= 10:
            oc.append(ac)
            oe.append(ae)
            ac = ae = 0.
    if oc:
        oc[-1] += ac
        oe[-1] += ae
    if len(oc) < 2:
        return 1.
    oc, oe = np.array(oc), np.array(oe)
    return float(st.chi2.sf(np.sum((oc - oe) ** 2 / oe), len(oc) - 1))


def binom_p(k, n, p):
    """two-sided p-value of k successes in n trials"""
    lo = st.binom.cdf(k, n, p)
    hi = st.binom.sf(k - 1, n, p)
    return float(min(1., 2 * min(lo, hi)))


def corr_p(x, y):
    """p-value of zero correlation of two samples (normal scores of ranks)."""
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    n = len(x)
    if n < 20 or np.ptp(x) == 0 or np.ptp(y) == 0:
        return 1.
    rx, ry = st.rankdata(x), st.rankdata(y)
    r = np.corrcoef(rx, ry)[0, 1]
    if not np.isfinite(r):
        return 1.
    z = np.arctanh(np.clip(r, -1 + 1e-15, 1 - 1e-15)) * np.sqrt(max(n - 3, 1))
    return float(2 * st.norm.sf(abs(z)))


def mean_p(x, mu):
    """p-value of E[x] = mu by a t-test (x must have finite variance)."""
    x = np.asarray(x, float).ravel()
    s = x.std(ddof=1)
    n = len(x)
    if s == 0:
        return 1. if abs(x.mean() - mu) <= 1e-9 * (1 + abs(mu)) else 0.
    return float(2 * st.t.sf(abs(x.mean() - mu) / (s / np.sqrt(n)), n - 1))
