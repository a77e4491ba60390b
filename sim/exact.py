"""Eigen-analysis of the two-layer equations in 60-digit decimal arithmetic."""
from decimal import Decimal, getcontext, localcontext

D = Decimal


def modes(lam, C, CD, eta, eps):
    """(d1, d2, q1, q2, sensitivity): timescales and modal step responses, as floats.

    ``sensitivity`` bounds how much relative rounding a double-precision closed form
    may legitimately amplify (cancellations in the small eigenvalue and its vector).
    """
    with localcontext() as ctx:
        ctx.prec = 60
        lam, C, CD, eta, eps = (D(float(x)) for x in (lam, C, CD, eta, eps))
        # dT/dt = M T + b: characteristic polynomial s^2 + tr s + det = 0
        m00, m01 = -(lam + eps * eta) / C, eps * eta / C
        m10, m11 = eta / CD, -eta / CD
        tr = -(m00 + m11)
        det = m00 * m11 - m01 * m10
        disc = tr * tr - 4 * det
        root = disc.sqrt()
        fast, slow = (tr + root) / 2, (tr - root) / 2  # decay rates
        out = []
        for s, o in ((fast, slow), (slow, fast)):
            # transfer function of the upper layer: (p + eta/CD)/C / ((p+fast)(p+slow));
            # residue at p = -s gives the mode's share of the step response: q = residue/s
            res = (-m11 - s) / C / (o - s)
            out.append((1 / s, res / s))
        k1 = tr * tr / (4 * det)
        k2 = (m00 - m11) ** 2 / (4 * m01 * m10)
        return (float(out[0][0]), float(out[1][0]), float(out[0][1]), float(out[1][1]), float(max(k1, k2, 1) + tr / root))


def two_layer(q1, q2, d1, d2, eps):
    """Two-layer parameters (lam, C, CD, eta) with given modes, and their sensitivity."""
    with localcontext() as ctx:
        ctx.prec = 60
        q1, q2, d1, d2, eps = (D(float(x)) for x in (q1, q2, d1, d2, eps))
        lam = 1 / (q1 + q2)
        C = 1 / (q1 / d1 + q2 / d2)  # initial slope of the step response
        # transfer function zero at -eta/CD
        zero = (q1 / d1 * (1 / d2) + q2 / d2 * (1 / d1)) / (q1 / d1 + q2 / d2)
        # d1 d2 = C CD/(lam eta)  and  sum of rates = (lam + eps eta)/C + eta/CD
        tr = 1 / d1 + 1 / d2
        eta = ((tr - zero) * C - lam) / eps
        CD = eta / zero
        sens = (lam * (q1 * d1 + q2 * d2) * lam + C) / (CD * eps) if CD else D(10) ** 30
        return float(lam), float(C), float(CD), float(eta), float(sens)
