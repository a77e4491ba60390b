"""Reference model: plain float arithmetic from the published equations only."""
import math

import numpy as np

RHO = 1000.0
CP = 4181.0


def two_layer_step(p, dt, tu, tl, f):
    """One forward-difference step.  Returns (Tu', Tl', R') and their tolerances."""
    C = p["du"] * RHO * CP
    CD = p["dl"] * RHO * CP
    lam, a, eps, eta = p["lambda0"], p["a"], p["efficacy"], p["eta"]
    rad = lam * tu - a * tu * tu
    ex = eps * eta * (tu - tl)
    tu2 = tu + dt * (f - rad - ex) / C
    tl2 = tl + dt * eta * (tu - tl) / CD
    size = abs(f) + abs(lam * tu) + abs(a * tu * tu) + abs(eps * eta) * (abs(tu) + abs(tl))
    tol_u = 1e-11 * (abs(tu) + dt / abs(C) * size) if C else float("inf")
    tol_l = 1e-11 * (abs(tl) + dt * abs(eta) * (abs(tu) + abs(tl)) / abs(CD))
    r = f - rad - (eps - 1.0) * eta * (tu - tl)
    tol_r = 1e-11 * (
        abs(C) * (abs(tu2) + abs(tu)) / dt + abs(CD) * (abs(tl2) + abs(tl)) / dt + size
    )
    return (tu2, tl2, r), (tol_u, tol_l, tol_r)


def stored_heat_rate(p, dt, tu0, tl0, tu1, tl1):
    C = p["du"] * RHO * CP
    CD = p["dl"] * RHO * CP
    v = (C * (tu1 - tu0) + CD * (tl1 - tl0)) / dt
    tol = 1e-11 * (abs(C) * (abs(tu1) + abs(tu0)) + abs(CD) * (abs(tl1) + abs(tl0))) / dt
    return v, tol


def ir_implied(p):
    """Two-layer quantities implied by the two-timescale parameters (SI, K)."""
    q1, q2, d1, d2, eps = p["q1"], p["q2"], p["d1"], p["d2"], p["efficacy"]
    lam = 1.0 / (q1 + q2)
    # dT/dt at the onset of a unit forcing is 1/C
    C = 1.0 / (q1 / d1 + q2 / d2)
    # total equilibrium heat content per unit forcing: C/lam + eps*CD/lam = q1 d1 + q2 d2 (x lam)
    eCD = (q1 * d1 + q2 * d2) * lam * lam - C
    CD = eCD / eps
    # product of the timescales is C*CD/(lam*eta)
    eta = C * CD / (lam * d1 * d2)
    # phi_i: deep temperature per unit of surface temperature in mode i
    phi1 = (lam * d1 - C) / eCD if eCD else float("nan")
    phi2 = (lam * d2 - C) / eCD if eCD else float("nan")
    return {"lambda0": lam, "C": C, "CD": CD, "eta": eta, "phi1": phi1, "phi2": phi2}


def ir_step(p, dt, t1, t2, f, imp=None):
    out, tol = [], []
    for t, q, d in ((t1, p["q1"], p["d1"]), (t2, p["q2"], p["d2"])):
        x = dt / d
        out.append(t * math.exp(-x) - f * q * math.expm1(-x) if x > -700 else float("nan"))
        tol.append(1e-11 * (abs(t) + abs(f * q)))
    r, tr = ir_uptake(p, t1, t2, f, imp)
    out.append(r)
    tol.append(tr)
    return tuple(out), tuple(tol)


def ir_uptake(p, t1, t2, f, imp=None):
    imp = imp or ir_implied(p)
    lam, eta, eps = imp["lambda0"], imp["eta"], p["efficacy"]
    if eps == 1.0:
        e, es = 0.0, 0.0
    else:
        k = eta * (eps - 1.0)
        e = k * ((1 - imp["phi1"]) * t1 + (1 - imp["phi2"]) * t2)
        es = abs(k) * ((1 + abs(imp["phi1"])) * abs(t1) + (1 + abs(imp["phi2"])) * abs(t2))
    r = f - lam * (t1 + t2) - e
    # conditioning of C_D (difference of near-equal terms) enters through eta and phi
    q1, q2, d1, d2 = p["q1"], p["q2"], p["d1"], p["d2"]
    big = abs((q1 * d1 + q2 * d2) * lam * lam) + abs(imp["C"])
    eCD = abs(imp["CD"] * eps)
    cond = 1.0 + (big / eCD if eCD else float("inf"))
    return r, 1e-11 * (abs(f) + abs(lam) * (abs(t1) + abs(t2)) + es * cond * cond)


def two_layer_matrix(lam, C, CD, eta, eps):
    return np.array(
        [[-(lam + eps * eta) / C, eps * eta / C], [eta / CD, -eta / CD]], dtype=float
    )


def modes(lam, C, CD, eta, eps):
    """Timescales and modal sensitivities of the two-layer equations (eigen-analysis)."""
    A = two_layer_matrix(lam, C, CD, eta, eps)
    w, v = np.linalg.eig(A)
    order = np.argsort(w.real)  # most negative first = fastest
    w, v = w[order].real, v[:, order].real
    # step response of T: sum_i q_i (1 - exp(-t/d_i)), q_i = -v_0i * (v^-1 b)_i / w_i
    b = np.array([1.0 / C, 0.0])
    c = np.linalg.solve(v, b)
    d = -1.0 / w
    q = v[0, :] * c * d
    return d[0], d[1], q[0], q[1]


def exact_two_layer(lam, C, CD, eta, eps, dt, forcing):
    """Exact response to stepwise constant forcing via the matrix exponential."""
    from scipy.linalg import expm

    A = two_layer_matrix(lam, C, CD, eta, eps) * dt
    M = np.zeros((3, 3))
    M[:2, :2] = A
    M[0, 2] = dt / C
    E = expm(M)
    n = len(forcing)
    T = np.zeros(n)
    TD = np.zeros(n)
    R = np.zeros(n)
    for i in range(1, n):
        f = forcing[i - 1]
        R[i] = f - lam * T[i - 1] - (eps - 1.0) * eta * (T[i - 1] - TD[i - 1])
        T[i] = E[0, 0] * T[i - 1] + E[0, 1] * TD[i - 1] + E[0, 2] * f
        TD[i] = E[1, 0] * T[i - 1] + E[1, 1] * TD[i - 1] + E[1, 2] * f
    return T, TD, R
