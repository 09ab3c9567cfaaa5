"""Independent reference values for uniform Q1 meshes of the unit interval / square."""
import math


def tau_ref(dim, n, lam=1.0):
    """min_i m_i / (2 sum_j lambda max(|c_ij|,|c_ji|)) on a uniform n^dim mesh of [0,1]^dim.

    This is the largest time-step (CFL number one) of the graph viscosity method."""
    h = 1.0 / n
    if dim == 1:
        return h / (2 * lam)
    # 1D matrices on n cells: mass row and derivative c(i,j) = int phi_i phi_j'
    def m1(i, j):
        if i == j:
            return 2 * h / 3 if 0 < i < n else h / 3
        return h / 6
    def c1(i, j):
        if i == j:
            return -0.5 if i == 0 else (0.5 if i == n else 0.0)
        return 0.5 if j > i else -0.5
    def l1(i):
        return h if 0 < i < n else h / 2
    best = 1e300
    R = [0, 1, 2, n // 2]
    for ix in R:
        for iy in R:
            s = 0.0
            for jx in range(max(0, ix - 1), min(n, ix + 1) + 1):
                for jy in range(max(0, iy - 1), min(n, iy + 1) + 1):
                    if (jx, jy) == (ix, iy):
                        continue
                    a = math.hypot(c1(ix, jx) * m1(iy, jy), m1(ix, jx) * c1(iy, jy))
                    b = math.hypot(c1(jx, ix) * m1(jy, iy), m1(jx, ix) * c1(jy, iy))
                    s += lam * max(a, b)
            best = min(best, l1(ix) * l1(iy) / (2 * s))
    return best


# share of the stage combination that reaches a source term through the off-diagonal
# entries of the consistent mass matrix (1 - m_ii/m_i): see known finding on C02
THETA = {1: (1, 3), 2: (5, 9)}
