"""Reference formulas, as value-graph terms, written from the statements of the properties."""
from .. import term as tm

P, V, R, BA, BG = 0, 3, 6, 9, 12
NA, NG, NWA, NWG = 0, 3, 6, 9
IMU = 15


def skew(v):
    x, y, z = (tm.mc(v, i) for i in range(3))
    return tm.mlit(3, 3, [0.0, tm.neg(z), y, z, 0.0, tm.neg(x), tm.neg(y), x, 0.0])


def deltaq(v):
    return tm.qlit(1.0, tm.mul(0.5, tm.mc(v, 0)), tm.mul(0.5, tm.mc(v, 1)), tm.mul(0.5, tm.mc(v, 2)))


def add(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = tm.madd(r, x)
    return r


def mul(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = tm.mmul(r, x)
    return r


def put(a, i, j, x):
    return tm.mset(a, i, j, x)


def seg(v, i, n=3):
    return tm.mblk(v, i, 0, n, 1)


def scale(s, a):
    return tm.mscale(s, a)


def norm_q(q):
    return tm.qnormd(q)


def step(s0, m0, m1, t0, t1, ba, bg, g):
    """midpoint step of the strapdown equations; s = (p, v, q), m = (accel, gyro)"""
    dt = tm.sub(t1, t0)
    w = tm.msub(scale(0.5, tm.madd(m0[1], m1[1])), bg)
    q = norm_q(tm.qmul(s0[2], deltaq(scale(dt, w))))
    a = scale(0.5, tm.madd(tm.qrot(s0[2], tm.msub(m0[0], ba)), tm.qrot(q, tm.msub(m1[0], ba))))
    v = tm.madd(s0[1], scale(dt, tm.msub(a, g)))
    p = tm.madd(s0[0], scale(dt, scale(0.5, tm.madd(s0[1], v))))
    return p, v, q


def transition(q0, m0, m1, t0, t1, ba, bg):
    """(F, G) of the error state at the predecessor"""
    dt = tm.sub(t1, t0)
    R0 = tm.qmat(q0)
    a = tm.msub(scale(0.5, tm.madd(m0[0], m1[0])), ba)
    w = tm.msub(scale(0.5, tm.madd(m0[1], m1[1])), bg)
    I = tm.mid(3)
    dI = scale(dt, I)
    F = tm.mid(IMU)
    F = put(F, P, V, dI)
    F = put(F, V, R, scale(tm.neg(dt), mul(R0, skew(a))))
    F = put(F, V, BA, scale(tm.neg(dt), R0))
    F = put(F, R, R, tm.msub(I, scale(dt, skew(w))))
    F = put(F, R, BG, tm.mneg(dI))
    G = tm.mzero(IMU, 12)
    G = put(G, P, NA, scale(tm.mul(0.5, tm.mul(dt, dt)), R0))
    G = put(G, V, NA, scale(dt, R0))
    G = put(G, R, NG, dI)
    G = put(G, BA, NWA, dI)
    G = put(G, BG, NWG, dI)
    return F, G


def camera(qwb, pwb, qbc, pbc):
    """pose of a camera"""
    return tm.qmul(qwb, qbc), tm.madd(tm.qrot(qwb, pbc), pwb)


def projection(pw, qwb, pwb, qbc, pbc):
    """(prediction, depth, derivatives with respect to point, body pose, camera extrinsics)"""
    Rbw, Rcb = tm.mtr(tm.qmat(qwb)), tm.mtr(tm.qmat(qbc))
    pb = mul(Rbw, tm.msub(pw, pwb))
    pc = mul(Rcb, tm.msub(pb, pbc))
    x, y, z = (tm.mc(pc, i) for i in range(3))
    iz = tm.div(1.0, z)
    pred = tm.mlit(2, 1, [tm.div(x, z), tm.div(y, z)])
    J = tm.mlit(2, 3, [iz, 0.0, tm.neg(tm.div(x, tm.mul(z, z))), 0.0, iz, tm.neg(tm.div(y, tm.mul(z, z)))])
    Hf = mul(J, Rcb, Rbw)
    return pred, z, Hf, (tm.mneg(Hf), mul(J, Rcb, skew(pb))), (tm.mneg(mul(J, Rcb)), mul(J, skew(pc)))


def without(a, i, n, rows=True, cols=True):
    """matrix without n rows and columns from i on"""
    r, c = a.sh
    if rows:
        x = tm.mzero(r - n, c)
        if i:
            x = put(x, 0, 0, tm.mblk(a, 0, 0, i, c))
        if r - n - i:
            x = put(x, i, 0, tm.mblk(a, i + n, 0, r - n - i, c))
        a, r = x, r - n
    if cols:
        x = tm.mzero(r, c - n)
        if i:
            x = put(x, 0, 0, tm.mblk(a, 0, 0, r, i))
        if c - n - i:
            x = put(x, 0, i, tm.mblk(a, 0, i + n, r, c - n - i))
        a = x
    return a


def joint(imu, cross, cam):
    n = IMU + cam.sh[0]
    a = tm.mzero(n, n)
    a = put(a, 0, 0, imu)
    a = put(a, 0, IMU, cross)
    a = put(a, IMU, 0, tm.mtr(cross))
    return put(a, IMU, IMU, cam)


def clone(a):
    """joint covariance with the IMU pose appended"""
    n = a.sh[0]
    J = tm.mzero(6, n)
    J = put(J, 0, P, tm.mid(3))
    J = put(J, 3, R, tm.mid(3))
    JA = tm.mzero(6, n)
    JA = put(JA, 0, 0, tm.mblk(a, P, 0, 3, n))
    JA = put(JA, 3, 0, tm.mblk(a, R, 0, 3, n))
    AJ = tm.mzero(n, 6)
    AJ = put(AJ, 0, 0, tm.mblk(a, 0, P, n, 3))
    AJ = put(AJ, 0, 3, tm.mblk(a, 0, R, n, 3))
    JAJ = tm.mzero(6, 6)
    JAJ = put(JAJ, 0, 0, tm.mblk(JA, 0, P, 6, 3))
    JAJ = put(JAJ, 0, 3, tm.mblk(JA, 0, R, 6, 3))
    b = tm.mzero(n + 6, n + 6)
    b = put(b, 0, 0, a)
    b = put(b, n, 0, JA)
    b = put(b, 0, n, AJ)
    return put(b, n, n, JAJ)


def norm2(q):
    r = 0.0
    for k in range(4):
        c = tm.qc(q, k)
        r = tm.add(r, tm.mul(c, c))
    return r
