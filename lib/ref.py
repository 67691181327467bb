"""Independent numpy model of what NimbleSM computes: fully integrated hex8, two material laws, velocity Verlet."""
import numpy as np
G = 0.57735026918962576451
SG = np.array([[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]], float)
QP = SG * G
def shape(xi): return np.prod(1 + SG * xi, axis=1) / 8
def dshape(xi):
    t = 1 + SG * xi
    return np.stack([SG[:, 0] * t[:, 1] * t[:, 2], SG[:, 1] * t[:, 0] * t[:, 2], SG[:, 2] * t[:, 0] * t[:, 1]], 1) / 8
N = np.array([shape(q) for q in QP])          # (8q, 8n)
DN = np.array([dshape(q) for q in QP])        # (8q, 8n, 3)

def jac(x):      # x (ne,8,3) -> (ne,8q,3,3)  J[a,b] = dx_a/dxi_b
    return np.einsum("qnb,ena->eqab", DN, x)
def detJ(x): return np.linalg.det(jac(x))
def F(X, x):
    return jac(x) @ np.linalg.inv(jac(X))
def volume(x): return detJ(x).sum(1)
def lumped(X, rho):
    w = detJ(X)                                # (ne,q)
    return rho * np.einsum("eq,qi->ei", w, N)  # sum_j N_j = 1 -> row sum of the consistent mass

class Mat:
    def __init__(s, model, K, Gm, rho): s.model, s.K, s.G, s.rho = model, K, Gm, rho
    def stress(s, Fm):
        I = np.eye(3)
        if s.model == "elastic":
            e = 0.5 * (Fm + np.swapaxes(Fm, -1, -2)) - I
            tr = np.trace(e, axis1=-2, axis2=-1)[..., None, None]
            return 2 * s.G * e + (s.K - 2 * s.G / 3) * tr * I
        J = np.linalg.det(Fm)[..., None, None]
        b = Fm @ np.swapaxes(Fm, -1, -2)
        bb = J ** (-2.0 / 3) * b
        dev = bb - np.trace(bb, axis1=-2, axis2=-1)[..., None, None] / 3 * I
        return 0.5 * s.K * (J - 1 / J) * I + s.G * dev / J
    def energy(s, Fm):
        """per reference volume"""
        if s.model == "elastic": raise ValueError
        J = np.linalg.det(Fm); C = Fm @ np.swapaxes(Fm, -1, -2)
        return 0.5 * s.K * (0.5 * (J * J - 1) - np.log(J)) + 0.5 * s.G * (J ** (-2.0 / 3) * np.trace(C, axis1=-2, axis2=-1) - 3)
    def wave(s): return np.sqrt(s.K / s.rho)

class Model:
    """mesh + material per block (list in block order)"""
    def __init__(s, mesh, mats):
        s.X = np.asarray(mesh.coords, float); s.mats = mats
        s.conn = [np.asarray(b["conn"], int).reshape(-1, 8) for b in mesh.blocks]
        s.n = len(s.X)
        s.m = np.zeros(s.n)
        for c, mt in zip(s.conn, mats):
            if len(c): np.add.at(s.m, c, lumped(s.X[c], mt.rho))
    def internal(s, u):
        f = np.zeros((s.n, 3)); x = s.X + u
        for c, mt in zip(s.conn, s.mats):
            if not len(c): continue
            J = jac(x[c]); Fm = J @ np.linalg.inv(jac(s.X[c]))
            sig = mt.stress(Fm)
            B = np.einsum("qnb,eqba->eqna", DN, np.linalg.inv(J))
            fe = -np.einsum("eq,eqna,eqab->enb", np.linalg.det(J), B, sig)
            np.add.at(f, c, fe)
        return f
    def force_scale(s, u):
        """per-node sum of absolute contributions (bounds the rounding error of internal())"""
        f = np.zeros((s.n, 3)); x = s.X + u
        for c, mt in zip(s.conn, s.mats):
            if not len(c): continue
            J = jac(x[c]); Fm = J @ np.linalg.inv(jac(s.X[c]))
            B = np.abs(np.einsum("qnb,eqba->eqna", DN, np.linalg.inv(J)))
            sc = np.maximum(np.abs(mt.stress(Fm)).max((-1, -2)), (mt.K + mt.G) * 1.0)
            fe = np.einsum("eq,eqna,eq->en", np.abs(np.linalg.det(J)), B, sc)
            np.add.at(f, c, np.repeat(fe[..., None], 3, -1))
        return f
    def strain_energy(s, u):
        x = s.X + u; W = 0.0
        for c, mt in zip(s.conn, s.mats):
            if len(c): W += (mt.energy(F(s.X[c], x[c])) * detJ(s.X[c])).sum()
        return W
    def crit_dt(s):
        best = np.inf
        for c, mt in zip(s.conn, s.mats):
            for e in c:
                P = s.X[e]
                D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1)); D[np.arange(8), np.arange(8)] = np.inf
                L = min(D.min(), (P.max(0) - P.min(0)).min())
                best = min(best, L / mt.wave())
        return best

def explicit(model, t0, t1, nsteps, freq, apply_ic, apply_bc, record, external=None):
    """central difference scheme as NimbleSM's documentation and loop define it; record(step, t, u, v, a, f) at output steps"""
    n = model.n; u = np.zeros((n, 3)); v = np.zeros((n, 3)); a = np.zeros((n, 3)); f = np.zeros((n, 3))
    apply_ic(v)
    apply_bc(t0, t0, u, v)
    record(0, t0, u, v, a, f)
    t = t0; dt = (t1 - t0) / nsteps
    with np.errstate(all="ignore"):
        for k in range(nsteps):
            tp = t; t = t + dt; d = t - tp
            v = v + 0.5 * d * a
            apply_bc(t, tp, u, v)
            u = u + d * v
            apply_bc(t, tp, u, v)
            f = model.internal(u)
            a = f / model.m[:, None]
            v = v + 0.5 * d * a
            last = k == nsteps - 1
            if freq and (k % freq == 0 or last):
                apply_bc(t, tp, u, v)
                record(k + 1, t, u, v, a, f)
    return u, v
