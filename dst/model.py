"""Independent reference model: velocity of a turbine from its settings, derived from Biot-Savart and from
the documented formulae, sharing no code with /repo.  See DESIGN.md for the derivations.

Cylinder frame of a turbine: z along the (yawed) shaft, y vertical, x = vertical x shaft.  The wake axis is
x = m z with m = (U.x)/(U.z), or m = tan(chi) for a prescribed skew angle."""
import numpy as np

NTH = 720


def rot(axis, ang):
    """rotation matrix, from the matrix exponential series of Rodrigues in vector form"""
    a = np.asarray(axis, float)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * K.dot(K)


def semi_tang(P, R, m, g):
    """semi-infinite (skewed) cylinder, tangential vorticity g per unit z.  P: (n,3) -> (n,3)
    ring at height s centred on (m s,0,s): u = g/4pi  int_0^inf ds  oint dl x d/|d|^3 , d = P - Q - s*(m,0,1)
    with  int_0^inf (p + q s)/(A + B s + C s^2)^1.5 ds = 2 (p sqrt(C) + q sqrt(A)) / (sqrt(A) (2 sqrt(A C) + B))"""
    th = (np.arange(NTH) + 0.5) * 2 * np.pi / NTH
    Q = R * np.array([np.cos(th), np.sin(th), 0 * th])
    dl = R * np.array([-np.sin(th), np.cos(th), 0 * th])
    w = np.array([m, 0., 1.])
    out = np.empty((len(P), 3))
    C = 1 + m * m
    dlw = np.cross(dl.T, w)                       # dl x w
    for i, p in enumerate(P):
        d = (p[:, None] - Q)                      # 3 x n
        A = (d * d).sum(0)
        B = -2 * (w[:, None] * d).sum(0)
        num0 = np.cross(dl.T, d.T)                # dl x d
        I = 2 * (num0 * np.sqrt(C) - dlw * np.sqrt(A)[:, None]) / (np.sqrt(A) * (2 * np.sqrt(A * C) + B))[:, None]
        out[i] = g / (4 * np.pi) * I.sum(0) * (2 * np.pi / NTH)
    return out


def semi_line(P, Q, w, G):
    """semi-infinite vortex lines from the points Q (k,3) along the unit vector w, circulation G each"""
    out = np.zeros((len(P), 3))
    for i, p in enumerate(P):
        d = p - Q
        n = np.sqrt((d * d).sum(1))
        den = n * (n - d.dot(w))
        out[i] = (G / (4 * np.pi) * np.cross(w, d) / den[:, None]).sum(0)
    return out


def semi_longi(P, R, m, g):
    """longitudinal vorticity: lines along the wake axis from the circle, circulation g*R*dtheta"""
    th = (np.arange(NTH) + 0.5) * 2 * np.pi / NTH
    Q = R * np.array([np.cos(th), np.sin(th), 0 * th]).T
    w = np.array([m, 0, 1]) / np.sqrt(1 + m * m)
    return semi_line(P, Q, w, g * R * 2 * np.pi / NTH)


def semi_root(P, m, G):
    w = np.array([m, 0, 1]) / np.sqrt(1 + m * m)
    return semi_line(P, np.zeros((1, 3)), w, G)


def doublet_line(P, d):
    """semi-infinite line (z>0) of doublets of strength d per length: u = -d/(4 pi) P/|P|^3"""
    n = np.sqrt((P * P).sum(1))
    return -d / (4 * np.pi) * P / n[:, None] ** 3


def self_similar(P, R, g):
    r = np.hypot(P[:, 0], P[:, 1])
    z = P[:, 2]
    r12 = R * np.sqrt(0.587 * (1.32 + (z / R) ** 2))
    uz = g / 2 * (1 + z / np.sqrt(z ** 2 + R ** 2)) * np.cosh(np.sqrt(2) * r / r12) ** (-8. / 9)
    uz = np.where(z > 0, 0, uz)
    return np.array([0 * uz, 0 * uz, uz]).T


class Ref:
    """geometry of one turbine"""
    def __init__(self, s):
        """s: Settings"""
        shaft = np.asarray(s.shaft, float)
        self.vert = np.asarray(s.vert, float)
        self.shaft = rot(self.vert, s.yaw).dot(shaft)
        self.ex = np.cross(self.vert, self.shaft)
        self.F = np.array([self.ex, self.vert, self.shaft])    # rows: cylinder axes in global coordinates
        self.U = np.asarray(s.U, float)
        self.hub = np.asarray(s.hub, float)
        self.R = s.R
        ux, uz = self.ex.dot(self.U), self.shaft.dot(self.U)
        self.skew = np.arctan2(ux, uz) if s.chi is None else s.chi
        self.m = np.tan(self.skew)

    def local(self, G):
        return (G - self.hub).dot(self.F.T)

    def images(self, G, ground):
        P = self.local(G)
        out = [P]
        if ground:
            h = self.vert.dot(self.hub)
            out.append(P + np.array([0, 2 * h, 0]))
        return out

    def clear(self, G, radii, ground, root):
        """distance of every point from the nearest vortex sheet or root line, in units of R"""
        d = np.full(len(G), np.inf)
        for P in self.images(G, ground):
            z = np.maximum(P[:, 2], 0)
            x = P[:, 0] - self.m * z
            rr = np.hypot(x, P[:, 1])
            up = np.where(P[:, 2] < 0, -P[:, 2], 0)
            for R in radii:
                d = np.minimum(d, np.hypot(rr - R, up))
            # the sheet is inclined: the distance within a section overestimates the true one
            if root:
                d = np.minimum(d, np.hypot(rr, up))
        c = 1 / np.sqrt(1 + self.m ** 2)
        return d * c / self.R
