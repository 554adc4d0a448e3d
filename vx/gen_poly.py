#!/usr/bin/env python3
"""Writes contracts/pv.vc, pc.vc, pq.vc, pm.vc, pt.vc: polynomial identities over a commutative ring.
Each lemma is a set of equations between polynomials; its proof is the normalisation of contracts/poly.vc, run by Verus (by(compute_only))."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
class E:
    def __init__(self, ex, sp, d): self.ex, self.sp, self.d = ex, sp, d
    def __add__(a, b): return E("xa(%s, %s)" % (a.ex, b.ex), "sp_add(%s, %s)" % (a.sp, b.sp), max(a.d, b.d) + 1)
    def __sub__(a, b): return E("xs(%s, %s)" % (a.ex, b.ex), "sp_sub(%s, %s)" % (a.sp, b.sp), max(a.d, b.d) + 1)
    def __mul__(a, b): return E("xm(%s, %s)" % (a.ex, b.ex), "sp_mul(%s, %s)" % (a.sp, b.sp), max(a.d, b.d) + 1)
    def __neg__(a): return E("xn(%s)" % a.ex, "sp_neg(%s)" % a.sp, a.d + 1)
Z = E("Ex::Z", "T::zero_spec()", 1); I = E("Ex::I", "T::one_spec()", 1)
def vs(names): return [E("Ex::V(%d)" % i, n, 1) for i, n in enumerate(names)]
def lemma(name, names, eqs, doc=None):
    o = ["pub proof fn %s<T: Neg<Output = T> + Num>(%s) requires is_cring::<T>()" % (name, ", ".join(n + ": T" for n in names)), "    ensures"]
    o += ["        %s == %s," % (l.sp, r.sp) for l, r in eqs]
    o += ["{", "    let v = seq![%s];" % ", ".join(names)]
    d = max(max(l.d, r.d) for l, r in eqs)
    for k, (l, r) in enumerate(eqs): o.append("    assert(nf(xs(%s, %s)) == Li::E) by(compute_only); poly_eq(%s, %s, v);" % (l.ex, r.ex, l.ex, r.ex))
    o.append("    reveal_with_fuel(ev, %d);" % (d + 2))
    o.append("}")
    return "\n".join(o)
# mirrors of the specification functions (a difference only makes the lemma useless, never unsound)
def cmul(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def cadd(a, b): return tuple(x + y for x, y in zip(a, b))
def csub(a, b): return tuple(x - y for x, y in zip(a, b))
def cconj(a): return (a[0], -a[1])
def cnsq(a): return a[0] * a[0] + a[1] * a[1]
def qmul(a, b):
    w, x, y, z = a; W, X, Y, V = b
    return (w * W - x * X - y * Y - z * V, w * X + x * W + y * V - z * Y, w * Y - x * V + y * W + z * X, w * V + x * Y - y * X + z * W)
def qcmul(a, b): w, x, y, z = a; r, i = b; return (w * r - x * i, w * i + x * r, z * i + y * r, z * r - y * i)
def cqmul(a, b): r, i = a; w, x, y, z = b; return (r * w - i * x, r * x + i * w, r * y - i * z, r * z + i * y)
def qconj(a): return (a[0], -a[1], -a[2], -a[3])
def dot(a, b):
    s = a[0] * b[0]
    for x, y in list(zip(a, b))[1:]: s = s + x * y
    return s
def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def muls(a, s): return tuple(x * s for x in a)
def names(*groups): return [g + str(i) if n > 1 else g for g, n in groups for i in range(n)]
def grp(*groups):
    v = vs(names(*groups)); o = []; k = 0
    for g, n in groups: o.append(tuple(v[k:k + n]) if n > 1 else v[k]); k += n
    return o
def L(name, groups, f):
    g = grp(*groups); return lemma(name, names(*groups), f(*g))
def zipeq(a, b): return list(zip(a, b))
V3 = [("a", 3), ("b", 3)]
out = {}
out["pv"] = [
    L("pl_cross_anti", V3, lambda a, b: zipeq(cross(a, b), tuple(-x for x in cross(b, a)))),
    L("pl_cross_orth", V3, lambda a, b: [(dot(a, cross(a, b)), Z), (dot(b, cross(a, b)), Z)]),
    L("pl_lagrange", V3, lambda a, b: [(dot(cross(a, b), cross(a, b)), dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b))]),
    L("pl_cross2", [("a", 2), ("b", 2)], lambda a, b: [(a[0] * b[1] - a[1] * b[0], -(b[0] * a[1] - b[1] * a[0]))]),
]
V4 = [("a", 4), ("b", 4)]
cross4 = lambda a, b: cross(a, b) + (Z,)
out["pv"] += [
    L("pl_cross4", V4, lambda a, b: zipeq(cross4(a, b), tuple(-x for x in cross4(b, a))) + [(dot(a, cross4(a, b)), Z), (dot(b, cross4(a, b)), Z)]),
    L("pl_cross_bilin", V3 + [("c", 3), ("t", 1)], lambda a, b, c, t: zipeq(cross(a, tuple(x + y for x, y in zip(b, c))), tuple(x + y for x, y in zip(cross(a, b), cross(a, c)))) + zipeq(cross(a, muls(b, t)), muls(cross(a, b), t))),
]
C2 = [("a", 2), ("b", 2)]; C3 = C2 + [("c", 2)]
out["pc"] = [
    L("pl_c_assoc", C3, lambda a, b, c: zipeq(cmul(cmul(a, b), c), cmul(a, cmul(b, c)))),
    L("pl_c_comm", C2, lambda a, b: zipeq(cmul(a, b), cmul(b, a)) + zipeq(cadd(a, b), cadd(b, a))),
    L("pl_c_distr", C3, lambda a, b, c: zipeq(cmul(a, cadd(b, c)), cadd(cmul(a, b), cmul(a, c))) + zipeq(cmul(cadd(b, c), a), cadd(cmul(b, a), cmul(c, a)))),
    L("pl_c_addassoc", C3, lambda a, b, c: zipeq(cadd(cadd(a, b), c), cadd(a, cadd(b, c)))),
    L("pl_c_unit", [("a", 2)], lambda a: zipeq(cmul((I, Z), a), a) + zipeq(cmul(a, (I, Z)), a) + zipeq(cadd(a, (Z, Z)), a) + zipeq(cadd(a, tuple(-x for x in a)), (Z, Z)) + zipeq(cmul((Z, I), (Z, I)), (-I, Z))),
    L("pl_c_sub", C2, lambda a, b: zipeq(csub(a, b), cadd(a, tuple(-x for x in b)))),
    L("pl_c_conj", C2, lambda a, b: zipeq(cconj(cmul(a, b)), cmul(cconj(a), cconj(b))) + zipeq(cmul(a, cconj(a)), (cnsq(a), Z)) + zipeq(cconj(cconj(a)), a)),
    L("pl_c_nsq", C2, lambda a, b: [(cnsq(cmul(a, b)), cnsq(a) * cnsq(b))]),
    L("pl_c_zero", [("a", 2)], lambda a: zipeq(cmul(a, (Z, Z)), (Z, Z)) + zipeq(cmul((Z, Z), a), (Z, Z))),
    L("pl_c_mat", C2, lambda a, b: [(a[0] * b[0] + (-a[1]) * b[1], cmul(a, b)[0]), (a[0] * (-b[1]) + (-a[1]) * b[0], -(cmul(a, b)[1])), (a[1] * b[0] + a[0] * b[1], cmul(a, b)[1]), (a[1] * (-b[1]) + a[0] * b[0], cmul(a, b)[0])]),
    L("pl_c_mulinv", [("a", 2), ("y", 1)], lambda a, y: zipeq(cmul(a, muls(cconj(a), y)), (cnsq(a) * y, Z)) + zipeq(cmul(muls(cconj(a), y), a), (cnsq(a) * y, Z))),
]
Q2 = [("a", 4), ("b", 4)]; Q3 = Q2 + [("c", 4)]
qa = lambda a, b: tuple(x + y for x, y in zip(a, b))
out["pq"] = [
    L("pl_q_assoc", Q3, lambda a, b, c: zipeq(qmul(qmul(a, b), c), qmul(a, qmul(b, c)))),
    L("pl_q_distr", Q3, lambda a, b, c: zipeq(qmul(a, qa(b, c)), qa(qmul(a, b), qmul(a, c))) + zipeq(qmul(qa(b, c), a), qa(qmul(b, a), qmul(c, a)))),
    L("pl_q_unit", [("a", 4)], lambda a: zipeq(qmul((I, Z, Z, Z), a), a) + zipeq(qmul(a, (I, Z, Z, Z)), a)),
    L("pl_q_table", [("a", 4)], lambda a: sum([zipeq(qmul(p, q), r) for p, q, r in (
        lambda i, j, k, m: [(i, j, k), (j, k, i), (k, i, j), (i, i, m), (j, j, m), (k, k, m)])((Z, I, Z, Z), (Z, Z, I, Z), (Z, Z, Z, I), (-I, Z, Z, Z))], [])),
    L("pl_q_conj", Q2, lambda a, b: zipeq(qconj(qmul(a, b)), qmul(qconj(b), qconj(a))) + zipeq(qmul(a, qconj(a)), (dot(a, a), Z, Z, Z)) + zipeq(qmul(qconj(a), a), (dot(a, a), Z, Z, Z))),
    L("pl_q_nsq", Q2, lambda a, b: [(dot(qmul(a, b), qmul(a, b)), dot(a, a) * dot(b, b))]),
    L("pl_q_mulinv", [("a", 4), ("y", 1)], lambda a, y: zipeq(qmul(a, muls(qconj(a), y)), (dot(a, a) * y, Z, Z, Z)) + zipeq(qmul(muls(qconj(a), y), a), (dot(a, a) * y, Z, Z, Z))),
    L("pl_q_real", [("a", 4), ("t", 1)], lambda a, t: zipeq(muls(a, t), qmul(a, (t, Z, Z, Z))) + zipeq(muls(a, t), qmul((t, Z, Z, Z), a))),
    L("pl_qc_nsq", [("a", 2)], lambda a: [(dot((a[0], a[1], Z, Z), (a[0], a[1], Z, Z)), cnsq(a))]),
    L("pl_q_mat", Q2, lambda a, b: zipeq(qmul(a, b), (lambda w, x, y, z: (dot((w, -x, -y, -z), b), dot((x, w, -z, y), b), dot((y, z, w, -x), b), dot((z, -y, x, w), b)))(*a))),
    L("pl_q_zero", [("a", 4)], lambda a: zipeq(qmul(a, (Z, Z, Z, Z)), (Z, Z, Z, Z)) + zipeq(qmul((Z, Z, Z, Z), a), (Z, Z, Z, Z))),
    L("pl_qc_emul", C2, lambda a, b: zipeq(qmul((a[0], a[1], Z, Z), (b[0], b[1], Z, Z)), cmul(a, b) + (Z, Z))),
    L("pl_qc_embed", [("a", 4), ("b", 2)], lambda a, b: zipeq(qcmul(a, b), qmul(a, (b[0], b[1], Z, Z))) + zipeq(cqmul(b, a), qmul((b[0], b[1], Z, Z), a))),
]
one_ = lambda x: Z + x * I
mdet = lambda m: (Z + m[0] * one_(m[3])) + m[1] * (-one_(m[2]))
mch = lambda f, g: (f[0] * g[0] + f[1] * g[2], f[0] * g[1] + f[1] * g[3], f[2] * g[0] + f[3] * g[2], f[2] * g[1] + f[3] * g[3])
minv = lambda m, y: (one_(m[3]) * y, (-one_(m[1])) * y, (-one_(m[2])) * y, one_(m[0]) * y)
out["pm"] = [
    L("pl_mo_det", [("a", 4)], lambda a: [(mdet(a), a[0] * a[3] - a[1] * a[2]), (mdet((I, Z, Z, I)), I)]),
    L("pl_mo_detmul", [("a", 4), ("b", 4)], lambda a, b: [(mdet(mch(a, b)), mdet(a) * mdet(b))]),
    L("pl_mo_inv", [("a", 4), ("y", 1)], lambda a, y: zipeq(mch(minv(a, y), a), (mdet(a) * y, Z, Z, mdet(a) * y)) + zipeq(mch(a, minv(a, y)), (mdet(a) * y, Z, Z, mdet(a) * y))),
]
rot2 = lambda c, x: cmul(x, c)
rotq = lambda q, x: qmul(qmul(q, (Z,) + tuple(x)), qconj(q))
rot3 = lambda q, x: rotq(q, x)[1:]
add = lambda a, b: tuple(x + y for x, y in zip(a, b))
out["pt"] = [
    L("pl_rot2", [("a", 2), ("b", 2), ("x", 2), ("y", 2), ("t", 1)], lambda a, b, x, y, t: zipeq(rot2(cmul(a, b), x), rot2(a, rot2(b, x))) + zipeq(rot2((I, Z), x), x) + zipeq(rot2(cconj(a), rot2(a, x)), muls(x, cnsq(a))) + zipeq(rot2(a, rot2(cconj(a), x)), muls(x, cnsq(a)))
        + zipeq(rot2(a, add(x, y)), add(rot2(a, x), rot2(a, y))) + zipeq(rot2(a, muls(x, t)), muls(rot2(a, x), t))),
    L("pl_rot3w", [("a", 4), ("x", 3)], lambda a, x: [(rotq(a, x)[0], Z)]),
    L("pl_rot3id", [("x", 3)], lambda x: zipeq(rot3((I, Z, Z, Z), x), x)),
    L("pl_rot3lin", [("a", 4), ("x", 3), ("y", 3), ("t", 1)], lambda a, x, y, t: zipeq(rot3(a, add(x, y)), add(rot3(a, x), rot3(a, y))) + zipeq(rot3(a, muls(x, t)), muls(rot3(a, x), t))),
]
two = I + I
def rod(c, s, u, v):
    k = cross(u, v); p = c * c - s * s * dot(u, u); q = two * c * s; r = two * s * s * dot(u, v)
    return tuple(v[i] * p + k[i] * q + u[i] * r for i in range(3))
def rmat(q, o, t):
    w, x, y, z = q; T = lambda a, b: t * a * b
    return ((o - T(y, y) - T(z, z), T(x, y) - T(z, w), T(x, z) + T(y, w)), (T(x, y) + T(z, w), o - T(x, x) - T(z, z), T(y, z) - T(x, w)), (T(x, z) - T(y, w), T(y, z) + T(x, w), o - T(x, x) - T(y, y)))
neg3 = lambda d: tuple(-c for c in d)
lc3 = lambda e, f, g, x: tuple(e[i] * x[0] + f[i] * x[1] + g[i] * x[2] for i in range(3))
c2 = lambda a, b: a[0] * b[1] - a[1] * b[0]
out["pr"] = [
    L("pl_rot2iso", [("a", 2), ("x", 2), ("y", 2)], lambda a, x, y: [(dot(rot2(a, x), rot2(a, y)), cnsq(a) * dot(x, y)), (c2(rot2(a, x), rot2(a, y)), cnsq(a) * c2(x, y)), (dot((a[0], -a[1]), x), rot2(a, x)[0]), (dot((a[1], a[0]), x), rot2(a, x)[1])]),
    L("pl_rod", [("c", 1), ("s", 1), ("u", 3), ("x", 3)], lambda c, s, u, x: zipeq(rot3((c,) + muls(u, s), x), rod(c, s, u, x))),
    L("pl_axnsq", [("c", 1), ("s", 1), ("u", 3)], lambda c, s, u: [(dot((c,) + muls(u, s), (c,) + muls(u, s)), c * c + s * s * dot(u, u))]),
    L("pl_axself", [("c", 1), ("s", 1), ("u", 3)], lambda c, s, u: zipeq(rot3((c,) + muls(u, s), u), muls(u, c * c + s * s * dot(u, u)))),
    L("pl_rmat", [("a", 4), ("x", 3)], lambda a, x: [(dot(r, x), e) for r, e in zip(rmat(a, dot(a, a), two), rot3(a, x))]),
    L("pl_qpure", V3, lambda a, b: zipeq(qmul((Z,) + a, (Z,) + b), (-dot(a, b),) + cross(a, b)) + [(dot((Z,) + a, (Z,) + b), dot(a, b))]),
    L("pl_diffsq", [("n", 1), ("m", 1)], lambda n, m: [((n - m) * (n + m), n * n - m * m)]),
    L("pl_frame", [("e", 3), ("f", 3), ("g", 3), ("x", 3), ("y", 3)], lambda e, f, g, x, y: [(dot(lc3(e, f, g, x), lc3(e, f, g, y)), x[0] * y[0] * dot(e, e) + x[1] * y[1] * dot(f, f) + x[2] * y[2] * dot(g, g) + (x[0] * y[1] + x[1] * y[0]) * dot(e, f) + (x[0] * y[2] + x[2] * y[0]) * dot(e, g) + (x[1] * y[2] + x[2] * y[1]) * dot(f, g))]),
    L("pl_framex", [("e", 3), ("f", 3), ("g", 3), ("x", 3), ("y", 3)], lambda e, f, g, x, y: zipeq(cross(lc3(e, f, g, x), lc3(e, f, g, y)), lc3(cross(f, g), cross(g, e), cross(e, f), cross(x, y)))),
    L("pl_frame3", [("r", 3), ("d", 3)], lambda r, d: [(dot(cross(r, d), cross(r, d)), dot(r, r) * dot(d, d) - dot(r, d) * dot(r, d)), (dot(neg3(d), neg3(d)), dot(d, d)), (dot(r, cross(r, d)), Z), (dot(r, neg3(d)), -dot(r, d)), (dot(cross(r, d), neg3(d)), Z)] + zipeq(cross(cross(r, d), neg3(d)), tuple(r[i] * dot(d, d) - d[i] * dot(r, d) for i in range(3))) + zipeq(cross(neg3(d), r), cross(r, d)) + zipeq(cross(r, cross(r, d)), tuple(r[i] * dot(r, d) - d[i] * dot(r, r) for i in range(3)))),
    L("pl_dotscale", V3 + [("t", 1)], lambda a, b, t: [(dot(muls(a, t), b), dot(a, b) * t), (dot(muls(a, t), muls(b, t)), dot(a, b) * (t * t))]),
    L("pl_look", [("c", 1), ("m", 1), ("d", 1)], lambda c, m, d: [(two * ((m * m) * (I - d * d)), (two * m * m * (I + d)) * (I - d)), (two * m * m * (two * (c * c)), (two * c * m) * (two * c * m))]),
    L("pl_half", [("d", 1)], lambda d: [((I + d) + (I - d), two * I), ((I + d) - (I - d), two * d)]),
    L("pl_two", [("a", 1), ("b", 1)], lambda a, b: [(two * (a + b), two * a + two * b), (two * (a - b), two * a - two * b)]),
    L("pl_triple", V3, lambda a, b: zipeq(cross(cross(a, b), a), tuple(b[i] * dot(a, a) - a[i] * dot(a, b) for i in range(3)))),
]
Q = lambda *n: [(x, 4) for x in n]
qn = lambda a: tuple(-x for x in a)
out["pd"] = [
    L("pl_q_sublin", Q("a", "b", "c"), lambda a, b, c: zipeq(qmul(csub(a, b), c), csub(qmul(a, c), qmul(b, c))) + zipeq(qmul(c, csub(a, b)), csub(qmul(c, a), qmul(c, b))) + zipeq(csub(cadd(c, a), cadd(c, b)), csub(a, b)) + zipeq(cadd(a, qn(b)), csub(a, b))),
    L("pl_q_negmul", Q("a", "b"), lambda a, b: zipeq(qmul(a, qn(b)), qn(qmul(a, b)))),
    L("pl_q_sub4", Q("a", "b", "c", "d"), lambda a, b, c, d: zipeq(csub(cadd(a, b), cadd(c, d)), cadd(csub(a, c), csub(b, d))) + zipeq(cadd(csub(a, b), csub(c, d)), csub(cadd(a, c), cadd(b, d)))),
    L("pl_q_sub4b", Q("a", "b", "c", "d"), lambda a, b, c, d: zipeq(csub(csub(a, b), csub(c, d)), csub(cadd(a, d), cadd(b, c))) + zipeq(csub(a, c), cadd(csub(cadd(a, b), cadd(c, d)), csub(d, b)))),
    L("pl_qdg", Q("d", "w") + [("y", 1)], lambda d, w, y: (lambda s: zipeq(qmul(muls(csub(qconj(w), muls(qconj(d), s * y)), y), d), cadd(qn(qmul(muls(qconj(d), y), w)), (s * y * (I - dot(d, d) * y), Z, Z, Z))))(dot(d, w) * (I + I))),
    L("pl_qdot", Q("p", "h", "k"), lambda p, h, k: [(dot(qmul(p, h), qmul(p, k)), dot(p, p) * dot(h, k)), (dot(qmul(h, p), qmul(k, p)), dot(h, k) * dot(p, p))]),
    L("pl_qnscale", Q("a") + [("y", 1)], lambda a, y: [(dot(muls(a, y), muls(a, y)), dot(a, a) * (y * y))]),
    L("pl_qdotscale", Q("a", "b") + [("y", 1)], lambda a, b, y: [(dot(muls(a, y), b), dot(a, b) * y)]),
    L("pl_c_sublin", [("a", 2), ("b", 2), ("c", 2)], lambda a, b, c: zipeq(cmul(csub(a, b), c), csub(cmul(a, c), cmul(b, c))) + zipeq(cmul(c, csub(a, b)), csub(cmul(c, a), cmul(c, b))) + zipeq(csub(cadd(c, a), cadd(c, b)), csub(a, b)) + zipeq(csub(cadd(a, b), cadd(c, b)), csub(a, c))),
    L("pl_c_dotmul", [("p", 2), ("h", 2), ("k", 2)], lambda p, h, k: [(dot(cmul(p, h), cmul(p, k)), dot(p, p) * dot(h, k))]),
    L("pl_c_scale", [("a", 2), ("b", 2), ("y", 1)], lambda a, b, y: [(dot(muls(a, y), muls(a, y)), dot(a, a) * (y * y)), (dot(muls(a, y), b), dot(a, b) * y)] + zipeq(cmul(a, muls(b, y)), muls(cmul(a, b), y))),
]
def main():
    for k, ls in out.items():
        open(os.path.join(HERE, "contracts", k + ".vc"), "w").write("### verbatim\n// generated by gen_poly.py\n" + "\n".join(ls) + "\n")
if __name__ == "__main__": main()
