"""C02: density derivatives, expansion and contraction coefficients"""
from momlevel import derived, eos

from .common import Case, PHI, PLO, SHI, SLO, THI, TLO, da, lin, objs, wright, wright_ds, wright_dt

EOS = {"wright": (wright, wright_dt, wright_ds), "linear": (lin, lambda t, s, p: -0.2 + 0.0 * t, lambda t, s, p: 0.8 + 0.0 * t)}


def kernels(c, eosname, n, missing):
    """n free points over the physical box; derivative, alpha and beta against the differentiated published formula"""
    m = getattr(eos, eosname)
    c.cover(m.drho_dtemp, m.drho_dsal, m.alpha, m.beta)
    t = c.array("T", (n,), TLO, THI, nan=missing)
    s = c.array("S", (n,), SLO, SHI, nan=missing)
    p = c.array("p", (n,), PLO, PHI)
    te, se, pe = c.elems(t), c.elems(s), c.elems(p)
    f, ft, fs = EOS[eosname]
    if eosname == "wright":
        c.compare("drho_dtemp", m.drho_dtemp(t, s, p), objs((n,), lambda i: ft(te[i], se[i], pe[i])), scale=0.1)
        c.compare("drho_dsal", m.drho_dsal(t, s, p), objs((n,), lambda i: fs(te[i], se[i], pe[i])), scale=0.1)
    else:
        c.equal("drho_dtemp", m.drho_dtemp(t, s, p), -0.2, scale=0.1)
        c.equal("drho_dsal", m.drho_dsal(t, s, p), 0.8, scale=0.1)
        c.equal("drho_dtemp()", m.drho_dtemp(), -0.2, scale=0.1)
        c.equal("drho_dsal()", m.drho_dsal(), 0.8, scale=0.1)
    c.compare("alpha", m.alpha(t, s, p), objs((n,), lambda i: -ft(te[i], se[i], pe[i]) / f(te[i], se[i], pe[i])), scale=1e-4)
    c.compare("beta", m.beta(t, s, p), objs((n,), lambda i: fs(te[i], se[i], pe[i]) / f(te[i], se[i], pe[i])), scale=1e-4)


def wrappers(c, eosname, via):
    """calc_alpha / calc_beta over (time,z,y,x) with pressure profile or full field, any element missing"""
    c.cover(derived.calc_alpha, derived.calc_beta)
    dims, sh = ("time", "z_l", "yh", "xh"), (2, 2, 1, 1)
    t = c.array("T", sh, TLO, THI, nan=True)
    s = c.array("S", sh, SLO, SHI, nan=True)
    te, se = c.elems(t), c.elems(s)
    if via == "profile":
        p = c.array("p", (2,), PLO, PHI)
        pe = c.elems(p)
        P, pp = da(p, ("z_l",)), lambda a, k, j, i: pe[k]
    else:
        p = c.array("p", sh, PLO, PHI)
        pe = c.elems(p)
        P, pp = da(p, dims), lambda a, k, j, i: pe[a, k, j, i]
    f, ft, fs = EOS[eosname]
    T, S = da(t, dims), da(s, dims)
    kw = {} if via == "default" else {"eos": eosname}
    if via == "default":
        f, ft, fs = EOS["wright"]
    a = derived.calc_alpha(T, S, P, **kw)
    b = derived.calc_beta(T, S, P, **kw)
    c.compare("calc_alpha", a, objs(sh, lambda *x: -ft(te[x], se[x], pp(*x)) / f(te[x], se[x], pp(*x))), dims=dims, scale=1e-4)
    c.compare("calc_beta", b, objs(sh, lambda *x: fs(te[x], se[x], pp(*x)) / f(te[x], se[x], pp(*x))), dims=dims, scale=1e-4)


def layouts(c, eosname, kind):
    """different dimensions per argument, reversed order, integers, scalar pressure, six levels, python numbers"""
    c.cover(derived.calc_alpha, derived.calc_beta)
    f, ft, fs = EOS[eosname]
    A = lambda t, s, p: -ft(t, s, p) / f(t, s, p)
    B = lambda t, s, p: fs(t, s, p) / f(t, s, p)
    if kind == "numbers":
        t, s, p = c.real("T", TLO, THI), c.real("S", SLO, SHI), c.real("p", PLO, PHI)
        m = getattr(eos, eosname)
        c.equal("alpha", m.alpha(t, s, p), A(t, s, p), scale=1e-4)
        c.equal("beta", m.beta(t, s, p), B(t, s, p), scale=1e-4)
        if eosname == "wright":
            c.equal("drho_dtemp", m.drho_dtemp(t, s, p), ft(t, s, p), scale=0.1)
            c.equal("drho_dsal", m.drho_dsal(t, s, p), fs(t, s, p), scale=0.1)
        return
    wr = eosname == "wright"
    if kind == "mixed":
        t, s, p = c.array("T", (2, 2, 2), TLO, THI, nan=True), c.array("S", (2, 2), SLO, SHI, nan=True), c.array("p", (2,), PLO, PHI, nan=wr)
        d, T, S, P = ("time", "z_l", "x"), ("time", "z_l", "x"), ("x", "z_l"), ("time",)
        pick = lambda te, se, pe: (lambda a, k, i: (te[a, k, i], se[i, k], pe[a]))
    elif kind == "permuted":
        t, s, p = c.array("T", (2, 2, 2), TLO, THI, nan=True), c.array("S", (2, 2, 2), SLO, SHI, nan=True), c.array("p", (2, 2, 2), PLO, PHI, nan=wr)
        d, T, S, P = ("z_l", "y", "x"), ("z_l", "y", "x"), ("x", "z_l", "y"), ("y", "x", "z_l")
        pick = lambda te, se, pe: (lambda k, j, i: (te[k, j, i], se[i, k, j], pe[j, i, k]))
    elif kind == "outer":
        t, s, p = c.array("T", (3,), TLO, THI, nan=True), c.array("S", (2,), SLO, SHI, nan=True), c.array("p", (), PLO, PHI)
        d, T, S, P = ("y", "x"), ("y",), ("x",), ()
        pick = lambda te, se, pe: (lambda j, i: (te[j], se[i], pe[()]))
    elif kind == "pressure wider":
        t, s, p = c.array("T", (2, 2), TLO, THI, nan=True), c.array("S", (2,), SLO, SHI, nan=True), c.array("p", (2, 3), PLO, PHI, nan=wr)
        d, T, S, P = ("z_l", "y", "x"), ("y", "x"), ("x",), ("x", "z_l")
        pick = lambda te, se, pe: (lambda k, j, i: (te[j, i], se[i], pe[i, k]))
    elif kind == "reversed":
        t, s, p = c.array("T", (2, 1, 3), TLO, THI, nan=True), c.array("S", (3, 1, 2), SLO, SHI, nan=True), c.array("p", (1, 3), PLO, PHI, nan=wr)
        d, T, S, P = ("z_l", "y", "x"), ("z_l", "y", "x"), ("x", "y", "z_l"), ("y", "x")
        pick = lambda te, se, pe: (lambda k, j, i: (te[k, j, i], se[i, j, k], pe[j, i]))
    else:
        t, s, p = c.ints("T", (6, 2), -2, 35), c.ints("S", (6, 2), 0, 42), c.array("p", (6,), PLO, PHI, nan=wr)
        d, T, S, P = ("z_l", "x"), ("z_l", "x"), ("z_l", "x"), ("z_l",)
        pick = lambda te, se, pe: (lambda k, i: (te[k, i], se[k, i], pe[k]))
    g = pick(c.elems(t), c.elems(s), c.elems(p))
    sh = {"mixed": (2, 2, 2), "permuted": (2, 2, 2), "outer": (3, 2), "reversed": (2, 1, 3), "pressure wider": (3, 2, 2), "ints": (6, 2)}[kind]
    a = derived.calc_alpha(da(t, T), da(s, S), da(p, P), eos=eosname)
    b = derived.calc_beta(da(t, T), da(s, S), da(p, P), eos=eosname)
    c.compare("calc_alpha", a, objs(sh, lambda *x: A(*g(*x))), dims=d, scale=1e-4)
    c.compare("calc_beta", b, objs(sh, lambda *x: B(*g(*x))), dims=d, scale=1e-4)


def cases(tier):
    q = []
    for e in ("wright", "linear"):
        for k in ("numbers", "mixed", "permuted", "outer", "pressure wider", "reversed", "ints"):
            q.append(Case(f"layout {e} {k}", layouts, eosname=e, kind=k))
    for e in ("wright", "linear"):
        q.append(Case(f"{e} kernels", kernels, eosname=e, n=1, missing=False))
        q.append(Case(f"{e} kernels missing", kernels, eosname=e, n=2, missing=True))
        q.append(Case(f"{e} wrappers profile", wrappers, eosname=e, via="profile"))
        q.append(Case(f"{e} wrappers full", wrappers, eosname=e, via="full"))
    q.append(Case("wrappers default eos", wrappers, eosname="wright", via="default"))
    if tier == "thorough":
        for e in ("wright", "linear"):
            q.append(Case(f"{e} kernels n=16", kernels, eosname=e, n=16, missing=True))
    return q
