"""P24: an analog matrix is the linear operator of the matrix stored on its tile."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy.sparse.linalg import aslinearoperator, cg, gmres, lsqr

from aihwkit.linalg import AnalogMatrix
from vlib import cfg, gen
from vlib.core import Lane, Violation
from vlib.util import close, npy, raises, require, same

PROPERTY = "P24"
RULE = ("cases: lane history: a drawn matrix (numpy or torch, 32 or 64 bit, transposed or strided) stored on a floating point, ideal, "
        "clipping (forward and backward bounds of their own), inference or torch tile with drawn weight scaling and sizes, and a "
        "history of products from the left and the right with vectors, rows and columns, operator expressions (sums, products, "
        "powers, adjoints, scaling, dense operands), rank updates, moves and writes to the source array; every result is compared "
        "with the dense float64 matrix. Lane solve: iterative solvers on well-conditioned matrices. Non-trivial: the matrix is not "
        "zero and at least two kinds of operations were compared (history), the right-hand side is not zero (solve).")
PERF = {"is_perfect": True}
NOBM = {"bound_management": "None", "noise_management": "None", "inp_noise": 0.0, "out_noise": 0.0, "inp_res": -1, "out_res": -1}


def spec_of(c):
    k, mp = c["kind"], {"weight_scaling_omega": c["omega"], "weight_scaling_columnwise": c["cw"], "max_input_size": c["max_in"],
                        "max_output_size": c["max_out"]}
    if k == "fp":
        return {"kind": "fp", "mapping": mp}
    if k == "torch":
        return {"kind": "torch", "mapping": mp, "forward": PERF}
    if k == "inference":
        return {"kind": "inference", "mapping": mp, "forward": PERF, "backward": PERF}
    if k == "clip":
        f = {**NOBM, "inp_bound": c["fb"][0], "out_bound": c["fb"][1], "out_scale": c["sc"][0]}
        b = {**NOBM, "inp_bound": c["bb"][0], "out_bound": c["bb"][1], "out_scale": c["sc"][1]}
        return {"kind": "single", "mapping": mp, "device": {"cls": "IdealDevice"}, "forward": f, "backward": b}
    return {"kind": "single", "mapping": mp, "device": {"cls": "IdealDevice"}, "forward": PERF, "backward": PERF}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["fp", "ideal", "clip", "inference", "torch"]))
    n_in, n_out = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    if draw(st.integers(0, 2)) == 0:
        n_out = n_in
    exprs = ["scale", "rscale", "neg", "sum", "diff", "adj", "trans", "adjadj", "normal", "outer", "dense", "pow"]
    lim = draw(st.sampled_from([(0, 0), (512, 512), (n_in, n_out), (n_in, 512), (512, n_out), (0, 0), (512, 512), (n_in, n_out), (0, 512), (max(n_in - 1, 1), 512)]))
    vec = {"s": gen.seeds, "m": st.sampled_from([1.0, 0.1, 3.0]), "tr": st.booleans(), "np": st.booleans(), "f64": st.integers(0, 3).map(lambda v: v == 3)}
    op = st.one_of(
        st.fixed_dictionaries({"op": st.sampled_from(["mv", "rmv"]), "dim": st.sampled_from([1, 1, 2, 2, 3]), "n": st.integers(1, 5), **vec}),
        st.fixed_dictionaries({"op": st.sampled_from(["matvec", "rmatvec", "matmat", "rmatmat", "dot"]), "n": st.integers(1, 5), "col": st.booleans(), **vec}),
        st.fixed_dictionaries({"op": st.just("expr"), "e": st.lists(st.sampled_from(exprs), min_size=1, max_size=3), "n": st.integers(1, 3),
                               "mat": st.booleans(), **vec}),
        st.fixed_dictionaries({"op": st.just("ger"), "n": st.integers(0, 4), "alpha": st.sampled_from([1.0, 0.1, 0.5, 2.0, 0.0, None]), **vec}),
        st.fixed_dictionaries({"op": st.sampled_from(["to", "source", "meta"])}))
    return {"kind": kind, "n_in": n_in, "n_out": n_out, "w": draw(gen.data(["normal", "uniform", "grid", "sparse", "outlier", "zeros"], (0.5, 0.2, 1.0))),
            "src": draw(st.sampled_from(["np32", "np32", "np64", "t32", "t64"])), "lay": draw(st.sampled_from(["plain", "trans", "step"])),
            "omega": 0.0 if kind == "clip" else draw(st.sampled_from([0.0, 0.6, 1.0])), "cw": draw(st.booleans()),
            "max_in": lim[0], "max_out": lim[1],
            "fb": [draw(st.sampled_from([0.5, 1.0, 2.0])), draw(st.sampled_from([0.3, 1.0, 12.0]))],
            "bb": [draw(st.sampled_from([0.5, 1.0, 2.0])), draw(st.sampled_from([0.3, 1.0, 12.0]))],
            "sc": [draw(st.sampled_from([1.0, 0.5, 2.0])), draw(st.sampled_from([1.0, 0.5, 2.0]))],
            "real": draw(st.booleans()) and kind == "fp", "ops": draw(st.lists(op, min_size=1, max_size=7))}


def layout(a, lay):
    """The same values with another memory layout."""
    if lay == "trans":
        return np.ascontiguousarray(a.T).T
    if lay == "step":
        b = np.zeros((a.shape[0], 2 * a.shape[1]), a.dtype)
        b[:, ::2] = a
        return b[:, ::2]
    return a


def vec(o, shape, cfold=None):
    v = cfg.arr({"k": "normal", "s": o["s"], "m": o["m"]}, shape)
    if o["tr"] and v.ndim == 2:
        v = np.ascontiguousarray(v.T).T
    return v.astype(np.float64) if o["np"] and o["f64"] else v


class Model:
    """The dense operator: (forward of rows, backward of rows)."""

    def __init__(self, W, c):
        self.W, self.c = W, c

    def _io(self, X, M, b, s):
        if self.c["kind"] != "clip":
            return X @ M
        return np.clip(np.clip(X, -b[0], b[0]) @ M, -b[1], b[1]) * s

    def fwd(self, X):
        return self._io(X, self.W.T, self.c["fb"], self.c["sc"][0])

    def bwd(self, X):
        return self._io(X, self.W, self.c["bb"], self.c["sc"][1])


class Op:
    """Reference operator acting on columns."""

    def __init__(self, shape, f, b):
        self.shape, self.f, self.b = shape, f, b


def build_expr(A, model, names, dense, rec):
    m, n = A.shape
    op, ref = A, Op((m, n), lambda X: model.fwd(X.T).T, lambda X: model.bwd(X.T).T)
    used = []
    for e in names:
        cur, r = op, ref
        if e == "scale":
            op, ref = 2.5 * cur, Op(r.shape, lambda X, r=r: 2.5 * r.f(X), lambda X, r=r: 2.5 * r.b(X))
        elif e == "rscale":
            op, ref = cur * 0.5, Op(r.shape, lambda X, r=r: 0.5 * r.f(X), lambda X, r=r: 0.5 * r.b(X))
        elif e == "neg":
            op, ref = -cur, Op(r.shape, lambda X, r=r: -r.f(X), lambda X, r=r: -r.b(X))
        elif e in ("sum", "diff"):
            s = 1.0 if e == "sum" else -1.0
            D = dense(r.shape)
            op = cur + aslinearoperator(D) if s > 0 else cur - aslinearoperator(D)
            D64 = D.astype(np.float64)
            ref = Op(r.shape, lambda X, r=r, D=D64, s=s: r.f(X) + s * (D @ X), lambda X, r=r, D=D64, s=s: r.b(X) + s * (D.T @ X))
        elif e in ("adj", "trans"):
            op, ref = (cur.H if e == "adj" else cur.T), Op(r.shape[::-1], r.b, r.f)
        elif e == "adjadj":
            op = cur.H.H
        elif e == "normal":
            op, ref = cur.H * cur, Op((r.shape[1],) * 2, lambda X, r=r: r.b(r.f(X)), lambda X, r=r: r.b(r.f(X)))
        elif e == "outer":
            op, ref = cur * cur.H, Op((r.shape[0],) * 2, lambda X, r=r: r.f(r.b(X)), lambda X, r=r: r.f(r.b(X)))
        elif e == "dense":
            D = dense((2, r.shape[0]))
            D64 = D.astype(np.float64)
            op = aslinearoperator(D) * cur
            ref = Op((2, r.shape[1]), lambda X, r=r, D=D64: D @ r.f(X), lambda X, r=r, D=D64: r.b(D.T @ X))
        elif e == "pow":
            if r.shape[0] != r.shape[1]:
                continue
            op, ref = cur ** 2, Op(r.shape, lambda X, r=r: r.f(r.f(X)), lambda X, r=r: r.b(r.b(X)))
        used.append(e)
        require(tuple(op.shape) == ref.shape, lambda: f"shape of the {used} expression is {op.shape} instead of {ref.shape}")
    rec.label(*used)
    return op, ref, any(e in ("adj", "trans", "normal", "outer", "adjadj") for e in used), used


def check(c, rec):
    rpu = cfg.config(spec_of(c))
    n_in, n_out, kind = c["n_in"], c["n_out"], c["kind"]
    w32 = cfg.arr(c["w"], (n_out, n_in)).astype(np.float32)
    if kind in ("ideal", "clip", "inference", "torch") and c["omega"] == 0.0:
        w32 = np.clip(w32, -1.0, 1.0)   # devices and inference tiles are limited to [-1, 1]
    src = layout(w32.astype(np.float64 if c["src"][-2:] == "64" else np.float32), c["lay"])
    source = torch.from_numpy(src) if c["src"].startswith("t") else src
    before = np.array(src)
    big = (c["max_in"] or c["max_out"]) and (c["max_in"] < n_in or c["max_out"] < n_out)
    A = AnalogMatrix(source, rpu, realistic=c["real"])
    W = w32.astype(np.float64)
    if c["real"]:
        # programmed by iterative reading and writing: up to the tolerance
        got = npy(A._tile.get_weights()[0])
        require(got.shape == W.shape, lambda: f"programmed matrix has shape {got.shape}")
        require(c["omega"] > 0 and c["cw"] or np.abs(got - W).mean() <= 0.0102 * np.abs(W).max() + 1e-6,
                lambda: f"programmed matrix deviates by {np.abs(got - W).mean()} on average (largest value {np.abs(W).max()})")
        W = got
    else:
        close(A._tile.get_weights()[0], W, "stored matrix", rtol=2e-6, atol=1e-6)
    if big:
        # more than one tile (or a limit in one dimension only)
        try:
            A @ np.zeros(n_in, dtype=np.float32)
            np.zeros(n_out, dtype=np.float32) @ A
        except AttributeError as exc:
            rec.known.append(("F102", f"matrix {n_out}x{n_in} with max sizes {c['max_out']}x{c['max_in']}: {exc}"))
            return
    model = Model(W, c)
    has_bwd = kind != "torch"
    compared = set()
    dt = np.float32

    def out(y, ref, what, o, tol=5e-4, comparable=True):
        require(isinstance(y, np.ndarray) == o["np"], lambda: f"{what}: a {'numpy' if o['np'] else 'torch'} operand gives {type(y).__name__}")
        require(y.dtype == (dt if o["np"] else torch.float32), lambda: f"{what}: data type {y.dtype}")
        close(y, ref, what, rtol=tol)
        compared.add(what.split()[0])

    for o in c["ops"]:
        name = o["op"]
        rec.label(name, kind)
        right = name in ("rmv", "rmatvec", "rmatmat")
        if name in ("mv", "rmv"):
            n = n_out if right else n_in
            shape = {1: (n,), 2: (o["n"], n), 3: (2, o["n"], n)}[o["dim"]]
            v = vec(o, shape)
            arg = v if o["np"] else torch.from_numpy(v)
            if right and not has_bwd:
                raises(lambda: arg @ A, NotImplementedError, "product from the left with a torch tile")
                continue
            if right and not o["np"]:
                y = A.__rmatmul__(arg)
                y2 = arg @ A
                same(y, y2, "x @ A")
            else:
                y = arg @ A if right else A @ arg
            ref = (model.bwd if right else model.fwd)(v.reshape(-1, n).astype(np.float64)).reshape(shape[:-1] + (-1,))
            out(y, ref, f"{'x @ A' if right else 'A @ x'} for x of shape {shape}", o)
            require(not (isinstance(y, torch.Tensor) and y.requires_grad), "product with an analog matrix requires gradients")
        elif name in ("matvec", "rmatvec", "matmat", "rmatmat", "dot"):
            n = n_out if right else n_in
            if right and not has_bwd:
                continue
            o = dict(o, np=True)   # (scipy methods)
            single = name.endswith("vec") or (name == "dot" and o["n"] == 1)
            shape = ((n, 1) if o["col"] else (n,)) if single else (n, o["n"])
            v = vec(o, shape)
            y = getattr(A, name)(v)
            ref = (model.bwd if right else model.fwd)(v.reshape(n, -1).T.astype(np.float64)).T
            ref = ref.reshape((-1,) + shape[1:])
            out(y, ref, f"{name} for an operand of shape {shape}", o)
        elif name == "expr":
            seed = [o["s"]]

            def dense(shape):
                seed[0] = (seed[0] + 1) % (2 ** 31 - 2)
                return cfg.arr({"k": "normal", "s": seed[0], "m": 0.5}, shape)
            op, ref, needs_b, used = build_expr(A, model, o["e"], dense, rec)
            if needs_b and not has_bwd:
                continue
            shape = (op.shape[1], o["n"]) if o["mat"] else (op.shape[1],)
            v = vec(o, shape)
            y = op.matmat(v) if o["mat"] else op.matvec(v)
            scale = 1.0
            r = ref.f(v.reshape(op.shape[1], -1).astype(np.float64)).reshape((op.shape[0],) + shape[1:])
            # intermediate results may cancel: float32 accuracy relative to the factors
            wn = max(1.0, float(np.abs(model.W).sum()), *(c["sc"] if kind == "clip" else [1.0])) ** (2 * len(used) + 1)
            close(y, r, f"{used} expression applied to {shape}", rtol=5e-4, atol=1e-5 + 2e-6 * wn * o["m"] * 10)
            compared.add("expr")
        elif name == "ger":
            x = vec(o, (max(o["n"], 1), n_in)) if o["n"] else vec(o, (n_in,))
            d = vec(dict(o, s=(o["s"] + 7) % (2 ** 31 - 2)), (max(o["n"], 1), n_out)) if o["n"] else vec(dict(o, s=o["s"] + 7 if o["s"] < 2 ** 30 else o["s"] - 7), (n_out,))
            x0, d0 = x.copy(), d.copy()
            a, b = (x, d) if o["np"] else (torch.from_numpy(x), torch.from_numpy(d))
            alpha = 1.0 if o["alpha"] is None else o["alpha"]
            args = (a, b) if o["alpha"] is None else (a, b, alpha)
            if kind == "torch":
                raises(lambda: A.ger(*args), NotImplementedError, "rank update with a torch tile")
                continue
            if kind in ("ideal", "clip"):
                alpha = alpha * 0.01   # keep the devices inside their bounds
                args = (a, b, alpha)
            A.ger(*args)
            same(x, x0, "left operand of ger")
            same(d, d0, "right operand of ger")
            upd = alpha * d.reshape(-1, n_out).T.astype(np.float64) @ x.reshape(-1, n_in)
            new = model.W + upd
            got = npy(A._tile.get_weights()[0])
            if kind in ("ideal", "clip"):
                # ideal devices: pulsed update with the requested mean and no granularity noise is decided by P08
                close(got, new, "matrix after ger", rtol=5e-4, atol=5e-4 * max(1.0, float(np.abs(upd).max())))
            else:
                close(got, new, "matrix after ger", rtol=1e-4)
            model.W = got
            compared.add("ger")
        elif name == "to":
            B = A.to("cpu")
            require(B is A, "moving an analog matrix returns another object")
            close(A._tile.get_weights()[0], model.W, "matrix after moving", rtol=1e-6)
        elif name == "source":
            src[:] = 7.0
            close(A._tile.get_weights()[0], model.W, "matrix after its source array changed", rtol=1e-6)
            src[:] = before
        elif name == "meta":
            require(tuple(A.shape) == (n_out, n_in), lambda: f"shape {A.shape} of a {n_out}x{n_in} matrix")
            require(np.dtype(A.dtype) == np.dtype(np.float32), lambda: f"dtype {A.dtype}")
            require(f"{n_out}x{n_in}" in repr(A), lambda: f"representation {A!r}")
    same(src, before, "source matrix")
    rec.hit(len(compared) >= 2 and bool(np.any(W)))


@st.composite
def solve_cases(draw):
    return {"kind": draw(st.sampled_from(["fp", "ideal", "inference"])), "n": draw(st.integers(2, 8)), "s": draw(gen.seeds), "omega": draw(st.sampled_from([0.0, 1.0])),
            "cw": draw(st.booleans()), "max_in": 512, "max_out": 512, "how": draw(st.sampled_from(["cg", "gmres", "lsqr", "precond"])),
            "rect": draw(st.integers(0, 3)), "b": draw(gen.data(["normal", "uniform", "onehot"]))}


def check_solve(c, rec):
    n, how = c["n"], c["how"]
    r = np.random.RandomState(c["s"])
    m = n + c["rect"] if how == "lsqr" else n
    q1, _ = np.linalg.qr(r.randn(m, m))
    q2, _ = np.linalg.qr(r.randn(n, n))
    sv = np.diag(r.uniform(0.3, 0.9, n))
    W = q2 @ sv @ q2.T if how == "cg" else q1[:, :n] @ sv @ q2.T
    W = W.astype(np.float32)
    b = cfg.arr(c["b"], (m,)).astype(np.float32)
    rpu = cfg.config(spec_of(dict(c, fb=None, bb=None, sc=None)))
    if how == "precond":
        P = np.linalg.inv(W.astype(np.float64)).astype(np.float32) * 0.25   # within the device bounds
        M = AnalogMatrix(np.clip(P, -1, 1), rpu)
        k, info = gmres(W, b, M=M, rtol=1e-5, restart=n, maxiter=200)
        close(W.astype(np.float64) @ k, b, "preconditioned residual", rtol=1e-3, atol=1e-3)
    else:
        A = AnalogMatrix(W, rpu)
        if how == "cg":
            k, info = cg(A, b, rtol=1e-5, maxiter=400)
        elif how == "gmres":
            k, info = gmres(A, b, rtol=1e-5, restart=n, maxiter=200)
        else:
            k, info = lsqr(A, b, atol=1e-6, btol=1e-6, iter_lim=200)[0], 0
        want = np.linalg.lstsq(W.astype(np.float64), b.astype(np.float64), rcond=None)[0]
        require(info == 0, lambda: f"{how} did not converge ({info})")
        close(k, want, f"solution by {how}", rtol=3e-3, atol=1e-3)
    rec.label(how, c["kind"])
    rec.hit(bool(np.any(b)))


def explicit(case):
    return case


BIG = {"kind": "fp", "n_in": 4, "n_out": 3, "w": {"k": "normal", "s": 1, "m": 0.5}, "src": "np32", "lay": "plain", "omega": 0.0, "cw": False, "max_in": 2,
       "max_out": 512, "fb": [1.0, 1.0], "bb": [1.0, 1.0], "sc": [1.0, 1.0], "real": False, "ops": [{"op": "meta"}]}

LANES = [Lane("history", cases(), check, quick=900, thorough=20000, explicit=[BIG]),
         Lane("solve", solve_cases(), check_solve, quick=160, thorough=3000)]
