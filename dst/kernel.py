"""STUB of the native kernels (rust/lib.rs cannot be compiled here): same call protocol, same result dictionary,
same progress-callback contract (a message at seeded intervals, always one final message with completed=True;
exceptions of the callback are swallowed, as the native code does).  The update arithmetic is an independent float32
transcription of rust/lib.rs."""
import os
import re

import numpy as np

from . import core

DURATION = {}         # model_i -> simulated seconds the kernel takes
FAIL = {}             # model_i -> exception to raise
NANQ = set()          # models whose loss comes out as NaN
RUNTIME_FAIL = set()  # models whose native kernel raises RuntimeError
P_MSG = 0.3
CALLS = []
EMITTED = []         # every progress message handed to a callback, in emission order


def _index_bits():
    """Width of the native kernels' model index, from their signature in rust/lib.rs: the binding converts to it."""
    try:
        with open(os.path.join(core.REPO, "rust", "lib.rs")) as f:
            w = [int(b) for b in re.findall(r"\bmodel_i\s*:\s*i(8|16|32|64)\b", f.read())]
    except OSError:
        w = []
    return min(w, default=32)


INDEX_BITS = _index_bits()


def reset():
    global P_MSG
    DURATION.clear()
    FAIL.clear()
    NANQ.clear()
    RUNTIME_FAIL.clear()
    CALLS.clear()
    EMITTED.clear()
    P_MSG = 0.3


def _q(V, U, W, H):
    return np.float32(np.sum(((V - W @ H) / U) ** 2))


def _qr(V, U, W, H, alpha):
    r = np.abs((V - W @ H) / U)
    w = np.where(r > alpha, np.sqrt(r / alpha), 1.0)
    return np.float32(np.sum((r / w) ** 2))


def _ls_step(V, We, W, H, hold):
    WeV = We * V
    if not hold:
        H = H * ((W.T @ WeV) / (W.T @ (We * (W @ H))))
    W = W * ((WeV @ H.T) / ((We * (W @ H)) @ H.T))
    return W, H


def _ws_step(V, We, W, H, hold):
    Wn = np.zeros_like(W)
    for i in range(V.shape[0]):
        A = (H * We[i]) @ H.T
        b = H @ (We[i] * V[i])
        try:
            Wn[i] = np.linalg.solve(A.astype(np.float64), b.astype(np.float64))
        except np.linalg.LinAlgError:
            try:
                Wn[i] = np.linalg.pinv(A) @ b
            except np.linalg.LinAlgError:
                Wn[i] = np.nan
    W = Wn
    if not hold:
        Wneg, Wpos = (np.abs(W) - W) / 2, (np.abs(W) + W) / 2
        Hn = H.copy()
        for j in range(V.shape[1]):
            w = We[:, j]
            n = (w * V[:, j]) @ Wpos + H[:, j] @ ((Wneg.T * w) @ Wneg) + 1e-12
            d = (w * V[:, j]) @ Wneg + H[:, j] @ ((Wpos.T * w) @ Wpos) + 1e-12
            Hn[:, j] = H[:, j] * np.sqrt(np.maximum(n, 0) / np.maximum(d, 1e-12))
        H = Hn
    return W, H


def _run(step, V, U, We, W, H, max_iter, converge_delta, converge_n, robust_alpha, model_i, hold_h=None,
         delay_h=None, progress_callback=None, use_gpu=None):
    s = core.active()
    for a in (V, U, We, W, H):
        if a.dtype != np.float32:
            raise TypeError("argument must be a float32 array")
    if not -(1 << INDEX_BITS - 1) <= int(model_i) < 1 << INDEX_BITS - 1:
        raise OverflowError("out of range integral type conversion attempted")
    CALLS.append(int(model_i))
    if model_i in FAIL:
        raise FAIL[model_i]
    if model_i in RUNTIME_FAIL:
        raise RuntimeError("injected: native kernel failure")
    hold_h = bool(hold_h)
    delay_h = -1 if delay_h is None else delay_h
    total = DURATION.get(int(model_i))
    qs, full, converged, ci, q = [], [], False, 0, np.float32(0)
    for i in range(int(max_iter)):
        W, H = step(V, We, W, H, hold_h and not (delay_h > 0 and i > delay_h))
        q = np.float32("nan") if model_i in NANQ else _q(V, U, W, H)
        qs.append(q)
        full.append(float(q))
        ci = i
        if len(qs) >= converge_n:
            if qs[0] - qs[-1] < converge_delta:
                converged = True
            qs.pop(0)
        last = converged or i + 1 == max_iter
        if s is not None and (last or s.ch.flip(P_MSG, "progress")):
            if progress_callback is not None:
                msg = (int(model_i), i, int(max_iter), float(q), float(_qr(V, U, W, H, robust_alpha)),
                       float(q / V.size), bool(last))
                EMITTED.append(msg)
                try:
                    progress_callback(*msg)
                except Exception:
                    pass
            s.yield_point("kernel")
        if converged:
            break
    if s is not None and total:
        s.sleep(total, "kernel-run")
    if model_i in NANQ:
        W = np.full_like(W, np.nan)
    return {"w": np.asarray(W, dtype=np.float64), "h": np.asarray(H, dtype=np.float64), "q": float(q),
            "converged": bool(converged), "converge_i": int(ci), "q_list": full}


def ls_nmf(*a, **k):
    return _run(_ls_step, *a, **k)


def ws_nmf(*a, **k):
    return _run(_ws_step, *a, **k)
