import copy, math, os, random, sys
import numpy as np


def close(a, b, rtol=1e-8, atol=1e-10):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    s = max(np.max(np.abs(b)) if b.size else 0, np.max(np.abs(a)) if a.size else 0)
    return bool(np.all(np.abs(a - b) <= atol + rtol * s))


def expect(key, a, b, msg="", **k):
    """None when a == b up to rounding"""
    if close(a, b, **k):
        return None
    return (key, f"{msg or key}: got {short(a)} expected {short(b)}")


def short(a):
    return np.array2string(np.asarray(a), precision=6, threshold=40, max_line_width=200).replace("\n", " ")[:400]


def first(*rs):
    for r in rs:
        if r is not None:
            return r
    return None


def rnum(rng, lo=-10, hi=10, ints=0.4):
    r = rng.random()
    if r < 0.08:
        return 0
    if r < ints:
        return rng.randint(int(lo), int(hi))
    x = rng.uniform(lo, hi)
    return round(x, 4) if rng.random() < 0.7 else x


def rpos(rng, lo=0.1, hi=10, ints=0.35):
    if rng.random() < ints:
        return rng.randint(max(1, int(lo)), max(1, int(hi)))
    x = rng.uniform(lo, hi)
    return round(x, 4) if rng.random() < 0.7 else x


def rvec(rng, n=3, **k):
    return [rnum(rng, **k) for _ in range(n)]


def dense(m):
    return np.asarray(m.todense()) if hasattr(m, "todense") else np.asarray(m)


def rot(axis, th):
    """rotation matrix by Rodrigues' formula"""
    k = np.asarray(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * K @ K


def reachable(root, cls):
    """objects of a class in the object graph of root, each once"""
    seen, out, todo = set(), [], [root]
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, (str, int, float, np.ndarray, type)):
            continue
        seen.add(id(x))
        if isinstance(x, cls):
            out.append(x)
        if isinstance(x, dict):
            todo += list(x.values())
        elif isinstance(x, (list, tuple, set)):
            todo += list(x)
        elif hasattr(x, "__dict__"):
            todo += list(vars(x).values())
    return out


def frame_ok(T, key="frame"):
    T = np.asarray(T, float)
    return first(expect(key + "-orthonormal", T @ T.T, np.eye(3), atol=1e-9),
                 expect(key + "-right-handed", np.linalg.det(T), 1.0, atol=1e-9))


def blockdiag(T, n):
    k = T.shape[0]
    a = np.zeros((k * n, k * n))
    for i in range(n):
        a[k * i:k * i + k, k * i:k * i + k] = T
    return a
