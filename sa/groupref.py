"""Reference rotation groups of the eleven Laue classes, generated from their generators (z: main axis, x: two-fold axis)."""
import math

R2 = math.sqrt(0.5)
R3 = math.sqrt(0.75)


def qm(a, b):
    w, x, y, z = a
    W, X, Y, Z = b
    return (w * W - x * X - y * Y - z * Z, w * X + x * W + y * Z - z * Y,
            w * Y - x * Z + y * W + z * X, w * Z + x * Y - y * X + z * W)


def key(q):
    """a rotation: quaternion up to sign"""
    q = tuple(round(x, 9) + 0.0 for x in q)
    for x in q:
        if abs(x) > 1e-9:
            return q if x > 0 else tuple(-y + 0.0 for y in q)
    return q


def rotz(n):
    return (math.cos(math.pi / n), 0.0, 0.0, math.sin(math.pi / n))


X2 = (0.0, 1.0, 0.0, 0.0)
Z2 = (0.0, 0.0, 0.0, 1.0)
D111 = (0.5, 0.5, 0.5, 0.5)
GENS = {1: [], 2: [Z2], 3: [Z2, X2], 4: [rotz(4)], 5: [rotz(4), X2], 6: [rotz(3)], 7: [rotz(3), X2],
        8: [rotz(6)], 9: [rotz(6), X2], 10: [Z2, D111], 11: [rotz(4), D111]}
NAMES = {1: "C1", 2: "C2", 3: "D2", 4: "C4", 5: "D4", 6: "C3", 7: "D3", 8: "C6", 9: "D6", 10: "T", 11: "O"}
MULT = {1: 2, 2: 4, 3: 8, 4: 8, 5: 16, 6: 6, 7: 12, 8: 12, 9: 24, 10: 24, 11: 48}


def closure(gens):
    out = {key((1.0, 0.0, 0.0, 0.0)): (1.0, 0.0, 0.0, 0.0)}
    todo = list(out.values())
    while todo:
        a = todo.pop()
        for g in gens:
            b = qm(g, a)
            if key(b) not in out:
                out[key(b)] = b
                todo.append(b)
    return list(out.values())


GROUP = {i: closure(g) for i, g in GENS.items()}
