"""Calls the Python interface as a program does and reports what came back.  Decides nothing.
usage: observe.py <folder of the extension> <cases> <report>"""
import sys
sys.path.insert(0, sys.argv[1])
import numpy as np
import polymers

def array(values, layout):
    v = np.array(values, dtype=float)
    n = len(v)
    if layout == "flat": return v
    if layout == "scalar": return np.array(v[0])
    if layout == "strided": b = np.full(3 * n + 1, np.nan); b[1::3] = v; return b[1::3]
    if layout == "reversed": return v[::-1].copy()[::-1]
    if layout == "matrix": return v.reshape(2, n // 2)
    if layout == "fortran": return np.asfortranarray(v.reshape(2, n // 2))
    if layout == "cube": return np.ascontiguousarray(v.reshape(2, n // 4, 2).transpose(2, 0, 1)).transpose(1, 2, 0)
    if layout == "column": b = np.full((n, 3), np.nan); b[:, 1] = v; return b[:, 1]
    if layout == "empty": return np.zeros(0)
    if layout == "empty2": return np.zeros((3, 0))
    if layout == "readonly": v.flags.writeable = False; return v
    if layout == "repeated": return np.broadcast_to(v[0], (4,))
    raise ValueError(layout)

def bits(x): return ",".join(float(y).hex() for y in np.asarray(x).ravel())

objects = {}
out = open(sys.argv[3], "w")
for line in open(sys.argv[2]):
    n, root, path, depth, cls, names, ctor, method, margs, scalars, layout, values = line.rstrip("\n").split("\t")
    try:
        segments = path.split("/") if path else []
        depth = int(depth)
        keyword = int(n) % 2 == 1
        key = (root, path, depth, cls, ctor, keyword)
        names = names.split(",")
        arguments = [int(c[1:]) if c[0] == "u" else float(c[1:]) for c in ctor.split(",")]
        if key in objects: o = objects[key]
        else:
            at = polymers
            for s in root.split("/") + segments[:depth]: at = getattr(at, s)
            make = getattr(at, cls)
            o = make(**dict(zip(names, arguments))) if keyword else make(*arguments)
            if len(objects) > 200: objects.clear()
            objects[key] = o
        wrong = []
        def attributes(x, where):
            for k, v in zip(names, arguments):
                if k == "method": continue
                if getattr(x, k) != v: wrong.append(f"{where}.{k}={getattr(x, k)!r} not {v!r}")
        attributes(o, "/".join(segments[:depth]))
        for i in range(depth, len(segments)):
            o = getattr(o, segments[i])
            attributes(o, "/".join(segments[:i + 1]))
        a = array([float(x) for x in values.split(",")] if values else [], layout)
        before = a.copy()
        rest = [float(x) for x in scalars.split(",")] if scalars else []
        r = getattr(o, method)(**dict(zip(margs.split(","), [a] + rest))) if keyword else getattr(o, method)(a, *rest)
        parts = r if isinstance(r, tuple) else (r,)
        if not np.array_equal(a, before, equal_nan=True): wrong.append("argument modified")
        if not all(isinstance(p, np.ndarray) and p.dtype == np.float64 for p in parts): wrong.append("result is not an array of floats")
        attributes(o, "after the call")
        out.write(f"{n}\tok\t{'x'.join(map(str, parts[0].shape))}\t{'x'.join(map(str, a.shape))}\t{';'.join(bits(p) for p in parts)}\t{bits(a)}\t{' '.join(wrong)}\n")
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
        out.write(f"{n}\tfailed\t\t\t\t\t{type(e).__name__}: {str(e)[:200]!r}\n")
    out.flush()
out.write("end\n")
