"""Runs the Julia sources, interpreted, against the library built from the tree, and reports what came back.  Decides nothing.
usage: julia_observe.py <library> <Polymers.jl> <cases> <report>"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import numpy as np
import julia
from julia import U8, Unsupported, JuliaError

def camel(s): return "".join(w.capitalize() for w in s.split("_"))
def value(a):
    if a[0] == "u": return U8(int(a[2:]))
    if a[0] == "f": return float(a[2:])
    _, t, shape, v = a.split(":", 3)
    v = np.array([float(x) for x in v.split(",")] if v else [])
    if t == "u": v = v.astype(np.uint8)
    return v.reshape([int(n) for n in shape.split("x")], order="F")
def bits(x): return ",".join(float(y).hex() for y in np.asarray(x).ravel(order="F"))
def shape(x): return "x".join(map(str, x.shape)) if isinstance(x, np.ndarray) else ""

out = open(sys.argv[4], "w")
I = julia.Interpreter(sys.argv[1])
try: root = I.run(sys.argv[2])
except JuliaError as e:
    out.write(f"load\tfailed\t{e}\nend\n"); sys.exit(0)
except Unsupported as e:
    out.write(f"load\tunread\t{e}\nend\n"); sys.exit(0)
for u in I.unread: out.write(f"note\t{u}\n")
for name in ["BOLTZMANN_CONSTANT", "PLANCK_CONSTANT"]:
    try: out.write(f"constant\t{name}\t{float(I.field(I.field(I.field(root, 'Polymers'), 'Physics'), name)).hex()}\n")
    except Unsupported: pass
    except (JuliaError, TypeError, ValueError) as e: out.write(f"constant\t{name}\tnone\n")
objects = {}
for line in open(sys.argv[3]):
    n, what, model, rest, depth, cls, names, ctor, func, args = line.rstrip("\n").split("\t")
    try:
        at = I.field(root, "Polymers")
        for s in ["physics", "single_chain"] + model.split("/"): at = I.field(at, camel(s))
        args = [value(a) for a in args.split(";")]
        before = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        wrong = []
        segments = rest.split("/") if rest else []
        if what == "F":
            for s in segments: at = I.field(at, camel(s))
            r = I.call(I.field(at, func), args)
        else:
            depth = int(depth)
            for s in segments[:depth]: at = I.field(at, camel(s))
            given = [value(a) for a in ctor.split(";")]
            key = (model, rest, depth, ctor)
            if len(objects) > 300: objects.clear()
            o = objects.get(key)
            if o is None: o = objects[key] = I.call(I.field(at, cls), given)
            def attributes(x, where):
                for k, v in zip(names.split(","), given):
                    w = I.field(x, k)
                    if w != v: wrong.append(f"{where}.{k}={w!r} not {v!r}")
            attributes(o, "/".join(segments[:depth]))
            for i in range(depth, len(segments)):
                o = I.field(o, segments[i])
                attributes(o, "/".join(segments[:i + 1]))
            r = I.call(I.field(o, func), args)
        for a, b in zip(args, before):
            if isinstance(a, np.ndarray) and not np.array_equal(a, b, equal_nan=True): wrong.append("argument modified")
        if not (isinstance(r, float) or isinstance(r, np.ndarray) and r.dtype == np.float64): wrong.append(f"result is {julia.kind(r)}")
        out.write(f"{n}\tok\t{shape(r)}\t{bits(r)}\t{' '.join(wrong)}\n")
    except JuliaError as e: out.write(f"{n}\tfailed\t\t\t{str(e)[:300]!r}\n")
    except Unsupported as e: out.write(f"{n}\tunread\t\t\t{str(e)[:300]!r}\n")
    out.flush()
for name, ret, types in sorted(I.symbols): out.write(f"types\t{name}\t{ret.replace('Cdouble', 'Float64')}\t{','.join(types).replace('Cdouble', 'Float64').replace('Cuchar', 'UInt8')}\n")
out.write(f"calls\t{I.calls}\nend\n")
