#!/usr/bin/env python3
"""Writes harness/src/combos.rs: the instantiated B-spline shapes."""
import os
shapes = set()
for d in range(0, 6):
    for c in range(d + 1, d + 8):
        shapes.add((d, c))
for d, c in [(6, 7), (6, 8), (7, 8), (7, 9), (3, 20), (2, 33), (1, 16), (4, 17)]:
    while d >= 0:
        shapes.add((d, c)); d -= 1; c -= 1
shapes = sorted(shapes)
big = set()
for d, c in [(1, 130), (3, 70), (2, 260), (8, 11), (10, 16), (13, 19), (17, 18), (9, 40)]:
    while d >= 0:
        big.add((d, c)); d -= 1; c -= 1
big = sorted(big - set(shapes))
extra = sorted(s for s in shapes if s[1] <= s[0] + 5 and s[0] <= 4)
# close the reduced set under derivatives
ex = set(extra)
for d, c in extra:
    while d >= 0:
        ex.add((d, c)); d -= 1; c -= 1
def body(ss):
    z = " ".join(f"({c+1} {c})" for d, c in sorted(ss) if d == 0)
    p = " ".join(f"({c+d+1} {c} {d})" for d, c in sorted(ss) if d > 0)
    return f"zero {z} pos {p}"
tiny = {s for s in shapes if s[0] <= 3 and s[1] <= s[0] + 3}
out = "// generated by tools/gen_combos.py\n"
for P, ss in [("PointN<F, 2>", shapes + big), ("SP<2>", shapes + big), ("PointN<F, 1>", ex), ("PointN<F, 3>", ex), ("Named3", ex), ("PointN<S, 2>", tiny), ("PointN<F, 4>", tiny), ("PointN<F, 6>", tiny)]:
    out += f"bs_all!({P}: {body(ss)});\n"
out += "/// (degree, number of control points)\npub const SHAPES: &[(usize, usize)] = &[" + ", ".join(str(s) for s in shapes) + "];\n"
out += "/// shapes available over every point type\npub const SMALL_SHAPES: &[(usize, usize)] = &[" + ", ".join(str(s) for s in sorted(ex)) + "];\n"
out += "/// shapes available over PointN with a foreign component type and in dimensions 4 and 6\npub const TINY_SHAPES: &[(usize, usize)] = &[" + ", ".join(str(s) for s in sorted(tiny)) + "];\n"
out += "/// shapes with more knots than a byte can count, or nearly so\npub const BIG_SHAPES: &[(usize, usize)] = &[" + ", ".join(str(s) for s in big) + "];\n"
grid = [(k, c, d) for d in range(0, 4) for c in range(0, 6) for k in range(1, 11)]
out += "macro_rules! ctor_grid { ($m:ident) => { $m!{ " + " ".join(f"({k} {c} {d})" for k, c, d in grid) + " } }; }\npub(crate) use ctor_grid;\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/src/combos.rs"), "w").write(out)
print(len(shapes), len(ex), len(grid))
