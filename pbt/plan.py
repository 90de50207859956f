"""How many cases of each leg a quick run generates (thorough: 12x), and the evidence texts."""
PLAN = {
    "C01": [
        dict(leg="flow", modes=dict(x64=16000, f32=8000), shards=4),
        dict(leg="special", modes=dict(x64=2000, f32=1000)),
        dict(leg="many", modes=dict(x64=600, f32=400), cost=5),
        dict(leg="eager", modes=dict(x64=20, f32=10), cost=200),
    ],
    "C02": [
        dict(leg="elps", modes=dict(x64=6000, f32=5000)),
        dict(leg="hypb", modes=dict(x64=6000, f32=5000)),
        dict(leg="uni", modes=dict(x64=6000, f32=4000), shards=2),
        dict(leg="equations", modes=dict(x64=2500, f32=2000)),
    ],
    "C03": [
        dict(leg="ufuncs", modes=dict(x64=6000, f32=5000)),
        dict(leg="lagrange", modes=dict(x64=3000, f32=2000)),
    ],
    "C04": [
        dict(leg="state", modes=dict(x64=12000, f32=8000), shards=2),
        dict(leg="elements", modes=dict(x64=6000, f32=4000)),
        dict(leg="angles", modes=dict(x64=3000, f32=2000)),
    ],
    "C05": [
        dict(leg="formulas", modes=dict(x64=5000, f32=4000)),
        dict(leg="orbit", modes=dict(x64=8000, f32=6000)),
    ],
    "C06": [
        dict(leg="stm", modes=dict(x64=6000, f32=4000), shards=3),
        dict(leg="formulas", modes=dict(x64=3000, f32=2000)),
    ],
    "C07": [
        dict(leg="zonal", modes=dict(x64=12000, f32=8000), shards=2),
    ],
    "C08": [
        dict(leg="short", modes=dict(x64=500, f32=300), cost=2),
        dict(leg="entry", modes=dict(x64=480, f32=240), shards=3, cost=30),
        dict(leg="defaults", modes=dict(x64=200, f32=100), shards=2, cost=30),
        dict(leg="fixed", modes=dict(x64=1200, f32=600), cost=10),
        dict(leg="limits", modes=dict(x64=600, f32=300), cost=10),
        dict(leg="long", modes=dict(x64=120), cost=60),
        dict(leg="settings", modes=dict(x64=360, f32=160), shards=3, cost=30),
    ],
    "C09": [
        dict(leg="stop", modes=dict(x64=700, f32=350), shards=3, cost=30),
        dict(leg="several", modes=dict(x64=300, f32=150), cost=20),
        dict(leg="outputs", modes=dict(x64=300), shards=3, cost=30),
        dict(leg="root", modes=dict(x64=240), shards=2, cost=30),
        dict(leg="value", modes=dict(x64=3000, f32=2000)),
    ],
    "C12": [
        dict(leg="arc", modes=dict(x64=12000, f32=8000), shards=2),
        dict(leg="nmax", modes=dict(x64=5000, f32=3000)),
        dict(leg="ties", modes=dict(x64=1000, f32=1000)),
    ],
    "C13": [
        dict(leg="rotations", modes=dict(x64=6000, f32=4000), shards=2),
    ],
    "C14": [
        dict(leg="kepler", modes=dict(x64=4000, f32=3000), shards=2),
        dict(leg="stm", modes=dict(x64=2500, f32=1500), shards=2),
        dict(leg="elements", modes=dict(x64=4000, f32=3000)),
        dict(leg="gravity", modes=dict(x64=3000, f32=2000)),
        dict(leg="paths", modes=dict(x64=3000, f32=2000)),
        dict(leg="cowell", modes=dict(x64=500, f32=250), cost=20),
    ],
}
PLAN["C11"] = [
    dict(leg="elements", modes=dict(x64=2400, f32=1800), shards=3, cost=10),
    dict(leg="ktimes", modes=dict(x64=1500, f32=1000)),
]
PLAN["C16"] = [
    dict(leg="forms", modes=dict(x64=1600, f32=1200), shards=3, cost=10),
    dict(leg="solvers", modes=dict(x64=300, f32=200), cost=20),
    dict(leg="eager", modes=dict(x64=24, f32=12), cost=100),
    dict(leg="bigint", modes=dict(x64=600, f32=600), cost=5),
    dict(leg="forces", modes=dict(x64=500, f32=400), cost=3),
    dict(leg="propagators", modes=dict(x64=110, f32=50), cost=40),
    dict(leg="defaults", modes=dict(x64=300, f32=200), cost=3),
]
PLAN["C10"] = [
    dict(leg="values", modes=dict(x64=900, f32=600), shards=3, cost=20),
    dict(leg="solvers", modes=dict(x64=200, f32=150), cost=20),
    dict(leg="eager", modes=dict(x64=8, f32=4), cost=300),
    dict(leg="derivs", modes=dict(x64=1500, f32=1200), shards=2, cost=10),
    dict(leg="roots", modes=dict(x64=1500, f32=1000)),
    dict(leg="kepler", modes=dict(x64=1500, f32=1000), cost=2),
    dict(leg="forces", modes=dict(x64=400, f32=300), cost=3),
    dict(leg="propagators", modes=dict(x64=60, f32=40), cost=60),
    dict(leg="sensitivity", modes=dict(x64=120), cost=60),
    dict(leg="second", modes=dict(x64=300), cost=6),
]
PLAN["C15"] = [
    dict(leg="forces", modes=dict(x64=450, f32=225), shards=2, cost=4),
    dict(leg="calls", modes=dict(x64=120, f32=80), shards=2, cost=20),
    dict(leg="arguments", modes=dict(x64=500, f32=250), cost=2),
    dict(leg="neighbours", modes=dict(x64=320, f32=120), shards=2, cost=4),
    dict(leg="solvers", modes=dict(x64=48, f32=36), shards=2, cost=40),
    dict(leg="propagators", modes=dict(x64=40, f32=24), shards=4, cost=100),
]

# How cases are made, and what makes one non-trivial (counted by the check's return value).
RULES = {
    "C01": "flow: 6 times of a generated orbit (conic, shape, orientation, phase, units) in one call; special: exact parabolas, circles, axis-aligned and rectilinear-adjacent states; eager: uncompiled calls with keyword, default and scalar-time forms. Non-trivial: at least one non-zero time whose error bound is informative.",
    "C02": "Batches of four (M, e) / (N, e) / (dt, alpha, r0, sigma0, mu) with and without an explicit tolerance, solved alone and under vmap. Non-trivial: an anomaly away from zero with e > 1e-3 (elps), |N| > 1e-3 (hypb), non-zero time with an informative bound (uni); every case of equations.",
    "C03": "ufuncs: one alpha and several chi, chosen by sqrt|alpha| chi or by chi itself, concentrated near zero; lagrange: an arc of a generated orbit. Non-trivial: chi != 0 / time != 0.",
    "C04": "state: generated orbit states, one in ten exactly equatorial; elements: any real angles, special angles; angles: pairs of vectors. Non-trivial: the round-trip bound is below 5% of the radius (state), the point lies on the conic (elements), both vectors non-zero (angles).",
    "C05": "formulas: scalar and broadcast arguments, with and without defaults; orbit: two points of one generated orbit. Non-trivial: always (formulas); e > 0 and distinct points (orbit).",
    "C06": "An arc of a generated orbit, either time direction. Non-trivial: non-zero time and a relative error bound below 1e-2.",
    "C07": "Random directions, poles, equator, axes, sizes over many orders of magnitude; random mu, R, Jn, extra parameters, default parameters. Non-trivial: the zonal coefficient is not zero.",
    "C08": "A generated orbit, 0 to 5 added force terms (zonal, drag, thrust, time-dependent), spans, save grids, steps, tolerances, solvers, step limits. Non-trivial: entry: at least one perturbation; fixed: three or more steps; limits: the limit decided something; long: over 1000 steps; short: a span other than zero; defaults: the arc is regular.",
    "C09": "A generated (usually descending or decaying) orbit, a threshold derived from the radii the arc actually attains (early, late, marginal, never), one of several events. Non-trivial: the event ended the arc (stop, several, root); the radius is not the threshold itself (value).",
    "C10": "A function of the registry and rows of valid arguments (values, solvers, eager), a point and direction (derivs), parameters of a root (roots), an arc (kepler), force-model parameters, a propagation (propagators, sensitivity), a point (second). Non-trivial: two or more rows in the documented domain; a derivative that was compared.",
    "C11": "A broadcast shape, a compatible shape per argument, values per element including special ones. Non-trivial: at least two compared slots.",
    "C12": "An arc built from two true anomalies on a generated conic. Non-trivial: a predicate was compared (arc); at least one admissible revolution (nmax); an exact 180-degree transfer on whole-number vectors (ties).",
    "C13": "Angles of all sizes and signs, arrays of shapes 0 to 3 dimensions. Non-trivial: |sin(angle)| > 1e-3.",
    "C14": "A case of C01/C04/C06/C07/C08/C12 together with a rotation or reflection, length and time factors, and time reversal. Non-trivial: a comparison whose bound is informative was made at non-zero time.",
    "C15": "arguments: a function or force model called twice on the same writable NumPy arrays (one element or a batch) and parameter dictionaries. neighbours: a call and three with nearly equal arguments. Otherwise: a history of 5 to 11 operations on force models, functions, solvers or propagators: fresh calls (eager, compiled, batched; defaults and explicit parameters), repetitions, the same call with one ingredient changed, failing calls, mutation of the caller's own objects. Non-trivial: at least two calls and one repetition compared.",
    "C16": "A function and exactly representable argument values, each in a representation drawn per argument, positional/keyword, defaults omitted or spelled out. Non-trivial: a representation other than the baseline was compared.",
}
_N = "Error bounds are first-order forward bounds with a constant factor of 16 to 64; an error smaller than the bound is not seen."
ASSUMPTIONS = {
    "C01": ["Rectilinear states (zero angular momentum) are outside the property.", "The NumPy long double reference (80-bit) is right; it is cross-checked against conservation laws in every case.", _N],
    "C02": ["Domain: 0 <= e < 1 (elliptic), e > 1 (hyperbolic), |M| up to many revolutions.", "A call is taken not to return when it makes no progress for 90 s and again in a fresh process.", _N],
    "C03": ["Arguments for which the functions overflow are excluded.", _N],
    "C04": ["Angles are compared modulo 2 pi; element angles are compared only where they are well conditioned, states always.", _N],
    "C05": ["Apoapsis of open orbits and periods of open orbits are undefined and not compared.", _N],
    "C06": ["Reference: complex-step differentiation, in long double, of the two-body flow in universal variables.", _N],
    "C07": ["Reference: complex-step gradient, in long double, of the zonal potential written with Legendre polynomials.", _N],
    "C08": ["Reference: the closed two-body flow, or SciPy DOP853 (rtol 1e-12, atol 1e-13) on independently coded dynamics; cases the reference cannot resolve are skipped.", "Global error of the default tolerance is bounded by steps x tolerance x growth of the two-body flow.", "diffrax (integrator) itself is trusted for what a step is."],
    "C09": ["Root finding is tried with bisection; a root finder that does not converge is the caller's.", "Cases where the radius passes within rounding of the threshold are decided either way."],
    "C10": ["Of the numerical propagators only reverse-mode derivatives of the final state on regular arcs are compared; derivatives through the Kepler solvers carry the documented 1e-6 residual."],
    "C11": ["Arguments documented as scalars (alpha of the universal functions) are not broadcast."],
    "C12": ["Arcs within rounding of the decision boundary (180 degree transfer, periapsis at an end point, periapsis at the limit) are not judged, except where all arithmetic is exact (ties)."],
    "C13": [_N],
    "C14": ["Exact transformations (powers of two, axis permutations, signs) are compared far tighter than general ones.", _N],
    "C15": ["Results are compared bitwise between compiled calls of equal signature."],
    "C16": ["int32 NumPy inputs in 64-bit mode follow JAX's promotion to float32 and are excluded.", "Plain Python/NumPy results may be wider than the session precision in 32-bit mode."],
}
