#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "src/physics/single_chain/"
def P(id, title, statement, over, text, why, files, mech, technique="", note="", observe=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe or [], na=na)
ISOM = [SC + m + "/thermodynamics/isometric/mod.rs" for m in ("fjc", "wlc", "ideal")]
ISOT = [SC + m + "/thermodynamics/isotensional/mod.rs" for m in ("fjc", "efjc", "swfjc", "wlc", "ideal", "ufjc/lennard_jones", "ufjc/log_squared", "ufjc/morse")]
LEG = [SC + m + "/thermodynamics/isometric/legendre/mod.rs" for m in ("fjc", "swfjc", "wlc")] + [SC + "efjc/thermodynamics/isometric/asymptotic/", SC + "ufjc/"]
MC = [SC + "fjc/thermodynamics/modified_canonical/mod.rs", SC + "fjc/thermodynamics/modified_canonical/asymptotic/"]
EXPL = "Exploration: seeded random and edge inputs of the whole documented domain, decided by an independent oracle; no proof for inputs not drawn. Trusts IEEE double arithmetic of the platform and the monitor's references. "
L = [
P("C01", "Special functions are accurate and finite over their whole domain",
  "The error function, its complement and scaled complement, the Lambert W function, the modified Bessel functions of order zero and one, and the inverse Langevin function return the mathematical function's value to the accuracy of their approximation (about ten digits where a series or polynomial table is used, the published few parts in ten thousand for the inverse Langevin function) for every argument in their domain. They never overflow to infinity or NaN where the function's value is representable, and odd and even symmetries hold for negative arguments.",
  ["inputs"], "every finite real argument in each function's domain, including every one of the hundred polynomial pieces and both tails",
  "The tests evaluate the functions at a handful of random arguments in a narrow interval; a wrong coefficient in one of a hundred polynomial pieces, a wrong branch threshold or a tail overflow is not drawn.",
  ["src/math/mod.rs"], [("piecewise Chebyshev tables and asymptotic tails", "src/math/mod.rs erfcx, erf, erfc"), ("Halley iteration", "src/math/mod.rs lambert_w"), ("polynomial approximations", "src/math/mod.rs bessel_i, inverse_langevin, approximate_inverse_langevin")],
  "runtime oracle: every table piece and tail driven, values checked against independent references"),
P("C02", "Root finders and quadrature meet their stated tolerances and budgets",
  "A root search started from any guess in the basin returns a point where the equation is satisfied to the requested tolerance, begins at the guess given and never spends more than its iteration budget. The midpoint quadrature samples only inside its interval the requested number of times, is linear in the integrand and has the midpoint rule's error.",
  ["inputs"], "smooth monotone functions, targets, guesses, tolerances, intervals, point counts",
  "These routines are only exercised indirectly, on the few curves the model tests draw; an off-by-one sample, lost end point or ignored tolerance hides within the model tests' tolerances.",
  ["src/math/mod.rs"], [("Newton iteration with tolerance and budget", "src/math/mod.rs newton_raphson"), ("midpoint quadrature in one dimension", "src/math/mod.rs integrate_1d, integrate_1d_grid")],
  "runtime monitor on hooked callbacks: records every evaluation point and decides budget, start, domain, accuracy"),
P("C03", "Dimensional results are the nondimensional ones times their units",
  "For every single-chain model, ensemble and approximation, a dimensional length, force, free energy or density equals its nondimensional counterpart times the unit (link length, thermal energy over link length, thermal energy, inverse contour length to its power), for every state. Equivalently results depend on link length, temperature, stiffness and load only through their dimensionless groups, up to the kinetic and reference terms.",
  ["inputs", "configurations"], "all parameter sets (number of links 1 to 255, link length, mass, temperature, stiffness, well width, persistence length) and loads",
  "The tests scale at eight random parameter sets in a narrow range around unity; scaling slips that vanish there, for odd parameters or extremes, pass.",
  [SC], [("each dimensional function calls its nondimensional twin with scaled arguments", SC + "*/thermodynamics/**/mod.rs")],
  "runtime differential oracle over all function twins"),
P("C04", "Chain quantities are the number of links times per-link quantities",
  "Every total quantity of a chain equals the number of links times the corresponding per-link quantity. Where links are independent, the per-link quantity does not depend on how many links the chain has.",
  ["inputs", "configurations"], "all models, ensembles, chain lengths 1 to 255 and loads",
  "Tests compare the pair at eight random states with loose tolerances and never compare chains of different lengths.",
  [SC], [("per-link wrappers", SC + "*/thermodynamics/**/mod.rs *_per_link")],
  "runtime differential oracle over all total and per-link twins and across chain lengths"),
P("C05", "Relative free energies are differences from the unloaded chain",
  "A relative free energy equals the free energy minus that of the chain at negligible load, so that its change between any two loads equals the change of the free energy. It vanishes as the load goes to zero and does not depend on the mass of the hinges.",
  ["inputs"], "all models and ensembles with relative free energies, all pairs of loads",
  "Tests subtract the reference at one load per draw, using the same code for the reference, so an error common to both, or at other loads, cancels or is not sampled.",
  [SC], [("reference load of one millionth", SC + "*/thermodynamics/**/mod.rs relative_*")],
  "runtime metamorphic oracle on pairs of loads and masses"),
P("C06", "At fixed force, length is minus the slope of the Gibbs free energy",
  "In every isotensional model and approximation the end-to-end length returned at a force is minus the derivative of the Gibbs free energy with respect to the force, for total, per-link, relative and nondimensional forms alike.",
  ["inputs", "configurations"], "all isotensional models and approximations, parameter sets and forces up to each model's largest bearable force",
  "Tests check the slope at a few moderate random forces with finite differences and tolerances that hide missing small terms, and not at all in several approximations.",
  ISOT, [("length and free energy are coded as separate closed forms", SC + "*/thermodynamics/isotensional/**/mod.rs")],
  "runtime conjugacy monitor: difference quotients of observed energies against observed lengths"),
P("C07", "At fixed length, force is the slope of the Helmholtz free energy",
  "In every isometric model and approximation the force returned at an end-to-end length is the derivative of the Helmholtz free energy with respect to that length, for total, per-link, relative and nondimensional forms alike.",
  ["inputs", "configurations"], "all isometric models and approximations, parameter sets and lengths",
  "Tests check the slope at a few random lengths; Treloar sums switch terms at particular lengths and parities that they seldom draw.",
  ISOM + LEG, [("force and free energy are coded as separate closed forms or sums", SC + "*/thermodynamics/isometric/**/mod.rs")],
  "runtime conjugacy monitor: difference quotients of observed energies against observed forces"),
P("C08", "Gibbs and Helmholtz free energies are Legendre transforms of each other",
  "Within an ensemble's Legendre approximation the Helmholtz free energy is the Gibbs free energy plus force times length, and the other way around, at every state and for relative, per-link and nondimensional forms.",
  ["inputs", "configurations"], "all Legendre-transform modules of all models, parameter sets and loads",
  "Tests check the relation at random moderate loads with relative tolerances; errors that matter at small or large loads pass.",
  [SC], [("explicit transform using the ensemble's own conjugate variable", SC + "*/thermodynamics/*/legendre/mod.rs")],
  "runtime differential oracle on observed energies, forces and lengths"),
P("C09", "Fixed-length Legendre forces invert the fixed-force length",
  "The force a Legendre-approximated isometric model returns for a length is the force at which the corresponding isotensional model returns that length, at every attainable length, from vanishingly small ones to past the contour length for extensible links, and the free energies agree at that state.",
  ["inputs", "configurations"], "all isometric Legendre modules, parameter sets and attainable lengths, from nearly unstretched to nearly the largest bearable",
  "Tests round-trip a few moderate lengths; at, near and beyond the contour length, or for weak and stiff links, the closed forms and root searches are not exercised.",
  LEG, [("closed-form or numerical inversion", SC + "*/thermodynamics/isometric/**/legendre/mod.rs")],
  "runtime round-trip oracle between ensembles"),
P("C10", "Results equal the statistical mechanics of each chain model",
  "Lengths, forces, free energies and densities agree with the partition function of the model they claim to represent: exact ensembles with its numerical quadrature, asymptotic, reduced and alternative approximations with their published formulas, the isometric freely jointed chain with the random-walk distribution, and the worm-like chain with its published interpolated distribution.",
  ["inputs", "configurations"], "all models, ensembles and approximations, parameter sets and loads",
  "Tests are self-consistency relations between functions; an error made consistently in a free energy and its derivative passes them all, and no independent reference is consulted.",
  [SC], [("closed-form partition functions and Treloar sums", SC + "*/thermodynamics/**/mod.rs")],
  "runtime oracle: independent partition-function quadrature, double-double sums and bisected inverses"),
P("C11", "Equilibrium distributions are normalized, nonnegative Boltzmann densities",
  "For every model with an end-to-end distribution the radial density integrates to one over all lengths, densities are finite and nonnegative, the radial density is the spherical shell area times the density, ratios of densities are Boltzmann factors of Helmholtz free energies and the mean square length is the model's.",
  ["inputs", "configurations"], "ideal, freely jointed and worm-like chains, chain lengths, link lengths, persistence lengths, lengths",
  "Tests check normalization for a few chain lengths with a coarse sum and never the moments or the density between sample points.",
  ISOM + LEG[:3], [("normalization computed on construction", SC + "*/thermodynamics/isometric/**/mod.rs init")],
  "runtime monitor: independent quadrature of observed densities and energies"),
P("C12", "Chains are stable: monotone response, bounded length, ordered stiffness",
  "A larger force always gives a larger length and a lower Gibbs free energy, a larger length a larger force and a higher Helmholtz free energy; lengths stay between zero and the stretched contour length; stiffer links, narrower wells and less persistent chains stretch less at equal force. A chain at rest carries no force, and the response is proportional to the load at small loads.",
  ["inputs", "configurations"], "pairs of states that differ in one quantity, all models and ensembles",
  "Tests sample isolated states and never compare neighbours; kinks, jumps at branch changes and sign errors in tails show only across pairs.",
  [SC], [("closed forms, piecewise sums and iterative inversions", SC + "*/thermodynamics/**/mod.rs")],
  "runtime metamorphic monitor on pairs of states"),
P("C13", "Models and approximations converge to their common limits at the right rate",
  "Extensible and arbitrary-potential chains become freely jointed as links stiffen, square-well chains as the well narrows, and freely jointed chains ideal at small loads; approximations approach what they approximate, with the error falling at the approximation's order; ensembles agree for long chains.",
  ["inputs", "configurations"], "pairs of models with a common limit, parameter sets, loads and sequences approaching the limit",
  "Tests check some limits at one extreme parameter with a loose tolerance; a wrong sub-leading term changes the rate but not the limit.",
  [SC], [("asymptotic expansions in inverse stiffness and chain length", SC + "efjc/, " + SC + "ufjc/, " + SC + "swfjc/")],
  "runtime metamorphic monitor of distances along sequences toward limits"),
P("C14", "Chains held by a harmonic potential obey the modified canonical ensemble",
  "A freely jointed chain whose end is held by a harmonic potential of any stiffness and distance has the force, length and free energies of the exact ensemble average over its end-to-end distribution; force is the slope of the Helmholtz free energy in the potential's distance, chain length and potential stretch add up to that distance, and the strong and weak potential approximations approach the exact ensemble at their order.",
  ["inputs", "configurations"], "chain lengths 5 to 25, potential stiffnesses from weak to strong, distances inside and beyond the contour length",
  "Tests sample few states and compare only with the library's own quadrature; both sides share the integrand.",
  MC, [("quadrature of the Treloar density with a Boltzmann factor", MC[0]), ("asymptotic corrections", MC[1])],
  "runtime oracle: independent quadrature of the exact distribution, conjugacy and force balance"),
P("C15", "Hyperelastic networks give the stress of their chains, zero at rest",
  "The stress of a polymer network in uniaxial and equibiaxial tension is the orientation average of its chains' forces over the deformed equilibrium distribution, as documented, for every chain length, link stiffness and stretch; it is finite, zero at rest, grows with stretch, and uniaxial and equibiaxial modes are consistent with each other and with the neo-Hookean limit.",
  ["inputs", "configurations"], "both solution methods, chain lengths, link stiffnesses, stretches below and above one",
  "The constitutive models have no tests at all.",
  ["src/constitutive/hyperelastic/buche_silberstein/mod.rs", "src/constitutive/hyperelastic/buche_silberstein/ex.rs"], [("double quadrature over a compactified grid", "src/constitutive/hyperelastic/buche_silberstein/mod.rs")],
  "runtime oracle: independent quadrature, metamorphic relations between modes and limits"),
P("C16", "Network damage is irreversible and depends only on the largest stretch",
  "Over any loading history the intact fraction never increases and depends only on the largest stretch so far; stress at a step equals the integral over the chains not yet broken by the history, retracing the path on reloading; a virgin network at rest is whole at any swelling, and a network that cannot break is the hyperelastic one.",
  ["histories", "inputs", "configurations"], "loading histories (walks, cycles, spikes, reloading), both methods, critical extensions, swelling ratios, chain lengths and stiffnesses",
  "The damage model has no tests at all; irreversibility is a property of histories.",
  ["src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs"], [("damage field updated along the history", "src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs")],
  "runtime history monitor with an independent damage-state model"),
P("C17", "Monte Carlo samples have the exact distribution of their chain model",
  "Randomly generated configurations of freely jointed, freely rotating and extensible chains have the prescribed link lengths and angles, isotropic independent links and uniform torsions, and end-to-end lengths with the exact moments; estimated distributions count every sample, are normalized and follow the exact distribution, for every chain length, bin count, sample count and thread count.",
  ["inputs", "configurations", "schedules"], "chain lengths, link angles and stiffnesses, bin counts, sample counts, thread counts and their scheduling",
  "Tests compare one chain length with a loose tolerance or only run the code; parity of the chain length, thread splits and link correlations are not sampled.",
  [SC + "fjc/thermodynamics/isometric/monte_carlo/mod.rs", SC + "frc/thermodynamics/isometric/monte_carlo/mod.rs"], [("random configuration, histogram, thread pool with channel", SC + "*/thermodynamics/isometric/monte_carlo/mod.rs")],
  "runtime statistical monitor of sampled configurations (7 sigma) and histogram conservation"),
P("C18", "The C interface returns the Rust results and touches only its arguments",
  "Every documented C function is exported under its name and returns what the Rust function returns for the same arguments, bit for bit up to rounding, including the functions that take arrays, which read only the arrays they are given and never write to them.",
  ["inputs"], "all exported functions and argument values; arrays placed against inaccessible pages and in read-only memory",
  "No test calls the C interface; argument order, types and slice lengths of 550 hand-written wrappers are unchecked.",
  [SC + "*/ex.rs", "src/constitutive/hyperelastic/buche_silberstein/ex.rs"], [("extern C wrappers", SC + "**/ex.rs")],
  "runtime differential oracle through the loaded shared library; guard pages; Miri"),
]
P19 = P("C19", "The Python interface returns the Rust results, elementwise on arrays",
  "Every Python class and method, reached by its own module or through its parent object, returns the Rust result for each element of the given array in the array's order, for contiguous and strided arrays and those of any length, leaves its arguments unmodified and exposes the constructor's values as attributes.",
  ["inputs", "configurations"], "all Python classes and methods, parameter sets, arrays (empty, one element, long, strided, reversed)",
  "No test in the suite calls the Python interface with non-contiguous or empty arrays, and the Rust tests do not call it at all.",
  ["src/py.rs", SC + "**/py.rs", "src/constitutive/**/py.rs"], [("pyo3 classes with vectorized methods", SC + "**/py.rs")],
  "runtime differential oracle: recorded Python observations decided against Rust values")
P20 = P("C20", "Model objects agree with the functions and pass parameters to every part",
  "A method of a model object, whether called on the object of its own module or reached through its parent model, returns what the free function returns with the object's parameters and, where the function takes a dimensionless group, the group formed from those parameters and the temperature. Every nested part carries the parameters given to the top-level constructor, and methods do not change the object.",
  ["inputs", "configurations", "histories"], "all models and nested parts, parameter sets, arguments and orders of calls",
  "Tests construct each object with a few random parameter sets and compare a handful of methods; swapped or stale parameters in deeply nested parts are not compared.",
  [SC], [("init of every nested struct and methods that forward to free functions", SC + "*/thermodynamics/**/mod.rs init")],
  "runtime differential oracle over all object paths with recorded call histories")
P21 = P("C21", "Functions are total, deterministic and safe to call concurrently",
  "Within the documented domain every function returns a finite value without panicking, overflowing integer arithmetic or hanging, gives the same answer for the same arguments however often and in whatever order it is called, and gives the same answers when objects are shared by concurrent threads. No execution has undefined behavior or a data race.",
  ["inputs", "schedules", "configurations"], "all functions, extreme but admissible arguments, call orders and thread interleavings",
  "Tests call functions serially, at moderate arguments, and never twice; overflow at long chains and stalls of iterations at edges are not reached.",
  ["src/"], [("pure functions of their arguments; channels in the Monte Carlo parts", "src/**")],
  "runtime monitors: overflow checks, panic and hang watchdog, bitwise replay across threads, Miri")
P22 = P("C22", "The Julia interface returns the Rust results, broadcast over arrays",
  "Every Julia function, and every function field of a model object (built by its own constructor or reached through its parents), returns the Rust result for the same arguments, for scalars and elementwise, in order, for arrays that broadcast; model objects carry their constructor's values; C functions are called with the types they take; the package loads.",
  ["inputs", "configurations"], "all 554 Julia functions and the function fields of all model objects, parameter sets, scalars and arrays of all shapes",
  "The Rust test suite does not run the Julia sources, and the Julia tests sample scalars at a few states.",
  ["src/Polymers.jl", SC + "**/mod.jl"], [("ccall wrappers broadcast over arrays; model structs of closures", SC + "**/mod.jl")],
  "runtime differential oracle: recorded observations of the interpreted Julia sources, calling the built library, decided against Rust values; trace check of the C call signatures",
  note=" There is no Julia in the sandbox: the sources are run by an interpreter (py/julia.py) of the part of the language they are written in; what it cannot read is counted, not judged.")

CLAIMED = L + [p for p in (P19, P20, P21, P22) if os.path.exists(f"{D}/harness/src/checks/{p['id'].lower()}.rs")]
ALL = L + [P19, P20, P21, P22]
with open(f"{D}/properties.jsonl", "w") as f:
    for p in ALL:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"] or ["values returned by the public interface"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
    checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}", evidence_file=f"evidence/{p['id']}.json",
        technique=p["technique"], level="exploration", level_note=(EXPL + p["note"]).strip()) for p in CLAIMED],
    not_applicable=[dict(property=p["id"], reason=p["na"] or "the check is not built yet") for p in ALL if p not in CLAIMED],
    notes="One harness (harness/) compiled against /repo's working tree with overflow checks; check.sh builds it and runs one monitor under a supervisor. See DESIGN.md. No hooks: every monitor observes the public interface.")
json.dump(m, open(f"{D}/MANIFEST.json", "w"), indent=1)
open(f"{D}/MANIFEST.json", "a").write("\n")
