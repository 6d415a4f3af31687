"""Generates properties.jsonl and MANIFEST.json.  Usage: python3 tools/meta.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PA, PS, PC, PE = "lips/particle.py", "lips/particles.py", "lips/particles_compute.py", "lips/particles_eval.py"
ST, SP, VA, SL = "lips/hardcoded_limits/particles_set.py", "lips/hardcoded_limits/particles_set_pair.py", "lips/particles_variety.py", "lips/particles_slices.py"
SV, CI, II, AT = ["lips/algebraic_geometry/" + f for f in ("particles_singular_variety.py", "covariant_ideal.py", "invariant_ideal.py", "tools.py")]
IN, SY, TO = "lips/invariants.py", "lips/symmetries.py", "lips/tools.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique="contracts on the real functions, executed over universally quantified field elements on every path; obligations discharged by exact polynomial normal form + z3"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), _note=note, _technique=technique))


K = "all field elements (symbolic); discrete structure (multiplicity, leg labels, modes, conventions) enumerated up to the bound in the evidence"
prop("P01", "All representations of a particle's momentum agree after every update",
     "However a particle is created or modified (four-momentum, rank-two spinor, angle or square spinor, upper or lower index, conjugation), every representation it exposes describes the same momentum: lowering and raising are inverse, the rank-two spinors are adjugate to each other, the slashed four-momentum equals the rank-two spinor, and for light-like momenta the rank-two spinor is the outer product of the two spinors. This holds in both spinor conventions and in every number field; a representation that does not exist in the field is absent, never stale.",
     ["inputs", "histories", "configurations"], "every kinematic input, every sequence of updates of the representations, both spinor conventions, every field",
     "tests build a few random points and read one representation back; they never compare all representations after each setter",
     [PA], [("setters keep all representations in step", PA + ":Particle.r_sp_d/r_sp_u/l_sp_d/l_sp_u/r2_sp/r2_sp_b/four_mom/four_mom_d"), ("spinor extraction in both conventions", PA + ":_set_r_sp_d,_set_l_sp_d"), ("conjugation", PA + ":angles_for_squares")],
     "proved for all field elements: every setter and constructor from an arbitrary prior state (class invariant re-established), so every history of updates follows by induction over the invariant")
prop("P02", "Momentum arithmetic is exact and leaves its operands untouched",
     "Adding, subtracting, negating, scaling or dividing particles gives a new particle in the same field whose momentum is exactly the corresponding linear combination, fully coherent in all its representations. The operands are unchanged and share no storage with the result, and zero is neutral on either side, so built-in summation works.",
     ["inputs", "configurations"], "all momenta, all scalars, light-like or massive operands, both conventions, all fields",
     "tests check a couple of random sums; aliasing, neutral elements and massive/massless combinations are not sampled",
     [PA], [("arithmetic operators", PA + ":Particle.__add__.__truediv__"), ("squared mass and mass", PA + ":Particle.lsq,m2,m"), ("dot product", TO + ":ldot")],
     "proved for all momenta and scalars")
prop("P03", "Generated phase-space points conserve momentum and are on shell",
     "A freshly generated or re-randomised phase-space point has the requested multiplicity and field, every leg is light-like and the total momentum vanishes within the field's tolerance; with real momenta every component is real, and equal seeds give equal points. Repairing momentum conservation with any two chosen legs makes the total momentum vanish while changing nothing but the requested spinors of those two legs, and points that already conserve momentum, or that are built with repair switched off, are left alone.",
     ["inputs", "configurations"], "every random draw, every multiplicity, every pair of repaired legs, both chiralities and all real axes, massive spectators, every field",
     "tests generate a few points at one or two multiplicities and never fix the legs to repair",
     [PS, PA], [("momentum repair", PS + ":Particles.fix_mom_cons"), ("construction", PS + ":Particles.__init__"), ("redrawing", PS + ":Particles.randomise_all"), ("drawing", PA + ":Particle.randomise"), ("twistor generation", PS + ":Particles.randomise_twistor")],
     "proved for all kinematics at each multiplicity up to 9 and all pairs of legs; seeding is a bounded runtime contract")
prop("P04", "Phase-space diagnostics tell the truth",
     "The momentum-conservation check answers yes exactly when every component of the total momentum is within tolerance, and the on-shell check exactly when every squared mass is. The consistency report returns those two answers together with exactly those invariants whose magnitude is at or below the smallness threshold and exactly those at or above its inverse, for the default brackets and for a supplied list, without modifying the list or the point.",
     ["inputs", "configurations"], "all kinematics (conserving or not, on shell or not, with exact zeros and with small values), any list of invariants, every field",
     "tests only call the checks on good points; a diagnostic that always says yes would pass",
     [PS], [("momentum check", PS + ":momentum_conservation_check"), ("on-shell check", PS + ":onshell_relation_check"), ("outlier report", PS + ":phasespace_consistency_check"), ("masses", PS + ":m2s, ms, total_mom")],
     "proved for all kinematics on every comparison path; tolerance and magnitudes abstract (ordered set)")
prop("P05", "Spinor brackets and chains evaluate to their contraction",
     "Any spinor string - angle and square brackets, single open spinors, chains with any number of slashed sums or differences of momenta between them, closed or open at either end - evaluates to exactly the matrix product it denotes, whatever the leg labels (including two-digit ones), with or without parentheses, with ASCII or Unicode brackets, with bold digits. A chain whose closing bracket does not fit its length is rejected with a syntax error rather than evaluated.",
     ["inputs", "programs"], "all kinematics, all well-formed strings of the bracket grammar up to four slashed entries, all leg labels up to 11, massive middle legs",
     "tests evaluate a dozen strings at one random point",
     [PC, TO], [("string recognition", TO + ":pA2..pNB_double_open"), ("contraction", PC + ":Particles_Compute.compute")],
     "proved for all kinematics for every enumerated string shape; the set of strings is enumerated (stated in the evidence), not quantified")
prop("P06", "Mandelstams, traces, Gram determinants and letters equal their definition",
     "Mandelstam invariants are the squared sum of the listed momenta, traces are traces of the alternating product, the parity-odd trace is the difference of the two chiral traces (multilinear, antisymmetric, with sums in any slot), and the Gram-type letters, in the contiguous and in the explicit-corner notation, equal their definition in terms of scalar products; the squared parity-odd trace equals the five-point Gram determinant on conserved points. Spelling variants of the same quantity (with or without underscore, upper or lower case, external mass alias) agree.",
     ["inputs", "programs"], "all kinematics, all index choices for multiplicities 4 to 8, sums in any slot, massive legs where meaningful",
     "tests compare a few letters at a few points",
     [PC, PS, TO], [("evaluation", PC + ":Particles_Compute.compute"), ("cyclic blocks", PS + ":ijk_to_3NonOverlappingLists"), ("determinant", TO + ":det"), ("dot product", PC + ":Particles_Compute.ldot")],
     "proved for all kinematics for every enumerated index choice")
prop("P07", "Expression evaluation is a homomorphism",
     "Evaluating a rational expression in spinor invariants gives the value obtained by evaluating its atoms and combining them with exact field arithmetic under the usual operator precedence, for sums, differences, products, quotients, integer powers, unary signs, rational constants, roots and mass symbols. The result does not depend on the notation: caret, double star or superscript powers, explicit or implicit multiplication, LaTeX fractions, compact or barred brackets, spaces and line breaks, Unicode minus, ASCII or Unicode angle brackets; a spin index (_ or d below, ^ or u above) on a massive leg picks the first of its two spinor components.",
     ["inputs", "programs"], "all kinematics, all expressions generated by the grammar up to the stated size, all notations, all fields",
     "tests evaluate a handful of fixed expressions",
     [PE, PC], [("textual normalisation", PE + ":Particles_Eval._parse"), ("tree evaluation", PE + ":_eval_node"), ("entry point", PS + ":Particles.__call__")],
     "proved for all kinematics for every enumerated or generated expression; the expressions are sampled from the grammar by seed plus a fixed list of precedence-sensitive shapes")
prop("P08", "Invariants are Lorentz invariant and carry the right little-group weight",
     "Every closed scalar expression is unchanged when all momenta are boosted or rotated by the same (complex) Lorentz transformation, and rescaling the spinors of one leg by opposite factors multiplies a bracket expression by the power of the factor given by its helicity weight, leaving Mandelstams, traces and Gram determinants unchanged. Open spinors and chains transform in the corresponding spinor representation.",
     ["inputs", "programs"], "all kinematics, all unimodular transformation matrices, all little-group rescalings, all invariants produced for multiplicities 4 to 6",
     "tests never transform a point",
     [PC, PA, IN], [("contraction of upper with lower indices", PC + ":Particles_Compute.compute"), ("raising and lowering", PA + ":_r_sp_d_to_r_sp_u,_l_sp_d_to_l_sp_u")],
     "lemma over the evaluation contracts, proved for all kinematics and all transformations")
prop("P09", "Relabelling and conjugation images act consistently on points and expressions",
     "The image of a phase-space point under a permutation evaluates any expression to the value the original point gives to the relabelled expression; with conjugation, angle and square brackets are exchanged as well. Images compose, the image under the inverse undoes it, and massive legs, internal masses and the reference vector are carried along while the original is untouched.",
     ["inputs", "programs"], "all kinematics (including coinciding momenta), all permutations up to multiplicity 5 and samples to 9, with and without conjugation",
     "tests use one permutation of one point",
     [PS, PA, SY], [("image", PS + ":Particles.image"), ("conjugation", PS + ":Particles.angles_for_squares"), ("inverse", SY + ":inverse")],
     "proved for all kinematics for each enumerated permutation")
prop("P10", "Copies, images and clusters are independent of the original",
     "A copy is equal to the original in every observable respect - momenta, field, multiplicity, internal masses, reference vector, helicity labels - and from then on the two share no mutable state: updating a spinor, momentum, mass or leg of one never shows in the other. The same independence holds for images and clustered points, and a point never captures the list, set or dictionary it was built from.",
     ["histories", "inputs"], "all kinematics, all mutators applied to either side after copying, massless, massive and spin-indexed legs",
     "tests never mutate after copying",
     [PS, PA], [("copy", PS + ":Particles.copy"), ("image", PS + ":Particles.image"), ("cluster", PS + ":Particles.cluster"), ("mass registry", PS + ":Particles.__init__,__setattr__")],
     "proved by frame obligations: state of the other object compared before and after each mutator, for all kinematics")
prop("P11", "Parity flip exchanges angle and square brackets",
     "Exchanging angles for squares turns every angle bracket into minus the square bracket of the same legs and vice versa, leaves Mandelstams, traces and Gram determinants unchanged, flips the sign of the parity-odd trace and reverses mixed chains. Applying it twice restores the point exactly (massive-fermion spinors up to their common sign), it keeps momentum conservation and on-shellness, and massive scalars and massive fermions stay consistent with their momenta.",
     ["inputs", "histories"], "all kinematics, all leg types, multiplicities 4 to 7",
     "tests flip once and check nothing but consistency",
     [PS, PA], [("flip", PA + ":Particle.angles_for_squares"), ("flip all", PS + ":Particles.angles_for_squares")],
     "proved for all kinematics")
prop("P12", "Clustering legs adds momenta and preserves physics",
     "Clustering legs into corners gives a point with one leg per corner whose momentum is the sum of the corner's legs in the given order, conserves momentum whenever the original does, and gives Mandelstams of corners equal to the original multi-leg ones; single-leg corners keep their spinors. Internal masses are carried over, with masses defined as aliases of corner Mandelstams translated to the new labels, and massive fermion legs carry two spinors whose sum of outer products is the corner momentum for either index position.",
     ["inputs", "configurations"], "all kinematics, all partitions and orders for multiplicities 4 to 7, all fermion index positions and values",
     "tests cluster one or two configurations",
     [PS, TO], [("clustering", PS + ":Particles.cluster"), ("alias translation", TO + ":subs_dict"), ("corner bookkeeping", PS + ":ijk_to_3Ks")],
     "proved for all kinematics for each enumerated partition")
prop("P13", "Setting one invariant yields a physical point with exactly that value",
     "Whenever setting a single invariant returns normally, the point has the same multiplicity, conserves momentum, has all legs light-like, and the invariant has exactly the requested value within the field's tolerance. If the target cannot be reached an error is raised instead of returning a wrong point; on points in general position every bracket, chain, Mandelstam and letter of the generated list is reached.",
     ["inputs", "configurations"], "all kinematics, all target values (symbolic), all two-brackets, chains, Mandelstams and letters at multiplicities 4 to 7, all modes and helper-leg choices",
     "tests set a list of invariants at one random point and one value each",
     [ST], [("dispatch and verification", ST + ":_set"), ("per-letter constructions", ST + ":_set_A2,_set_S2,_set_NB,_set_Sijk,_set_Dijk,_set_Oijk,_set_Pijk,_set_tr5,_set_p5Bdiff"), ("repair", PS + ":fix_mom_cons")],
     "bracket, chain and Mandelstam limits proved for all kinematics and targets; letters that need nested roots are bounded runtime contracts over the real fields")
prop("P14", "Setting a pair of invariants yields a physical point with both values",
     "Whenever setting a pair of invariants returns normally the point conserves momentum, all legs are light-like, and both invariants are at their requested values (each up to sign), in whichever order the pair is given. Otherwise an error is raised; pairs of two-brackets, of a two-bracket with a Mandelstam or Gram letter, and of Mandelstams are always reached in general position.",
     ["inputs", "configurations"], "all kinematics, all target values, all pairs of brackets, chains and Mandelstams handled by the dedicated constructions at multiplicities 4 to 6",
     "tests run the pairs once at one value",
     [SP], [("pair dispatch", SP + ":_set_pair"), ("pair constructions", SP + ":_set_pair_*")],
     "runtime contracts over the real fields for every pair in reach, proofs where the construction is rational")
prop("P15", "Requesting a variety never returns a wrong point silently",
     "When asking for a point near or on the locus where given invariants vanish returns normally, the point conserves momentum, is on shell, and every requested invariant vanishes exactly (finite field), to exactly the requested order (p-adic), or equals the requested size (complex). If neither the dedicated constructions nor the algebraic solver reach it, an exception is raised; when the dedicated construction fails midway, the solver starts from the original point.",
     ["inputs", "fault_sequences", "configurations"], "any behaviour of the two underlying solvers (arbitrary resulting point or an exception at any moment), any list of invariants and orders, every field",
     "tests only see solvers that succeed",
     [VA, SV], [("verification of the result", VA + ":variety"), ("rollback", VA + ":variety"), ("writing a solution into the point", SV + ":update_particles")],
     "proved with both solvers replaced by arbitrary behaviour (havoc): every normal return implies the postcondition")
prop("P16", "The generated list of invariants is complete, well formed and cache-independent",
     "For every multiplicity the generated invariants are well-formed spinor strings over existing legs, free of duplicates, each of them evaluates on a generic point to a non-zero finite value and no two of the same family are identical up to sign; the two-brackets and Mandelstams are complete. The result does not depend on whether it was generated afresh or read from disk, nor on options used in earlier runs.",
     ["configurations", "histories"], "multiplicities 4 to 8, all restriction options, every order of cached and uncached runs, missing or partial cache",
     "tests never read the cache back and never vary the options",
     [IN], [("generation", IN + ":Invariants,all_strings"), ("disk cache", IN + ":Invariants.__init__")],
     "exhaustive over multiplicity and options; distinctness decided symbolically (normal form) for all kinematics")
prop("P17", "Symmetry helpers form a group action",
     "Inverse undoes a relabelling in either order and keeps its conjugation flag, the identity does nothing, and all symmetries lists every relabelling exactly once (without conjugation). The symmetries compatible with given helicity weights are exactly those relabellings that map the weights to themselves, plus, flagged with conjugation, those that map them to a different, opposite assignment.",
     ["inputs"], "all permutations up to multiplicity 7 and all weight vectors over a small range up to multiplicity 6",
     "there are no direct tests",
     [SY], [("inverse", SY + ":inverse"), ("identity", SY + ":identity"), ("compatible symmetries", SY + ":phase_weights_compatible_symmetries"), ("all", SY + ":all_symmetries")],
     "weights universally quantified (every coincidence pattern) to multiplicity 4, permutations exhaustive to multiplicity 7")
prop("P18", "Legs are addressed from one and string items read and write the named spinor",
     "Legs are numbered from one: reading, replacing, inserting or deleting a leg affects exactly that leg, and indices below one or beyond the multiplicity raise an index error and change nothing. String items read the named spinor or leg, and assigning to a named spinor changes that spinor of that leg only, with all its representations updated; slices keep the field, order and reference vector.",
     ["inputs", "histories"], "all indices including out of range and two-digit labels, all spinor names, all values, multiplicities up to 11",
     "tests touch a few in-range indices",
     [PS, TO], [("index shift", TO + ":indexing_decorator"), ("item access", PS + ":__getitem__,__setitem__,__delitem__,insert")],
     "proved for all assigned values at each enumerated index and name")
prop("P19", "Equality compares momenta, and equal values hash equally",
     "Two points are equal exactly when they have the same multiplicity and leg by leg the same momentum; equality is reflexive and symmetric and false against foreign objects. Equal points hash equally - copies, pickling round trips, identity images, the same momenta in another little-group frame or set through another representation - and the pickled form of a point generated from a seed is the same in every process.",
     ["inputs", "histories"], "all kinematics, all leg types, copies and reconstructed points, separate processes",
     "tests compare a point with its copy",
     [PA, PS], [("particle equality and hash", PA + ":Particle.__eq__,__hash__"), ("point equality and hash", PS + ":Particles.__eq__,__hash__")],
     "equality and the entries fed to the hash proved for all kinematics; hash values and pickles are bounded runtime contracts")
prop("P20", "Relabelling an ideal matches relabelling the point",
     "A point lies on the variety of an ideal exactly when its relabelled (and conjugated) image lies on the variety of the relabelled ideal, for ideals in spinor components and in Lorentz invariants, and every generator of the image ideal is the corresponding relabelled generator. Ideals built from covariant expressions contain exactly those expressions' components together with momentum conservation unless it is switched off.",
     ["inputs", "programs"], "all kinematics, all permutations up to multiplicity 5 with and without conjugation, arbitrary generators",
     "tests compare one or two images of ideals",
     [CI, II, AT], [("component image", CI + ":covariant_poly_image"), ("invariant image", II + ":invariant_poly_image"), ("construction", CI + ":LipsIdeal.__init__"), ("conversion", AT + ":conversionIdeal")],
     "proved for all kinematics per permutation by evaluating generators on symbolic points")
prop("P21", "Analytic and numeric kinematics are interchangeable",
     "Making a point analytic replaces exactly the requested spinor components by their canonical symbols; evaluating an expression analytically and then substituting a numeric point's component values gives the same result as evaluating it on that point. Writing component values back into a point, or (in finite and p-adic fields) substituting symbols in place by numbers or by expressions in other symbols, yields the coherent point with exactly those spinors and masses.",
     ["inputs", "programs"], "all kinematics, all subsets of independent components, all expressions, multiplicities 3 to 6, masses included",
     "tests check one round trip",
     [PS, SV, AT], [("symbols", PS + ":make_analytical_d"), ("component dictionary", PS + ":analytical_subs_d"), ("in-place substitution", PS + ":subs"), ("write back", SV + ":update_particles"), ("symbol order", AT + ":lips_covariant_symbols")],
     "proved by comparing the sympy value with the value on a generic point as rational functions; runtime contracts for the final cast of numbers into the field")
prop("P22", "Changing number field commutes with evaluation",
     "Converting a point to another field converts every leg, the reference vector and the internal masses, updates the recorded field, and keeps momentum conservation; evaluating an expression before or after conversion gives corresponding values wherever the conversion is a ring homomorphism (rational to finite field, p-adic or complex; p-adic to finite field). All representations of each converted leg agree.",
     ["inputs", "configurations"], "all kinematics, all pairs of fields with a ring homomorphism, all expressions",
     "tests convert one point",
     [PS, PA, SV], [("point conversion", PS + ":Particles.to_field"), ("leg conversion", PA + ":Particle.to_field"), ("p-adic reduction", SV + ":padic_to_finite_field,finite_field_to_padic")],
     "proved with the conversion abstracted to a substitution homomorphism; runtime contracts on the real pairs of fields")
prop("P23", "Slices through phase space are physical for every parameter value",
     "A univariate or bivariate slice gives spinors polynomial in the slice parameters such that momentum is conserved identically, every leg is light-like identically, each extra constraint vanishes identically, brackets have the documented degree, and substituting any parameter value gives an ordinary phase-space point. Equal seeds give equal slices.",
     ["inputs", "configurations"], "all parameter values (identities in the parameters), multiplicities 4 to 6, several constraints and seeds",
     "tests check one slice",
     [SL], [("univariate", SL + ":univariate_slice"), ("bivariate", SL + ":bivariate_slice"), ("substitution", PS + ":subs")],
     "identity in the slice parameters decided by polynomial normal form and Singular ideal membership with the base point and the direction symbolic; the end-to-end runs through the external solver are bounded runtime contracts")
prop("P24", "Polarisation contractions satisfy transversality and gauge invariance",
     "Contracting a polarisation vector with its own momentum or with the reference vector gives zero, contraction is linear in the momentum, symmetric in argument order, equal-helicity polarisations contract to zero and opposite ones to the standard ratio, with the same result whichever way the helicities are spelled; shifting the reference vector changes contractions only by a multiple of the momentum.",
     ["inputs", "configurations"], "all kinematics, all reference vectors, all helicity assignments and spellings",
     "there are no tests of the contractions' identities",
     [PC], [("contractions", PC + ":Particles_Compute.ep,pe,ee")],
     "proved for all kinematics")

prop("P25", "Exported kinematics read back as the same point",
     "The text exported for Mathematica lists every leg once, in order, with all its components, and read with Mathematica's number syntax gives back each leg's four-momentum or spinors to the precision at which they are printed, whatever the sign, size and phase of the components. Saving a point writes the angle and square spinors of every leg to one file named after the invariant in the phase_space_cache folder of the working directory, and saving again under the same name keeps the file written first.",
     ["inputs", "histories"], "all light-like points with complex entries of any sign, size and phase, every multiplicity",
     "no test reads an exported point back",
     [PS], [("spinor export", PS + ":Particles._r_sp_d_for_mathematica,_l_sp_d_for_mathematica"), ("momentum export", PS + ":Particles.four_momenta_for_mathematica"), ("saving", PS + ":Particles.save_phase_space_point")],
     "closed obligations with opaque digit strings over all sign and exponent forms (the text functions are parametric in the digits); the round trip of values of extreme size and phase is a bounded runtime contract",
     technique="contracts on the real export functions, executed on numbers with opaque digits; obligations are closed and decided by evaluation, value round trips bounded")

BUILT = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "contracts")) if f.startswith("P") and f.endswith(".py"))

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
for p in P:
    if p["id"] in BUILT:
        lvl = next(l.split('"')[1] for l in open(os.path.join(HERE, "contracts", p["id"] + ".py")) if l.startswith("LEVEL"))
        man["checks"].append(dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
                                  technique=p["_technique"], level=lvl, level_note=p["_note"] + ". Assumes exact field arithmetic, the field contract of the dependency, numpy/CPython semantics; see evidence.assumptions and DESIGN.md."))
    else:
        man["not_applicable"].append(dict(property=p["id"], reason="contracts for this property are not written yet"))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1, ensure_ascii=False)
    fh.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
print(len(P), "properties;", len(man["checks"]), "checks")
