#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so that they stay reviewable)."""
import json, os
R = "src/resonanceReconstruction/"
M = R + "rmatrix/"
P = []
def prop(i, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

prop("C01", "Neutron penetrabilities and shift factors are the exact hard-sphere forms",
     "For every orbital angular momentum l from 0 to 4 and every channel ratio rho > 0, both public interfaces (the combined penetrability/shift functor and the separate neutron functions) return the exact hard-sphere rational functions P_l(rho) and S_l(rho), so the two interfaces agree with each other. "
     "For l outside 0..4 they throw and never return a number; the combined functor returns a zero penetrability for rho <= 0.",
     ["inputs"], "all l, all real channel ratios",
     "the tests sample a handful of (l, rho) pairs with a relative tolerance; a wrong coefficient or a wrong branch outside the sampled ratios passes",
     [R + "src/penetrationShift.hpp", M + "src/calculatePenetrability.hpp", M + "src/calculateShiftFactor.hpp", M + "src/horner.hpp"],
     [("closed form per l, Horner evaluation", M + "src/calculatePenetrability.hpp"), ("combined functor", R + "src/penetrationShift.hpp")])
prop("C02", "Neutron phase shifts are the exact hard-sphere forms",
     "For every l from 0 to 4 and every channel ratio rho, both public phase-shift functions return rho - atan(q_l(rho)) with the exact hard-sphere rational function q_l, and they agree with each other. For l outside 0..4 they throw and never return a number.",
     ["inputs"], "all l, all real channel ratios at which the tangent is defined",
     "the tests sample a few (l, rho) pairs per l", [R + "src/phaseShift.hpp", M + "src/calculatePhaseShift.hpp"],
     [("closed form per l", R + "src/phaseShift.hpp"), ("closed form per l", M + "src/calculatePhaseShift.hpp")])
prop("C03", "Photon and fission channels: unit penetrability, no shift, no phase shift",
     "For every l, channel ratio and Sommerfeld parameter, a photon or fission channel has penetrability 1, shift factor 0 and phase shift 0; every channel that is not a charged-particle channel has Coulomb phase shift 0. A neutron channel's penetrability, shift factor and phase shift never depend on the Sommerfeld parameter.",
     ["inputs"], "all channel kinds, all arguments", "tests evaluate single points", [M + "src/calculatePenetrability.hpp", M + "src/calculateShiftFactor.hpp", M + "src/calculatePhaseShift.hpp", M + "src/calculateCoulombPhaseShift.hpp"],
     [("per-channel-type specialisations", M + "src/calculatePenetrability.hpp")])
prop("C04", "Charged-particle P, S and phase shift derive from the same Coulomb functions",
     "For every l, ratio and Sommerfeld parameter, a charged-particle channel's penetrability is rho/(F^2+G^2), its shift factor rho(FF'+GG')/(F^2+G^2) and its phase shift atan2(F,G), all taken from one evaluation of the Coulomb functions F, G and their derivatives at exactly that l, ratio and parameter. When the wave functions vanish identically the result is the documented fallback value, not a division by zero.",
     ["inputs"], "all l, ratios, Sommerfeld parameters", "no test in the slice runs the Coulomb branch", [M + "src/calculatePenetrability.hpp", M + "src/calculateShiftFactor.hpp", M + "src/calculatePhaseShift.hpp"],
     [("charged-particle specialisations", M + "src/calculatePenetrability.hpp")])
prop("C05", "The Coulomb phase shift is the sum of arctangents over 1..l",
     "For a charged-particle channel the Coulomb phase shift at l is the sum over n = 1..l of atan(eta/n): it is 0 for l = 0, and each further l adds exactly one term.",
     ["inputs"], "all l, all Sommerfeld parameters", "the test checks l = 0..2 for one parameter against recorded numbers", [M + "src/calculateCoulombPhaseShift.hpp"], [("accumulate over 1..l", M + "src/calculateCoulombPhaseShift.hpp")])
prop("C06", "Coulomb evaluation is memory-safe and releases what it allocates on every path",
     "For every l, ratio and Sommerfeld parameter, evaluating the Coulomb wave functions reads and writes only inside its work arrays, reads no value that was not written before, and leaves no allocation behind, also when it ends with an exception. An angular momentum the arrays cannot hold is rejected with an exception.",
     ["inputs", "fault_sequences"], "all arguments, and every point at which an exception can leave the evaluation", "no test in the slice runs the Coulomb code, and a leak or an out-of-bounds access has no visible result",
     [M + "src/coh3-coulomb.hpp", M + "src/coh3-extwave.hpp", M + "src/coh3-asympt.hpp"], [("work arrays of fixed size, loops bounded by the number of partial waves", M + "src/coh3-extwave.hpp")])
prop("C07", "Coulomb functions obey the standard recurrences and Wronskian acceptance",
     "From the l = 0 values of the irregular function the Coulomb code builds the irregular functions by the standard upward recurrence in l, the regular functions by the standard downward recurrence normalised with the Wronskian, and both derivatives by the standard derivative relation. The downward recurrence starts ten partial waves above the first l (the requested l or higher) whose irregular function has outgrown the l = 0 and 1 values by the documented criterion, also when that l lies above the stored ones: only there does it single out the regular function. It returns a result only when the Wronskian deviates by no more than the documented tolerance for every partial wave it kept, the requested one included; otherwise it restarts the downward recurrence from a higher l and, beyond the documented maximum number of extra partial waves, throws.",
     ["inputs"], "all arguments", "no test in the slice runs the Coulomb code", [M + "src/coh3-extwave.hpp", M + "src/coh3-coulomb.hpp"], [("recurrence loops", M + "src/coh3-extwave.hpp"), ("acceptance test", M + "src/coh3-coulomb.hpp")])
prop("C08", "Allowed channel spins and total angular momenta are exactly the triangle set",
     "For all non-negative half-integer particle spins the list of channel spins is exactly |i-I|, |i-I|+1, ..., i+I, and the list of total angular momenta for (l, s) is exactly |l-s|, ..., l+s, each value once and in increasing order. The overload that couples l with both particle spins returns the values from the smallest to the largest J any of the allowed channel spins can give, in steps of one.",
     ["inputs"], "all half-integer spins and all l", "the tests sample a few couplings", [M + "src/possibleChannelSpinValues.hpp", M + "src/possibleChannelTotalAngularMomentumValues.hpp"],
     [("minimum, maximum, count and step of one", M + "src/possibleChannelSpinValues.hpp")])
prop("C09", "Channel quantum numbers are stored as given and rendered canonically",
     "A set of channel quantum numbers returns exactly the l, s, J and parity it was built with. Its text form is '{l,s,J}' followed by the sign of the parity, where integral spins are written as integers and half-integral spins as a fraction over 2, for every value.",
     ["inputs"], "all quantum numbers", "tests check a few sets", [M + "ChannelQuantumNumbers.hpp", M + "ChannelQuantumNumbers/src/toString.hpp", M + "ChannelQuantumNumbers/src/ctor.hpp"], [("member-wise constructor, text conversion", M + "ChannelQuantumNumbers.hpp")])
prop("C10", "The headers can be included in any number of translation units",
     "Including the library from several translation units of one program never violates the one-definition rule: every function and variable defined at namespace scope in a header is inline, a template, constexpr or internal. This also holds for full specialisations of function templates.",
     ["programs", "configurations"], "all programs that include the header in two or more translation units", "each test executable is a single translation unit", [R[:-1] + ".hpp", M + "src/calculatePenetrability.hpp", M + "src/fromENDF.hpp"], [("inline on every namespace-scope definition", M + "src/fromENDF.hpp")])
prop("C11", "Every constructed object is completely initialised",
     "Whatever constructor is used, every data member has a determinate value when construction ends, and no function reads a local variable or array element that was not assigned on some path reaching the read.",
     ["inputs", "programs"], "all constructors, all paths", "an indeterminate member often holds a plausible value in a test run", [M + "legacy/resolved/Resonance.hpp", M + "Channel.hpp", R + "src/phaseShift.hpp"], [("member initialiser lists", M + "legacy/resolved/Resonance/src/ctor.hpp")])
prop("C12", "Nothing is read after it was moved from",
     "No expression reads the value of an object after that object was moved from on a path reaching the read, including member initialiser lists evaluated in declaration order.",
     ["inputs", "programs"], "all paths through all functions and constructors", "a moved-from string or vector frequently still holds its old value", [M + "legacy/SpinGroupBase.hpp", M + "ParticleChannelData.hpp", M + "SpinGroup/src/ctor.hpp"], [("order of initialisers", M + "legacy/SpinGroupBase.hpp")])
prop("C13", "Evaluation has no hidden state: same object and energy, same answer",
     "Evaluating functions depend only on their arguments and the object they are called on: there are no mutable statics, globals, thread-locals, mutable members or casts that remove const, so repeated or concurrent evaluations of distinct objects cannot influence each other. Work arrays an evaluation keeps inside its object are completely rewritten before they are read.",
     ["histories", "schedules"], "all call sequences and all interleavings of evaluations of distinct objects", "tests evaluate each object once or in one order", [M + "SpinGroup.hpp", M + "RLMatrixCalculator/ReichMoore/src/call.hpp", M + "LMatrixCalculator/Constant/src/call.hpp", M + "src/coh3-asympt.hpp"], [("local variables only; matrices reset at each call", M + "RLMatrixCalculator/ReichMoore/src/call.hpp")])
prop("C14", "Every spin group adds to the cross sections already accumulated",
     "Evaluating a spin group or compound system adds its contribution to the reaction map it is given and never overwrites, scales or removes what other spin groups contributed, so the result of a compound system is the sum over all its spin groups for each reaction, independent of their order. Every spin group of a compound system contributes exactly once.",
     ["inputs", "histories"], "all spin groups, all reaction maps, all orders", "tests mostly evaluate with an empty map", [M + "SpinGroup/src/evaluate.hpp", M + "CompoundSystem/src/evaluate.hpp", M + "legacy/CompoundSystemBase/src/evaluate.hpp", M + "legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp", M + "legacy/resolved/SpinGroup/MultiLevelBreitWigner/src/evaluate.hpp", M + "legacy/unresolved/SpinGroup/src/evaluate.hpp"], [("compound assignment into the map", M + "SpinGroup/src/evaluate.hpp")])
prop("C15", "Inconsistent resonance data never becomes an object",
     "Construction throws for a resonance table with a resonance that has more or fewer widths than there are channels; for a spin group without channels, with a channel given twice, with channels that differ in incident pair or in J and parity, without any channel of the incident pair, or whose table lists other channels or another order than the group; and for a system without spin groups or with two spin groups of the same J and parity (legacy systems: of the same l and J). Unresolved tables with fewer than two energies or a number of degrees of freedom above 4 are rejected as well. Consistent data is accepted.",
     ["inputs"], "all constructor arguments", "tests try one bad example per rule", [M + "SpinGroup/src/verifyChannels.hpp", M + "SpinGroup/src/verifyResonanceChannels.hpp", M + "CompoundSystem/src/verifySpinGroups.hpp", M + "ResonanceTable/src/verifyTable.hpp", M + "legacy/CompoundSystemBase/src/verifySpinGroups.hpp", M + "legacy/unresolved/ResonanceTable/src/verifyTable.hpp"], [("verification called by every constructor", M + "SpinGroup/src/ctor.hpp")])
prop("C16", "All formulas are dimensionally consistent",
     "Every addition, subtraction, comparison, assignment, argument and return value in the library combines quantities of equal physical dimension, and a bare number is only obtained from a dimensionless quantity or an explicit value access.",
     ["inputs", "programs"], "all expressions of the library, for every instantiation", "the part of the library that uses physical units is not compiled by the tests here", [R[:-1] + ".hpp"], [("unit types", R[:-1] + ".hpp")])
prop("C17", "ENDF resonance ranges are dispatched to the right formalism or rejected",
     "Every ENDF resonance range becomes a reconstructor over exactly its own energy limits and its own formalism: resolved ranges 1, 2, 3 and 7 give single-level, multi-level, Reich-Moore and R-matrix limited systems, unresolved ranges give unresolved systems for all three parameter layouts, and R-matrix limited data uses the shift-factor or constant boundary condition its flag asks for. Any other type, representation or formalism throws.",
     ["inputs"], "all combinations of range type, representation, formalism and flags", "tests use one evaluation per formalism", [M + "src/fromENDF.hpp"], [("nested switches with throwing defaults", M + "src/fromENDF.hpp")])
prop("C18", "A reconstructor answers only inside its energy range, bounds included",
     "A reconstructor returns cross sections for every energy from its lower to its upper limit inclusive and an empty result elsewhere, evaluates the system it was built with at exactly that energy, reports its limits unchanged and says whether it is resolved according to the kind of system it holds. Its energy grid consists of exactly those grid points of the system that lie inside the limits, bounds included, in the system's order.",
     ["inputs"], "all energies and all systems", "tests evaluate a few energies", [M + "Reconstructor.hpp"], [("range test and grid filter", M + "Reconstructor.hpp")])
prop("C19", "Reich-Moore cross sections follow the R-matrix equations",
     "For every set of resonances and channels, a Reich-Moore spin group's elements of R are the sums over resonances of products of reduced widths over E_r - E - i*gamma_c^2, L has S - B + iP (or iP for the shift-factor boundary) on its diagonal, T uses (1 - RL)^-1 R, and U = Omega (1 + 2i sqrt(P) T sqrt(P)) Omega with Omega = exp(i(w - phi)). Cross sections are pi/k^2 g_J times |delta exp(2iw) - U|^2, w being the Coulomb phase shift of the incident channel, summed over the incident channels, and capture is what unitarity leaves.",
     ["inputs"], "all resonance tables, channels and energies", "tests compare a few energies of a few evaluations, and none runs here", [M + "Resonance/src/rmatrix.hpp", M + "RLMatrixCalculator/ReichMoore/src/call.hpp", M + "LMatrixCalculator/Constant/src/call.hpp", M + "LMatrixCalculator/ShiftFactor/src/call.hpp", M + "SpinGroup/src/evaluateTMatrix.hpp", M + "SpinGroup/src/evaluate.hpp"], [("matrix pipeline", M + "SpinGroup/src/evaluate.hpp")])
prop("C20", "Single- and multi-level Breit-Wigner cross sections follow the ENDF formulas",
     "For every resonance table, a Breit-Wigner spin group evaluates elastic, capture and fission cross sections with the ENDF single-level or multi-level expressions: neutron widths scaled by P(E)/P(E_r), resonance energy shifted by the neutron width times the shift difference over 2 P(E_r), the competitive width scaled with its penetrability at the energy that remains after the competitive Q value is added, the total width including all partial widths, and potential scattering added once per angular momentum of the system.",
     ["inputs"], "all resonance tables and energies", "no test of this code runs here", [M + "legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp", M + "legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp", M + "legacy/resolved/SpinGroup/MultiLevelBreitWigner/src/evaluate.hpp", M + "legacy/resolved/Resonance.hpp", M + "legacy/CompoundSystemBase/src/evaluate.hpp"], [("precomputed shifted energies and widths", M + "legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp")])
prop("C21", "Unresolved cross sections use the right widths, fluctuations and quadratures",
     "For every unresolved table, cross sections are 2 pi^2 g / (k^2 D) times products of average widths and fluctuation integrals minus the interference term, the neutron width being reduced width times sqrt(E) times penetrability times degrees of freedom. Each fluctuation integral sums, over all quadrature points of the channels that are open, the product of weights and points of exactly the degrees of freedom of each channel over the total width.",
     ["inputs"], "all tables, degrees of freedom and energies", "no test of this code runs here", [M + "legacy/unresolved/SpinGroup/src/evaluate.hpp", M + "legacy/unresolved/src/calculateFluctuationIntegrals.hpp"], [("nested quadrature loops", M + "legacy/unresolved/src/calculateFluctuationIntegrals.hpp")])
prop("C22", "The fluctuation quadrature tables are the standard ten-point chi-squared ones",
     "For one to four degrees of freedom the ten weights and ten points that the fluctuation integrals use are exactly the standard ten-point chi-squared quadrature of Hwang: every weight and point as published, each weight paired with its own point, the four tables selected by the number of degrees of freedom.",
     ["inputs"], "all table entries", "a single wrong digit changes results below test tolerances", [M + "legacy/unresolved/src/calculateFluctuationIntegrals.hpp"], [("constant tables", M + "legacy/unresolved/src/calculateFluctuationIntegrals.hpp")])
prop("C23", "Two-body kinematics is exact for every particle pair and energy",
     "For every pair and energy the reduced mass is m_a m_b/(m_a+m_b), the mass ratio m_b/(m_a+m_b), the wave number sqrt(2 mu |E r + Q|)/hbar, the Sommerfeld parameter z_a z_b mu / (4 pi eps0 hbar^2 k), which is 0 whenever one of the particles is neutral, and the statistical factor (2J+1)/((2i+1)(2I+1)) with the spins of the incident pair. A channel is below threshold exactly when E r + Q is negative, r being the mass ratio of the incident pair.",
     ["inputs"], "all masses, charges, spins, Q values and energies", "no test of this code runs here", [M + "ParticlePair.hpp", M + "ParticlePair/src/ctor.hpp", M + "Channel.hpp", M + "Channel/src/waveNumber.hpp", M + "Channel/src/sommerfeldParameter.hpp"], [("closed formulas", M + "Channel.hpp")])
prop("C24", "Penetrability, shift and phase shift each use their own channel radius",
     "A channel evaluates penetrability with its penetrability radius, shift factor with its shift-factor radius and phase shift with its phase-shift radius, each taken at the energy asked for, and radii given as one, two or three values are assigned in that order. From ENDF data the choice of radii follows the NRO and NAPS flags for all their combinations, with 0.123 A^(1/3) + 0.08 wherever the flags call for the derived radius.",
     ["inputs", "configurations"], "all energies, all flag combinations", "tests use constant equal radii in most cases", [M + "ChannelRadii.hpp", M + "ChannelRadii/src/ctor.hpp", M + "Channel.hpp", M + "src/makeChannelRadii.hpp", R + "src/channelRadius.hpp"], [("radius selection", M + "src/makeChannelRadii.hpp")])
prop("C25", "Energy grids contain every resonance and its half-width neighbours, ordered",
     "The energy grid of a resolved spin group holds, for every resonance at positive energy, the resonance energy and the two energies half a total width away, and nothing else; grids of systems are the sorted union without duplicates of their spin groups' grids. The unresolved grid is sorted, without duplicates, contains the tabulated energies and has no step larger than the documented ratio.",
     ["inputs"], "all resonance tables", "no test of this code runs here", [M + "SpinGroup/src/grid.hpp", M + "CompoundSystem/src/grid.hpp", M + "legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/grid.hpp", M + "legacy/resolved/CompoundSystem/src/grid.hpp", M + "legacy/unresolved/CompoundSystem/src/grid.hpp"], [("grid functions", M + "SpinGroup/src/grid.hpp")])
prop("C26", "R-matrix limited ENDF data is converted value for value",
     "Every particle pair, channel and resonance of an R-matrix limited evaluation appears in the converted system with its own data: masses, charges, spins, parities and Q value of its pair, quantum numbers, radii and boundary condition of its channel, channel kind given by its own reaction number, and reduced widths with the sign of the evaluated width. The eliminated capture channel is taken from the data and appears only as eliminated widths. This covers evaluations whose resonances of one J and parity have distinct energies.",
     ["inputs"], "all R-matrix limited evaluations", "no test of this code runs here", [M + "src/makeParticlePairs.hpp", M + "src/makeParticleChannels.hpp", M + "src/makeParticleChannelData.hpp", M + "src/makeQuantumNumbers.hpp", M + "src/makeCompoundSystem.hpp"], [("conversion functions", M + "src/makeParticleChannelData.hpp")])
prop("C27", "Breit-Wigner, Reich-Moore and unresolved ENDF data is converted value for value",
     "Every resonance of a Breit-Wigner, Reich-Moore or unresolved evaluation appears in the spin group of its own l and J with its own energy and widths: reduced widths carry the sign of the evaluated width and divide by the penetrability at the absolute resonance energy, competitive widths and Q values are honoured, and each tabulated width and degree of freedom goes to its own reaction. This covers evaluations whose l values start at 0 and are consecutive up to the declared number (Breit-Wigner and unresolved: each l, J once, unsigned J) and whose resonances of one J and parity have distinct energies.",
     ["inputs"], "all such evaluations", "no test of this code runs here", [M + "src/makeReichMooreChannelData.hpp", M + "src/makeLegacyBreitWignerSpinGroups.hpp", M + "src/makeLegacyUnresolvedResonanceTable.hpp", M + "src/makeLegacyUnresolvedSpinGroups.hpp", M + "src/makeLegacyUnresolvedCompoundSystem.hpp"], [("conversion functions", M + "src/makeReichMooreChannelData.hpp")])
prop("C28", "The functional Breit-Wigner and Reich-Moore interfaces follow the same physics",
     "The older functional interfaces evaluate single-level, multi-level and Reich-Moore cross sections with the ENDF expressions for every set of resonances: widths scaled by penetrabilities, psi and chi line shapes, statistical weights, potential scattering including the angular momenta without resonances, interference between resonances of one J, radii selected by NRO, NAPS and the l-dependent radius, and the collision matrix of Reich-Moore with fission. Energies are positive; where a competitive width is given, incident and resonance energies lie above its threshold.",
     ["inputs"], "all resonance data and energies", "no test of this code runs here", [R + "breitWigner/singleLevel/Resonance/src/call.hpp", R + "breitWigner/multiLevel/Lvalue/src/evaluate.hpp", R + "reichMoore/Lvalue/src/solveRmatrix.hpp", R + "reichMoore/Resonance/src/call.hpp"], [("closed formulas", R + "breitWigner/singleLevel/Resonance/src/call.hpp")])
prop("C29", "Packs and reaction records combine component by component",
     "Adding or subtracting two packs of equal length combines the values at the same position, multiplying a pack by a scalar multiplies every component, and no component is dropped, repeated or permuted, for every number and type of components. Records of per-reaction data return each value under the reaction it was given for.",
     ["inputs", "programs"], "all pack lengths and component types", "packs are only parsed by the tests here", [R + "pack.hpp", M + "legacy/Data.hpp", R + "breitWigner/CrossSection.hpp"], [("index-wise expansion", R + "pack.hpp")])
prop("C30", "Unsupported codes are rejected, never silently mapped to a result",
     "Wherever a value selects among a fixed set of cases (angular momentum, interpolation law, formalism, scheme flag), every value outside the supported set ends in an exception: no function returns without a value and none falls through to another case.",
     ["inputs"], "all integer codes", "tests use supported codes", [M + "src/makeChannelRadiusTable.hpp", M + "src/fromENDF.hpp", R + "src/radius.hpp", M + "src/calculatePenetrability.hpp"], [("throwing defaults", M + "src/fromENDF.hpp")])
prop("C31", "The l = 0 Coulomb start values follow the published expansion of each region",
     "For every Sommerfeld parameter eta >= 0 and every ratio, the l = 0 irregular function and its derivative start from the published expansion of the region they lie in (Riccati expansion below and above the turning point, the expansion at rho = 2 eta, the asymptotic series at large rho) evaluated at a point where it is valid. From there the Coulomb equation is integrated to exactly the requested ratio in steps no larger than the documented mesh.",
     ["inputs"], "all ratios and Sommerfeld parameters, including the borders of the regions", "no test in the slice runs the Coulomb code; a wrong coefficient of a high order changes the result far below any tolerance a test would use", [M + "src/coh3-asympt.hpp"], [("expansions per region", M + "src/coh3-asympt.hpp"), ("Newmark integration", M + "src/coh3-asympt.hpp")])
prop("C32", "Polynomial evaluation is exact for every coefficient sequence",
     "For every non-empty sequence of coefficients, given from the highest order down, and every argument, the Horner evaluation returns the value of that polynomial: each coefficient is used once, with the power of its position. Iterating over a reversed sequence evaluates the reversed polynomial.",
     ["inputs"], "all coefficient sequences and arguments", "the function is only exercised through fixed polynomials at a few points", [M + "src/horner.hpp"], [("Horner recurrence over an iterator range", M + "src/horner.hpp")])
prop("N01", "Coulomb wave functions are accurate to the stated tolerance",
     "For every l, ratio and Sommerfeld parameter in the physical range, the Coulomb functions agree with their mathematical values to the convergence criteria of the method.", ["inputs"], "all arguments", "no test runs it", [M + "src/coh3-asympt.hpp"], [("series and integration", M + "src/coh3-asympt.hpp")])
prop("N02", "Reconstructed cross sections are finite and physically non-negative",
     "For every physically valid evaluation and every energy in range, elastic, capture and fission cross sections of unitary formalisms are finite and not negative beyond rounding.", ["inputs"], "all evaluations and energies", "tests sample energies", [M + "SpinGroup/src/evaluate.hpp"], [("unitarity of the collision matrix", M + "SpinGroup/src/evaluate.hpp")])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
