"""The obligations: property -> scenarios and input domains."""
from fractions import Fraction as Fr
from terms import num
from oblig import Ob, Real, Pick, Int, Bool, Enum, Str, Vec, Rec, Const, CxD
L5 = Enum([0, 1, 2, 3, 4], "u")
RHO = Real(0, 10**6, special=[0, 1, 2]); ETA = Real(0, 1000)
OBS = []
def ob(*a, **k): OBS.append(Ob(*a, **k))
CALC = "src/resonanceReconstruction/rmatrix/src/calculate%s.hpp"
for nm, f in (("rm_P", "Penetrability"), ("rm_S", "ShiftFactor")):
    ob("C01", nm, dom=dict(l=L5, rho=RHO, eta=ETA), anchor=CALC % f)
    ob("C01", nm + "_high", impl="impl_" + nm, spec="spec_" + nm, dom=dict(l=Int(5, 2**32 - 1), rho=RHO, eta=ETA), anchor=CALC % f)
PS = "src/resonanceReconstruction/src/penetrationShift.hpp"
LI = Enum([0, 1, 2, 3, 4], "i"); RHOS = Real(-10**6, 10**6, special=[0, -1, 1])
for nm, im in (("ps", "impl_ps"), ("psclass", "impl_psclass")):
    ob("C01", nm, impl=im, spec="spec_ps", dom=dict(l=LI, rho=RHOS), anchor=PS)
    ob("C01", nm + "_high", impl=im, spec="spec_ps", dom=dict(l=Int(5, 2**31 - 1, "i"), rho=RHOS), anchor=PS)
    ob("C01", nm + "_low", impl=im, spec="spec_ps", dom=dict(l=Int(-2**31, -1, "i"), rho=RHOS), anchor=PS)
for i in range(6): ob("C01", "psfac%d" % i, dom=dict(rho=RHOS), anchor=PS)
ob("C02", "rm_phi", dom=dict(l=L5, rho=RHO, eta=ETA), anchor=CALC % "PhaseShift")
ob("C02", "rm_phi_high", impl="impl_rm_phi", spec="spec_rm_phi", dom=dict(l=Int(5, 2**32 - 1), rho=RHO, eta=ETA), anchor=CALC % "PhaseShift")
PH = "src/resonanceReconstruction/src/phaseShift.hpp"
ob("C02", "phi", dom=dict(l=LI, rho=RHOS), anchor=PH)
ob("C02", "phi_high", impl="impl_phi", spec="spec_phi", dom=dict(l=Int(5, 2**31 - 1, "i"), rho=RHOS), anchor=PH)
ob("C02", "phi_low", impl="impl_phi", spec="spec_phi", dom=dict(l=Int(-2**31, -1, "i"), rho=RHOS), anchor=PH)
for q in ("P", "S", "phi"): ob("C03", "defaults_" + q, dom=dict(l=Int(0, 2**32 - 1), rho=Real(-1e3, 1e3), eta=Real(-1e3, 1e3), fission=Bool()), anchor="rmatrix/src/calculate*.hpp (primary templates)")
ob("C03", "defaults_w", dom=dict(l=Int(-2**31, 2**31 - 1, "i"), eta=Real(-1e3, 1e3), type=Enum([0, 1, 2])), anchor=CALC % "CoulombPhaseShift")
ob("C05", "w", known="known_w", dom=dict(l=Enum(list(range(0, 34)) + [40, 59, 64, 101, 130], "i"), eta=Real(-1000, 1000)), anchor=CALC % "CoulombPhaseShift")
X = "src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp"; A = "src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp"; CO = "src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp"
def both(impl, ref, outs): return {impl: (ref, outs), ref: (ref, outs)}
RECUR = {}
for q in "GFD": RECUR.update(both("om%sfunction" % q, "ref_" + q, (("ret", "r"),)))
ASYM = both("omAsymptotic", "ref_asymptotic", ((3, "r"), (4, "r")))
CWF = both("coulombWaveFunctions", "ref_cwf", ((3, "c"), (4, "c")))
CASES = {}
for i, o in (("1", (2, 3)), ("2", (1, 2)), ("3", (3, 4)), ("4", (2, 3))): CASES.update(both("omGcase" + i, "ref_case" + i, ((o[0], "r"), (o[1], "r"))))
CASES.update(both("omNewmark", "ref_newmark", ((4, "r"), (5, "r"))))
for q, f in (("P", "Penetrability"), ("S", "ShiftFactor"), ("phi", "PhaseShift")):
    ob("C04", "charged_" + q, dom=dict(l=Int(0, 58), rho=RHO, eta=ETA), anchor=CALC % f, abstract=CWF, contracts=("cwf", "asym"), nval=48, muiter=20000, calm=dict(rho=Real("0.1", 20), eta=Real("0.1", 4)))
RHOP = Real("0.01", 60)
for q in "GFD": ob("C07", q, dom=dict(l=Int(1 if q != "D" else 0, 99, "i"), eta=ETA, rho=RHOP, a=Real(-9, 9), b=Real(-9, 9)), anchor=X)
ob("C07", "cwf", dom=dict(l=Int(0, 58, "i"), rho=Real("0.01", 120), eta=Real(0, 40, special=[0])), anchor=X, nval=6, abstract=ASYM, contracts=("asym",))
ob("C07", "wronskian", impl="impl_cwf", spec="spec_cwf", dom=dict(l=Int(0, 58, "i"), rho=Real("0.01", 120), eta=Real(0, 40, special=[0])), anchor=X, nval=6, abstract={**ASYM, **{k: v for k, v in RECUR.items() if not k.endswith(("Gfunction", "ref_G"))}}, contracts=("asym", "F", "D"))
ob("C31", "case1", dom=dict(ra=Real(16, 120), y=Real(15, 100)), pre="pre_case1", anchor=A)
ob("C31", "case2", dom=dict(y=Real(5, 100)), anchor=A)
ob("C31", "case3", dom=dict(ra=Real(10, 100), y=Real(0, 5), sig=Real(-7, 7)), pre="pre_case3", anchor=A)
ob("C31", "case4", dom=dict(ra=Real(10, 200), y=Real(5, 15)), pre="pre_case4", anchor=A)
ob("C31", "newmark", dom=dict(n=Int(0, 40, "i"), h=Real("-0.01", "0.01"), y=Real(0, 60), ra=Real(10, 100), a=Real(-9, 9), b=Real(-9, 9)), anchor=A)
ob("C31", "asym", dom=dict(rho=RHOP, eta=Real(0, 60), sigma=Real(-9, 9)), anchor=A, abstract=CASES, contracts=("case1", "case2", "case3", "case4", "newmark"))
ob("C06", "memory", impl="impl_cwf", spec="impl_cwf", dom=dict(l=Int(-2**31, 2**31 - 1, "i", samples=list(range(0, 59))), rho=Real("0.01", 1000), eta=Real("0.001", 40)), anchor=CO, nval=40, muiter=20000, abstract=ASYM, confirm=True)
B = "src/resonanceReconstruction/"
S26 = Enum(range(0, 26)); H13 = Enum(range(0, 13))
ob("C08", "spins", dom=dict(i2=Enum(range(0, 17)), I2=S26), anchor=B + "rmatrix/src/possibleChannelSpinValues.hpp")
ob("C08", "Js", dom=dict(l=Enum(range(0, 17)), s2=S26), anchor=B + "rmatrix/src/possibleChannelTotalAngularMomentumValues.hpp")
ob("C08", "J3", known="known_J3", dom=dict(l=Enum(range(0, 8)), i2=Enum(range(0, 8)), I2=H13), anchor=B + "rmatrix/src/possibleChannelTotalAngularMomentumValues.hpp")
for n, k in (("spins", "i2"), ("Js", "l")): ob("C08", n + "_deep", impl="impl_" + n, spec="spec_" + n, dom={k: Enum(range(0, 41)), ("I2" if k == "i2" else "s2"): Enum(range(0, 61))}, thorough=True, anchor=B + "rmatrix/src/possibleChannel*.hpp")
Q = B + "rmatrix/ChannelQuantumNumbers/src/"
ob("C09", "qtext", dom=dict(l=Int(0, 2**32 - 1), s2=Int(0, 2**20), J2=Int(0, 2**20), parity=Pick([-1, 1], "i")), anchor=Q + "toString.hpp", nval=200)
ob("C09", "qtext_small", impl="impl_qtext", spec="spec_qtext", dom=dict(l=Int(0, 20), s2=Enum(range(0, 41)), J2=Int(0, 60), parity=Pick([-1, 1], "i")), anchor=Q + "toString.hpp", nval=60)
ob("C09", "qvalues", dom=dict(l=Int(0, 2**32 - 1), s=Real(0, 100), J=Real(0, 100), parity=Pick([-1, 1], "i")), anchor=Q + "ctor.hpp")
R9 = Real(-10**7, 10**7); PK = B + "pack.hpp"; I9 = Int(-99, 99, "i")
def reals(names): return {c: R9 for c in names.split()}
ob("C29", "pack1", dom=reals("a x s"), anchor=PK); ob("C29", "pack2", dom=reals("a b x y s"), anchor=PK)
ob("C29", "pack_add", dom=reals("a b c d x y z w"), anchor=PK); ob("C29", "pack_sub", dom=reals("a b c d x y z w"), anchor=PK)
ob("C29", "pack_mul", dom=reals("a b c d s"), anchor=PK); ob("C29", "pack6", dom=reals("a b c d e f s"), anchor=PK)
ob("C29", "pack_mixed", dom=dict(a=I9, b=R9, n=I9, y=R9, s=R9), anchor=PK); ob("C29", "pack_int", dom=dict(a=I9, b=I9, s=R9), anchor=PK)
ob("C29", "pack_promote", dom=dict(a=I9, x=R9), anchor=PK); ob("C29", "pack_stored", dom=dict(a=I9, b=R9), anchor=PK)
for n in range(1, 10):
    for w in ("horner", "hornerr"): ob("C32", "%s%d" % (w, n), impl="impl_" + w, spec="spec_" + w, dom=dict(c=Vec([R9] * n), x=R9), anchor=B + "rmatrix/src/horner.hpp")
CHAN = B + "rmatrix/Channel/src/"
M = Real("0.001", 300); Z = Real(0, 100, special=[0, 0, 1]); SPIN = Pick([Fr(i, 2) for i in range(0, 16)])
ob("C23", "pair", dom=dict(ma=Real(-5, 300), mb=Real(-5, 300), za=Real(-3, 90), zb=Real(-3, 90), ia=SPIN, ib=SPIN, pa=Pick([-1, 1], "i"), pb=Pick([-1, 1], "i")), anchor=B + "rmatrix/ParticlePair/src/ctor.hpp")
CH = dict(E=Real("1e-5", 2 * 10**7), Ma=M, Mb=M, ma=M, mb=M, za=Z, zb=Z, ia=SPIN, ib=SPIN, Q=Real(-10**7, 10**7), l=Enum([0, 1, 2, 3, 4]), s=SPIN, J=SPIN, a=Real("0.1", 2), b=Real("0.1", 2), c=Real("0.1", 2))
ob("C23", "kin", dom={**CH, "l": Const(num(1, "u"))}, anchor=CHAN)
ob("C24", "wfn", dom=CH, anchor=CHAN)
ob("C24", "wfc", dom={**CH, "l": Enum([0, 3])}, anchor=CHAN, abstract=CWF)
E1 = Real("1e-5", 2 * 10**7); RAD = Real("0.1", 2); RT = dict(x=E1, y=RAD, u=E1, v=RAD); CR = B + "rmatrix/ChannelRadii/src/ctor.hpp"; MCR = B + "rmatrix/src/makeChannelRadii.hpp"
ob("C24", "radii1", dom=dict(E=E1, a=RAD), anchor=CR); ob("C24", "radii2", dom=dict(E=E1, a=RAD, b=RAD), anchor=CR); ob("C24", "radii3", dom=dict(E=E1, a=RAD, b=RAD, c=RAD), anchor=CR)
ob("C24", "radiit", dom=dict(E=E1, a=RAD, which=Enum(range(6)), **RT), anchor=CR)
ob("C24", "naps", dom=dict(E=E1, ap=RAD, nro=Enum([False, True], "b"), naps=Enum([0, 1, 2], "i"), awri=M, mn=Real("0.9", "1.1"), **RT), anchor=MCR)
ob("C24", "naps_other", impl="impl_naps", spec="spec_naps", dom=dict(E=E1, ap=RAD, nro=Enum([True], "b"), naps=Int(-2**31, 2**31 - 1, "i"), awri=M, mn=Real("0.9", "1.1"), **RT), anchor=MCR)
ob("C24", "naps_const", impl="impl_naps", spec="spec_naps", dom=dict(E=E1, ap=RAD, nro=Enum([False], "b"), naps=Int(0, 2, "i"), awri=M, mn=Real("0.9", "1.1"), **RT), anchor=MCR)
ob("C24", "chradius", dom=dict(E=E1, awr=M), anchor=B + "src/channelRadius.hpp"); ob("C24", "radius", dom=dict(E=E1, a=RAD), anchor=B + "src/radius.hpp")
RES = B + "rmatrix/Resonance/src/rmatrix.hpp"; SGE = B + "rmatrix/SpinGroup/src/evaluate.hpp"
EV = Real("0.01", 10**7); ER = Real(-10**5, 10**7); GW = Real(-300, 300); HJ = Pick([Fr(i, 2) for i in range(0, 13)])
ob("C19", "rone", dom=dict(E=EV, e=ER, g=GW, h=GW, c=GW), anchor=RES)
RM1 = dict(E=EV, l=Enum([0, 1, 2, 3, 4]), J=HJ, a=RAD, b=Real(-4, 4), e1=ER, g1=GW, c1=GW, e2=ER, g2=GW, c2=GW)
ob("C19", "rm1s", dom=RM1, anchor=SGE); ob("C19", "rm1c", dom=RM1, anchor=SGE)
RM3 = dict(E=EV, which=Enum(range(6)), l=Enum([1, 2]), J=Const(num(Fr(3, 2))), a=RAD, b=Real(-4, 4), Q=Real(-10**4, 10**4), **{k + i: (ER if k == "e" else GW) for i in "12" for k in "eghkc"})
for n in ("rm3s", "rm3c"): ob("C19", n, dom=RM3, anchor=SGE, abstract=CWF)
ob("C19", "tmat", dom=RM3, anchor=B + "rmatrix/SpinGroup/src/evaluateTMatrix.hpp", abstract=CWF)
LRS = B + "rmatrix/legacy/resolved/"
W = Real("0.001", 3); PP = Real("0.001", 3)
ob("C20", "bwres", dom=dict(e=ER, n=W, g=W, f=W, x=W, P=PP, Q=PP, S=Real(-4, 0), p=PP, q=PP, s=Real(-4, 0)), anchor=LRS + "Resonance.hpp")
WB = Real("0.001", 10**5)
BW = dict(E=Real(50, 10**7), l=Enum([0, 1, 2, 3, 4]), J=HJ, a=RAD, qx=Const(num(0)), **{k + i: (ER if k == "e" else Real(-4, 0) if k == "S" else PP if k in "PQ" else WB) for i in "12" for k in "engfxPQS"})
BWQ = {**BW, "qx": Real(-20, -1), "l": Enum([0, 1])}
for n, f in (("slbw", "Single"), ("mlbw", "Multi")):
    ob("C20", n, dom=BW, anchor=LRS + "SpinGroup/%sLevelBreitWigner/src/evaluate.hpp" % f)
    ob("C20", n + "_q", impl="impl_" + n, spec="spec_" + n, known="known_" + n, dom=BWQ, anchor=LRS + "SpinGroup/SingleLevelBreitWigner/src/precompute.hpp")
ob("C20", "bwnf", dom=dict(E=Real(50, 10**7), a=RAD, e=ER, n=WB, g=WB, P=PP, S=Real(-4, 0)), anchor=LRS + "SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp")
XB = Real(-50, 50); PRE3 = dict(x=XB, y=XB, z=XB)
for n in ("accrs", "accrc"): ob("C14", n, dom={**PRE3, **RM3}, anchor=SGE, abstract=CWF)
ob("C14", "acct", dom={"x": XB, **RM3}, anchor=B + "rmatrix/SpinGroup/src/evaluateTMatrix.hpp", abstract=CWF)
for n, f in (("accsl", "Single"), ("accml", "Multi")): ob("C14", n, dom={**PRE3, **BW, "l": Enum([0, 2])}, anchor=LRS + "SpinGroup/%sLevelBreitWigner/src/evaluate.hpp" % f)
SYS = dict(E=EV, order=Enum(range(5), "i"), a=RAD, **{k + i: (ER if k == "e" else GW) for i in "123" for k in "eghc"})
for n in ("rsys", "csys"): ob("C14", n, dom={**PRE3, **SYS}, anchor=B + "rmatrix/CompoundSystem/src/evaluate.hpp")
ob("C14", "tsys", dom=SYS, anchor=B + "rmatrix/CompoundSystem/src/evaluateTMatrix.hpp")
BSY = dict(E=Real(50, 10**7), order=Enum(range(5), "i"), l=Enum([1, 2, 3]), a=RAD, **{k + i: (ER if k == "e" else Real(-4, 0) if k == "S" else PP if k == "P" else WB) for i in "12" for k in "engfPS"})
for n in ("slsys", "mlsys"): ob("C14", n, dom={**PRE3, **BSY}, anchor=B + "rmatrix/legacy/CompoundSystemBase/src/evaluate.hpp", also=("C20",))
FLU = B + "rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp"; WZ = Real(0, 3, special=[0, 0, 0]); NZ = Const(num(0))
F3 = dict(n=W, g=W, f=WZ, x=WZ)
ob("C22", "qtab", impl="impl_flu", spec="spec_flu", dom=dict(n=W, g=W, f=NZ, x=NZ, mu=Enum([1, 2, 3, 4]), nu=Const(num(0, "u")), la=Const(num(0, "u"))), anchor=FLU, tol=55)
ob("C22", "qtabf", impl="impl_flu", spec="spec_flu", dom=dict(n=W, g=W, f=W, x=NZ, mu=Enum([2]), nu=Enum([1, 2, 3, 4]), la=Const(num(0, "u"))), anchor=FLU, tol=55, nval=4, nf=False)
ob("C22", "qtabx", impl="impl_flu", spec="spec_flu", dom=dict(n=W, g=W, f=NZ, x=W, mu=Enum([2]), nu=Const(num(0, "u")), la=Enum([1, 2, 3, 4])), anchor=FLU, tol=55, nval=4, nf=False)
for i, (a, b, c) in enumerate([(1, 2, 3), (4, 1, 2), (2, 4, 1), (3, 3, 4), (1, 0, 0), (0, 2, 1)]):
    ob("C21", "flu%d" % i, impl="impl_flu", spec="spec_flu", dom=dict(F3, mu=Enum([a]), nu=Enum([b]), la=Enum([c])), anchor=FLU, nval=8, nf=False)
for i in range(16): ob("C21", "flua%d" % i, impl="impl_flu", spec="spec_flu", dom=dict(F3, mu=Enum([i % 4 + 1]), nu=Enum([i // 4 + 1]), la=Enum([(i + i // 4) % 4 + 1])), anchor=FLU, nval=3, thorough=True, nf=False)
URS = B + "rmatrix/legacy/unresolved/SpinGroup/src/evaluate.hpp"
UR = dict(E=Real(2000, 30000), l=Enum([0, 1, 2]), J=HJ, a=RAD, e1=Real(100, 1900), e2=Real(31000, 60000), d1=Real(1, 20), d2=Real(1, 20), **{k + i: W for i in "12" for k in "ng"}, f1=NZ, f2=NZ, x1=NZ, x2=NZ, mu=Enum([1, 2]), nu=Const(num(0, "u")), la=Const(num(0, "u")))
URF = dict(UR, f1=W, f2=W, nu=Const(num(3, "u")), l=Enum([2]), mu=Enum([2])); URX = dict(UR, x1=W, x2=W, la=Const(num(2, "u")), l=Enum([1]), mu=Enum([1]))
ob("C21", "urr", dom=UR, anchor=URS, nval=8, nf=False); ob("C21", "urrf", impl="impl_urr", spec="spec_urr", dom=URF, anchor=URS, nval=6, nf=False); ob("C21", "urrx", impl="impl_urr", spec="spec_urr", dom=URX, anchor=URS, nval=6, nf=False)
ob("C14", "accu", dom={**PRE3, **UR, "l": Enum([1]), "mu": Enum([2])}, anchor=URS); ob("C14", "accuf", impl="impl_accu", spec="spec_accu", dom={**PRE3, **URF}, anchor=URS)
ob("C14", "usys", dom={**PRE3, **UR, "l": Enum([1, 2]), "mu": Enum([1])}, anchor=B + "rmatrix/legacy/CompoundSystemBase/src/evaluate.hpp")
SGG = B + "rmatrix/SpinGroup/src/grid.hpp"; BGG = B + "rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/grid.hpp"
RGD = {k: v for k, v in RM3.items() if k != "E"}
ob("C25", "rmgrid", dom=dict(RGD, which=Enum([0, 3]), l=Enum([1])), anchor=SGG, abstract=CWF); ob("C25", "rmcgrid", dom=dict(RGD, which=Enum(range(6))), anchor=SGG, abstract=CWF)
BGD = dict(l=Enum([0, 1]), **{k + i: (ER if k == "e" else W) for i in "12" for k in "engfx"})
ob("C25", "slgrid", dom=BGD, anchor=BGG); ob("C25", "mlgrid", spec="spec_slgrid", dom=BGD, anchor=BGG)
for n in ("rsgrid", "csgrid"): ob("C25", n, dom=dict(SYS, order=Enum([0, 1] if n == "rsgrid" else [2], "i")), anchor=B + "rmatrix/CompoundSystem/src/grid.hpp")
for n in ("slsgrid", "mlsgrid"): ob("C25", n, dom=dict(BSY, order=Enum([0, 1] if n == "slsgrid" else [2], "i"), l=Enum([1])), anchor=B + "rmatrix/legacy/resolved/CompoundSystem/src/grid.hpp")
UGG = B + "rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp"
def gridcells():
    """cells of energies in which every decision of the unresolved grid is the same: the standard points, 1.25 times the standard points, and the intervals between them"""
    pts = [Fr(x) for x in ("1", "1.25", "1.5", "1.7", "2", "2.5", "3", "3.5", "4", "5", "6", "7.2", "8.5")]
    bs = sorted({p * 10**d for p in pts for d in (1, 2, 3, 4)} | {p * Fr(5, 4) * 10**d for p in pts for d in (1, 2, 3, 4)})
    cells = []
    for x, y in zip(bs, bs[1:]):
        cells.append((x, x)); w = (y - x) / 10**6; cells.append((x + w, y - w))
    return cells
def gridcases(thorough):
    cells = gridcells(); D = lambda c: Const(num(c[0])) if c[0] == c[1] else Real(*c)
    for i, c in enumerate(cells):
        if not 100 <= c[0] < 1000: continue
        far = [e for e in cells[i + 1:] if e[0] > c[1] * Fr(5, 4) and e[0] < 30000]
        for e in far if thorough else [far[k] for k in (0, 1, len(far) // 3, len(far) // 2, len(far) - 1 - i % 7)]: yield dict(e1=D(c), e2=D(e))
UG4 = dict(e1=NZ, e2=NZ, e3=NZ, e4=NZ)
for i in range(4): ob("C25", "ugrid%d" % (5 + i), impl="impl_ugrid2", spec="spec_ugrid2", dom=UG4, cases=list(gridcases(False))[i::4], anchor=UGG)
for i in range(16): ob("C25", "ugrid_all%d" % i, impl="impl_ugrid2", spec="spec_ugrid2", dom=UG4, cases=list(gridcases(True))[i::16], anchor=UGG, thorough=True)
ob("C25", "ugrid4", impl="impl_ugrid", spec="spec_ugrid", dom=UG4, cases=[dict(e1=Real(130, 135), e2=Real(1010, 1060), e3=Real(160, 162), e4=Real(2020, 2400)), dict(e1=Real(700, 710), e2=Real("30.1", 31), e3=Real("5.1", "5.9"), e4=Real("40.1", 41)), dict(e1=Real(130, 131), e2=Real(1800, 1900), e3=Const(num(1000)), e4=Real(1100, 1150))], anchor=UGG)
REC = dict(lo=Real(1, 100), hi=Real(200, 9000), kind=Enum(range(5)), e=Real(50, 8000), g=W, h=W, c=W); RCN = B + "rmatrix/Reconstructor.hpp"
ob("C18", "rec", dom=dict(E=Real("0.01", 10**4), **REC), anchor=RCN); ob("C18", "recf", dom=dict(REC, kind=Enum(range(4))), anchor=RCN)
ob("C18", "recfu", impl="impl_recf", spec="spec_recf", dom=dict(REC, kind=Enum([4]), e=Real(150, 155)), anchor=RCN)
CN15 = B + "rmatrix/%s"; J3 = Pick([Fr(1, 2), 1, 3]); PAR = Pick([-1, 1], "i"); N4 = Enum(range(4), "i")
VCH = CN15 % "SpinGroup/src/verifyChannels.hpp"; B2 = Enum([False, True], "b")
ob("C15", "widths", dom=dict(nc=Enum([0, 1, 2, 3], "i"), n1=Enum([0, 1, 2, 3], "i"), n2=Enum([-1, 1, 2, 3], "i"), n3=Enum([-1, 1, 2], "i")), anchor=CN15 % "ResonanceTable/src/verifyTable.hpp")
for n in ("jpis", "jpic"): ob("C15", n, spec="spec_jpi", dom=dict(J1=J3, J2=J3, J3=J3, p1=PAR, p2=PAR, p3=PAR), anchor=VCH)
for n in ("fews", "fewc"): ob("C15", n, spec="spec_few", dom=dict(n=N4), anchor=VCH)
L3 = Pick([0, 1, 2], "u")
ob("C15", "twice", dom=dict(l1=L3, l2=L3, l3=L3, s1=J3, s2=J3, s3=J3), anchor=VCH)
ob("C15", "incident", dom=dict(i1=B2, i2=B2, o1=B2, o2=B2), anchor=VCH); ob("C15", "exitonly", dom=dict(elastic=B2, first=B2), anchor=CN15 % "SpinGroup/src/verifyIncidentChannels.hpp")
for n in ("labelss", "labelsc"): ob("C15", n, spec="spec_labels", dom=dict(a=N4, b=N4, c=N4, n=Enum([2, 3, 4], "i")), anchor=CN15 % "SpinGroup/src/verifyResonanceChannels.hpp")
for n in ("systems", "systemc"): ob("C15", n, spec="spec_system", dom=dict(n=N4, J1=J3, J2=J3, J3=J3, p1=PAR, p2=PAR, p3=PAR), anchor=CN15 % "CompoundSystem/src/verifySpinGroups.hpp")
for n in ("ljs", "ljm", "lju"): ob("C15", n, spec="spec_lj", dom=dict(n=N4, l1=L3, l2=L3, l3=L3, J1=J3, J2=J3, J3=J3), anchor=CN15 % "legacy/CompoundSystemBase/src/verifySpinGroups.hpp")
DOF = Int(0, 2**32 - 1)
ob("C15", "utable", dom=dict(n=N4, mu=DOF, ga=DOF, nu=DOF, la=DOF), anchor=CN15 % "legacy/unresolved/ResonanceTable/src/verifyTable.hpp")
ob("C15", "cdata", dom=dict(n=N4, m=N4, eliminated=B2), anchor=CN15 % "ParticleChannelData/src/verifySize.hpp")
for n in ("elims", "elimc"): ob("C15", n, spec="spec_elim", dom=dict(a=B2, b=B2, c=B2), anchor=CN15 % "SpinGroup/src/makeResonanceTable.hpp")
from endfdom import *
POS, NEG, NIL = Real("0.001", 3), Real(-3, "-0.001"), num(0)
def es(n, lo=10): return [Real(lo + 100 * i, lo + 100 * i + 90) for i in range(n)]
EN = [Real(-90, -20)] + es(3); h = Fr(1, 2)
RMLCASES = [
  rml([102, 2], [(3, 0, [(1, 0, 0), (2, 0, 3)], [[POS, NEG], [POS, POS], [NIL, POS]], EN[:3])]),
  rml([102, 2], [(3, 0, [(1, 0, 0), (2, 0, 3)], [[POS, NEG], [POS, POS], [NEG, NIL]], [EN[1], EN[0], EN[2]])], ifg=True),
  rml([2, 102, 18], [(-3, 0, [(2, 0, 0), (1, 1, 3), (3, 0, 0), (3, 1, 0)], [[POS, POS, NEG, NIL], [POS, NEG, POS, POS]], EN[1:3]), (-4, 0, [(2, 0, 0), (1, 1, 4), (1, 1, 3)], [[POS, NEG, NIL]], EN[:1])]),
  rml([102, 2, 600, 51], [(0, -1, [(1, 1, 1), (2, 1, 3), (3, 1, 3), (4, 2, h)], [[POS, POS, POS, NEG], [POS, POS, NEG, POS]], EN[1:3]), (0, 1, [(1, 1, 0), (2, 0, 3)], [], []), (h, 1, [(2, 0, 4)], [[POS]], EN[:1])], pairspins=[(1, -3, 0, 0), (h, 0, 0, -1), (h, -2, 0, 1), (0, h, -1, 0)]),
  rml([2, 800, 19], [(2, 0, [(1, 0, 2), (2, 2, 0), (3, 0, 0)], [[POS, POS, POS], [NEG, NIL, POS]], EN[1:3])], pairspins=[(h, h, 0, 0), (0, 0, 1, 1), (0, 0, -1, 0)]),
  rml([102, 2], [(3, 0, [(1, 0, 0), (2, 0, 3)], [[POS, NEG], [NIL, POS]], EN[1:3]), (3, 0, [(1, 2, 0), (2, 2, 3)], [[POS, NEG]], EN[3:4]), (2, 0, [(2, 2, 3), (1, 2, 0)], [[POS, POS]], EN[:1])]),
]
MPC = B + "rmatrix/src/makeParticleChannelData.hpp"
for i, c in enumerate(RMLCASES): ob("C26", "rmlc%d" % i, impl="impl_rmlc", spec="spec_rml", dom=dict(d=c, mn=Real("1.0", "1.01"), e=Real("0.9", "1.1")), anchor=MPC, abstract=CWF)
ob("C26", "rmls", spec="spec_rml", dom=dict(d=RMLCASES[0], mn=Real("1.0", "1.01"), e=Real("0.9", "1.1")), anchor=MPC, abstract=CWF)
MN = Real("1.0", "1.01"); NRO = dict(mn=MN, nro=Enum([False], "b"), naps=Enum([0], "i"), r1=RAD, r2=RAD); AS = B + "rmatrix/src/"
h7 = Fr(7, 2); QXN = Real(-40, -1)
BWL = [(0, [(3, EN[1], {}), (4, EN[0], dict(GF=NZ)), (3, EN[2], {})], QXN), (1, [(4, EN[1], {}), (4, EN[2], {}), (2, EN[3], dict(GN=NEG)), (3, EN[0], {})], QXN)]
for n, ty in (("bwsl", "SingleLevelBreitWigner"), ("bwml", "MultiLevelBreitWigner")):
    ob("C27", n, dom=dict(NRO, d=bw(ty, h7, BWL)), anchor=AS + "makeLegacyBreitWignerSpinGroups.hpp")
    ob("C27", n + "0", impl="impl_" + n, spec="spec_" + n, dom=dict(NRO, nro=Enum([False, True], "b"), naps=Enum([0, 1, 2], "i"), d=bw(ty, 0, [(0, [(h, EN[1], {})], QXN), (1, [(Fr(3, 2), EN[2], {}), (h, EN[0], {})], QXN)])), anchor=AS + "makeLegacyBreitWignerCompoundSystem.hpp")
    ob("C27", n + "x", impl="impl_" + n, spec="spec_" + n, known="known_" + n, dom=dict(NRO, naps=Enum([1], "i"), d=bw(ty, h, [(0, [(1, EN[1], {})], QXN), (1, [(1, EN[1], {}), (1, EN[2], {}), (2, EN[3], {})], QXN)], lrx=True)), anchor=AS + "makeLegacyBreitWignerSpinGroups.hpp")
    for k, aj in enumerate((5, -6)): ob("C27", n + "bad%d" % k, impl="impl_" + n, spec="spec_" + n, dom=dict(NRO, d=bw(ty, h7, [(0, [(3, EN[1], {}), (aj, EN[2], {})], QXN)])), anchor=AS + "makeQuantumNumbers.hpp")
RMF = B + "rmatrix/src/makeReichMooreChannelData.hpp"
RMCASES = [
  reich(h7, 1, [(0, NIL, [(3, EN[1], {}), (4, EN[0], dict(GFA=NIL, GFB=NEG)), (3, EN[2], dict(GN=NEG, GFA=NEG, GFB=NIL))])]),
  reich(0, 3, [(0, W1, [(h, EN[1], dict(GFA=NIL, GFB=NIL)), (h, EN[0], dict(GFA=NIL, GFB=NIL, GG=NEG))]), (1, NIL, [(Fr(3, 2), EN[2], dict(GFA=NIL, GFB=NIL)), (h, EN[3], dict(GFA=NIL))])]),
  reich(h, 2, [(0, NIL, [(1, EN[1], dict(GFA=NIL, GFB=NIL))]), (1, W1, [(-1, EN[2], dict(GFA=NIL, GFB=NIL)), (1, EN[0], dict(GFA=NIL, GFB=NIL)), (0, EN[3], dict(GFA=NIL, GFB=NIL, GN=NEG))])]),
  reich(1, 3, [(0, NIL, [(h, EN[1], {}), (Fr(3, 2), EN[2], dict(GFB=NIL))]), (2, NIL, [(h, EN[0], dict(GFA=NEG, GFB=NIL)), (Fr(-3, 2), EN[3], dict(GFA=NIL, GFB=NIL))])]),
  reich(1, 3, [(1, NIL, [(h, EN[1], dict(GFA=NIL, GFB=NIL)), (Fr(-3, 2), EN[2], dict(GFB=NIL, GFA=NIL))])]),
  reich(1, 3, [(1, W1, [(-h, EN[1], dict(GFA=NIL, GFB=NIL)), (Fr(3, 2), EN[2], dict(GFB=NIL, GFA=NIL, GN=NEG))])]),
]
for i, c in enumerate(RMCASES): ob("C27", "rm%d" % i, impl="impl_rm", spec="spec_rm", dom=dict(NRO, naps=Enum([0, 1] if i == 1 else [1], "i"), nro=Enum([False, True] if i == 0 else [False], "b"), d=c), anchor=RMF)
ob("C27", "rmbad0", impl="impl_rm", spec="spec_rm", dom=dict(NRO, d=reich(h7, 1, [(0, NIL, [(3, EN[1], {}), (2, EN[2], {})])])), anchor=AS + "makeQuantumNumbers.hpp")
ob("C27", "rmbad1", impl="impl_rm", spec="spec_rm", dom=dict(NRO, d=reich(h7, 1, [(0, NIL, [(3, EN[1], {})]), (1, NIL, [(3, EN[1], {})])])), anchor=AS + "makeQuantumNumbers.hpp")
ob("C27", "rmpm", known="known_rmpm", dom=dict(NRO, d=reich(h7, 2, [(0, NIL, [(3, EN[1], {})]), (1, NIL, [(-4, EN[2], {}), (4, EN[3], {})])])), anchor=RMF)
for k in "abc": ob("C27", "urr" + k, dom=dict(NRO, nro=Enum([False, True], "b"), naps=Enum([0, 1, 2], "i"), lower=Real(1000, 1100), upper=Real(9000, 9900), d=unres(k, h7, [(0, [3, 4]), (1, [2, 3, 5]), (2, [1])])), anchor=AS + "makeLegacyUnresolvedResonanceTable.hpp")
LAW = AS + "makeChannelRadiusTable.hpp"
ob("C24", "law", dom=dict(d=maybe(None), E=E1), cases=[dict(d=maybe(None)), dict(d=maybe(radius([1]))), dict(d=maybe(radius([2, 5]))), dict(d=maybe(radius([4, 3, 1])))], anchor=LAW)
ob("C30", "law_any", impl="impl_law", spec="spec_law", dom=dict(d=maybe(radius([Int(-2**31, 2**31 - 1, "i")])), E=E1), anchor=LAW)
FE = AS + "fromENDF.hpp"; ANY = Int(-2**31, 2**31 - 1, "i"); S0 = [(0, [(3, EN[1], {}), (4, EN[0], {})], QXN)]
RECS = [(1, 1, bw("SingleLevelBreitWigner", h7, S0)), (1, 2, bw("MultiLevelBreitWigner", h7, S0)), (1, 3, reich(h7, 1, [(0, NIL, [(3, EN[1], {}), (4, EN[0], {})])])), (1, 7, RMLCASES[0])] + [(2, q, unres(k, h7, [(0, [3, 4])])) for q, k in ((1, "a"), (1, "b"), (2, "c"))]
for i, (lru, lrf, rec) in enumerate(RECS):
    D = dict(mn=MN, e=Real("0.9", "1.1"))
    ob("C17", "range%d" % i, impl="impl_range", spec="spec_range", dom=dict(D, d=rrange(rec, lru, lrf)), anchor=FE, abstract=CWF, cases=[dict(d=rrange(rec, lru, lrf, n, r)) for n in (0, 1, 2) for r in (None, radius([2]), radius([5, 3])) if n < 2 or r])
    ob("C17", "anyrep%d" % i, impl="impl_range", spec="spec_range", dom=dict(D, d=rrange(rec, lru, ANY)), anchor=FE, abstract=CWF)
    ob("C17", "anytype%d" % i, impl="impl_range", spec="spec_range", dom=dict(D, d=rrange(rec, ANY, lrf)), anchor=FE, abstract=CWF)
G0 = lambda **q: rml([102, 2], [(3, 0, [(1, 0, 0), (2, 0, 3)], [[POS, NEG], [POS, POS]], EN[:2])], **q)
ob("C17", "rmlflag", impl="impl_range", spec="spec_range", dom=dict(D, d=rrange(RMLCASES[0], 1, 7)), anchor=FE, abstract=CWF, cases=[dict(d=rrange(G0(shf=(q,), krm=k), 1, 7)) for q in (0, 1, -1) for k in (1, 2, 3, 4)])
ob("C17", "rmlany", impl="impl_range", spec="spec_range", dom=dict(D, d=rrange(G0(krm=ANY), 1, 7)), anchor=FE, abstract=CWF)
ob("C17", "special", impl="impl_range", spec="spec_range", dom=dict(D, d=rrange(None, 0, 0)), anchor=FE, abstract=CWF, cases=[dict(d=rrange(None, a, b)) for a, b in ((0, 0), (0, 1), (ANY, ANY))])
DT = B + "rmatrix/legacy/Data.hpp"; Z4 = Pick([-1, 0, 2]); U4 = Pick([0, 1, 4], "u")
ob("C29", "data_sum", dom=dict(op=Enum(range(6), "i"), **reals("a b c d x y z w")), anchor=DT); ob("C29", "data_unchanged", dom=reals("a b c d x y z w"), anchor=DT)
ob("C29", "data_has", dom=dict(a=R9, b=R9, c=R9, d=R9), cases=[{}, dict(a=Z4, b=Z4, c=Z4, d=Z4)], anchor=DT); ob("C29", "data_hasq", spec="spec_data_has", dom=dict(a=R9, b=R9, c=R9, d=R9), cases=[{}, dict(a=Z4, b=Z4, c=Z4, d=Z4)], anchor=DT)
ob("C29", "data_hasu", dom=dict(a=U4, b=U4, c=U4, d=U4), anchor=DT); ob("C29", "xs_sum", dom=dict(op=Enum(range(5), "i"), **reals("a b c x y z")), anchor=B + "breitWigner/CrossSection.hpp")
ob("C29", "pack3", dom=reals("a b c x y z s"), anchor=PK); ob("C29", "pack_nested", dom=reals("a b c d x y z w"), anchor=PK)
FB = B + "breitWigner/"; ob("C28", "kn", dom=dict(awri=AWRI, E=Real(-1000, 1000)), anchor=B + "src/neutronWaveNumber.hpp")
ob("C28", "mlD", dom=dict(I=Enum([Fr(k, 2) for k in range(20)], "r"), l=Enum(range(5), "i")), anchor=FB + "multiLevel/src/D.hpp")
EX = Real(5 * 10**5, 9 * 10**5); FN = [Real(-9 * 10**5, -2 * 10**5)] + [Real(10**5 + 10**6 * i, 10**6 * (i + 1)) for i in range(3)]; FQ = Real(-9 * 10**4, -10**4); FW = Real(10**2, 3 * 10**5); RT4 = [(0, radius([2], 4)), (1, radius([5], 4)), (2, radius([3, 1], 4))]
FBW = [(h7, [(0, [(3, FN[1], {}), (4, FN[0], dict(GF=NIL)), (-3, FN[2], {})], FQ)], False), (0, [(0, [(h, FN[1], {})], FQ), (1, [(Fr(3, 2), FN[2], {}), (h, FN[0], {})], FQ), (2, [(Fr(5, 2), FN[3], {})], FQ)], False), (1, [(3, [(Fr(7, 2), FN[1], {}), (Fr(5, 2), FN[2], {})], FQ), (4, [(Fr(9, 2), FN[1], {})], FQ)], False), (h, [(0, [(1, FN[1], {}), (0, FN[2], {})], FQ), (1, [(1, FN[2], {}), (2, FN[3], {})], FQ)], True), (0, [(0, [(h, FN[0], {}), (h, FN[2], {})], FQ), (2, [(Fr(5, 2), FN[3], {})], FQ)], True)]
for n, ty, lrf in (("fslbw", "SingleLevelBreitWigner", 1), ("fmlbw", "MultiLevelBreitWigner", 2)):
    for i, (sp, ls, lrx) in enumerate(FBW): ob("C28", "%s%d" % (n, i), impl="impl_" + n, spec="spec_" + n, dom=dict(d=rrange(bw(ty, sp, ls, lrx, FW), 1, lrf), E=EX), anchor=FB + ("single" if lrf == 1 else "multi") + "Level/Lvalue/src/evaluate.hpp", cases=[dict(d=rrange(bw(ty, sp, ls, lrx, FW), 1, lrf, q, r)) for q, r in ([(1, None), (0, None), *RT4] if i in (0, 3) else [(1, None)])])
NF = dict(GFA=NIL, GFB=NIL); SG = dict(GFA=Real(-2 * 10**5, 2 * 10**5), GFB=Real(-2 * 10**5, 2 * 10**5)); GA = Real("0.2", 1)
FRM = [(0, [(0, NIL, [(h, FN[1], NF), (h, FN[0], NF)])]), (0, [(0, GA, [(h, FN[1], NF)]), (1, NIL, [(Fr(3, 2), FN[2], NF), (h, FN[0], NF), (Fr(3, 2), FN[1], NF)])]), (h7, [(0, NIL, [(4, FN[1], SG), (3, FN[0], SG), (4, FN[2], NF)])]), (1, [(1, GA, [(h, FN[1], dict(GFA=FW, GFB=NIL)), (Fr(-1, 2), FN[2], NF)]), (3, NIL, [(Fr(5, 2), FN[1], NF), (Fr(-5, 2), FN[0], NF)]), (4, NIL, [(Fr(9, 2), FN[2], NF)])]), (h, [(2, GA, [(3, FN[2], NF), (-2, FN[1], NF), (2, FN[0], NF)])])]
NRN = [(1, None), (0, None), *RT4]
for i, (sp, ls) in enumerate(FRM): ob("C28", "frm%d" % i, impl="impl_frm", spec="spec_frm", dom=dict(d=rrange(reich(sp, len(ls), ls, FW), 1, 3), E=EX), anchor=B + "reichMoore/Lvalue/src/call.hpp", cases=[dict(d=rrange(reich(sp, len(ls), ls, FW), 1, 3, q, r)) for q, r in (NRN if i in (0, 1) else NRN[:1])])
for o in OBS:
    if o.prop != "C30" and (o.name.endswith(("_high", "_low", "_other")) or o.name.startswith(("anyrep", "anytype", "defaults_")) or o.name in ("rmlflag", "rmlany", "special", "naps", "naps_const", "fany")): o.also = tuple(o.also) + ("C30",)
BYNAME = {o.name: o for o in OBS}
LEVEL = {}
NOTES = {}
