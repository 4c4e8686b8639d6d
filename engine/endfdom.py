"""Symbolic ENDF records: objects whose accessors return the values a resonance file would hold."""
from fractions import Fraction as Fr
from terms import num, string, T, TRUE, FALSE
from values import *
import oblig
from oblig import Real, Const, Pick

ALIAS = {  # every accessor name of a value
 "orbitalMomentum": ["L"], "atomicWeightRatio": ["AWRI"], "lDependentScatteringRadius": ["APL"], "resonanceEnergies": ["ER"], "resonanceEnergy": ["ER"], "spinValues": ["AJ"], "spin": ["AJ", "SPI"],
 "totalWidth": ["GT"], "neutronWidth": ["GN"], "gammaWidth": ["GG"], "fissionWidth": ["GF"], "competitiveWidth": ["GX"], "firstFissionWidth": ["GFA"], "secondFissionWidth": ["GFB"],
 "totalWidths": ["GT"], "neutronWidths": ["GN"], "gammaWidths": ["GG"], "fissionWidths": ["GF"], "firstFissionWidths": ["GFA"], "secondFissionWidths": ["GFB"],
 "competitiveWidthQValue": ["QX"], "competitiveWidthFlag": ["LRX"], "numberResonances": ["NRS"], "numberLValues": ["NLS"], "numberLValuesForConvergence": ["NLSC"], "scatteringRadius": ["AP"],
 "massParticleA": ["MA"], "massParticleB": ["MB"], "chargeParticleA": ["ZA"], "chargeParticleB": ["ZB"], "spinParticleA": ["IA"], "spinParticleB": ["IB"], "parityParticleA": ["PA"], "parityParticleB": ["PB"],
 "QValues": ["Q", "QI"], "shiftFactorFlag": ["SHF"], "penetrabilityFlag": ["PNT"], "numberParticlePairs": ["NPP"], "parity": ["PJ"], "numberChannels": ["NCH"], "particlePairNumbers": ["PPI", "particlePairIndices"],
 "orbitalMomentumValues": ["L"], "channelSpinValues": ["SCH"], "boundaryConditionValues": ["BND"], "trueChannelRadii": ["APT"], "effectiveChannelRadii": ["APE"], "resonanceParameters": ["GAM"],
 "reducedWidths": ["IFG"], "formalism": ["KRM"], "numberSpinValues": ["NJS"], "energies": ["ES"], "lowerEnergy": ["EL"], "upperEnergy": ["EH"], "type": ["LRU"], "representation": ["LRF"], "scatteringRadiusCalculationOption": ["NAPS"],
}
def O(ty, **f):
    g = dict(f)
    for k in f:
        for a in ALIAS.get(k, ()): g.setdefault(a, f[k])
    return Obj(ty, g, ty)
class Build:
    """a record assembled by f( new ), where new( label, domain ) makes one symbolic value"""
    def __init__(s, f, text=""): s.f, s.text = f, text
    def mk(s, name):
        d = {}
        def new(k, dom):
            if not hasattr(dom, "mk"): return val(dom)
            v, q = dom.mk("%s.%s" % (name, k)); d.update(q); return v
        v = s.f(new); return v, d
    def __str__(s): return s.text
def val(x):
    if isinstance(x, bool): return num(x)
    if isinstance(x, int): return num(x, "i")
    if isinstance(x, (Fr, float)): return num(Fr(x), "r")
    return x
def R(x): return num(Fr(x), "r")
def I(x, ty="i"): return num(x, ty)
def V(xs): return Seq(list(xs))

# ------------------------------------------------------------------ R-matrix limited
CHARGE = {102: (0, 92), 2: (0, 92), 18: (0, 0), 19: (0, 0), 600: (1, 91), 800: (2, 90), 51: (0, 92)}
def rml(mts, groups, ifg=False, shf=(0,), krm=3, pairspins=None):
    """mts: reaction number per pair; groups: (AJ, PJ, [(pair number, l, s)], [[width domain per channel] per resonance], [energy domain])"""
    def f(new):
        n = len(mts); ps = pairspins or [(Fr(1, 2), Fr(-7, 2), 0, 0)] * n
        each = lambda k, dom: V(new("%s%d" % (k, i), dom) for i in range(n))
        pairs = O("ParticlePairs", numberParticlePairs=I(n), MT=V(I(m) for m in mts), massParticleA=V(new("MA%d" % i, Real("0.9", 5)) for i in range(n)), massParticleB=each("MB", Real(200, 240)),
            chargeParticleA=V(I(CHARGE[m][0]) for m in mts), chargeParticleB=V(I(CHARGE[m][1]) for m in mts), spinParticleA=V(R(p[0]) for p in ps), spinParticleB=V(R(p[1]) for p in ps),
            parityParticleA=V(R(p[2]) for p in ps), parityParticleB=V(R(p[3]) for p in ps), QValues=V(R(0) if m == 2 else new("Q%d" % i, Real(10**4, 10**6)) for i, m in enumerate(mts)),
            shiftFactorFlag=V(I(shf[i % len(shf)]) for i in range(n)), penetrabilityFlag=V(I(1) for i in range(n)))
        gs = []
        for a, (aj, pj, chans, widths, energies) in enumerate(groups):
            m = len(chans); A = lambda k, dom: V(new("g%d%s%d" % (a, k, i), dom) for i in range(m))
            ch = O("ResonanceChannels", spin=R(aj), parity=R(pj), numberChannels=I(m), particlePairNumbers=V(I(c[0]) for c in chans), orbitalMomentumValues=V(I(c[1]) for c in chans), channelSpinValues=V(R(c[2]) for c in chans),
                boundaryConditionValues=A("BND", Real(-3, 3)), trueChannelRadii=A("APT", Real("0.2", 1)), effectiveChannelRadii=A("APE", Real("0.2", 1)), KBK=I(0), KPS=I(0))
            pr = O("ResonanceParameters", numberResonances=I(len(energies)), resonanceEnergies=V(new("g%dE%d" % (a, r), e) for r, e in enumerate(energies)),
                resonanceParameters=V(V(new("g%dG%d_%d" % (a, r, i), w) for i, w in enumerate(ws)) for r, ws in enumerate(widths)))
            gs.append(O("SpinGroup", channels=ch, parameters=pr))
        return O("RMatrixLimited", particlePairs=pairs, spinGroups=V(gs), NJS=I(len(gs)), reducedWidths=num(bool(ifg)), formalism=new("KRM", krm) if hasattr(krm, "mk") else I(krm), KRL=I(0))
    return Build(f, "R-matrix limited record: pairs %s, %d spin groups, %s" % (mts, len(groups), "reduced widths" if ifg else "widths"))
# ------------------------------------------------------------------ Breit-Wigner, Reich-Moore, unresolved
AWRI = Real(230, 240)
def bw(ty, spin, ls, lrx=False, wd=Real("0.01", 3)):
    """ls: (l, [(AJ, energy domain, {width: domain})], QX domain)"""
    def f(new):
        lv = []
        for a, (l, rs, qx) in enumerate(ls):
            N = lambda k, dom: new("l%d%s" % (a, k), dom); res = []
            for i, (aj, e, w) in enumerate(rs):
                g = lambda k: N("%s%d" % (k, i), w.get(k, wd))
                n_, g_, f_ = g("GN"), g("GG"), g("GF"); x_ = g("GX") if lrx else num(0)
                res.append(O("BreitWignerLValue::Resonance", resonanceEnergy=N("E%d" % i, e), spin=R(aj), neutronWidth=n_, gammaWidth=g_, fissionWidth=f_, competitiveWidth=x_))
            col = lambda k: V(r.f[k] for r in res)
            lv.append(O("BreitWignerLValue", orbitalMomentum=I(l), atomicWeightRatio=N("AWRI", AWRI), competitiveWidthQValue=N("QX", qx) if lrx else R(0), competitiveWidthFlag=num(bool(lrx)), numberResonances=I(len(res)),
                resonances=V(res), resonanceEnergies=col("resonanceEnergy"), spinValues=col("spin"), neutronWidths=col("neutronWidth"), gammaWidths=col("gammaWidth"), fissionWidths=col("fissionWidth")))
        return O(ty, spin=R(spin), scatteringRadius=new("AP", Real("0.2", 1)), numberLValues=I(len(lv)), lValues=V(lv))
    return Build(f, "%s record: spin %s, l values %s%s" % (ty, spin, [(l, [str(r[0]) for r in rs]) for l, rs, q in ls], ", competitive widths" if lrx else ""))
def reich(spin, nlsc, ls, wd=Real("0.01", 3)):
    """ls: (l, APL domain, [(AJ, energy domain, {width: domain})])"""
    def f(new):
        lv = []
        for a, (l, apl, rs) in enumerate(ls):
            N = lambda k, dom: new("l%d%s" % (a, k), dom); res = []
            for i, (aj, e, w) in enumerate(rs):
                g = lambda k: N("%s%d" % (k, i), w.get(k, wd))
                res.append(O("ReichMooreLValue::Resonance", resonanceEnergy=N("E%d" % i, e), spin=R(aj), neutronWidth=g("GN"), gammaWidth=g("GG"), firstFissionWidth=g("GFA"), secondFissionWidth=g("GFB")))
            col = lambda k: V(r.f[k] for r in res)
            lv.append(O("ReichMooreLValue", orbitalMomentum=I(l), atomicWeightRatio=N("AWRI", AWRI), lDependentScatteringRadius=N("APL", apl), numberResonances=I(len(res)),
                resonances=V(res), resonanceEnergies=col("resonanceEnergy"), spinValues=col("spin"), neutronWidths=col("neutronWidth"), gammaWidths=col("gammaWidth"), firstFissionWidths=col("firstFissionWidth"), secondFissionWidths=col("secondFissionWidth")))
        return O("ReichMoore", spin=R(spin), scatteringRadius=new("AP", Real("0.2", 1)), numberLValues=I(len(lv)), numberLValuesForConvergence=I(nlsc), lValues=V(lv), LAD=I(0))
    return Build(f, "Reich-Moore record: spin %s, NLSC %d, l values %s" % (spin, nlsc, [(l, [str(r[0]) for r in rs]) for l, apl, rs in ls]))
W1 = Real("0.01", 3)
def unres(kind, spin, ls, ne=3):
    """kind: a (energy independent), b (energy dependent fission widths), c (energy dependent); ls: (l, [J])"""
    ty = {"a": "UnresolvedEnergyIndependent", "b": "UnresolvedEnergyDependentFissionWidths", "c": "UnresolvedEnergyDependent"}[kind]
    es = [Real(1000 + 1000 * i, 1900 + 1000 * i) for i in range(ne)]
    def f(new):
        lv = []
        for a, (l, js) in enumerate(ls):
            jv = []
            for b, J in enumerate(js):
                N = lambda k, dom=W1: new("l%dj%d%s" % (a, b, k), dom); S = lambda k, dom=W1: V(N("%s%d" % (k, i), dom) for i in range(ne))
                q = dict(spin=R(J), neutronWidthDegreesFreedom=I(1 + (a + b) % 3), gammaWidthDegreesFreedom=I((a + 2 * b) % 5 % 4), fissionWidthDegreesFreedom=I((2 + a + b) % 5), competitiveWidthDegreesFreedom=I((4 - b) % 5))
                if kind == "c": q.update(energies=V(N("E%d" % i, e) for i, e in enumerate(es)), averageLevelSpacings=S("D"), averageNeutronWidths=S("GN"), averageGammaWidths=S("GG"), averageFissionWidths=S("GF"), averageCompetitiveWidths=S("GX"), interpolationType=I(2))
                else: q.update(averageLevelSpacing=N("D"), averageNeutronWidth=N("GN"), averageGammaWidth=N("GG"), averageCompetitiveWidth=N("GX"))
                if kind == "b": q["averageFissionWidths"] = S("GF")
                if kind == "a": q["averageFissionWidth"] = N("GF")
                jv.append(O(ty + "::JValue", **q))
            lv.append(O(ty + "::LValue", orbitalMomentum=I(l), atomicWeightRatio=new("l%dAWRI" % a, AWRI), numberSpinValues=I(len(jv)), jValues=V(jv)))
        g = dict(spin=R(spin), scatteringRadius=new("AP", Real("0.2", 1)), numberLValues=I(len(lv)), lValues=V(lv), LSSF=I(0))
        if kind == "b": g.update(energies=V(new("ES%d" % i, e) for i, e in enumerate(es)), NE=I(ne))
        return O(ty, **g)
    return Build(f, "%s record: spin %s, l values %s" % (ty, spin, [(l, [str(j) for j in js]) for l, js in ls]))
PARAMS = ["SpecialCase", "SingleLevelBreitWigner", "MultiLevelBreitWigner", "ReichMoore", "RMatrixLimited", "UnresolvedEnergyIndependent", "UnresolvedEnergyDependentFissionWidths", "UnresolvedEnergyDependent"]
def radius(laws, at=0):
    """an energy dependent scattering radius: one region per interpolation law (a number or a domain)"""
    def f(new):
        regs = [Seq([V(new("re%d_%d" % (i, k), Real(10**(i + k + at), 2 * 10**(i + k + at))) for k in range(2)), V(new("rr%d_%d" % (i, k), Real("0.2", 1)) for k in range(2))], "tuple") for i in range(len(laws))]
        return O("ScatteringRadius", regions=V(regs), interpolants=V(new("INT%d" % i, law) if hasattr(law, "mk") else I(law) for i, law in enumerate(laws)), boundaries=V(I(2 * i + 2) for i in range(len(laws))), NR=I(len(laws)), NP=I(2 * len(laws)))
    return Build(f, "scattering radius table, laws %s" % ", ".join(map(str, laws)))
def maybe(b):
    return Build(lambda new: Opt(TRUE, b.f(new)) if b else Opt(FALSE, None), str(b) if b else "none")
def rrange(params, type, rep, naps=1, nro=None):
    """a resonance range holding the record params"""
    def f(new):
        p = params.f(new) if params else O("SpecialCase", scatteringRadius=new("AP", Real("0.2", 1)), spin=R(0)); n = p.name; g = lambda k, x: new(k, x) if hasattr(x, "mk") else I(x)
        return O("ResonanceRange", lowerEnergy=new("EL", Real("0.00001", 1000)), upperEnergy=new("EH", Real(9000, 9900)), type=g("LRU", type), representation=g("LRF", rep), scatteringRadiusCalculationOption=g("NAPS", naps),
            energyDependentScatteringRadius=num(bool(nro)), NRO=I(int(bool(nro))), scatteringRadius=Opt(TRUE, nro.f(new)) if nro else Opt(FALSE, None), parameters=Var((n, PARAMS.index(n)), p))
    return Build(f, "range LRU %s LRF %s NRO %s NAPS %s with %s" % (type, rep, nro or "none", naps, params or "a scattering radius only"))
