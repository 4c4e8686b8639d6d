// Interface model of the parts of ENDFtk used by the library (MF2 MT151): declarations only.
#pragma once
#include <optional>
#include <variant>
#include <vector>
#include <map>
#include <memory>
#include "Log.hpp"
#include "range_model.hpp"
namespace njoy { namespace ENDFtk { namespace section {
  template< int MF, int MT > struct Type;
  using Doubles = ranges::rng< double >; using Ints = ranges::rng< int >;
  template<> struct Type< 2, 151 > {
    struct ScatteringRadius { ranges::rng< std::pair< Doubles, Doubles > > regions() const; std::vector< int > interpolants() const; std::vector< int > boundaries() const; int NP() const; int NR() const; };
    struct BWResonance { double ER() const; double AJ() const; double GT() const; double GN() const; double GG() const; double GF() const; };
    struct BreitWignerLValue { double atomicWeightRatio() const; int orbitalMomentum() const; double competitiveWidthQValue() const; Doubles resonanceEnergies() const; Doubles spinValues() const; Doubles totalWidths() const; Doubles neutronWidths() const; Doubles gammaWidths() const; Doubles fissionWidths() const; template< typename R > struct Resonance { double resonanceEnergy() const; double spin() const; double totalWidth() const; double neutronWidth() const; double gammaWidth() const; double fissionWidth() const; double competitiveWidth() const; double GX() const; double ER() const; double AJ() const; double GT() const; double GN() const; double GG() const; double GF() const; };
      double AWRI() const; double QX() const; int L() const; int LRX() const; bool competitiveWidthFlag() const; int NRS() const;
      Doubles ER() const; Doubles AJ() const; Doubles GT() const; Doubles GN() const; Doubles GG() const; Doubles GF() const;
      ranges::rng< Resonance< int > > resonances() const; };
    struct ReichMooreLValue { double atomicWeightRatio() const; int orbitalMomentum() const; double lDependentScatteringRadius() const; Doubles resonanceEnergies() const; Doubles spinValues() const; Doubles neutronWidths() const; Doubles gammaWidths() const; Doubles firstFissionWidths() const; Doubles secondFissionWidths() const; template< typename R > struct Resonance { double resonanceEnergy() const; double spin() const; double totalWidth() const; double neutronWidth() const; double gammaWidth() const; double fissionWidth() const; double competitiveWidth() const; double GX() const; double firstFissionWidth() const; double secondFissionWidth() const; double ER() const; double AJ() const; double GN() const; double GG() const; double GFA() const; double GFB() const; };
      double AWRI() const; double APL() const; int L() const; int NRS() const;
      Doubles ER() const; Doubles AJ() const; Doubles GN() const; Doubles GG() const; Doubles GFA() const; Doubles GFB() const;
      ranges::rng< Resonance< int > > resonances() const; };
    struct SingleLevelBreitWigner { double spin() const; double scatteringRadius() const; int numberLValues() const; using LValue = BreitWignerLValue; using LState = LValue; double SPI() const; double AP() const; int NLS() const; int LRF() const; int LRU() const; std::vector< LValue > lValues() const; };
    struct MultiLevelBreitWigner { double spin() const; double scatteringRadius() const; int numberLValues() const; using LValue = BreitWignerLValue; using LState = LValue; double SPI() const; double AP() const; int NLS() const; int LRF() const; int LRU() const; std::vector< LValue > lValues() const; };
    struct ReichMoore { int numberLValuesForConvergence() const; double spin() const; double scatteringRadius() const; int numberLValues() const; using LValue = ReichMooreLValue; double SPI() const; double AP() const; int LAD() const; int NLS() const; int NLSC() const; std::vector< LValue > lValues() const; };
    struct RMatrixLimited {
      struct ParticlePairs { int NPP() const; Doubles massParticleA() const; Doubles massParticleB() const; Doubles MA() const; Doubles MB() const;
        Ints chargeParticleA() const; Ints chargeParticleB() const; Doubles ZA() const; Doubles ZB() const; Doubles spinParticleA() const; Doubles spinParticleB() const; Doubles IA() const; Doubles IB() const;
        Doubles parityParticleA() const; Doubles parityParticleB() const; Doubles QValues() const; Doubles PA() const; Doubles PB() const; Doubles Q() const; Doubles QI() const; Ints PNT() const; Ints SHF() const; Ints shiftFactorFlag() const; Ints penetrabilityFlag() const; Ints MT() const; int numberParticlePairs() const; };
      struct ResonanceChannels { double AJ() const; double PJ() const; double spin() const; double parity() const; int KBK() const; int KPS() const; int NCH() const; int numberChannels() const;
        Ints PPI() const; Ints L() const; Doubles SCH() const; Doubles BND() const; Doubles APT() const; Doubles APE() const;
        Ints particlePairNumbers() const; Ints particlePairIndices() const; Ints orbitalMomentumValues() const; Doubles channelSpinValues() const; Doubles boundaryConditionValues() const;
        Doubles trueChannelRadii() const; Doubles effectiveChannelRadii() const; };
      struct ResonanceParameters { int NRS() const; Doubles ER() const; ranges::rng< Doubles > GAM() const; Doubles resonanceEnergies() const; ranges::rng< Doubles > resonanceParameters() const; int numberResonances() const; };
      struct SpinGroup { ResonanceChannels channels() const; ResonanceParameters parameters() const; };
      int NJS() const; int IFG() const; bool reducedWidths() const; int KRM() const; int KRL() const; int formalism() const; ParticlePairs particlePairs() const; std::vector< SpinGroup > spinGroups() const; int LRF() const; };
    struct UnresolvedEnergyIndependent { template< typename Range > struct JValue { double averageLevelSpacing() const; double averageNeutronWidth() const; double averageGammaWidth() const; double averageFissionWidth() const; double averageCompetitiveWidth() const; int neutronWidthDegreesFreedom() const; int gammaWidthDegreesFreedom() const; int fissionWidthDegreesFreedom() const; int competitiveWidthDegreesFreedom() const;  double spin() const; double AJ() const; };
      struct LValue { double AWRI() const; double atomicWeightRatio() const; int orbitalMomentum() const; int numberSpinValues() const; int L() const; int NJS() const; std::vector< JValue< int > > jValues() const; };
      double spin() const; double scatteringRadius() const; int numberLValues() const; int NLS() const;  double SPI() const; double AP() const; int LSSF() const; std::vector< LValue > lValues() const; };
    struct UnresolvedEnergyDependentFissionWidths { struct JValue { double averageLevelSpacing() const; double averageNeutronWidth() const; double averageGammaWidth() const; Doubles averageFissionWidths() const; double averageCompetitiveWidth() const; int neutronWidthDegreesFreedom() const; int gammaWidthDegreesFreedom() const; int fissionWidthDegreesFreedom() const; int competitiveWidthDegreesFreedom() const;  double spin() const; double AJ() const; int L() const; };
      struct LValue { double AWRI() const; double atomicWeightRatio() const; int orbitalMomentum() const; int numberSpinValues() const; int L() const; int NJS() const; std::vector< JValue > jValues() const; };
      double spin() const; double scatteringRadius() const; int numberLValues() const; int NLS() const;  double SPI() const; double AP() const; int LSSF() const; int NE() const; Doubles ES() const; Doubles energies() const; std::vector< LValue > lValues() const; };
    struct UnresolvedEnergyDependent { struct JValue { Doubles averageLevelSpacings() const; Doubles averageNeutronWidths() const; Doubles averageGammaWidths() const; Doubles averageFissionWidths() const; Doubles averageCompetitiveWidths() const; Doubles energies() const; Doubles ES() const; int INT() const; int interpolationType() const; int neutronWidthDegreesFreedom() const; int gammaWidthDegreesFreedom() const; int fissionWidthDegreesFreedom() const; int competitiveWidthDegreesFreedom() const;  double spin() const; double AJ() const; };
      struct LValue { double AWRI() const; double atomicWeightRatio() const; int orbitalMomentum() const; int numberSpinValues() const; int L() const; int NJS() const; std::vector< JValue > jValues() const; };
      double spin() const; double scatteringRadius() const; int numberLValues() const; int NLS() const;  double SPI() const; double AP() const; int LSSF() const; std::vector< LValue > lValues() const; };
    struct SpecialCase { double SPI() const; double AP() const; };
    using Parameters = std::variant< SpecialCase, SingleLevelBreitWigner, MultiLevelBreitWigner, ReichMoore, RMatrixLimited, UnresolvedEnergyIndependent, UnresolvedEnergyDependentFissionWidths, UnresolvedEnergyDependent >;
    struct ResonanceRange { double lowerEnergy() const; double upperEnergy() const; int type() const; int representation() const; int scatteringRadiusCalculationOption() const; bool energyDependentScatteringRadius() const; double EL() const; double EH() const; int LRU() const; int LRF() const; int NRO() const; int NAPS() const;
      const std::optional< ScatteringRadius >& scatteringRadius() const; const Parameters& parameters() const; };
    struct Isotope { double ZAI() const; double ABN() const; int LFW() const; std::vector< ResonanceRange > resonanceRanges() const; };
    double ZA() const; double AWR() const; std::vector< Isotope > isotopes() const;
  };
} } }
