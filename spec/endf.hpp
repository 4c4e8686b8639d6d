// C26, C27, C17: evaluations become systems with exactly their own data.  Every scenario reduces a converted system to the facts a user can ask it for.
namespace vspec {
using PP = endf::RMatrixLimited::ParticlePairs; using RCH = endf::RMatrixLimited::ResonanceChannels;
inline int kindOf( const rm::Channel< rm::Neutron >& ) { return 1; }
inline int kindOf( const rm::Channel< rm::Photon >& ) { return 2; }
inline int kindOf( const rm::Channel< rm::ChargedParticle >& ) { return 3; }
inline int kindOf( const rm::Channel< rm::Fission >& ) { return 4; }
struct PF { rm::ParticleID id; double mass, charge, spin; int parity; };
struct CF { int kind; std::string id; rm::ReactionID reaction; rm::ParticlePairID from, to; PF a, b, c, d; double Q; unsigned l; double s, J; int parity; double r1, r2, r3, boundary; std::vector< double > widths; };
struct GF { std::vector< CF > channels; std::vector< double > energies, eliminated; };
inline PF pfact( const rm::Particle& p ) { return { p.particleID(), p.mass() / ( 1. * daltons ), p.charge() / ( 1. * coulombs ), p.spin(), p.parity() }; }
template< typename Ch > CF cfact( const Ch& c, std::vector< double > w ) {
  auto q = c.quantumNumbers(); Energy e = 100. * electronVolts; auto rb = 1. * rr::rootBarn;
  return { kindOf( c ), c.channelID(), c.reactionID(), c.incidentParticlePair().pairID(), c.particlePair().pairID(),
           pfact( c.incidentParticlePair().particle() ), pfact( c.incidentParticlePair().residual() ), pfact( c.particlePair().particle() ), pfact( c.particlePair().residual() ),
           c.Q() / ( 1. * electronVolts ), q.orbitalAngularMomentum(), q.spin(), q.totalAngularMomentum(), q.parity(),
           c.radii().penetrabilityRadius( e ) / rb, c.radii().shiftFactorRadius( e ) / rb, c.radii().phaseShiftRadius( e ) / rb, c.boundaryCondition(), w };
}
inline CF vfact( const rm::ParticleChannel& c, std::vector< double > w ) { return std::visit( [&] ( const auto& ch ) { return cfact( ch, w ); }, c ); }
template< typename Sys > std::vector< GF > sysfacts( const Sys& sys ) {
  std::vector< GF > out; auto eV = 1. * electronVolts; auto reV = 1. * rr::rootElectronVolt;
  for ( const auto& g : sys.spinGroups() ) {
    GF f; std::vector< rm::Resonance > rs; for ( const auto& r : g.resonanceTable().resonances() ) rs.push_back( r );
    std::vector< rm::ParticleChannel > cs; for ( const auto& c : g.channels() ) cs.push_back( c );
    for ( const auto& r : rs ) { f.energies.push_back( r.energy() / eV ); f.eliminated.push_back( r.eliminatedWidth() / reV ); }
    for ( unsigned int i = 0; i < cs.size(); ++i ) { std::vector< double > w; for ( const auto& r : rs ) w.push_back( r.widths()[ i ] / reV ); f.channels.push_back( vfact( cs[i], w ) ); }
    out.push_back( f );
  }
  return out;
}
// ---- C26
inline rm::Particle rmlParticle( const rm::ParticleID& id, double m, double z, double spin, double parity, rr::AtomicMass mn, rr::ElectricalCharge e ) {
  return rm::Particle( id, m * mn, z * e, spin < 0. ? -spin : spin, spin < 0. || ( spin == 0. && parity < 0. ) ? -1 : +1 );
}
inline rm::ParticlePair rmlPair( const PP& p, unsigned i, rr::AtomicMass mn, rr::ElectricalCharge e, const rm::ParticleID& in, const rm::ParticleID& target ) {
  int mt = p.MT()[i]; bool own = mt == 2 || mt == 18; rm::ReactionType type( mt );
  rm::ParticleID a = own ? in : type.particles().front(), b = own ? target : njoy::elementary::resolve( in, target, type );
  return rm::ParticlePair( rmlParticle( a, p.massParticleA()[i], p.chargeParticleA()[i], p.spinParticleA()[i], p.parityParticleA()[i], mn, e ),
                           rmlParticle( b, p.massParticleB()[i], p.chargeParticleB()[i], p.spinParticleB()[i], p.parityParticleB()[i], mn, e ),
                           mt == 18 ? rm::ParticlePairID( "fission" ) : rm::ParticlePairID( a, b ) );
}
inline rm::ParticleChannel rmlChannel( const PP& p, const RCH& c, unsigned i, rr::AtomicMass mn, rr::ElectricalCharge e, const rm::ParticleID& in, const rm::ParticleID& target ) {
  unsigned k = 0; while ( p.MT()[k] != 2 ) ++k;
  unsigned n = c.particlePairNumbers()[i] - 1; int mt = p.MT()[n]; auto pair = rmlPair( p, n, mn, e, in, target ), from = rmlPair( p, k, mn, e, in, target );
  double J = c.spin(); rm::ChannelQuantumNumbers q( c.orbitalMomentumValues()[i], c.channelSpinValues()[i], J < 0. ? -J : J, J < 0. || ( J == 0. && c.parity() < 0. ) ? -1 : +1 );
  auto radii = rm::ChannelRadii( c.trueChannelRadii()[i] * rr::rootBarn, c.effectiveChannelRadii()[i] * rr::rootBarn ); auto Q = p.Q()[n] * electronVolts; double b = c.boundaryConditionValues()[i];
  if ( mt == 102 ) return rm::Channel< rm::Photon >( from, pair, Q, q, radii, b );
  if ( mt == 18 || mt == 19 || mt == 20 || mt == 21 || mt == 38 ) return rm::Channel< rm::Fission >( from, pair, Q, q, radii, b );
  if ( p.chargeParticleA()[n] > 0. ) return rm::Channel< rm::ChargedParticle >( from, pair, Q, q, radii, b );
  return rm::Channel< rm::Neutron >( from, pair, Q, q, radii, b );
}
inline double rmlWidth( const rm::ParticleChannel& c, double e, double g, bool reduced ) {
  if ( reduced || g == 0. ) return g;
  double P = std::visit( [&] ( const auto& ch ) { return ch.penetrability( e * electronVolts ); }, c ); double w = std::sqrt( ( g < 0. ? -g : g ) / ( 2. * P ) );
  return g < 0. ? -w : w;
}
inline void insertSorted( std::vector< double >& v, double x ) {
  for ( unsigned i = 0; i < v.size(); ++i ) { if ( v[i] == x ) return; if ( x < v[i] ) { v.insert( v.begin() + i, x ); return; } }
  v.push_back( x );
}
#define RML_PAR const endf::RMatrixLimited& d, double mn, double e
#define RML_MASS auto mass = mn * daltons; auto charge = e * coulombs; rm::ParticleID in( "n" ), target( "U235" );
template< typename B > std::vector< GF > rmlfacts( RML_PAR ) { RML_MASS return sysfacts( rm::makeCompoundSystem( d, mass, charge, in, target, rm::ReichMoore(), B() ) ); }
std::vector< GF > impl_rmls( RML_PAR ) { return rmlfacts< rm::ShiftFactor >( d, mn, e ); }
std::vector< GF > impl_rmlc( RML_PAR ) { return rmlfacts< rm::Constant >( d, mn, e ); }
std::vector< GF > spec_rml( RML_PAR ) {
  RML_MASS auto p = d.particlePairs(); bool reduced = d.reducedWidths(); std::vector< double > js;    // groups in order of J, negative parity first
  auto key = [] ( const RCH& c ) -> double { double J = c.spin(); double a = J < 0. ? -J : J; return 4. * a + ( J < 0. || ( J == 0. && c.parity() < 0. ) ? 0. : 1. ); };
  auto groups = d.spinGroups(); std::vector< GF > out;
  for ( const auto& g : groups ) insertSorted( js, key( g.channels() ) );
  for ( double j : js ) {
    GF f;
    for ( const auto& g : groups ) if ( key( g.channels() ) == j ) for ( unsigned r = 0; r < g.parameters().resonanceEnergies().size(); ++r ) {
      bool any = false; for ( double x : g.parameters().resonanceParameters()[r] ) if ( x != 0. ) any = true;
      if ( any ) insertSorted( f.energies, g.parameters().resonanceEnergies()[r] );
    }
    for ( double x : f.energies ) f.eliminated.push_back( 0. );
    for ( const auto& g : groups ) if ( key( g.channels() ) == j ) for ( unsigned i = 0; i < g.channels().particlePairNumbers().size(); ++i ) {
      auto ch = rmlChannel( p, g.channels(), i, mass, charge, in, target ); int mt = p.MT()[ g.channels().particlePairNumbers()[i] - 1 ];
      std::vector< double > w; bool any = false; for ( double x : f.energies ) w.push_back( 0. );
      for ( unsigned r = 0; r < g.parameters().resonanceEnergies().size(); ++r ) {
        double x = g.parameters().resonanceEnergies()[r], y = g.parameters().resonanceParameters()[r][i]; if ( y != 0. ) any = true;
        for ( unsigned k = 0; k < f.energies.size(); ++k ) if ( f.energies[k] == x && y != 0. ) { double z = rmlWidth( ch, x, y, reduced ); if ( mt == 102 ) f.eliminated[k] = z; else w[k] = z; }
      }
      if ( mt != 102 && ( any || mt == 2 ) ) f.channels.push_back( vfact( ch, w ) );
    }
    out.push_back( f );
  }
  return out;
}
// ---- C27: quantum numbers of a resonance: the sign of AJ selects the channel spin when both couple to J
inline bool couples( unsigned l, double s, double J ) { double d = l > s ? l - s : s - l; return J >= d && J <= l + s; }
inline double channelSpin( unsigned l, double I, double aj ) {
  double J = aj < 0. ? -aj : aj, lower = I < 0.5 ? 0.5 : I - 0.5, upper = I + 0.5; bool a = lower != upper && couples( l, lower, J ), b = couples( l, upper, J );
  rejectIf( !a && !b ); if ( a && b ) return aj < 0. ? lower : upper; return a ? lower : upper;
}
inline rm::ParticlePair npair( double mn, double awri, double I ) {
  return rm::ParticlePair( rm::Particle( rm::ParticleID( "n" ), mn * daltons, 0. * coulombs, 0.5, +1 ), rm::Particle( rm::ParticleID( "U235" ), awri * mn * daltons, 0. * coulombs, I, +1 ), rm::ParticlePairID( rm::ParticleID( "n" ), rm::ParticleID( "U235" ) ) );
}
inline rm::ParticlePair named( const rm::ParticlePair& p, const char* id ) { return rm::ParticlePair( p.particle(), p.residual(), rm::ParticlePairID( id ) ); }
inline rm::ChannelRadii endfRadii( double ap, const std::optional< rm::ChannelRadiusTable >& nro, int naps, double awri, double mn ) {
  auto a = ( 0.123 * std::pow( awri * mn, 1. / 3. ) + 0.08 ) * rr::rootBarn;
  if ( nro ) { if ( naps == 0 ) return rm::ChannelRadii( a, nro.value() ); if ( naps == 1 ) return rm::ChannelRadii( nro.value() ); return rm::ChannelRadii( ap * rr::rootBarn, nro.value() ); }
  if ( naps == 0 ) return rm::ChannelRadii( a, ap * rr::rootBarn ); return rm::ChannelRadii( ap * rr::rootBarn );
}
inline std::optional< rm::ChannelRadiusTable > endfTable( bool nro, double r1, double r2 ) {
  if ( !nro ) return std::nullopt; using TV = rm::TableVariant< Energy, rr::ChannelRadius >;
  std::vector< TV > ts{ TV( rm::LinLinTable< Energy, rr::ChannelRadius >( std::vector< Energy >{ 1. * electronVolts, 1000. * electronVolts }, std::vector< rr::ChannelRadius >{ r1 * rr::rootBarn, r2 * rr::rootBarn } ) ) };
  return rm::ChannelRadiusTable( rm::MultiRegionTable< Energy, rr::ChannelRadius >( std::move( ts ) ) );
}
inline std::vector< double > ajvalues( const std::vector< double >& all ) { std::vector< double > v; for ( double x : all ) insertSorted( v, x ); return v; }
struct BF { double e, n, g, f, P, S, n1, x1; };
struct BGF { CF channel; double qx; std::vector< BF > resonances; };
#define BW_D double mn, bool nro, int naps, double r1, double r2
template< typename Sys > std::vector< BGF > bwsysfacts( const Sys& sys ) {
  std::vector< BGF > out; auto eV = 1. * electronVolts; unsigned k = 0;
  for ( const auto& g : sys.spinGroups() ) {
    BGF f{ cfact( g.incidentChannel(), {} ), g.QX() / eV, {} };
    for ( const auto& r : g.resonanceTable().resonances() ) f.resonances.push_back( { r.energy() / eV, r.elastic() / eV, r.capture() / eV, r.fission() / eV, r.penetrability(), r.shiftfactor(), r.elastic( 1. ) / eV, r.competition( 1. ) / eV } );
    out.push_back( f );
  }
  return out;
}
template< typename F, typename Rec > std::vector< BGF > bwfacts( const Rec& d, BW_D ) {
  return bwsysfacts( rm::makeLegacyBreitWignerCompoundSystem( d, mn * daltons, 1. * coulombs, rm::ParticleID( "n" ), rm::ParticleID( "U235" ), endfTable( nro, r1, r2 ), naps, F() ) );
}
template< typename Rec > std::vector< BGF > bwexpected( const Rec& d, BW_D, bool endf ) {
  std::vector< BGF > out; double I = d.spin(), ap = d.scatteringRadius(); auto table = endfTable( nro, r1, r2 ); auto eV = 1. * electronVolts;
  for ( const auto& lv : d.lValues() ) {
    unsigned l = lv.orbitalMomentum(); double awri = lv.atomicWeightRatio(); auto pair = npair( mn, awri, I ); auto radii = endfRadii( ap, table, naps, awri, mn );
    std::vector< double > all; for ( const auto& r : lv.resonances() ) all.push_back( r.spin() );
    for ( double aj : ajvalues( all ) ) {
      double J = aj < 0. ? -aj : aj; rm::Channel< rm::Neutron > ch( pair, pair, 0. * eV, rm::ChannelQuantumNumbers( l, channelSpin( l, I, aj ), J, l % 2 == 0 ? +1 : -1 ), radii );
      BGF f{ cfact( ch, {} ), lv.QX(), {} };
      for ( const auto& r : lv.resonances() ) if ( r.spin() == aj ) {
        double e = r.resonanceEnergy(), n = r.neutronWidth(), P = ch.penetrability( e * eV ), x = lv.competitiveWidthFlag() ? r.competitiveWidth() : 0.;
        double Q = lv.competitiveWidthFlag() ? ch.penetrability( endf ? ( e + lv.QX() / ( awri / ( 1. + awri ) ) ) * eV : ( e - lv.QX() ) * eV ) : P;
        f.resonances.push_back( { e, n, r.gammaWidth(), r.fissionWidth(), P, ch.shiftFactor( e * eV ), n / P, x / Q } );
      }
      out.push_back( f );
    }
  }
  return out;
}
std::vector< BGF > impl_bwsl( const endf::SingleLevelBreitWigner& d, BW_D ) { return bwfacts< rm::SingleLevelBreitWigner >( d, mn, nro, naps, r1, r2 ); }
std::vector< BGF > spec_bwsl( const endf::SingleLevelBreitWigner& d, BW_D ) { return bwexpected( d, mn, nro, naps, r1, r2, true ); }
std::vector< BGF > known_bwsl( const endf::SingleLevelBreitWigner& d, BW_D ) { return bwexpected( d, mn, nro, naps, r1, r2, false ); }
std::vector< BGF > impl_bwml( const endf::MultiLevelBreitWigner& d, BW_D ) { return bwfacts< rm::MultiLevelBreitWigner >( d, mn, nro, naps, r1, r2 ); }
std::vector< BGF > spec_bwml( const endf::MultiLevelBreitWigner& d, BW_D ) { return bwexpected( d, mn, nro, naps, r1, r2, true ); }
std::vector< BGF > known_bwml( const endf::MultiLevelBreitWigner& d, BW_D ) { return bwexpected( d, mn, nro, naps, r1, r2, false ); }
// ---- C27: Reich-Moore
std::vector< GF > impl_rm( const endf::ReichMoore& d, BW_D ) {
  return sysfacts( rm::makeReichMooreCompoundSystem( d, mn * daltons, 1. * coulombs, rm::ParticleID( "n" ), rm::ParticleID( "U235" ), endfTable( nro, r1, r2 ), naps ) );
}
struct Column { rm::ParticleChannel channel; double key; std::vector< double > e, w; bool eliminated; };
inline double signedRoot( double g, double P ) { return g < 0. ? -std::sqrt( -g / ( 2. * P ) ) : std::sqrt( g / ( 2. * P ) ); }
std::vector< GF > spec_rm( const endf::ReichMoore& d, BW_D ) {
  double I = d.spin(); auto table = endfTable( nro, r1, r2 ); auto eV = 1. * electronVolts; std::vector< Column > cols; std::vector< double > used;
  for ( const auto& lv : d.lValues() ) {
    unsigned l = lv.orbitalMomentum(); int parity = l % 2 == 0 ? +1 : -1; double awri = lv.atomicWeightRatio(), apl = lv.lDependentScatteringRadius(); auto pair = npair( mn, awri, I ); auto radii = endfRadii( apl != 0. ? apl : d.scatteringRadius(), table, naps, awri, mn );
    std::vector< double > all; for ( const auto& r : lv.resonances() ) all.push_back( r.spin() );
    for ( double aj : ajvalues( all ) ) {
      double J = aj < 0. ? -aj : aj, s = channelSpin( l, I, aj ), key = 4. * J + ( parity > 0 ? 1. : 0. ); rejectIf( l >= unsigned( d.numberLValuesForConvergence() ) ); used.push_back( 1000. * l + 20. * s + J );
      rm::Channel< rm::Neutron > el( pair, pair, 0. * eV, rm::ChannelQuantumNumbers( l, s, J, parity ), radii ); rm::ChannelQuantumNumbers other( l, 0., J, parity );
      rm::Channel< rm::Photon > ca( pair, named( pair, "capture" ), 0. * eV, other, radii ); auto fp = named( pair, "fission" );
      rm::Channel< rm::Fission > f1( pair, fp, "fission1", 0. * eV, other, radii ), f2( pair, fp, "fission2", 0. * eV, other, radii );
      Column n{ el, key, {}, {}, false }, g{ ca, key, {}, {}, true }, a{ f1, key, {}, {}, false }, b{ f2, key, {}, {}, false }; bool any1 = false, any2 = false;
      for ( const auto& r : lv.resonances() ) if ( r.spin() == aj ) {
        double e = r.resonanceEnergy(); n.e.push_back( e ); g.e.push_back( e ); a.e.push_back( e ); b.e.push_back( e );
        n.w.push_back( signedRoot( r.neutronWidth(), el.penetrability( e * eV ) ) ); g.w.push_back( signedRoot( r.gammaWidth(), 1. ) );
        a.w.push_back( signedRoot( r.firstFissionWidth(), 1. ) ); b.w.push_back( signedRoot( r.secondFissionWidth(), 1. ) );
        if ( r.firstFissionWidth() != 0. ) any1 = true; if ( r.secondFissionWidth() != 0. ) any2 = true;
      }
      cols.push_back( n ); cols.push_back( g ); if ( any1 ) cols.push_back( a ); if ( any2 ) { if ( !any1 ) b.channel = f1; cols.push_back( b ); }
    }
  }
  double awri = d.lValues().front().atomicWeightRatio(); auto pair = npair( mn, awri, I ); auto radii = endfRadii( d.scatteringRadius(), table, naps, awri, mn );   // channels without resonances
  for ( unsigned l = 0; l < unsigned( d.numberLValuesForConvergence() ); ++l ) for ( double s = I < 0.5 ? 0.5 : I - 0.5; s <= I + 0.5; s = s + 1. ) for ( double J = l > s ? l - s : s - l; J <= l + s; J = J + 1. ) {
    bool seen = false; for ( double u : used ) if ( u == 1000. * l + 20. * s + J ) seen = true;
    if ( !seen ) { int parity = l % 2 == 0 ? +1 : -1; cols.push_back( { rm::Channel< rm::Neutron >( pair, pair, 0. * eV, rm::ChannelQuantumNumbers( l, s, J, parity ), radii ), 4. * J + ( parity > 0 ? 1. : 0. ), {}, {}, false } ); }
  }
  std::vector< double > keys; for ( const auto& c : cols ) insertSorted( keys, c.key );
  std::vector< GF > out;
  for ( double key : keys ) {
    GF f; for ( const auto& c : cols ) if ( c.key == key ) for ( double e : c.e ) insertSorted( f.energies, e );
    for ( double e : f.energies ) f.eliminated.push_back( 0. );
    for ( const auto& c : cols ) if ( c.key == key ) {
      std::vector< double > w; for ( double e : f.energies ) w.push_back( 0. );
      for ( unsigned k = 0; k < c.e.size(); ++k ) for ( unsigned i = 0; i < f.energies.size(); ++i ) if ( f.energies[i] == c.e[k] ) { if ( c.eliminated ) f.eliminated[i] = c.w[k]; else w[i] = c.w[k]; }
      if ( !c.eliminated ) f.channels.push_back( vfact( c.channel, w ) );
    }
    out.push_back( f );
  }
  return out;
}
// fission from both channel spins of one l, J
int impl_rmpm( const endf::ReichMoore& d, BW_D ) { int n = 0; for ( const auto& g : impl_rm( d, mn, nro, naps, r1, r2 ) ) ++n; return n; }
int spec_rmpm( const endf::ReichMoore& d, BW_D ) { int n = 0; for ( const auto& g : spec_rm( d, mn, nro, naps, r1, r2 ) ) ++n; return n; }
int known_rmpm( const endf::ReichMoore& d, BW_D ) { throw 1; }
// ---- C27: unresolved
struct UF { double e, d, n, g, f, x; };
struct UGF { rm::ReactionID reaction; PF a, b; unsigned l; double J; int parity; double g, Q, r1, r2, r3; unsigned mu, ga, nu, la; std::vector< UF > table; };
template< typename Ch > UGF ugfact( const Ch& c ) { auto f = cfact( c, {} ); return { f.reaction, f.c, f.d, f.l, f.J, f.parity, c.statisticalSpinFactor(), f.Q, f.r1, f.r2, f.r3, 0, 0, 0, 0, {} }; }
#define UR_D double mn, bool nro, int naps, double r1, double r2, double lower, double upper
inline std::vector< UGF > usysfacts( const rm::legacy::unresolved::CompoundSystem& sys ) {
  std::vector< UGF > out; auto eV = 1. * electronVolts; auto reV = 1. * rr::rootElectronVolt;
  for ( const auto& g : sys.spinGroups() ) {
    UGF f = ugfact( g.incidentChannel() ); auto n = g.resonanceTable().degreesOfFreedom(); f.mu = n.elastic; f.ga = n.capture; f.nu = n.fission; f.la = n.competition;
    for ( const auto& r : g.resonanceTable().resonances() ) f.table.push_back( { r.energy() / eV, r.levelSpacing() / eV, r.elastic() / reV, r.capture() / eV, r.fission() / eV, r.competition() / eV } );
    out.push_back( f );
  }
  return out;
}
template< typename Rec > std::vector< UGF > ufacts( const Rec& d, UR_D ) {
  return usysfacts( rm::makeLegacyUnresolvedCompoundSystem( d, mn * daltons, 1. * coulombs, rm::ParticleID( "n" ), rm::ParticleID( "U235" ), endfTable( nro, r1, r2 ), naps, lower, upper ) );
}
inline std::vector< UF > utab( const endf::UnresolvedEnergyDependent&, const endf::UnresolvedEnergyDependent::JValue& j, double, double ) {
  std::vector< UF > v; for ( unsigned i = 0; i < j.energies().size(); ++i ) v.push_back( { j.energies()[i], j.averageLevelSpacings()[i], j.averageNeutronWidths()[i], j.averageGammaWidths()[i], j.averageFissionWidths()[i], j.averageCompetitiveWidths()[i] } ); return v;
}
inline std::vector< UF > utab( const endf::UnresolvedEnergyIndependent&, const endf::UnresolvedEnergyIndependent::JValue< int >& j, double lower, double upper ) {
  UF a{ lower, j.averageLevelSpacing(), j.averageNeutronWidth(), j.averageGammaWidth(), j.averageFissionWidth(), j.averageCompetitiveWidth() }, b = a; b.e = upper; return { a, b };
}
inline std::vector< UF > utab( const endf::UnresolvedEnergyDependentFissionWidths& d, const endf::UnresolvedEnergyDependentFissionWidths::JValue& j, double, double ) {
  std::vector< UF > v; for ( unsigned i = 0; i < d.energies().size(); ++i ) v.push_back( { d.energies()[i], j.averageLevelSpacing(), j.averageNeutronWidth(), j.averageGammaWidth(), j.averageFissionWidths()[i], j.averageCompetitiveWidth() } ); return v;
}
template< typename Rec > std::vector< UGF > uexpected( const Rec& d, UR_D ) {
  std::vector< UGF > out; double I = d.spin(), awri = d.lValues().front().atomicWeightRatio(); auto pair = npair( mn, awri, I ); auto radii = endfRadii( d.scatteringRadius(), endfTable( nro, r1, r2 ), naps, awri, mn );
  for ( const auto& lv : d.lValues() ) for ( const auto& j : lv.jValues() ) {
    unsigned l = lv.orbitalMomentum(); UGF f = ugfact( rm::Channel< rm::Neutron >( pair, pair, 0. * electronVolts, rm::ChannelQuantumNumbers( l, 0.5, j.spin(), l % 2 == 0 ? +1 : -1 ), radii ) );
    f.mu = j.neutronWidthDegreesFreedom(); f.ga = j.gammaWidthDegreesFreedom(); f.nu = j.fissionWidthDegreesFreedom(); f.la = j.competitiveWidthDegreesFreedom(); f.table = utab( d, j, lower, upper ); out.push_back( f );
  }
  return out;
}
std::vector< UGF > impl_urra( const endf::UnresolvedEnergyIndependent& d, UR_D ) { return ufacts( d, mn, nro, naps, r1, r2, lower, upper ); }
std::vector< UGF > spec_urra( const endf::UnresolvedEnergyIndependent& d, UR_D ) { return uexpected( d, mn, nro, naps, r1, r2, lower, upper ); }
std::vector< UGF > impl_urrb( const endf::UnresolvedEnergyDependentFissionWidths& d, UR_D ) { return ufacts( d, mn, nro, naps, r1, r2, lower, upper ); }
std::vector< UGF > spec_urrb( const endf::UnresolvedEnergyDependentFissionWidths& d, UR_D ) { return uexpected( d, mn, nro, naps, r1, r2, lower, upper ); }
std::vector< UGF > impl_urrc( const endf::UnresolvedEnergyDependent& d, UR_D ) { return ufacts( d, mn, nro, naps, r1, r2, lower, upper ); }
std::vector< UGF > spec_urrc( const endf::UnresolvedEnergyDependent& d, UR_D ) { return uexpected( d, mn, nro, naps, r1, r2, lower, upper ); }
// ---- C24, C30: radius tables of every interpolation law
inline rm::TableVariant< Energy, rr::ChannelRadius > lawTable( int law, std::vector< Energy > x, std::vector< rr::ChannelRadius > y ) {
  if ( law == 1 ) return rm::HistogramTable< Energy, rr::ChannelRadius >( std::move( x ), std::move( y ) );
  if ( law == 2 ) return rm::LinLinTable< Energy, rr::ChannelRadius >( std::move( x ), std::move( y ) );
  if ( law == 3 ) return rm::LinLogTable< Energy, rr::ChannelRadius >( std::move( x ), std::move( y ) );
  if ( law == 4 ) return rm::LogLinTable< Energy, rr::ChannelRadius >( std::move( x ), std::move( y ) );
  if ( law == 5 ) return rm::LogLogTable< Energy, rr::ChannelRadius >( std::move( x ), std::move( y ) );
  throw 1;
}
inline std::optional< rm::ChannelRadiusTable > expectedTable( const std::optional< endf::ScatteringRadius >& d ) {
  if ( !d ) return std::nullopt; using TV = rm::TableVariant< Energy, rr::ChannelRadius >; std::vector< TV > ts; unsigned i = 0; auto laws = d->interpolants();
  for ( const auto& region : d->regions() ) {
    std::vector< Energy > x; std::vector< rr::ChannelRadius > y; for ( double v : region.first ) x.push_back( v * electronVolts ); for ( double v : region.second ) y.push_back( v * rr::rootBarn );
    ts.push_back( lawTable( laws[i], x, y ) ); ++i;
  }
  return rm::ChannelRadiusTable( rm::MultiRegionTable< Energy, rr::ChannelRadius >( std::move( ts ) ) );
}
struct TF { bool some; double r; };
inline TF tfact( const std::optional< rm::ChannelRadiusTable >& t, double E ) { if ( !t ) return { false, 0. }; return { true, ( *t )( E * electronVolts ) / ( 1. * rr::rootBarn ) }; }
TF impl_law( const std::optional< endf::ScatteringRadius >& d, double E ) { return tfact( rm::makeChannelRadiusTable( d ), E ); }
TF spec_law( const std::optional< endf::ScatteringRadius >& d, double E ) { return tfact( expectedTable( d ), E ); }
// ---- C17
struct SF { int kind; std::vector< GF > r; std::vector< BGF > b; std::vector< UGF > u; };
inline SF facts( const rm::legacy::resolved::CompoundSystem< rm::SingleLevelBreitWigner >& s ) { return { 1, {}, bwsysfacts( s ), {} }; }
inline SF facts( const rm::legacy::resolved::CompoundSystem< rm::MultiLevelBreitWigner >& s ) { return { 2, {}, bwsysfacts( s ), {} }; }
inline SF facts( const rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor >& s ) { return { 3, sysfacts( s ), {}, {} }; }
inline SF facts( const rm::CompoundSystem< rm::ReichMoore, rm::Constant >& s ) { return { 4, sysfacts( s ), {}, {} }; }
inline SF facts( const rm::legacy::unresolved::CompoundSystem& s ) { return { 5, {}, {}, usysfacts( s ) }; }
struct DF { double lower, upper; bool resolved, unresolved; SF system; };
inline SF factsOf( const rm::CompoundSystemVariant& s ) { return std::visit( [&] ( const auto& system ) { return facts( system ); }, s ); }
DF impl_range( const endf::ResonanceRange& d, double mn, double e ) {
  auto r = rm::fromENDF( d, mn * daltons, e * coulombs, rm::ParticleID( "n" ), rm::ParticleID( "U235" ) ); auto eV = 1. * electronVolts;
  return { r.lowerEnergy() / eV, r.upperEnergy() / eV, r.isResolved(), r.isUnresolved(), factsOf( r.compoundSystem() ) };
}
inline rm::CompoundSystemVariant systemOf( const endf::ResonanceRange& d, rr::AtomicMass mn, rr::ElectricalCharge e ) {
  rm::ParticleID in( "n" ), ta( "U235" ); auto nro = expectedTable( d.scatteringRadius() ); int naps = d.NAPS(), kind = d.parameters().index(); double lo = d.EL(), hi = d.EH();
  if ( d.LRU() == 1 && d.LRF() == 1 && kind == 1 ) return rm::makeLegacyBreitWignerCompoundSystem( std::get< endf::SingleLevelBreitWigner >( d.parameters() ), mn, e, in, ta, nro, naps, rm::SingleLevelBreitWigner() );
  if ( d.LRU() == 1 && d.LRF() == 2 && kind == 2 ) return rm::makeLegacyBreitWignerCompoundSystem( std::get< endf::MultiLevelBreitWigner >( d.parameters() ), mn, e, in, ta, nro, naps, rm::MultiLevelBreitWigner() );
  if ( d.LRU() == 1 && d.LRF() == 3 && kind == 3 ) return rm::makeReichMooreCompoundSystem( std::get< endf::ReichMoore >( d.parameters() ), mn, e, in, ta, nro, naps );
  if ( d.LRU() == 1 && d.LRF() == 7 && kind == 4 ) {
    auto p = std::get< endf::RMatrixLimited >( d.parameters() ); rejectIf( p.formalism() != 3 );
    if ( p.particlePairs().SHF().front() == 0 ) return rm::makeCompoundSystem( p, mn, e, in, ta, rm::ReichMoore(), rm::ShiftFactor() );
    return rm::makeCompoundSystem( p, mn, e, in, ta, rm::ReichMoore(), rm::Constant() );
  }
  if ( d.LRU() == 2 && kind == 5 ) return rm::makeLegacyUnresolvedCompoundSystem( std::get< endf::UnresolvedEnergyIndependent >( d.parameters() ), mn, e, in, ta, nro, naps, lo, hi );
  if ( d.LRU() == 2 && kind == 6 ) return rm::makeLegacyUnresolvedCompoundSystem( std::get< endf::UnresolvedEnergyDependentFissionWidths >( d.parameters() ), mn, e, in, ta, nro, naps, lo, hi );
  if ( d.LRU() == 2 && kind == 7 ) return rm::makeLegacyUnresolvedCompoundSystem( std::get< endf::UnresolvedEnergyDependent >( d.parameters() ), mn, e, in, ta, nro, naps, lo, hi );
  throw 1;
}
DF spec_range( const endf::ResonanceRange& d, double mn, double e ) { bool u = d.LRU() == 2; auto s = systemOf( d, mn * daltons, e * coulombs ); return { d.EL(), d.EH(), !u, u, factsOf( s ) }; }
}
