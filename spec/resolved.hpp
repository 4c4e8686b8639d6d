// The Reich-Moore R-matrix pipeline, accumulation, reconstructors, grids and construction checks.
namespace vspec {
using cx = std::complex< double >;
using XS = std::map< rm::ReactionID, CrossSection >;
using RMG = rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor >;
using RMC = rm::SpinGroup< rm::ReichMoore, rm::Constant >;
inline rm::Resonance resonance( double e, std::vector< double > g, double c ) {
  std::vector< rr::ReducedWidth > w; for ( double x : g ) w.push_back( x * rr::rootElectronVolt );
  return rm::Resonance( e * electronVolts, std::move( w ), c * rr::rootElectronVolt );
}
inline rm::ParticlePair u235() { return entrance( 1., 235. ); }
inline rm::ParticlePair fissionPair() { return rm::ParticlePair( particle( "n", 1., 0., 0.5, +1 ), particle( "U235", 235., 0., 3.5, +1 ), rm::ParticlePairID( "fission" ) ); }
inline rm::ChannelRadii radii( double a ) { return rm::ChannelRadii( a * rr::rootBarn, 2. * a * rr::rootBarn, 3. * a * rr::rootBarn ); }
inline rm::Channel< rm::Neutron > elasticChannel( unsigned l, double s, double J, double a, double b = 0. ) {
  return rm::Channel< rm::Neutron >( u235(), u235(), 0. * electronVolts, rm::ChannelQuantumNumbers( l, s, J, +1 ), radii( a ), b );
}
inline rm::Channel< rm::Fission > fissionChannel( double J, const char* id = "fission1" ) {
  return rm::Channel< rm::Fission >( u235(), fissionPair(), id, 0. * electronVolts, rm::ChannelQuantumNumbers( 0, 0., J, +1 ), radii( 0.5 ) );
}
inline rm::Channel< rm::ChargedParticle > protonChannel( unsigned l, double J, double a, double Q ) {
  return rm::Channel< rm::ChargedParticle >( u235(), rm::ParticlePair( particle( "p", 1., 1., 0.5, +1 ), particle( "Th235", 235., 90., 0.5, +1 ), rm::ParticlePairID( "p,Th235" ) ),
    Q * electronVolts, rm::ChannelQuantumNumbers( l, 0.5, J, +1 ), radii( a ) );
}
inline rm::Channel< rm::ChargedParticle > protonElastic( unsigned l, double J, double a ) {
  rm::ParticlePair in( particle( "p", 1., 1., 0.5, +1 ), particle( "Cl35", 35., 17., 1.5, +1 ), rm::ParticlePairID( "p,Cl35" ) );
  return rm::Channel< rm::ChargedParticle >( in, in, 0. * electronVolts, rm::ChannelQuantumNumbers( l, 1., J, +1 ), radii( a ) );
}
// ---- C19: one resonance's contribution to R
std::vector< cx > impl_rone( double E, double e, double g, double h, double c ) {
  auto m = resonance( e, { g, h }, c ).rmatrix( E * electronVolts );
  return { m[0][0], m[0][1], m[1][0], m[1][1] };
}
std::vector< cx > spec_rone( double E, double e, double g, double h, double c ) {
  cx d( e - E, -( c * c ) ); return { g * g / d, g * h / d, g * h / d, h * h / d };
}
// ---- C19: one channel
template< typename Group > XS one( double E, unsigned l, double J, double a, double b, double e1, double g1, double c1, double e2, double g2, double c2 ) {
  auto ch = elasticChannel( l, 0.5, J, a, b ); std::string id = ch.channelID();
  Group group( std::vector< rm::ParticleChannel >{ ch }, rm::ResonanceTable( std::vector< std::string >{ id }, std::vector< rm::Resonance >{ resonance( e1, { g1 }, c1 ), resonance( e2, { g2 }, c2 ) } ) );
  XS result; group.evaluate( E * electronVolts, result ); return result;
}
inline XS oneExpected( bool shift, double E, unsigned l, double J, double a, double b, double e1, double g1, double c1, double e2, double g2, double c2 ) {
  auto ch = elasticChannel( l, 0.5, J, a, b ); Energy e = E * electronVolts;
  double P = ch.penetrability( e ), S = ch.shiftFactor( e ), phi = ch.phaseShift( e ); auto k = ch.waveNumber( e );
  cx R = g1 * g1 / cx( e1 - E, -c1 * c1 ) + g2 * g2 / cx( e2 - E, -c2 * c2 );
  cx L = shift ? cx( 0., P ) : cx( S - b, P );
  cx T = P * R / ( 1. - R * L );
  cx U = std::exp( cx( 0., -2. * phi ) ) * ( 1. + cx( 0., 2. ) * T );
  double g = ( 2. * J + 1. ) / 16.;
  auto f = 3.141592653589793 / ( k * k ) * g;
  XS result;
  result[ ch.reactionID() ] = f * std::norm( 1. - U );
  result[ rm::ReactionID( rm::ParticlePairID( "n,U235" ), rm::ParticlePairID( "capture" ) ) ] = f * ( 1. - std::norm( U ) );
  return result;
}
#define ONE_PAR double E, unsigned l, double J, double a, double b, double e1, double g1, double c1, double e2, double g2, double c2
#define ONE_ARG E, l, J, a, b, e1, g1, c1, e2, g2, c2
XS impl_rm1s( ONE_PAR ) { return one< RMG >( ONE_ARG ); }
XS spec_rm1s( ONE_PAR ) { return oneExpected( true, ONE_ARG ); }
XS impl_rm1c( ONE_PAR ) { return one< RMC >( ONE_ARG ); }
XS spec_rm1c( ONE_PAR ) { return oneExpected( false, ONE_ARG ); }

// ---- C19: several channels, written out from the matrix equations with Cramer's rule
struct M3 { cx a[3][3]; };
inline cx det3( const M3& m ) {
  return m.a[0][0] * ( m.a[1][1] * m.a[2][2] - m.a[1][2] * m.a[2][1] ) - m.a[0][1] * ( m.a[1][0] * m.a[2][2] - m.a[1][2] * m.a[2][0] )
       + m.a[0][2] * ( m.a[1][0] * m.a[2][1] - m.a[1][1] * m.a[2][0] );
}
struct Level { double e; double g[3]; double c; };
struct Chan { double P, S, B, phi, w; bool open; };
// T = sqrt(P) ( 1 - R L )^-1 R sqrt(P) for three channels; a channel that is not there is closed and has no widths
inline M3 tmatrix( bool shift, double E, const Chan* ch, const Level* lv, int nlevels ) {
  M3 R, A, T;
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) {
    R.a[i][j] = cx( 0., 0. );
    if ( ch[i].open && ch[j].open ) for ( int n = 0; n < nlevels; ++n ) R.a[i][j] = R.a[i][j] + lv[n].g[i] * lv[n].g[j] / cx( lv[n].e - E, -lv[n].c * lv[n].c );
  }
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
    A.a[i][j] = ( i == j ? 1. : 0. ) - R.a[i][j] * ( shift ? cx( 0., ch[j].P ) : cx( ch[j].S - ch[j].B, ch[j].P ) );
  cx d = det3( A );
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) {
    M3 m = A; for ( int k = 0; k < 3; ++k ) m.a[k][i] = R.a[k][j];
    T.a[i][j] = std::sqrt( ch[i].P ) * ( det3( m ) / d ) * std::sqrt( ch[j].P );
  }
  return T;
}
inline Chan chan( const rm::ParticleChannel& c, double E ) {
  return std::visit( [&] ( const auto& ch ) { Energy e = E * electronVolts; return Chan{ ch.penetrability( e ), ch.shiftFactor( e ), ch.boundaryCondition(), ch.phaseShift( e ), ch.coulombPhaseShift( e ), !ch.belowThreshold( e ) }; }, c );
}
inline cx umatrix( const M3& T, const Chan* ch, int i, int j ) {
  return std::exp( cx( 0., ch[i].w - ch[i].phi ) ) * ( ( i == j ? 1. : 0. ) + cx( 0., 2. ) * T.a[i][j] ) * std::exp( cx( 0., ch[j].w - ch[j].phi ) );
}
template< typename Group > Group makeGroup( std::vector< rm::ParticleChannel > channels, const Level* lv, int nlevels ) {
  std::vector< std::string > ids; int n = channels.size();
  for ( const auto& c : channels ) ids.push_back( std::visit( [] ( const auto& ch ) { return ch.channelID(); }, c ) );
  std::vector< rm::Resonance > rs;
  for ( int i = 0; i < nlevels; ++i ) { std::vector< double > g; for ( int j = 0; j < n; ++j ) g.push_back( lv[i].g[j] ); rs.push_back( resonance( lv[i].e, g, lv[i].c ) ); }
  return Group( std::move( channels ), rm::ResonanceTable( std::move( ids ), std::move( rs ) ) );
}
inline XS expectedXS( bool shift, std::vector< rm::ParticleChannel > channels, const Level* lv, int nlevels, double E, XS before ) {
  Chan ch[3]; int n = channels.size();
  for ( int i = 0; i < 3; ++i ) { if ( i < n ) ch[i] = chan( channels[i], E ); else ch[i] = Chan{ 0., 0., 0., 0., 0., false }; }
  M3 T = tmatrix( shift, E, ch, lv, nlevels );
  XS result = before;
  auto capture = rm::ReactionID( std::visit( [] ( const auto& c ) { return c.incidentParticlePair().pairID(); }, channels[0] ), rm::ParticlePairID( "capture" ) );
  for ( int c = 0; c < n; ++c ) {
    if ( std::visit( [] ( const auto& x ) { return x.particlePair().pairID() == x.incidentParticlePair().pairID(); }, channels[c] ) ) {
      auto f = std::visit( [&] ( const auto& x ) { auto k = x.waveNumber( E * electronVolts ); return 3.141592653589793 / ( k * k ) * x.statisticalSpinFactor(); }, channels[c] );
      double left = 1.;
      for ( int d = 0; d < n; ++d ) {
        cx u = umatrix( T, ch, c, d ); left = left - std::norm( u );
        auto id = std::visit( [] ( const auto& x ) { return x.reactionID(); }, channels[d] );
        result[ id ] = result[ id ] + f * std::norm( ( c == d ? std::exp( cx( 0., 2. * ch[c].w ) ) : cx( 0., 0. ) ) - u );
      }
      result[ capture ] = result[ capture ] + f * left;
    }
  }
  return result;
}
// two levels, up to three channels
#define LV_PAR double e1, double g1, double h1, double k1, double c1, double e2, double g2, double h2, double k2, double c2
#define LV_ARG e1, g1, h1, k1, c1, e2, g2, h2, k2, c2
#define LEVELS Level lv[2] = { { e1, { g1, h1, k1 }, c1 }, { e2, { g2, h2, k2 }, c2 } };
inline std::vector< rm::ParticleChannel > set( unsigned which, unsigned l, double J, double a, double b, double Q ) {
  switch ( which ) {
    case 0 : return { elasticChannel( l, 0.5, J, a, b ), fissionChannel( J ) };
    case 1 : return { elasticChannel( 0, 0.5, J, a, b ), elasticChannel( l, 1.5, J, a + 0.1, b + 1. ), fissionChannel( J ) };
    case 2 : return { fissionChannel( J ), fissionChannel( J, "fission2" ), elasticChannel( l, 0.5, J, a, b ) };
    case 3 : return { elasticChannel( 0, 0.5, J, a, b ), protonChannel( 1, J, 0.7, Q ) };
    case 4 : return { protonElastic( l, J, a ) };
    default : return { elasticChannel( 0, 0.5, J, a, b ), protonChannel( 1, J, 0.7, Q ), fissionChannel( J ) };
  }
}
#define RM3_PAR double E, unsigned which, unsigned l, double J, double a, double b, double Q, LV_PAR
XS impl_rm3s( RM3_PAR ) { LEVELS auto g = makeGroup< RMG >( set( which, l, J, a, b, Q ), lv, 2 ); XS r; g.evaluate( E * electronVolts, r ); return r; }
XS spec_rm3s( RM3_PAR ) { LEVELS return expectedXS( true, set( which, l, J, a, b, Q ), lv, 2, E, XS{} ); }
XS impl_rm3c( RM3_PAR ) { LEVELS auto g = makeGroup< RMC >( set( which, l, J, a, b, Q ), lv, 2 ); XS r; g.evaluate( E * electronVolts, r ); return r; }
XS spec_rm3c( RM3_PAR ) { LEVELS return expectedXS( false, set( which, l, J, a, b, Q ), lv, 2, E, XS{} ); }
using TM = std::map< std::string, cx >;
TM impl_tmat( RM3_PAR ) { LEVELS auto g = makeGroup< RMC >( set( which, l, J, a, b, Q ), lv, 2 ); TM r; g.evaluateTMatrix( E * electronVolts, r ); return r; }
TM spec_tmat( RM3_PAR ) {
  LEVELS auto channels = set( which, l, J, a, b, Q ); Chan ch[3]; int n = channels.size();
  for ( int i = 0; i < 3; ++i ) { if ( i < n ) ch[i] = chan( channels[i], E ); else ch[i] = Chan{ 0., 0., 0., 0., 0., false }; }
  M3 T = tmatrix( false, E, ch, lv, 2 ); TM r;
  for ( int i = 0; i < n; ++i ) for ( int j = 0; j < n; ++j ) {
    auto id = [] ( const auto& c ) { return c.channelID(); };
    r[ std::visit( id, channels[i] ) + "->" + std::visit( id, channels[j] ) ] = T.a[i][j];
  }
  return r;
}
}
