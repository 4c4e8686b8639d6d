// C15: inconsistent resonance data is rejected, consistent data accepted.  A scenario returns the number of channels or groups it built.
namespace vspec {
inline void rejectIf( bool bad ) { if ( bad ) throw std::exception(); }
inline rm::ParticlePair otherTarget() { return rm::ParticlePair( particle( "n", 1., 0., 0.5, +1 ), particle( "Pu239", 239., 0., 0.5, +1 ), rm::ParticlePairID( "n,Pu239" ) ); }
inline rm::Channel< rm::Neutron > nchannel( const rm::ParticlePair& in, const rm::ParticlePair& out, unsigned l, double s, double J, int parity ) {
  return rm::Channel< rm::Neutron >( in, out, 0. * electronVolts, rm::ChannelQuantumNumbers( l, s, J, parity ), radii( 0.5 ) );
}
inline rm::Channel< rm::Fission > fchannel( double J, int parity, const char* id ) {
  return rm::Channel< rm::Fission >( u235(), fissionPair(), id, 0. * electronVolts, rm::ChannelQuantumNumbers( 0, 0., J, parity ), radii( 0.5 ) );
}
inline rm::ResonanceTable rtable( std::vector< std::string > ids, int n ) {
  std::vector< double > w; for ( int i = 0; i < n; ++i ) w.push_back( 1. );
  return rm::ResonanceTable( std::move( ids ), std::vector< rm::Resonance >{ resonance( 10., w, 1. ) } );
}
template< typename Group > int buildGroup( std::vector< rm::ParticleChannel > channels, std::vector< std::string > ids ) {
  int n = ids.size(); Group g( std::move( channels ), rtable( ids, n ) ); return g.resonanceTable().numberChannels();
}
inline std::vector< std::string > idsOf( const std::vector< rm::ParticleChannel >& channels ) {
  std::vector< std::string > ids; for ( const auto& c : channels ) ids.push_back( std::visit( [] ( const auto& ch ) { return ch.channelID(); }, c ) ); return ids;
}
// widths per resonance
int impl_widths( int nc, int n1, int n2, int n3 ) {
  std::vector< std::string > ids; const int n[3] = { n1, n2, n3 }; std::vector< rm::Resonance > rs;
  for ( int i = 0; i < nc; ++i ) ids.push_back( i == 0 ? "a" : i == 1 ? "b" : "c" );
  for ( int j = 0; j < 3; ++j ) { std::vector< double > w; for ( int i = 0; i < n[j]; ++i ) w.push_back( 1. ); if ( n[j] >= 0 ) rs.push_back( resonance( 10. * j, w, 1. ) ); }
  rm::ResonanceTable t( std::move( ids ), std::move( rs ) ); return t.numberResonances();
}
int spec_widths( int nc, int n1, int n2, int n3 ) {
  int r = 0; const int n[3] = { n1, n2, n3 };
  for ( int j = 0; j < 3; ++j ) if ( n[j] >= 0 ) { rejectIf( n[j] != nc ); ++r; }
  return r;
}
// angular momentum and parity
template< typename Group > int impl_jpi( double J1, double J2, double J3, int p1, int p2, int p3 ) {
  std::vector< rm::ParticleChannel > c{ nchannel( u235(), u235(), 1, 3., J1, p1 ), fchannel( J2, p2, "fission1" ), fchannel( J3, p3, "fission2" ) };
  return buildGroup< Group >( c, idsOf( c ) );
}
int impl_jpis( double J1, double J2, double J3, int p1, int p2, int p3 ) { return impl_jpi< RMG >( J1, J2, J3, p1, p2, p3 ); }
int impl_jpic( double J1, double J2, double J3, int p1, int p2, int p3 ) { return impl_jpi< RMC >( J1, J2, J3, p1, p2, p3 ); }
int spec_jpi( double J1, double J2, double J3, int p1, int p2, int p3 ) { rejectIf( J1 != J2 || J1 != J3 || p1 != p2 || p1 != p3 ); return 3; }
// number of channels
template< typename Group > int impl_few( int n ) {
  std::vector< rm::ParticleChannel > c; if ( n >= 1 ) c.push_back( elasticChannel( 0, 3., 3., 0.5 ) ); if ( n >= 2 ) c.push_back( fissionChannel( 3. ) ); if ( n >= 3 ) c.push_back( protonChannel( 0, 3., 0.5, 0. ) );
  return buildGroup< Group >( c, idsOf( c ) );
}
int impl_fews( int n ) { return impl_few< RMG >( n ); }
int impl_fewc( int n ) { return impl_few< RMC >( n ); }
int spec_few( int n ) { rejectIf( n == 0 ); return n; }
// the same channel twice: the same pair and the same quantum numbers
int impl_twice( unsigned l1, unsigned l2, unsigned l3, double s1, double s2, double s3 ) {
  std::vector< rm::ParticleChannel > c{ elasticChannel( l1, s1, 3., 0.5 ), elasticChannel( l2, s2, 3., 0.5 ), elasticChannel( l3, s3, 3., 0.5 ) };
  return buildGroup< RMG >( c, idsOf( c ) );
}
int spec_twice( unsigned l1, unsigned l2, unsigned l3, double s1, double s2, double s3 ) {
  rejectIf( ( l1 == l2 && s1 == s2 ) || ( l1 == l3 && s1 == s3 ) || ( l2 == l3 && s2 == s3 ) ); return 3;
}
// incident pairs: of every channel, and at least one channel leads to it
int impl_incident( bool i1, bool i2, bool o1, bool o2 ) {
  auto a = u235(), b = otherTarget();
  std::vector< rm::ParticleChannel > c{ nchannel( i1 ? a : b, o1 ? a : b, 0, 3., 3., +1 ), nchannel( i2 ? a : b, o2 ? a : b, 1, 3., 3., +1 ) };
  return buildGroup< RMG >( c, idsOf( c ) );
}
int spec_incident( bool i1, bool i2, bool o1, bool o2 ) { rejectIf( i1 != i2 || ( o1 != i1 && o2 != i1 ) ); return 2; }
int impl_exitonly( bool elastic, bool first ) {
  std::vector< rm::ParticleChannel > c; if ( elastic && first ) c.push_back( elasticChannel( 0, 3., 3., 0.5 ) );
  c.push_back( fissionChannel( 3. ) ); c.push_back( protonChannel( 0, 3., 0.5, 0. ) ); if ( elastic && !first ) c.push_back( elasticChannel( 0, 3., 3., 0.5 ) );
  return buildGroup< RMC >( c, idsOf( c ) );
}
int spec_exitonly( bool elastic, bool first ) { rejectIf( !elastic ); return 3; }
// the table lists the channels of the group, in order
template< typename Group > int impl_labels( int a, int b, int c, int n ) {
  std::vector< rm::ParticleChannel > ch{ elasticChannel( 0, 3., 3., 0.5 ), fissionChannel( 3. ), protonChannel( 0, 3., 0.5, 0. ) };
  auto all = idsOf( ch ); const int k[3] = { a, b, c }; std::vector< std::string > ids;
  for ( int i = 0; i < n; ++i ) { if ( i >= 3 || k[i] > 2 ) ids.push_back( "other" ); else ids.push_back( all[ k[i] ] ); }
  return buildGroup< Group >( ch, ids );
}
int impl_labelss( int a, int b, int c, int n ) { return impl_labels< RMG >( a, b, c, n ); }
int impl_labelsc( int a, int b, int c, int n ) { return impl_labels< RMC >( a, b, c, n ); }
int spec_labels( int a, int b, int c, int n ) { rejectIf( n != 3 || a != 0 || b != 1 || c != 2 ); return 3; }
// systems
template< typename Sys, typename Group > int impl_system( int n, double J1, double J2, double J3, int p1, int p2, int p3 ) {
  const double J[3] = { J1, J2, J3 }; const int p[3] = { p1, p2, p3 }; std::vector< Group > groups;
  for ( int i = 0; i < n; ++i ) { std::vector< rm::ParticleChannel > c{ nchannel( u235(), u235(), 1, 3., J[i], p[i] ), fchannel( J[i], p[i], "fission1" ) }; auto ids = idsOf( c ); groups.push_back( Group( std::move( c ), rtable( ids, 2 ) ) ); }
  Sys s( std::move( groups ) ); int r = 0; for ( const auto& g : s.spinGroups() ) r = r + 1; return r;
}
#define JP_PAR int n, double J1, double J2, double J3, int p1, int p2, int p3
#define JP_ARG n, J1, J2, J3, p1, p2, p3
int impl_systems( JP_PAR ) { return impl_system< RSYS, RMG >( JP_ARG ); }
int impl_systemc( JP_PAR ) { return impl_system< CSYS, RMC >( JP_ARG ); }
int spec_system( JP_PAR ) {
  rejectIf( n == 0 ); if ( n >= 2 ) rejectIf( J1 == J2 && p1 == p2 ); if ( n >= 3 ) rejectIf( ( J1 == J3 && p1 == p3 ) || ( J2 == J3 && p2 == p3 ) ); return n;
}
#define LJ_PAR int n, unsigned l1, unsigned l2, unsigned l3, double J1, double J2, double J3
#define LJ_ARG n, l1, l2, l3, J1, J2, J3
template< typename F > int impl_lj( LJ_PAR ) {
  const double J[3] = { J1, J2, J3 }; const unsigned l[3] = { l1, l2, l3 }; std::vector< lr::SpinGroup< F > > groups; BW b[1] = { { 10., 1., 1., 1., 1., 1., 1., 1. } };
  for ( int i = 0; i < n; ++i ) groups.push_back( bwgroup< F >( l[i], J[i], 0.5, 0., b, 1 ) );
  lr::CompoundSystem< F > s( std::move( groups ) ); int r = 0; for ( const auto& g : s.spinGroups() ) r = r + 1; return r;
}
int impl_ljs( LJ_PAR ) { return impl_lj< SL >( LJ_ARG ); }
int impl_ljm( LJ_PAR ) { return impl_lj< ML >( LJ_ARG ); }
int impl_lju( LJ_PAR ) {
  const double J[3] = { J1, J2, J3 }; const unsigned l[3] = { l1, l2, l3 }; std::vector< lu::SpinGroup > groups;
  for ( int i = 0; i < n; ++i ) groups.push_back( ugridgroup( l[i], J[i], 100., 200. ) );
  lu::CompoundSystem s( std::move( groups ) ); int r = 0; for ( const auto& g : s.spinGroups() ) r = r + 1; return r;
}
int spec_lj( LJ_PAR ) {
  rejectIf( n == 0 ); if ( n >= 2 ) rejectIf( l1 == l2 && J1 == J2 ); if ( n >= 3 ) rejectIf( ( l1 == l3 && J1 == J3 ) || ( l2 == l3 && J2 == J3 ) ); return n;
}
// unresolved tables
int impl_utable( int n, unsigned mu, unsigned ga, unsigned nu, unsigned la ) {
  std::vector< lu::Resonance > rs; for ( int i = 0; i < n; ++i ) rs.push_back( ures( 100. * ( i + 1 ), 1., 1., 1., 1., 1. ) );
  lu::ResonanceTable t( std::move( rs ), lu::Degrees( mu, ga, nu, la ) ); return t.numberResonances();
}
int spec_utable( int n, unsigned mu, unsigned ga, unsigned nu, unsigned la ) { rejectIf( n < 2 || mu > 4 || ga > 4 || nu > 4 || la > 4 ); return n; }
// channel data
int impl_cdata( int n, int m, bool eliminated ) {
  std::vector< Energy > e; std::vector< rr::ReducedWidth > w; for ( int i = 0; i < n; ++i ) e.push_back( ( 1. + i ) * electronVolts ); for ( int i = 0; i < m; ++i ) w.push_back( ( 1. + i ) * rr::rootElectronVolt );
  rm::ParticleChannelData d( elasticChannel( 0, 3., 3., 0.5 ), std::move( e ), std::move( w ), eliminated ); int r = 0; for ( const auto& x : d.energies() ) r = r + 1; return r;
}
int spec_cdata( int n, int m, bool eliminated ) { rejectIf( n != m ); return n; }
inline rm::ParticleChannelData cdata( rm::ParticleChannel c, double e, double w, bool eliminated ) {
  return rm::ParticleChannelData( c, std::vector< Energy >{ e * electronVolts }, std::vector< rr::ReducedWidth >{ w * rr::rootElectronVolt }, eliminated );
}
template< typename Group > int impl_elim( bool a, bool b, bool c ) {
  Group g( std::vector< rm::ParticleChannelData >{ cdata( elasticChannel( 0, 3., 3., 0.5 ), 1., 1., false ), cdata( fissionChannel( 3. ), 1., 2., a ), cdata( protonChannel( 0, 3., 0.5, 0. ), 1., 2., b ), cdata( protonChannel( 1, 3., 0.5, 0. ), 1., 2., c ) } );
  return g.resonanceTable().numberChannels();
}
int impl_elims( bool a, bool b, bool c ) { return impl_elim< RMG >( a, b, c ); }
int impl_elimc( bool a, bool b, bool c ) { return impl_elim< RMC >( a, b, c ); }
int spec_elim( bool a, bool b, bool c ) { int n = a + b + c; rejectIf( n > 1 ); return 4 - n; }
}
