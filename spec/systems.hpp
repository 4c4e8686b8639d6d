// Accumulation over spin groups and systems, reconstructors, grids, construction checks.
namespace vspec {
inline XS before( double x, double y, double z ) {
  auto barns = 1. * barn; XS r; r[ bwid( "elastic" ) ] = x * barns; r[ bwid( "capture" ) ] = y * barns; r[ bwid( "other" ) ] = z * barns; return r;
}
inline void addTo( XS& r, const XS& t ) { for ( const auto& p : t ) r[ p.first ] = r[ p.first ] + p.second; }
template< typename Group > XS apart( Group& g, double E ) { XS t; g.evaluate( E * electronVolts, t ); return t; }
// ---- C14: a spin group adds to what is there
#define PRE_PAR double x, double y, double z
template< typename Group > XS accumulated( Group g, double E, PRE_PAR ) { XS r = before( x, y, z ); g.evaluate( E * electronVolts, r ); return r; }
template< typename Group > XS expectedSum( Group g, double E, PRE_PAR ) { XS r = before( x, y, z ); addTo( r, apart( g, E ) ); return r; }
XS impl_accrs( PRE_PAR, RM3_PAR ) { LEVELS return accumulated( makeGroup< RMG >( set( which, l, J, a, b, Q ), lv, 2 ), E, x, y, z ); }
XS spec_accrs( PRE_PAR, RM3_PAR ) { LEVELS return expectedSum( makeGroup< RMG >( set( which, l, J, a, b, Q ), lv, 2 ), E, x, y, z ); }
XS impl_accrc( PRE_PAR, RM3_PAR ) { LEVELS return accumulated( makeGroup< RMC >( set( which, l, J, a, b, Q ), lv, 2 ), E, x, y, z ); }
XS spec_accrc( PRE_PAR, RM3_PAR ) { LEVELS return expectedSum( makeGroup< RMC >( set( which, l, J, a, b, Q ), lv, 2 ), E, x, y, z ); }
TM impl_acct( double x, RM3_PAR ) { LEVELS auto g = makeGroup< RMC >( set( which, l, J, a, b, Q ), lv, 2 ); TM r; r[ "other" ] = cx( x, 1. ); g.evaluateTMatrix( E * electronVolts, r ); return r; }
TM spec_acct( double x, RM3_PAR ) { LEVELS auto g = makeGroup< RMC >( set( which, l, J, a, b, Q ), lv, 2 ); TM r; g.evaluateTMatrix( E * electronVolts, r ); r[ "other" ] = cx( x, 1. ); return r; }
XS impl_accsl( PRE_PAR, BW_PAR ) { BWS return accumulated( bwgroup< SL >( l, J, a, qx, b, 2 ), E, x, y, z ); }
XS spec_accsl( PRE_PAR, BW_PAR ) { BWS return expectedSum( bwgroup< SL >( l, J, a, qx, b, 2 ), E, x, y, z ); }
XS impl_accml( PRE_PAR, BW_PAR ) { BWS return accumulated( bwgroup< ML >( l, J, a, qx, b, 2 ), E, x, y, z ); }
XS spec_accml( PRE_PAR, BW_PAR ) { BWS return expectedSum( bwgroup< ML >( l, J, a, qx, b, 2 ), E, x, y, z ); }
// ---- C14: systems are the sum over their spin groups, whatever the order
using RSYS = rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor >; using CSYS = rm::CompoundSystem< rm::ReichMoore, rm::Constant >;
template< typename Group > Group rgroup( double J, unsigned l, double a, double e, double g, double h, double c ) {
  Level lv[1] = { { e, { g, h, 0. }, c } }; return makeGroup< Group >( { elasticChannel( l, 0.5, J, a, 0. ), fissionChannel( J ) }, lv, 1 );
}
#define SYS_PAR double E, int order, double a, double e1, double g1, double h1, double c1, double e2, double g2, double h2, double c2, double e3, double g3, double h3, double c3
template< typename Group > std::vector< Group > rgroups( SYS_PAR ) {
  auto p = rgroup< Group >( 3., 0, a, e1, g1, h1, c1 ); auto q = rgroup< Group >( 4., 0, a, e2, g2, h2, c2 ); auto r = rgroup< Group >( 5., 2, a, e3, g3, h3, c3 );
  if ( order == 0 ) return { p }; if ( order == 1 ) return { p, q }; if ( order == 2 ) return { q, p }; if ( order == 3 ) return { p, q, r }; return { r, p, q };
}
#define SYS_ARG E, order, a, e1, g1, h1, c1, e2, g2, h2, c2, e3, g3, h3, c3
XS impl_rsys( PRE_PAR, SYS_PAR ) { RSYS s( rgroups< RMG >( SYS_ARG ) ); XS r = before( x, y, z ); s.evaluate( E * electronVolts, r ); return r; }
XS spec_rsys( PRE_PAR, SYS_PAR ) { auto gs = rgroups< RMG >( SYS_ARG ); XS r = before( x, y, z ); for ( auto& g : gs ) addTo( r, apart( g, E ) ); return r; }
XS impl_csys( PRE_PAR, SYS_PAR ) { CSYS s( rgroups< RMC >( SYS_ARG ) ); XS r = before( x, y, z ); s.evaluate( E * electronVolts, r ); return r; }
XS spec_csys( PRE_PAR, SYS_PAR ) { auto gs = rgroups< RMC >( SYS_ARG ); XS r = before( x, y, z ); for ( auto& g : gs ) addTo( r, apart( g, E ) ); return r; }
TM impl_tsys( SYS_PAR ) { CSYS s( rgroups< RMC >( SYS_ARG ) ); TM r; s.evaluateTMatrix( E * electronVolts, r ); return r; }
TM spec_tsys( SYS_PAR ) { auto gs = rgroups< RMC >( SYS_ARG ); TM r; for ( auto& g : gs ) g.evaluateTMatrix( E * electronVolts, r ); return r; }
#define BSY_PAR double E, int order, unsigned l, double a, double e1, double n1, double g1, double f1, double P1, double S1, double e2, double n2, double g2, double f2, double P2, double S2
#define BSY_ARG E, order, l, a, e1, n1, g1, f1, P1, S1, e2, n2, g2, f2, P2, S2
template< typename F > std::vector< lr::SpinGroup< F > > bgroups( BSY_PAR ) {
  BW p[1] = { { e1, n1, g1, f1, 0., P1, 1., S1 } }, q[1] = { { e2, n2, g2, f2, 0., P2, 1., S2 } };
  auto u = bwgroup< F >( 0, 3., a, 0., p, 1 ); auto v = bwgroup< F >( l, 4., a, 0., q, 1 ); auto w = bwgroup< F >( l, 5., a, 0., p, 1 );
  if ( order == 0 ) return { v }; if ( order == 1 ) return { u, v }; if ( order == 2 ) return { v, u }; if ( order == 3 ) return { u, v, w }; return { w, u, v };
}
inline auto potential( double E, unsigned lmax, double a ) {
  auto ch = elasticChannel( 0, 0.5, 3., a ); auto k = ch.waveNumber( E * electronVolts ); double rho = k * ( 3. * a * rr::rootBarn ), v = 0.;
  for ( unsigned i = 0; i <= lmax; ++i ) { double p = std::sin( rm::calculatePhaseShift< rm::Neutron >( i, rho, 0. ) ); v = v + ( 2. * i + 1. ) * p * p; }
  CrossSection r = 4. * 3.141592653589793 / ( k * k ) * v; return r;
}
template< typename F > XS bsum( PRE_PAR, BSY_PAR ) {
  auto gs = bgroups< F >( BSY_ARG ); XS r = before( x, y, z ); for ( auto& g : gs ) addTo( r, apart( g, E ) );
  r[ bwid( "elastic" ) ] = r[ bwid( "elastic" ) ] + potential( E, l, a ); return r;
}
template< typename F > XS bsys( PRE_PAR, BSY_PAR ) { lr::CompoundSystem< F > s( bgroups< F >( BSY_ARG ) ); XS r = before( x, y, z ); s.evaluate( E * electronVolts, r ); return r; }
XS impl_slsys( PRE_PAR, BSY_PAR ) { return bsys< SL >( x, y, z, BSY_ARG ); }
XS spec_slsys( PRE_PAR, BSY_PAR ) { return bsum< SL >( x, y, z, BSY_ARG ); }
XS impl_mlsys( PRE_PAR, BSY_PAR ) { return bsys< ML >( x, y, z, BSY_ARG ); }
XS spec_mlsys( PRE_PAR, BSY_PAR ) { return bsum< ML >( x, y, z, BSY_ARG ); }
}
