// Energy grids and reconstructors.
namespace vspec {
using ES = std::vector< Energy >;
inline ES ordered( ES g ) { g |= ranges::action::sort | ranges::action::unique; return g; }
inline void around( ES& g, double e, double total ) {
  if ( e > 0. ) { g.push_back( ( e - total / 2. ) * electronVolts ); g.push_back( e * electronVolts ); g.push_back( ( e + total / 2. ) * electronVolts ); }
}
// ---- C25: Reich-Moore spin groups
inline double rmTotal( const std::vector< rm::ParticleChannel >& channels, const Level& lv ) {
  double t = 2. * lv.c * lv.c; int n = channels.size();
  for ( int i = 0; i < n; ++i ) { double p = std::visit( [&] ( const auto& c ) { return c.penetrability( lv.e * electronVolts ); }, channels[i] ); t = t + 2. * p * lv.g[i] * lv.g[i]; }
  return t;
}
#define RG_PAR unsigned which, unsigned l, double J, double a, double b, double Q, LV_PAR
ES impl_rmgrid( RG_PAR ) { LEVELS return makeGroup< RMG >( set( which, l, J, a, b, Q ), lv, 2 ).grid(); }
ES spec_rmgrid( RG_PAR ) { LEVELS ES g; auto c = set( which, l, J, a, b, Q ); for ( int i = 0; i < 2; ++i ) around( g, lv[i].e, rmTotal( c, lv[i] ) ); return ordered( g ); }
ES impl_rmcgrid( RG_PAR ) { LEVELS return makeGroup< RMC >( set( which, l, J, a, b, Q ), lv, 1 ).grid(); }
ES spec_rmcgrid( RG_PAR ) { LEVELS ES g; auto c = set( which, l, J, a, b, Q ); around( g, lv[0].e, rmTotal( c, lv[0] ) ); return ordered( g ); }
// ---- C25: Breit-Wigner spin groups
#define BG_PAR unsigned l, double e1, double n1, double g1, double f1, double x1, double e2, double n2, double g2, double f2, double x2
#define BGS BW b[2] = { { e1, n1, g1, f1, x1, 0.25, 0.5, -1. }, { e2, n2, g2, f2, x2, 0.75, 0.125, -2. } };
ES impl_slgrid( BG_PAR ) { BGS return bwgroup< SL >( l, 3., 0.5, 0., b, 2 ).grid(); }
ES impl_mlgrid( BG_PAR ) { BGS return bwgroup< ML >( l, 3., 0.5, 0., b, 2 ).grid(); }
ES spec_slgrid( BG_PAR ) { ES g; around( g, e1, n1 + g1 + f1 + x1 ); around( g, e2, n2 + g2 + f2 + x2 ); return ordered( g ); }
// ---- C25: systems
inline void append( ES& g, const ES& h ) { for ( const auto& e : h ) g.push_back( e ); }
template< typename Sys, typename Group > ES sysgrid( SYS_PAR ) { return Sys( rgroups< Group >( SYS_ARG ) ).grid(); }
template< typename Group > ES sysgrids( SYS_PAR ) { ES r; for ( const auto& g : rgroups< Group >( SYS_ARG ) ) append( r, g.grid() ); return ordered( r ); }
ES impl_rsgrid( SYS_PAR ) { return sysgrid< RSYS, RMG >( SYS_ARG ); }
ES spec_rsgrid( SYS_PAR ) { return sysgrids< RMG >( SYS_ARG ); }
ES impl_csgrid( SYS_PAR ) { return sysgrid< CSYS, RMC >( SYS_ARG ); }
ES spec_csgrid( SYS_PAR ) { return sysgrids< RMC >( SYS_ARG ); }
template< typename F > ES bsysgrid( BSY_PAR ) { return lr::CompoundSystem< F >( bgroups< F >( BSY_ARG ) ).grid(); }
template< typename F > ES bsysgrids( BSY_PAR ) { ES r; for ( const auto& g : bgroups< F >( BSY_ARG ) ) append( r, g.grid() ); return ordered( r ); }
ES impl_slsgrid( BSY_PAR ) { return bsysgrid< SL >( BSY_ARG ); }
ES spec_slsgrid( BSY_PAR ) { return bsysgrids< SL >( BSY_ARG ); }
ES impl_mlsgrid( BSY_PAR ) { return bsysgrid< ML >( BSY_ARG ); }
ES spec_mlsgrid( BSY_PAR ) { return bsysgrids< ML >( BSY_ARG ); }
// ---- C25: the unresolved grid.  Every energy of e1..e4 lies in a known cell of the lattice of standard points.
struct GridFacts { bool increasing, holds, lattice, close; };
inline lu::SpinGroup ugridgroup( unsigned l, double J, double e, double f ) {
  return lu::SpinGroup( elasticChannel( l, 0.5, J, 0.5 ), lu::ResonanceTable( std::vector< lu::Resonance >{ ures( e, 1., 1., 1., 0., 0. ), ures( f, 1., 1., 1., 0., 0. ) }, lu::Degrees( 1, 2, 0, 0 ) ) );
}
inline ES ugrid( double e1, double e2, double e3, double e4 ) {
  lu::CompoundSystem s( std::vector< lu::SpinGroup >{ ugridgroup( 0, 3., e1, e2 ), ugridgroup( 1, 4., e3, e4 ) } ); return s.grid();
}
GridFacts impl_ugrid( double e1, double e2, double e3, double e4 ) {
  const double pts[13] = { 1.0, 1.25, 1.5, 1.7, 2.0, 2.5, 3.0, 3.5, 4.0, 5.0, 6.0, 7.2, 8.5 }, dec[5] = { 1., 10., 100., 1000., 10000. }, given[4] = { e1, e2, e3, e4 };
  ES g = ugrid( e1, e2, e3, e4 ); int n = g.size(); GridFacts r{ true, true, true, true };
  for ( int i = 0; i + 1 < n; ++i ) { r.increasing = r.increasing && g[i] < g[i+1]; r.close = r.close && g[i+1] / g[i] <= 1.25; }
  for ( int j = 0; j < 4; ++j ) { bool in = false; for ( int i = 0; i < n; ++i ) in = in || g[i] == given[j] * electronVolts; r.holds = r.holds && in; }
  for ( int i = 0; i < n; ++i ) {
    bool ok = false; for ( int j = 0; j < 4; ++j ) ok = ok || g[i] == given[j] * electronVolts;
    for ( int d = 0; d < 5; ++d ) for ( int k = 0; k < 13; ++k ) ok = ok || g[i] == pts[k] * dec[d] * electronVolts;
    r.lattice = r.lattice && ok;
  }
  return r;
}
GridFacts spec_ugrid( double e1, double e2, double e3, double e4 ) { return { true, true, true, true }; }
GridFacts impl_ugrid2( double e1, double e2 ) { return impl_ugrid( e1, e2, e1, e2 ); }
GridFacts spec_ugrid2( double e1, double e2 ) { return { true, true, true, true }; }
// ---- C18: reconstructors
inline rm::CompoundSystemVariant anySystem( unsigned kind, double e, double g, double h, double c ) {
  BW b[1] = { { e, g, h, c, 0., 0.5, 1., -1. } }; auto eV = 1. * electronVolts;
  switch ( kind ) {
    case 0 : return lr::CompoundSystem< SL >( std::vector< lr::SpinGroup< SL > >{ bwgroup< SL >( 0, 3., 0.5, 0., b, 1 ) } );
    case 1 : return lr::CompoundSystem< ML >( std::vector< lr::SpinGroup< ML > >{ bwgroup< ML >( 0, 3., 0.5, 0., b, 1 ) } );
    case 2 : return RSYS( std::vector< RMG >{ rgroup< RMG >( 3., 0, 0.5, e, g, h, c ) } );
    case 3 : return CSYS( std::vector< RMC >{ rgroup< RMC >( 3., 0, 0.5, e, g, h, c ) } );
    default : return lu::CompoundSystem( std::vector< lu::SpinGroup >{ lu::SpinGroup( elasticChannel( 0, 0.5, 3., 0.5 ),
      lu::ResonanceTable( std::vector< lu::Resonance >{ ures( e, 1., g, h, 0., 0. ), ures( e + 15., 2., g, h, 0., 0. ) }, lu::Degrees( 1, 2, 0, 0 ) ) ) } );
  }
}
#define REC_PAR double lo, double hi, unsigned kind, double e, double g, double h, double c
XS impl_rec( double E, REC_PAR ) { rm::Reconstructor r( lo * electronVolts, hi * electronVolts, anySystem( kind, e, g, h, c ) ); return r( E * electronVolts ); }
XS spec_rec( double E, REC_PAR ) {
  XS r; if ( E < lo || E > hi ) return r;
  auto s = anySystem( kind, e, g, h, c ); std::visit( [&] ( auto& x ) { x.evaluate( E * electronVolts, r ); }, s ); return r;
}
struct RecFacts { Energy lower, upper; bool resolved, unresolved; ES grid; };
RecFacts impl_recf( REC_PAR ) {
  rm::Reconstructor r( lo * electronVolts, hi * electronVolts, anySystem( kind, e, g, h, c ) );
  return { r.lowerEnergy(), r.upperEnergy(), r.isResolved(), r.isUnresolved(), r.grid() };
}
RecFacts spec_recf( REC_PAR ) {
  auto s = anySystem( kind, e, g, h, c ); ES all = std::visit( [] ( const auto& x ) -> ES { return x.grid(); }, s ), in;
  for ( const auto& x : all ) if ( x >= lo * electronVolts && x <= hi * electronVolts ) in.push_back( x );
  return { lo * electronVolts, hi * electronVolts, kind != 4, kind == 4, in };
}
}
