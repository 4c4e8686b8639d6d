// Breit-Wigner (resolved) and unresolved spin groups and systems.
namespace vspec {
namespace lg = rm::legacy; namespace lr = rm::legacy::resolved; namespace lu = rm::legacy::unresolved;
using BWR = lr::Resonance;
inline lr::Resonance bwres( double e, double n, double g, double f, double x, double P, double Q, double S ) {
  return lr::Resonance( e * electronVolts, n * electronVolts, g * electronVolts, f * electronVolts, x * electronVolts, P, Q, S );
}
struct BW { double e, n, g, f, x, P, Q, S; };
struct BWT { double n, x, tot, tot0, ep, P, S; };
BWT impl_bwres( double e, double n, double g, double f, double x, double P, double Q, double S, double p, double q, double s ) {
  auto r = bwres( e, n, g, f, x, P, Q, S ); auto eV = 1. * electronVolts;
  return { r.elastic( p ) / eV, r.competition( q ) / eV, r.total( p, q ) / eV, r.total() / eV, r.energyPrime( s ) / eV, r.penetrability(), r.shiftfactor() };
}
BWT spec_bwres( double e, double n, double g, double f, double x, double P, double Q, double S, double p, double q, double s ) {
  return { n * p / P, x * q / Q, n * p / P + g + f + x * q / Q, n + g + f + x, e + n / P * ( S - s ) / 2., P, S };
}
template< typename F > lr::SpinGroup< F > bwgroup( unsigned l, double J, double a, double qx, const BW* b, int n ) {
  std::vector< lr::Resonance > rs; for ( int i = 0; i < n; ++i ) rs.push_back( bwres( b[i].e, b[i].n, b[i].g, b[i].f, b[i].x, b[i].P, b[i].Q, b[i].S ) );
  return lr::SpinGroup< F >( elasticChannel( l, 0.5, J, a ), lr::ResonanceTable( std::move( rs ) ), qx * electronVolts );
}
inline rm::ReactionID bwid( const char* t ) { return rm::ReactionID( rm::ParticleID( "n" ), rm::ParticleID( "U235" ), rm::ReactionType( t ) ); }
// qsign: -1 for the unrepaired sign of the competitive Q value (known finding), +1 for the ENDF definition
inline void bwadd( bool multi, unsigned l, double J, double a, double qx, const BW* b, int n, double E, XS& r, bool endf ) {
  auto ch = elasticChannel( l, 0.5, J, a ); Energy e = E * electronVolts;
  double p = ch.penetrability( e ), s = ch.shiftFactor( e ), phi = ch.phaseShift( e );
  double q = qx == 0. ? p : ch.penetrability( endf ? e + qx / ( 235. / 236. ) * electronVolts : e - qx * electronVolts );
  auto k = ch.waveNumber( e ); auto f = 3.141592653589793 / ( k * k ) * ( ( 2. * J + 1. ) / 16. );
  double el = 0., ca = 0., fi = 0.;
  for ( int i = 0; i < n; ++i ) {
    double gn = b[i].n * p / b[i].P, gt = gn + b[i].g + b[i].f + b[i].x * q / b[i].Q, d = E - ( b[i].e + b[i].n / b[i].P * ( b[i].S - s ) / 2. );
    double den = d * d + gt * gt / 4.;
    el = el + gn * ( gn - 2. * gt * std::sin( phi ) * std::sin( phi ) + 2. * d * std::sin( 2. * phi ) ) / den;
    ca = ca + gn * b[i].g / den; fi = fi + gn * b[i].f / den;
    if ( multi ) for ( int j = 0; j < i; ++j ) {
      double gm = b[j].n * p / b[j].P, gu = gm + b[j].g + b[j].f + b[j].x * q / b[j].Q, h = E - ( b[j].e + b[j].n / b[j].P * ( b[j].S - s ) / 2. );
      el = el + 2. * gn * gm * ( d * h + gt * gu / 4. ) / den / ( h * h + gu * gu / 4. );
    }
  }
  r[ bwid( "elastic" ) ] = r[ bwid( "elastic" ) ] + f * el; r[ bwid( "capture" ) ] = r[ bwid( "capture" ) ] + f * ca;
  r[ bwid( "fission" ) ] = r[ bwid( "fission" ) ] + f * fi;
}
#define BW_PAR double E, unsigned l, double J, double a, double qx, double e1, double n1, double g1, double f1, double x1, double P1, double Q1, double S1, double e2, double n2, double g2, double f2, double x2, double P2, double Q2, double S2
#define BW_ARG E, l, J, a, qx, e1, n1, g1, f1, x1, P1, Q1, S1, e2, n2, g2, f2, x2, P2, Q2, S2
#define BWS BW b[2] = { { e1, n1, g1, f1, x1, P1, Q1, S1 }, { e2, n2, g2, f2, x2, P2, Q2, S2 } };
using SL = rm::SingleLevelBreitWigner; using ML = rm::MultiLevelBreitWigner;
template< typename F > XS bweval( BW_PAR ) { BWS auto g = bwgroup< F >( l, J, a, qx, b, 2 ); XS r; g.evaluate( E * electronVolts, r ); return r; }
XS impl_slbw( BW_PAR ) { return bweval< SL >( BW_ARG ); }
XS spec_slbw( BW_PAR ) { BWS XS r; bwadd( false, l, J, a, qx, b, 2, E, r, true ); return r; }
XS known_slbw( BW_PAR ) { BWS XS r; bwadd( false, l, J, a, qx, b, 2, E, r, false ); return r; }
XS impl_mlbw( BW_PAR ) { return bweval< ML >( BW_ARG ); }
XS spec_mlbw( BW_PAR ) { BWS XS r; bwadd( true, l, J, a, qx, b, 2, E, r, true ); return r; }
XS known_mlbw( BW_PAR ) { BWS XS r; bwadd( true, l, J, a, qx, b, 2, E, r, false ); return r; }
// no fissile resonances: no fission entry
XS impl_bwnf( double E, double a, double e, double n, double g, double P, double S ) {
  BW b[1] = { { e, n, g, 0., 0., P, 1., S } }; auto s = bwgroup< SL >( 0, 3., a, 0., b, 1 ); XS r; s.evaluate( E * electronVolts, r ); return r;
}
XS spec_bwnf( double E, double a, double e, double n, double g, double P, double S ) {
  BW b[1] = { { e, n, g, 0., 0., P, 1., S } }; XS t, r; bwadd( false, 0, 3., a, 0., b, 1, E, t, true );
  r[ bwid( "elastic" ) ] = t[ bwid( "elastic" ) ]; r[ bwid( "capture" ) ] = t[ bwid( "capture" ) ]; return r;
}
// records of per-reaction data: sums and presence, component by component
using R4 = std::tuple< double, double, double, double >;
template< typename Q > inline R4 parts( const lg::Data< Q >& d ) { return { 1. * d.elastic, 1. * d.capture, 1. * d.fission, 1. * d.competition }; }
R4 impl_data_sum( int op, double a, double b, double c, double d, double x, double y, double z, double w ) {
  lg::Data< double > l( a, b, c, d ); const lg::Data< double > r( x, y, z, w );
  switch ( op ) {
    case 0 : return parts( l + r ); case 1 : return parts( l - r );
    case 2 : { auto& s = ( l += r ); s += r; return parts( l ); }
    case 3 : { auto& s = ( l -= r ); s -= r; return parts( l ); }
    case 4 : return parts( l + l - r ); default : { l += l; return parts( l ); }
  }
}
R4 spec_data_sum( int op, double a, double b, double c, double d, double x, double y, double z, double w ) {
  double k = op == 4 || op == 5 ? 2. : 1., m = op == 0 ? 1. : op == 1 ? -1. : op == 2 ? 2. : op == 3 ? -2. : op == 4 ? -1. : 0.;
  return { k * a + m * x, k * b + m * y, k * c + m * z, k * d + m * w };
}
R4 impl_data_unchanged( double a, double b, double c, double d, double x, double y, double z, double w ) {
  const lg::Data< double > l( a, b, c, d ), r( x, y, z, w ); auto s = l + r; auto t = l - r; s += t; t -= l;
  return parts( lg::Data< double >( l.elastic + 2. * r.elastic, l.capture + 2. * r.capture, l.fission + 2. * r.fission, l.competition + 2. * r.competition ) );
}
R4 spec_data_unchanged( double a, double b, double c, double d, double x, double y, double z, double w ) { return { a + 2. * x, b + 2. * y, c + 2. * z, d + 2. * w }; }
std::array< bool, 4 > impl_data_has( double a, double b, double c, double d ) { lg::Data< double > l( a, b, c, d ); return {{ l.hasElastic(), l.hasCapture(), l.hasFission(), l.hasCompetition() }}; }
std::array< bool, 4 > spec_data_has( double a, double b, double c, double d ) { return {{ a != 0., b != 0., c != 0., d != 0. }}; }
std::array< bool, 4 > impl_data_hasq( double a, double b, double c, double d ) { auto e = 1. * electronVolts; lg::Data< Energy > l( a * e, b * e, c * e, d * e ); return {{ l.hasElastic(), l.hasCapture(), l.hasFission(), l.hasCompetition() }}; }
std::array< bool, 4 > impl_data_hasu( unsigned int a, unsigned int b, unsigned int c, unsigned int d ) { lg::Data< unsigned int > l( a, b, c, d ); return {{ l.hasElastic(), l.hasCapture(), l.hasFission(), l.hasCompetition() }}; }
std::array< bool, 4 > spec_data_hasu( unsigned int a, unsigned int b, unsigned int c, unsigned int d ) { return {{ a != 0, b != 0, c != 0, d != 0 }}; }
}
