// Unresolved resonances: fluctuation integrals, their quadrature tables and the cross sections.
namespace vspec {
// ten-point quadratures of the chi-squared distribution with 1..4 degrees of freedom (NJOY / ENDF-102), transcribed
inline double chiw( int i, unsigned d ) {
  static const double t[4][10] = {
    { 1.1120413e-1, 2.3546798e-1, 2.8440987e-1, 2.2419127e-1, 0.10967668, 0.030493789, 0.0042930874, 2.5827047e-4, 4.9031965e-6, 1.4079206e-8 },
    { 0.033773418, 0.079932171, 0.12835937, 0.17652616, 0.21347043, 0.21154965, 0.13365186, 0.022630659, 1.6313638e-5, 2.745383e-31 },
    { 3.3376214e-4, 0.018506108, 0.12309946, 0.29918923, 0.33431475, 0.17766657, 0.042695894, 4.0760575e-3, 1.1766115e-4, 5.0989546e-7 },
    { 1.7623788e-3, 0.021517749, 0.080979849, 0.18797998, 0.30156335, 0.29616091, 0.10775649, 2.5171914e-3, 8.9630388e-10, 0. } };
  return t[ d - 1 ][ i ];
}
inline double chiq( int i, unsigned d ) {
  static const double t[4][10] = {
    { 3.0013465e-3, 7.8592886e-2, 4.3282415e-1, 1.3345267, 3.0481846, 5.8263198, 9.9452656, 15.782128, 23.996824, 36.216208 },
    { 1.3219203e-2, 7.2349624e-2, 0.19089473, 0.39528842, 0.74083443, 1.3498293, 2.5297983, 5.2384894, 13.821772, 75.647525 },
    { 1.0004488e-3, 2.6197629e-2, 0.14427472, 0.44484223, 1.0160615, 1.9421066, 3.3150885, 5.2607092, 7.9989414, 12.072069 },
    { 1.3219203e-2, 7.2349624e-2, 0.19089473, 0.39528842, 0.74083443, 1.3498293, 2.5297983, 5.2384894, 13.821772, 75.647525 } };
  return t[ d - 1 ][ i ];
}
struct FI { double n, g, f, x; };
inline FI fluct( double n, double g, double f, double x, unsigned mu, unsigned nu, unsigned la ) {
  if ( mu == 0 ) mu = 1; if ( nu == 0 ) nu = 1; if ( la == 0 ) la = 1;
  FI r{ 0., 0., 0., 0. }; int nj = f != 0. ? 10 : 1, nk = x != 0. ? 10 : 1;
  for ( int i = 0; i < 10; ++i ) for ( int j = 0; j < nj; ++j ) for ( int k = 0; k < nk; ++k ) {
    double w = chiw( i, mu ) * ( nj == 10 ? chiw( j, nu ) : 1. ) * ( nk == 10 ? chiw( k, la ) : 1. ), q = chiq( i, mu );
    double s = q * n + g + ( nj == 10 ? chiq( j, nu ) * f : 0. ) + ( nk == 10 ? chiq( k, la ) * x : 0. );
    r.n = r.n + w * q * q / s; r.g = r.g + w * q / s;
    if ( nj == 10 ) r.f = r.f + w * q * chiq( j, nu ) / s;
    if ( nk == 10 ) r.x = r.x + w * q * chiq( k, la ) / s;
  }
  return r;
}
#define FL_PAR double n, double g, double f, double x, unsigned mu, unsigned nu, unsigned la
FI impl_flu( FL_PAR ) {
  auto eV = 1. * electronVolts;
  auto r = lu::calculateFluctuationIntegrals( lu::Widths( n * eV, g * eV, f * eV, x * eV ), lu::Degrees( mu, 2, nu, la ) );
  return { r.elastic * eV, r.capture * eV, r.fission * eV, r.competition * eV };
}
FI spec_flu( FL_PAR ) { return fluct( n, g, f, x, mu, nu, la ); }
// ---- cross sections
#define UR_PAR double E, unsigned l, double J, double a, double e1, double e2, double d1, double d2, double n1, double n2, double g1, double g2, double f1, double f2, double x1, double x2, unsigned mu, unsigned nu, unsigned la
#define UR_ARG E, l, J, a, e1, e2, d1, d2, n1, n2, g1, g2, f1, f2, x1, x2, mu, nu, la
inline lu::Resonance ures( double e, double d, double n, double g, double f, double x ) {
  auto eV = 1. * electronVolts; return lu::Resonance( e * eV, d * eV, n * rr::rootElectronVolt, g * eV, f * eV, x * eV );
}
inline lu::SpinGroup ugroup( UR_PAR ) {
  return lu::SpinGroup( elasticChannel( l, 0.5, J, a ),
    lu::ResonanceTable( std::vector< lu::Resonance >{ ures( e1, d1, n1, g1, f1, x1 ), ures( e2, d2, n2, g2, f2, x2 ) }, lu::Degrees( mu, 2, nu, la ) ) );
}
XS impl_urr( UR_PAR ) { auto s = ugroup( UR_ARG ); XS r; s.evaluate( E * electronVolts, r ); return r; }
XS spec_urr( UR_PAR ) {
  auto eV = 1. * electronVolts;
  auto at = [&] ( double p, double q ) -> double { rm::LinLinTable< Energy, rr::Width > t( std::vector< Energy >{ e1 * eV, e2 * eV }, std::vector< rr::Width >{ p * eV, q * eV } ); return t( E * eV ) / eV; };
  auto atn = [&] ( double p, double q ) -> double { rm::LinLinTable< Energy, rr::ReducedWidth > t( std::vector< Energy >{ e1 * eV, e2 * eV }, std::vector< rr::ReducedWidth >{ p * rr::rootElectronVolt, q * rr::rootElectronVolt } ); return t( E * eV ) / ( 1. * rr::rootElectronVolt ); };
  auto ch = elasticChannel( l, 0.5, J, a ); Energy e = E * electronVolts; auto k = ch.waveNumber( e );
  double P = ch.penetrability( e ), phi = ch.phaseShift( e ), rho = k * ( a * rr::rootBarn );
  double n = atn( n1, n2 ) * std::sqrt( E ) * mu * P / rho, g = at( g1, g2 ), f = at( f1, f2 ), x = at( x1, x2 );
  FI i = fluct( n, g, f, x, mu, nu, la ); double s = std::sin( phi );
  auto c = 2. * 3.141592653589793 * 3.141592653589793 / ( k * k ) * ( ( 2. * J + 1. ) / 16. ) / at( d1, d2 );
  XS r; r[ bwid( "elastic" ) ] = c * n * ( n * i.n - 2. * s * s ); r[ bwid( "capture" ) ] = c * n * g * i.g;
  if ( f != 0. ) r[ bwid( "fission" ) ] = c * n * f * i.f;
  return r;
}
XS impl_accu( PRE_PAR, UR_PAR ) { return accumulated( ugroup( UR_ARG ), E, x, y, z ); }
XS spec_accu( PRE_PAR, UR_PAR ) { return expectedSum( ugroup( UR_ARG ), E, x, y, z ); }
XS impl_usys( PRE_PAR, UR_PAR ) {
  lu::CompoundSystem s( std::vector< lu::SpinGroup >{ ugroup( E, 0, 3., a, e1, e2, d1, d2, n1, n2, g1, g2, f1, f2, x1, x2, mu, nu, la ), ugroup( E, l, J, a, e1, e2, d2, d1, n2, n1, g2, g1, f1, f2, x1, x2, mu, nu, la ) } );
  XS r = before( x, y, z ); s.evaluate( E * electronVolts, r ); return r;
}
XS spec_usys( PRE_PAR, UR_PAR ) {
  auto p = ugroup( E, 0, 3., a, e1, e2, d1, d2, n1, n2, g1, g2, f1, f2, x1, x2, mu, nu, la ); auto q = ugroup( E, l, J, a, e1, e2, d2, d1, n2, n1, g2, g1, f1, f2, x1, x2, mu, nu, la );
  XS r = before( x, y, z ); addTo( r, apart( p, E ) ); addTo( r, apart( q, E ) ); r[ bwid( "elastic" ) ] = r[ bwid( "elastic" ) ] + potential( E, l, a ); return r;
}
}
