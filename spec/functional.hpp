// C28: the functional interfaces.  Cross sections at one energy of a whole resonance range against the ENDF expressions.
namespace vspec {
// component-wise sums as the functional interfaces use them
using T3 = std::tuple< double, double, double >; using T2 = std::tuple< double, double >;
T3 impl_pack3( double a, double b, double c, double x, double y, double z, double s ) { return ( rr::pack( a, b, c ) + rr::pack( x, y, z ) * s ).data; }
T3 spec_pack3( double a, double b, double c, double x, double y, double z, double s ) { return { a + x * s, b + y * s, c + z * s }; }
T3 impl_pack_nested( double a, double b, double c, double d, double x, double y, double z, double w ) { auto r = rr::pack( rr::pack( a, b ), c, d ) + rr::pack( rr::pack( x, y ), z, w ); return { std::get< 0 >( std::get< 0 >( r.data ).data ), std::get< 1 >( std::get< 0 >( r.data ).data ), std::get< 1 >( r.data ) - std::get< 2 >( r.data ) }; }
T3 spec_pack_nested( double a, double b, double c, double d, double x, double y, double z, double w ) { return { a + x, b + y, ( c + z ) - ( d + w ) }; }
using XS3 = std::array< double, 3 >;
inline XS3 barns( const rr::breitWigner::CrossSection& x ) { auto b = ( 1. * rr::rootBarn ) * ( 1. * rr::rootBarn ); return {{ x.elastic / b, x.capture / b, x.fission / b }}; }
XS3 impl_fslbw( const endf::ResonanceRange& d, double E ) { rr::breitWigner::singleLevel::Apply apply; return apply( d, [&] ( auto&& type ) { return barns( type( E * electronVolts ) ); } ); }
XS3 impl_fmlbw( const endf::ResonanceRange& d, double E ) { rr::breitWigner::multiLevel::Apply apply; return apply( d, [&] ( auto&& type ) { return barns( type( E * electronVolts ) ); } ); }
XS3 impl_frm( const endf::ResonanceRange& d, double E ) { rr::reichMoore::Apply apply; return apply( d, [&] ( auto&& type ) { return barns( type( E * electronVolts ) ); } ); }
inline double kn( double awri, double E ) {
  auto c = 5.787793139E-14 * sqrt( 1. * kilo( grams ) ) / constant::dirac * sqrt( 1. * electronVolts ) * ( 1. * rr::rootBarn ); return c * awri / ( awri + 1. ) * std::sqrt( E < 0. ? -E : E );
}
double impl_kn( double awri, double E ) { return rr::neutronWaveNumber( awri )( E * electronVolts ) * ( 1. * rr::rootBarn ); }
double spec_kn( double awri, double E ) { return kn( awri, E ); }
// radius for penetrabilities and shifts, radius for phase shifts; apl: radius of the angular momentum (0: none)
struct Radii2 { double channel, scattering; };
inline Radii2 radii2At( const endf::ResonanceRange& d, double ap, double apl, double awri, double E ) {
  double own = apl != 0. ? apl : ap, derived = 0.123 * std::pow( 1.00866491582 * awri, 1. / 3. ) + 0.08; int naps = d.NAPS();
  if ( d.NRO() == 0 ) { if ( naps == 0 ) return { derived, own }; if ( naps == 1 ) return { own, own }; throw 1; }
  auto t = expectedTable( d.scatteringRadius() ); double r = ( *t )( E * electronVolts ) / ( 1. * rr::rootBarn );
  if ( naps == 0 ) return { derived, r }; if ( naps == 1 ) return { r, r }; if ( naps == 2 ) return { own, r }; throw 1;
}
inline double gsum( double I, int l ) { double lo = I > l ? I - l - 0.5 : l - I - 0.5, s = 0.; if ( lo < 0. ) lo = - lo; for ( double J = lo; J <= I + l + 0.5; J = J + 1. ) s = s + ( 2. * J + 1. ) / ( 4. * I + 2. ); return s; }
template< typename Rec > XS3 breitWignerAt( const endf::ResonanceRange& d, const Rec& p, double E, bool multi ) {
  double awri = p.lValues().front().AWRI(), I = p.SPI(), k = kn( awri, E ), el = 0., ca = 0., fi = 0.;
  for ( const auto& lv : p.lValues() ) {
    int l = lv.L(); auto r = radii2At( d, p.AP(), 0., awri, E ); double P = hsP( l, k * r.channel ), S = hsS( l, k * r.channel ), phi = hsPhi( l, k * r.scattering ), s = std::sin( phi ), s2 = s * s, s2phi = std::sin( 2. * phi );
    double Q = lv.QX() * ( lv.AWRI() + 1. ) / lv.AWRI(), PX = 0.; if ( lv.LRX() ) PX = hsP( l, kn( awri, E + Q ) * radii2At( d, p.AP(), 0., awri, E + Q ).channel );
    std::vector< double > js; for ( const auto& q : lv.resonances() ) insertSorted( js, q.AJ() < 0. ? -q.AJ() : q.AJ() );
    if ( !multi ) el = el + ( 2. * l + 1. ) * s2;
    else el = el + ( 2. * l + 1. - gsum( I, l ) ) * s2 + gsum( I, l ) * ( s2 * s2 + 0.25 * s2phi * s2phi );
    for ( double j : js ) {
      double g = ( 2. * j + 1. ) / ( 4. * I + 2. ), a = 0., b = 0.;
      for ( const auto& q : lv.resonances() ) if ( ( q.AJ() < 0. ? -q.AJ() : q.AJ() ) == j ) {
        double er = q.ER(), ae = er < 0. ? -er : er, rr0 = kn( awri, ae ) * radii2At( d, p.AP(), 0., awri, ae ).channel, P0 = hsP( l, rr0 ), n = q.GN() * P / P0, x = 0.;
        if ( lv.LRX() ) x = q.GX() * PX / hsP( l, kn( awri, er + Q ) * radii2At( d, p.AP(), 0., awri, er + Q ).channel );
        double t = n + q.GG() + q.GF() + x, e = E - er - q.GN() * ( hsS( l, rr0 ) - S ) / ( 2. * P0 ), den = e * e + t * t / 4.;
        ca = ca + g * n * q.GG() / den / 4.; fi = fi + g * n * q.GF() / den / 4.;
        if ( !multi ) el = el + g * ( n * n - 2. * n * t * s2 + 2. * e * n * s2phi ) / den / 4.;
        else { a = a + n * t / den / 4.; b = b + n * e / den / 2.; }
      }
      if ( multi ) el = el + g * ( a * a - 2. * a * s2 + b * b + b * s2phi );
    }
  }
  double f = 4. * 3.14159265358979323846 / ( k * k ); return {{ f * el, f * ca, f * fi }};
}
XS3 spec_fslbw( const endf::ResonanceRange& d, double E ) { rejectIf( d.parameters().index() != 1 ); return breitWignerAt( d, std::get< endf::SingleLevelBreitWigner >( d.parameters() ), E, false ); }
XS3 spec_fmlbw( const endf::ResonanceRange& d, double E ) { rejectIf( d.parameters().index() != 2 ); return breitWignerAt( d, std::get< endf::MultiLevelBreitWigner >( d.parameters() ), E, true ); }
using Z = std::complex< double >;
inline double norm2( Z z ) { return z.real() * z.real() + z.imag() * z.imag(); }
XS3 spec_frm( const endf::ResonanceRange& d, double E ) {
  rejectIf( d.parameters().index() != 3 ); auto p = std::get< endf::ReichMoore >( d.parameters() ); double awri = p.lValues().front().AWRI(), I = p.SPI(), k = kn( awri, E ), el = 0., ca = 0., fi = 0.;
  for ( const auto& lv : p.lValues() ) {
    int l = lv.L(); auto r = radii2At( d, p.AP(), lv.APL(), awri, E ); double P = hsP( l, k * r.channel ), phi = hsPhi( l, k * r.scattering ), s = std::sin( phi ), used = 0.; Z phase( std::cos( 2. * phi ), - std::sin( 2. * phi ) );
    std::vector< double > js; for ( const auto& q : lv.resonances() ) insertSorted( js, q.AJ() );
    for ( double j : js ) {
      double g = ( 2. * ( j < 0. ? -j : j ) + 1. ) / ( 4. * I + 2. ); Z a( 1., 0. ), b( 0., 0. ), c( 0., 0. ), e( 1., 0. ), f( 0., 0. ), h( 1., 0. ); used = used + g;
      for ( const auto& q : lv.resonances() ) if ( q.AJ() == j ) {
        double er = q.ER(), ae = er < 0. ? -er : er, P0 = hsP( l, kn( awri, ae ) * radii2At( d, p.AP(), lv.APL(), awri, ae ).channel ), n = std::sqrt( q.GN() * P / P0 ), wa = q.GFA() < 0. ? -std::sqrt( -q.GFA() ) : std::sqrt( q.GFA() ), wb = q.GFB() < 0. ? -std::sqrt( -q.GFB() ) : std::sqrt( q.GFB() );
        double x = er - E, den = 4. * x * x + q.GG() * q.GG(); Z w( q.GG() / den, -2. * x / den );      // 1 / ( GG + 2i( Er - E ) )
        a = a + w * ( n * n ); b = b + w * ( n * wa ); c = c + w * ( n * wb ); e = e + w * ( wa * wa ); f = f + w * ( wa * wb ); h = h + w * ( wb * wb );
      }
      Z m0 = e * h - f * f, m1 = c * f - b * h, m2 = b * f - c * e, det = a * m0 + b * m1 + c * m2, u = phase * ( 2. * m0 / det - 1. ); double t = 2. * g * ( 1. - u.real() ), n = g * norm2( 1. - u ), fs = 4. * g * ( norm2( m1 / det ) + norm2( m2 / det ) );
      el = el + n; fi = fi + fs; ca = ca + t - n - fs;
    }
    el = el + ( 2. * l + 1. - used ) * 4. * s * s;
  }
  double f = 3.14159265358979323846 / ( k * k ); return {{ f * el, f * ca, f * fi }};
}
double impl_mlD( double I, int l ) { return rr::breitWigner::multiLevel::D( I, l ); }
double spec_mlD( double I, int l ) { return 2. * l + 1. - gsum( I, l ); }
// cross section triples of the functional interfaces
XS3 impl_xs_sum( int op, double a, double b, double c, double x, double y, double z ) {
  auto u = 1. * dimwits::barns; rr::breitWigner::CrossSection l( a * u, b * u, c * u ), p( rr::pack( x * u, y * u, z * u ) ); auto r = op == 0 ? l + p : op == 1 ? l - p : op == 2 ? p : op == 3 ? p - l + l + l : l;
  return {{ r.elastic / u, r.capture / u, r.fission / u }};
}
XS3 spec_xs_sum( int op, double a, double b, double c, double x, double y, double z ) {
  double k = op == 0 || op == 3 || op == 4 ? 1. : op == 1 ? 1. : 0., m = op == 0 || op == 2 || op == 3 ? 1. : op == 1 ? -1. : 0.; return {{ k * a + m * x, k * b + m * y, k * c + m * z }};
}
}
