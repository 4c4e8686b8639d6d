// Spin coupling, quantum numbers, packs and polynomial evaluation.
namespace vspec {

// ---- C08: the triangle sets.  Spins are given doubled (i2 = 2 i) so that every half-integer is exact.
inline std::vector< double > upto( double min, double max ) {
  std::vector< double > v; for ( double x = min; x <= max; x = x + 1. ) v.push_back( x ); return v;
}
std::vector< double > impl_spins( unsigned i2, unsigned I2 ) { return rm::possibleChannelSpinValues( i2 * 0.5, I2 * 0.5 ); }
std::vector< double > spec_spins( unsigned i2, unsigned I2 ) {
  double i = i2 * 0.5, I = I2 * 0.5; return upto( i > I ? i - I : I - i, i + I );
}
std::vector< double > impl_Js( unsigned l, unsigned s2 ) { return rm::possibleChannelTotalAngularMomentumValues( l, s2 * 0.5 ); }
std::vector< double > spec_Js( unsigned l, unsigned s2 ) {
  double s = s2 * 0.5; return upto( l > s ? l - s : s - l, l + s );
}
std::vector< double > impl_J3( unsigned l, unsigned i2, unsigned I2 ) {
  return rm::possibleChannelTotalAngularMomentumValues( l, i2 * 0.5, I2 * 0.5 );
}
std::vector< double > spec_J3( unsigned l, unsigned i2, unsigned I2 ) {
  double i = i2 * 0.5, I = I2 * 0.5;
  double min = l + i + I;                      // the smallest |l - s| over the allowed channel spins
  for ( double s = i > I ? i - I : I - i; s <= i + I; s = s + 1. ) {
    double j = l > s ? l - s : s - l; if ( j < min ) min = j;
  }
  return upto( min, l + i + I );
}
// known finding of C08: the unrepaired overload starts at ||l - I| - i|
std::vector< double > known_J3( unsigned l, unsigned i2, unsigned I2 ) {
  double i = i2 * 0.5, I = I2 * 0.5, a = l > I ? l - I : I - l;
  return upto( a > i ? a - i : i - a, l + i + I );
}

// ---- C09
inline std::string half( unsigned n ) { return n % 2 == 0 ? std::to_string( n / 2 ) : std::to_string( n ) + "/2"; }
std::string impl_qtext( unsigned l, unsigned s2, unsigned J2, int parity ) {
  return rm::ChannelQuantumNumbers( l, s2 * 0.5, J2 * 0.5, parity ).toString();
}
std::string spec_qtext( unsigned l, unsigned s2, unsigned J2, int parity ) {
  return "{" + std::to_string( l ) + "," + half( s2 ) + "," + half( J2 ) + ( parity > 0 ? "+" : "-" ) + "}";
}
std::tuple< unsigned, double, double, int > impl_qvalues( unsigned l, double s, double J, int parity ) {
  rm::ChannelQuantumNumbers q( l, s, J, parity );
  return { q.orbitalAngularMomentum(), q.spin(), q.totalAngularMomentum(), q.parity() };
}
std::tuple< unsigned, double, double, int > spec_qvalues( unsigned l, double s, double J, int parity ) { return { l, s, J, parity }; }

// ---- C29
std::tuple< double > impl_pack1( double a, double x, double s ) { return ( ( rr::pack( a ) + rr::pack( x ) ) * s - rr::pack( x ) ).data; }
std::tuple< double > spec_pack1( double a, double x, double s ) { return { ( a + x ) * s - x }; }
std::tuple< double, double > impl_pack2( double a, double b, double x, double y, double s ) {
  return ( ( rr::pack( a, b ) - rr::pack( x, y ) ) * s + rr::pack( y, x ) ).data;
}
std::tuple< double, double > spec_pack2( double a, double b, double x, double y, double s ) { return { ( a - x ) * s + y, ( b - y ) * s + x }; }
std::tuple< double, double, double, double > impl_pack_add( double a, double b, double c, double d, double x, double y, double z, double w ) {
  return ( rr::pack( a, b, c, d ) + rr::pack( x, y, z, w ) ).data;
}
std::tuple< double, double, double, double > spec_pack_add( double a, double b, double c, double d, double x, double y, double z, double w ) { return { a + x, b + y, c + z, d + w }; }
std::tuple< double, double, double, double > impl_pack_sub( double a, double b, double c, double d, double x, double y, double z, double w ) {
  return ( rr::pack( a, b, c, d ) - rr::pack( x, y, z, w ) ).data;
}
std::tuple< double, double, double, double > spec_pack_sub( double a, double b, double c, double d, double x, double y, double z, double w ) { return { a - x, b - y, c - z, d - w }; }
std::tuple< double, double, double, double > impl_pack_mul( double a, double b, double c, double d, double s ) { return ( rr::pack( a, b, c, d ) * s ).data; }
std::tuple< double, double, double, double > spec_pack_mul( double a, double b, double c, double d, double s ) { return { a * s, b * s, c * s, d * s }; }
// mixed and nested components keep their own type
std::tuple< int, double, double > impl_pack_mixed( int a, double b, int n, double y, double s ) {
  auto p = rr::pack( a, rr::pack( b, b * 2. ) ) + rr::pack( n, rr::pack( y, s ) );
  return { std::get< 0 >( p.data ), std::get< 0 >( std::get< 1 >( p.data ).data ), std::get< 1 >( std::get< 1 >( p.data ).data ) };
}
std::tuple< int, double, double > spec_pack_mixed( int a, double b, int n, double y, double s ) { return { a + n, b + y, b * 2. + s }; }
std::tuple< double, double > impl_pack_int( int a, int b, double s ) { return ( rr::pack( a, b ) * s ).data; }
std::tuple< double, double > spec_pack_int( int a, int b, double s ) { return { a * s, b * s }; }
// the type of each component is that of the operation on the two components
std::tuple< double, double, double, double, double > impl_pack_promote( int a, double x ) {
  auto p = rr::pack( a, x ) + rr::pack( x, a ); auto q = rr::pack( a, x ) - rr::pack( x, a ); auto r = rr::pack( a ) * x;
  return { std::get< 0 >( p.data ), std::get< 1 >( p.data ), std::get< 0 >( q.data ), std::get< 1 >( q.data ), std::get< 0 >( r.data ) };
}
std::tuple< double, double, double, double, double > spec_pack_promote( int a, double x ) { return { a + x, x + a, a - x, x - a, a * x }; }
std::tuple< int, double > impl_pack_stored( int a, double b ) { return rr::pack( a, b ).data; }
std::tuple< int, double > spec_pack_stored( int a, double b ) { return { a, b }; }
std::tuple< double, double, double, double, double, double > impl_pack6( double a, double b, double c, double d, double e, double f, double s ) {
  auto p = rr::pack( a, b, c, d, e, f ); return ( ( p + p * s ) - rr::pack( f, e, d, c, b, a ) ).data;
}
std::tuple< double, double, double, double, double, double > spec_pack6( double a, double b, double c, double d, double e, double f, double s ) {
  return { a + a * s - f, b + b * s - e, c + c * s - d, d + d * s - c, e + e * s - b, f + f * s - a };
}

// ---- C32: coefficients from the highest order down
inline double power( double x, unsigned n ) { double r = 1.; for ( unsigned i = 0; i < n; ++i ) r = r * x; return r; }
inline double poly( const std::vector< double >& c, double x ) {
  double s = 0.; for ( unsigned i = 0; i < c.size(); ++i ) s = s + c[i] * power( x, c.size() - 1 - i ); return s;
}
double impl_horner( std::vector< double > c, double x ) { return rm::horner( c.begin(), c.end(), x ); }
double spec_horner( std::vector< double > c, double x ) { return poly( c, x ); }
double impl_hornerr( std::vector< double > c, double x ) { return rm::horner( std::rbegin( c ), std::rend( c ), x ); }
double spec_hornerr( std::vector< double > c, double x ) {
  double s = 0.; for ( unsigned i = 0; i < c.size(); ++i ) s = s + c[i] * power( x, i ); return s;
}
}
