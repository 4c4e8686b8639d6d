// Coulomb wave functions: reference forms.  Recurrences: Abramowitz & Stegun 14.2; l = 0 start values: Froeberg, Rev. Mod. Phys. 27 (1955) 399
// (Riccati I and II, transition line, asymptotic series); step integration of u'' = ( 2 eta / rho - 1 ) u by Newmark's method with beta = 0.1.
namespace vspec {
// ---------------------------------------------------------------- recurrences
double ref_G( int l, double eta, double rho, double a, double b ) {   // A&S 14.2.3: L sqrt((L+1)^2+eta^2) u_{L+1} = (2L+1)[eta+L(L+1)/rho]u_L - (L+1) sqrt(L^2+eta^2) u_{L-1}
  double L = l; return ( ( 2. * L + 1. ) * ( eta + L * ( L + 1. ) / rho ) * b - ( L + 1. ) * std::sqrt( L * L + eta * eta ) * a ) / ( L * std::sqrt( ( L + 1. ) * ( L + 1. ) + eta * eta ) ); }
double ref_F( int l, double eta, double rho, double a, double b ) {
  double L = l; return ( ( 2. * L + 1. ) * ( eta + L * ( L + 1. ) / rho ) * b - L * std::sqrt( ( L + 1. ) * ( L + 1. ) + eta * eta ) * a ) / ( ( L + 1. ) * std::sqrt( L * L + eta * eta ) ); }
double ref_D( int l, double eta, double rho, double a, double b ) {   // A&S 14.2.2: (L+1) u_L' = [(L+1)^2/rho + eta] u_L - sqrt((L+1)^2+eta^2) u_{L+1}
  double L = l; return ( ( ( L + 1. ) * ( L + 1. ) / rho + eta ) * a - std::sqrt( ( L + 1. ) * ( L + 1. ) + eta * eta ) * b ) / ( L + 1. ); }
double impl_G( int l, double eta, double rho, double a, double b ) { return rm::omGfunction( l, eta, rho, a, b ); }
double spec_G( int l, double eta, double rho, double a, double b ) { return ref_G( l, eta, rho, a, b ); }
double impl_F( int l, double eta, double rho, double a, double b ) { return rm::omFfunction( l, eta, rho, a, b ); }
double spec_F( int l, double eta, double rho, double a, double b ) { return ref_F( l, eta, rho, a, b ); }
double impl_D( int l, double eta, double rho, double a, double b ) { return rm::omDfunction( l, eta, rho, a, b ); }
double spec_D( int l, double eta, double rho, double a, double b ) { return ref_D( l, eta, rho, a, b ); }

// ---------------------------------------------------------------- l = 0 start values
struct GD { double g, dg; };
inline void ref_case1( double ra, double y, double* p0, double* p1 ) {   // Riccati I, t = rho / 2 eta < 1
  const double t = ra / ( 2. * y ), u = 1. - t, h = 1. / ( 2. * y ), w = t * u * u * u, r = std::sqrt( w );
  const double a0 = std::sqrt( t * u ) + std::asin( std::sqrt( t ) ) - 1.57079632679489661923;
  const double a1 = std::log( t / u ) / 4.;
  const double a2 = - ( 8. * t * t - 12. * t + 9. ) / ( 48. * r );
  const double a3 = ( 8. * t - 3. ) / ( 64. * w );
  const double a4 = ( 2048. * t*t*t*t*t*t - 9216. * t*t*t*t*t + 16128. * t*t*t*t - 13440. * t*t*t - 12240. * t*t + 7560. * t - 1890. ) / ( 92160. * w * r );
  const double a5 = 3. * ( 1024. * t*t*t - 448. * t*t + 208. * t - 39. ) / ( 8192. * w * w );
  const double a6 = - ( 262144. * t*t*t*t*t*t*t*t*t*t - 1966080. * t*t*t*t*t*t*t*t*t + 6389760. * t*t*t*t*t*t*t*t - 11714560. * t*t*t*t*t*t*t
                      + 13178880. * t*t*t*t*t*t - 9225216. * t*t*t*t*t + 13520640. * t*t*t*t - 3588480. * t*t*t + 2487240. * t*t - 873180. * t + 130977. ) / ( 10321920. * w * w * r );
  const double a7 = ( 1105920. * t*t*t*t*t - 55296. * t*t*t*t + 314624. * t*t*t - 159552. * t*t + 45576. * t - 5697. ) / ( 393216. * w * w * w );
  const double q = - a0 / h + a1 - h * a2 + h*h * a3 - h*h*h * a4 + h*h*h*h * a5 - h*h*h*h*h * a6 + h*h*h*h*h*h * a7;
  if ( q > 100. ) { *p0 = 0.; *p1 = 0.; return; }
  const double d0 = std::sqrt( u / t );
  const double d1 = 1. / ( 4. * t * u );
  const double d2 = - ( 8. * t - 3. ) / ( 32. * std::sqrt( t*t*t * u*u*u*u*u ) );
  const double d3 = 3. * ( 8. * t * t - 4. * t + 1. ) / ( 64. * t*t * u*u*u*u );
  const double d4 = - ( 1536. * t*t*t - 704. * t*t + 336. * t - 63. ) / ( 2048. * std::sqrt( t*t*t*t*t * u*u*u*u*u*u*u*u*u*u*u ) );
  const double d5 = 3. * ( 2560. * t*t*t*t - 832. * t*t*t + 728. * t*t - 260. * t + 39. ) / ( 4096. * t*t*t * u*u*u*u*u*u*u );
  const double d6 = ( - 368640. * t*t*t*t*t - 30720. * t*t*t*t + 114944. * t*t*t - 57792. * t*t + 16632. * t - 2079. ) / ( 65536. * std::sqrt( t*t*t*t*t*t*t * u*u*u*u*u*u*u*u*u*u*u*u*u*u*u*u*u ) );
  const double d7 = 3. * ( 860160. * t*t*t*t*t*t + 196608. * t*t*t*t*t + 308480. * t*t*t*t - 177280. * t*t*t + 73432. * t*t - 17724. * t + 1899. ) / ( 131072. * t*t*t*t * u*u*u*u*u*u*u*u*u*u );
  *p0 = std::exp( q );
  *p1 = std::exp( q ) * h * ( - d0 / h + d1 - h * d2 + h*h * d3 - h*h*h * d4 + h*h*h*h * d5 - h*h*h*h*h * d6 + h*h*h*h*h*h * d7 );
}
inline void ref_case2( double y, double* p0, double* p1 ) {   // transition line rho = 2 eta (A&S 14.6.17/18)
  *p0 = 1.223404016 * std::pow( y, 1. / 6. ) * ( 1. + 0.04959570165 * std::pow( y, -4. / 3. ) - 0.008888888889 * std::pow( y, -2. ) + 0.002455199181 * std::pow( y, -10. / 3. )
        - 0.0009108958061 * std::pow( y, -4. ) + 0.0002534684115 * std::pow( y, -16. / 3. ) );
  *p1 = - 0.7078817734 * std::pow( y, -1. / 6. ) * ( 1. - 0.1728260369 * std::pow( y, -2. / 3. ) + 0.0003174603174 * std::pow( y, -2. ) - 0.003581214850 * std::pow( y, -8. / 3. )
        + 0.0003117824680 * std::pow( y, -4. ) - 0.0009073966427 * std::pow( y, -14. / 3. ) );
}
inline void ref_case3( double ra, double y, double sig, double* p0, double* p1 ) {   // asymptotic series (A&S 14.5.1..14.5.8)
  double gs, gt, ps, pt; const double phi = ra - y * std::log( 2. * ra ) + sig; int tries = 0; double r = ra;
  while ( true ) {
    double gs0 = 1., gt0 = 0., ps0 = 0., pt0 = 1. - y / r; gs = gs0; gt = gt0; ps = ps0; pt = pt0;
    for ( int i = 0; i < 100; i++ ) {
      double c = 2. * ( i + 1 ) * r, a = ( 2 * i + 1 ) * y / c, b = ( y * y - i * ( i + 1 ) ) / c;
      if ( a * a + b * b > 1. ) break;
      double gs1 = a * gs0 - b * gt0, gt1 = a * gt0 + b * gs0, ps1 = a * ps0 - b * pt0 - gs1 / r, pt1 = a * pt0 + b * ps0 - gt1 / r;
      if ( std::abs( 1. - gs1 / gs0 ) < 1e-16 && std::abs( 1. - ps1 / ps0 ) < 1e-16 ) break;
      gs += gs1; gt += gt1; ps += ps1; pt += pt1; gs0 = gs1; gt0 = gt1; ps0 = ps1; pt0 = pt1;
    }
    if ( std::abs( gs * pt - ps * gt - 1. ) <= 1e-6 ) break;
    r += 5.; tries++;
    if ( tries > 100 ) { *p0 = 0.; *p1 = 0.; return; }
  }
  *p0 = gs * std::cos( phi ) - gt * std::sin( phi );
  *p1 = ps * std::cos( phi ) - pt * std::sin( phi );
}
inline void ref_case4( double ra, double y, double* p0, double* p1 ) {   // Riccati II, x = 2 eta / rho < 1
  const double x = 2. * y / ra, v = 1. - x, s = std::sqrt( v ), h = 1. / ( 2. * y );
  const double k = h * h / ( v * v * v ), kx = k * x * x;
  const double f1 = - ( 9. * x * x - 12. * x + 8. ) / 48.;
  const double f2 = - ( - 1890. * x*x*x*x*x*x + 7560. * x*x*x*x*x - 12240. * x*x*x*x - 13440. * x*x*x + 16128. * x*x - 9216. * x + 2048. ) / 92160.;
  const double f3 = - ( 130977. * x*x*x*x*x*x*x*x*x*x - 873180. * x*x*x*x*x*x*x*x*x + 2487240. * x*x*x*x*x*x*x*x - 3588480. * x*x*x*x*x*x*x + 13520640. * x*x*x*x*x*x
                      - 9225216. * x*x*x*x*x + 13178880. * x*x*x*x - 11714560. * x*x*x + 6389760. * x*x - 1966080. * x + 262144. ) / 10321920.;
  const double phi = ( s / x + 0.5 * std::log( ( 1. - s ) / ( 1. + s ) ) ) / h + 0.785398163397448309616 + std::sqrt( k ) * ( f1 + k * f2 + k * k * f3 );
  const double psi = x * kx * ( - ( 8. - 3. * x ) / 64. + kx * 3. * ( - 39. * x*x*x + 208. * x*x - 448. * x + 1024. ) / 8192.
                   - kx * kx * ( - 5697. * x*x*x*x*x + 45576. * x*x*x*x - 159552. * x*x*x + 314624. * x*x - 55296. * x + 1105920. ) / 393216. );
  const double a = s / x * ( 1. / x + kx * ( ( 8. - 3. * x ) / 32. - kx * ( - 63. * x*x*x + 336. * x*x - 704. * x + 1536. ) / 2048.
                   + kx * kx * ( - 2079. * x*x*x*x*x + 16632. * x*x*x*x - 57792. * x*x*x + 114944. * x*x - 30720. * x + 368640. ) / 65536. ) );
  const double b = h / ( 4. * v ) + kx * ( - 3. * ( x * x - 4. * x + 8. ) / 64. + kx * 3. * ( 39. * x*x*x*x - 260. * x*x*x + 728. * x*x - 832. * x + 2560. ) / 4096.
                   - kx * kx * 3. * ( 1899. * x*x*x*x*x*x - 17724. * x*x*x*x*x + 73432. * x*x*x*x - 177280. * x*x*x + 308480. * x*x + 196608. * x + 860160. ) / 131072. );
  const double m = std::exp( psi ) / std::sqrt( s );
  *p0 = m * std::cos( phi );
  *p1 = - x * x * m * ( a * std::sin( phi ) + b * std::cos( phi ) );
}
inline void ref_newmark( int n, double h, double y, double ra, double* p0, double* p1 ) {   // n steps of size h from ra towards smaller radii
  double g = *p0, f = *p1, r = ( 2. * y / ra - 1. ) * g, rnew = r; const double step = - h;
  for ( int i = 1; i <= n; i++ ) {
    const double x = ra + i * step; double fnew, gnew, e; int itr = 0;
    do {
      fnew = f + step * ( r + rnew ) / 2.;
      gnew = g + step * f + step * step * r / 2. + step * step * 0.1 * ( rnew - r );
      const double s = ( 2. * y / x - 1. ) * gnew;
      e = s != 0. ? std::abs( 1. - rnew / s ) : std::abs( s - rnew );
      itr++;
      if ( itr > 100 ) { *p0 = 0.; *p1 = 0.; return; }
      rnew = s;
    } while ( e > 1e-10 );
    g = gnew; f = fnew; r = rnew;
  }
  *p0 = g; *p1 = f;
}
inline void ref_asymptotic( double rho, double eta, double sigma, double* g, double* dg ) {
  double ra, p0, p1;
  if ( eta >= 15. ) {
    if ( rho <= 16. ) { ra = 16.; ref_case1( ra, eta, &p0, &p1 ); }
    else if ( rho <= 5. * eta / 3. - 5. ) { ra = rho; ref_case1( ra, eta, &p0, &p1 ); }
    else { ra = 2. * eta; ref_case2( eta, &p0, &p1 ); }
  }
  else if ( eta >= 5. ) {
    if ( rho <= 2. * eta ) { ra = 2. * eta; ref_case2( eta, &p0, &p1 ); }
    else { ra = 2.5 * eta + 7.5; if ( ra < rho ) ra = rho; ref_case4( ra, eta, &p0, &p1 ); }
  }
  else { ra = 2. * eta + 10.; if ( ra < rho ) ra = rho; ref_case3( ra, eta, sigma, &p0, &p1 ); }
  if ( p0 != 0. && p1 != 0. && ra != rho ) {
    int n = (int)( std::abs( ra - rho ) / 0.01 ) + 1;          // steps no longer than 0.01, at least one
    ref_newmark( n, ( ra - rho ) / n, eta, ra, &p0, &p1 );
  }
  *g = p0; *dg = p1;
}
GD impl_case1( double ra, double y ) { GD r; rm::omGcase1( ra, y, &r.g, &r.dg ); return r; }
GD spec_case1( double ra, double y ) { GD r; ref_case1( ra, y, &r.g, &r.dg ); return r; }
bool pre_case1( double ra, double y ) { return ra < 2. * y; }
GD impl_case2( double y ) { GD r; rm::omGcase2( y, &r.g, &r.dg ); return r; }
GD spec_case2( double y ) { GD r; ref_case2( y, &r.g, &r.dg ); return r; }
GD impl_case3( double ra, double y, double sig ) { GD r; rm::omGcase3( ra, y, sig, &r.g, &r.dg ); return r; }
GD spec_case3( double ra, double y, double sig ) { GD r; ref_case3( ra, y, sig, &r.g, &r.dg ); return r; }
bool pre_case3( double ra, double y, double sig ) { return ra >= 2. * y + 10.; }
GD impl_case4( double ra, double y ) { GD r; rm::omGcase4( ra, y, &r.g, &r.dg ); return r; }
GD spec_case4( double ra, double y ) { GD r; ref_case4( ra, y, &r.g, &r.dg ); return r; }
bool pre_case4( double ra, double y ) { return ra > 2. * y; }
GD impl_newmark( int n, double h, double y, double ra, double a, double b ) { GD r{ a, b }; rm::omNewmark( n, h, y, ra, &r.g, &r.dg ); return r; }
GD spec_newmark( int n, double h, double y, double ra, double a, double b ) { GD r{ a, b }; ref_newmark( n, h, y, ra, &r.g, &r.dg ); return r; }
GD impl_asym( double rho, double eta, double sigma ) { GD r; rm::omAsymptotic( rho, eta, sigma, &r.g, &r.dg ); return r; }
GD spec_asym( double rho, double eta, double sigma ) { GD r; ref_asymptotic( rho, eta, sigma, &r.g, &r.dg ); return r; }

// ---------------------------------------------------------------- all partial waves
struct FG { double g, f, dg, df; };      // compared one by one: F may be far smaller than G
inline void ref_cwf( int l, double rho, double eta, std::complex< double >& u, std::complex< double >& du ) {
  if ( l < 0 || l > 58 ) throw std::exception();
  const double y2 = eta * eta, y3 = 16. + y2;
  const double sigma0 = - eta + eta * std::log( y3 ) / 2. + 3.5 * std::atan( eta / 4. ) - std::atan( eta ) - std::atan( eta / 2. ) - std::atan( eta / 3. )
                        - eta * ( 1. + ( y2 - 48. ) / ( 30. * y3 * y3 ) + ( y2 * y2 - 160. * y2 + 1280. ) / ( 105. * y3 * y3 * y3 * y3 ) ) / ( 12. * y3 );
  double g[ 60 ] = {}, f[ 60 ] = {}, dg[ 60 ] = {}, df[ 60 ] = {};
  if ( eta == 0. ) { g[0] = std::cos( rho ); g[1] = g[0] / rho + std::sin( rho ); }
  else {
    double p1, p2; ref_asymptotic( rho, eta, sigma0, &p1, &p2 );
    if ( p1 == 0. && p2 == 0. ) { u = std::complex< double >( 0., 0. ); du = std::complex< double >( 0., 0. ); return; }
    g[0] = p1; g[1] = ( ( eta + 1. / rho ) * p1 - p2 ) / std::sqrt( 1. + eta * eta );
  }
  const double first = eta == 0. ? 1. : std::fmax( g[0] * g[0], g[1] * g[1] );
  int last = 58, high = -1;                                   // highest partial wave kept, and the one from which G has grown enough
  for ( int k = 1; k < 59; k++ ) {
    g[k + 1] = ref_G( k, eta, rho, g[k - 1], g[k] );
    if ( first / ( g[k + 1] * g[k + 1] ) < 1e-10 && k >= l ) { last = high = k; break; }
  }
  if ( high < 0 ) {
    double p1 = g[58], p2 = g[59], p3 = g[59]; high = 59;
    while ( first / ( p3 * p3 ) >= 1e-10 ) { p3 = ref_G( high, eta, rho, p1, p2 ); p1 = p2; p2 = p3; high++; }
  }
  int top = high + 10; const int limit = high + 100; bool again = true;
  while ( again ) {
    again = false;
    double p1 = 0., p2 = 1e-36;
    for ( int k = top; k > 0; k-- ) {
      double p3 = ref_F( k, eta, rho, p1, p2 );
      if ( k <= last + 2 ) f[k - 1] = p3;
      p1 = p2; p2 = p3;
    }
    const double norm = 1. / ( ( f[0] * g[1] - g[0] * f[1] ) * std::sqrt( 1. + eta * eta ) );   // A&S 14.2.5
    for ( int k = 0; k <= last + 1; k++ ) f[k] = f[k] * norm;
    for ( int k = 0; k <= last; k++ ) {
      dg[k] = ref_D( k, eta, rho, g[k], g[k + 1] );
      df[k] = ref_D( k, eta, rho, f[k], f[k + 1] );
      if ( std::abs( df[k] * g[k] - dg[k] * f[k] - 1. ) > 1e-6 ) { again = true; top += 10; break; }
    }
    if ( top > limit ) throw std::exception();
  }
  u = std::complex< double >( g[l], f[l] ); du = std::complex< double >( dg[l], df[l] );
}
FG impl_cwf( int l, double rho, double eta ) { std::complex< double > u, du; rm::coulombWaveFunctions( l, rho, eta, u, du ); return { u.real(), u.imag(), du.real(), du.imag() }; }
FG spec_cwf( int l, double rho, double eta ) { std::complex< double > u, du; ref_cwf( l, rho, eta, u, du ); return { u.real(), u.imag(), du.real(), du.imag() }; }
// charged particle channels, in terms of the Coulomb functions F + their derivatives
double impl_charged_P( unsigned l, double rho, double eta ) { return rm::calculatePenetrability< rm::ChargedParticle >( l, rho, eta ); }
double spec_charged_P( unsigned l, double rho, double eta ) {
  std::complex< double > u, du; ref_cwf( l, rho, eta, u, du );
  double F = u.imag(), G = u.real(); return F == 0. and G == 0. ? 0. : rho / ( F * F + G * G ); }
double impl_charged_S( unsigned l, double rho, double eta ) { return rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, eta ); }
double spec_charged_S( unsigned l, double rho, double eta ) {
  std::complex< double > u, du; ref_cwf( l, rho, eta, u, du );
  double F = u.imag(), G = u.real(); return F == 0. and G == 0. ? 0. : rho * ( F * du.imag() + G * du.real() ) / ( F * F + G * G ); }
double impl_charged_phi( unsigned l, double rho, double eta ) { return rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, eta ); }
double spec_charged_phi( unsigned l, double rho, double eta ) {
  std::complex< double > u, du; ref_cwf( l, rho, eta, u, du );
  double F = u.imag(), G = u.real(); return F == 0. and G == 0. ? 0. : std::atan2( F, G ); }
}
