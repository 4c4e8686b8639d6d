// Particle pairs, channels and radii.
namespace vspec {
using rr::Energy; using rr::CrossSection;
using namespace dimwits;
inline rm::Particle particle( const char* id, double m, double z, double spin, short parity ) {
  return rm::Particle( rm::ParticleID( id ), m * daltons, z * coulombs, spin, parity );
}
inline rm::ParticlePair twobody( double ma, double mb, double za, double zb, double ia, double ib ) {
  return rm::ParticlePair( particle( "n", ma, za, ia, +1 ), particle( "H1", mb, zb, ib, +1 ), rm::ParticlePairID( "n,H1" ) );
}
inline rm::ParticlePair entrance( double ma, double mb ) {
  return rm::ParticlePair( particle( "n", ma, 0., 0.5, +1 ), particle( "U235", mb, 0., 3.5, +1 ), rm::ParticlePairID( "n,U235" ) );
}
// ---- C23
struct Pair7 { double mu, ratio, ma, mb, za, zb, ia, ib; int pa, pb; };
Pair7 impl_pair( double ma, double mb, double za, double zb, double ia, double ib, int pa, int pb ) {
  rm::ParticlePair p( particle( "n", ma, za, ia, pa ), particle( "H1", mb, zb, ib, pb ) );
  return { p.reducedMass() / ( 1. * daltons ), p.massRatio(), p.particle().mass() / ( 1. * daltons ), p.residual().mass() / ( 1. * daltons ),
           p.particle().charge() / ( 1. * coulombs ), p.residual().charge() / ( 1. * coulombs ), p.particle().spin(), p.residual().spin(), p.particle().parity(), p.residual().parity() };
}
Pair7 spec_pair( double ma, double mb, double za, double zb, double ia, double ib, int pa, int pb ) {
  if ( ma < 0. || mb < 0. || za < 0. || zb < 0. ) throw 1;
  return { ma * mb / ( ma + mb ), mb / ( ma + mb ), ma, mb, za, zb, ia, ib, pa, pb };
}
template< typename Type > rm::Channel< Type > channel( double Ma, double Mb, double ma, double mb, double za, double zb, double ia, double ib, double Q, unsigned l, double s, double J, double a, double b, double c ) {
  return rm::Channel< Type >( entrance( Ma, Mb ), twobody( ma, mb, za, zb, ia, ib ), Q * electronVolts, rm::ChannelQuantumNumbers( l, s, J, +1 ),
                              rm::ChannelRadii( a * rr::rootBarn, b * rr::rootBarn, c * rr::rootBarn ) );
}
#define CH_PAR double E, double Ma, double Mb, double ma, double mb, double za, double zb, double ia, double ib, double Q, unsigned l, double s, double J, double a, double b, double c
#define CH_ARG Ma, Mb, ma, mb, za, zb, ia, ib, Q, l, s, J, a, b, c
inline auto wave( double E, double Ma, double Mb, double ma, double mb, double Q ) {
  double x = E * ( Mb / ( Ma + Mb ) ) + Q; if ( x < 0. ) x = -x;
  return sqrt( 2. * ( ma * mb / ( ma + mb ) * daltons ) * ( x * electronVolts ) ) / ( 6.582119514e-16 * electronVolt * second );
}
struct Kin { double k, eta, g; bool below; double Q, boundary; };
Kin impl_kin( CH_PAR ) {
  auto ch = channel< rm::ChargedParticle >( CH_ARG ); Energy e = E * electronVolts;
  return { ch.waveNumber( e ) * rr::rootBarn, ch.sommerfeldParameter( e ), ch.statisticalSpinFactor(), ch.belowThreshold( e ), ch.Q() / ( 1. * electronVolts ), ch.boundaryCondition() };
}
inline double sommerfeld( double E, double Ma, double Mb, double ma, double mb, double za, double zb, double Q ) {
  if ( za * zb == 0. ) return 0.;
  auto hb = 6.582119514e-16 * electronVolt * second; auto mu = ma * mb / ( ma + mb ) * daltons;
  return ( za * coulombs ) * ( zb * coulombs ) * mu / ( 4. * 3.141592653589793 * ( 8.854187817e-12 * farad / meter ) * hb * hb * wave( E, Ma, Mb, ma, mb, Q ) );
}
Kin spec_kin( CH_PAR ) {
  return { wave( E, Ma, Mb, ma, mb, Q ) * rr::rootBarn, sommerfeld( E, Ma, Mb, ma, mb, za, zb, Q ), ( 2. * J + 1. ) / ( ( 2. * ia + 1. ) * ( 2. * ib + 1. ) ), E * ( Mb / ( Ma + Mb ) ) + Q < 0., Q, 0. };
}
// ---- C24: each function of a channel uses its own radius
struct PSF { double P, S, phi, w; };
template< typename Type > PSF wavefunctions( CH_PAR ) {
  auto ch = channel< Type >( CH_ARG ); Energy e = E * electronVolts;
  return { ch.penetrability( e ), ch.shiftFactor( e ), ch.phaseShift( e ), ch.coulombPhaseShift( e ) };
}
template< typename Type > PSF expected( CH_PAR ) {
  double k = wave( E, Ma, Mb, ma, mb, Q ) * rr::rootBarn, eta = sommerfeld( E, Ma, Mb, ma, mb, za, zb, Q );
  return { rm::calculatePenetrability< Type >( l, k * a, eta ), rm::calculateShiftFactor< Type >( l, k * b, eta ), rm::calculatePhaseShift< Type >( l, k * c, eta ), rm::calculateCoulombPhaseShift< Type >( l, eta ) };
}
PSF impl_wfn( CH_PAR ) { return wavefunctions< rm::Neutron >( E, CH_ARG ); }
PSF spec_wfn( CH_PAR ) { return expected< rm::Neutron >( E, CH_ARG ); }
PSF impl_wfc( CH_PAR ) { return wavefunctions< rm::ChargedParticle >( E, CH_ARG ); }
PSF spec_wfc( CH_PAR ) { return expected< rm::ChargedParticle >( E, CH_ARG ); }

// energy dependent radius: an uninterpreted function of its points and of the energy
using RadTable = rm::LinLinTable< Energy, rr::ChannelRadius >;
inline rm::MultiRegionTable< Energy, rr::ChannelRadius > radiusRegions( double x, double y, double u, double v ) {
  return rm::MultiRegionTable< Energy, rr::ChannelRadius >( std::vector< rm::TableVariant< Energy, rr::ChannelRadius > >{
    RadTable( std::vector< Energy >{ x * electronVolt, u * electronVolt }, std::vector< rr::ChannelRadius >{ y * rr::rootBarn, v * rr::rootBarn } ) } );
}
inline rm::ChannelRadiusTable radiusTable( double x, double y, double u, double v ) { return rm::ChannelRadiusTable( radiusRegions( x, y, u, v ) ); }
struct Radii { double P, S, phi; };
inline Radii radiiAt( const rm::ChannelRadii& r, double E ) {
  Energy e = E * electronVolt; return { r.penetrabilityRadius( e ) / rr::rootBarn, r.shiftFactorRadius( e ) / rr::rootBarn, r.phaseShiftRadius( e ) / rr::rootBarn };
}
inline double tableAt( double E, double x, double y, double u, double v ) { return radiusRegions( x, y, u, v )( E * electronVolt ) / rr::rootBarn; }
Radii impl_radii1( double E, double a ) { return radiiAt( rm::ChannelRadii( a * rr::rootBarn ), E ); }
Radii spec_radii1( double E, double a ) { return { a, a, a }; }
Radii impl_radii2( double E, double a, double b ) { return radiiAt( rm::ChannelRadii( a * rr::rootBarn, b * rr::rootBarn ), E ); }
Radii spec_radii2( double E, double a, double b ) { return { a, a, b }; }
Radii impl_radii3( double E, double a, double b, double c ) { return radiiAt( rm::ChannelRadii( a * rr::rootBarn, b * rr::rootBarn, c * rr::rootBarn ), E ); }
Radii spec_radii3( double E, double a, double b, double c ) { return { a, b, c }; }
#define RT_PAR double x, double y, double u, double v
#define RT_ARG x, y, u, v
Radii impl_radiit( double E, double a, unsigned which, RT_PAR ) {
  auto t = radiusTable( RT_ARG ); auto r = a * rr::rootBarn;
  switch ( which ) {
    case 0 : return radiiAt( rm::ChannelRadii( t ), E );
    case 1 : return radiiAt( rm::ChannelRadii( t, r ), E );
    case 2 : return radiiAt( rm::ChannelRadii( r, t ), E );
    case 3 : return radiiAt( rm::ChannelRadii( t, r, r ), E );
    case 4 : return radiiAt( rm::ChannelRadii( r, t, r ), E );
    default : return radiiAt( rm::ChannelRadii( r, r, t ), E );
  }
}
Radii spec_radiit( double E, double a, unsigned which, RT_PAR ) {
  double t = tableAt( E, RT_ARG );
  return { which == 0 || which == 1 || which == 3 ? t : a, which == 0 || which == 1 || which == 4 ? t : a, which == 0 || which == 2 || which == 5 ? t : a };
}
// the ENDF choice: NRO (a table is given or not) and NAPS
Radii impl_naps( double E, double ap, bool nro, int naps, double awri, double mn, RT_PAR ) {
  std::optional< rm::ChannelRadiusTable > t; if ( nro ) t = radiusTable( RT_ARG );
  return radiiAt( rm::makeChannelRadii( ap, t, naps, awri, mn ), E );
}
Radii spec_naps( double E, double ap, bool nro, int naps, double awri, double mn, RT_PAR ) {
  double a = 0.123 * std::pow( awri * mn, 1. / 3. ) + 0.08;
  if ( nro ) {
    double t = tableAt( E, RT_ARG );
    if ( naps == 0 ) return { a, a, t };
    if ( naps == 1 ) return { t, t, t };
    if ( naps == 2 ) return { ap, ap, t };
    throw 1;
  }
  if ( naps == 0 ) return { a, a, ap };
  return { ap, ap, ap };
}
// the channel radius of the functional interfaces
double impl_chradius( double E, double awr ) { return rr::channelRadius( awr )( E * electronVolts ) / rr::rootBarn; }
double spec_chradius( double E, double awr ) { return 0.123 * std::pow( 1.00866491582 * awr, 1. / 3. ) + 0.08; }
double impl_radius( double E, double a ) { return rr::radius( a )( E * electronVolts ) / rr::rootBarn; }
double spec_radius( double E, double a ) { return a; }
}
