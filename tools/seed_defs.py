"""The planted bugs: edits of original lines, a demonstration, what is needed to see it."""
SEEDS = []
HEAD = '''#include <string>
#include <vector>
#include <array>
#include <tuple>
#include <algorithm>
#include <variant>
#include <map>
#include <numeric>
#include <cmath>
#include <complex>
#include <functional>
#include <iostream>
#include "resonanceReconstruction.hpp"
#include <cstdio>
#include <cmath>
using namespace njoy::resonanceReconstruction;
static int bad = 0;
static void same( double a, double b, const char* what ) { if ( not ( std::abs( a - b ) <= 1e-9 * ( 1. + std::abs( b ) ) ) ) { std::printf( "%s: %.15g instead of %.15g\\n", what, a, b ); ++bad; } }
'''
def seed(id, property, needs, breaks, edits, main, pre="", also=(), files=None, flags="", demo=None):
    d = dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, files=files or {"demo.cpp": HEAD + pre + "int main() {\n" + main + "\n  return bad != 0;\n}\n"}, also=list(also), flags=flags)
    if demo: d["demo"] = demo
    SEEDS.append(d)

seed("c01-asymptote", "C01", "a neutron f-wave channel at a ratio above 40, far outside the energies the tests sample",
     "the penetrability of l=3 switches to the asymptote P = rho at large ratios",
     [("rmatrix/src/calculatePenetrability.hpp", "    case 3 : {\n", "    case 3 : {\n\n      if ( ratio > 40. ) return ratio;\n")],
     '''  for ( double r : { 0.5, 3., 41., 100. } ) { double x = r * r; same( rmatrix::calculatePenetrability< rmatrix::Neutron >( 3, r, 0. ), r * x * x * x / ( 225. + 45. * x + 6. * x * x + x * x * x ), "P3" ); }''')
seed("c02-branch", "C02", "a d-wave channel far above the pole of its phase shift",
     "the l=2 phase shift of the functional interface takes another branch of the arctangent above the pole, so the two interfaces disagree",
     [("src/phaseShift.hpp", "    case 2: offset = 3/(3-rho2); break;", "    case 2: if ( rho2 > 30 ) return channelRatio - std::atan2( 3*channelRatio, 3-rho2 ); offset = 3/(3-rho2); break;")],
     '''  for ( double r : { 0.5, 1.5, 1.8, 2.5, 5.4, 5.6, 10. } ) same( phaseShift( 2, r ), rmatrix::calculatePhaseShift< rmatrix::Neutron >( 2, r, 0. ), "phi2" );''')
seed("c04-shift", "C04", "a charged-particle channel",
     "the shift factor pairs F with G' and G with F' (the derivatives are read from the wrong parts)",
     [("rmatrix/src/calculateShiftFactor.hpp", "  double dF = dgf.imag();\n  double dG = dgf.real();", "  double dF = dgf.real();\n  double dG = dgf.imag();")],
     '''  for ( double r : { 2., 5., 9. } ) for ( double e : { 0.5, 3. } ) for ( unsigned l : { 0u, 2u } ) {
    std::complex< double > g, d; rmatrix::coulombWaveFunctions( l, r, e, g, d );
    same( rmatrix::calculateShiftFactor< rmatrix::ChargedParticle >( l, r, e ), r * ( g.real() * d.real() + g.imag() * d.imag() ) / std::norm( g ), "S" ); }''')
seed("c06-overrun", "C06", "a charged channel with a ratio so large that the recurrence never reaches the cut-off",
     "the upward recurrence runs one partial wave further and writes behind the work array",
     [("rmatrix/src/coh3-extwave.hpp", "  for(l=1 ; l<MAX_L-1 ; l++){", "  for(l=1 ; l<MAX_L ; l++){")],
     '''  std::complex< double > g, d; try { rmatrix::coulombWaveFunctions( 3, 80., 1., g, d ); } catch ( ... ) {}''', flags="-fsanitize=address,undefined -fno-sanitize-recover=all")
seed("c07-cutoff", "C07", "a high partial wave at a small ratio, where the irregular function has already grown beyond the cut-off",
     "the upward recurrence stops at the growth cut-off although the requested partial wave is not reached, so the regular function of that wave and its Wronskian are never formed",
     [("rmatrix/src/coh3-extwave.hpp", "    if( (a/(p3*p3)) < CRIT_LMAX && (l >= lmax) ) break;", "    if( (a/(p3*p3)) < CRIT_LMAX ) break;")],
     '''  for ( double r : { 0.5, 1., 3. } ) for ( int l : { 0, 3, 12, 20 } ) { std::complex< double > g, d; rmatrix::coulombWaveFunctions( l, r, 0.5, g, d ); same( d.imag() * g.real() - d.real() * g.imag(), 1., "Wronskian" ); }''', also=("C06",))
seed("c08-count", "C08", "two particles with spins above 3/2", "the list of channel spins stops after four values",
     [("rmatrix/src/possibleChannelSpinValues.hpp", "  while ( max > values.back() ) {", "  while ( max > values.back() && values.size() < 4 ) {")],
     '''  for ( double i = 0.; i < 5.; i += 0.5 ) for ( double I = 0.; I < 5.; I += 0.5 ) same( rmatrix::possibleChannelSpinValues( i, I ).size(), 2. * std::min( i, I ) + 1., "count" );''')
seed("c09-digit", "C09", "an integral spin of 10 or more", "integral spins are written as one character",
     [("rmatrix/ChannelQuantumNumbers/src/toString.hpp", "                      std::to_string( static_cast<int>( half ) ) :", "                      std::string( 1, '0' + static_cast<int>( half ) ) :")],
     '''  auto t = rmatrix::ChannelQuantumNumbers( 9, 2.5, 11., -1 ).toString(); if ( t != "{9,5/2,11-}" ) { std::printf( "%s\\n", t.c_str() ); bad = 1; }''')
seed("c29-narrow", "C29", "packs with components of different types", "the sum of two packs takes the component types of the left one, so fractions are lost",
     [("pack.hpp", "      return pack((std::get<Is>(data) + std::get<Is>(other.data))...);", "      return Pack( static_cast<Ts>(std::get<Is>(data) + std::get<Is>(other.data))...);")],
     '''  auto p = pack( 1, 2. ) + pack( 0.5, 0.25 ); same( std::get< 0 >( p.data ), 1.5, "sum" ); same( std::get< 1 >( p.data ), 2.25, "sum" );''')
seed("c31-coefficient", "C31", "a charged channel with a Sommerfeld parameter of 15 or more below the turning point; the effect is small",
     "a wrong coefficient in the sixth Riccati function",
     [("rmatrix/src/coh3-asympt.hpp", "13178880.)-9225216.)+13520640.)-3588480.)+2487240.)-873180.)+130977.)\n      /(10321920.*t2*t2*t3);", "13178880.)-9225216.)+13520640.)-3588480.)+2487240.)-873180.)+130997.)\n      /(10321920.*t2*t2*t3);")],
     '''  // the polynomial of the derivative function is tied to the one of the function itself: d(q)/d(rho) = p1 / p0
  double y = 15., r = 16.5, h = 1e-4, a0, a1, b0, b1, c0, c1; rmatrix::omGcase1( r - h, y, &a0, &a1 ); rmatrix::omGcase1( r + h, y, &b0, &b1 ); rmatrix::omGcase1( r, y, &c0, &c1 );
  double p; { double y1 = 1./(2.*y), t = r*y1, u = 1.-t, t2 = t*u*u*u, t3 = std::sqrt(t2);
    double g0 = std::sqrt(t*u)+std::asin(std::sqrt(t))-std::acos(0.), g1 = std::log(t/u)/4., g2 = -(8.*t*t-12.*t+9.)/(48.*t3), g3 = (8.*t-3.)/(64.*t2);
    double g4 = (t*(t*(t*(t*(t*(2048.*t-9216.)+16128.)-13440.)-12240.)+7560.)-1890.)/(92160.*t2*t3), g5 = 3*(t*(t*(1024.*t-448.)+208.)-39.)/(8192.*t2*t2);
    double c[] = { 262144., -1966080., 6389760., -11714560., 13178880., -9225216., 13520640., -3588480., 2487240., -873180., 130977. }, g6 = 0.; for ( double k : c ) g6 = g6 * t + k; g6 = -g6/(10321920.*t2*t2*t3);
    double e[] = { 1105920., -55296., 314624., -159552., 45576., -5697. }, g7 = 0.; for ( double k : e ) g7 = g7 * t + k; g7 /= 393216.*t2*t2*t2;
    p = std::exp( -2.*y*g0+g1-y1*(g2-y1*(g3-y1*(g4-y1*(g5-y1*(g6-g7*y1))))) ); }
  if ( not ( std::abs( c0 / p - 1. ) < 1e-11 ) ) { std::printf( "G0 %.17g, published expansion %.17g\\n", c0, p ); bad = 1; }''')
seed("c13-cache", "C13", "two evaluations in a row at the same l and ratio with different Sommerfeld parameters",
     "the charged-particle penetrability keeps the last wave functions, keyed on l and ratio only",
     [("rmatrix/src/calculatePenetrability.hpp", "  std::complex< double > gf, dgf;\n  coulombWaveFunctions( l, ratio, eta, gf, dgf);\n", "  static std::complex< double > gf, dgf;\n  static double known = -1.;\n  static unsigned int wave = 0;\n  if ( known != ratio || wave != l ) { coulombWaveFunctions( l, ratio, eta, gf, dgf); known = ratio; wave = l; }\n")],
     '''  auto P = [] ( double e ) { return rmatrix::calculatePenetrability< rmatrix::ChargedParticle >( 1, 3., e ); };
  double a = P( 1. ); rmatrix::calculatePenetrability< rmatrix::ChargedParticle >( 2, 4., 1. ); double b = P( 2. ), c = ( rmatrix::calculatePenetrability< rmatrix::ChargedParticle >( 2, 4., 1. ), P( 1. ) ), d = P( 2. ); same( c, a, "P(1)" ); same( d, b, "P(2)" );''', also=("C04",))
seed("c05-large", "C05", "a charged channel with l above 12", "the sum of the Coulomb phase shift stops at n = 12",
     [("rmatrix/src/calculateCoulombPhaseShift.hpp", "             ranges::view::indices( 1, l + 1 )", "             ranges::view::indices( 1, std::min( l, 12 ) + 1 )")],
     '''  auto w = [] ( int l ) { return rmatrix::calculateCoulombPhaseShift< rmatrix::ChargedParticle >( l, 0.7 ); };
  for ( int l = 0; l < 30; ++l ) if ( w( l + 1 ) == w( l ) ) { std::printf( "no term added at l=%d\\n", l + 1 ); bad = 1; }''')
seed("c03-photon", "C03", "a photon channel evaluated at a ratio of zero", "the default penetrability becomes zero when the ratio is not positive",
     [("rmatrix/src/calculatePenetrability.hpp", "double calculatePenetrability( const unsigned int, const double, const double ) {\n\n  return 1.0;", "double calculatePenetrability( const unsigned int, const double ratio, const double ) {\n\n  return ratio > 0. ? 1.0 : 0.0;")],
     '''  same( rmatrix::calculatePenetrability< rmatrix::Photon >( 0, 0., 0. ), 1., "P" ); same( rmatrix::calculatePenetrability< rmatrix::Fission >( 1, 1., 0. ), 1., "P" );''')
seed("c32-large", "C32", "a polynomial evaluated at an argument beyond a million", "the Horner evaluation drops the linear coefficient for very large arguments",
     [("rmatrix/src/horner.hpp", "    y *= x;\n    y += *first;", "    y *= x;\n    y += ( std::distance( first, last ) == 2 && std::abs( x ) > 1e6 ) ? Y( 0. ) : Y( *first );")],
     '''  std::vector< double > c = { 1., 2., 3. }; double x = 2e6; same( ( rmatrix::horner( c.begin(), c.end(), x ) - x * x ) / x, 2. + 3. / x, "horner" );''')
