// Closed forms of the neutron hard-sphere functions (ENDF-102 appendix D, table D.1; Lane & Thomas).
namespace vspec {
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;

inline double denominator( unsigned l, double x ) {
  if ( l == 0 ) return 1.;
  if ( l == 1 ) return 1. + x;
  if ( l == 2 ) return 9. + 3. * x + x * x;
  if ( l == 3 ) return 225. + 45. * x + 6. * x * x + x * x * x;
  return 11025. + 1575. * x + 135. * x * x + 10. * x * x * x + x * x * x * x;
}
inline double pw( double x, unsigned l ) {
  double r = 1.; for ( unsigned i = 0; i < l; ++i ) r = r * x; return r;
}
inline double hsP( unsigned l, double rho ) { return rho * pw( rho * rho, l ) / denominator( l, rho * rho ); }
inline double hsS( unsigned l, double rho ) {
  double x = rho * rho;
  double n = l == 0 ? 0. : l == 1 ? 1. : l == 2 ? 18. + 3. * x : l == 3 ? 675. + 90. * x + 6. * x * x
           : 44100. + 4725. * x + 270. * x * x + 10. * x * x * x;
  return - n / denominator( l, x );
}
inline double hsPhi( unsigned l, double rho ) {
  double x = rho * rho;
  if ( l == 0 ) return rho;
  if ( l == 1 ) return rho - std::atan( rho );
  if ( l == 2 ) return rho - std::atan( 3. * rho / ( 3. - x ) );
  if ( l == 3 ) return rho - std::atan( rho * ( 15. - x ) / ( 15. - 6. * x ) );
  return rho - std::atan( rho * ( 105. - 10. * x ) / ( 105. - 45. * x + x * x ) );
}

double impl_rm_P( unsigned l, double rho, double eta ) { return rm::calculatePenetrability< rm::Neutron >( l, rho, eta ); }
double spec_rm_P( unsigned l, double rho, double eta ) { if ( l > 4 ) throw std::exception(); return hsP( l, rho ); }
double impl_rm_S( unsigned l, double rho, double eta ) { return rm::calculateShiftFactor< rm::Neutron >( l, rho, eta ); }
double spec_rm_S( unsigned l, double rho, double eta ) { if ( l > 4 ) throw std::exception(); return hsS( l, rho ); }
double impl_rm_phi( unsigned l, double rho, double eta ) { return rm::calculatePhaseShift< rm::Neutron >( l, rho, eta ); }
double spec_rm_phi( unsigned l, double rho, double eta ) { if ( l > 4 ) throw std::exception(); return hsPhi( l, rho ); }
double impl_phi( int l, double rho ) { return rr::phaseShift( l, rho ); }
double spec_phi( int l, double rho ) { if ( l < 0 or l > 4 ) throw std::exception(); return hsPhi( l, rho ); }
std::array< double, 2 > impl_ps( int l, double rho ) { return rr::penetrationShift( l, rho ); }
std::array< double, 2 > spec_ps( int l, double rho ) {
  if ( l < 0 or l > 4 ) throw std::exception();
  return {{ rho > 0. ? hsP( l, rho ) : 0., hsS( l, rho ) }};
}
std::array< double, 2 > impl_psclass( int l, double rho ) { rr::PenetrationShift p( l ); return p( rho ); }
template < int L > std::array< double, 2 > viafactory( double rho ) { auto f = rr::penetrationShift( rr::Integer< L >{} ); return f( rho ); }
std::array< double, 2 > impl_psfac0( double rho ) { return viafactory< 0 >( rho ); }
std::array< double, 2 > spec_psfac0( double rho ) { return spec_ps( 0, rho ); }
std::array< double, 2 > impl_psfac1( double rho ) { return viafactory< 1 >( rho ); }
std::array< double, 2 > spec_psfac1( double rho ) { return spec_ps( 1, rho ); }
std::array< double, 2 > impl_psfac2( double rho ) { return viafactory< 2 >( rho ); }
std::array< double, 2 > spec_psfac2( double rho ) { return spec_ps( 2, rho ); }
std::array< double, 2 > impl_psfac3( double rho ) { return viafactory< 3 >( rho ); }
std::array< double, 2 > spec_psfac3( double rho ) { return spec_ps( 3, rho ); }
std::array< double, 2 > impl_psfac4( double rho ) { return viafactory< 4 >( rho ); }
std::array< double, 2 > spec_psfac4( double rho ) { return spec_ps( 4, rho ); }
std::array< double, 2 > impl_psfac5( double rho ) { return viafactory< 5 >( rho ); }
std::array< double, 2 > spec_psfac5( double rho ) { return spec_ps( 5, rho ); }

// channel types other than neutron and charged particle
double impl_defaults_P( unsigned l, double rho, double eta, bool fission ) { return fission ? rm::calculatePenetrability< rm::Fission >( l, rho, eta ) : rm::calculatePenetrability< rm::Photon >( l, rho, eta ); }
double spec_defaults_P( unsigned l, double rho, double eta, bool fission ) { return 1.; }
double impl_defaults_S( unsigned l, double rho, double eta, bool fission ) { return fission ? rm::calculateShiftFactor< rm::Fission >( l, rho, eta ) : rm::calculateShiftFactor< rm::Photon >( l, rho, eta ); }
double spec_defaults_S( unsigned l, double rho, double eta, bool fission ) { return 0.; }
double impl_defaults_phi( unsigned l, double rho, double eta, bool fission ) { return fission ? rm::calculatePhaseShift< rm::Fission >( l, rho, eta ) : rm::calculatePhaseShift< rm::Photon >( l, rho, eta ); }
double spec_defaults_phi( unsigned l, double rho, double eta, bool fission ) { return 0.; }
double impl_defaults_w( int l, double eta, unsigned type ) {
  return type == 0 ? rm::calculateCoulombPhaseShift< rm::Neutron >( l, eta ) : type == 1 ? rm::calculateCoulombPhaseShift< rm::Photon >( l, eta )
                   : rm::calculateCoulombPhaseShift< rm::Fission >( l, eta ); }
double spec_defaults_w( int l, double eta, unsigned type ) { return 0.; }
double impl_w( int l, double eta ) { return rm::calculateCoulombPhaseShift< rm::ChargedParticle >( l, eta ); }
double spec_w( int l, double eta ) { double s = 0.; for ( int n = 1; n <= l; ++n ) s = s + std::atan( eta / n ); return s; }
// what the unrepaired code evaluates (known finding of C05: the existing tests require these values)
double known_w( int l, double eta ) { double s = 0.; for ( int n = 1; n <= l; ++n ) s = s + 1. / std::tan( eta / n ); return s; }

}