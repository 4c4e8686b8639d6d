"""behaviour-preserving edits: (name, properties whose checks run, [(file, old, new)], part of the compiled slice)"""
REF = []
def ref(name, props, *edits, slice_=True): REF.append((name, props.split(), list(edits), slice_))
def whole(f, text): return (f, lambda t: text, None)

ref("ps-helper", "C01 C11 C13", ("src/penetrationShift.hpp", "class PenetrationShift {", '''namespace detail { inline double cubic( double x ) { const double square = x * x; return 225 + 45*x + 6*square + square*x; } }
class PenetrationShift {'''), ("src/penetrationShift.hpp", "         r = 225 + rho2*(45 + rho2*(6 + rho2));", "         r = detail::cubic(rho2);"))
ref("ps-switch", "C01 C30", ("src/penetrationShift.hpp", lambda t: t[:t.index("      // use Horner")] + '''      switch ( L ) {
        case 0: r = a = 1; b = 0; break;
        case 1: r = 1 + rho2; a = rho2; b = 1; break;
        case 2: r = 9 + rho2*(3 + rho2); a = rho4; b = 18 + rho2*3; break;
        case 3: r = 225 + rho2*(45 + rho2*(6 + rho2)); a = rho4*rho2; b = 675 + rho2*(90 + rho2*6); break;
        case 4: r = 11025 + rho2*(1575 + rho2*(135 + rho2*(10 + rho2))); a = rho4*rho4; b = 44100 + rho2*(4725 + rho2*(270 + rho2*10)); break;
        default: throw std::exception();
      }
      const std::array<double,2> result = {{ channelRatio > 0 ? channelRatio*a/r : 0., -b/r }};
      return result;
''' + t[t.index("   }\n};"):], None))
ref("ps-table", "C01 C11 C13", ("src/penetrationShift.hpp", lambda t: t[:t.index("      double r, a, b;")] + '''      static constexpr double den[5][5] = { {1,0,0,0,0}, {1,1,0,0,0}, {9,3,1,0,0}, {225,45,6,1,0}, {11025,1575,135,10,1} };
      static constexpr double num[5][4] = { {0,0,0,0}, {1,0,0,0}, {18,3,0,0}, {675,90,6,0}, {44100,4725,270,10} };
      if ( L < 0 or L > 4 ) throw std::exception();
      double r = 0., b = 0., a = 1.;
      for ( int i = 4; i >= 0; --i ) r = r * rho2 + den[L][i];
      for ( int i = 3; i >= 0; --i ) b = b * rho2 + num[L][i];
      for ( int i = 0; i < L; ++i ) a *= rho2;
      (void) rho4;
      return {{ (channelRatio > 0)*channelRatio*a/r, -b/r }};
''' + t[t.index("   }\n};"):], None))
ref("phi-lambda", "C02 C11", ("src/phaseShift.hpp", lambda t: '''inline double phaseShift( const int L, const double channelRatio ){
  const double rho2 = channelRatio * channelRatio;
  auto offset = [&] () -> double {
    if ( L == 1 ) return 1.;
    if ( L == 2 ) return 3/(3-rho2);
    if ( L == 3 ) return (15-rho2)/(15-6*rho2);
    if ( L == 4 ) return (105-10*rho2)/(105-45*rho2+rho2*rho2);
    throw std::exception();
  };
  return L == 0 ? channelRatio : channelRatio - std::atan( channelRatio * offset() );
}
''', None))
ref("P-ifchain", "C01 C30", ("rmatrix/src/calculatePenetrability.hpp", "    case 1 : ", "    case 1u : "))
ref("spins-for", "C08", ("rmatrix/src/possibleChannelSpinValues.hpp", '''  std::vector< Spin > values = { min };
  while ( max > values.back() ) {

    values.push_back( values.back() + 1.0 );
  }
  return values;''', '''  const auto size = static_cast< std::size_t >( max - min + 0.5 ) + 1;
  std::vector< Spin > values;
  values.reserve( size );
  for ( std::size_t k = 0; k < size; ++k ) values.push_back( min + k );
  return values;'''))
ref("spins-iota", "C08", ("rmatrix/src/possibleChannelSpinValues.hpp", '''  std::vector< Spin > values = { min };
  while ( max > values.back() ) {

    values.push_back( values.back() + 1.0 );
  }
  return values;''', '''  std::vector< Spin > values( static_cast< int >( max - min ) + 1 );
  std::iota( values.begin(), values.end(), min );
  return values;'''))
ref("spins-do", "C08", ("rmatrix/src/possibleChannelSpinValues.hpp", '''  std::vector< Spin > values = { min };
  while ( max > values.back() ) {

    values.push_back( values.back() + 1.0 );
  }
  return values;''', '''  std::vector< Spin > values;
  Spin value = min;
  do { values.emplace_back( value ); value += 1.0; } while ( value <= max );
  return values;'''))
ref("J-helper", "C08 C10", ("rmatrix/src/possibleChannelTotalAngularMomentumValues.hpp", lambda t: '''inline std::vector< TotalAngularMomentum > sequence( TotalAngularMomentum first, const TotalAngularMomentum last ) {

  std::vector< TotalAngularMomentum > values;
  for ( ; first <= last; first += 1.0 ) values.push_back( first );
  return values;
}

''' + t.replace('''  std::vector< TotalAngularMomentum > values = { min };
  while ( max > values.back() ) {

    values.push_back( values.back() + 1.0 );
  }
  return values;''', "  return sequence( min, max );"), None))
ref("q-stream", "C09", ("rmatrix/ChannelQuantumNumbers/src/toString.hpp", lambda t: t[:t.index("  auto toHalf")] + '''  auto text = [] ( double a ) {
    const int twice = static_cast< int >( 2. * a );
    if ( twice % 2 == 0 ) return std::to_string( twice / 2 );
    std::string result = std::to_string( twice );
    result += "/2";
    return result;
  };
  std::string out = "{";
  out += std::to_string( this->l_ );
  out.append( "," );
  out += text( this->s_ ) + ',' + text( this->J_ );
  out.push_back( this->parity_ > 0 ? '+' : '-' );
  return out + "}";
}
''', None))
ref("q-fmod", "C09", ("rmatrix/ChannelQuantumNumbers/src/toString.hpp", '''         { double half;
           return std::modf( a, &half ) == 0. ?''', '''         { const double half = std::floor( a );
           return std::fmod( a, 1. ) == 0. ?'''))
ref("pack-apply", "C29", ("pack.hpp", lambda t: t.replace('''      return pack((std::get<Is>(data) * value)...);''', '''      return std::apply( [&] ( const auto&... x ) { return pack( ( x * value )... ); }, data );'''), None))
ref("horner-acc", "C32 C01", ("rmatrix/src/horner.hpp", lambda t: t[:t.index("  Y y = *first;")] + '''  Y result( *first++ );
  while ( first != last ) result = result * x + *first++;
  return result;
}
''', None))
ref("horner-std", "C32 C01", ("rmatrix/src/horner.hpp", lambda t: t[:t.index("  Y y = *first;")] + '''  return std::accumulate( std::next( first ), last, Y( *first ), [&] ( const Y& y, const auto& c ) { return y * x + c; } );
}
''', None))
ref("w-loop", "C05 C03", ("rmatrix/src/calculateCoulombPhaseShift.hpp", lambda t: t[:t.index("  return ranges::accumulate")] + '''  double sum = 0.;
  for ( int n = l; n >= 1; --n ) { const double angle = eta / n; sum += 1. / std::tan( angle ); }
  return sum;
}
''', None))
ref("w-cot", "C05", ("rmatrix/src/calculateCoulombPhaseShift.hpp", "{ return 1. / std::tan( eta / n ); }", "{ return std::cos( eta / n ) / std::sin( eta / n ); }"))
ref("coh-vector", "C06 C07 C04", ("rmatrix/src/coh3-coulomb.hpp", '''  std::complex<double> Cou0[MAX_L]; // G + iF
  std::complex<double> Cou1[MAX_L]; // G'+ iF'
  omExternalFunction(l ,ratio, eta, sigma0, Cou0, Cou1);
''', '''  std::vector< std::complex<double> > Cou0( MAX_L ); // G + iF
  std::vector< std::complex<double> > Cou1( MAX_L ); // G'+ iF'
  omExternalFunction(l ,ratio, eta, sigma0, Cou0.data(), Cou1.data());
'''))
ref("coh-array", "C06 C07", ("rmatrix/src/coh3-coulomb.hpp", '''  std::complex<double> Cou0[MAX_L]; // G + iF
  std::complex<double> Cou1[MAX_L]; // G'+ iF'
  omExternalFunction(l ,ratio, eta, sigma0, Cou0, Cou1);
''', '''  std::array< std::complex<double>, MAX_L > Cou0; // G + iF
  std::array< std::complex<double>, MAX_L > Cou1; // G'+ iF'
  omExternalFunction(l ,ratio, eta, sigma0, Cou0.data(), &Cou1[0]);
'''))
ref("coh-sigma", "C06 C07 C04", ("rmatrix/src/coh3-coulomb.hpp", '''inline void coulombWaveFunctions(''', '''inline double sigmaZero( double eta ) {
  const double y2 = eta*eta, y3 = 16.0 + y2, y4 = y3*y3;
  const double arcs = std::atan(eta)+std::atan(eta/2.)+std::atan(eta/3.);
  return -eta+eta*std::log(y3)/2.+3.5*std::atan(eta/4.) - arcs
         -eta*(1.+(y2-48.)/(30.*y4)+(y2*y2-160.*y2+1280.)/(105.*y4*y4))/(12.*y3);
}
inline void coulombWaveFunctions('''), ("rmatrix/src/coh3-coulomb.hpp", lambda t: t[:t.index("  double y2 = eta*eta;")] + "  double sigma0 = sigmaZero( eta );\n" + t[t.index("\n  std::complex<double> Cou0"):], None))
ref("ext-loops", "C06 C07", ("rmatrix/src/coh3-extwave.hpp", '''    for(l=l0 ; l>0 ; l--){
      p3 = omFfunction(l,coulomb,rho_match,p1,p2);
      if(l <= lmax+2) wfn[l-1].imag(p3);
      p1 = p2;  p2 = p3;
    }
''', '''    int k = l0;
    while(k > 0){
      p3 = omFfunction(k,coulomb,rho_match,p1,p2);
      if(k-1 <= lmax+1) wfn[k-1] = std::complex<double>(wfn[k-1].real(), p3);
      p1 = p2;
      p2 = p3;
      --k;
    }
'''))
ref("ext-wronskian", "C06 C07", ("rmatrix/src/coh3-extwave.hpp", '''      double wr = omDfunction(l,coulomb,rho_match,wfn[l  ].real(),
                                                  wfn[l+1].real() );
      double wi = omDfunction(l,coulomb,rho_match,wfn[l  ].imag(),
                                                  wfn[l+1].imag() );
      dfn[l] = std::complex<double>(wr,wi);
''', '''      const std::complex<double> here = wfn[l], next = wfn[l+1];
      dfn[l] = { omDfunction(l,coulomb,rho_match,here.real(),next.real()),
                 omDfunction(l,coulomb,rho_match,here.imag(),next.imag()) };
'''))
ref("ext-norm", "C06 C07", ("rmatrix/src/coh3-extwave.hpp", "    for(l=0 ; l<=lmax+1 ; l++) wfn[l].imag(wfn[l].imag()*a);", "    const double norm = a;\n    std::for_each( wfn, wfn + lmax + 2, [norm] ( std::complex<double>& w ) { w.imag( w.imag() * norm ); } );"))
ref("G-rewrite", "C07 C06", ("rmatrix/src/coh3-extwave.hpp", '''  return( ((j+j1)*(eta+j*j1/rho)*g2-j1*std::sqrt(j*j+eta*eta)*g1)
          /(j*std::sqrt(j1*j1+eta*eta)) );''', '''  const double down = j1*std::sqrt(j*j+eta*eta);
  const double up   = j*std::sqrt(j1*j1+eta*eta);
  const double mid  = (2.0*j+1.0)*(eta+j*j1/rho);
  return (mid*g2 - down*g1)/up;'''))
ref("asym-early", "C31 C06", ("rmatrix/src/coh3-asympt.hpp", '''  if((p0 != 0.0) && (p1 != 0.0)){
    if((dr = ra-rm) != 0.0){
      n = (int)( std::abs(dr)/MESH_RHO )+1;
      mesh = dr/(double)n;
      omNewmark(n,mesh,coulomb,ra,&p0,&p1);
    }
  }
''', '''  dr = ra-rm;
  if((p0 != 0.0) && (p1 != 0.0) && (dr != 0.0)){
    n = 1 + static_cast<int>( std::fabs(dr)/MESH_RHO );
    mesh = dr/n;
    omNewmark(n,mesh,coulomb,ra,&p0,&p1);
  }
'''))
ref("case3-for", "C31", ("rmatrix/src/coh3-asympt.hpp", '''      gs += gs1;  gt += gt1;
      ps += ps1;  pt += pt1;
      gs0 = gs1;
      gt0 = gt1;
      ps0 = ps1;
      pt0 = pt1;''', '''      gs = gs + (gs0 = gs1);
      gt = gt + (gt0 = gt1);
      ps = ps + (ps0 = ps1);
      pt = pt + (pt0 = pt1);'''))
ref("case2-helper", "C31", ("rmatrix/src/coh3-asympt.hpp", '''inline void omGcase2(double y, double *p0, double *p1)
{
  *p0=  1.223404016 *pow(y, 1.0/6.0)''', '''inline void omGcase2(double y, double *p0, double *p1)
{
  const double sixth = std::pow(y, 1.0/6.0);
  *p0=  1.223404016 *sixth'''))
ref("newmark-while", "C31", ("rmatrix/src/coh3-asympt.hpp", '''    g0 = g1;
    f0 = f1;
    r0 = r1;
  }
  *p0 = g0;''', '''    std::swap( g0, g1 );
    std::swap( f0, f1 );
    r0 = r1;
  }
  *p0 = g0;'''))
ref("cs-struct", "C04 C03", ("rmatrix/src/calculateShiftFactor.hpp", '''  std::complex< double > gf, dgf;
  coulombWaveFunctions( l, ratio, eta, gf, dgf);

  double F = gf.imag();
  double G = gf.real();
  double dF = dgf.imag();
  double dG = dgf.real();
  return ( F == 0. ) and ( G == 0. )
           ? 0.
           : ratio / ( F * F + G * G ) * ( F * dF + G * dG );''', '''  std::complex< double > gf, dgf;
  coulombWaveFunctions( l, ratio, eta, gf, dgf);

  const double norm = std::norm( gf );
  if ( not ( norm > 0. ) ) return 0.;
  return ratio * std::real( std::conj( gf ) * dgf ) / norm;'''))
ref("cp-arg", "C04", ("rmatrix/src/calculatePhaseShift.hpp", '''  double F = gf.imag();
  double G = gf.real();
  return ( F == 0. ) and ( G == 0. ) ? 0. : std::atan2( F, G );''', '''  if ( gf == std::complex< double >( 0., 0. ) ) return 0.;
  return std::arg( gf );'''))
