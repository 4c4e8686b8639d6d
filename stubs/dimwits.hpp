// Interface model of njoy/DimensionalAnalysis (dimwits): types only, no arithmetic.  Used only to
// let clang parse and type-check the library; nothing declared here is ever executed.
#pragma once
#include <cmath>
#include <complex>
#include <type_traits>
#include <utility>
namespace dimwits {
  // exponents are stored in twelfths so that roots stay integral: kg, m, s, A, K
  template< int M, int L, int T, int I, int K > struct Dim { };
  template< int N, int D = 1 > struct RatioType { };
  template< int N, int D = 1 > constexpr RatioType< N, D > Ratio{};
  template< typename U > struct Quantity;

  template< typename > struct isDim : std::false_type {};
  template< int... X > struct isDim< Dim< X... > > : std::true_type {};
  template< typename > struct isQuantity : std::false_type {};
  template< typename U > struct isQuantity< Quantity< U > > : std::true_type {};

  using Dimensionless = Dim<0,0,0,0,0>;
  using Kilogram = Dim<12,0,0,0,0>; using Gram = Kilogram; using Grams = Gram; using Dalton = Kilogram; using Daltons = Dalton;
  using Meter = Dim<0,12,0,0,0>;  using Meters = Meter;
  using Second = Dim<0,0,12,0,0>; using Seconds = Second;
  using Kelvin = Dim<0,0,0,0,12>; using Kelvins = Kelvin;
  using Coulomb = Dim<0,0,12,12,0>; using Coulombs = Coulomb;
  using Joule = Dim<12,24,-24,0,0>; using ElectronVolt = Joule; using ElectronVolts = Joule;
  using Barn = Dim<0,24,0,0,0>; using Barns = Barn;
  using Farad = Dim<-12,-24,48,24,0>; using Farads = Farad;

  template< int a,int b,int c,int d,int e,int f,int g,int h,int i,int j >
  constexpr Dim<a+f,b+g,c+h,d+i,e+j> operator*( Dim<a,b,c,d,e>, Dim<f,g,h,i,j> ) { return {}; }
  template< int a,int b,int c,int d,int e,int f,int g,int h,int i,int j >
  constexpr Dim<a-f,b-g,c-h,d-i,e-j> operator/( Dim<a,b,c,d,e>, Dim<f,g,h,i,j> ) { return {}; }
  template< int a,int b,int c,int d,int e, int N, int D >
  constexpr Dim<a*N/D,b*N/D,c*N/D,d*N/D,e*N/D> pow( Dim<a,b,c,d,e>, RatioType<N,D> ) { return {}; }
  namespace unit { template< int... X > constexpr auto sqrt( Dim<X...> ) { return Dim< (X/2)... >{}; } }

  template< int... X > constexpr Dim<X...> centi( Dim<X...> u ) { return u; }
  template< int... X > constexpr Dim<X...> kilo( Dim<X...> u ) { return u; }
  template< int... X > constexpr Dim<X...> milli( Dim<X...> u ) { return u; }
  template< int... X > constexpr Dim<X...> mega( Dim<X...> u ) { return u; }
  template< int... X > constexpr Dim<X...> femto( Dim<X...> u ) { return u; }

  constexpr Meter meter{}, meters{}; constexpr Second second{}, seconds{};
  constexpr Kelvin kelvin{}, kelvins{}; constexpr Coulomb coulomb{}, coulombs{};
  constexpr ElectronVolt electronVolt{}, electronVolts{}; constexpr Barn barn{}, barns{};
  constexpr Dalton dalton{}, daltons{}; constexpr Gram gram{}, grams{}; constexpr Farad farad{}, farads{};

  template< typename A, typename B > struct SameDimension {
    static_assert( std::is_same< A, B >::value, "DIMENSION-MISMATCH" );
    static constexpr bool value = true;
  };

  template< typename U > struct Quantity {
    using Units = U; using units = U;
    double value;
    constexpr Quantity() : value( 0. ) {}
    constexpr Quantity( const Quantity& ) = default;
    constexpr Quantity& operator=( const Quantity& ) = default;
    constexpr Quantity( U ) : value( 1. ) {}
    template< typename V > constexpr Quantity( const Quantity< V >& q )
      : value( q.value + 0.*SameDimension< U, V >::value ) {}
    constexpr Quantity& operator+=( const Quantity& ) { return *this; }
    constexpr Quantity& operator-=( const Quantity& ) { return *this; }
    constexpr Quantity& operator*=( double ) { return *this; }
    constexpr Quantity& operator/=( double ) { return *this; }
    constexpr Quantity operator-() const { return *this; }
    constexpr Quantity operator+() const { return *this; }
    template< typename V = U, std::enable_if_t< std::is_same< V, Dimensionless >::value, int > = 0 >
    constexpr operator double() const { return value; }
  };
  template< typename U > struct Complexity;

  template< typename T > using Scalar = std::enable_if_t< std::is_arithmetic< T >::value, int >;
  template< int... X, typename T, Scalar< T > = 0 > constexpr Quantity< Dim<X...> > operator*( T, Dim<X...> ) { return {}; }
  template< int... X, typename T, Scalar< T > = 0 > constexpr Quantity< Dim<X...> > operator*( Dim<X...>, T ) { return {}; }
  template< int... X, typename T, Scalar< T > = 0 > constexpr auto operator/( T, Dim<X...> ) { return Quantity< decltype( Dimensionless{} / Dim<X...>{} ) >{}; }
  template< typename U, typename T, Scalar< T > = 0 > constexpr Quantity< U > operator*( T, const Quantity<U>& ) { return {}; }
  template< typename U, typename T, Scalar< T > = 0 > constexpr Quantity< U > operator*( const Quantity<U>&, T ) { return {}; }
  template< typename U, typename T, Scalar< T > = 0 > constexpr Quantity< U > operator/( const Quantity<U>&, T ) { return {}; }
  template< typename U, typename T, Scalar< T > = 0 > constexpr auto operator/( T, const Quantity<U>& ) { return Quantity< decltype( Dimensionless{} / U{} ) >{}; }
  template< typename U, typename V > constexpr auto operator*( const Quantity<U>&, const Quantity<V>& ) { return Quantity< decltype( U{} * V{} ) >{}; }
  template< typename U, typename V > constexpr auto operator/( const Quantity<U>&, const Quantity<V>& ) { return Quantity< decltype( U{} / V{} ) >{}; }
  template< typename U, int... X > constexpr auto operator*( const Quantity<U>&, Dim<X...> d ) { return Quantity< decltype( U{} * d ) >{}; }
  template< typename U, int... X > constexpr auto operator/( const Quantity<U>&, Dim<X...> d ) { return Quantity< decltype( U{} / d ) >{}; }
  template< typename U, int... X > constexpr auto operator*( Dim<X...> d, const Quantity<U>& ) { return Quantity< decltype( d * U{} ) >{}; }
  template< typename U, int... X > constexpr auto operator/( Dim<X...> d, const Quantity<U>& ) { return Quantity< decltype( d / U{} ) >{}; }
  template< typename U, typename V > constexpr Quantity<U> operator+( const Quantity<U>& a, const Quantity<V>& ) { (void)SameDimension<U,V>::value; return a; }
  template< typename U, typename V > constexpr Quantity<U> operator-( const Quantity<U>& a, const Quantity<V>& ) { (void)SameDimension<U,V>::value; return a; }
#define DW_CMP( OP ) \
  template< typename U, typename V > constexpr bool operator OP( const Quantity<U>& a, const Quantity<V>& b ) { (void)SameDimension<U,V>::value; return a.value OP b.value; }
  DW_CMP( < ) DW_CMP( > ) DW_CMP( <= ) DW_CMP( >= ) DW_CMP( == ) DW_CMP( != )
#undef DW_CMP
#define DW_MIX( OP ) \
  template< typename T, Scalar< T > = 0 > constexpr double operator OP( T a, const Quantity<Dimensionless>& b ) { return a OP b.value; } \
  template< typename T, Scalar< T > = 0 > constexpr double operator OP( const Quantity<Dimensionless>& b, T a ) { return a OP b.value; }
  DW_MIX( + ) DW_MIX( - )
#undef DW_MIX
  template< typename U > constexpr auto sqrt( const Quantity<U>& ) { return Quantity< decltype( unit::sqrt( U{} ) ) >{}; }
  template< typename U > constexpr auto abs( const Quantity<U>& q ) { return q; }
  template< typename U, int N, int D > constexpr auto pow( const Quantity<U>&, RatioType<N,D> r ) { return Quantity< decltype( pow( U{}, r ) ) >{}; }
  namespace constant {
    constexpr Quantity< decltype( Joule{} * Second{} ) > dirac{};
    constexpr Quantity< Coulomb > elementaryCharge{};
    constexpr Quantity< decltype( Meter{} / Second{} ) > lightSpeed{};
  }
}
namespace std {
  template< typename U > constexpr dimwits::Quantity< U > abs( const dimwits::Quantity< U >& q ) { return q; }
  template< typename U > constexpr auto sqrt( const dimwits::Quantity< U >& q ) { return dimwits::sqrt( q ); }
}
