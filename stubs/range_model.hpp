// Interface model of range-v3: eager element-typed ranges, declarations only.
#pragma once
#include <array>
#include <cstddef>
#include <iterator>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <map>
#include <functional>
namespace ranges {
  template< typename R > using value_of = std::remove_cv_t< std::remove_reference_t< decltype( *std::begin( std::declval< R& >() ) ) > >;
  template< typename R > using ref_of = decltype( *std::begin( std::declval< R& >() ) );
  template< typename T > struct rng {
    using value_type = std::remove_cv_t< std::remove_reference_t< T > >;
    using iterator = std::remove_reference_t< T >*;
    using reference = std::remove_reference_t< T >&;
    iterator begin() const; iterator end() const;
    std::size_t size() const; bool empty() const;
    reference front() const; reference back() const; reference operator[]( std::size_t ) const; reference at( std::size_t ) const;
    template< typename C, typename = std::enable_if_t< std::is_constructible< typename C::value_type, const value_type& >::value && !std::is_same< C, std::initializer_list< typename C::value_type > >::value > > operator C() const;
  };
  template< typename F > struct closure { F f; };
  template< typename R, typename F > auto operator|( R&& r, const closure< F >& c ) -> decltype( c.f( std::forward< R >( r ) ) ) { throw 0; }
  template< typename F > closure< F > make_closure( F f );

  namespace views {
#define RM_UNARY( NAME, ELEM ) \
    struct NAME##_fn { \
      template< typename R > auto operator()( R&& ) const -> rng< ELEM > { throw 0; } \
    };
    struct all_fn { template< typename R > rng< ref_of< R > > operator()( R&& ) const { throw 0; } };
    constexpr all_fn all{};
    template< typename R > rng< ref_of< R > > operator|( R&&, all_fn ) { throw 0; }
    struct join_fn { template< typename R > rng< ref_of< ref_of< R > > > operator()( R&& ) const { throw 0; } };
    constexpr join_fn join{};
    template< typename R > rng< ref_of< ref_of< R > > > operator|( R&&, join_fn ) { throw 0; }

    template< typename F > struct transform_c { F f;
      template< typename R > auto operator()( R&& ) const -> rng< std::invoke_result_t< F&, ref_of< R > > > { throw 0; } };
    struct transform_fn {
      template< typename F > closure< transform_c< std::decay_t< F > > > operator()( F&& ) const { throw 0; }
      template< typename R, typename F > auto operator()( R&&, F&& ) const -> rng< std::invoke_result_t< F&, ref_of< R > > > { throw 0; }
    };
    constexpr transform_fn transform{};
    template< typename F > struct filter_c { F f; template< typename R > rng< ref_of< R > > operator()( R&& ) const { throw 0; } };
    struct filter_fn {
      template< typename F > closure< filter_c< std::decay_t< F > > > operator()( F&& ) const { throw 0; }
      template< typename R, typename F > rng< ref_of< R > > operator()( R&&, F&& ) const { throw 0; }
    };
    constexpr filter_fn filter{}; constexpr filter_fn remove_if{}; constexpr filter_fn take_while{}; constexpr filter_fn drop_while{};
    struct group_c { template< typename R > rng< rng< ref_of< R > > > operator()( R&& ) const { throw 0; } };
    struct group_by_fn { template< typename F > closure< group_c > operator()( F&& ) const { throw 0; } };
    constexpr group_by_fn group_by{};
    struct chunk_fn { closure< group_c > operator()( std::size_t ) const;
      template< typename R > rng< rng< ref_of< R > > > operator()( R&&, std::size_t ) const { throw 0; } };
    constexpr chunk_fn chunk{};
    struct same_c { template< typename R > rng< ref_of< R > > operator()( R&& ) const { throw 0; } };
    struct same_n_fn { closure< same_c > operator()( std::size_t ) const { throw 0; } template< typename R > rng< ref_of< R > > operator()( R&&, std::size_t ) const { throw 0; } };
    constexpr same_n_fn take{}, drop{}, take_exactly{}, drop_exactly{}, stride{};
    struct reverse_fn { template< typename R > rng< ref_of< R > > operator()( R&& ) const { throw 0; } };
    constexpr reverse_fn reverse{};
    template< typename R > rng< ref_of< R > > operator|( R&&, reverse_fn ) { throw 0; }
    struct iota_fn { template< typename T > rng< T > operator()( T ) const { throw 0; } template< typename T, typename U > rng< T > operator()( T, U ) const { throw 0; } };
    constexpr iota_fn iota{}; constexpr iota_fn indices{}; constexpr iota_fn closed_indices{}; constexpr iota_fn closed_iota{}; constexpr iota_fn ints{};
    struct linear_distribute_fn { template< typename T > rng< T > operator()( T, T, std::ptrdiff_t ) const { throw 0; } };
    constexpr linear_distribute_fn linear_distribute{};
    struct concat_fn { template< typename R, typename... Rs > rng< value_of< R > > operator()( R&&, Rs&&... ) const { throw 0; } };
    constexpr concat_fn concat{};
    struct repeat_n_fn { template< typename T > rng< std::decay_t< T > > operator()( T&&, std::size_t ) const { throw 0; } };
    constexpr repeat_n_fn repeat_n{};
    struct single_fn { template< typename T > rng< std::decay_t< T > > operator()( T&& ) const { throw 0; } };
    constexpr single_fn single{};
    struct zip_fn { template< typename... Rs > rng< std::tuple< value_of< Rs >... > > operator()( Rs&&... ) const { throw 0; } };
    constexpr zip_fn zip{}; constexpr zip_fn cartesian_product{};
    struct zip_with_fn { template< typename F, typename... Rs > auto operator()( F&&, Rs&&... ) const -> rng< std::invoke_result_t< F&, ref_of< Rs >... > > { throw 0; } };
    constexpr zip_with_fn zip_with{};
  }
  namespace view = views;

  struct accumulate_fn {
    template< typename R, typename T > T operator()( R&&, T ) const { throw 0; }
    template< typename R, typename T, typename Op > T operator()( R&&, T, Op&& ) const { throw 0; }
    template< typename R, typename T, typename Op, typename P > T operator()( R&&, T, Op&&, P&& ) const { throw 0; }
  };
  constexpr accumulate_fn accumulate{};
  struct distance_fn { template< typename R > std::ptrdiff_t operator()( R&& ) const { throw 0; } template< typename I > std::ptrdiff_t operator()( I, I ) const { throw 0; } };
  constexpr distance_fn distance{};
  struct for_each_fn { template< typename R, typename F > void operator()( R&&, F&& ) const { throw 0; } };
  constexpr for_each_fn for_each{};
  struct count_if_fn { template< typename R, typename F > std::ptrdiff_t operator()( R&&, F&& ) const { throw 0; } };
  constexpr count_if_fn count_if{};
  struct find_if_fn { template< typename R, typename F > auto operator()( R&& r, F&& ) const -> decltype( std::begin( r ) ) { throw 0; } };
  constexpr find_if_fn find_if{};
  struct bool_fn { template< typename R, typename F > bool operator()( R&&, F&& ) const { throw 0; } };
  constexpr bool_fn any_of{}, all_of{}, none_of{};
  struct to_vector_fn {};
  constexpr to_vector_fn to_vector{}; 
  template< typename R > std::vector< value_of< R > > operator|( R&&, to_vector_fn ) { throw 0; }
  template< typename C > struct to_fn { template< typename R > C operator()( R&& ) const { throw 0; } };
  template< typename C > closure< to_fn< C > > to_(); template< typename C > closure< to_fn< C > > to();
  template< typename I > rng< decltype( *std::declval< I >() ) > make_iterator_range( I, I );
  template< typename I > rng< decltype( *std::declval< I >() ) > make_subrange( I, I );
  struct minmax_fn { template< typename R > value_of< R > operator()( R&& ) const { throw 0; } };
  constexpr minmax_fn max{}, min{};
  struct plus { template< typename A, typename B > auto operator()( A&& a, B&& b ) const -> decltype( a + b ) { throw 0; } };
  struct minus { template< typename A, typename B > auto operator()( A&& a, B&& b ) const -> decltype( a - b ) { throw 0; } };
  struct multiplies { template< typename A, typename B > auto operator()( A&& a, B&& b ) const -> decltype( a * b ) { throw 0; } };
  namespace actions { struct sort_fn { template< typename R > std::decay_t< R > operator()( R&& ) const { throw 0; } template< typename F > sort_fn operator()( F&&, int ) const { throw 0; } }; constexpr sort_fn sort{}, unique{};
    template< typename R > std::decay_t< R > operator|( R&&, sort_fn ) { throw 0; } template< typename R > R& operator|=( R&, sort_fn ) { throw 0; } }
  namespace action = actions;
  using std::begin; using std::end; using std::back_inserter; using std::size;
}
