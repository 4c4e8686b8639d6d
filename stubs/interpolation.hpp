// Interface model of njoy/interpolation
#pragma once
#include <vector>
#include <variant>
#include <tuple>
#include <type_traits>
namespace njoy { namespace interpolation {
  struct Histogram {}; struct LinearLinear {}; struct LinearLogarithmic {}; struct LogarithmicLinear {}; struct LogarithmicLogarithmic {};
  namespace table {
    namespace search { struct Binary {}; struct Linear {}; }
    namespace discontinuity { struct TakeLeft {}; struct TakeRight {}; struct TakeAverage {}; }
    namespace left { namespace interval { struct Throws { template< class... > struct Type {}; }; struct IsAsserted {}; struct IsCompiletimeConstant {}; } }
    namespace right { namespace interval { struct Throws { template< class... > struct Type {}; }; struct IsAsserted {}; struct IsCompiletimeConstant {}; } }
    template< typename Law, typename Search, typename Disc, typename X, typename Y > struct Type { using Xvalue = typename X::value_type; using Yvalue = typename Y::value_type;
      template< typename... A > Type( A&&... ); };
    template< typename... T > struct Variant { using First = std::tuple_element_t< 0, std::tuple< T... > >; using Xvalue = typename First::Xvalue; using Yvalue = typename First::Yvalue; };
    template< typename T > struct Vector { using Xvalue = typename T::Xvalue; using Yvalue = typename T::Yvalue; };
    template< typename X, typename Y, typename L > struct Made;
  }
  template< typename Core, typename... Policies > struct Table {
    using Xvalue = typename Core::Xvalue; using Yvalue = typename Core::Yvalue;
    template< typename... A > Table( A&&... );
    Yvalue operator()( const Xvalue& ) const;
    Yvalue operator()( const Xvalue&, std::size_t ) const;
    const std::vector< Xvalue >& x() const; const std::vector< Yvalue >& y() const;
    Xvalue tableMin() const; Xvalue tableMax() const; std::size_t size() const;
  };
  namespace table {
    template< typename L, typename X, typename Y >
    Table< Type< L, search::Binary, discontinuity::TakeLeft, std::vector< typename std::decay_t< X >::value_type >, std::vector< typename std::decay_t< Y >::value_type > > >
    make( X&&, Y&& );
  }
} }
