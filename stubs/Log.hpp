#pragma once
namespace njoy { struct Log {
  template< typename... A > static void error( A&&... ); template< typename... A > static void info( A&&... );
  template< typename... A > static void warning( A&&... ); template< typename... A > static void debug( A&&... );
}; }
