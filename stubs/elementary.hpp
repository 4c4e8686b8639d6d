// Interface model of njoy/elementary
#pragma once
#include <string>
#include <vector>
#include "Log.hpp"
namespace njoy { namespace elementary {
  struct ParticleID { ParticleID(); ParticleID( const std::string& ); ParticleID( const char* ); ParticleID( int ); ParticleID( int, int );
    const std::string& symbol() const; int number() const; int za() const; };
  struct ReactionType { ReactionType( const std::string& ); ReactionType( const char* ); ReactionType( int ); int number() const; const std::string& symbol() const;
    bool isSpecial() const; std::vector< ParticleID > particles() const; int excitation() const; };
  struct ParticlePairID { ParticlePairID( const std::string& ); ParticlePairID( const char* ); ParticlePairID( const ParticleID&, const ParticleID& );
    const ParticleID& particle() const; const ParticleID& residual() const; const std::string& symbol() const; };
  struct ReactionID { ReactionID( const std::string& ); ReactionID( const char* ); ReactionID( const ParticlePairID&, const ParticlePairID& );
    ReactionID( const ParticleID&, const ParticleID&, const ReactionType& ); const std::string& symbol() const; };
  ParticleID resolve( const ParticleID&, const ParticleID&, const ReactionType& );
#define EL_CMP( T ) bool operator==( const T&, const T& ); bool operator!=( const T&, const T& ); bool operator<( const T&, const T& );
  EL_CMP( ParticleID ) EL_CMP( ReactionType ) EL_CMP( ParticlePairID ) EL_CMP( ReactionID )
#undef EL_CMP
} }
