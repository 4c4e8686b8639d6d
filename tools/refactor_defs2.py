"""behaviour-preserving edits of the part of the library that the tests here do not build"""
import re
from refactor_defs import ref
M = "rmatrix/"
def cut(f, a, b, new):      # replace everything from a up to (not including) b
    def g(t):
        i = t.index(a); j = t.index(b, i); return t[:i] + new + t[j:]
    return (f, g, None)
SG = M + "SpinGroup/src/"; SL = M + "legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/"; ML = M + "legacy/resolved/SpinGroup/MultiLevelBreitWigner/src/"; UN = M + "legacy/unresolved/SpinGroup/src/"; CB = M + "legacy/CompoundSystemBase/src/"
def R(n, p, *e): ref(n, p, *e, slice_=False)
R("sg-acc-loop", "C14 C19", cut(SG + "evaluate.hpp", "    // concat and multiply", "  };\n\n  // process the incident", '''    // add each partial cross section to its reaction
    unsigned int i = 0;
    for ( const auto value : sigma ) {

      result[ identifiers[ i ] ] += factor * value;
      ++i;
    }
    result[ identifiers[ i ] ] += factor * capture.front();
'''))
R("sg-elements", "C14 C19", cut(SG + "evaluate.hpp", "    // the elements of the R_L", "    // the exponential of", '''    // the row of the U matrix for this incident channel
    std::vector< std::complex< double > > uElements;
    for ( unsigned int j = 0; j < size; ++j ) {

      const std::complex< double > t = rlmatrix.data()[ c * size + j ];
      const double unit = j == c ? 1. : 0.;
      const std::complex< double > w = unit + std::complex< double >( 0., 2. ) * diagonalSqrtPMatrix[c] * t * diagonalSqrtPMatrix[j];
      uElements.push_back( diagonalOmegaMatrix[c] * w * diagonalOmegaMatrix[j] );
    }

'''))
R("sg-factor", "C14 C19", cut(SG + "evaluate.hpp", "  const auto factor = [&] {", "  // the cross section identifiers", '''  const auto factor = std::visit( [&] ( const auto& channel ) {
      const auto k = channel.waveNumber( energy );
      return pi * channel.statisticalSpinFactor() / ( k * k );
    }, this->channels_[ this->incident_.front() ] );

'''))
R("sg-incident", "C15 C19", cut(SG + "determineIncidentChannels.hpp", "  auto iter = ", "  return result;", '''  for ( unsigned int i = 0; i < channels.size(); ++i ) {

    if ( std::visit( isIncidentChannel, channels[ i ] ) ) { result.push_back( i ); }
  }
'''))
R("sg-omega", "C19", (SG + "omegas.hpp", "return std::exp( std::complex< double >( 0.0, w - phi ) ); }", "const double angle = w - phi; return std::complex< double >( std::cos( angle ), std::sin( angle ) ); }"))
R("sg-grid", "C25", cut(SG + "grid.hpp", "  auto totalWidth = [&]", "  for ( const auto& resonance", '''  auto totalWidth = [&] ( const auto& resonance ) -> Width {

    Width total = 2. * resonance.eliminatedWidth() * resonance.eliminatedWidth();
    const auto gammas = resonance.widths();
    const std::vector< double > ps = this->penetrabilities( resonance.energy() );
    for ( unsigned int c = 0; c < gammas.size(); ++c ) { total += toWidth( gammas[ c ], ps[ c ] ); }
    return total;
  };

'''))
R("sg-grid-init", "C25", (SG + "grid.hpp", '''      grid.push_back( energy - 0.5 * total );
      grid.push_back( energy );
      grid.push_back( energy + 0.5 * total );''', '''      const auto half = total / 2.;
      for ( const auto& value : { energy - half, energy, energy + half } ) { grid.push_back( value ); }'''))
R("sg-verify-any", "C15", cut(SG + "verifyChannels.hpp", "  if ( static_cast< unsigned int >(", "    Log::error( \"Not all", '''  if ( std::any_of( channels.begin(), channels.end(),
                    [&] ( const auto& channel ) { return not ( getIncidentPairID( channel ) == in ); } ) ) {

'''))
R("sg-verify-jpi", "C15", cut(SG + "verifyChannels.hpp", "  ranges::for_each( channels | ranges::view::drop_exactly", "}\n", '''  for ( unsigned int i = 1; i < channels.size(); ++i ) { checkQuantumNumbers( channels[ i ] ); }
'''))
R("sg-verify-unique", "C15", cut(SG + "verifyChannels.hpp", "  const auto verifyUniqueChannel = [&]", "  // verify that each channel's Jpi", '''  const auto getChannelID = [] ( const auto& entry ) {

    return std::visit( [] ( const auto& channel ) { return channel.channelID(); }, entry );
  };
  for ( unsigned int i = 0; i < channels.size(); ++i ) {

    for ( unsigned int j = i + 1; j < channels.size(); ++j ) {

      if ( getChannelID( channels[ i ] ) == getChannelID( channels[ j ] ) ) {

        Log::error( "Channels in the spin group do not seem to be unique." );
        throw std::exception();
      }
    }
  }

'''))
R("sg-resonancechannels", "C15", cut(SG + "verifyResonanceChannels.hpp", "  ranges::for_each(", "}\n", '''  const auto labels = table.channels();
  for ( unsigned int i = 0; i < size; ++i ) {

    if ( getChannelID( channels[ i ] ) != labels[ i ] ) {

      Log::error( "Channels and resonance table are not in the same order." );
      throw std::exception();
    }
  }
'''))
R("tmat-loop", "C19", cut(SG + "evaluateTMatrix.hpp", "    // the elements of the R_L", "  };\n", '''    for ( unsigned int j = 0; j < size; ++j ) {

      result[ ReactionChannelID( channels[ c ] + "->" + channels[ j ] ) ] =
        diagonalSqrtPMatrix[ c ] * rlmatrix.data()[ c * size + j ] * diagonalSqrtPMatrix[ j ];
    }
'''))
R("slbw-loop", "C20 C14", cut(SL + "evaluate.hpp", "  // accumulate the cross section components", "  // calculate the resulting", '''  // accumulate the cross section components
  Data< double > components{ 0., 0., 0., 0. };
  for ( unsigned int r = 0; r < this->elastic().size(); ++r ) {

    components += calculate( this->elastic()[ r ], this->capture()[ r ], this->fission()[ r ], this->total()[ r ], this->delta()[ r ], this->denominator()[ r ] );
  }

'''))
R("slbw-pre", "C20 C14", cut(SL + "precompute.hpp", "  // precompute values", "}\n", '''  // precompute values
  const auto resonances = this->resonanceTable().resonances();
  const auto size = resonances.size();
  this->elastic_.resize( size ); this->capture_.resize( size ); this->fission_.resize( size );
  this->total_.resize( size ); this->delta_.resize( size ); this->denominator_.resize( size );
  for ( unsigned int r = 0; r < size; ++r ) {

    this->elastic_[ r ] = elastic( resonances[ r ] );
    this->capture_[ r ] = capture( resonances[ r ] );
    this->fission_[ r ] = fission( resonances[ r ] );
    this->total_[ r ] = total( resonances[ r ] );
    this->delta_[ r ] = delta( resonances[ r ] );
    this->denominator_[ r ] = denominator( this->delta_[ r ], this->total_[ r ] );
  }
'''))
R("slbw-lambda", "C20 C14", cut(SL + "evaluate.hpp", "    return { ( elastic *", "  };\n\n  // accumulate", '''    const double inverse = 1. / denominator;
    return { elastic * inverse * ( elastic - 2. * ( total * sin2phi - delta * sintwophi ) ),
             capture * elastic * inverse,
             fission * elastic * inverse,
             0.0 };
'''))
R("mlbw-term", "C20", cut(ML + "evaluate.hpp", "  for ( unsigned int r = 1;", "  // calculate the resonance crossterm", '''  for ( unsigned int r = 0; r < nr; ++r ) {

    for ( unsigned int rp = r + 1; rp < nr; ++rp ) {

      const auto weight = elastic[r] * elastic[rp] / ( denominator[r] * denominator[rp] );
      term += weight * ( 2. * delta[r] * delta[rp] + 0.5 * total[r] * total[rp] );
    }
  }

'''))
R("un-common", "C21 C14", cut(UN + "evaluate.hpp", "  // calculate the resulting", "}\n" if False else "ZZZ", "") if False else (UN + "evaluate.hpp", lambda t: t[:t.index("  // calculate the resulting")] + '''  // calculate the resulting cross sections
  const auto scale = factor * spinFactor * widths.elastic / spacing;
  result[ this->elasticID() ] += scale * ( widths.elastic * integrals.elastic - 2. * sin2phi );
  result[ this->captureID() ] += scale * widths.capture * integrals.capture;
  if ( widths.fission != 0. * electronVolt ) {

    result[ this->fissionID() ] += scale * widths.fission * integrals.fission;
  }
}
''', None))
R("cs-potential", "C14 C20 C21", (CB + "evaluate.hpp", '''    value += ( 2. * l + 1. ) * sin2phi;
  }
''', '''    value = value + sin2phi * ( 2. * l + 1. );
  }
'''), (CB + "evaluate.hpp", "  ranges::for_each( this->groups_,\n                    [&] ( auto& group )\n                        { group.evaluate( energy, result ); } );", "  for ( auto& group : this->groups_ ) { group.evaluate( energy, result ); }"))
R("cs-lmax", "C20 C21", cut(CB + "getLMax.hpp", "  if ( groups.size() != 0 )", "}\n" if False else "  return 0;", '''  unsigned int lmax = 0;
  for ( const auto& group : groups ) { lmax = std::max( lmax, group.orbitalAngularMomentum() ); }
  return lmax;
'''))
R("ch-sommerfeld", "C23 C04", cut(M + "Channel/src/sommerfeldParameter.hpp", "  if ( zZ.value == 0.0 )", "  else {", '''  if ( not ( zZ.value != 0.0 ) ) { return 0.; }
'''))
R("ch-wavenumber", "C23 C24", cut(M + "Channel/src/waveNumber.hpp", "  const auto mu =", "}\n", '''  const auto channelEnergy = std::abs( this->Q() + this->incidentParticlePair().massRatio() * energy );
  return sqrt( 2. * channelEnergy * this->particlePair().reducedMass() ) / hbar;
'''))
R("pcd-loop", "C26", (M + "src/makeParticleChannels.hpp", lambda t: t[:t.index("  // do some range magic")] + '''  std::vector< ParticleChannel > result;
  const auto q = endfPairs.Q();
  const auto mt = endfPairs.MT();
  const auto numbers = endfChannels.particlePairNumbers();
  for ( unsigned int i = 0; i < numbers.size(); ++i ) {

    result.push_back( makeParticleChannel( incident, getParticlePair( numbers[ i ] ), q[ numbers[ i ] - 1 ],
                                           makeChannelQuantumNumbers( endfChannels.orbitalMomentumValues()[ i ], endfChannels.channelSpinValues()[ i ] ),
                                           makeChannelRadii( endfChannels.trueChannelRadii()[ i ], endfChannels.effectiveChannelRadii()[ i ] ),
                                           endfChannels.boundaryConditionValues()[ i ], mt[ numbers[ i ] - 1 ] ) );
  }
  return result;
}
''', None))
R("pcd-case", "C26", cut(M + "src/makeParticleChannels.hpp", "      case  18 : return", "      default : {", '''      case  18 :
      case  19 :
      case  20 :
      case  21 :
      case  38 : return Channel< Fission >{ incident, pair, Q * electronVolt,
                                            numbers, radii, boundary };
'''))
R("pcd-empty", "C26", (M + "src/makeParticleChannelData.hpp", lambda t: t.replace("if ( ranges::distance( nonzero ) != 0 ) {", "const bool hasData = ranges::distance( nonzero ) > 0;\n      if ( hasData ) {"), None))
R("pcd-helper", "C26", (M + "src/makeParticleChannelData.hpp", lambda t: t.replace("""    return toReducedWidth( ( width < 0. ? -1. : +1. ) *
                           std::sqrt( std::abs( width ) / 2. / P ) );""", """    const double magnitude = std::sqrt( 0.5 * std::abs( width ) / P );
    return toReducedWidth( width < 0. ? -magnitude : magnitude );"""), None))
R("radii-if", "C24 C17 C30", cut(M + "src/makeChannelRadii.hpp", "  if ( nro ) {", "  else {\n\n    if ( not naps", '''  if ( nro ) {

    const auto table = nro.value();
    if ( naps == 1 ) { return ChannelRadii( table ); }
    if ( naps == 2 ) { return ChannelRadii( ap * rootBarn, table ); }
    if ( naps != 0 ) { throw std::runtime_error( "You somehow reached unreachable code" ); }
    const double derived = 0.08 + 0.123 * std::pow( awri * neutronMass, 1. / 3. );
    return ChannelRadii( derived * rootBarn, table );
  }
'''))
R("law-reg", "C24 C30", cut(M + "src/makeChannelRadiusTable.hpp", "    const auto regions = radius", "    ChannelRadiusTable table(", '''    std::vector< TableVariant< Energy, ChannelRadius > > tables;
    const auto regions = radius->regions();
    const auto interpolants = radius->interpolants();
    for ( unsigned int i = 0; i < interpolants.size(); ++i ) { tables.push_back( makeTable( regions[ i ], interpolants[ i ] ) ); }

'''))
R("endf-energies", "C17", (M + "src/fromENDF.hpp", lambda t: t.replace("  const auto lower = endfResonanceRange.lowerEnergy();\n  const auto upper = endfResonanceRange.upperEnergy();", "  const double lower = endfResonanceRange.lowerEnergy(), upper = endfResonanceRange.upperEnergy();").replace("bool shiftFactorBoundary =\n              endfRMatrix.particlePairs().shiftFactorFlag().front() == 0 ? true : false;", "const bool shiftFactorBoundary = not endfRMatrix.particlePairs().shiftFactorFlag().front();"), None))
R("rm-acc", "C28", ("reichMoore/Lvalue/src/call.hpp", '''        const bool hasFission =
          ranges::accumulate( group | evaluateResonances,
                              false, std::logical_or<>{} );
''', '''        bool hasFission = false;
        for ( const auto& resonance : group ) {
          if ( resonance( energy, rootPenetrationFactor, rMatrix ) ) { hasFission = true; }
        }
'''), ("reichMoore/Lvalue/src/call.hpp", '''        const auto evaluateResonances =
          ranges::view::transform( [&]( const auto& resonance ) {
              return resonance( energy, rootPenetrationFactor, rMatrix );
            } );
''', ""))
R("rm-solve", "C28", cut("reichMoore/Lvalue/src/solveRfunction.hpp", "  if ( ( std::abs( std::real( rMatrixEntry", "    const auto conjugateComplement", "  {\n"), ("reichMoore/Lvalue/src/solveRfunction.hpp", lambda t: t[:t.index("  } else {")] + "  }\n}\n", None))
R("bw-term", "C28", ("breitWigner/multiLevel/Lvalue/src/evaluate.hpp", '''        const auto scattering = first * ( first - 2 * sinSquaredPhi )
                                + second * ( second + sin2Phi );''', '''        const auto scattering = first * first + second * second
                                + second * sin2Phi - 2. * first * sinSquaredPhi;'''))
R("bw-order", "C28", ("breitWigner/multiLevel/Base/src/order.hpp", lambda t: t[:t.index("  auto peaks =")] + '''  for ( auto& lvalue : lvalues ) {
    auto& peak = static_cast< Peak& >( lvalue ).resonances;
    std::stable_sort( peak.begin(), peak.end(),
                      []( const auto& left, const auto& right )
                      { return left.statisticalFactor < right.statisticalFactor; } );
  }
  return lvalues;
}
''', None))
R("bw-cross", "C29 C28", ("breitWigner/multiLevel/Base/src/evaluate.hpp", "  const auto scaling = 4.0 * pi / ( waveNumber * waveNumber );", "  const auto inverse = 1. / waveNumber;\n  const auto scaling = 4.0 * pi * inverse * inverse;"))
