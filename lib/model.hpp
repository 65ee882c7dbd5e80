// Reference model of the documented semantics, run as an interpreter over a
// recorded trace: decisions made by user code are read from the trace, every
// library-initiated call is predicted and compared.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include "trace.hpp"
#include "desc.hpp"
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <cstdint>

namespace model {

typedef uint32_t Tags;
inline Tags T( int n ) { return Tags( 1 ) << n; }

extern int coverOnly;             // collect coverage keys of this property only (-1: all)

struct Issue { Tags tags; size_t pos; std::string msg; };

struct Coverage
{
  std::unordered_set< uint64_t > keys[ 32 ];   // per property: distinct situations observed
  std::map< std::string, uint64_t > cnt;       // event counters
  std::vector< std::string > samples;
};

// Checks one instance's records. truncated: the process died; returns issues.
std::vector< Issue > check( const desc::Chart & c, const std::vector< trace::Rec > & recs,
  bool truncated, Coverage * cov );

std::string render( const desc::Chart & c, const trace::Rec & r );
std::string tagNames( Tags t );
Tags parseTags( const std::string & violationLine );

// Address- and identity-independent rendering, for differential comparison
std::vector< std::string > normalise( const desc::Chart & c,
  const std::vector< trace::Rec > & recs, bool relaxedOps );
}
#endif
