// Shared runtime for all monitors: deterministic case generation, oracles,
// clause counters, violation log.  One process runs cases [start,start+count)
// of one seed; a case is reproduced from (seed, case) alone.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <exception>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <iomanip>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vt
{
typedef long double ld;

inline uint64_t mix( uint64_t z )
{
    z += 0x9e3779b97f4a7c15ull;
    z = ( z ^ ( z >> 30 )) * 0xbf58476d1ce4e5b9ull;
    z = ( z ^ ( z >> 27 )) * 0x94d049bb133111ebull;
    return z ^ ( z >> 31 );
}

struct Rng
{
    uint64_t s;
    const uint8_t* p; const uint8_t* e; // fuzzer bytes, used up first
    uint64_t n, from, to, salt;         // draws so far; draws [from,to) differ from the plain stream
    explicit Rng( uint64_t seed ) : s( seed ), p( 0 ), e( 0 ), n( 0 ), from( 0 ), to( 0 ), salt( 0 ) {}
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t r = mix( s );
        if( n >= from && n < to ) r = mix( r ^ salt );
        ++n;
        if( p )
        {
            uint64_t v = 0; int n = 0;
            while( p != e && n < 2 ) { v = ( v << 8 ) | *p++; ++n; }
            if( n ) r = mix( v * 0x100000001b3ull );
        }
        return r;
    }
    size_t u( size_t n ) { return n ? size_t( next() % n ) : 0; }     // [0,n)
    int i( int a, int b ) { return a + int( next() % uint64_t( b - a + 1 )); } // [a,b]
    bool b() { return ( next() >> 13 ) & 1; }
    bool one( size_t n ) { return u( n ) == 0; }
    double d() { return double( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); } // [0,1)
    double r( double a, double c ) { return a + ( c - a ) * d(); }
};

// ---------------------------------------------------------------- statistics
struct Clause { std::string key; uint64_t n; uint64_t bad; };
inline std::map< std::string, Clause >& clauses()
{ static std::map< std::string, Clause > m; return m; }
inline Clause& clause( const char* key )
{
    Clause& c = clauses()[ key ];
    if( c.key.empty( )) { c.key = key; c.n = 0; c.bad = 0; }
    return c;
}
struct Violation { std::string key, where, msg; uint64_t id; };
struct Global
{
    std::vector< Violation > violations;
    std::unordered_set< uint64_t > hashes;
    std::vector< uint64_t > order; // hashes of distinct non-trivial cases
    uint64_t cases, nontrivial, distinct;
    std::vector< std::string > samples;
    bool fuzz;
    Global() : cases( 0 ), nontrivial( 0 ), distinct( 0 ), fuzz( false ) {}
};
inline Global& G() { static Global* g = new Global; return *g; }

enum Profile { P_SMALL, P_UNIT, P_LOG, P_SPECIAL, P_TIES, P_SPARSE, P_WIDE, P_NEG, P_POS, P_NEAR, P_TINY, P_COUNT };

struct Ctx
{
    Rng rng; uint64_t id; int prof, wide; uint64_t h; uint64_t values; uint64_t checks;
    double first; bool varied; bool sampling; std::ostringstream text;
    Ctx( uint64_t seed, uint64_t id_ )
        : rng( mix( seed * 0x2545f4914f6cdd1dull + mix( id_ ))), id( id_ ), prof( 0 ), wide( 0 ),
          h( 1469598103934665603ull ), values( 0 ), checks( 0 ), first( 0 ),
          varied( false ), sampling( false ) {}
    template< class T > void in( const T& v )
    {
        double d = double( v ); uint64_t b; memcpy( &b, &d, 8 );
        h = ( h ^ mix( b )) * 1099511628211ull;
        if( values++ == 0 ) first = d; else if( d != first ) varied = true;
        if( sampling && values < 24 ) text << ( values > 1 ? " " : "" ) << std::setprecision( 9 ) << d;
    }
    void note( const std::string& s ) { if( sampling ) text << " {" << s << "}"; for( char ch : s ) h = ( h ^ uint8_t( ch )) * 1099511628211ull; }
};

inline std::string cat() { return std::string(); }
template< class A > inline void put( std::ostream& os, const A& a ) { os << a; }
inline void put( std::ostream& os, double a ) { os << std::setprecision( 17 ) << a; }
inline void put( std::ostream& os, float a ) { os << std::setprecision( 9 ) << a; }
inline void put( std::ostream& os, ld a ) { os << std::setprecision( 21 ) << a; }
inline void put( std::ostream& os, unsigned char a ) { os << int( a ); }
inline void put( std::ostream& os, signed char a ) { os << int( a ); }
inline void put_all( std::ostream& ) {}
template< class A, class... B > inline void put_all( std::ostream& os, const A& a, const B&... b )
{ put( os, a ); os << ' '; put_all( os, b... ); }
template< class... A > inline std::string str( const A&... a )
{ std::ostringstream os; put_all( os, a... ); return os.str(); }

inline void fail( Ctx& c, Clause& cl, const char* where, const std::string& msg )
{
    ++cl.bad;
    if( G().fuzz )
    {
        fprintf( stderr, "VIOLATED %s %s %s\n", cl.key.c_str(), where, msg.c_str( ));
        abort();
    }
    if( cl.bad <= 6 )
        G().violations.push_back( Violation{ cl.key, where, msg, c.id } );
}

#define CHECK( key, cond, ... ) do { static vt::Clause& cl_ = vt::clause( key ); \
    ++cl_.n; ++c.checks; if( !( cond )) vt::fail( c, cl_, __PRETTY_FUNCTION__, vt::str( __VA_ARGS__ )); } while( 0 )
// counts an observation (state reached) without judging anything
#define SAW( key ) do { static vt::Clause& cl_ = vt::clause( key ); ++cl_.n; } while( 0 )

// ------------------------------------------------------------------- values
template< class T, bool F = std::is_floating_point< T >::value > struct Gen;
template< class T > struct Gen< T, true >
{
    static T get( Ctx& c )
    {
        Rng& r = c.rng;
        const double sg = r.b() ? 1 : -1;
        switch( c.prof )
        {
        case P_SMALL: return T( r.i( -9, 9 ));
        case P_UNIT: return T( r.r( -1, 1 ));
        case P_LOG: return T( sg * std::ldexp( r.r( .5, 1 ), r.i( -12, 12 )));
        case P_SPECIAL:
        {
            static const double s[] = { 0, -0.0, 1, -1, .5, -.5, 2, -2, 3, 1e-3, -1e-3,
                1.5707963267948966, 3.141592653589793, 1e3, -1e3, 0.1, -0.3333333333, 1e-7, 7, 255 };
            return T( s[ r.u( sizeof( s ) / sizeof( *s )) ] );
        }
        case P_TIES: return T( r.b() ? 2 : ( r.b() ? -2 : 1 ));
        case P_SPARSE: return r.one( 4 ) ? T( r.r( -4, 4 )) : T( 0 );
        case P_WIDE: return T( sg * std::ldexp( r.r( .5, 1 ), r.i( -30, 30 )));
        case P_NEG: return T( -r.r( 1e-3, 5 ));
        case P_NEAR: // beside 0, 1 and 2, by a few units in the last place up to a percent
        {
            const int k = r.i( 0, 3 ), digits = std::numeric_limits< T >::digits - 1;
            const ld d = r.one( 4 ) ? 0 : r.b() ? ldexpl( r.i( 1, 4 ), -digits ) : powl( 10, -r.r( 2, digits * .3 ));
            return T( sg * ( k == 3 ? 1 + d : k == 2 ? 1 - d : k == 1 ? 2 - d : d ));
        }
        case P_TINY: return T( sg * std::ldexp( r.r( .5, 1 ), r.i( -26, -18 )));
        default: return T( r.r( 1e-3, 5 ));
        }
    }
};
template< class T > struct Gen< T, false >
{
    static T get( Ctx& c )
    {
        Rng& r = c.rng;
        const bool s = std::is_signed< T >::value;
        if( c.wide ) // up to so many bits, neighbours among them
        {
            const int bits = std::min( c.wide, std::numeric_limits< T >::digits );
            uint64_t x = r.next() >> ( 64 - bits ); if( r.one( 3 )) x >>= r.i( 0, bits - 1 ); else if( r.b( )) x = ( bits == 64 ? ~0ull : ( 1ull << bits ) - 1 ) - r.u( 3 );
            return T( s && r.b() ? -(long long)( x ) : (long long)( x ));
        }
        switch( c.prof )
        {
        case P_SMALL: return T( s ? r.i( -9, 9 ) : r.i( 0, 9 ));
        case P_TIES: return T( r.b() ? 2 : 1 );
        case P_SPARSE: return r.one( 4 ) ? T( r.i( 1, 9 )) : T( 0 );
        case P_NEG: return T( s ? r.i( -20, -1 ) : r.i( 1, 20 ));
        case P_POS: return T( r.i( 1, 20 ));
        case P_WIDE: return T( s ? r.i( -120, 120 ) : r.i( 0, 250 ));
        default: return T( s ? r.i( -40, 40 ) : r.i( 0, 60 ));
        }
    }
};
inline long double low_bits( Ctx& c, long double v ) { return c.prof == P_SMALL || c.prof == P_SPECIAL || c.prof == P_TIES || c.rng.b() ? v : v * ( 1 + c.rng.i( -511, 511 ) * std::ldexp( 1.0L, -62 ) ); }
template< class T > inline T low_bits( Ctx&, T v ) { return v; } // a double draws all of its digits
template< class T > inline T gen( Ctx& c ) { const T v = low_bits( c, Gen< T >::get( c )); c.in( v ); return v; }
template< class T > inline T gen_nz( Ctx& c )
{
    T v = Gen< T >::get( c );
    if( v == T( 0 ) || std::abs( ld( v )) < 1e-8L ) v = T( 3 );
    c.in( v ); return v;
}
// any object with begin()/end()
template< class V > inline void fill( Ctx& c, V& v )
{
    typedef typename std::remove_reference< decltype( *v.begin( )) >::type T;
    for( auto it = v.begin(); it != v.end(); ++it ) *it = gen< T >( c );
}
template< class V > inline void fill_nz( Ctx& c, V& v )
{
    typedef typename std::remove_reference< decltype( *v.begin( )) >::type T;
    for( auto it = v.begin(); it != v.end(); ++it ) *it = gen_nz< T >( c );
}
inline int pick_profile( Ctx& c ) { return c.prof = int( c.rng.u( P_COUNT )); }
// one case in three: integers of up to so many bits, which a detour through a floating-point type would not survive
template< class T > inline void pick_wide( Ctx& c, int off = 0, int share = 1 )
{ if( std::is_floating_point< T >::value || std::numeric_limits< T >::digits < 15 || !c.rng.one( 3 )) return; c.wide = ( std::numeric_limits< T >::digits - off ) / share; SAW( "saw-wide-integers" ); }
inline int pick_mild( Ctx& c ) // magnitudes that keep products well scaled
{ static const int p[] = { P_SMALL, P_UNIT, P_SPECIAL, P_TIES, P_SPARSE, P_NEG, P_POS, P_LOG, P_NEAR, P_TINY };
  return c.prof = p[ c.rng.u( 10 ) ]; }

// ------------------------------------------------------------------ oracles
template< class T > inline ld eps() { return ld( std::numeric_limits< T >::epsilon( )); }
template< class T > typename std::enable_if< std::is_floating_point< T >::value, bool >::type
near( T got, ld ref, ld scale, double k = 8 )
{
    const ld big = ld( std::numeric_limits< T >::max( )) / 16;
    if( !( fabsl( ref ) < big ) || !( scale < big )) return true; // overflow: not judged
    return fabsl( ld( got ) - ref ) <= ld( k ) * eps< T >() * std::max( scale, fabsl( ref ))
                                     + ld( k ) * ld( std::numeric_limits< T >::min( ));
}
template< class T > typename std::enable_if< !std::is_floating_point< T >::value, bool >::type
near( T got, ld ref, ld, double = 8 )
{ return ld( got ) == ref; }
// bit-for-bit the same value (NaN equal to NaN, -0 equal to 0)
template< class T > inline bool same( T a, T b ) { return a == b || ( a != a && b != b ); }
template< class T > inline bool finite( T a ) { return std::isfinite( double( a )) || std::isfinite( ld( a )); }

// object in a heap block of exactly its own size, filled with a pattern before
template< class T > struct Heap
{
    std::unique_ptr< T > p;
    Heap() : p( new T ) {}
    template< class... A > explicit Heap( A&&... a ) : p( new T( std::forward< A >( a )... )) {}
    T& operator*() { return *p; }
    T* operator->() { return p.get(); }
};
// object between canaries
template< class T > struct Canary
{
    unsigned char pre[ 64 ]; T v; unsigned char post[ 64 ];
    Canary() : v() { memset( pre, 0xA5, 64 ); memset( post, 0x5A, 64 ); }
    bool ok() const
    {
        for( int i = 0; i < 64; ++i ) if( pre[ i ] != 0xA5 || post[ i ] != 0x5A ) return false;
        return true;
    }
};
template< class T > inline std::vector< unsigned char > bytes( const T& o )
{
    const unsigned char* p = reinterpret_cast< const unsigned char* >( &o );
    return std::vector< unsigned char >( p, p + sizeof( T ));
}
// memcmp that leaves out the padding of a long double
template< class T > inline int memdiff( const T* a, const T* b, size_t n )
{
    if( !std::is_same< T, long double >::value ) return memcmp( a, b, n );
    for( size_t i = 0; i < n / sizeof( T ); ++i ) if( memcmp( a + i, b + i, 10 )) return 1;
    return 0;
}
template< class V > inline std::string show( const V& v )
{
    std::ostringstream os; os << std::setprecision( 12 ) << '[';
    for( auto it = v.begin(); it != v.end(); ++it ) os << double( *it ) << ' ';
    os << ']'; return os.str();
}

// --------------------------------------------------------------------- main
inline std::string json( const std::string& s )
{
    std::string o = "\"";
    for( size_t i = 0; i < s.size(); ++i )
    {
        const unsigned char ch = s[ i ];
        if( ch == '"' || ch == '\\' ) { o += '\\'; o += char( ch ); }
        else if( ch < 32 || ch > 126 ) { char b[ 8 ]; snprintf( b, 8, "\\u%04x", ch ); o += b; }
        else o += char( ch );
    }
    return o + "\"";
}
} // namespace vt

using vt::Ctx; using vt::ld; using vt::gen; using vt::gen_nz; using vt::fill; using vt::near;
using vt::P_SMALL; using vt::P_UNIT; using vt::P_LOG; using vt::P_SPECIAL; using vt::P_TIES;
using vt::P_SPARSE; using vt::P_WIDE; using vt::P_NEG; using vt::P_POS;

void run_case( Ctx& c );      // one case; defined by each monitor
void start_run();             // once per process, before the first case
void end_run( Ctx& c );       // once per process, after the last case

#if defined( VERIF_UNIT ) // a further object file: main is elsewhere
#elif defined( VERIF_FUZZ )
extern "C" int LLVMFuzzerTestOneInput( const uint8_t* data, size_t n )
{
    static bool first = true;
    if( first ) { first = false; vt::G().fuzz = true; start_run(); }
    Ctx c( 7, 0 );
    c.rng.p = data; c.rng.e = data + n;
    run_case( c );
    return 0;
}
#else
// One case; every sixth is followed at once by relatives, which repeat its draws but for one or two.
// What a call returns must not depend on the similar call before it.
static void related_cases( Ctx& c )
{
    const vt::Rng base = c.rng; run_case( c );
    const uint64_t h = vt::mix( base.s ^ 0x5bd1e995u ), n = c.rng.n; if( h % 6 || !n || n > 200000 ) return;
    const int k = 1 + int( h / 6 % 3 );
    for( int i = 0; i < k; ++i )
    {
        c.rng = base; c.prof = c.wide = 0; c.rng.salt = vt::mix( h + i + 1 ); c.rng.from = c.rng.salt % n; c.rng.to = c.rng.from + 1 + ( c.rng.salt >> 40 ) % 2;
        static vt::Clause& cl = vt::clause( "saw-related-case" ); ++cl.n; run_case( c );
    }
}
int main( int argc, char** argv )
{
    uint64_t seed = 1, start = 0, count = 100; std::string out, prog;
    for( int i = 1; i + 1 < argc; i += 2 )
    {
        const std::string k = argv[ i ], v = argv[ i + 1 ];
        if( k == "--seed" ) seed = strtoull( v.c_str(), 0, 10 );
        else if( k == "--start" ) start = strtoull( v.c_str(), 0, 10 );
        else if( k == "--count" ) count = strtoull( v.c_str(), 0, 10 );
        else if( k == "--out" ) out = v;
        else if( k == "--progress" ) prog = v;
    }
    volatile uint64_t dummy[ 2 ] = { 0, 0 };
    volatile uint64_t* cur = dummy;
    if( !prog.empty( ))
    {
        int fd = open( prog.c_str(), O_RDWR | O_CREAT, 0644 );
        if( fd >= 0 && ftruncate( fd, 16 ) == 0 )
        {
            void* m = mmap( 0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
            if( m != MAP_FAILED ) cur = static_cast< volatile uint64_t* >( m );
            close( fd );
        }
    }
    vt::Global& g = vt::G();
    start_run();
    for( uint64_t i = start; i < start + count; ++i )
    {
        cur[ 0 ] = i; cur[ 1 ] = 1;
        Ctx c( seed, i );
        c.sampling = i < start + 4;
        try { related_cases( c ); }
        catch( const std::exception& x )
        { static vt::Clause& cl = vt::clause( "no-unexpected-exception" ); ++cl.n; vt::fail( c, cl, "run_case", x.what( )); }
        catch( ... )
        { static vt::Clause& cl = vt::clause( "no-unexpected-exception" ); ++cl.n; vt::fail( c, cl, "run_case", "unknown exception" ); }
        ++g.cases;
        const bool fresh = g.hashes.insert( c.h ).second;
        const bool nontrivial = c.varied && c.checks > 0;
        if( nontrivial ) ++g.nontrivial;
        if( fresh && nontrivial ) { ++g.distinct; g.order.push_back( c.h ); }
        if( c.sampling ) g.samples.push_back( vt::str( "case", i, "checks", c.checks, ":" ) + c.text.str( ));
    }
    cur[ 1 ] = 2;
    { Ctx c( seed, start + count ); try { end_run( c ); } catch( const std::exception& x )
        { static vt::Clause& cl = vt::clause( "no-unexpected-exception" ); ++cl.n; vt::fail( c, cl, "end_run", x.what( )); } }
    std::ostringstream os;
    os << "{\"cases\":" << g.cases << ",\"nontrivial\":" << g.nontrivial << ",\"distinct\":" << g.distinct << ",\"clauses\":{";
    bool comma = false;
    for( auto& kv : vt::clauses( ))
    { os << ( comma ? "," : "" ) << vt::json( kv.first ) << ":[" << kv.second.n << "," << kv.second.bad << "]"; comma = true; }
    os << "},\"samples\":[";
    for( size_t i = 0; i < g.samples.size(); ++i ) os << ( i ? "," : "" ) << vt::json( g.samples[ i ] );
    os << "],\"violations\":[";
    for( size_t i = 0; i < g.violations.size(); ++i )
    {
        const vt::Violation& v = g.violations[ i ];
        os << ( i ? "," : "" ) << "{\"key\":" << vt::json( v.key ) << ",\"where\":" << vt::json( v.where )
           << ",\"msg\":" << vt::json( v.msg ) << ",\"case\":" << v.id << "}";
    }
    os << "]}\n";
    if( out.empty( )) fputs( os.str().c_str(), stdout );
    else
    {
        FILE* f = fopen( out.c_str(), "w" );
        if( !f ) return 3;
        const std::string s = os.str();
        if( fwrite( s.data(), 1, s.size(), f ) != s.size() || fclose( f )) return 3;
        f = fopen(( out + ".hashes" ).c_str(), "wb" );
        if( !f ) return 3;
        if( fwrite( g.order.data(), 8, g.order.size(), f ) != g.order.size() || fclose( f )) return 3;
    }
    cur[ 1 ] = 3;
    return 0;
}
#endif
