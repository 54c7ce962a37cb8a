// C30: formatted output
#include "common.hpp"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/aabb.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
using namespace vmml;

// a stream the caller has formatted to taste
struct Fmt { std::ios::fmtflags f; int prec; char fill; };
static Fmt pick_fmt( Ctx& c )
{
    Fmt f; f.f = std::ios::dec | std::ios::skipws; f.prec = 6; f.fill = ' ';
    if( c.rng.one( 3 )) { SAW( "saw-default-format" ); c.note( "default" ); return f; }
    SAW( "saw-own-format" );
    static const std::ios::fmtflags adj[] = { std::ios::fmtflags( 0 ), std::ios::left, std::ios::right, std::ios::internal };
    static const std::ios::fmtflags flo[] = { std::ios::fmtflags( 0 ), std::ios::fmtflags( 0 ), std::ios::fixed, std::ios::scientific };
    static const std::ios::fmtflags bas[] = { std::ios::dec, std::ios::dec, std::ios::dec, std::ios::hex, std::ios::oct };
    f.f = adj[ c.rng.u( 4 ) ] | flo[ c.rng.u( 4 ) ] | bas[ c.rng.u( 5 ) ] | std::ios::skipws;
    if( c.rng.one( 3 )) f.f |= std::ios::showpos;
    if( c.rng.one( 4 )) f.f |= std::ios::uppercase;
    if( c.rng.one( 5 )) f.f |= std::ios::showbase;
    if( c.rng.one( 5 )) f.f |= std::ios::showpoint;
    if( c.rng.one( 5 )) f.f |= std::ios::boolalpha;
    if( c.rng.one( 5 )) f.f |= std::ios::unitbuf;
    if( c.rng.one( 2 )) f.prec = c.rng.i( 0, 17 ); else if( c.rng.one( 4 )) { f.prec = c.rng.i( 18, 300 ); SAW( "saw-huge-precision" ); }
    if( c.rng.one( 4 )) f.fill = "*0_."[ c.rng.u( 4 ) ];
    c.note( vt::str( "flags", int( f.f ), "precision", f.prec, "fill", f.fill )); return f;
}
static void use( std::ostream& os, const Fmt& f ) { os.flags( f.f ); os.precision( f.prec ); os.fill( f.fill ); os.width( 0 ); }
static void aligned( std::ostream& os ) { os.setf( std::ios::right, std::ios::adjustfield ); os.precision( 5 ); }
// what is to be written
template< size_t M, class T > static void expect( std::ostream& os, const Vector< M, T >& v, const Fmt& f )
{
    aligned( os ); os << "[ "; for( size_t i = 0; i < M; ++i ) { os << std::setw( 10 ) << v.array[ i ] << " "; } os << "]"; use( os, f );
}
template< size_t M, size_t N, class T > static void expect( std::ostream& os, const Matrix< M, N, T >& v, const Fmt& f )
{
    aligned( os );
    for( size_t r = 0; r < M; ++r ) { os << "|"; for( size_t k = 0; k < N; ++k ) os << std::setw( 10 ) << v.array[ k * M + r ] << " "; os << "|\n"; }
    use( os, f );
}
template< class T > static void expect( std::ostream& os, const Quaternion< T >& v, const Fmt& )
{ os << "(" << v.array[ 0 ] << ", " << v.array[ 1 ] << ", " << v.array[ 2 ] << ", " << v.array[ 3 ] << ") "; }
template< class T > static void expect( std::ostream& os, const Frustum< T >& v, const Fmt& f )
{ aligned( os ); os << "["; for( int i = 0; i < 6; ++i ) os << std::setw( 10 ) << v.array[ i ] << ( i < 5 ? " " : "]" ); use( os, f ); }
template< class T > static void expect( std::ostream& os, const AABB< T >& v, const Fmt& f )
{ expect( os, v.getMin(), f ); os << " - "; expect( os, v.getMax(), f ); }

// the numbers in a text
static std::vector< ld > numbers( const std::string& s )
{
    std::vector< ld > r; const char* p = s.c_str();
    while( *p )
    {
        if(( *p >= '0' && *p <= '9' ) || *p == '-' || *p == '+' || *p == '.' )
        { char* e; const ld v = strtold( p, &e ); if( e != p ) { r.push_back( v ); p = e; continue; } }
        ++p;
    }
    return r;
}
// does the printed number stand for the value rounded to so many digits?
template< class T > static bool rounded( ld got, T v, int digits, typename std::enable_if< std::is_floating_point< T >::value >::type* = 0 )
{ return fabsl( got - ld( v )) <= 0.5001L * powl( 10, 1 - digits ) * powl( 10, floorl( log10l( std::max( fabsl( ld( v )), 1e-300L )))) + 1e-320L; }
template< class T > static bool rounded( ld got, T v, int, typename std::enable_if< !std::is_floating_point< T >::value >::type* = 0 ) { return got == ld( v ); }

template< class O > struct P
{
    // print o to a stream of format f and judge text and stream
    static std::string text( Ctx& c, const O& o, const Fmt& f )
    {
        std::ostringstream os, ref; use( os, f ); use( ref, f );
        const size_t before = c.rng.u( 3 ), after = c.rng.u( 3 );
        for( size_t i = 0; i < before; ++i ) { os << i * .123456789 << ';'; ref << i * .123456789 << ';'; }
        const size_t at = os.str().size();
        std::ostream& ret = ( os << o ); expect( ref, o, f );
        CHECK( "returns-the-stream", &ret == &os, "" );
        CHECK( "flags-restored", os.flags() == f.f, int( os.flags( )), int( f.f ));
        CHECK( "precision-restored", os.precision() == f.prec, int( os.precision( )), f.prec );
        CHECK( "fill-and-width-restored", os.fill() == f.fill && os.width() == 0, os.fill(), int( os.width( )));
        const std::string s = os.str().substr( at );
        for( size_t i = 0; i < after; ++i ) { os << ' ' << 3.14159265358979 << ',' << 255; ref << ' ' << 3.14159265358979 << ',' << 255; }
        CHECK( "text", os.str() == ref.str(), "\ngot     ", os.str(), "\nexpected", ref.str( ));
        return s;
    }
};
static bool plain( const Fmt& f ) { return !( f.f & ( std::ios::hex | std::ios::oct | std::ios::showbase | std::ios::fixed )) && ( f.fill == ' ' ); }
template< class T > static bool int_or_plain( const Fmt& f ) { return plain( f ); }
template< size_t M, class T > struct V
{
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); vt::pick_wide< T >( c ); const Fmt f = pick_fmt( c ); vt::Canary< Vector< M, T > > k; Vector< M, T >& v = k.v; fill( c, v );
        const Vector< M, T > v0( v );
        const std::string s = P< Vector< M, T > >::text( c, v, f );
        CHECK( "object-unchanged", vt::show( v ) == vt::show( v0 ) && k.ok(), "" );
        if( plain( f ))
        {
            const std::vector< ld > n = numbers( s ); bool ok = n.size() == M;
            for( size_t i = 0; ok && i < M; ++i ) ok = rounded( n[ i ], v.array[ i ], ( f.f & std::ios::scientific ) ? 6 : 5 );
            CHECK( "parses-back", ok, s, vt::show( v ));
        }
    }
};
template< size_t M, size_t N, class T > struct X
{
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); vt::pick_wide< T >( c ); const Fmt f = pick_fmt( c ); vt::Canary< Matrix< M, N, T > > k; Matrix< M, N, T >& v = k.v; fill( c, v );
        const Matrix< M, N, T > v0( v );
        const std::string s = P< Matrix< M, N, T > >::text( c, v, f );
        CHECK( "object-unchanged", vt::show( v ) == vt::show( v0 ) && k.ok(), "" );
        CHECK( "one-line-per-row", size_t( std::count( s.begin(), s.end(), '\n' )) == M && s[ s.size() - 1 ] == '\n', s );
        if( plain( f ))
        {
            const std::vector< ld > n = numbers( s ); bool ok = n.size() == M * N;
            for( size_t r = 0; ok && r < M; ++r ) for( size_t q = 0; q < N; ++q ) ok &= rounded( n[ r * N + q ], v.array[ q * M + r ], ( f.f & std::ios::scientific ) ? 6 : 5 );
            CHECK( "parses-back", ok, s, vt::show( v ));
        }
    }
};
template< class T > struct O
{
    static void quat( Ctx& c )
    {
        vt::pick_profile( c ); const Fmt f = pick_fmt( c ); Quaternion< T > q( gen< T >( c ), gen< T >( c ), gen< T >( c ), gen< T >( c ));
        const std::string s = P< Quaternion< T > >::text( c, q, f );
        if( plain( f ) && f.prec > 0 )
        {
            const std::vector< ld > n = numbers( s ); bool ok = n.size() == 4;
            for( size_t i = 0; ok && i < 4; ++i ) ok = rounded( n[ i ], q.array[ i ], ( f.f & std::ios::scientific ) ? f.prec + 1 : f.prec );
            CHECK( "parses-back", ok || f.prec > 15, s, q.array[ 0 ], q.array[ 1 ], q.array[ 2 ], q.array[ 3 ] );
        }
    }
    static void frustum( Ctx& c )
    {
        vt::pick_profile( c ); const Fmt f = pick_fmt( c ); Frustum< T > q; for( int i = 0; i < 6; ++i ) q.array[ i ] = gen< T >( c );
        const std::string s = P< Frustum< T > >::text( c, q, f );
        if( plain( f ))
        {
            const std::vector< ld > n = numbers( s ); bool ok = n.size() == 6;
            for( size_t i = 0; ok && i < 6; ++i ) ok = rounded( n[ i ], q.array[ i ], ( f.f & std::ios::scientific ) ? 6 : 5 );
            CHECK( "parses-back", ok, s );
        }
    }
    static void box( Ctx& c )
    {
        vt::pick_profile( c ); const Fmt f = pick_fmt( c ); Vector< 3, T > a, b; fill( c, a ); fill( c, b );
        AABB< T > x( a, b ); if( c.rng.one( 6 )) { x.setEmpty(); SAW( "saw-empty-box" ); }
        P< AABB< T > >::text( c, x, f );
    }
    // a culler whose planes are known: an axis-aligned box
    static void culler( Ctx& c )
    {
        c.prof = P_POS; const Fmt f = pick_fmt( c );
        const T s[ 3 ] = { gen< T >( c ), gen< T >( c ), gen< T >( c ) }; c.prof = P_UNIT; const T t[ 3 ] = { gen< T >( c ), gen< T >( c ), gen< T >( c ) };
        Matrix< 4, 4, T > m; m = T( 0 ); for( int i = 0; i < 3; ++i ) { m.array[ i * 5 ] = s[ i ]; m.array[ 12 + i ] = t[ i ]; } m.array[ 15 ] = 1;
        FrustumCuller< T > k; k.setup( m );
        std::ostringstream os; use( os, f ); std::ostream& ret = ( os << k );
        CHECK( "returns-the-stream", &ret == &os, "" );
        CHECK( "flags-restored", os.flags() == f.f, int( os.flags( )), int( f.f ));
        CHECK( "precision-restored", os.precision() == f.prec, int( os.precision( )), f.prec );
        static const char* const name[] = { "    left   ", "    right  ", "    top    ", "    bottom ", "    near   ", "    far    " };
        static const int axis[] = { 0, 0, 1, 1, 2, 2 }, sg[] = { 1, -1, -1, 1, 1, -1 };
        std::istringstream is( os.str( )); std::string line; std::getline( is, line );
        CHECK( "culler-title", line == "Frustum cull planes: ", line );
        for( int i = 0; i < 6; ++i )
        {
            const bool got = bool( std::getline( is, line ));
            CHECK( "culler-line", got && line.compare( 0, 11, name[ i ] ) == 0, i, line );
            if( !plain( f )) continue;
            const std::vector< ld > n = numbers( line.substr( 11 )); bool ok = n.size() == 4;
            for( int j = 0; ok && j < 3; ++j ) ok = fabsl( n[ j ] - ( j == axis[ i ] ? sg[ i ] : 0 )) < 1e-4L;
            const ld w = ( ld( t[ axis[ i ]] ) * sg[ i ] + 1 ) / s[ axis[ i ]];
            CHECK( "culler-plane", ok && fabsl( n[ 3 ] - w ) <= 1e-4L * ( fabsl( w ) + 1 / s[ axis[ i ]] ), os.str(), i, w );
        }
        CHECK( "culler-end", !std::getline( is, line ), line );
        std::ostringstream vs; use( vs, f ); const Visibility all[] = { VISIBILITY_NONE, VISIBILITY_PARTIAL, VISIBILITY_FULL };
        for( int i = 0; i < 3; ++i ) vs << all[ i ] << '|';
        CHECK( "visibility", vs.str() == "not visible      |partially visible|fully visible    |", vs.str( ));
        CHECK( "flags-restored", vs.flags() == f.f && vs.precision() == f.prec, "" );
    }
    // a stream that has failed keeps its format too
    static void failed( Ctx& c )
    {
        vt::pick_profile( c ); const Fmt f = pick_fmt( c ); std::ostringstream os; use( os, f ); os.setstate( std::ios::failbit );
        Vector< 3, T > v; fill( c, v ); Matrix< 3, 2, T > m; fill( c, m ); Frustum< T > fr( 1, 2, 3, 4, 5, 6 ); AABB< T > b( v, v );
        os << v << m << fr << b;
        CHECK( "failed-stream-keeps-format", os.flags() == f.f && os.precision() == f.prec && os.str().empty(), os.str( ));
    }
};
typedef void ( *Fn )( Ctx& );
#define S( T ) V< 1, T >::run, V< 2, T >::run, V< 3, T >::run, V< 4, T >::run, V< 9, T >::run, X< 1, 1, T >::run, X< 3, 3, T >::run, X< 4, 4, T >::run, X< 2, 5, T >::run, X< 5, 2, T >::run, X< 1, 4, T >::run, X< 6, 1, T >::run, X< 2, 12, T >::run, X< 13, 2, T >::run, V< 12, T >::run
#define R( T ) O< T >::quat, O< T >::quat, O< T >::frustum, O< T >::frustum, O< T >::box, O< T >::box, O< T >::culler, O< T >::culler, O< T >::failed
static const Fn tab[] = { S( float ), S( double ), S( int ), S( unsigned ), V< 3, short >::run, V< 2, long >::run, X< 2, 2, long >::run, V< 3, uint64_t >::run, X< 3, 4, long double >::run, R( float ), R( double ), V< 1, long double >::run, V< 3, long double >::run, V< 4, long double >::run, X< 4, 4, long double >::run, X< 2, 2, long double >::run, R( long double ), V< 40, float >::run, X< 17, 19, double >::run, X< 30, 3, int >::run };
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { const size_t k = c.rng.u( sizeof tab / sizeof *tab ); c.in( k ); tab[ k ]( c ); }
