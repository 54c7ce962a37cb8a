// C24: equality and tolerance comparison mean what they say
#include "common.hpp"
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/aabb.hpp>
using vmml::Matrix; using vmml::Vector; using vmml::Quaternion; using vmml::AABB;

// 1 = within, 0 = not, -1 = the rounding of the difference decides: not judged
template< class T > static int within( T a, T b, T tol, bool closed = false )
{
    if( a != a || b != b ) return 0;
    const ld e = fabsl( ld( a ) - ld( b )), r = ld( T( e ));
    const bool p = closed ? e <= ld( tol ) : e < ld( tol ), q = closed ? r <= ld( tol ) : r < ld( tol );
    return p == q ? p : -1;
}
template< class T > static int all_within( const T* a, const T* b, size_t n, T tol, bool closed = false )
{
    int r = 1;
    for( size_t i = 0; i < n; ++i ) { const int w = within( a[ i ], b[ i ], tol, closed ); if( w == 0 ) return 0; if( w < 0 ) r = -1; }
    return r;
}
template< class T > static bool all_equal( const T* a, const T* b, size_t n ) { for( size_t i = 0; i < n; ++i ) if( !( a[ i ] == b[ i ] )) return false; return true; }
template< class T > static T nan_or( Ctx& c ) { return std::is_floating_point< T >::value ? std::numeric_limits< T >::quiet_NaN() : gen< T >( c ); }

template< class T > static T pick_tol( Ctx& c )
{
    T t;
    if( !std::is_floating_point< T >::value ) t = T( c.rng.i( 0, 6 ));
    else { static const double s[] = { 1e-6, 1e-3, 0.1, 0.5, 1, 1.5, 2, 4, 0, 1e-10 }; t = T( s[ c.rng.u( 10 ) ] ); }
    c.in( t ); return t;
}
template< class T > static T nudge( Ctx& c, T x, T tol )
{
    static const double f[] = { 0, .25, .5, .99, 1, 1.01, 2, 10 };
    ld d = ld( tol ) * f[ c.rng.u( 8 ) ]; const ld s = c.rng.b() ? 1 : -1;
    if( std::is_floating_point< T >::value && c.rng.one( 8 )) { x = 0; d = T( tol * ( 1 + c.rng.i( -3, 3 ) * vt::eps< T >( ))); SAW( "saw-ulps-beside-tolerance" ); }
    ld y = ld( x ) + s * d;
    if( !std::is_floating_point< T >::value ) y = ld( x ) + s * c.rng.i( 0, 7 );
    if( !std::is_floating_point< T >::value && ( y < ld( std::numeric_limits< T >::min( )) || y > ld( std::numeric_limits< T >::max( )))) y = x;
    const T r = T( y ); c.in( r ); return r;
}
// makes b from a: equal, one component off, all within, or several off
template< class T > static void derive( Ctx& c, const T* a, T* b, size_t n, T tol )
{
    for( size_t i = 0; i < n; ++i ) b[ i ] = a[ i ];
    switch( c.rng.u( 6 ))
    {
    case 0: SAW( "saw-equal" ); break;
    case 1: case 2: { const size_t i = c.rng.one( 3 ) ? n - 1 : c.rng.u( n ); c.in( int( i )); b[ i ] = nudge( c, a[ i ], tol ); SAW( "saw-one-differs" ); break; }
    case 3: for( size_t i = 0; i < n; ++i ) b[ i ] = nudge( c, a[ i ], tol ); break;
    case 4: { const size_t i = c.rng.u( n ); c.in( int( i )); b[ i ] = nan_or< T >( c ); SAW( "saw-nan" ); break; }
    default: { const size_t i = c.rng.u( n ); b[ i ] = b[ i ] == 0 ? T( -b[ i ] ) : gen< T >( c ); if( c.rng.b( )) for( size_t k = 0; k < n; ++k ) if( c.rng.one( 2 )) b[ k ] = nudge( c, a[ k ], tol ); }
    }
}
#define JUDGE( key, got, want, ... ) do { const int w_ = ( want ); if( w_ >= 0 ) CHECK( key, ( got ) == ( w_ == 1 ), "got", int( got ), "expected", w_, __VA_ARGS__ ); else SAW( "rounding-decides" ); } while( 0 )

template< size_t M, class T > struct V
{
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); vt::pick_wide< T >( c, 2 ); const T tol = pick_tol< T >( c );
        Vector< M, T > a, b; fill( c, a ); if( c.rng.one( 8 )) a.array[ c.rng.u( M ) ] = nan_or< T >( c ); derive( c, a.array, b.array, M, tol );
        const bool eq = all_equal( a.array, b.array, M );
        CHECK( "vector-equal", ( a == b ) == eq && ( b == a ) == eq, eq, vt::show( a ), vt::show( b ));
        CHECK( "vector-unequal", ( a != b ) == !eq && ( b != a ) == !eq, eq, vt::show( a ), vt::show( b ));
        JUDGE( "vector-equals", a.equals( b, tol ), all_within( a.array, b.array, M, tol ), tol, vt::show( a ), vt::show( b ));
        CHECK( "vector-equals-symmetric", a.equals( b, tol ) == b.equals( a, tol ), tol, vt::show( a ), vt::show( b ));
        bool nan = false; for( T x : a.array ) nan |= x != x;
        CHECK( "vector-reflexive", ( a == a ) == !nan && ( a.equals( a, T( 1 )) == !nan ), vt::show( a ));
        dflt( c, a, b, std::integral_constant< bool, std::is_floating_point< T >::value >( ));
    }
    static void dflt( Ctx&, const Vector< M, T >&, const Vector< M, T >&, std::false_type ) {}
    static void dflt( Ctx& c, const Vector< M, T >& a, const Vector< M, T >& b, std::true_type )
    {
        const T e = std::numeric_limits< T >::epsilon(); const int w = all_within( a.array, b.array, M, e );
        JUDGE( "vector-equals-default", a.equals( b ), w, vt::show( a ), vt::show( b ));
        JUDGE( "vector-equals-free", vmml::equals( a, b ), w, vt::show( a ), vt::show( b ));
    }
};
template< class T > struct Near { T tol; size_t calls; bool operator()( const T& a, const T& b ) { ++calls; return a == b; } };
template< class T > struct Below { bool operator()( const T& a, const T& b ) const { return a <= b; } };
template< size_t M, size_t N, class T > struct X
{
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); vt::pick_wide< T >( c, 2 ); const T tol = pick_tol< T >( c );
        Matrix< M, N, T > a, b; fill( c, a ); derive( c, a.array, b.array, M * N, tol );
        const bool eq = all_equal( a.array, b.array, M * N ); const int w = all_within( a.array, b.array, M * N, tol );
        CHECK( "matrix-equal", ( a == b ) == eq && ( b == a ) == eq, eq, vt::show( a ), vt::show( b ));
        CHECK( "matrix-unequal", ( a != b ) == !eq && ( b != a ) == !eq, eq, vt::show( a ), vt::show( b ));
        JUDGE( "matrix-equals", a.equals( b, tol ), w, tol, vt::show( a ), vt::show( b ));
        JUDGE( "matrix-equals-free", vmml::equals( a, b, tol ), w, tol, vt::show( a ), vt::show( b ));
        CHECK( "matrix-equals-symmetric", a.equals( b, tol ) == b.equals( a, tol ), tol, vt::show( a ), vt::show( b ));
        Near< T > f; f.tol = tol; f.calls = 0;
        CHECK( "matrix-equals-functor", a.equals( b, f ) == eq, eq, vt::show( a ), vt::show( b ));
        { const Below< T > below = Below< T >(); bool le = true; for( size_t i = 0; i < M * N; ++i ) le &= a.array[ i ] <= b.array[ i ];
          CHECK( "matrix-functor-order", a.equals( b, below ) == le, le, vt::show( a ), vt::show( b )); }
        CHECK( "matrix-functor-calls", f.calls >= 1 && f.calls <= M * N && ( !eq || f.calls == M * N ), f.calls );
        CHECK( "matrix-reflexive", a == a && a.equals( a, T( 1 )), vt::show( a ));
        dflt( c, a, b, std::integral_constant< bool, std::is_floating_point< T >::value >( ));
        signs( c, a, tol, std::integral_constant< bool, std::is_signed< T >::value >( ));
    }
    static void dflt( Ctx&, const Matrix< M, N, T >&, const Matrix< M, N, T >&, std::false_type ) {}
    static void dflt( Ctx& c, const Matrix< M, N, T >& a, const Matrix< M, N, T >& b, std::true_type )
    { JUDGE( "matrix-equals-default", vmml::equals( a, b ), all_within( a.array, b.array, M * N, std::numeric_limits< T >::epsilon( )), vt::show( a ), vt::show( b )); }
    static void signs( Ctx&, const Matrix< M, N, T >&, T, std::false_type ) {}
    static void signs( Ctx& c, const Matrix< M, N, T >& a0, T tol, std::true_type )
    {
        typedef Matrix< M, N, T > Y;
        const bool rows = c.rng.b(); const size_t L = rows ? M : N, K = rows ? N : M; c.in( int( rows ));
        Y a( a0 ), b( a0 );
        auto at = [ rows ]( Y& m, size_t l, size_t k ) -> T& { return rows ? m.array[ k * M + l ] : m.array[ l * M + k ]; };
        for( size_t l = 0; l < L; ++l ) { const bool flip = c.rng.b(); c.in( int( flip )); if( flip ) for( size_t k = 0; k < K; ++k ) at( b, l, k ) = -at( b, l, k ); }
        const int kind = c.rng.i( 0, 4 ); c.in( kind );
        if( kind == 1 ) { const size_t l = c.rng.one( 2 ) ? L - 1 : c.rng.u( L ), k = c.rng.u( K ); at( b, l, k ) = -at( b, l, k ); SAW( "saw-half-flipped" ); }
        if( kind == 2 ) { T& x = b.array[ c.rng.one( 2 ) ? M * N - 1 : c.rng.u( M * N ) ]; x = nudge( c, x, tol ); }
        if( kind == 3 ) for( size_t i = 0; i < M * N; ++i ) b.array[ i ] = nudge( c, b.array[ i ], tol );
        bool eq = true; int w = 1;
        for( size_t l = 0; l < L; ++l )
        {
            std::vector< T > p, q, n;
            for( size_t k = 0; k < K; ++k ) { p.push_back( at( a, l, k )); q.push_back( at( b, l, k )); n.push_back( -at( b, l, k )); }
            eq &= all_equal( p.data(), q.data(), K ) || all_equal( p.data(), n.data(), K );
            const int u = all_within( p.data(), q.data(), K, tol ), v = all_within( p.data(), n.data(), K, tol );
            if( u == 1 || v == 1 ) continue;
            if( u == 0 && v == 0 ) w = 0; else if( w ) w = -1;
        }
        const Y &ka = a, &kb = b; bool g, h;
        if( rows ) { vmml::matrix_equals_allow_inverted_rows< Y > f; g = f( ka, kb ); h = f( ka, kb, tol ); }
        else { vmml::matrix_equals_allow_inverted_columns< Y > f; g = f( ka, kb ); h = f( ka, kb, tol ); }
        CHECK( "equal-up-to-sign", g == eq, rows, eq, vt::show( a ), vt::show( b ));
        JUDGE( "equal-up-to-sign-tolerance", h, w, rows, tol, vt::show( a ), vt::show( b ));
    }
};
template< class T > struct Q
{
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); const T tol = pick_tol< T >( c );
        T p[ 4 ], r[ 4 ]; for( T& x : p ) x = gen< T >( c ); if( c.rng.one( 3 )) p[ 0 ] = p[ 1 ] = p[ 2 ] = 0; else if( c.rng.one( 3 )) { const size_t i = c.rng.u( 3 ); p[ i ] = 0; p[ ( i + 1 ) % 3 ] = -p[ ( i + 2 ) % 3 ]; SAW( "saw-imaginary-parts-cancel" ); } derive( c, p, r, 4, tol );
        Quaternion< T > a( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ] ), b( r[ 0 ], r[ 1 ], r[ 2 ], r[ 3 ] ); const Vector< 4, T > v( r[ 0 ], r[ 1 ], r[ 2 ], r[ 3 ] );
        const bool eq = all_equal( p, r, 4 );
        CHECK( "quaternion-equal", ( a == b ) == eq && ( a != b ) == !eq && ( b == a ) == eq, eq, vt::show( v ), p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ] );
        CHECK( "quaternion-equal-vector", ( a == v ) == eq && ( a != v ) == !eq, eq, vt::show( v ));
        const T s = c.rng.b() ? p[ 3 ] : gen< T >( c ); const bool es = p[ 0 ] == 0 && p[ 1 ] == 0 && p[ 2 ] == 0 && p[ 3 ] == s;
        CHECK( "quaternion-equal-scalar", ( a == s ) == es && ( a != s ) == !es, s, p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ] );
        JUDGE( "quaternion-is_akin", a.is_akin( b, tol ), all_within( p, r, 4, tol, true ), tol, vt::show( v ), p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ] );
        CHECK( "quaternion-is_akin-symmetric", a.is_akin( b, tol ) == b.is_akin( a, tol ), "" );
        JUDGE( "quaternion-is_akin-default", a.is_akin( b ), all_within( p, r, 4, std::numeric_limits< T >::epsilon(), true ), vt::show( v ));
    }
};
template< class T > struct Box
{
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); const T tol = pick_tol< T >( c );
        T p[ 6 ], r[ 6 ]; for( T& x : p ) x = gen< T >( c ); derive( c, p, r, 6, tol );
        const AABB< T > a( Vector< 3, T >( p[ 0 ], p[ 1 ], p[ 2 ] ), Vector< 3, T >( p[ 3 ], p[ 4 ], p[ 5 ] )), b( Vector< 3, T >( r[ 0 ], r[ 1 ], r[ 2 ] ), Vector< 3, T >( r[ 3 ], r[ 4 ], r[ 5 ] ));
        const bool eq = all_equal( p, r, 6 );
        CHECK( "box-equal", ( a == b ) == eq && ( a != b ) == !eq && ( b == a ) == eq && ( b != a ) == !eq, eq, vt::show( a.getMin( )), vt::show( a.getMax( )), vt::show( b.getMin( )), vt::show( b.getMax( )));
        CHECK( "box-reflexive", a == a && !( a != a ), "" );
    }
};

void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    typedef void ( *Fn )( Ctx& );
    static const Fn tab[] = {
        V< 1, float >::run, V< 2, double >::run, V< 3, float >::run, V< 4, double >::run, V< 4, int >::run, V< 3, unsigned >::run, V< 3, int64_t >::run, X< 2, 3, int64_t >::run, V< 5, uint8_t >::run, V< 9, float >::run, V< 300, float >::run, V< 3, long double >::run, X< 2, 3, long double >::run, Q< long double >::run, X< 19, 17, float >::run,
        X< 4, 4, float >::run, X< 3, 3, double >::run, X< 2, 3, float >::run, X< 3, 2, double >::run, X< 4, 2, int >::run, X< 2, 2, unsigned >::run, X< 2, 2, float >::run, X< 2, 2, double >::run, X< 1, 4, float >::run, X< 3, 2, float >::run, X< 4, 4, double >::run, V< 2, float >::run, V< 4, float >::run, V< 3, double >::run, X< 1, 4, double >::run, X< 5, 1, float >::run, X< 3, 3, int >::run,
        Q< float >::run, Q< double >::run, Box< float >::run, Box< double >::run, Box< int >::run, V< 4, long double >::run, X< 4, 4, long double >::run, Box< long double >::run };
    const size_t k = c.rng.u( sizeof( tab ) / sizeof( *tab ));
    c.in( int( k ));
    tab[ k ]( c );
}
