// C27: scalar and vector helpers
#include "common.hpp"
#include <vmmlib/math.hpp>
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/util.hpp>
using vmml::Vector; using vmml::Matrix;

// over the whole exponent range, zero and denormals included
template< class T > static T wide( Ctx& c )
{
    typedef std::numeric_limits< T > L; T v;
    const T sg = c.rng.b() ? T( 1 ) : T( -1 );
    switch( c.rng.u( 9 ))
    {
    case 0: v = sg * T( 0 ); SAW( "saw-zero" ); break;
    case 1: v = sg * L::denorm_min() * T( 1 + c.rng.u( 1000 )); SAW( "saw-denormal" ); break;
    case 2: v = sg * L::max() * T( c.rng.r( .01, 1 )); SAW( "saw-huge" ); break;
    case 3: v = sg * L::min() * T( c.rng.r( 1, 4 )); SAW( "saw-tiny" ); break;
    case 4: v = sg * T( c.rng.i( 0, 9 )); break;
    case 5: v = sg * std::ldexp( T( c.rng.r( .5, 1 )), c.rng.i( -20, 20 )); break;
    default: v = sg * std::ldexp( T( c.rng.r( .5, 1 )), c.rng.i( L::min_exponent, L::max_exponent ));
    }
    c.in( v ); return v;
}
template< class T > struct F
{
    typedef std::numeric_limits< T > L;
    static void scalars( Ctx& c )
    {
        T a = wide< T >( c ), b = wide< T >( c );
        if( c.rng.one( 6 )) b = a;
        if( c.rng.one( 6 )) b = -a;
        if( c.rng.one( 4 ) && a != 0 && fabsl( a ) < 1e30L && fabsl( a ) > 1e-30L ) { b = a * T( std::ldexp( c.rng.r( .5, 1 ), c.rng.i( -14, 14 ))); SAW( "saw-comparable" ); }
        c.in( b );
        const ld A = a, B = b, e = vt::eps< T >();
        const ld h = hypotl( A, B );
        const T p = vmml::math::pythag( a, b );
        if( h <= ld( L::max( )) * ( 1 - 4 * e ))
            CHECK( "pythag", fabsl( ld( p ) - h ) <= 6 * e * h + 2 * ld( L::denorm_min( )), a, b, "got", p, "expected", h );
        else SAW( "saw-hypotenuse-overflow" );
        const ld pt = 12 * e * h + 4 * ld( L::denorm_min( )); const bool fits = h <= ld( L::max( )) * ( 1 - 4 * e );
        CHECK( "pythag-symmetric", !fits || fabsl( ld( p ) - vmml::math::pythag( b, a )) <= pt, a, b, p, vmml::math::pythag( b, a ));
        CHECK( "pythag-sign", !fits || ( fabsl( ld( p ) - vmml::math::pythag( T( -a ), b )) <= pt && fabsl( ld( p ) - vmml::math::pythag( a, T( -b ))) <= pt ), a, b, p );
        const ld q = A * A;
        if( q < ld( L::max( )) / 4 ) CHECK( "squared", fabsl( ld( vmml::math::squared( a )) - q ) <= e * q + ld( L::denorm_min( )), a, vmml::math::squared( a ), q );
        CHECK( "squared-even", vt::same( vmml::math::squared( a ), vmml::math::squared( T( -a ))), a );
        const T s = vmml::math::sign( a, b );
        CHECK( "sign", ld( s ) == ( B >= 0 ? fabsl( A ) : -fabsl( A )), a, b, s );
        CHECK( "sign-of-negative", ld( vmml::math::sign( T( -a ), b )) == ld( s ), a, b, s );
        vmml::math::abs_less< T > lt; vmml::math::abs_greater< T > gt;
        CHECK( "abs_less", lt( a, b ) == ( fabsl( A ) < fabsl( B )), a, b );
        CHECK( "abs_greater", gt( a, b ) == ( fabsl( A ) > fabsl( B )), a, b );
        CHECK( "abs-less-greater-mirrored", lt( a, b ) == gt( b, a ) && !lt( a, a ) && !gt( a, a ), a, b );
    }
    // the comparison functors order a sequence
    static void order( Ctx& c )
    {
        std::vector< T > v( 1 + c.rng.u( 20 )); for( size_t i = 0; i < v.size(); ++i ) v[ i ] = wide< T >( c );
        std::vector< T > l( v ), g( v );
        std::sort( l.begin(), l.end(), vmml::math::abs_less< T >( )); std::sort( g.begin(), g.end(), vmml::math::abs_greater< T >( ));
        bool ok = true; for( size_t i = 0; i + 1 < v.size(); ++i ) ok &= fabsl( l[ i ] ) <= fabsl( l[ i + 1 ] ) && fabsl( g[ i ] ) >= fabsl( g[ i + 1 ] );
        CHECK( "sorts-by-magnitude", ok, v.size( ));
    }
    static void near_equal( Ctx& c )
    {
        vt::pick_mild( c ); const T a = gen< T >( c ); const T fe = T( std::numeric_limits< float >::epsilon( )); T b = a;
        switch( c.rng.u( 6 ))
        {
        case 0: b = a + fe * T( c.rng.r( -.9, .9 )); break;
        case 1: b = a + fe; if( c.rng.b( )) { b = a + fe * ( T( 1 ) + ( c.rng.b() ? 1 : -1 ) * 2 * vt::eps< T >( )); } SAW( "saw-exactly-epsilon-apart" ); break;
        case 2: b = a - fe * T( c.rng.r( 1.1, 4 )); break;
        case 3: b = -a; break;
        case 4: b = gen< T >( c ); break;
        }
        c.in( b );
        const T d = a - b; // the documented difference is taken in the argument type
        const bool want = fabsl( d ) < ld( std::numeric_limits< float >::epsilon( ));
        CHECK( "equals", vmml::equals( a, b ) == want, a, b );
        CHECK( "equals-symmetric", vmml::equals( b, a ) == want, a, b );
        const double da = a; CHECK( "equals-mixed", vmml::equals( da, b ) == ( std::fabs( da - b ) < std::numeric_limits< float >::epsilon( )), da, b );
        const int n = c.rng.i( -5, 5 ), m = c.rng.i( -5, 5 ); CHECK( "equals-int", vmml::equals( n, m ) == ( n == m ), n, m );
        CHECK( "equals-nan", !vmml::equals( L::quiet_NaN(), a ) && !vmml::equals( a, L::quiet_NaN( )), a );
    }
};
static void ints( Ctx& c )
{
    const int a = c.rng.i( -40000, 40000 ), b = c.rng.one( 3 ) ? c.rng.i( -1, 1 ) : c.rng.i( -40000, 40000 ); c.in( a ); c.in( b );
    CHECK( "squared-int", vmml::math::squared( a ) == a * a, a );
    CHECK( "sign-int", vmml::math::sign( a, b ) == ( b >= 0 ? std::abs( a ) : -std::abs( a )), a, b );
    CHECK( "abs_less-int", vmml::math::abs_less< int >()( a, b ) == ( std::abs( a ) < std::abs( b )), a, b );
    CHECK( "abs_greater-int", vmml::math::abs_greater< int >()( a, b ) == ( std::abs( a ) > std::abs( b )), a, b );
}
template< size_t M, class T > struct V
{
    typedef Vector< M, T > X;
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); vt::pick_wide< T >( c, 6, 2 ); vt::Canary< X > ka, kb; X& a = ka.v; X& b = kb.v; fill( c, a ); fill( c, b );
        if( c.rng.one( 4 )) for( size_t i = 0; i < M; ++i ) if( c.rng.b( )) b.array[ i ] = a.array[ i ];
        const X a0( a ), b0( b ); const X mn = vmml::min( a, b ), mx = vmml::max( a, b ), nm = vmml::min( b, a ), xm = vmml::max( b, a );
        bool lo = true, hi = true, sy = true; ld man = 0;
        for( size_t i = 0; i < M; ++i )
        {
            const T x = a.array[ i ], y = b.array[ i ]; lo &= mn.array[ i ] == ( x < y ? x : y ); hi &= mx.array[ i ] == ( x > y ? x : y );
            sy &= nm.array[ i ] == mn.array[ i ] && xm.array[ i ] == mx.array[ i ]; man += fabsl( x );
        }
        CHECK( "min", lo, vt::show( a ), vt::show( b ), vt::show( mn )); CHECK( "max", hi, vt::show( a ), vt::show( b ), vt::show( mx ));
        CHECK( "min-max-symmetric", sy, vt::show( a ), vt::show( b ));
        manhattan( c, a, man, std::integral_constant< bool, std::is_signed< T >::value >( ));
        free_forms( c, a, b, std::integral_constant< bool, std::is_floating_point< T >::value >( ));
        const T f = gen< T >( c ); const X l = f * a, r = a * f; bool ok = true, ex = true;
        for( size_t i = 0; i < M; ++i ) { ok &= vt::same( l.array[ i ], r.array[ i ] ); ex &= vt::same( l.array[ i ], T( a.array[ i ] * f )); }
        CHECK( "factor-times-vector", ok && ex, vt::str( f ), vt::show( a ), vt::show( l ));
        CHECK( "dot-agrees", vt::same( vmml::dot( a, b ), a.dot( b )) || near( vmml::dot( a, b ), a.dot( b ), man * 1e3L, 8 ), vmml::dot( a, b ), a.dot( b ));
        CHECK( "equals-agrees", vmml::equals( a, b ) == a.equals( b ) && vmml::equals( a, a ) == a.equals( a ), vt::show( a ), vt::show( b ));
        CHECK( "operands-unchanged", vt::show( a ) == vt::show( a0 ) && vt::show( b ) == vt::show( b0 ), "" );
        vmml::zero( a ); bool z = true; for( size_t i = 0; i < M; ++i ) z &= a.array[ i ] == T( 0 );
        CHECK( "zero", z, vt::show( a )); CHECK( "no-stray-write", ka.ok() && kb.ok(), "" );
    }
    static void manhattan( Ctx& c, const X& a, ld man, std::true_type )
    { CHECK( "manhattan", near( vmml::manhattan( a ), man, man, 2 * M ), vmml::manhattan( a ), man, vt::show( a ));
      const X n = -a; CHECK( "manhattan-even", vmml::manhattan( n ) == vmml::manhattan( a ), vt::show( a )); }
    static void manhattan( Ctx&, const X&, ld, std::false_type ) {}
    static void free_forms( Ctx& c, const X& a, const X&, std::true_type )
    {
        X n( a ); n.normalize(); const X f = vmml::normalize( a ); bool ok = true;
        for( size_t i = 0; i < M; ++i ) ok &= vt::same( n.array[ i ], f.array[ i ] ) || near( f.array[ i ], n.array[ i ], 1, 4 );
        CHECK( "normalize-agrees", ok, vt::show( a ), vt::show( n ), vt::show( f ));
    }
    static void free_forms( Ctx&, const X&, const X&, std::false_type ) {}
};
template< class T > static void cross3( Ctx& c )
{
    vt::pick_mild( c ); Vector< 3, T > a, b; fill( c, a ); fill( c, b ); const Vector< 3, T > f = vmml::cross< 3 >( a, b ), m = a.cross( b );
    bool ok = true; for( int i = 0; i < 3; ++i ) ok &= vt::same( f.array[ i ], m.array[ i ] ) || near( f.array[ i ], m.array[ i ], 1e3, 8 );
    CHECK( "cross-agrees", ok, vt::show( a ), vt::show( b ), vt::show( f ), vt::show( m ));
}
template< size_t M, size_t N, size_t P, class T > struct X
{
    static void run( Ctx& c )
    {
        vt::pick_mild( c ); Matrix< M, P, T > l; Matrix< P, N, T > r; fill( c, l ); fill( c, r ); Matrix< M, N, T > a, b; fill( c, a ); fill( c, b );
        a.multiply( l, r ); vmml::multiply( l, r, b ); bool ok = true;
        for( size_t i = 0; i < M * N; ++i )
        {
            ld s = 0; for( size_t k = 0; k < P; ++k ) s += fabsl( ld( l.array[ k * M + i % M ] ) * r.array[ i / M * P + k ] );
            ok &= vt::same( a.array[ i ], b.array[ i ] ) || near( b.array[ i ], a.array[ i ], s, 2 * P + 4 );
        }
        CHECK( "multiply-agrees", ok, vt::show( a ), vt::show( b ));
        const Matrix< P, M, T > t = vmml::transpose( l ); Matrix< P, M, T > u; l.transpose_to( u ); ok = true; bool def = true;
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < P; ++j ) { def &= t.array[ i * P + j ] == l.array[ j * M + i ]; ok &= u.array[ i * P + j ] == t.array[ i * P + j ]; }
        CHECK( "transpose", def, vt::show( l ), vt::show( t )); CHECK( "transpose-agrees", ok, vt::show( t ), vt::show( u ));
        const T tol = T( c.rng.one( 2 ) ? 1e-3 : 0 ); Matrix< M, P, T > k( l ); if( c.rng.b( )) k.array[ c.rng.u( M * P ) ] += T( c.rng.one( 2 ) ? 1 : 5e-4 );
        CHECK( "matrix-equals-agrees", vmml::equals( l, k, tol ) == l.equals( k, tol ), vt::show( l ), vt::show( k ));
        Matrix< P, P, T > e; fill( c, e ); vmml::identity( e ); bool id = true;
        for( size_t i = 0; i < P; ++i ) for( size_t j = 0; j < P; ++j ) id &= e.array[ i * P + j ] == T( i == j );
        CHECK( "identity", id, vt::show( e ));
    }
};
typedef void ( *Fn )( Ctx& );
#define S( T ) V< 1, T >::run, V< 2, T >::run, V< 3, T >::run, V< 4, T >::run, V< 11, T >::run
#define R( T ) F< T >::scalars, F< T >::scalars, F< T >::scalars, F< T >::order, F< T >::near_equal, S( T ), cross3< T >, X< 2, 2, 2, T >::run, X< 3, 3, 3, T >::run, X< 4, 4, 4, T >::run, X< 2, 3, 5, T >::run, X< 5, 1, 2, T >::run, X< 1, 4, 3, T >::run
static const Fn tab[] = { R( float ), R( double ), S( int ), V< 3, unsigned >::run, V< 3, int64_t >::run, F< long double >::scalars, F< long double >::near_equal, ints, V< 1, long double >::run, V< 3, long double >::run, V< 4, long double >::run, cross3< long double >, F< long double >::order, X< 2, 3, 2, long double >::run, X< 3, 3, 3, long double >::run, X< 2, 2, 2, int64_t >::run, X< 4, 4, 4, long double >::run, V< 300, float >::run, V< 40, double >::run, X< 17, 19, 18, float >::run, X< 9, 9, 9, double >::run };
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { const size_t k = c.rng.u( sizeof tab / sizeof *tab ); c.in( k ); tab[ k ]( c ); }
