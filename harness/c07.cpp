// C07: matrix algebra
#include "common.hpp"
#include <vmmlib/matrix.hpp>
using vmml::Matrix; using vmml::Vector;

// plain row/column copy of a matrix in extended precision
template< size_t M, size_t N > struct LM
{
    ld v[ M ][ N ];
    ld& operator()( size_t r, size_t k ) { return v[ r ][ k ]; }
    ld operator()( size_t r, size_t k ) const { return v[ r ][ k ]; }
};
template< size_t M, size_t N, class T > static LM< M, N > lm( const Matrix< M, N, T >& a )
{ LM< M, N > r; for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) r( i, j ) = a.array[ j * M + i ]; return r; }
template< size_t M, size_t N, class T >
static void cmp( Ctx& c, vt::Clause& cl, const Matrix< M, N, T >& g, const LM< M, N >& ref, const LM< M, N >& sc, double k )
{
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j )
    {
        ++cl.n; ++c.checks;
        if( !near( g.array[ j * M + i ], ref( i, j ), sc( i, j ), k ))
            vt::fail( c, cl, __PRETTY_FUNCTION__, vt::str( cl.key, "element", i, j, "got", ld( g.array[ j * M + i ] ), "expected", ref( i, j )));
    }
}
#define CMP( key, g, ref, sc, k ) do { static vt::Clause& cl_ = vt::clause( key ); cmp( c, cl_, g, ref, sc, k ); } while( 0 )
template< size_t M, size_t P, size_t N > static void prod( const LM< M, P >& a, const LM< P, N >& b, LM< M, N >& r, LM< M, N >& s )
{
    for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j )
    {
        r( i, j ) = s( i, j ) = 0;
        for( size_t k = 0; k < P; ++k ) { const ld x = a( i, k ) * b( k, j ); r( i, j ) += x; s( i, j ) += fabsl( x ); }
    }
}
template< size_t M, size_t N, class T > static bool eq( const Matrix< M, N, T >& a, const Matrix< M, N, T >& b )
{ for( size_t i = 0; i < M * N; ++i ) if( !vt::same( a.array[ i ], b.array[ i ] )) return false; return true; }

template< size_t M, size_t P, size_t N, class T > struct Mul // products
{
    static void run( Ctx& c )
    {
        vt::pick_mild( c ); vt::pick_wide< T >( c, P > 2 ? 4 : 2, 2 );
        vt::Canary< Matrix< M, P, T > > ca; vt::Canary< Matrix< P, N, T > > cb; vt::Canary< Matrix< M, N, T > > cr;
        Matrix< M, P, T >& a = ca.v; Matrix< P, N, T >& b = cb.v; Matrix< M, N, T >& r = cr.v;
        fill( c, a ); fill( c, b ); fill( c, r );
        const Matrix< M, P, T > a0( a ); const Matrix< P, N, T > b0( b );
        LM< M, N > ref, sc; prod( lm( a ), lm( b ), ref, sc );
        const double k = 4 + 2 * P;
        CMP( "A*B", ( a * b ), ref, sc, k );
        r.multiply( a, b ); CMP( "multiply", r, ref, sc, k );
        fill( c, r ); vmml::multiply( a, b, r ); CMP( "multiply-free", r, ref, sc, k );
        Vector< P, T > v; fill( c, v ); const Vector< P, T > v0( v );
        const Vector< M, T > g = a * v;
        for( size_t i = 0; i < M; ++i )
        {
            ld x = 0, s = 0;
            for( size_t j = 0; j < P; ++j ) { const ld y = ld( a.array[ j * M + i ] ) * v.array[ j ]; x += y; s += fabsl( y ); }
            CHECK( "A*v", near( g.array[ i ], x, s, k ), i, g.array[ i ], x, vt::show( a ), vt::show( v ));
        }
        CHECK( "operands-unchanged", eq( a, a0 ) && eq( b, b0 ) && vt::show( v ) == vt::show( v0 ), "" );
        CHECK( "no-stray-write", ca.ok() && cb.ok() && cr.ok(), "" );
        // a freshly constructed object
        const Matrix< M, P, T > d; bool ok = true;
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < P; ++j ) ok &= d.array[ j * M + i ] == T( M == P && i == j );
        CHECK( "default-is-identity-or-zero", ok, vt::show( d ));
    }
};

// whole integers, as wide as the results allow: exact in T, not in a double or float on the way
template< size_t M, size_t N, class T > static void wide( Ctx&, std::false_type ) {}
template< size_t M, size_t N, class T > static void wide( Ctx& c, std::true_type )
{
    typedef Matrix< M, N, T > X; typedef LM< M, N > L; const int digits = std::numeric_limits< T >::digits;
    if( digits < 15 ) return;
    c.wide = digits - 1; X a, b; fill( c, a ); fill( c, b ); const T s = gen< T >( c ), d = gen_nz< T >( c );
    c.wide = 0; const T f = gen_nz< T >( c ); L z; // not used by exact comparison
    const L A = lm( a ), B = lm( b ); L r;
#define EACH( expr ) for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) r( i, j ) = ( expr )
    EACH( A( i, j ) + B( i, j )); CMP( "wide-A+B", a + b, r, z, 1 ); { X t( a ); t += b; CMP( "wide-A+=B", t, r, z, 1 ); }
    if( std::is_signed< T >::value ) { EACH( A( i, j ) - B( i, j )); CMP( "wide-A-B", a - b, r, z, 1 ); { X t( a ); t -= b; CMP( "wide-A-=B", t, r, z, 1 ); }
        EACH( A( i, j ) - ld( s )); { X t( a ); t -= s; CMP( "wide-A-=s", t, r, z, 1 ); } EACH( -A( i, j )); CMP( "wide-negate", -a, r, z, 1 ); }
    EACH( A( i, j ) + ld( s )); { X t( a ); t += s; CMP( "wide-A+=s", t, r, z, 1 ); }
    EACH( T( a.array[ j * M + i ] / d )); CMP( "wide-A/s", a / d, r, z, 1 ); { X t( a ); t /= d; CMP( "wide-A/=s", t, r, z, 1 ); }
    X n; for( size_t i = 0; i < M * N; ++i ) n.array[ i ] = T( a.array[ i ] / 512 ); const L W = lm( n );
    EACH( W( i, j ) * ld( f )); if( std::is_signed< T >::value || f < 500 ) { CMP( "wide-A*s", n * f, r, z, 1 ); X t( n ); t *= f; CMP( "wide-A*=s", t, r, z, 1 ); }
    EACH( W( i, j ) * ld( f )); { X t( n ), u; u = f; t.multiply_piecewise( u ); CMP( "wide-piecewise", t, r, z, 1 ); }
#undef EACH
}
template< size_t M, size_t N, class T > struct Ew // element-wise
{
    typedef Matrix< M, N, T > X; typedef LM< M, N > L;
    static void run( Ctx& c )
    {
        vt::pick_mild( c );
        vt::Canary< X > ca, cb; X& a = ca.v; X& b = cb.v; fill( c, a ); fill( c, b );
        const T s = gen< T >( c ), d = gen_nz< T >( c );
        const X a0( a ), b0( b );
        const L A = lm( a ), B = lm( b ); L r, z; for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) z( i, j ) = 0;
#define EACH( expr ) for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) r( i, j ) = ( expr )
        EACH( A( i, j ) + B( i, j )); CMP( "A+B", a + b, r, z, 4 );
        EACH( A( i, j ) - B( i, j )); CMP( "A-B", a - b, r, z, 4 );
        EACH( A( i, j ) - A( i, j )); CMP( "A-A", a - a, r, z, 4 );
        EACH( A( i, j ) * ld( s )); CMP( "A*s", a * s, r, z, 4 );
        const bool in = !std::is_floating_point< T >::value;
        EACH( in ? truncl( A( i, j ) / ld( d )) : A( i, j ) / ld( d )); CMP( "A/s", a / d, r, z, 4 );
        EACH( -A( i, j )); CMP( "-A", -a, r, z, 4 ); CMP( "negate", a.negate(), r, z, 4 );
        {
            Matrix< N, M, T > t, u = vmml::transpose( a ); fill( c, t ); a.transpose_to( t );
            bool ok = true;
            for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j )
                ok &= t.array[ i * N + j ] == a.array[ j * M + i ] && u.array[ i * N + j ] == a.array[ j * M + i ];
            CHECK( "transpose", ok, vt::show( a ), vt::show( t ), vt::show( u ));
        }
        wide< M, N, T >( c, std::integral_constant< bool, !std::is_floating_point< T >::value >( ));
        CHECK( "operands-unchanged", eq( a, a0 ) && eq( b, b0 ), "" );
        const int n = c.rng.i( 1, 10 );
        for( int q = 0; q < n; ++q )
        {
            for( size_t i = 0; i < M * N; ++i ) if( !( std::abs( ld( a.array[ i ] )) < ( sizeof( T ) == 2 ? 100 : 3000 ))) a.array[ i ] = gen< T >( c );
            const X before( a ); const L W = lm( before ); X o; fill( c, o ); L O = lm( o );
            const T x = gen< T >( c ), y = gen_nz< T >( c );
            const size_t e = c.rng.u( M * N ); const ld el = before.array[ e ];
            const int op = c.rng.i( 0, 12 ); c.in( op );
            switch( op )
            {
            case 0: EACH( W( i, j ) + O( i, j )); a += o; CMP( "A+=B", a, r, z, 4 ); break;
            case 1: EACH( W( i, j ) - O( i, j )); a -= o; CMP( "A-=B", a, r, z, 4 ); break;
            case 2: EACH( W( i, j ) + ld( x )); a += x; CMP( "A+=s", a, r, z, 4 ); break;
            case 3: EACH( W( i, j ) - ld( x )); a -= x; CMP( "A-=s", a, r, z, 4 ); break;
            case 4: EACH( W( i, j ) * ld( x )); a *= x; CMP( "A*=s", a, r, z, 4 ); break;
            case 5: EACH( in ? truncl( W( i, j ) / ld( y )) : W( i, j ) / ld( y )); a /= y; CMP( "A/=s", a, r, z, 4 ); break;
            case 6: EACH( W( i, j ) * O( i, j )); a.multiply_piecewise( o ); CMP( "multiply_piecewise", a, r, z, 4 ); break;
            case 7: EACH( 2 * W( i, j )); a += a; CMP( "A+=A", a, r, z, 4 ); break;
            case 8: EACH( 0 ); a -= a; CMP( "A-=A", a, r, z, 4 ); break;
            case 9: EACH( W( i, j ) * W( i, j )); a.multiply_piecewise( a ); CMP( "piecewise-self", a, r, z, 4 ); break;
            case 10: EACH( W( i, j ) * el ); a *= a.array[ e ]; CMP( "A*=own-element", a, r, z, 4 ); break;
            case 11: EACH( W( i, j ) - el ); a -= a.array[ e ]; CMP( "A-=own-element", a, r, z, 4 ); break;
            default: EACH( -W( i, j )); a = -a; CMP( "A=-A", a, r, z, 4 ); break;
            }
        }
        CHECK( "no-stray-write", ca.ok() && cb.ok(), "" );
    }
};

template< size_t M, class T > struct Sq // in-place products
{
    typedef Matrix< M, M, T > X; typedef LM< M, M > L;
    static void affine( X& a ) { for( size_t j = 0; j < M; ++j ) a.array[ j * M + M - 1 ] = T( j + 1 == M ); }
    static void run( Ctx& c )
    {
        vt::pick_mild( c );
        vt::Canary< X > ca; X& a = ca.v; fill( c, a );
        const int n = c.rng.i( 1, 6 ); L r, s;
        for( int q = 0; q < n; ++q )
        {
            for( size_t i = 0; i < M * M; ++i ) if( !( std::abs( ld( a.array[ i ] )) < 500 )) a.array[ i ] = gen< T >( c );
            X before( a ), o; fill( c, o ); X o0( o );
            const int op = c.rng.i( 0, 4 ); c.in( op );
            if( op < 4 && c.rng.one( 3 )) { affine( a ); SAW( "saw-affine-target" ); if( c.rng.b( )) affine( o ); before = a; o0 = o; }
            switch( op )
            {
            case 0: prod( lm( before ), lm( o ), r, s ); a *= o; CMP( "A*=B", a, r, s, 4 + 2 * M ); break;
            case 1: prod( lm( before ), lm( before ), r, s ); a *= a; CMP( "A*=A", a, r, s, 4 + 2 * M ); break;
            case 2: prod( lm( before ), lm( before ), r, s ); a = a * a; CMP( "A=A*A", a, r, s, 4 + 2 * M ); break;
            case 3: prod( lm( o ), lm( before ), r, s ); a = o * a; CMP( "A=B*A", a, r, s, 4 + 2 * M ); break;
            default: { X i; const X b0( a ); a *= i; CHECK( "A*=I", eq( a, b0 ), vt::show( a ), vt::show( b0 )); }
            }
            CHECK( "operands-unchanged", eq( o, o0 ), "" );
        }
        CHECK( "no-stray-write", ca.ok(), "" );
    }
};

template< size_t M, size_t N, class T > struct Hom // homogeneous points, M == N or M == N - 1
{
    static void run( Ctx& c )
    {
        vt::pick_mild( c );
        vt::Canary< Matrix< M, N, T > > ca; Matrix< M, N, T >& a = ca.v; fill( c, a );
        if( M == N && c.rng.one( 3 )) // affine
        { for( size_t j = 0; j < N; ++j ) a.array[ j * M + M - 1 ] = T( j + 1 == N ); SAW( "saw-affine" ); }
        else if( M == N && c.rng.b()) // any multiple of a matrix is the same map of homogeneous points
        { const int e = c.rng.i( -60, 60 ); c.in( e ); for( size_t i = 0; i < M * N; ++i ) a.array[ i ] = T( ldexpl( a.array[ i ], e )); SAW( "saw-matrix-scaled" ); }
        else if( M == N && c.rng.b()) // the divisor is nearly one, the last row nearly that of an affine matrix
        { const double t = pow( 10, -c.rng.r( 1, sizeof( T ) == 4 ? 6 : 12 )); for( size_t j = 0; j < N; ++j ) a.array[ j * M + M - 1 ] = T(( j + 1 == N ) + t * c.rng.i( -1, 1 )); SAW( "saw-nearly-affine" ); }
        Vector< N - 1, T > p; fill( c, p ); const Vector< N - 1, T > p0( p );
        ld h[ M ], s[ M ];
        for( size_t i = 0; i < M; ++i )
        {
            h[ i ] = a.array[ ( N - 1 ) * M + i ]; s[ i ] = fabsl( h[ i ] );
            for( size_t j = 0; j + 1 < N; ++j ) { const ld x = ld( a.array[ j * M + i ] ) * p.array[ j ]; h[ i ] += x; s[ i ] += fabsl( x ); }
        }
        const Matrix< M, N, T > a0( a );
        const Vector< N - 1, T > g = a * p;
        if( M == N )
        {
            const ld w = h[ M - 1 ], sw = s[ M - 1 ];
            if( fabsl( w ) > 0.02L * sw && fabsl( w ) > 1e-24L )
                for( size_t i = 0; i + 1 < M; ++i )
                    CHECK( "M*point", near( g.array[ i ], h[ i ] / w, s[ i ] / fabsl( w ) + fabsl( h[ i ] ) * sw / ( w * w ), 8 + 2 * N ), i, g.array[ i ], h[ i ] / w, vt::show( a ), vt::show( p ));
            else SAW( "saw-w-near-0" );
        }
        else for( size_t i = 0; i + 1 < N; ++i )
            CHECK( "affine-M*point", near( g.array[ i ], h[ i ], s[ i ], 8 + 2 * N ), i, g.array[ i ], h[ i ], vt::show( a ), vt::show( p ));
        CHECK( "operands-unchanged", eq( a, a0 ) && vt::show( p ) == vt::show( p0 ), "" );
        CHECK( "no-stray-write", ca.ok(), "" );
    }
};

void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    typedef void ( *Fn )( Ctx& );
    static const Fn tab[] = {
        Mul< 1, 1, 1, float >::run, Mul< 2, 2, 2, float >::run, Mul< 3, 3, 3, float >::run, Mul< 4, 4, 4, float >::run,
        Mul< 2, 3, 4, float >::run, Mul< 4, 3, 2, double >::run, Mul< 3, 1, 3, double >::run, Mul< 1, 4, 1, double >::run,
        Mul< 5, 2, 3, int >::run, Mul< 3, 3, 3, int >::run, Mul< 4, 4, 4, double >::run, Mul< 3, 4, 1, float >::run,
        Mul< 7, 5, 6, double >::run, Mul< 17, 19, 18, float >::run, Mul< 3, 70, 2, double >::run, Mul< 2, 2, 2, long double >::run, Mul< 4, 4, 3, float >::run, Mul< 1, 3, 5, int >::run, Mul< 3, 2, 4, int64_t >::run, Mul< 2, 2, 2, short >::run, Mul< 2, 5, 1, unsigned >::run,
        Ew< 1, 1, float >::run, Ew< 2, 2, double >::run, Ew< 3, 3, float >::run, Ew< 4, 4, float >::run, Ew< 4, 4, double >::run,
        Ew< 2, 5, float >::run, Ew< 5, 2, double >::run, Ew< 3, 4, int >::run, Ew< 4, 4, int >::run, Ew< 1, 6, float >::run, Ew< 6, 1, int >::run, Ew< 2, 3, int64_t >::run, Ew< 3, 3, int64_t >::run, Ew< 4, 2, short >::run, Ew< 2, 2, long double >::run, Ew< 3, 2, long double >::run, Ew< 19, 17, float >::run,
        Sq< 1, float >::run, Sq< 2, float >::run, Sq< 3, float >::run, Sq< 4, float >::run, Sq< 4, double >::run, Sq< 3, int >::run, Sq< 2, int64_t >::run, Sq< 3, long double >::run, Sq< 6, double >::run, Sq< 17, float >::run,
        Hom< 4, 4, float >::run, Hom< 4, 4, double >::run, Hom< 3, 3, float >::run, Hom< 3, 3, double >::run, Hom< 3, 4, float >::run, Hom< 4, 4, long double >::run, Hom< 2, 3, double >::run };
    const size_t k = c.rng.u( sizeof( tab ) / sizeof( *tab ));
    c.in( int( k ));
    tab[ k ]( c );
}
