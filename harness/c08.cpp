// C08: determinant, minors, cofactors, adjugate, inverse
#include "common.hpp"
#include <vmmlib/matrix.hpp>
using vmml::Matrix;

// Laplace expansion of an n x n block, with the sum of absolute products
static ld det( const std::vector< ld >& a, size_t n, ld& perm )
{
    if( n == 0 ) { perm = 1; return 1; }
    if( n == 1 ) { perm = fabsl( a[ 0 ] ); return a[ 0 ]; }
    ld d = 0; perm = 0;
    for( size_t k = 0; k < n; ++k )
    {
        std::vector< ld > s;
        for( size_t i = 1; i < n; ++i ) for( size_t j = 0; j < n; ++j ) if( j != k ) s.push_back( a[ i * n + j ] );
        ld p; const ld m = det( s, n - 1, p );
        d += ( k & 1 ? -1 : 1 ) * a[ k ] * m; perm += fabsl( a[ k ] ) * p;
    }
    return d;
}
template< size_t M, class T > struct Ref
{
    ld a[ M ][ M ], cof[ M ][ M ], pcof[ M ][ M ], d, perm;
    explicit Ref( const Matrix< M, M, T >& m )
    {
        std::vector< ld > f;
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j ) { a[ i ][ j ] = m.array[ j * M + i ]; f.push_back( a[ i ][ j ] ); }
        d = det( f, M, perm );
        for( size_t r = 0; r < M; ++r ) for( size_t k = 0; k < M; ++k )
        {
            std::vector< ld > s;
            for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j ) if( i != r && j != k ) s.push_back( a[ i ][ j ] );
            cof[ r ][ k ] = (( r + k ) & 1 ? -1 : 1 ) * det( s, M - 1, pcof[ r ][ k ] );
        }
    }
};

template< size_t M, class T > static void prepare( Ctx& c, Matrix< M, M, T >& a )
{
    fill( c, a );
    const size_t i = c.rng.u( M ), j = c.rng.u( M );
    switch( c.rng.u( 10 ))
    {
    case 0: // dependent rows
        if( i != j ) for( size_t k = 0; k < M; ++k ) a.array[ k * M + i ] = a.array[ k * M + j ];
        break;
    case 1: // zero column
        for( size_t k = 0; k < M; ++k ) a.array[ i * M + k ] = 0;
        break;
    case 2: // (permuted) diagonal
        for( size_t r = 0; r < M; ++r ) for( size_t k = 0; k < M; ++k ) if(( r + i ) % M != k ) a.array[ k * M + r ] = 0;
        break;
    case 3: // upper triangular
        for( size_t r = 0; r < M; ++r ) for( size_t k = 0; k < r; ++k ) a.array[ k * M + r ] = 0;
        break;
    case 4: // affine
        for( size_t k = 0; k < M; ++k ) a.array[ k * M + M - 1 ] = T( k + 1 == M );
        break;
    case 5: // affine with orthonormal or only unit axes
    {
        if( !std::is_floating_point< T >::value || M < 2 ) break;
        const bool ortho = c.rng.b(); size_t D = M - 1; ld v[ M ][ M ];
        for( size_t k = 0; k < D; ++k )
        {
            ld n = 0; do { for( size_t r = 0; r < D; ++r ) v[ k ][ r ] = c.rng.r( -1, 1 );
                if( ortho ) for( size_t p = 0; p < k; ++p ) { ld d = 0; for( size_t r = 0; r < D; ++r ) d += v[ k ][ r ] * v[ p ][ r ]; for( size_t r = 0; r < D; ++r ) v[ k ][ r ] -= d * v[ p ][ r ]; }
                n = 0; for( size_t r = 0; r < D; ++r ) n += v[ k ][ r ] * v[ k ][ r ]; } while( n < 1e-3L );
            for( size_t r = 0; r < D; ++r ) { v[ k ][ r ] /= sqrtl( n ); a.array[ k * M + r ] = T( v[ k ][ r ] ); }
        }
        for( size_t k = 0; k < M; ++k ) a.array[ k * M + M - 1 ] = T( k + 1 == M );
        if( c.rng.one( 3 )) for( size_t r = 0; r < D; ++r ) a.array[ D * M + r ] = 0;
        if( ortho ) SAW( "saw-rigid" ); else SAW( "saw-unit-axes" );
        break;
    }
    case 6: // symmetric
        for( size_t r = 0; r < M; ++r ) for( size_t k = 0; k < r; ++k ) a.array[ k * M + r ] = a.array[ r * M + k ];
        break;
    default: break;
    }
}
template< size_t M, class T > static bool exact( const Matrix< M, M, T >& a ) // all expansions exact in T
{
    if( !std::is_floating_point< T >::value ) return true; // narrow() keeps every expansion in range
    for( size_t i = 0; i < M * M; ++i ) if( a.array[ i ] != std::floor( double( a.array[ i ] )) || std::abs( double( a.array[ i ] )) > 9 ) return false;
    return true;
}
template< size_t M, class T > static bool eq( const Matrix< M, M, T >& a, const Matrix< M, M, T >& b )
{ for( size_t i = 0; i < M * M; ++i ) if( !vt::same( a.array[ i ], b.array[ i ] )) return false; return true; }

// integers small enough for every product of M of them and the sum of M! such products
template< size_t M, class T > static void narrow( Matrix< M, M, T >& a )
{
    if( std::is_floating_point< T >::value ) return;
    const int log2[] = { 0, 0, 1, 3, 5, 7 }, bits = ( std::numeric_limits< T >::digits - 1 - log2[ M ] ) / int( M );
    for( size_t i = 0; i < M * M; ++i ) a.array[ i ] = T( (long long)( a.array[ i ] ) % ( 1ll << bits ));
}
template< size_t M, class T > struct Det
{
    static void run( Ctx& c )
    {
        vt::pick_mild( c ); vt::pick_wide< T >( c );
        vt::Canary< Matrix< M, M, T > > ca; Matrix< M, M, T >& a = ca.v; prepare( c, a );
        narrow( a );
        const Matrix< M, M, T > a0( a ); const Ref< M, T > r( a );
        const bool ex = exact( a );
        if( ex ) SAW( "saw-exact" );
        const T d = a.det(), f = vmml::compute_determinant( a );
        CHECK( "det", ex ? ld( d ) == r.d : near( d, r.d, r.perm, 24 ), d, r.d, vt::show( a ));
        CHECK( "det-free", ex ? ld( f ) == r.d : near( f, r.d, r.perm, 24 ), f, r.d, vt::show( a ));
        CHECK( "input-unchanged", eq( a, a0 ) && ca.ok(), "" );
    }
};
template< size_t M, class T > struct Cof
{
    static void run( Ctx& c )
    {
        vt::pick_mild( c ); vt::pick_wide< T >( c );
        typedef Matrix< M, M, T > X;
        vt::Canary< X > ca, co; X& a = ca.v; prepare( c, a );
        narrow( a );
        const X a0( a ); const Ref< M, T > r( a ); const bool ex = exact( a );
        X& o = co.v; fill( c, o );
        a.get_cofactors( o ); bool ok = true;
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j )
            ok &= ex ? ld( o.array[ j * M + i ] ) == r.cof[ i ][ j ] : near( o.array[ j * M + i ], r.cof[ i ][ j ], r.pcof[ i ][ j ], 24 );
        CHECK( "cofactors", ok, vt::show( a ), vt::show( o ));
        fill( c, o ); a.get_adjugate( o ); ok = true;
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j )
            ok &= ex ? ld( o.array[ i * M + j ] ) == r.cof[ i ][ j ] : near( o.array[ i * M + j ], r.cof[ i ][ j ], r.pcof[ i ][ j ], 24 );
        CHECK( "adjugate", ok, vt::show( a ), vt::show( o ));
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j )
        {
            vt::Canary< Matrix< M - 1, M - 1, T > > cm; const T m = a.get_minor( cm.v, i, j );
            const ld e = (( i + j ) & 1 ? -1 : 1 ) * r.cof[ i ][ j ];
            CHECK( "minor", ex ? ld( m ) == e : near( m, e, r.pcof[ i ][ j ], 24 ), i, j, m, e, vt::show( a ));
            bool in = true; size_t p = 0;
            for( size_t y = 0; y < M; ++y ) if( y != i )
            {
                size_t q = 0;
                for( size_t x = 0; x < M; ++x ) if( x != j ) { in &= cm.v.array[ q * ( M - 1 ) + p ] == a.array[ x * M + y ]; ++q; }
                ++p;
            }
            CHECK( "minor-matrix", in && cm.ok(), i, j, vt::show( a ), vt::show( cm.v ));
        }
        CHECK( "input-unchanged", eq( a, a0 ) && ca.ok() && co.ok(), "" );
    }
};
template< size_t M, class T > struct Inv
{
    static void run( Ctx& c )
    {
        vt::pick_mild( c );
        typedef Matrix< M, M, T > X;
        vt::Canary< X > ca, co; X& a = ca.v; prepare( c, a );
        if( c.rng.one( 3 )) { const int e = c.rng.i( -1, 1 ) * ( sizeof( T ) == 4 ? 10 : c.rng.b() ? 20 : sizeof( T ) > 8 && c.rng.b() ? 600 : 80 ); c.in( e ); for( size_t i = 0; i < M * M; ++i ) a.array[ i ] = T( ldexp( a.array[ i ], e )); if( e ) SAW( "saw-scaled" ); }
        const X a0( a ); const Ref< M, T > r( a ); const bool ex = exact( a );
        X& o = co.v; fill( c, o );
        T tol = std::numeric_limits< T >::epsilon(); bool ok; const int form = c.rng.i( 0, 3 );
        if( form == 1 || form == 3 )
        {
            static const double m[] = { 0, 0.01, 0.4, 0.9, 1.1, 2.5, 100 };
            tol = c.rng.one( 4 ) ? T( 1e-3 ) : T( fabsl( r.d ) * m[ c.rng.u( 7 ) ] );
            c.in( tol );
        }
        switch( form )
        {
        case 0: ok = a.inverse( o ); break;
        case 1: ok = a.inverse( o, tol ); break;
        case 2: ok = vmml::compute_inverse( a, o ); break;
        default: ok = vmml::compute_inverse( a, o, tol ); break;
        }
        CHECK( "input-unchanged", eq( a, a0 ) && ca.ok() && co.ok(), vt::show( a ), vt::show( a0 ));
        const ld err = ex ? 0 : 24 * vt::eps< T >() * r.perm + std::numeric_limits< T >::min();
        if( fabsl( r.d ) + err < tol ) { SAW( "saw-singular" ); CHECK( "refuses-singular", !ok, r.d, tol, vt::show( a )); }
        if( ex && r.d == 0 ) { if( tol == 0 ) SAW( "saw-singular-no-tolerance" ); CHECK( "never-inverts-singular", !ok, tol, vt::show( a )); }
        if( fabsl( r.d ) - err > tol ) { SAW( "saw-regular" ); CHECK( "accepts-regular", ok, r.d, tol, vt::show( a )); }
        if( !ok || r.perm * 24 * vt::eps< T >() > 0.01L * fabsl( r.d ) || fabsl( r.d ) < ( sizeof( T ) == 4 ? 1e-25L : sizeof( T ) > 8 ? 1e-4000L : 1e-200L )) return;
        if( fabsl( r.d ) < vt::eps< T >( )) SAW( "saw-inverted-below-default-tolerance" );
        const double k = 40; bool v = true;
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j )
        {
            const ld e = r.cof[ j ][ i ] / r.d;
            v &= near( o.array[ j * M + i ], e, r.pcof[ j ][ i ] / fabsl( r.d ) + fabsl( e ) * r.perm / fabsl( r.d ), k );
        }
        CHECK( "inverse-elements", v, vt::show( a ), vt::show( o ), "det", r.d );
        bool left = true, right = true;
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j )
        {
            ld x = 0, sx = 0, y = 0, sy = 0;
            for( size_t q = 0; q < M; ++q )
            {
                x += r.a[ i ][ q ] * o.array[ j * M + q ];
                sx += fabsl( r.a[ i ][ q ] ) * r.pcof[ j ][ q ] / fabsl( r.d ) * ( 1 + r.perm / fabsl( r.d ));
                y += ld( o.array[ q * M + i ] ) * r.a[ q ][ j ];
                sy += fabsl( r.a[ q ][ j ] ) * r.pcof[ q ][ i ] / fabsl( r.d ) * ( 1 + r.perm / fabsl( r.d ));
            }
            right &= fabsl( x - ( i == j )) <= k * vt::eps< T >() * ( 1 + sx );
            left &= fabsl( y - ( i == j )) <= k * vt::eps< T >() * ( 1 + sy );
        }
        CHECK( "A*B=I", right, vt::show( a ), vt::show( o ));
        CHECK( "B*A=I", left, vt::show( a ), vt::show( o ));
    }
};
template< class T > struct Pos
{
    static void run( Ctx& c )
    {
        vt::pick_mild( c );
        Matrix< 3, 3, T > a; prepare( c, a );
        if( c.rng.b( )) for( int i = 0; i < 3; ++i ) a.array[ i * 4 ] = T( std::abs( a.array[ i * 4 ] ) + 5 );
        const T lim = c.rng.b() ? T( 0 ) : gen< T >( c );
        ld p2, p3; std::vector< ld > s2, s3;
        for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) { if( i < 2 && j < 2 ) s2.push_back( a.array[ j * 3 + i ] ); s3.push_back( a.array[ j * 3 + i ] ); }
        const ld d1 = a.array[ 0 ], d2 = det( s2, 2, p2 ), d3 = det( s3, 3, p3 );
        const ld e2 = 24 * vt::eps< T >() * p2, e3 = 24 * vt::eps< T >() * p3;
        const bool g = vmml::is_positive_definite( a, lim );
        if( std::floor( lim ) == lim && exact( a ) && d1 >= lim && d2 >= lim && d3 >= lim ) CHECK( "positive-definite-accepts-at-limit", g, vt::show( a ), lim );
        if( d1 >= lim && d2 - e2 > lim && d3 - e3 > lim ) CHECK( "positive-definite-accepts", g, vt::show( a ), lim );
        if( d1 < lim || d2 + e2 < lim || d3 + e3 < lim ) CHECK( "positive-definite-rejects", !g, vt::show( a ), lim );
    }
};

void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    typedef void ( *Fn )( Ctx& );
    static const Fn tab[] = {
        Det< 1, float >::run, Det< 2, float >::run, Det< 3, float >::run, Det< 4, float >::run,
        Det< 2, double >::run, Det< 3, double >::run, Det< 4, double >::run, Det< 3, int >::run, Det< 4, int >::run, Det< 2, int >::run, Det< 3, int64_t >::run, Det< 4, int64_t >::run, Cof< 3, int64_t >::run, Cof< 5, int64_t >::run,
        Cof< 2, float >::run, Cof< 3, float >::run, Cof< 4, float >::run, Cof< 5, float >::run, Cof< 2, double >::run, Cof< 3, double >::run,
        Cof< 4, double >::run, Cof< 5, double >::run, Cof< 4, int >::run, Cof< 3, int >::run,
        Inv< 2, float >::run, Inv< 3, float >::run, Inv< 4, float >::run, Inv< 2, double >::run, Inv< 3, double >::run, Inv< 4, double >::run,
        Inv< 3, float >::run, Inv< 4, float >::run, Inv< 2, double >::run, Inv< 4, double >::run,
        Det< 3, long double >::run, Cof< 4, long double >::run, Inv< 2, long double >::run, Inv< 3, long double >::run, Inv< 4, long double >::run, Pos< float >::run, Pos< double >::run, Pos< long double >::run, Det< 2, long double >::run, Det< 4, long double >::run, Cof< 3, long double >::run };
    const size_t k = c.rng.u( sizeof( tab ) / sizeof( *tab ));
    c.in( int( k ));
    tab[ k ]( c );
}
