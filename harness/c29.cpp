// C29: structured products place every element
#include "common.hpp"
#include <vmmlib/matrix.hpp>
using vmml::Matrix; using vmml::Vector;

static void values( Ctx& c ) { vt::pick_mild( c ); }
template< class Y > static bool is( const vt::Canary< Y >& y ) { return y.ok(); }

// products of two elements are judged exactly: one multiplication rounds one way
template< class T > static bool prod1( T got, T a, T b ) { return vt::same( got, T( a * b )) || near( got, ld( a ) * ld( b ), 0, 1 ); }

template< size_t M, size_t N, size_t O, size_t P, class T > struct Kron
{
    static void run( Ctx& c )
    {
        values( c );
        Matrix< M, N, T > a; Matrix< O, P, T > b; fill( c, a ); fill( c, b ); const auto a0 = vt::bytes( a ), b0 = vt::bytes( b );
        vt::Canary< Matrix< M * O, N * P, T > > r; fill( c, r.v ); a.kronecker_product( b, r.v );
        for( size_t i = 0; i < M * O; ++i ) for( size_t j = 0; j < N * P; ++j )
            CHECK( "kronecker", prod1( r.v.array[ j * M * O + i ], a.array[ ( j / P ) * M + i / O ], b.array[ ( j % P ) * O + i % O ] ), i, j, vt::show( a ), vt::show( b ), vt::show( r.v ));
        // direct sum
        vt::Canary< Matrix< M + O, N + P, T > > d; fill( c, d.v ); d.v.direct_sum( a, b );
        for( size_t i = 0; i < M + O; ++i ) for( size_t j = 0; j < N + P; ++j )
        {
            const T e = i < M && j < N ? a.array[ j * M + i ] : i >= M && j >= N ? b.array[ ( j - N ) * O + i - M ] : T( 0 );
            CHECK( "direct_sum", d.v.array[ j * ( M + O ) + i ] == e, i, j, vt::show( a ), vt::show( b ), vt::show( d.v ));
        }
        CHECK( "operands-unchanged", vt::bytes( a ) == a0 && vt::bytes( b ) == b0, "" );
        CHECK( "no-stray-write", is( r ) && is( d ), "" );
    }
};
template< size_t M, size_t N, size_t O, class T > struct Khatri
{
    static void run( Ctx& c )
    {
        values( c );
        Matrix< M, N, T > a; Matrix< O, N, T > b; fill( c, a ); fill( c, b ); const auto a0 = vt::bytes( a ), b0 = vt::bytes( b );
        vt::Canary< Matrix< M * O, N, T > > r; fill( c, r.v ); a.khatri_rao_product( b, r.v );
        for( size_t i = 0; i < M * O; ++i ) for( size_t j = 0; j < N; ++j )
            CHECK( "khatri_rao", prod1( r.v.array[ j * M * O + i ], a.array[ j * M + i / O ], b.array[ j * O + i % O ] ), i, j, vt::show( a ), vt::show( b ), vt::show( r.v ));
        Vector< M, T > u; Vector< N, T > v; fill( c, u ); fill( c, v ); vt::Canary< Matrix< M, N, T > > t; fill( c, t.v ); t.v.tensor( u, v );
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j )
            CHECK( "outer-product", prod1( t.v.array[ j * M + i ], u.array[ i ], v.array[ j ] ), i, j, vt::show( u ), vt::show( v ), vt::show( t.v ));
        CHECK( "operands-unchanged", vt::bytes( a ) == a0 && vt::bytes( b ) == b0, "" );
        CHECK( "no-stray-write", is( r ) && is( t ), "" );
    }
};
template< class T > struct Tensor4
{
    static void run( Ctx& c )
    {
        values( c ); Vector< 3, T > u, v; fill( c, u ); fill( c, v ); vt::Canary< Matrix< 4, 4, T > > t; fill( c, t.v ); t.v.tensor( u, v );
        for( size_t i = 0; i < 4; ++i ) for( size_t j = 0; j < 4; ++j )
        {
            const T a = j < 3 ? u.array[ j ] : T( 1 ), b = i < 3 ? v.array[ i ] : T( 1 );
            CHECK( "homogeneous-outer-product", prod1( t.v.array[ j * 4 + i ], a, b ), i, j, vt::show( u ), vt::show( v ), vt::show( t.v ));
        }
        Vector< 4, T > p, q; fill( c, p ); fill( c, q ); t.v.tensor( p, q );
        for( size_t i = 0; i < 4; ++i ) for( size_t j = 0; j < 4; ++j )
            CHECK( "outer-product", prod1( t.v.array[ j * 4 + i ], p.array[ i ], q.array[ j ] ), i, j, vt::show( p ), vt::show( q ));
        CHECK( "no-stray-write", is( t ), "" );
    }
};
template< size_t M, size_t N, class T > struct Pairs
{
    static void run( Ctx& c )
    {
        values( c ); Matrix< M, N, T > a; fill( c, a ); const auto a0 = vt::bytes( a );
        vt::Canary< Matrix< M / 2, N, T > > r; fill( c, r.v ); a.sum_rows( r.v );
        for( size_t i = 0; i < M / 2; ++i ) for( size_t j = 0; j < N; ++j )
        {
            const T x = a.array[ j * M + 2 * i ], y = a.array[ j * M + 2 * i + 1 ];
            CHECK( "sum_rows", r.v.array[ j * ( M / 2 ) + i ] == T( x + y ), i, j, vt::show( a ), vt::show( r.v ));
        }
        vt::Canary< Matrix< M, N / 2, T > > q; fill( c, q.v ); a.sum_columns( q.v );
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N / 2; ++j )
        {
            const T x = a.array[ 2 * j * M + i ], y = a.array[ ( 2 * j + 1 ) * M + i ];
            CHECK( "sum_columns", q.v.array[ j * M + i ] == T( x + y ), i, j, vt::show( a ), vt::show( q.v ));
        }
        vt::Canary< Matrix< M, M, T > > s; fill( c, s.v ); a.symmetric_covariance( s.v );
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < M; ++j )
        {
            ld e = 0, sc = 0;
            for( size_t k = 0; k < N; ++k ) { const ld x = ld( a.array[ k * M + i ] ) * ld( a.array[ k * M + j ] ); e += x; sc += fabsl( x ); }
            CHECK( "covariance", near( s.v.array[ j * M + i ], e, sc, 4 + N ), i, j, s.v.array[ j * M + i ], e, vt::show( a ));
            CHECK( "covariance-symmetric", s.v.array[ j * M + i ] == s.v.array[ i * M + j ], i, j );
        }
        CHECK( "operands-unchanged", vt::bytes( a ) == a0, "" );
        CHECK( "no-stray-write", is( r ) && is( q ) && is( s ), "" );
    }
};
template< size_t M, size_t N, size_t U, size_t V, class T > struct Conv
{
    static void run( Ctx& c )
    {
        values( c ); vt::Canary< Matrix< M, N, T > > m; fill( c, m.v );
        if( std::is_integral< T >::value && sizeof( T ) == 8 && U * V < 16 && c.rng.b( )) // whole numbers no double holds
        {
            SAW( "saw-integers-beyond-double" );
            for( auto& x : m.v.array ) { x = T( ldexpl( ld( x ), 48 )) + T( c.rng.i( -9, 9 )); c.in( x ); }
        }
        const Matrix< M, N, T > a( m.v );
        Matrix< U, V, T > k; fill( c, k ); if( c.rng.one( 4 )) { k.zero(); k.array[ c.rng.u( U * V ) ] = T( 1 ); SAW( "saw-delta-kernel" ); }
        const auto k0 = vt::bytes( k );
        m.v.convolve( k );
        for( int y = 0; y < int( M ); ++y ) for( int x = 0; x < int( N ); ++x )
        {
            ld e = 0, sc = 0;
            for( int j = 0; j < int( U ); ++j ) for( int i = 0; i < int( V ); ++i )
            {
                const int sy = std::min( std::max( y - int( U / 2 ) + j, 0 ), int( M ) - 1 ), sx = std::min( std::max( x - int( V / 2 ) + i, 0 ), int( N ) - 1 );
                const ld t = ld( k.array[ i * U + j ] ) * ld( a.array[ sx * M + sy ] ); e += t; sc += fabsl( t );
            }
            CHECK( "convolve", near( m.v.array[ x * M + y ], e, sc, 6 + U * V ), y, x, "got", m.v.array[ x * M + y ], "expected", e, vt::show( a ), vt::show( k ));
        }
        CHECK( "operands-unchanged", vt::bytes( k ) == k0, "" );
        CHECK( "no-stray-write", is( m ), "" );
    }
};

void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    typedef void ( *Fn )( Ctx& );
    static const Fn tab[] = {
        Kron< 2, 3, 3, 2, float >::run, Kron< 1, 4, 2, 1, double >::run, Kron< 3, 1, 1, 5, int >::run, Kron< 2, 2, 2, 2, float >::run, Kron< 4, 2, 3, 3, double >::run,
        Khatri< 2, 3, 4, float >::run, Khatri< 4, 2, 3, double >::run, Khatri< 1, 5, 2, int >::run, Khatri< 3, 3, 3, float >::run, Khatri< 5, 4, 1, double >::run,
        Tensor4< float >::run, Tensor4< double >::run,
        Pairs< 4, 4, float >::run, Pairs< 2, 5, double >::run, Pairs< 5, 2, int >::run, Pairs< 7, 3, float >::run, Pairs< 6, 8, double >::run, Pairs< 3, 9, int >::run, Pairs< 3, 3, double >::run,
        Conv< 5, 4, 3, 3, float >::run, Conv< 3, 6, 1, 3, double >::run, Conv< 6, 3, 5, 1, double >::run, Conv< 4, 4, 2, 2, float >::run, Conv< 2, 2, 5, 5, double >::run, Conv< 1, 7, 3, 3, int >::run, Conv< 5, 7, 3, 5, double >::run, Conv< 7, 2, 4, 3, int >::run, Conv< 20, 19, 7, 9, float >::run, Kron< 5, 6, 6, 5, float >::run, Conv< 5, 4, 3, 3, long >::run, Conv< 4, 6, 3, 5, long >::run, Conv< 4, 6, 3, 3, long double >::run, Conv< 2, 3, 2, 1, short >::run, Kron< 2, 3, 2, 2, long double >::run, Khatri< 3, 2, 3, long >::run, Khatri< 2, 4, 2, long double >::run, Pairs< 4, 5, long double >::run, Pairs< 5, 4, long >::run, Pairs< 2, 3, short >::run, Khatri< 9, 3, 11, double >::run, Pairs< 20, 19, float >::run, Tensor4< long double >::run, Pairs< 3, 3, long double >::run, Kron< 1, 2, 3, 2, long >::run };
    const size_t k = c.rng.u( sizeof( tab ) / sizeof( *tab ));
    c.in( int( k ));
    tab[ k ]( c );
}
