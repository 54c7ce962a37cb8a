// C21: QR decomposition
#include "common.hpp"
#include <vmmlib/qr_decomposition.hpp>
using vmml::Matrix; using vmml::Vector;

template< size_t M, size_t N, class T > struct A
{
    typedef Matrix< M, N, T > MA; typedef Matrix< M, M, T > MQ; typedef Matrix< N, N, T > MR;
    static void make( Ctx& c, MA& a )
    {
        if( c.rng.one( 3 )) { c.prof = P_LOG; SAW( "saw-wide-entries" ); } else vt::pick_mild( c );
        fill( c, a );
        switch( c.rng.u( 8 ))
        {
        case 0: // graded columns
        {
            SAW( "saw-graded-columns" );
            for( size_t j = 0; j < N; ++j ) { const T s = T( ldexp( 1.0, c.rng.i( -12, 12 ))); for( size_t i = 0; i < M; ++i ) a.array[ j * M + i ] *= s; }
            break;
        }
        case 1: // nearly dependent columns
            if( N > 1 )
            {
                SAW( "saw-nearly-dependent" ); const T d = T( pow( 10, -c.rng.r( .5, sizeof( T ) == 4 ? 3 : 9 )));
                const size_t j = 1 + c.rng.u( N - 1 );
                for( size_t i = 0; i < M; ++i ) a.array[ j * M + i ] = a.array[ ( j - 1 ) * M + i ] + d * T( c.rng.r( -1, 1 ));
            }
            break;
        case 2: // lower triangle zero
            SAW( "saw-triangular" ); for( size_t j = 0; j < N; ++j ) for( size_t i = j + 1; i < M; ++i ) a.array[ j * M + i ] = 0;
            break;
        case 3: // Hilbert-like
            SAW( "saw-hilbert" ); for( size_t j = 0; j < N; ++j ) for( size_t i = 0; i < M; ++i ) a.array[ j * M + i ] = T( 1 ) / T( i + j + 1 );
            break;
        case 4: // diagonal with signs
            SAW( "saw-diagonal" ); for( size_t j = 0; j < N; ++j ) for( size_t i = 0; i < M; ++i ) if( i != j ) a.array[ j * M + i ] = 0;
            break;
        case 5: // Läuchli: orthogonality is lost fast unless the columns are orthogonalised one after the other
            if( M > N )
            {
                SAW( "saw-lauchli" ); const T e = T( pow( 10, -c.rng.r( 1, sizeof( T ) == 4 ? 3 : 7 )));
                for( size_t j = 0; j < N; ++j ) for( size_t i = 0; i < M; ++i ) a.array[ j * M + i ] = i == 0 ? T( 1 ) : i == j + 1 ? e : T( 0 );
            }
            break;
        default: break;
        }
        for( size_t i = 0; i < M * N; ++i ) c.in( a.array[ i ] );
    }
    // Householder in extended precision would do; a twice-repeated Gram-Schmidt is as good and gives R and a bound for the conditioning
    static bool reference( const MA& a, ld ( &r )[ N ][ N ], ld& cond )
    {
        ld q[ N ][ M ];
        for( size_t j = 0; j < N; ++j )
        {
            ld v[ M ], n0 = 0, n1 = 0;
            for( size_t i = 0; i < M; ++i ) { v[ i ] = a.array[ j * M + i ]; n0 += v[ i ] * v[ i ]; }
            for( size_t k = 0; k < N; ++k ) r[ k ][ j ] = 0;
            for( int pass = 0; pass < 3; ++pass )
                for( size_t k = 0; k < j; ++k )
                {
                    ld d = 0; for( size_t i = 0; i < M; ++i ) d += q[ k ][ i ] * v[ i ];
                    for( size_t i = 0; i < M; ++i ) v[ i ] -= d * q[ k ][ i ];
                    r[ k ][ j ] += d;
                }
            for( size_t i = 0; i < M; ++i ) n1 += v[ i ] * v[ i ];
            n0 = sqrtl( n0 ); n1 = sqrtl( n1 );
            if( !( n0 > 0 ) || !( n1 > 1e-12L * n0 )) return false;
            r[ j ][ j ] = n1; for( size_t i = 0; i < M; ++i ) q[ j ][ i ] = v[ i ] / n1;
        }
        // condition number of the column-scaled matrix, bounded through the inverse of the scaled R
        ld s[ N ][ N ], inv[ N ][ N ], fn = 0, fi = 0;
        for( size_t j = 0; j < N; ++j )
        {
            ld n = 0; for( size_t i = 0; i <= j; ++i ) n += r[ i ][ j ] * r[ i ][ j ];
            n = sqrtl( n ); for( size_t i = 0; i < N; ++i ) s[ i ][ j ] = i <= j ? r[ i ][ j ] / n : 0;
        }
        for( size_t j = 0; j < N; ++j )
            for( size_t i = N; i-- > 0; )
            {
                ld v = i == j; for( size_t k = i + 1; k < N; ++k ) v -= s[ i ][ k ] * inv[ k ][ j ];
                inv[ i ][ j ] = v / s[ i ][ i ];
            }
        for( size_t j = 0; j < N; ++j ) for( size_t i = 0; i < N; ++i ) { fn += s[ i ][ j ] * s[ i ][ j ]; fi += inv[ i ][ j ] * inv[ i ][ j ]; }
        cond = sqrtl( fn * fi ); return true;
    }
    static void run( Ctx& c )
    {
        vt::Canary< MQ > cq; vt::Canary< MR > cr; vt::Canary< MA > ca; MA& a = ca.v; MQ& q = cq.v; MR& r = cr.v;
        make( c, a );
        const int prior = int( c.rng.u( 3 )); // what the outputs held before must not matter
        if( prior == 1 ) { c.prof = P_UNIT; fill( c, q ); fill( c, r ); }
        if( prior == 2 ) { for( size_t i = 0; i < M * M; ++i ) q.array[ i ] = std::numeric_limits< T >::quiet_NaN(); for( size_t i = 0; i < N * N; ++i ) r.array[ i ] = std::numeric_limits< T >::infinity(); }
        ld ref[ N ][ N ], cond; if( !reference( a, ref, cond )) { SAW( "saw-rank-deficient-skipped" ); return; }
        const ld e = vt::eps< T >();
        if( !( cond * e * 8 * N < 0.1L )) { SAW( "saw-too-ill-conditioned-skipped" ); return; }
        if( cond > 100 ) SAW( "saw-ill-conditioned" );
        const MA a0( a );
        vmml::qr_decompose_gram_schmidt( a, q, r );
        CHECK( "input-unchanged", std::equal( a.begin(), a.end(), a0.begin( )), vt::show( a ));
        CHECK( "no-stray-write", cq.ok() && cr.ok() && ca.ok(), "" );
        bool tri = true, diag = true, res = true, orth = true, rok = true; std::string m;
        for( size_t j = 0; j < N; ++j )
        {
            ld n = 0; for( size_t i = 0; i < M; ++i ) n += ld( a.array[ j * M + i ] ) * a.array[ j * M + i ];
            n = sqrtl( n );
            diag &= r.array[ j * N + j ] > 0;
            for( size_t i = j + 1; i < N; ++i ) tri &= r.array[ j * N + i ] == 0;
            for( size_t i = 0; i < M; ++i )
            {
                ld s = 0; for( size_t k = 0; k < N; ++k ) s += ld( q.array[ k * M + i ] ) * r.array[ j * N + k ];
                if( !( fabsl( s - a.array[ j * M + i ] ) <= 4 * ( M + N + 4 ) * e * n )) { res = false; m = vt::str( "at", i, j, "product", s, "input", a.array[ j * M + i ] ); }
            }
            for( size_t k = 0; k <= j; ++k )
            {
                ld d = 0; for( size_t i = 0; i < M; ++i ) d += ld( q.array[ k * M + i ] ) * q.array[ j * M + i ];
                if( !( fabsl( d - ( k == j )) <= 4 * ( M + N + 4 ) * e * ( k == j ? 1 : cond ))) { orth = false; m = vt::str( "columns", k, j, "dot", d, "condition", cond ); }
                if( !( fabsl( r.array[ j * N + k ] - ref[ k ][ j ] ) <= 8 * ( M + N + 4 ) * e * cond * n )) { rok = false; m = vt::str( "R", k, j, "got", r.array[ j * N + k ], "expected", ref[ k ][ j ] ); }
            }
        }
        CHECK( "product", res, m, vt::show( a ), vt::show( q ), vt::show( r ));
        CHECK( "orthonormal", orth, m, vt::show( a ), vt::show( q ));
        CHECK( "triangular", tri, vt::show( r ));
        CHECK( "positive-diagonal", diag, vt::show( r ));
        CHECK( "unique-factor", rok, m, vt::show( a ), vt::show( r ));
        if( M > N ) SAW( "saw-tall" );
        // deterministic
        MQ q2; MR r2; fill( c, q2 ); vmml::qr_decompose_gram_schmidt( a, q2, r2 );
        bool again = true;
        for( size_t i = 0; i < N * N; ++i ) again &= vt::same( r2.array[ i ], r.array[ i ] );
        for( size_t i = 0; i < M * M; ++i ) again &= vt::same( q2.array[ i ], q.array[ i ] );
        CHECK( "prior-contents-irrelevant", again, vt::show( q ), vt::show( q2 ));
    }
};
typedef void ( *Fn )( Ctx& );
#define S( T ) A< 1, 1, T >::run, A< 2, 1, T >::run, A< 2, 2, T >::run, A< 3, 1, T >::run, A< 3, 2, T >::run, A< 3, 3, T >::run, A< 4, 2, T >::run, A< 4, 3, T >::run, \
    A< 4, 4, T >::run, A< 5, 3, T >::run, A< 5, 5, T >::run, A< 6, 4, T >::run, A< 6, 6, T >::run, A< 7, 2, T >::run, A< 7, 7, T >::run, A< 7, 6, T >::run, A< 12, 5, T >::run, A< 10, 10, T >::run, A< 13, 11, T >::run, A< 18, 17, T >::run
static const Fn tab[] = { S( float ), S( double ), S( long double ) };
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { const size_t k = c.rng.u( sizeof tab / sizeof *tab ); c.in( k ); tab[ k ]( c ); }
