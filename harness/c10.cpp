// C10: matrix reductions, norms and element maps
#include "common.hpp"
#include <vmmlib/matrix.hpp>
using vmml::Matrix; using vmml::Vector;

template< size_t M, size_t N, class T > struct A
{
    typedef Matrix< M, N, T > X;
    static const bool real = std::is_floating_point< T >::value;
    static ld E( const X& a, size_t i ) { return a.array[ i ]; }
    static ld mag( const X& a, size_t i ) { return fabsl( E( a, i )); }
    // values over the whole range of T, some of them neighbours
    static void extreme( Ctx& c, X& a )
    {
        SAW( "saw-whole-range" );
        const int kind = c.rng.i( 0, 2 ); const T base = extreme_value( c, std::integral_constant< bool, real >( ));
        for( size_t i = 0; i < M * N; ++i )
        {
            a.array[ i ] = kind == 0 ? base : c.rng.one( 4 ) ? T( 0 ) : extreme_value( c, std::integral_constant< bool, real >( ));
            if( real && kind == 0 ) for( int k = c.rng.i( 0, 3 ); k > 0; --k ) a.array[ i ] = T( nexttoward( a.array[ i ], 0.0L ) == a.array[ i ] ? a.array[ i ] : nt( a.array[ i ] ));
            if( std::is_signed< T >::value && c.rng.b( )) a.array[ i ] = -a.array[ i ];
            c.in( a.array[ i ] );
        }
    }
    template< class Z > static Z nt( Z x ) { return x; }
    static float nt( float x ) { return std::nextafter( x, 0.f ); }
    static double nt( double x ) { return std::nextafter( x, 0. ); }
    static T extreme_value( Ctx& c, std::true_type )
    { return T( ldexpl( c.rng.r( 0.5, 1 ), c.rng.i( std::numeric_limits< T >::min_exponent - std::numeric_limits< T >::digits + 1, std::numeric_limits< T >::max_exponent ))); }
    static T extreme_value( Ctx& c, std::false_type ) { const int bits = std::min( 52, std::numeric_limits< T >::digits ); return T(( c.rng.next() >> ( 64 - bits )) >> c.rng.u( bits )); } // beyond 52 bits the magnitude goes through a double

    static void run( Ctx& c )
    {
        vt::pick_profile( c );
        if( c.prof == P_WIDE && c.rng.b( )) c.prof = P_LOG;
        vt::pick_wide< T >( c, 8 ); c.wide = std::min( c.wide, 52 ); // magnitudes are doubles
        vt::Canary< X > ca; X& a = ca.v; fill( c, a );
        // put the deciding element anywhere, positive or negative
        if( c.rng.b( )) a.array[ c.rng.u( M * N ) ] = T(( c.rng.b() || !std::is_signed< T >::value ? 1 : -1 ) * ( c.rng.b() ? 100 : 0 ));
        if( c.rng.one( 10 )) { for( size_t i = 0; i < M * N; ++i ) a.array[ i ] = 0; SAW( "saw-zero-matrix" ); }
        const X a0( a );
        if( c.rng.one( 5 )) { extreme( c, a ); selections( c, a ); frobenius( c, a ); return; }
        reductions( c, a ); selections( c, a );
        norms( c, a, std::integral_constant< bool, real >( ));
        CHECK( "operand-unchanged", vt::memdiff( a.array, a0.array, sizeof( a.array )) == 0, "" );
        maps( c, a );
        CHECK( "no-stray-write", ca.ok(), "" );
    }
    static void reductions( Ctx& c, const X& a )
    {
        const size_t n = M * N; ld sum = 0, ss = 0;
        for( size_t i = 0; i < n; ++i ) { sum += E( a, i ); ss += mag( a, i ); }
        CHECK( "sum_elements", near( a.sum_elements(), sum, ss, 4 + n ), a.sum_elements(), sum, vt::show( a ));
        vt::Canary< Vector< N, T > > cs; a.columnwise_sum( cs.v ); bool ok = cs.ok();
        for( size_t j = 0; j < N; ++j )
        {
            ld s = 0, t = 0;
            for( size_t i = 0; i < M; ++i ) { s += E( a, j * M + i ); t += mag( a, j * M + i ); }
            ok &= real ? near( cs.v.array[ j ], s, t, 4 + M ) : cs.v.array[ j ] == T( int64_t( s )); // integer sums are modular
        }
        CHECK( "columnwise_sum", ok, vt::show( a ), vt::show( cs.v ));
        CHECK( "sizes", a.size() == n && a.get_number_of_rows() == M && a.get_number_of_columns() == N && X::ROWS == M && X::COLS == N, "" );
        frobenius( c, a );
    }
    static void frobenius( Ctx& c, const X& a )
    {
        const size_t n = M * N; ld fs = 0;
        for( size_t i = 0; i < n; ++i ) fs += E( a, i ) * E( a, i );
        // representable squares: the whole range of a float and of the integers
        if( fs != 0 && ( fs > 1e300L || fs < ( sizeof( T ) > 4 ? 1e-280L : 0 ))) return;
        const double f = a.frobenius_norm();
        CHECK( "frobenius_norm", fabsl( ld( f ) - sqrtl( fs )) <= ( 4 + n ) * std::max( vt::eps< T >(), vt::eps< double >( )) * sqrtl( fs ), f, sqrtl( fs ), vt::show( a ));
    }
    static void selections( Ctx& c, const X& a )
    {
        const size_t n = M * N; ld mn = E( a, 0 ), mx = mn, amn = mag( a, 0 ), amx = amn; size_t nz = 0;
        for( size_t i = 0; i < n; ++i )
        {
            mn = std::min( mn, E( a, i )); mx = std::max( mx, E( a, i ));
            amn = std::min( amn, mag( a, i )); amx = std::max( amx, mag( a, i )); nz += E( a, i ) != 0;
        }
        CHECK( "get_min", ld( a.get_min( )) == mn, a.get_min(), mn, vt::show( a ));
        CHECK( "get_max", ld( a.get_max( )) == mx, a.get_max(), mx, vt::show( a ));
        CHECK( "get_abs_min", ld( a.get_abs_min( )) == amn, a.get_abs_min(), amn, vt::show( a ));
        CHECK( "get_abs_max", ld( a.get_abs_max( )) == amx, a.get_abs_max(), amx, vt::show( a ));
        CHECK( "nnz", a.nnz() == nz, a.nnz(), nz, vt::show( a ));
        T th = gen< T >( c ); if( c.rng.b( )) th = T( mag( a, c.rng.u( n )));
        size_t above = 0;
        for( size_t i = 0; i < n; ++i ) above += mag( a, i ) > ld( th );
        CHECK( "nnz-threshold", a.nnz( th ) == above, th, a.nnz( th ), above, vt::show( a ));
    }
    static void norms( Ctx&, const X&, std::false_type ) {}
    static void norms( Ctx& c, const X& a, std::true_type )
    {
        static const double ps[] = { 1, 2, 3, 4, 1.5, 2.5, 0.5, 8 };
        const double p = ps[ c.rng.u( 8 ) ]; ld s = 0; c.in( p );
        for( size_t i = 0; i < M * N; ++i ) s += powl( mag( a, i ), p );
        const ld r = powl( s, 1 / ld( p ));
        const double g = a.p_norm( p );
        CHECK( "p_norm", fabsl( ld( g ) - r ) <= ( 60 + 4 * M * N ) * vt::eps< double >() * r + 1e-40L, p, g, r, vt::show( a ));
    }
    static void maps( Ctx& c, X& a )
    {
        const X b( a ); const size_t n = M * N;
        T th = gen< T >( c ); if( c.rng.b( )) th = T( mag( a, c.rng.u( n )));
        a.threshold( th ); bool ok = true;
        for( size_t i = 0; i < n; ++i ) ok &= mag( b, i ) <= ld( th ) ? a.array[ i ] == 0 : a.array[ i ] == b.array[ i ];
        CHECK( "threshold", ok, th, vt::show( b ), vt::show( a ));
        const T x = gen< T >( c );
        X f( b ); f.fill( x ); X g( b ); g = x; X z( b ); z.zero(); ok = true;
        for( size_t i = 0; i < n; ++i ) ok &= f.array[ i ] == x && g.array[ i ] == x && z.array[ i ] == 0;
        CHECK( "fill", ok, x, vt::show( f ), vt::show( g ), vt::show( z ));
        X o( b ); const size_t e = c.rng.u( n ); o = o.array[ e ]; X h( b ); h.fill( h.array[ e ] ); ok = true;
        for( size_t i = 0; i < n; ++i ) ok &= o.array[ i ] == b.array[ e ] && h.array[ i ] == b.array[ e ];
        CHECK( "fill-with-own-element", ok, e, vt::show( b ), vt::show( o ), vt::show( h ));
        square( c, b, std::integral_constant< bool, M == N >( ));
        dct( c, b, std::integral_constant< bool, real >( ));
    }
    static void square( Ctx&, const X&, std::false_type ) {}
    static void square( Ctx& c, const X& b, std::true_type )
    {
        Vector< M, T > d; fill( c, d ); vt::Canary< X > x; x.v = b; x.v.diag( d ); bool ok = x.ok();
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) ok &= x.v.array[ j * M + i ] == ( i == j ? d.array[ i ] : T( 0 ));
        CHECK( "diag", ok, vt::show( d ), vt::show( x.v ));
        x.v = b; vmml::identity( x.v ); ok = x.ok();
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) ok &= x.v.array[ j * M + i ] == T( i == j );
        CHECK( "identity", ok, vt::show( x.v ));
    }
    static void dct( Ctx&, const X&, std::false_type ) {}
    static void dct( Ctx& c, const X& b, std::true_type )
    {
        vt::Canary< X > x; x.v = b; x.v.set_dct(); bool ok = x.ok();
        const ld pi = acosl( -1.0L );
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j )
        {
            const ld e = cosl(( 2 * ld( j ) + 1 ) * ld( i ) * pi / ( 2 * ld( M ))) * sqrtl(( i ? 2 : 1 ) / ld( M ));
            ok &= fabsl( ld( x.v.array[ j * M + i ] ) - e ) <= 4 * vt::eps< T >() + 1e-14L * ( 1 + ld( M * N ));
        }
        CHECK( "set_dct", ok, vt::show( x.v ));
        if( M == N )
        {
            for( size_t p = 0; p < M; ++p ) for( size_t q = 0; q < M; ++q )
            {
                ld s = 0; for( size_t j = 0; j < N; ++j ) s += ld( x.v.array[ j * M + p ] ) * x.v.array[ j * M + q ];
                CHECK( "dct-orthonormal", fabsl( s - ( p == q )) < 16 * M * vt::eps< T >() + 1e-13L, p, q, s );
            }
        }
    }
};

void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    typedef void ( *Fn )( Ctx& );
    static const Fn tab[] = {
        A< 1, 1, float >::run, A< 2, 2, float >::run, A< 3, 3, float >::run, A< 4, 4, float >::run, A< 4, 4, double >::run, A< 3, 3, double >::run,
        A< 1, 5, float >::run, A< 5, 1, double >::run, A< 2, 3, float >::run, A< 4, 3, double >::run, A< 3, 7, double >::run, A< 8, 8, float >::run, A< 19, 17, float >::run, A< 2, 150, double >::run, A< 3, 3, long double >::run, A< 2, 6, long double >::run,
        A< 2, 2, int >::run, A< 4, 4, int >::run, A< 3, 5, int >::run, A< 6, 2, int >::run, A< 3, 3, uint8_t >::run, A< 2, 3, int8_t >::run, A< 4, 2, int16_t >::run, A< 3, 3, uint16_t >::run, A< 2, 3, int64_t >::run, A< 3, 2, unsigned >::run };
    const size_t k = c.rng.u( sizeof( tab ) / sizeof( *tab ));
    c.in( int( k ));
    tab[ k ]( c );
}
