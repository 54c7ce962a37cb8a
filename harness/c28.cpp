// C28: random filling and perturbation
#include "common.hpp"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
using vmml::Vector; using vmml::Matrix;

template< class O, class T, size_t N > struct A
{
    static bool eq( const O& a, const O& b ) { for( size_t i = 0; i < N; ++i ) if( !( a.array[ i ] == b.array[ i ] )) return false; return true; }
    static void range( Ctx& c, const O& a )
    {
        bool in = true, dif = false;
        for( size_t i = 0; i < N; ++i ) { in &= a.array[ i ] >= T( -1 ) && a.array[ i ] <= T( 1 ); dif |= a.array[ i ] != a.array[ 0 ]; }
        CHECK( "in-range", in, vt::show( a ));
        if( N > 1 ) CHECK( "not-constant", dif, vt::show( a ));
    }
    static void dirty( Ctx& c, O& a ) { vt::pick_profile( c ); fill( c, a ); }
    static int seed( Ctx& c )
    {
        int s;
        switch( c.rng.u( 6 )) { case 0: s = 0; SAW( "saw-seed-0" ); break; case 1: s = 1; break; case 2: s = INT32_MAX - c.rng.i( 0, 3 ); SAW( "saw-large-seed" ); break; default: s = c.rng.i( 0, 1 << 30 ); }
        c.in( s ); return s;
    }
    static void run( Ctx& c )
    {
        const int s = seed( c ), s2 = seed( c ); vt::Canary< O > ca, cb, cd; O &a = ca.v, &b = cb.v, &d = cd.v; dirty( c, a ); dirty( c, b ); dirty( c, d );
        srand( unsigned( c.rng.next( )));
        a.set_random( s ); range( c, a ); const int after = rand();
        // whatever happened in between, the same seed gives the same contents
        const size_t noise = c.rng.u( 5 ); for( size_t i = 0; i < noise; ++i ) { switch( c.rng.u( 3 )) { case 0: rand(); break; case 1: d.set_random( s2 ); break; default: d.set_random(); }}
        b.set_random( s ); const int after2 = rand();
        CHECK( "same-seed-same-contents", eq( a, b ), s, vt::show( a ), vt::show( b ));
        CHECK( "same-seed-same-continuation", after == after2, s, after, after2 );
        if( s != s2 && N >= 3 && s > 1 && s2 > 1 ) { d.set_random( s2 ); CHECK( "other-seed-other-contents", !eq( a, d ), s, s2, vt::show( a )); }
        // default: goes on with the current sequence
        const unsigned u = unsigned( c.rng.next( )); c.in( u );
        srand( u ); dirty( c, a ); a.set_random(); dirty( c, b ); b.set_random(); const int r1 = rand();
        srand( u ); dirty( c, d ); d.set_random(); CHECK( "default-follows-current-sequence", eq( a, d ), u, vt::show( a ), vt::show( d ));
        dirty( c, d ); d.set_random(); CHECK( "default-follows-current-sequence", eq( b, d ), u, vt::show( b ), vt::show( d ));
        CHECK( "default-continues", r1 == rand(), u );
        range( c, a ); range( c, b );
        if( N >= 3 ) CHECK( "default-does-not-reseed", !eq( a, b ), u, vt::show( a ));
        // in the middle of the caller's own sequence
        srand( u ); const size_t k = c.rng.u( 7 ); for( size_t i = 0; i < k; ++i ) rand();
        a.set_random(); srand( u ); for( size_t i = 0; i < k; ++i ) rand(); b.set_random( -1 );
        CHECK( "minus-one-is-default", eq( a, b ), u, k );
        if( k && N >= 3 ) { srand( u ); d.set_random(); CHECK( "position-in-sequence-counts", !eq( a, d ), u, k ); }
        // a seed is what the caller could have given to srand
        a.set_random( s ); srand( unsigned( s )); b.set_random();
        CHECK( "seed-is-srand", eq( a, b ), s, vt::show( a ), vt::show( b ));
        CHECK( "no-stray-write", ca.ok() && cb.ok() && cd.ok(), "" );
    }
};
template< size_t M, class T > struct P
{
    static void run( Ctx& c )
    {
        vt::pick_mild( c ); vt::Canary< Vector< M, T > > k; Vector< M, T >& v = k.v; fill( c, v ); const Vector< M, T > v0( v );
        srand( unsigned( c.rng.next( ))); const bool dflt = c.rng.one( 3 );
        T p = T( 0.0001 ); if( !dflt ) { static const double s[] = { .5, 1e-3, 0, 2, 1e-6, -.25, 1 }; p = c.rng.b() ? T( s[ c.rng.u( 7 ) ] ) : gen< T >( c ) / T( 3 ); c.in( p ); }
        if( dflt ) v.perturb(); else v.perturb( p );
        bool ok = true; size_t up = 0;
        for( size_t i = 0; i < M; ++i )
        {
            const T a = v0.array[ i ] + p, b = v0.array[ i ] + -p; // either, rounded once
            ok &= v.array[ i ] == a || v.array[ i ] == b; up += v.array[ i ] == a && a != b;
        }
        CHECK( "perturb", ok && k.ok(), vt::str( p ), vt::show( v0 ), vt::show( v ));
        if( up ) SAW( "saw-component-moved-up" );
        if( up < M ) SAW( "saw-component-moved-down" );
    }
};
// over a long history both directions occur at every place, and so do all quarters of [-1,1]
template< class T > static void spread( Ctx& c )
{
    srand( unsigned( c.rng.next( ))); unsigned up = 0, down = 0, q[ 4 ][ 4 ] = { { 0 } }; c.in( 1 ); c.in( c.rng.d( ));
    Vector< 4, T > v; Matrix< 2, 2, T > m;
    for( int i = 0; i < 200; ++i )
    {
        v.set( T( 0 )); v.perturb( T( 1 )); for( int k = 0; k < 4; ++k ) ( v.array[ k ] > 0 ? up : down ) |= 1u << k;
        m.set_random(); v.set_random(); for( int k = 0; k < 4; ++k ) { ++q[ k ][ std::min( 3, int(( m.array[ k ] + 1 ) * 2 )) ]; ++q[ k ][ std::min( 3, int(( v.array[ k ] + 1 ) * 2 )) ]; }
    }
    CHECK( "perturb-both-ways", up == 15 && down == 15, up, down );
    bool all = true; for( int k = 0; k < 4; ++k ) for( int j = 0; j < 4; ++j ) all &= q[ k ][ j ] > 0;
    CHECK( "all-quarters-occur", all, "" );
}
// every place of every shape gets values of its own: over many seeds no two places always agree, none keeps one value,
// each reaches all quarters of [-1,1], and the mean is near the middle (6 sigma of 300 uniform values)
template< class O, size_t N > static void places( Ctx& c )
{
    typedef typename std::remove_reference< decltype( std::declval< O& >().array[ 0 ] ) >::type T;
    enum { R = 300 }; O o; std::vector< std::vector< T > > v( N, std::vector< T >( R )); const int base = c.rng.i( 2, 1 << 29 ); const bool own = c.rng.b(); c.in( base ); c.in( own );
    if( own ) srand( unsigned( base ));
    for( int r = 0; r < R; ++r ) { if( own ) o.set_random(); else o.set_random( base + r * 7919 ); for( size_t i = 0; i < N; ++i ) v[ i ][ r ] = o.array[ i ]; }
    for( size_t i = 0; i < N; ++i )
    {
        unsigned q = 0; ld sum = 0; for( T x : v[ i ] ) { q |= 1u << std::min( 3, int(( x + 1 ) * 2 )); sum += x; }
        CHECK( "every-place-covers-the-range", q == 15 && fabsl( sum / R ) < .2L, i, q, sum / R, own, base );
        for( size_t j = 0; j < i; ++j )
        {
            int same_ = 0; ld dot = 0; for( int r = 0; r < R; ++r ) { same_ += v[ i ][ r ] == v[ j ][ r ]; dot += ld( v[ i ][ r ] ) * v[ j ][ r ]; }
            CHECK( "places-differ", same_ < R / 10, i, j, same_, own, base );
            if( j + 1 == i ) SAW( "saw-places-compared" );
        }
    }
}
// thousands of calls later a seed still means the same
template< class O, size_t N, class T > static void soak( Ctx& c )
{
    static const int seeds[] = { 0, 0, 1, 42, INT32_MAX, 65535, 1 << 16 }; const int s = c.rng.b() ? seeds[ c.rng.u( 7 ) ] : c.rng.i( 0, 1 << 30 ); c.in( s ); O first, a; first.set_random( s ); const int next = rand();
    for( int i = 0; i < 3000; ++i )
    {
        if( i % 3 == 1 ) a.set_random( i ); if( i % 5 == 2 ) a.set_random();
        a.set_random( s ); bool ok = true; for( size_t k = 0; k < N; ++k ) ok &= a.array[ k ] == first.array[ k ];
        CHECK( "seed-after-many-calls", ok && rand() == next, i, s, vt::show( a ), vt::show( first ));
    }
    SAW( "saw-thousands-of-calls" );
}
typedef void ( *Fn )( Ctx& );
#define V( N, T ) A< Vector< N, T >, T, N >::run
#define X( M, N, T ) A< Matrix< M, N, T >, T, M * N >::run
#define S( T ) V( 1, T ), V( 2, T ), V( 3, T ), V( 4, T ), V( 17, T ), X( 1, 1, T ), X( 2, 2, T ), X( 3, 3, T ), X( 4, 4, T ), X( 2, 5, T ), X( 5, 2, T ), X( 1, 6, T ), X( 7, 1, T ), \
    P< 1, T >::run, P< 3, T >::run, P< 4, T >::run, P< 9, T >::run, spread< T >, places< Vector< 4, T >, 4 >, places< Vector< 3, T >, 3 >, places< Matrix< 4, 4, T >, 16 >, places< Matrix< 2, 3, T >, 6 >, places< Vector< 11, T >, 11 >, soak< Vector< 4, T >, 4, T >, soak< Matrix< 3, 3, T >, 9, T >
static const Fn tab[] = { S( float ), S( double ), V( 3, long double ), V( 4, long double ), X( 2, 2, long double ), P< 3, long double >::run, P< 4, long double >::run, places< Vector< 3, long double >, 3 >, places< Matrix< 2, 2, long double >, 4 >, V( 300, float ), X( 19, 17, float ), P< 70, double >::run };
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { const size_t k = c.rng.u( sizeof tab / sizeof *tab ); c.in( k ); tab[ k ]( c ); }
