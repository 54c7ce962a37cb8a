// C11: quantisation is bounded-error and monotone
#include "common.hpp"
#include <vmmlib/matrix.hpp>
using vmml::Matrix;

template< size_t M, size_t N, class T, class Q > struct A
{
    typedef Matrix< M, N, T > X; typedef Matrix< M, N, Q > K;
    static const size_t n = M * N;

    static void data( Ctx& c, X& a )
    {
        static const double mags[] = { 1e-12, 1e-6, 1e-3, 1, 10, 255, 1e4, 1e9, 1e20, 1e30, 3e37, 1e-30 };
        const double s = mags[ c.rng.u( 12 ) ];
        switch( c.rng.u( 8 ))
        {
        case 0: vt::pick_profile( c ); fill( c, a ); SAW( "saw-profile-range" ); return;
        case 1: { const T v = T( c.rng.r( -s, s )); a.fill( v ); c.in( v ); c.in( s ); SAW( "saw-constant" ); return; }
        case 2: for( size_t i = 0; i < n; ++i ) { a.array[ i ] = T( c.rng.r( s, 3 * s )); c.in( a.array[ i ] ); } SAW( "saw-positive" ); return;
        case 3: for( size_t i = 0; i < n; ++i ) { a.array[ i ] = T( -c.rng.r( s, 3 * s )); c.in( a.array[ i ] ); } SAW( "saw-negative" ); return;
        case 4: for( size_t i = 0; i < n; ++i ) { a.array[ i ] = T( c.rng.r( -s * .01, s )); c.in( a.array[ i ] ); } SAW( "saw-asymmetric" ); return;
        case 5: for( size_t i = 0; i < n; ++i ) { a.array[ i ] = T( c.rng.r( -s, s * .01 )); c.in( a.array[ i ] ); } SAW( "saw-asymmetric-negative" ); return;
        case 6: { const T o = T( c.rng.r( -s, s )); for( size_t i = 0; i < n; ++i ) { a.array[ i ] = o + o * T( c.rng.r( 0, 1e-3 )); c.in( a.array[ i ] ); } SAW( "saw-narrow" ); return; }
        default: for( size_t i = 0; i < n; ++i ) { a.array[ i ] = T( c.rng.r( -s, s )); c.in( a.array[ i ] ); }
            if( n > 1 ) { a.array[ c.rng.u( n ) ] = T( s ); a.array[ c.rng.u( n ) ] = T( -s ); } SAW( "saw-symmetric" ); return;
        }
    }
    // error a stored element may have: two steps and the rounding of the arithmetic in T
    static ld bound( ld lo, ld hi )
    {
        const ld steps = ld( std::numeric_limits< Q >::max( )) - ld( std::numeric_limits< Q >::min( ));
        const ld range = hi - lo, big = std::max( fabsl( lo ), fabsl( hi ));
        return 2 * range / steps + 16 * vt::eps< T >() * ( range + big ) + 8 * ld( std::numeric_limits< T >::min( ));
    }
    static void run( Ctx& c )
    {
        vt::Canary< X > ca, cd; vt::Canary< K > cq; X& a = ca.v; K& q = cq.v; X& d = cd.v;
        data( c, a );
        for( size_t i = 0; i < n; ++i ) { q.array[ i ] = Q( c.rng.next( )); d.array[ i ] = T( 77 ); }
        const X a0( a );
        ld lo = a.array[ 0 ], hi = lo;
        for( size_t i = 1; i < n; ++i ) { lo = std::min( lo, ld( a.array[ i ] )); hi = std::max( hi, ld( a.array[ i ] )); }
        T mn = T( 55 ), mx = T( -55 );
        a.quantize( q, mn, mx );
        CHECK( "range-reported", ld( mn ) == lo && ld( mx ) == hi, mn, mx, lo, hi, vt::show( a ));
        order( c, a, q );
        const K q0( q );
        q.dequantize( d, mn, mx );
        judge( c, a, q, d, lo, hi );
        CHECK( "operands-unchanged", vt::memdiff( a.array, a0.array, sizeof a.array ) == 0 && vt::memdiff( q.array, q0.array, sizeof q.array ) == 0, "" );

        // a range given by the caller: wider than the data
        const ld w = hi > lo ? hi - lo : ld( 1 );
        const T l2 = T( lo - w * c.rng.r( 0, 1.5 )), h2 = T( hi + w * c.rng.r( 0.01, 1.5 ));
        c.in( l2 ); c.in( h2 );
        if( ld( l2 ) <= lo && ld( h2 ) >= hi && h2 > l2 )
        {
            a.quantize_to( q, l2, h2 );
            order( c, a, q );
            q.dequantize( d, l2, h2 );
            judge( c, a, q, d, l2, h2 );
        }
        // a range given by the caller, narrower than the data: what is outside saturates
        if( hi > lo )
        {
            const T l3 = T( lo + w * c.rng.r( 0, .45 )), h3 = T( hi - w * c.rng.r( 0, .45 ));
            c.in( l3 ); c.in( h3 );
            if( h3 > l3 )
            {
                X b( a ); SAW( "saw-outside-range" );
                for( size_t i = 0; i < n; ++i ) b.array[ i ] = std::min( std::max( a.array[ i ], l3 ), h3 );
                a.quantize_to( q, l3, h3 );
                order( c, a, q );
                q.dequantize( d, l3, h3 );
                judge( c, b, q, d, l3, h3 );
            }
        }
        // codes from elsewhere: inside the range and in order as well
        for( size_t i = 0; i < n; ++i ) q.array[ i ] = c.rng.one( 4 ) ? ( c.rng.b() ? std::numeric_limits< Q >::max() : std::numeric_limits< Q >::min( )) : Q( c.rng.next( ));
        q.dequantize( d, mn, mx ); bool in = true, mono = true;
        for( size_t i = 0; i < n; ++i )
        {
            in &= d.array[ i ] >= mn && d.array[ i ] <= mx;
            for( size_t j = 0; j < n; ++j ) mono &= !( q.array[ i ] <= q.array[ j ] ) || d.array[ i ] <= d.array[ j ];
        }
        CHECK( "any-code-inside-range", in, vt::show( q ), vt::show( d ), mn, mx );
        CHECK( "codes-in-order", mono, vt::show( q ), vt::show( d ));
        CHECK( "no-stray-write", ca.ok() && cq.ok() && cd.ok(), "" );
    }
    static void order( Ctx& c, const X& a, const K& q )
    {
        for( size_t i = 0; i < n; ++i ) for( size_t j = 0; j < n; ++j )
        {
            if( a.array[ i ] < a.array[ j ] ) CHECK( "order-preserved", q.array[ i ] <= q.array[ j ], a.array[ i ], a.array[ j ], ld( q.array[ i ] ), ld( q.array[ j ] ));
            if( a.array[ i ] == a.array[ j ] ) CHECK( "equal-codes", q.array[ i ] == q.array[ j ], a.array[ i ], ld( q.array[ i ] ), ld( q.array[ j ] ));
        }
    }
    static void judge( Ctx& c, const X& a, const K& q, const X& d, ld lo, ld hi )
    {
        const ld b = bound( lo, hi );
        for( size_t i = 0; i < n; ++i )
        {
            const ld x = a.array[ i ], y = d.array[ i ];
            CHECK( "round-trip-two-steps", fabsl( x - y ) <= b, "element", i, x, "code", ld( q.array[ i ] ), "back", y, "range", lo, hi, "bound", b );
            CHECK( "inside-range", y >= lo && y <= hi, y, lo, hi );
        }
        // distinct values far apart get distinct codes: the whole code range is used
        for( size_t i = 0; i < n; ++i )
        {
            const ld x = a.array[ i ], s = ( hi - lo ) / 4;
            for( size_t j = 0; j < n; ++j )
                if( s > 4 * b && fabsl( x - ld( a.array[ j ] )) > s )
                    CHECK( "distinct-codes", q.array[ i ] != q.array[ j ], x, ld( a.array[ j ] ));
        }
    }
};
typedef void (*Fn)( Ctx& );
#define S( M, N ) A< M, N, float, uint8_t >::run, A< M, N, float, int8_t >::run, A< M, N, float, uint16_t >::run, A< M, N, float, int16_t >::run, \
    A< M, N, double, uint8_t >::run, A< M, N, double, int8_t >::run, A< M, N, double, uint16_t >::run, A< M, N, double, int16_t >::run
static const Fn table[] = { S( 1, 1 ), S( 1, 4 ), S( 3, 1 ), S( 3, 3 ), S( 2, 5 ), S( 6, 4 ), S( 4, 4 ),
    A< 3, 4, double, int32_t >::run, A< 3, 4, double, uint32_t >::run, A< 2, 2, float, char >::run, A< 5, 2, double, unsigned char >::run, A< 3, 2, long double, uint8_t >::run, A< 2, 3, long double, int16_t >::run, A< 2, 2, long double, int32_t >::run, A< 2, 4, long double, int8_t >::run, A< 2, 4, long double, uint16_t >::run };
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { const size_t k = c.rng.u( sizeof( table ) / sizeof( *table )); c.in( int( k )); table[ k ]( c ); }
