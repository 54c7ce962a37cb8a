// C15: slerp follows the shortest arc at constant speed
#include "common.hpp"
#include <vmmlib/quaternion.hpp>
using vmml::Quaternion;

struct H { ld v[ 4 ]; };
static ld dot( const H& a, const H& b ) { ld d = 0; for( int i = 0; i < 4; ++i ) d += a.v[ i ] * b.v[ i ]; return d; }
static ld dist( const H& a, const H& b ) { ld d = 0; for( int i = 0; i < 4; ++i ) d += ( a.v[ i ] - b.v[ i ] ) * ( a.v[ i ] - b.v[ i ] ); return sqrtl( d ); }
static H unit( H a ) { const ld n = sqrtl( dot( a, a )); for( int i = 0; i < 4; ++i ) a.v[ i ] /= n; return a; }
static H any( Ctx& c )
{
    H a;
    for( ;; )
    {
        for( int i = 0; i < 4; ++i ) a.v[ i ] = c.rng.one( 4 ) ? c.rng.i( -1, 1 ) : c.rng.r( -1, 1 );
        const ld n = dot( a, a ); if( n > 1e-3L ) break;
    }
    return unit( a );
}
// the point at fraction t of the shorter arc from a to b, in extended precision
static H arc( const H& a, H b, ld t )
{
    ld d = dot( a, b ); if( d < 0 ) { for( int i = 0; i < 4; ++i ) b.v[ i ] = -b.v[ i ]; }
    const ld th = 2 * atan2l( dist( a, b ), sqrtl( std::max( 0.L, 4 - dist( a, b ) * dist( a, b ))));
    H r; ld k1 = 1 - t, k2 = t; if( th > 1e-15L ) { k1 = sinl(( 1 - t ) * th ) / sinl( th ); k2 = sinl( t * th ) / sinl( th ); }
    for( int i = 0; i < 4; ++i ) r.v[ i ] = k1 * a.v[ i ] + k2 * b.v[ i ];
    return unit( r );
}
template< class T > struct A
{
    typedef Quaternion< T > Q;
    static H h( const Q& q ) { H r; for( int i = 0; i < 4; ++i ) r.v[ i ] = q.array[ i ]; return r; }
    static std::string sh( const Q& q ) { return vt::str( q.array[ 0 ], q.array[ 1 ], q.array[ 2 ], q.array[ 3 ] ); }
    static Q q( const H& a, ld s ) { return Q( T( a.v[ 0 ] * s ), T( a.v[ 1 ] * s ), T( a.v[ 2 ] * s ), T( a.v[ 3 ] * s )); }

    static void run( Ctx& c )
    {
        const H a = any( c ); H b = any( c ), o = any( c );
        // o: unit, orthogonal to a; the pair is at angle th of the 4D sphere
        { const ld d = dot( a, o ); for( int i = 0; i < 4; ++i ) o.v[ i ] -= d * a.v[ i ]; if( dot( o, o ) < 1e-6L ) { o.v[ 0 ] = -a.v[ 1 ]; o.v[ 1 ] = a.v[ 0 ]; o.v[ 2 ] = -a.v[ 3 ]; o.v[ 3 ] = a.v[ 2 ]; } o = unit( o ); }
        const ld pi = 3.14159265358979323846264338327950288L; ld th = -1;
        switch( c.rng.u( 8 ))
        {
        case 0: th = 0; SAW( "saw-equal" ); break;
        case 1: th = pi; SAW( "saw-negated" ); break;
        case 2: th = powl( 10, -c.rng.r( 0.5, 16 )); SAW( "saw-nearly-equal" ); break;
        case 3: th = pi - powl( 10, -c.rng.r( 0.5, 16 )); SAW( "saw-nearly-negated" ); break;
        case 4: th = pi / 2 + ( c.rng.b() ? 1 : -1 ) * powl( 10, -c.rng.r( 0.5, 5 )); SAW( "saw-near-90" ); break; // 180 degrees of rotation
        case 5: th = pi * c.rng.d(); break;
        default: SAW( "saw-any" );
        }
        if( th >= 0 ) for( int i = 0; i < 4; ++i ) b.v[ i ] = cosl( th ) * a.v[ i ] + sinl( th ) * o.v[ i ];
        const bool scaled = c.rng.one( 3 ); if( scaled ) SAW( "saw-unnormalised" );
        const bool nearly = !scaled && c.rng.one( 3 ); if( nearly ) SAW( "saw-nearly-normalised" ); // as after many products
        const auto norm = [&]{ return scaled ? c.rng.r( .01, 50 ) : nearly ? 1 + ( c.rng.b() ? 1 : -1 ) * pow( 10, -c.rng.r( 1, 7 )) : 1; };
        const Q p = q( a, norm( )), r = q( b, norm( )); const Q p0( p ), r0( r );
        for( int i = 0; i < 4; ++i ) { c.in( p.array[ i ] ); c.in( r.array[ i ] ); }
        const H pu = unit( h( p )), ru = unit( h( r ));
        const ld e = vt::eps< T >(), cs = fabsl( dot( pu, ru ));
        if( cs < 64 * e ) { SAW( "saw-arc-ambiguous" ); } // both arcs are shortest: only unit length is judged
        // linear interpolation is allowed where 1 - cos < epsilon: its deviation from the arc is below epsilon
        const ld tol = 60 * e + 1e-13L;
        const T fixed[] = { T( 0 ), T( 1 ), T( .5 ), T( c.rng.d( )), T( c.rng.d( )), T( 1e-4 ), T( .999 ) };
        const H first = unit( h( Q::slerp( T( 0 ), p, r )));
        for( T t : fixed )
        {
            c.in( t );
            const Q g = Q::slerp( t, p, r ); const H u = h( g );
            CHECK( "finite", vt::finite( g.array[ 0 ] ) && vt::finite( g.array[ 1 ] ) && vt::finite( g.array[ 2 ] ) && vt::finite( g.array[ 3 ] ), t, sh( p ), sh( r ), sh( g ));
            CHECK( "unit-length", fabsl( sqrtl( dot( u, u )) - 1 ) <= tol, t, sh( p ), sh( r ), sh( g ), sqrtl( dot( u, u )));
            if( cs < 64 * e ) continue;
            const H w = arc( pu, ru, t ); H wn = w; for( int i = 0; i < 4; ++i ) wn.v[ i ] = -w.v[ i ];
            const ld off = std::min( dist( u, w ), dist( u, wn )); // as rotations
            CHECK( "shortest-arc-constant-speed", off <= tol, "t", t, "off", off, "tol", tol, sh( p ), sh( r ), sh( g ));
            if( t == T( 0 )) CHECK( "start-point", std::min( dist( u, pu ), dist( u, [&]{ H x = pu; for( int i = 0; i < 4; ++i ) x.v[ i ] = -x.v[ i ]; return x; }( ))) <= tol, sh( p ), sh( g ));
            if( t == T( 1 )) CHECK( "end-point", std::min( dist( u, ru ), dist( u, [&]{ H x = ru; for( int i = 0; i < 4; ++i ) x.v[ i ] = -x.v[ i ]; return x; }( ))) <= tol, sh( r ), sh( g ));
        }
        // continuity along the arc: neighbouring parameters give neighbouring results (no sign flips on the way)
        if( cs >= 64 * e )
        {
            H prev = first; const int n = 16; bool ok = true; ld worst = 0;
            for( int i = 1; i <= n; ++i ) { const H u = h( Q::slerp( T( ld( i ) / n ), p, r )); const ld d = dist( u, prev ); worst = std::max( worst, d ); ok &= d <= pi / 2 / n + 4 * tol + 4 * e; prev = u; }
            CHECK( "continuous", ok, "largest step", worst, sh( p ), sh( r ));
        }
        // a coarser limit for linear interpolation, chosen by the caller
        if( c.rng.one( 3 ) && cs >= 64 * e )
        {
            const T E = c.rng.one( 4 ) ? T( c.rng.d( )) : T( pow( 10, -c.rng.r( 0, 9 ))); c.in( E ); const T t = c.rng.one( 4 ) ? T( c.rng.u( 2 )) : T( c.rng.d( ));
            const Q g = Q::slerp( t, p, r, E ); const H u = h( g ), w = arc( pu, ru, t ); H wn = w; for( int i = 0; i < 4; ++i ) wn.v[ i ] = -w.v[ i ];
            const ld ang = acosl( std::min( 1.L, cs )), off = std::min( dist( u, w ), dist( u, wn )); const bool maybe_linear = 1 - cs <= E + 16 * e;
            if( maybe_linear ) SAW( "saw-linear-by-epsilon" );
            CHECK( "epsilon-unit-length", fabsl( sqrtl( dot( u, u )) - 1 ) <= tol, t, E, sh( p ), sh( r ), sh( g ), sqrtl( dot( u, u )));
            CHECK( "epsilon-on-arc", off <= tol + ( maybe_linear ? ang * ang * ang / 8 * ( t * ( 1 - t ) > 0 ) : 0 ), t, E, "off", off, "angle", ang, sh( p ), sh( r ), sh( g ));
        }
        CHECK( "operands-unchanged", vt::memdiff( p.array, p0.array, sizeof p.array ) == 0 && vt::memdiff( r.array, r0.array, sizeof r.array ) == 0, "" );
    }
};
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { const size_t k = c.rng.u( 5 ); c.in( k ); if( k < 2 ) A< float >::run( c ); else if( k < 4 ) A< double >::run( c ); else A< long double >::run( c ); }
