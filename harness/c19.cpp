// C19: ray-sphere intersection reports the first hit ahead of the ray
#include "common.hpp"
#include <vmmlib/intersection.hpp>
using vmml::Intersection; using vmml::Vector;

template< class T > struct A
{
    typedef Vector< 3, T > V3; typedef Vector< 4, T > V4;
    static void dir( Ctx& c, ld* d ) { ld n; do { n = 0; for( int i = 0; i < 3; ++i ) { d[ i ] = c.rng.one( 4 ) ? c.rng.i( -1, 1 ) : c.rng.r( -1, 1 ); n += d[ i ] * d[ i ]; } } while( n < 1e-3L ); n = sqrtl( n ); for( int i = 0; i < 3; ++i ) d[ i ] /= n; }
    static void run( Ctx& c )
    {
        ld d[ 3 ], u[ 3 ], o[ 3 ], q[ 3 ]; dir( c, d ); dir( c, u );
        { ld k = 0; for( int i = 0; i < 3; ++i ) k += d[ i ] * u[ i ]; ld n = 0; for( int i = 0; i < 3; ++i ) { u[ i ] -= k * d[ i ]; n += u[ i ] * u[ i ]; }
          if( n < 1e-4L ) { u[ 0 ] = d[ 1 ]; u[ 1 ] = -d[ 0 ]; u[ 2 ] = 0; n = u[ 0 ] * u[ 0 ] + u[ 1 ] * u[ 1 ]; if( n < 1e-4L ) { u[ 0 ] = 1; u[ 1 ] = u[ 2 ] = 0; n = 1; } } n = sqrtl( n ); for( int i = 0; i < 3; ++i ) u[ i ] /= n; }
        const ld unit = c.rng.one( 3 ) ? powl( 10, c.rng.r( -6, 6 )) : 1, r = unit * powl( 10, c.rng.r( -2, 2 )), pos = c.rng.one( 3 ) ? 0 : unit * powl( 10, c.rng.r( -1, 2 )); ld along, aside;
        switch( c.rng.u( 9 ))
        {
        case 0: along = aside = 0; SAW( "saw-origin-at-centre" ); break;
        case 1: { const ld s = r * c.rng.d(), a = 6.28L * c.rng.d(); along = s * cosl( a ); aside = s * sinl( a ); SAW( "saw-origin-inside" ); break; }
        case 2: along = r * ( 1 + 5 * c.rng.d() ); aside = 0; SAW( "saw-straight-ahead" ); break;
        case 3: along = -r * ( 1 + 5 * c.rng.d() ); aside = r * ld( c.rng.r( 0, 2 )); SAW( "saw-behind" ); break;
        case 4: along = r * c.rng.r( -6, 6 ); aside = r * ( 1 + ( c.rng.b() ? 1 : -1 ) * powl( 10, -c.rng.r( 1, 7 ))); SAW( "saw-grazing" ); break;
        case 5: along = r * c.rng.r( -1, 1 ); aside = r * ld( c.rng.r( 1, 3 )); SAW( "saw-beside" ); break;
        case 6: { const ld a = 6.28L * c.rng.d(), s = r * ( 1 + ( c.rng.b() ? 1 : -1 ) * powl( 10, -c.rng.r( 1, 6 ))); along = s * cosl( a ); aside = s * sinl( a ); SAW( "saw-origin-near-surface" ); break; }
        default: along = r * c.rng.r( -20, 20 ); aside = r * ld( c.rng.r( 0, 1.6 ));
        }
        for( int i = 0; i < 3; ++i ) { o[ i ] = pos * ld( c.rng.r( -1, 1 )); q[ i ] = o[ i ] + along * d[ i ] + aside * u[ i ]; }
        ld L = 1; switch( c.rng.u( 4 )) { case 0: break; case 1: L = powl( 10, c.rng.r( -6, 6 )); SAW( "saw-long-direction" ); break; case 2: L = powl( 10, -c.rng.r( 0, 12 )); SAW( "saw-short-direction" ); break; default: L = c.rng.r( .1, 10 ); }
        V3 org{ T( o[ 0 ] ), T( o[ 1 ] ), T( o[ 2 ] ) }; V3 dr{ T( d[ 0 ] * L ), T( d[ 1 ] * L ), T( d[ 2 ] * L ) }; const V4 sp{ T( q[ 0 ] ), T( q[ 1 ] ), T( q[ 2 ] ), T( r ) };
        if( c.rng.one( 5 )) { org = V3( T( c.rng.i( -3, 3 )), T( c.rng.i( -3, 3 )), T( c.rng.i( -3, 3 ))); dr = V3( 0, 0, 0 ); dr.array[ c.rng.u( 3 ) ] = T( c.rng.b() ? 2 : -1 ); SAW( "saw-integer-ray" ); }
        judge( c, org, dr, sp );
    }
    // axis-parallel rays among small integers: every intermediate is exact, so tangents and surfaces are decided too
    static void exact( Ctx& c )
    {
        static const int leg[][ 3 ] = { { 3, 4, 5 }, { 4, 3, 5 }, { 5, 12, 13 }, { 12, 5, 13 }, { 8, 15, 17 }, { 1, 0, 1 }, { 0, 2, 2 }, { 2, 0, 2 }, { 0, 5, 5 } };
        const int a = c.rng.i( 0, 2 ), e = ( a + c.rng.i( 1, 2 )) % 3, sg = c.rng.b() ? 1 : -1; const int* l = leg[ c.rng.u( 9 ) ];
        int o[ 3 ], q[ 3 ], along, aside, r = l[ 2 ]; for( int i = 0; i < 3; ++i ) q[ i ] = o[ i ] = c.rng.i( -20, 20 );
        switch( c.rng.u( 4 ))
        {
        case 0: along = ( c.rng.b() ? 1 : -1 ) * l[ 0 ]; aside = l[ 1 ]; break;    // origin on the surface
        case 1: along = c.rng.i( -30, 30 ); aside = r; break;                      // tangent
        case 2: along = l[ 0 ] + c.rng.i( -30, 30 ); aside = l[ 1 ]; break;        // integer chord
        default: along = c.rng.i( -20, 20 ); aside = c.rng.i( 0, 20 );
        }
        q[ a ] += sg * along; q[ e ] += c.rng.b() ? aside : -aside;
        V3 org{ T( o[ 0 ] ), T( o[ 1 ] ), T( o[ 2 ] ) }, dr( 0, 0, 0 ); dr.array[ a ] = T( sg * ( c.rng.b() ? 1 : c.rng.b() ? 4 : .25 ));
        const V4 sp{ T( q[ 0 ] ), T( q[ 1 ] ), T( q[ 2 ] ), T( r ) };
        for( int i = 0; i < 3; ++i ) { c.in( o[ i ] ); c.in( q[ i ] ); } c.in( r ); c.in( a ); c.in( sg );
        const int cc = along * along + aside * aside, disc = r * r - aside * aside; const bool in = cc < r * r, on = cc == r * r, want = cc <= r * r || ( along >= 0 && disc >= 0 );
        T t = T( -7 ); const bool hit = Intersection< T >( org, dr ).test_sphere( sp, t );
        const std::string obj = vt::str( vt::show( org ), vt::show( dr ), vt::show( sp ), "hit", hit, "t", t );
        CHECK( "exact-decision", hit == want, obj, "along", along, "aside", aside );
        SAW( in ? "saw-exact-inside" : on ? ( along < 0 ? "saw-exact-surface-away" : along ? "saw-exact-surface-in" : "saw-exact-surface-tangent" ) : disc == 0 ? ( want ? "saw-exact-tangent" : "saw-exact-tangent-behind" ) : want ? "saw-exact-entry" : "saw-exact-miss" );
        if( !hit ) { CHECK( "exact-miss-leaves-output-alone", t == T( -7 ), obj ); return; }
        const ld s = sqrtl( ld( disc )), near = along - s, far = along + s, tol = 4 * vt::eps< T >() * ( fabsl( ld( along )) + s );
        if( on ) CHECK( "exact-surface-distance", t == T( 0 ) || ( along > 0 && t == T( 2 * along )), obj );
        else CHECK( "exact-distance", fabsl( ld( t ) - ( in ? far : near )) <= tol, obj );
    }
    static void judge( Ctx& c, const V3& org, const V3& dr, const V4& sp )
    {
        for( int i = 0; i < 3; ++i ) { c.in( org.array[ i ] ); c.in( dr.array[ i ] ); c.in( sp.array[ i ] ); } c.in( sp.array[ 3 ] );
        const V3 org0( org ), dr0( dr ); const V4 sp0( sp );
        const Intersection< T > ray( org, dr ); const T mark = T( -12345 ); vt::Canary< T > ct; ct.v = mark; T& t = ct.v;
        const bool hit = ray.test_sphere( sp, t );
        CHECK( "operands-unchanged", vt::memdiff( org.array, org0.array, sizeof org.array ) == 0 && vt::memdiff( dr.array, dr0.array, sizeof dr.array ) == 0 && vt::memdiff( sp.array, sp0.array, sizeof sp.array ) == 0 && ct.ok(), "" );
        { T t2 = mark; const bool h2 = ray.test_sphere( sp, t2 ); CHECK( "repeatable", h2 == hit && vt::same( t, t2 ), hit, h2, t, t2 ); }
        ld d[ 3 ], w[ 3 ], n = 0, b = 0, cc = 0, mag = 0; const ld r = sp.array[ 3 ];
        for( int i = 0; i < 3; ++i ) { d[ i ] = dr.array[ i ]; n += d[ i ] * d[ i ]; } n = sqrtl( n );
        for( int i = 0; i < 3; ++i ) { d[ i ] /= n; w[ i ] = ld( sp.array[ i ] ) - org.array[ i ]; b += w[ i ] * d[ i ]; cc += w[ i ] * w[ i ]; mag = std::max( mag, fabsl( ld( sp.array[ i ] )) + fabsl( ld( org.array[ i ] ))); }
        const ld e = 24 * vt::eps< T >(), s = sqrtl( cc ), disc = r * r - ( cc - b * b );
        const ld ed = e * ( cc + b * b + r * r ), ei = e * ( cc + r * r ); // cancellation in the discriminant and in inside/outside
        const bool inside = cc < r * r; const std::string obj = vt::str( vt::show( org ), vt::show( dr ), vt::show( sp ), "hit", hit, "t", t );
        if( !hit ) CHECK( "miss-leaves-output-alone", t == mark, obj );
        if( hit )
        {
            CHECK( "distance-finite", vt::finite( t ), obj );
            CHECK( "distance-non-negative", ld( t ) >= -( e * ( s + r ) + sqrtl( ed )), obj );
        }
        if( fabsl( cc - r * r ) <= ei ) { SAW( "saw-origin-on-surface" ); if( cc == r * r ) { if( !hit ) CHECK( "on-surface-is-a-hit", false, obj ); } return; }
        if( inside )
        {
            CHECK( "inside-always-hits", hit, obj ); if( !hit ) return;
            const ld sd = sqrtl( disc ), want = b + sd;
            const ld tol = e * ( s + r ) + ed / sd; CHECK( "exit-point", fabsl( ld( t ) - want ) <= tol, obj, "want", want, "tol", tol ); SAW( "saw-exit" );
            if( want > tol ) CHECK( "exit-ahead", t >= T( 0 ), obj );
        }
        else
        {
            if( disc < -ed || ( b < 0 && s > r ) ) { if( b < 0 ? fabsl( b ) > e * s : true ) { CHECK( "no-hit", !hit, obj, "disc", disc, "ahead", b ); SAW( b < 0 ? "saw-no-hit-behind" : "saw-no-hit-beside" ); } return; }
            if( disc <= ed || fabsl( b ) <= e * s ) { SAW( "saw-grazing-undecided" ); return; }
            CHECK( "forward-ray-hits", hit, obj, "disc", disc ); if( !hit ) return;
            const ld sd = sqrtl( disc ), want = b - sd, tol = e * ( s + r ) + 2 * ed / sd;
            CHECK( "entry-point", fabsl( ld( t ) - want ) <= tol, obj, "want", want, "tol", tol ); SAW( "saw-entry" );
            if( want > tol ) CHECK( "entry-ahead", t >= T( 0 ), obj );
        }
        // the reported point lies on the sphere, and nothing on the way is nearer (for the entry point)
        if( hit )
        {
            ld p2 = 0; for( int i = 0; i < 3; ++i ) { const ld x = ld( org.array[ i ] ) + ld( t ) * d[ i ] - sp.array[ i ]; p2 += x * x; }
            const ld off = fabsl( sqrtl( p2 ) - r ), sd = sqrtl( std::max( disc, ed ));
            CHECK( "point-on-sphere", off <= e * ( s + r ) + 2 * ed / sd + 8 * vt::eps< ld >() * mag, obj, "off", off );
        }
    }
};
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { if( c.rng.one( 4 )) { if( c.rng.one( 5 )) A< long double >::exact( c ); else if( c.rng.b( )) A< float >::exact( c ); else A< double >::exact( c ); } else { const int k = c.rng.i( 0, 4 ); if( k < 2 ) A< float >::run( c ); else if( k < 4 ) A< double >::run( c ); else A< long double >::run( c ); } }
