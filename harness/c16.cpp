// C16: bounding boxes contain exactly what was merged into them
#include "common.hpp"
#include <vmmlib/aabb.hpp>
#include <vmmlib/exception.hpp>
using vmml::AABB; using vmml::Vector;

template< class T > struct A
{
    typedef AABB< T > B; typedef Vector< 3, T > V3; typedef Vector< 4, T > V4;
    static const bool real = std::is_floating_point< T >::value, sgn = std::is_signed< T >::value;
    struct Shadow { T lo[ 3 ], hi[ 3 ]; };
    static T val( Ctx& c ) { T v = gen< T >( c ); if( real && c.rng.one( 8 )) v *= T( 1000 ); if( !real && sgn && sizeof( T ) == 4 && c.rng.one( 12 )) v = T( c.rng.i( -250000000, 250000000 )); return v; }
    static V3 vec( Ctx& c ) { const T x = val( c ), y = val( c ), z = val( c ); return V3( x, y, z ); }
    static std::string sh( const B& b ) { return vt::show( b.getMin( )) + vt::show( b.getMax( )); }
    static bool agrees( const B& b, const Shadow& s )
    { for( int i = 0; i < 3; ++i ) if( b.getMin().array[ i ] != s.lo[ i ] || b.getMax().array[ i ] != s.hi[ i ] ) return false; return true; }
    static void grow( Shadow& s, const V3& p ) { for( int i = 0; i < 3; ++i ) { if( p.array[ i ] < s.lo[ i ] ) s.lo[ i ] = p.array[ i ]; if( p.array[ i ] > s.hi[ i ] ) s.hi[ i ] = p.array[ i ]; } }
    static void put( Shadow& s, const V3& a, const V3& b ) { for( int i = 0; i < 3; ++i ) { s.lo[ i ] = a.array[ i ]; s.hi[ i ] = b.array[ i ]; } }
    static T up( T x ) { return real ? T( std::nextafter( x, std::numeric_limits< T >::max( ))) : T( x + 1 ); }
    static T down( T x ) { return real ? T( std::nextafter( x, std::numeric_limits< T >::lowest( ))) : x == std::numeric_limits< T >::lowest() ? x : T( x - 1 ); }
    static void ordered( Ctx& c, V3& a, V3& b ) { a = vec( c ); b = vec( c ); for( int i = 0; i < 3; ++i ) if( b.array[ i ] < a.array[ i ] ) std::swap( a.array[ i ], b.array[ i ] ); }

    static void predicates( Ctx& c, B& b, const Shadow& s )
    {
        const B was( b );
        const bool empty = s.lo[ 0 ] >= s.hi[ 0 ] || s.lo[ 1 ] >= s.hi[ 1 ] || s.lo[ 2 ] >= s.hi[ 2 ];
        CHECK( "isEmpty", b.isEmpty() == empty, sh( b ));
        if( empty ) SAW( "saw-empty-or-flat" ); else SAW( "saw-solid" );
        // points on faces, edges and corners, one step off either way, on each axis in turn
        for( int k = 0; k < 6; ++k )
        {
            V3 p;
            for( int i = 0; i < 3; ++i )
            {
                const T l = s.lo[ i ], h = s.hi[ i ]; T x;
                switch( c.rng.u( k < 3 ? 4 : 7 )) { case 0: x = l; break; case 1: x = h; break; case 2: case 3: x = l < h ? T( l + ( h - l ) / 2 ) : l; break;
                    case 4: x = down( l ); break; case 5: x = up( h ); break; default: x = val( c ); }
                p.array[ i ] = x; c.in( x );
            }
            bool in = true, in2 = true;
            for( int i = 0; i < 3; ++i ) { const bool o = p.array[ i ] < s.lo[ i ] || p.array[ i ] > s.hi[ i ]; in &= !o; if( i < 2 ) in2 &= !o; }
            CHECK( "isIn-point", b.isIn( p ) == in, vt::show( p ), sh( b )); CHECK( "isIn2d", b.isIn2d( p ) == in2, vt::show( p ), sh( b ));
            if( in ) SAW( "saw-point-inside" ); else SAW( "saw-point-outside" );
        }
        // spheres
        for( int k = 0; k < 3; ++k )
        {
            V4 q; ld slack = 1e300L, mag = 0; T r = gen< T >( c ); if( r < T( 0 )) r = T( -r ); if( c.rng.one( 4 )) r = 0; if( !real && sgn && sizeof( T ) == 4 && c.rng.one( 4 )) { r = T( c.rng.i( 1, 200000000 )); SAW( "saw-large-integer-radius" ); }
            if( !sgn ) r = 0;
            for( int i = 0; i < 3; ++i )
            {
                const T l = s.lo[ i ], h = s.hi[ i ];
                q.array[ i ] = c.rng.b() ? T( l + r ) : c.rng.b() ? T( h - r ) : T( l + ( h - l ) / 2 );
                slack = std::min( slack, std::min( ld( q.array[ i ] ) - r - ld( l ), ld( h ) - r - ld( q.array[ i ] ))); mag = std::max( mag, fabsl( ld( q.array[ i ] )) + r );
            }
            q.array[ 3 ] = r;
            bool exact = mag < 1e6L; // half integers: the arithmetic is exact
            for( int i = 0; i < 3; ++i ) { const ld t[] = { ld( q.array[ i ] ), ld( s.lo[ i ] ), ld( s.hi[ i ] ), ld( r ) }; for( ld x : t ) exact &= rintl( 2 * x ) == 2 * x && fabsl( x ) < 1e6L; }
            exact |= !real;
            if( exact || fabsl( slack ) > 8 * vt::eps< T >() * mag )
            { if( mag < 1e30L ) CHECK( "isIn-sphere", b.isIn( q ) == ( slack >= 0 ), vt::show( q ), sh( b ), slack ); if( slack >= 0 ) SAW( "saw-sphere-inside" ); else SAW( "saw-sphere-outside" ); if( slack == 0 ) SAW( "saw-sphere-touching" ); }
        }
        const V3 d = b.getDimension(), m = b.getCenter(); bool okd = true, okm = true;
        for( int i = 0; i < 3; ++i )
        {
            const ld l = s.lo[ i ], h = s.hi[ i ]; if( !sgn && h < l ) continue;
            okd &= near( d.array[ i ], h - l, 0, 2 );
            okm &= real ? near( m.array[ i ], l + ( h - l ) / 2, fabsl( l ) + fabsl( h ), 4 ) : fabsl( ld( m.array[ i ] ) - ( l + h ) / 2 ) <= .5L;
        }
        CHECK( "getDimension", okd, sh( b ), vt::show( d )); CHECK( "getCenter", okm, sh( b ), vt::show( m ));
        const B copy( b ); CHECK( "equal-to-copy", b == copy && !( b != copy ), sh( b ));
        { B o( b ); const int k = c.rng.i( 0, 5 ); T& x = k < 3 ? o.getMin().array[ k ] : o.getMax().array[ k - 3 ]; x = x + T( 1 ) != x ? T( x + T( 1 )) : up( x );
          const bool differ = !agrees( o, s ); CHECK( "unequal-if-one-face-differs", ( o != b ) == differ && ( o == b ) == !differ, k, sh( b ), sh( o )); }
        CHECK( "predicates-change-nothing", b == was, sh( b ), sh( was ));
    }
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); if( c.prof == P_WIDE && real && c.rng.b( )) c.prof = P_SMALL; if( sgn && sizeof( T ) > 2 ) vt::pick_wide< T >( c, 4 );
        vt::Canary< B > cb; B& b = cb.v; Shadow s; std::vector< V3 > inside;
        const T mx = std::numeric_limits< T >::max();
        bool fresh = true; // empty: arithmetic is undefined on it
        CHECK( "default-box-is-empty", b.isEmpty(), sh( b ));
        if( c.rng.one( 3 )) { b = B( vec( c ), vec( c )); b.setEmpty(); CHECK( "setEmpty", b.isEmpty(), sh( b )); SAW( "saw-set-empty" ); }
        for( int i = 0; i < 3; ++i ) { s.lo[ i ] = mx; s.hi[ i ] = std::numeric_limits< T >::lowest(); }
        const int steps = c.rng.i( 1, 14 );
        for( int step = 0; step < steps; ++step )
        {
            const size_t op = c.rng.u( 16 ); c.in( int( op )); const B was( b ); const bool first = fresh;
            switch( op )
            {
            case 0: case 1: case 2: case 3:
                { const V3 p = vec( c ); b.merge( p ); grow( s, p ); inside.push_back( p ); fresh = false; SAW( first ? "saw-merge-point-into-empty" : "saw-merge-point" ); break; }
            case 4: case 5:
                { V3 p, q; ordered( c, p, q ); const B o( p, q ), o0( o ); b.merge( o ); grow( s, p ); grow( s, q ); inside.push_back( p ); inside.push_back( q ); fresh = false;
                  CHECK( "merge-keeps-other-box", o == o0, sh( o )); SAW( first ? "saw-merge-box-into-empty" : "saw-merge-box" ); break; }
            case 6: { B e; if( c.rng.b( )) e.setEmpty(); b.merge( e ); SAW( "saw-merge-empty" ); break; } // neutral
            case 7: { const B o( b ); b.merge( b ); CHECK( "merge-itself", b == o, sh( b ), sh( o )); break; }
            case 8: { V3 p, q; ordered( c, p, q ); b.set( p, q ); put( s, p, q ); inside.clear(); inside.push_back( p ); inside.push_back( q ); fresh = false; break; }
            case 9: { const V3 p = vec( c ); T r = gen< T >( c ); if( r < 0 ) r = -r; if( !sgn ) r = 0;
                const size_t how = c.rng.u( 3 ); if( how == 0 ) b.set( p.array[ 0 ], p.array[ 1 ], p.array[ 2 ], r ); else if( how == 1 ) b = B( p.array[ 0 ], p.array[ 1 ], p.array[ 2 ], r ); else b = B( V4( p.array[ 0 ], p.array[ 1 ], p.array[ 2 ], r ));
                bool ok = true; for( int i = 0; i < 3; ++i ) { const ld x = p.array[ i ]; ok &= near( b.getMin().array[ i ], x - r, 0, 2 ) && near( b.getMax().array[ i ], x + r, 0, 2 ); s.lo[ i ] = b.getMin().array[ i ]; s.hi[ i ] = b.getMax().array[ i ]; }
                CHECK( "centre-and-radius", ok, how, vt::show( p ), r, sh( b )); inside.clear(); inside.push_back( p ); fresh = false; break; }
            case 10: { const V3 p = vec( c ); b.setMin( p ); for( int i = 0; i < 3; ++i ) s.lo[ i ] = p.array[ i ]; inside.clear(); break; }
            case 11: { const V3 p = vec( c ); b.setMax( p ); for( int i = 0; i < 3; ++i ) s.hi[ i ] = p.array[ i ]; inside.clear(); break; }
            case 12: { const int k = c.rng.i( 0, 2 ); const T x = val( c ); if( c.rng.b( )) { b.getMin().array[ k ] = x; s.lo[ k ] = x; } else { b.getMax().array[ k ] = x; s.hi[ k ] = x; } inside.clear(); break; }
            case 13: b = B(); for( int i = 0; i < 3; ++i ) { s.lo[ i ] = mx; s.hi[ i ] = std::numeric_limits< T >::lowest(); } inside.clear(); fresh = true; break;
            default:
                {   // scale and shift
                    bool ok = true; for( int i = 0; i < 3; ++i ) ok &= fabsl( ld( s.lo[ i ] )) < ( real ? 1e12L : sizeof( T ) > 2 ? 1e6L : 500.L ) && fabsl( ld( s.hi[ i ] )) < ( real ? 1e12L : sizeof( T ) > 2 ? 1e6L : 500.L );
                    if( !ok || ( s.lo[ 0 ] > s.hi[ 0 ] )) break;
                    T f = gen_nz< T >( c ); if( f < 0 ) f = -f; const T g = sgn ? gen< T >( c ) : T( c.rng.i( 0, 5 )); const size_t how = c.rng.u( 8 ); const B o( b ); B n;
                    if( c.wide && how % 4 == 0 ) f = T( 1 + ( long long )( f ) % 500 ); // the product has to fit
                    if( !sgn && ( how == 3 || how == 7 )) break;
                    switch( how ) { case 0: b *= f; break; case 1: b /= f; break; case 2: b += g; break; case 3: b -= g; break;
                        case 4: n = o * f; b = n; break; case 5: n = o / f; b = n; break; case 6: n = o + g; b = n; break; default: n = o - g; b = n; }
                    bool right = true;
                    for( int i = 0; i < 3; ++i ) for( int e = 0; e < 2; ++e )
                    {
                        const ld x = e ? s.hi[ i ] : s.lo[ i ]; const T got = e ? b.getMax().array[ i ] : b.getMin().array[ i ]; const size_t h = how % 4;
                        const ld want = h == 0 ? x * f : h == 1 ? ( real ? x / f : ld( T( x ) / f )) : h == 2 ? x + g : x - g;
                        right &= near( got, want, 0, 3 ); ( e ? s.hi : s.lo )[ i ] = got;
                    }
                    CHECK( "scale-and-shift", right, "op", how, f, g, sh( o ), sh( b )); inside.clear(); SAW( "saw-scale-or-shift" );
                }
            }
            CHECK( "bounds-after-each-step", agrees( b, s ), "op", op, "before", sh( was ), "after", sh( b ));
            for( const V3& p : inside ) CHECK( "merged-point-is-inside", b.isIn( p ), vt::show( p ), sh( b ));
            if( agrees( b, s ) && !fresh && ( real || sgn || s.lo[ 0 ] <= s.hi[ 0 ] ) && s.lo[ 0 ] != mx && s.hi[ 0 ] != std::numeric_limits< T >::lowest() &&
                s.hi[ 1 ] != std::numeric_limits< T >::lowest() && s.hi[ 2 ] != std::numeric_limits< T >::lowest() && s.lo[ 1 ] != mx && s.lo[ 2 ] != mx &&
                ( sgn || ( s.lo[ 0 ] <= s.hi[ 0 ] && s.lo[ 1 ] <= s.hi[ 1 ] && s.lo[ 2 ] <= s.hi[ 2 ] )))
                predicates( c, b, s );
            const bool none = s.lo[ 0 ] >= s.hi[ 0 ] || s.lo[ 1 ] >= s.hi[ 1 ] || s.lo[ 2 ] >= s.hi[ 2 ];
            CHECK( "isEmpty-after-each-step", b.isEmpty() == none, sh( b ));
        }
        const B u = B::makeUnitBox(); bool ok = true; for( int i = 0; i < 3; ++i ) ok &= u.getMin().array[ i ] == T( 0 ) && u.getMax().array[ i ] == T( 1 );
        CHECK( "unit-box", ok, sh( u )); CHECK( "no-stray-write", cb.ok(), "" );
    }
};
void start_run() {}
void end_run( Ctx& ) {}
typedef void (*Fn)( Ctx& );
static const Fn table[] = { A< float >::run, A< double >::run, A< int >::run, A< long double >::run, A< unsigned >::run, A< short >::run, A< int64_t >::run };
void run_case( Ctx& c ) { const size_t k = c.rng.u( 7 ); c.in( int( k )); table[ k ]( c ); }
