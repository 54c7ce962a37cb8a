// C17: frustum matrices map the view volume onto the [-1,1] cube
#include "common.hpp"
#include <vmmlib/matrix.hpp>
#include <vmmlib/frustum.hpp>
using vmml::Frustum; using vmml::Matrix; using vmml::Vector;

template< class T > struct A
{
    typedef Frustum< T > F; typedef Matrix< 4, 4, T > X;
    static std::string sh( const F& f ) { return vt::str( f.array[ 0 ], f.array[ 1 ], f.array[ 2 ], f.array[ 3 ], f.array[ 4 ], f.array[ 5 ] ); }
    static void make( Ctx& c, T* v )
    {
        const double n = std::pow( 10., c.rng.r( -3, 2 )), ratio = c.rng.one( 6 ) ? 1.001 + c.rng.d() : std::pow( 10., c.rng.r( 0.05, 6 ));
        const double w = std::pow( 10., c.rng.r( -3, 2 )), h = c.rng.b() ? w : std::pow( 10., c.rng.r( -3, 2 ));
        double ox = 0, oy = 0;
        switch( c.rng.u( 4 )) { case 0: SAW( "saw-symmetric" ); break; case 1: ox = w * c.rng.r( -3, 3 ); SAW( "saw-off-centre-x" ); break; case 2: oy = h * c.rng.r( -3, 3 ); SAW( "saw-off-centre-y" ); break;
            default: ox = w * c.rng.r( -20, 20 ); oy = h * c.rng.r( -20, 20 ); SAW( "saw-off-centre-both" ); }
        if( w > 20 * h || h > 20 * w ) SAW( "saw-thin" ); if( ratio > 1e4 ) SAW( "saw-deep" ); if( ratio < 2 ) SAW( "saw-shallow" );
        v[ 0 ] = T( ox - w / 2 ); v[ 1 ] = T( ox + w / 2 ); v[ 2 ] = T( oy - h / 2 ); v[ 3 ] = T( oy + h / 2 ); v[ 4 ] = T( n ); v[ 5 ] = T( n * ratio );
        if( c.rng.one( 5 )) { if( c.rng.b( )) std::swap( v[ 0 ], v[ 1 ] ); else std::swap( v[ 2 ], v[ 3 ] ); SAW( "saw-mirrored" ); }
        if( c.rng.one( 6 )) { std::swap( v[ 4 ], v[ 5 ] ); SAW( "saw-reversed-depth" ); }
        if( c.rng.one( 6 )) { v[ 4 ] = c.rng.one( 4 ) ? T( 0 ) : T( -n * c.rng.r( .1, 3 )); if( c.rng.one( 3 )) v[ 5 ] = T( v[ 4 ] / 2 ); SAW( "saw-near-behind-eye" ); } // orthographic only
        for( int i = 0; i < 6; ++i ) c.in( v[ i ] );
    }
    static bool apart( ld a, ld b ) { return fabsl( a - b ) > 1e-4L * std::max( fabsl( a ), fabsl( b )); }
    static bool valid( const F& f, bool ortho )
    {
        const T* v = f.array; for( int i = 0; i < 6; ++i ) if( !( fabsl( v[ i ] ) < 1e12L )) return false;
        for( int i = 0; i < 6; i += 2 ) if( !apart( v[ i ], v[ i + 1 ] ) || fabsl( ld( v[ i ] ) - v[ i + 1 ] ) < 1e-9L ) return false;
        return ortho || ( v[ 4 ] > T( 1e-6 ) && v[ 5 ] > T( 1e-6 ));
    }

    static void matrices( Ctx& c, const F& f, bool ortho )
    {
        const F f0( f ); vt::Canary< X > cm; X& m = cm.v; for( int i = 0; i < 16; ++i ) m.array[ i ] = T( 90 + i ); // every element has to be set
        switch( c.rng.u( 3 )) { case 0: Frustum< T >::DEFAULT.compute_matrix( m ); if( c.rng.b( )) m.array[ 4 * c.rng.i( 0, 3 ) + c.rng.i( 0, 3 ) ] = T( 7 ); break; case 1: Frustum< T >::DEFAULT.compute_ortho_matrix( m ); if( c.rng.b( )) m.array[ 4 * c.rng.i( 0, 3 ) + c.rng.i( 0, 3 ) ] = T( 7 ); break; default: break; } // also over an older projection
        X v; if( ortho ) { f.compute_ortho_matrix( m ); v = f.compute_ortho_matrix(); } else { f.compute_matrix( m ); v = f.compute_matrix(); }
        image( c, f, ortho, m ); image( c, f, ortho, v );
        CHECK( "frustum-unchanged", vt::memdiff( f.array, f0.array, sizeof f.array ) == 0 && cm.ok(), "" );
    }
    static void image( Ctx& c, const F& f, bool ortho, const X& m )
    {
        const ld l = f.array[ 0 ], r = f.array[ 1 ], b = f.array[ 2 ], t = f.array[ 3 ], n = f.array[ 4 ], g = f.array[ 5 ];
        // cancellation in right-left, top-bottom, far-near
        const ld tx = 24 * vt::eps< T >() * ( 1 + ( fabsl( l ) + fabsl( r )) / fabsl( r - l )), ty = 24 * vt::eps< T >() * ( 1 + ( fabsl( b ) + fabsl( t )) / fabsl( t - b )), tz = 24 * vt::eps< T >() * ( 1 + ( fabsl( g ) + fabsl( n )) / fabsl( g - n ));
        for( int k = 0; k < 16; ++k ) // eight corners and eight points inside
        {
            ld p[ 3 ], want[ 3 ]; const bool corner = k < 8;
            if( corner ) for( int i = 0; i < 3; ++i ) want[ i ] = k & ( 1 << i ) ? 1 : -1; else for( int i = 0; i < 3; ++i ) { want[ i ] = c.rng.r( -1, 1 ); }
            ld depth; // distance in front of the eye whose image is want[2]
            if( ortho ) depth = n + ( want[ 2 ] + 1 ) / 2 * ( g - n ); else depth = 2 * g * n / (( g + n ) - want[ 2 ] * ( g - n ));
            const ld s = ortho ? 1 : depth / n;
            p[ 0 ] = s * ( l + ( want[ 0 ] + 1 ) / 2 * ( r - l )); p[ 1 ] = s * ( b + ( want[ 1 ] + 1 ) / 2 * ( t - b )); p[ 2 ] = -depth;
            ld o[ 4 ]; for( int i = 0; i < 4; ++i ) { o[ i ] = m.array[ 12 + i ]; for( int j = 0; j < 3; ++j ) o[ i ] += ld( m.array[ j * 4 + i ] ) * p[ j ]; }
            CHECK( "in-front-of-the-eye", o[ 3 ] > 0, ortho, sh( f ), o[ 3 ] );
            const ld x = o[ 0 ] / o[ 3 ], y = o[ 1 ] / o[ 3 ], z = o[ 2 ] / o[ 3 ];
            CHECK( ortho ? "ortho-corner-x-y" : "perspective-corner-x-y", fabsl( x - want[ 0 ] ) <= tx && fabsl( y - want[ 1 ] ) <= ty, "corner", k, x, y, "want", want[ 0 ], want[ 1 ], sh( f ), vt::show( m ));
            CHECK( ortho ? "ortho-depth" : "perspective-depth", fabsl( z - want[ 2 ] ) <= tz, "corner", k, z, "want", want[ 2 ], sh( f ), vt::show( m ));
        }
        // the scale of clip space: w is the distance from the eye, or 1
        const ld wn = ld( m.array[ 3 ] ) + 0, wz = m.array[ 11 ];
        CHECK( "clip-w", wn == 0 && m.array[ 7 ] == T( 0 ) && wz == ( ortho ? 0 : -1 ) && m.array[ 15 ] == T( ortho ? 1 : 0 ), vt::show( m ));
    }
    static void run( Ctx& c )
    {
        T v[ 6 ]; make( c, v );
        vt::Canary< F > cf; F& f = cf.v; bool ok = true;
        for( int i = 0; i < 6; ++i ) ok &= f.array[ i ] == T( 0 );
        CHECK( "default-is-zero", ok, sh( f ));
        f.set( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ] );
        ok = f.left() == v[ 0 ] && f.right() == v[ 1 ] && f.bottom() == v[ 2 ] && f.top() == v[ 3 ] && f.near_plane() == v[ 4 ] && f.far_plane() == v[ 5 ];
        for( int i = 0; i < 6; ++i ) ok &= f.array[ i ] == v[ i ];
        CHECK( "set", ok, sh( f ));
        const int steps = c.rng.i( 1, 6 ); T last[ 4 ] = { T( 45 ), T( 1 ), T( 1 ), T( 10 ) }; // of the last perspective
        for( int s = 0; s < steps; ++s )
        {
            const F& cf2 = f; const F was( f ); const T* w = was.array;
            const size_t op = c.rng.u( 7 ); c.in( int( op ));
            switch( op )
            {
            case 0:
                {
                    T fov = T( c.rng.one( 4 ) ? c.rng.r( .5, 5 ) : c.rng.r( 5, 170 )), aspect = T( c.rng.r( .1, 5 )), n = T( std::pow( 10., c.rng.r( -3, 2 ))), g = T( n * std::pow( 10., c.rng.r( .05, 5 )));
                    if( c.rng.one( 3 ))
                    {   // once more with some of the parameters as they were; nothing else of the old planes may survive
                        if( c.rng.b( )) fov = last[ 0 ]; if( c.rng.b( )) aspect = last[ 1 ]; if( c.rng.b( )) n = last[ 2 ]; else if( c.rng.b( )) n = w[ 4 ]; if( c.rng.b( )) g = last[ 3 ];
                        if( n > T( 0 ) && g > n ) SAW( "saw-perspective-again" ); else { n = T( 1 ); g = T( 10 ); }
                    }
                    last[ 0 ] = fov; last[ 1 ] = aspect; last[ 2 ] = n; last[ 3 ] = g;
                    c.in( fov ); c.in( aspect ); c.in( n ); c.in( g );
                    f.set_perspective( fov, aspect, n, g );
                    const ld t = tanl( ld( fov ) * 3.14159265358979323846264338327950288L / 360 ) * n, k = 40 * std::max( vt::eps< T >(), vt::eps< double >() / 4 ) * ( 1 + 1 / fabsl( 90 - fov / 2 ));
                    CHECK( "perspective-near-far", f.near_plane() == n && f.far_plane() == g, sh( f ));
                    CHECK( "perspective-field-of-view", fabsl( f.top() - t ) <= k * t && f.bottom() == -f.top(), fov, n, sh( f ), t );
                    CHECK( "perspective-aspect", fabsl(( ld( f.right( )) - f.left( )) / ( ld( f.top( )) - f.bottom( )) - aspect ) <= 20 * vt::eps< T >() * aspect && fabsl( ld( f.right( )) + f.left( )) <= 8 * vt::eps< T >() * f.right(), aspect, sh( f ));
                    SAW( "saw-set-perspective" ); break;
                }
            case 1:
                {
                    T n = T( w[ 4 ] * std::pow( 10., c.rng.r( -2, 2 ))); if( c.rng.one( 6 )) n = w[ 4 ];
                    switch( c.rng.u( 6 )) { case 0: n = T( w[ 4 ] * ( 1 + c.rng.i( -40, 40 ) * vt::eps< T >( ))); SAW( "saw-near-hardly-moved" ); break; case 1: n = T( w[ 4 ] * std::pow( 10., c.rng.r( -8, -2 ))); SAW( "saw-near-very-close" ); break; }
                    if( w[ 4 ] == T( 0 )) break; c.in( n ); f.adjust_near( n ); bool k = f.near_plane() == n && f.far_plane() == w[ 5 ];
                    for( int i = 0; i < 4; ++i ) k &= near( f.array[ i ], ld( w[ i ] ) * n / ld( w[ 4 ] ), 0, 4 );
                    CHECK( "adjust-near-keeps-pyramid", k, n, sh( was ), sh( f )); SAW( "saw-adjust-near" ); break;
                }
            case 2:
                {
                    const Vector< 2, T > j( T( c.rng.r( -2, 2 ) * ( w[ 1 ] - w[ 0 ] )), T( c.rng.r( -2, 2 ) * ( w[ 3 ] - w[ 2 ] ))); c.in( j.array[ 0 ] ); c.in( j.array[ 1 ] ); f.apply_jitter( j );
                    bool k = f.near_plane() == w[ 4 ] && f.far_plane() == w[ 5 ];
                    for( int i = 0; i < 4; ++i ) k &= near( f.array[ i ], ld( w[ i ] ) + j.array[ i / 2 ], 0, 3 );
                    CHECK( "jitter-shifts-all-sides", k, vt::show( j ), sh( was ), sh( f )); SAW( "saw-jitter" ); break;
                }
            case 3: { T u[ 6 ]; make( c, u ); f = F( u ); bool k = true; for( int i = 0; i < 6; ++i ) k &= f.array[ i ] == u[ i ]; CHECK( "from-array", k, sh( f )); break; }
            case 4: { T u[ 6 ]; make( c, u ); f = F( u[ 0 ], u[ 1 ], u[ 2 ], u[ 3 ], u[ 4 ], u[ 5 ] ); bool k = true; for( int i = 0; i < 6; ++i ) k &= f.array[ i ] == u[ i ]; CHECK( "from-six", k, sh( f )); break; }
            case 5:
                {   // copies and conversions are deep and keep the planes
                    F g( f ), h; h = f; Frustum< float > p( f ); Frustum< double > d( f ); Frustum< double > d2; d2 = f; Frustum< float > p2; p2 = f; bool k = true;
                    for( int i = 0; i < 6; ++i ) k &= g.array[ i ] == w[ i ] && h.array[ i ] == w[ i ] && p.array[ i ] == float( w[ i ] ) && p2.array[ i ] == float( w[ i ] ) && d.array[ i ] == double( w[ i ] ) && d2.array[ i ] == double( w[ i ] );
                    g.left() = h.right() = T( 5 ); p.top() = d.top() = 5; for( int i = 0; i < 6; ++i ) k &= f.array[ i ] == w[ i ];
                    CHECK( "copies-and-conversions", k, sh( f ), sh( g )); break;
                }
            default: { const int i = c.rng.i( 0, 5 ); const T x = T( w[ i ] + ( i % 2 || i == 4 ? 1 : -1 ) * c.rng.d() * fabsl( w[ i ] ) * .5 ); c.in( x );
                       T& ref = i == 0 ? f.left() : i == 1 ? f.right() : i == 2 ? f.bottom() : i == 3 ? f.top() : i == 4 ? f.near_plane() : f.far_plane(); ref = x; bool k = true;
                       for( int q = 0; q < 6; ++q ) k &= f.array[ q ] == ( q == i ? x : w[ q ] ); CHECK( "plane-reference", k, i, sh( f )); }
            }
            CHECK( "plane-accessors", cf2.left() == f.array[ 0 ] && cf2.right() == f.array[ 1 ] && cf2.bottom() == f.array[ 2 ] && cf2.top() == f.array[ 3 ] && cf2.near_plane() == f.array[ 4 ] && cf2.far_plane() == f.array[ 5 ], sh( f ));
            CHECK( "width-height", near( f.get_width(), fabsl( ld( f.array[ 1 ] ) - f.array[ 0 ] ), 0, 3 ) && near( f.get_height(), fabsl( ld( f.array[ 3 ] ) - f.array[ 2 ] ), 0, 3 ), sh( f ), f.get_width(), f.get_height( ));
            if( valid( f, false )) { matrices( c, f, false ); SAW( "saw-valid-perspective" ); }
            if( valid( f, true )) { matrices( c, f, true ); SAW( "saw-valid-ortho" ); }
        }
        CHECK( "no-stray-write", cf.ok(), "" );
    }
};
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { const size_t k = c.rng.u( 5 ); c.in( k ); if( k < 2 ) A< float >::run( c ); else if( k < 4 ) A< double >::run( c ); else A< long double >::run( c ); }
