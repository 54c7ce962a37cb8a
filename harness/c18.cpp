// C18: culling never hides anything visible
#include "common.hpp"
#include <vmmlib/matrix.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
using vmml::FrustumCuller; using vmml::Matrix; using vmml::Vector;

struct P3 { ld x, y, z; };
static P3 operator+( P3 a, P3 b ) { return P3{ a.x + b.x, a.y + b.y, a.z + b.z }; }
static P3 operator-( P3 a, P3 b ) { return P3{ a.x - b.x, a.y - b.y, a.z - b.z }; }
static P3 operator*( ld s, P3 a ) { return P3{ s * a.x, s * a.y, s * a.z }; }
static ld dot( P3 a, P3 b ) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static P3 cross( P3 a, P3 b ) { return P3{ a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
static ld len( P3 a ) { return sqrtl( dot( a, a )); }

// a plane of the view volume, pointing inwards, with the error one may have made computing it
struct Plane { P3 n; ld d, en, ed; }; // n.p + d; en: error per unit of |p|, ed: absolute error

template< class T > struct A
{
    typedef Vector< 2, T > V2; typedef Vector< 3, T > V3; typedef Vector< 4, T > V4; typedef Matrix< 4, 4, T > X;
    struct Volume { P3 eye, x, y, z; ld l, r, b, t, n, f; bool ortho; P3 corner[ 8 ]; }; // nlt nrt nlb nrb flt frt flb frb

    static Volume make( Ctx& c )
    {
        Volume v; v.ortho = c.rng.one( 3 ); if( v.ortho ) SAW( "saw-ortho" ); else SAW( "saw-perspective" );
        ld U = 1; if( c.rng.one( 3 )) { U = powl( 10, c.rng.r( -3, 3 )); SAW( "saw-other-unit-of-length" ); }
        const ld n = U * powl( 10, c.rng.r( -1, 1 )), w = n * powl( 10, c.rng.r( -.7, .7 )), h = w * powl( 10, c.rng.r( -.5, .5 ));
        v.n = n; v.f = n * powl( 10, c.rng.r( .3, 2.5 )); const bool off = c.rng.b();
        const ld ox = off ? w * c.rng.r( -1, 1 ) : 0, oy = off ? h * c.rng.r( -1, 1 ) : 0;
        v.l = ox - w / 2; v.r = ox + w / 2; v.b = oy - h / 2; v.t = oy + h / 2;
        // camera
        if( c.rng.one( 4 )) { v.x = P3{ 1, 0, 0 }; v.y = P3{ 0, 1, 0 }; v.z = P3{ 0, 0, 1 }; SAW( "saw-identity-view" ); v.eye = P3{ 0, 0, 0 }; }
        else if( c.rng.one( 3 ))
        {   // looking along an axis
            int a[ 3 ] = { 0, 1, 2 }, g[ 3 ] = { 1, 1, 1 }; turn( c, a, g ); P3* const w[ 3 ] = { &v.x, &v.y, &v.z };
            for( int i = 0; i < 3; ++i ) *w[ i ] = P3{ a[ i ] == 0 ? ld( g[ i ] ) : 0, a[ i ] == 1 ? ld( g[ i ] ) : 0, a[ i ] == 2 ? ld( g[ i ] ) : 0 };
            SAW( "saw-view-along-axis" ); v.eye = c.rng.b() ? P3{ 0, 0, 0 } : U * P3{ ld( c.rng.i( -9, 9 )), ld( c.rng.i( -9, 9 )), ld( c.rng.i( -9, 9 )) };
        }
        else
        {
            P3 a{ c.rng.r( -1, 1 ), c.rng.r( -1, 1 ), c.rng.r( -1, 1 ) }; if( len( a ) < .1L ) a.x = 1; a = ( 1 / len( a )) * a;
            P3 u{ c.rng.r( -1, 1 ), c.rng.r( -1, 1 ), c.rng.r( -1, 1 ) }; P3 k = cross( a, u ); if( len( k ) < .05L ) { u = fabsl( a.x ) < .8L ? P3{ 1, 0, 0 } : P3{ 0, 1, 0 }; k = cross( a, u ); }
            v.z = a; v.x = ( 1 / len( k )) * k; v.y = cross( v.z, v.x ); v.eye = U * P3{ c.rng.r( -20, 20 ), c.rng.r( -20, 20 ), c.rng.r( -20, 20 ) };
        }
        int i = 0;
        for( int far_ = 0; far_ < 2; ++far_ ) for( int bottom = 0; bottom < 2; ++bottom ) for( int right = 0; right < 2; ++right, ++i )
        {
            const ld d = far_ ? v.f : v.n, s = v.ortho || !far_ ? 1 : v.f / v.n;
            v.corner[ i ] = v.eye + ( s * ( right ? v.r : v.l )) * v.x + ( s * ( bottom ? v.b : v.t )) * v.y + -d * v.z;
        }
        return v;
    }
    // true planes: left right bottom top near far
    static void planes( const Volume& v, Plane* p )
    {
        static const int on[ 6 ][ 3 ] = { { 2, 0, 4 }, { 1, 3, 5 }, { 3, 2, 7 }, { 0, 1, 4 }, { 0, 1, 2 }, { 4, 5, 6 } };
        P3 mid{ 0, 0, 0 }; ld scale = 0; for( int i = 0; i < 8; ++i ) { mid = mid + .125L * v.corner[ i ]; scale = std::max( scale, len( v.corner[ i ] )); }
        for( int i = 0; i < 6; ++i )
        {
            const P3 a = v.corner[ on[ i ][ 0 ]], e1 = v.corner[ on[ i ][ 1 ]] - a, e2 = v.corner[ on[ i ][ 2 ]] - a;
            P3 n = cross( e1, e2 ); n = ( 1 / len( n )) * n; if( dot( n, mid - a ) < 0 ) n = -1 * n;
            p[ i ].n = n; p[ i ].d = -dot( n, a ); p[ i ].en = p[ i ].ed = 0;
        }
    }
    static void matrix( const Volume& v, X& m, ld S ) // projection * modelview, rounded to T at the end
    {
        ld P[ 4 ][ 4 ] = {}, V[ 4 ][ 4 ] = {};
        if( v.ortho ) { P[ 0 ][ 0 ] = 2 / ( v.r - v.l ); P[ 0 ][ 3 ] = -( v.r + v.l ) / ( v.r - v.l ); P[ 1 ][ 1 ] = 2 / ( v.t - v.b ); P[ 1 ][ 3 ] = -( v.t + v.b ) / ( v.t - v.b ); P[ 2 ][ 2 ] = -2 / ( v.f - v.n ); P[ 2 ][ 3 ] = -( v.f + v.n ) / ( v.f - v.n ); P[ 3 ][ 3 ] = 1; }
        else { P[ 0 ][ 0 ] = 2 * v.n / ( v.r - v.l ); P[ 0 ][ 2 ] = ( v.r + v.l ) / ( v.r - v.l ); P[ 1 ][ 1 ] = 2 * v.n / ( v.t - v.b ); P[ 1 ][ 2 ] = ( v.t + v.b ) / ( v.t - v.b ); P[ 2 ][ 2 ] = -( v.f + v.n ) / ( v.f - v.n ); P[ 2 ][ 3 ] = -2 * v.f * v.n / ( v.f - v.n ); P[ 3 ][ 2 ] = -1; }
        const P3 ax[ 3 ] = { v.x, v.y, v.z };
        for( int i = 0; i < 3; ++i ) { V[ i ][ 0 ] = ax[ i ].x; V[ i ][ 1 ] = ax[ i ].y; V[ i ][ 2 ] = ax[ i ].z; V[ i ][ 3 ] = -dot( ax[ i ], v.eye ); } V[ 3 ][ 3 ] = 1;
        for( int i = 0; i < 4; ++i ) for( int j = 0; j < 4; ++j ) { ld s = 0; for( int k = 0; k < 4; ++k ) s += P[ i ][ k ] * V[ k ][ j ]; m( i, j ) = T( s * S ); }
    }
    // how much the planes may be off when taken from the rows of m, or from three rounded corners
    static void matrix_errors( const X& m, Plane* p )
    {
        const ld e = vt::eps< T >();
        for( int i = 0; i < 6; ++i )
        {
            const int row = i / 2, sg = i % 2 ? -1 : 1; ld n2 = 0, mag = 0;
            for( int k = 0; k < 3; ++k ) { const ld a = m( 3, k ), b = m( row, k ); n2 += ( a + sg * b ) * ( a + sg * b ); mag = std::max( mag, fabsl( a ) + fabsl( b )); }
            const ld n = sqrtl( n2 ); p[ i ].en = 24 * e * ( 1 + mag / n ); p[ i ].ed = 24 * e * ( fabsl( m( 3, 3 )) + fabsl( m( row, 3 ))) / n + p[ i ].en * fabsl( p[ i ].d );
        }
    }
    static void corner_errors( const Volume& v, Plane* p )
    {
        // corner triples used: any three of the four of a face; bound by the worst
        static const int face[ 6 ][ 4 ] = { { 0, 2, 4, 6 }, { 1, 3, 5, 7 }, { 2, 3, 6, 7 }, { 0, 1, 4, 5 }, { 0, 1, 2, 3 }, { 4, 5, 6, 7 } };
        const ld e = vt::eps< T >();
        for( int i = 0; i < 6; ++i )
        {
            ld worst = 0, big = 0, edge = 0;
            for( int k = 0; k < 4; ++k ) big = std::max( big, len( v.corner[ face[ i ][ k ]] ));
            for( int k = 0; k < 4; ++k )
            {
                const P3 a = v.corner[ face[ i ][ k ]], e1 = v.corner[ face[ i ][( k + 1 ) % 4 ]] - a, e2 = v.corner[ face[ i ][( k + 2 ) % 4 ]] - a;
                const ld L = len( e1 ) + len( e2 ), area = len( cross( e1, e2 )); edge = std::max( edge, L );
                worst = std::max( worst, ( 4 * big * L + 4 * L * L ) * e / area );
            }
            p[ i ].en = 6 * worst; p[ i ].ed = 6 * worst * ( big + edge ) + 16 * e * big;
        }
    }
    static ld dist( const Plane& p, P3 q ) { return dot( p.n, q ) + p.d; }
    static ld err( const Plane& p, P3 q, ld r ) { return p.en * len( q ) + p.ed + 16 * vt::eps< T >() * ( len( q ) + fabsl( p.d ) + r ); }
    static const char* nm( vmml::Visibility v ) { return v == vmml::VISIBILITY_NONE ? "none" : v == vmml::VISIBILITY_PARTIAL ? "partial" : v == vmml::VISIBILITY_FULL ? "full" : "?"; }

    // a point of the volume or somewhere around one of its faces
    static P3 place( Ctx& c, const Volume& v, const Plane* p, ld reach )
    {
        ld u[ 8 ], s = 0; P3 q{ 0, 0, 0 }; for( int i = 0; i < 8; ++i ) { u[ i ] = powl( c.rng.d(), 4 ); s += u[ i ]; }
        for( int i = 0; i < 8; ++i ) q = q + ( u[ i ] / s ) * v.corner[ i ];
        switch( c.rng.u( 4 ))
        {
        case 0: SAW( "saw-object-inside" ); break;
        case 1: { const int i = c.rng.i( 0, 5 ); q = q - ( dist( p[ i ], q )) * p[ i ].n; 
            ld off = c.rng.r( -2, 2 ); if( c.rng.b( )) { off = ( c.rng.b() ? 1 : -1 ) * ( 1 + ( c.rng.b() ? 1 : -1 ) * powl( 10, -c.rng.r( 1, 7 ))); SAW( "saw-almost-tangent" ); }
            q = q + ( reach * off ) * p[ i ].n; SAW( "saw-object-at-face" ); break; }
        case 2: { const int i = c.rng.i( 0, 7 ); q = v.corner[ i ] + reach * P3{ c.rng.r( -2, 2 ), c.rng.r( -2, 2 ), c.rng.r( -2, 2 ) }; SAW( "saw-object-at-corner" ); break; }
        default: { const ld w = len( v.corner[ 7 ] - v.corner[ 0 ] ); q = q + w * P3{ c.rng.r( -2, 2 ), c.rng.r( -2, 2 ), c.rng.r( -2, 2 ) }; SAW( "saw-object-anywhere" ); }
        }
        return q;
    }
    // lo, hi: least and greatest distance of the object to each plane
    static int truth( const ld* lo, const ld* hi, const ld* e ) // 2 all inside, 0 beyond one plane, 1 neither, -1 undecided
    {
        bool all = true, sure = true;
        for( int i = 0; i < 6; ++i ) if( hi[ i ] < -e[ i ] ) return 0;
        for( int i = 0; i < 6; ++i ) { if( fabsl( lo[ i ] ) <= e[ i ] || fabsl( hi[ i ] ) <= e[ i ] ) sure = false; if( lo[ i ] < 0 ) all = false; }
        if( !sure ) return -1;
        return all ? 2 : 1;
    }
    // alternating projections onto the half spaces and the object, all shrunk by the tolerance
    template< class F > static bool common_point( const Plane* p, const ld* e, F project, P3 x, P3& out )
    {
        for( int n = 0; n < 400; ++n )
        {
            for( int i = 0; i < 6; ++i ) { const ld d = dist( p[ i ], x ) - 3 * e[ i ]; if( d < 0 ) x = x - d * p[ i ].n; }
            x = project( x ); bool in = true;
            for( int i = 0; i < 6; ++i ) in &= dist( p[ i ], x ) > 2 * e[ i ];
            if( in ) { out = x; return true; }
        }
        return false;
    }
    template< class F > static int judge( Ctx& c, const char* what, vmml::Visibility got, const ld* lo, const ld* hi, const ld* e, bool corners, const std::string& obj, const Plane* planes, P3 start, F project )
    {
        const int t = truth( lo, hi, e );
        bool outside = false; for( int i = 0; i < 6; ++i ) if( lo[ i ] < -e[ i ] ) outside = true;
        CHECK( "legal-answer", got == vmml::VISIBILITY_NONE || got == vmml::VISIBILITY_PARTIAL || got == vmml::VISIBILITY_FULL, int( got ));
        const std::string d = [&]{ std::string s; for( int i = 0; i < 6; ++i ) s += vt::str( "plane", i, lo[ i ], hi[ i ], "+-", e[ i ], ";" ); return s; }();
        if( outside ) CHECK( "fully-visible-lies-inside", got != vmml::VISIBILITY_FULL, what, corners ? "corners" : "matrix", obj, d );
        if( t == 0 ) { CHECK( "beyond-one-plane-is-invisible", got == vmml::VISIBILITY_NONE, what, corners ? "corners" : "matrix", nm( got ), obj, d ); SAW( "saw-beyond-a-plane" ); }
        if( t == 2 ) { CHECK( "inside-is-fully-visible", got == vmml::VISIBILITY_FULL, what, corners ? "corners" : "matrix", nm( got ), obj, d ); SAW( "saw-fully-inside" ); }
        if( t == 1 ) SAW( "saw-straddling" );
        if( t == 1 && got == vmml::VISIBILITY_NONE )
        {   // hidden though beyond no single plane: right only if nothing of it is in the volume
            P3 x; CHECK( "visible-object-never-hidden", !common_point( planes, e, project, start, x ), what, corners ? "corners" : "matrix", obj, d, "visible point", x.x, x.y, x.z );
        }
        if( t < 0 ) SAW( "saw-undecided-by-rounding" );
        return t;
    }
    static void turn( Ctx& c, int* a, int* g ) // a random rotation by right angles of the frame (g0*a0, g1*a1, g2*a2)
    {
        for( int i = 0; i < 3; ++i ) switch( c.rng.u( 3 )) // quarter turns keep the handedness
        {
        case 0: { const int x = a[ 0 ], y = g[ 0 ]; a[ 0 ] = a[ 1 ]; g[ 0 ] = g[ 1 ]; a[ 1 ] = x; g[ 1 ] = -y; break; }
        case 1: { const int x = a[ 1 ], y = g[ 1 ]; a[ 1 ] = a[ 2 ]; g[ 1 ] = g[ 2 ]; a[ 2 ] = x; g[ 2 ] = -y; break; }
        default: break;
        }
    }
    // earlier set-ups of the same culler with other volumes leave no trace
    static void earlier( Ctx& c, FrustumCuller< T >& f, const V3* k, const X& real )
    {
        for( int n = c.rng.i( 0, 2 ); n; --n )
        {
            if( c.rng.one( 3 )) { X m( real ); const int same = c.rng.i( 0, 4 ); for( int i = 0; i < 16; ++i ) if( i % 4 != same && c.rng.i( 0, 4 ) != same ) m.array[ i ] = T( c.rng.r( -3, 3 )); f.setup( m ); SAW( "saw-culler-reused-after-matrix" ); }
            else if( c.rng.b( )) { f.setup( k[ 7 ], k[ 6 ], k[ 5 ], k[ 4 ], k[ 3 ], k[ 2 ], k[ 1 ], k[ 0 ] ); SAW( "saw-culler-reused-after-corners" ); }
            else if( c.rng.b( )) { V3 q[ 8 ]; for( int i = 0; i < 8; ++i ) q[ i ] = k[ i ]; const int face = c.rng.i( 0, 5 ); // all but one face moved
                for( int i = 0; i < 8; ++i ) if(( i >> face / 2 & 1 ) != face % 2 ) for( int j = 0; j < 3; ++j ) q[ i ].array[ j ] = k[ i ].array[ j ] + T( c.rng.r( -1, 1 )); else if( c.rng.one( 8 )) q[ i ] = V3( T( 0 ), T( 0 ), T( 0 ));
                f.setup( q[ 0 ], q[ 1 ], q[ 2 ], q[ 3 ], q[ 4 ], q[ 5 ], q[ 6 ], q[ 7 ] ); SAW( "saw-culler-reused-with-one-face-kept" ); }
            else { V3 q[ 8 ]; for( int i = 0; i < 8; ++i ) for( int j = 0; j < 3; ++j ) q[ i ].array[ j ] = T( c.rng.r( -9, 9 )); f.setup( q[ 0 ], q[ 1 ], q[ 2 ], q[ 3 ], q[ 4 ], q[ 5 ], q[ 6 ], q[ 7 ] ); SAW( "saw-culler-reused-after-corners" ); }
            if( c.rng.b( )) { const V4 s( T( 1 ), T( 2 ), T( 3 ), T( .5 )); (void)f.test_sphere( s ); }
        }
    }
    // axis-parallel power-of-two volumes among small integers: every plane and distance is exact, so touching counts
    static void exact( Ctx& c )
    {
        // signed axis permutation: row i of the matrix looks along g[i] times axis a[i]; far is where row 2 gives +1
        int a[ 3 ] = { 0, 1, 2 }, g3[ 3 ] = { 1, 1, -1 }; turn( c, a, g3 );
        const int s = c.rng.b() ? 0 : sizeof( T ) > 8 && c.rng.b() ? c.rng.i( 50, 55 ) : c.rng.i( 1, sizeof( T ) == 4 ? 16 : sizeof( T ) == 8 ? 45 : 55 ); // objects on a lattice of 2^-s, small against the volume
        if( s ) SAW( "saw-fine-lattice" ); const long one = 1l << s;
        long L[ 3 ], t[ 3 ], q[ 3 ], h[ 3 ], lo[ 6 ], hi[ 6 ]; X m; m = T( 0 ); m( 3, 3 ) = T( 1 );
        const auto F = [&]( long v ) { return T( ldexpl( v, -s )); };
        if( s > 45 ) SAW( "saw-lattice-beyond-double" );
        for( int i = 0; i < 3; ++i ) { L[ i ] = one << c.rng.i( 0, 5 ); t[ i ] = c.rng.one( 3 ) ? 0 : one * c.rng.i( -9, 9 ); if( c.rng.one( 3 )) { t[ i ] = c.rng.b() ? L[ i ] : -L[ i ]; SAW( "saw-face-through-origin" ); } }
        for( int i = 0; i < 3; ++i ) { m( i, a[ i ] ) = T( g3[ i ] ) / F( L[ a[ i ]] ); m( i, 3 ) = -T( g3[ i ] ) * F( t[ a[ i ]] ) / F( L[ a[ i ]] ); } // |x - t| <= L
        V3 k[ 8 ]; for( int i = 0; i < 8; ++i ) for( int j = 0; j < 3; ++j ) { const bool plus = j == 1 ? !( i & 2 ) : i & ( 1 << j ); k[ i ].array[ a[ j ]] = F( t[ a[ j ]] + ( plus ? g3[ j ] : -g3[ j ] ) * L[ a[ j ]] ); }
        FrustumCuller< T > fm, fc; earlier( c, fm, k, m ); earlier( c, fc, k, m ); fm.setup( m ); fc.setup( k[ 0 ], k[ 1 ], k[ 2 ], k[ 3 ], k[ 4 ], k[ 5 ], k[ 6 ], k[ 7 ] );
        for( int i = 0; i < 3; ++i ) { c.in( L[ i ] ); c.in( t[ i ] ); c.in( a[ i ] * g3[ i ] ); }
        for( int n = 0; n < 8; ++n )
        {
            const auto fine = [&]( int b ) { return s && c.rng.b() ? c.rng.i( -b, b ) : 0; };
            const bool ball = c.rng.b(); const long r = std::labs( one * c.rng.i( 0, 8 ) + fine( 2 ));
            for( int i = 0; i < 3; ++i )
            {
                h[ i ] = ball ? r : std::labs( one * c.rng.i( 0, 8 ) + fine( 2 ));
                switch( c.rng.u( 4 )) // touching from inside, from outside, near a face, anywhere
                { case 0: q[ i ] = t[ i ] + ( c.rng.b() ? 1 : -1 ) * ( L[ i ] - h[ i ] ) + fine( 2 ); break; case 1: q[ i ] = c.rng.one( 3 ) ? t[ i ] + ( c.rng.b() ? 1 : -1 ) * ( L[ i ] + h[ i ] ) + fine( 2 ) : t[ i ]; break;
                  case 2: q[ i ] = t[ i ] + ( c.rng.b() ? L[ i ] : -L[ i ] ) + one * c.rng.i( -2, 2 ) + fine( 2 ); break; default: q[ i ] = t[ i ] + one * c.rng.i( -int( L[ i ] / one ), int( L[ i ] / one )) + fine( 3 ); }
                lo[ 2 * i ] = q[ i ] - h[ i ] - ( t[ i ] - L[ i ] ); hi[ 2 * i ] = q[ i ] + h[ i ] - ( t[ i ] - L[ i ] );
                lo[ 2 * i + 1 ] = t[ i ] + L[ i ] - q[ i ] - h[ i ]; hi[ 2 * i + 1 ] = t[ i ] + L[ i ] - q[ i ] + h[ i ];
                c.in( q[ i ] ); c.in( h[ i ] );
            }
            bool full = true, none = false, touch = false; for( int i = 0; i < 6; ++i ) { full &= lo[ i ] >= 0; none |= hi[ i ] < 0; touch |= hi[ i ] == 0; if( lo[ i ] < 0 && lo[ i ] >= -2 && s > 8 ) SAW( "saw-barely-outside" ); }
            __int128 d2 = 0; bool in = true; for( int i = 0; i < 3; ++i ) { const long over = std::max( 0l, std::labs( q[ i ] - t[ i ] ) - L[ i ] ); d2 += __int128( over ) * over; in &= ball || std::labs( q[ i ] - t[ i ] ) < L[ i ] + h[ i ]; }
            if( ball ) in = d2 < __int128( r ) * r || ( d2 == 0 && r == 0 && !touch );
            const V2 x( F( q[ 0 ] - h[ 0 ] ), F( q[ 0 ] + h[ 0 ] )), y( F( q[ 1 ] + h[ 1 ] ), F( q[ 1 ] - h[ 1 ] )), z( F( q[ 2 ] - h[ 2 ] ), F( q[ 2 ] + h[ 2 ] ));
            const V4 ball_( F( q[ 0 ] ), F( q[ 1 ] ), F( q[ 2 ] ), F( r ));
            for( int w = 0; w < 2; ++w )
            {
                const FrustumCuller< T >& f = w ? fc : fm; const vmml::Visibility g = ball ? f.test_sphere( ball_ ) : f.test_aabb( x, y, z );
                const std::string obj = vt::str( "unit 2^-", s, ball ? "sphere" : "box", w ? "corners" : "matrix", nm( g ), "centre", q[ 0 ], q[ 1 ], q[ 2 ], "half", h[ 0 ], h[ 1 ], h[ 2 ], "volume", t[ 0 ], t[ 1 ], t[ 2 ], "+-", L[ 0 ], L[ 1 ], L[ 2 ] );
                if( none ) { CHECK( "exact-beyond-a-plane-is-invisible", g == vmml::VISIBILITY_NONE, obj ); SAW( "saw-exact-none" ); }
                if( !full ) CHECK( "exact-outside-part-is-not-full", g != vmml::VISIBILITY_FULL, obj );
                if( full && !touch ) { CHECK( "exact-contained-is-full", g == vmml::VISIBILITY_FULL, obj ); SAW( "saw-exact-full" ); for( int i = 0; i < 6; ++i ) if( lo[ i ] == 0 ) SAW( "saw-exact-full-touching" ); }
                if( in ) { CHECK( "exact-visible-never-hidden", g != vmml::VISIBILITY_NONE, obj ); SAW( "saw-exact-visible" ); }
            }
        }
    }
    // a factor that makes one plane's normal as given almost, but not quite, of unit length
    static ld near_unit( Ctx& c, const Volume& v )
    {
        Matrix< 4, 4, ld > m; A< ld >::matrix( reinterpret_cast< const typename A< ld >::Volume& >( v ), m, 1 ); const int i = c.rng.i( 0, 5 ); ld n2 = 0;
        for( int k = 0; k < 3; ++k ) { const ld a = m( 3, k ) + ( i % 2 ? -1 : 1 ) * m( i / 2, k ); n2 += a * a; }
        SAW( "saw-plane-of-nearly-unit-length" ); return ( 1 + ( c.rng.b() ? 1 : -1 ) * powl( 10, -c.rng.r( 1, 6 ))) / sqrtl( n2 );
    }
    static void run( Ctx& c )
    {
        const Volume v = make( c ); Plane pm[ 6 ], pc[ 6 ]; planes( v, pm ); planes( v, pc );
        X m; ld S = 1; if( c.rng.one( 3 )) { S = powl( 10, c.rng.r( -5, 5 )); SAW( "saw-matrix-scaled" );
            if( c.rng.b( )) S = near_unit( c, v ); } // homogeneous: any positive multiple is the same projection
        matrix( v, m, S ); matrix_errors( m, pm ); corner_errors( v, pc );
        V3 k[ 8 ]; for( int i = 0; i < 8; ++i ) { k[ i ] = V3( T( v.corner[ i ].x ), T( v.corner[ i ].y ), T( v.corner[ i ].z )); for( int j = 0; j < 3; ++j ) c.in( k[ i ].array[ j ] ); }
        vt::Canary< FrustumCuller< T > > cm, cc; const X m0( m );
        earlier( c, cm.v, k, m ); earlier( c, cc.v, k, m );
        cm.v.setup( m ); cc.v.setup( k[ 0 ], k[ 1 ], k[ 2 ], k[ 3 ], k[ 4 ], k[ 5 ], k[ 6 ], k[ 7 ] );
        CHECK( "setup-keeps-matrix", vt::memdiff( m.array, m0.array, sizeof m.array ) == 0, "" );
        const FrustumCuller< T >& fm = cm.v; const FrustumCuller< T >& fc = cc.v;
        const ld size = len( v.corner[ 7 ] - v.corner[ 0 ] );
        for( int n = 0; n < 10; ++n )
        {
            ld r = size * powl( 10, -c.rng.r( 0, 3.5 )); if( c.rng.one( 8 )) r = size * c.rng.r( 1, 5 ); if( c.rng.one( 12 )) { r = 0; SAW( "saw-point-object" ); }
            const P3 q0 = place( c, v, pm, r > 0 ? r : size * .01L );
            {
                const V4 s( T( q0.x ), T( q0.y ), T( q0.z ), T( r )); const P3 q{ s.array[ 0 ], s.array[ 1 ], s.array[ 2 ] }; const ld R = s.array[ 3 ];
                for( int i = 0; i < 4; ++i ) c.in( s.array[ i ] );
                ld lo[ 6 ], hi[ 6 ], e1[ 6 ], e2[ 6 ]; for( int i = 0; i < 6; ++i ) { const ld d = dist( pm[ i ], q ); lo[ i ] = d - R; hi[ i ] = d + R; e1[ i ] = err( pm[ i ], q, R ); e2[ i ] = err( pc[ i ], q, R ); }
                const auto onto = [&]( P3 x ) { const P3 w = x - q; const ld l = len( w ); return l > R ? q + ( R / l ) * w : x; };
                const vmml::Visibility a = fm.test_sphere( s ), b = fc.test_sphere( s );
                const int ta = judge( c, "sphere", a, lo, hi, e1, false, vt::show( s ), pm, q, onto ), tb = judge( c, "sphere", b, lo, hi, e2, true, vt::show( s ), pm, q, onto );
                if( ta >= 0 && tb >= 0 ) CHECK( "set-ups-agree", a == b, nm( a ), nm( b ), vt::show( s ));
                visible( c, "sphere", v, pm, pc, q, a, b, [&]( Ctx& g ) { P3 d{ g.rng.r( -1, 1 ), g.rng.r( -1, 1 ), g.rng.r( -1, 1 ) }; const ld l = len( d ); return l > 1e-3L ? q + ( R * ld( g.rng.d( )) / l ) * d : q; } );
            }
            {
                const ld h[ 3 ] = { r * c.rng.r( 0, 2 ), r * c.rng.r( 0, 2 ), r * c.rng.r( 0, 2 ) }; const ld o[ 3 ] = { q0.x, q0.y, q0.z };
                V2 x[ 3 ]; ld lo3[ 3 ], hi3[ 3 ]; const bool swap = c.rng.b(); if( swap ) SAW( "saw-swapped-limits" );
                for( int i = 0; i < 3; ++i )
                {
                    const T a = T( o[ i ] - h[ i ] ), b = T( o[ i ] + h[ i ] ); const bool s = swap && c.rng.b();
                    x[ i ] = s ? V2( b, a ) : V2( a, b ); lo3[ i ] = std::min( ld( a ), ld( b )); hi3[ i ] = std::max( ld( a ), ld( b )); c.in( a ); c.in( b );
                }
                const P3 mid{ ( lo3[ 0 ] + hi3[ 0 ] ) / 2, ( lo3[ 1 ] + hi3[ 1 ] ) / 2, ( lo3[ 2 ] + hi3[ 2 ] ) / 2 }; const ld ext = ( hi3[ 0 ] - lo3[ 0 ] + hi3[ 1 ] - lo3[ 1 ] + hi3[ 2 ] - lo3[ 2 ] ) / 2;
                ld lo[ 6 ], hi[ 6 ], e1[ 6 ], e2[ 6 ];
                for( int i = 0; i < 6; ++i )
                {
                    lo[ i ] = 1e300L; hi[ i ] = -1e300L;
                    for( int b = 0; b < 8; ++b ) { const ld d = dist( pm[ i ], P3{ b & 1 ? hi3[ 0 ] : lo3[ 0 ], b & 2 ? hi3[ 1 ] : lo3[ 1 ], b & 4 ? hi3[ 2 ] : lo3[ 2 ] } ); lo[ i ] = std::min( lo[ i ], d ); hi[ i ] = std::max( hi[ i ], d ); }
                    e1[ i ] = err( pm[ i ], mid, ext ) + pm[ i ].en * ext; e2[ i ] = err( pc[ i ], mid, ext ) + pc[ i ].en * ext;
                }
                const std::string obj = vt::show( x[ 0 ] ) + vt::show( x[ 1 ] ) + vt::show( x[ 2 ] );
                const auto onto = [&]( P3 x ) { return P3{ std::min( std::max( x.x, lo3[ 0 ] ), hi3[ 0 ] ), std::min( std::max( x.y, lo3[ 1 ] ), hi3[ 1 ] ), std::min( std::max( x.z, lo3[ 2 ] ), hi3[ 2 ] ) }; };
                const vmml::Visibility a = fm.test_aabb( x[ 0 ], x[ 1 ], x[ 2 ] ), b = fc.test_aabb( x[ 0 ], x[ 1 ], x[ 2 ] );
                const int ta = judge( c, "box", a, lo, hi, e1, false, obj, pm, mid, onto ), tb = judge( c, "box", b, lo, hi, e2, true, obj, pm, mid, onto );
                if( ta >= 0 && tb >= 0 ) CHECK( "set-ups-agree", a == b, nm( a ), nm( b ), obj );
                visible( c, "box", v, pm, pc, mid, a, b, [&]( Ctx& g ) { return P3{ lo3[ 0 ] + ( hi3[ 0 ] - lo3[ 0 ] ) * g.rng.d(), lo3[ 1 ] + ( hi3[ 1 ] - lo3[ 1 ] ) * g.rng.d(), lo3[ 2 ] + ( hi3[ 2 ] - lo3[ 2 ] ) * g.rng.d() }; } );
            }
        }
        CHECK( "no-stray-write", cm.ok() && cc.ok(), "" );
    }
    // sampled points of the object, decided in view space and not by planes
    template< class S > static void visible( Ctx& c, const char* what, const Volume& v, const Plane* pm, const Plane* pc, P3, vmml::Visibility a, vmml::Visibility b, S sample )
    {
        for( int k = 0; k < 6; ++k )
        {
            const P3 q = sample( c ), w = q - v.eye; const ld X_ = dot( w, v.x ), Y_ = dot( w, v.y ), D = -dot( w, v.z ), s = v.ortho ? 1 : D / v.n;
            ld ea = 0, eb = 0; for( int i = 0; i < 6; ++i ) { ea = std::max( ea, err( pm[ i ], q, 0 )); eb = std::max( eb, err( pc[ i ], q, 0 )); }
            const ld in = std::min( std::min( std::min( X_ - s * v.l, s * v.r - X_ ), std::min( Y_ - s * v.b, s * v.t - Y_ )), std::min( D - v.n, v.f - D ));
            // a margin in view space is at most the slope of a side plane times its distance
            const ld g = 1 + ( v.ortho ? 0 : std::max( std::max( fabsl( v.l ), fabsl( v.r )), std::max( fabsl( v.b ), fabsl( v.t ))) / v.n );
            if( in > 2 * g * ea ) { CHECK( "visible-point-never-hidden", a != vmml::VISIBILITY_NONE, what, "matrix", q.x, q.y, q.z, in ); SAW( "saw-visible-sample" ); }
            if( in > 2 * g * eb ) CHECK( "visible-point-never-hidden", b != vmml::VISIBILITY_NONE, what, "corners", q.x, q.y, q.z, in );
            if( in < -2 * g * ea ) CHECK( "point-of-fully-visible-is-inside", a != vmml::VISIBILITY_FULL, what, "matrix", q.x, q.y, q.z, in );
            if( in < -2 * g * eb ) CHECK( "point-of-fully-visible-is-inside", b != vmml::VISIBILITY_FULL, what, "corners", q.x, q.y, q.z, in );
        }
    }
};
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { if( c.rng.one( 5 )) { if( c.rng.one( 3 )) A< long double >::exact( c ); else if( c.rng.b( )) A< float >::exact( c ); else A< double >::exact( c ); } else if( c.rng.one( 6 )) A< long double >::run( c ); else if( c.rng.one( 3 )) A< float >::run( c ); else A< double >::run( c ); }
