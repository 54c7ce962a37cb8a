// C05: vector geometry
#include "common.hpp"
#include <vmmlib/vector.hpp>
using vmml::Vector;

struct L3 { ld x, y, z; };
static L3 mk( ld x, ld y, ld z ) { L3 r = { x, y, z }; return r; }
template< class V > static L3 l3( const V& v ) { return mk( v.array[ 0 ], v.array[ 1 ], v.array[ 2 ] ); }
static L3 sub( L3 a, L3 b ) { return mk( a.x - b.x, a.y - b.y, a.z - b.z ); }
static L3 add( L3 a, L3 b ) { return mk( a.x + b.x, a.y + b.y, a.z + b.z ); }
static L3 mul( L3 a, ld s ) { return mk( a.x * s, a.y * s, a.z * s ); }
static L3 crs( L3 a, L3 b ) { return mk( a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x ); }
static ld dt( L3 a, L3 b ) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static ld len( L3 a ) { return sqrtl( dt( a, a )); }
static ld mx( L3 a ) { return std::max( fabsl( a.x ), std::max( fabsl( a.y ), fabsl( a.z ))); }
static std::string sh( L3 a ) { return vt::str( "(", a.x, a.y, a.z, ")" ); }
template< class V > static bool near3( const V& v, L3 r, ld scale, double k )
{ return near( v.array[ 0 ], r.x, scale, k ) && near( v.array[ 1 ], r.y, scale, k ) && near( v.array[ 2 ], r.z, scale, k ); }

template< size_t M, class T > struct N // any dimension
{
    typedef Vector< M, T > V;
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); vt::pick_wide< T >( c, 5, 2 );
        vt::Canary< V > ca; V& a = ca.v; V b; fill( c, a ); fill( c, b );
        if( c.rng.one( 12 )) { a.set( T( 0 )); SAW( "saw-zero-vector" ); }
        if( c.rng.one( 8 )) b = a * T( 2 );
        ld d = 0, ds = 0, s = 0, q = 0;
        for( size_t i = 0; i < M; ++i )
        {
            const ld x = a.array[ i ], y = b.array[ i ];
            d += x * y; ds += fabsl( x * y ); s += x * x; q += ( x - y ) * ( x - y );
        }
        const double k = 6 + 2 * M;
        CHECK( "dot", value( a.dot( b ), d, ds, k ), a.dot( b ), d, vt::show( a ), vt::show( b ));
        CHECK( "dot-free", value( vmml::dot( b, a ), d, ds, k ), vmml::dot( b, a ), d );
        CHECK( "squared_length", value( a.squared_length(), s, s, k ), a.squared_length(), s, vt::show( a ));
        CHECK( "squared_distance", value( a.squared_distance( b ), q, q, k ), a.squared_distance( b ), q, vt::show( a ), vt::show( b ));
        norm( c, a );
        if( c.rng.one( 3 )) // the whole range of T: the result is a double
        {
            V h;
            for( size_t i = 0; i < M; ++i ) { h.array[ i ] = c.rng.one( 4 ) ? T( 0 ) : huge( c, std::is_floating_point< T >( )); c.in( h.array[ i ] ); }
            norm( c, h ); SAW( "saw-whole-range" );
        }
        real( c, a, b, s, q, k, std::integral_constant< bool, std::is_floating_point< T >::value >( ));
        CHECK( "no-stray-write", ca.ok(), "" );
    }
    static bool value( T got, ld ref, ld scale, double k )
    { return std::is_floating_point< T >::value ? near( got, ref, scale, k ) : got == T( int64_t( ref )); } // integer results are modular
    static T huge( Ctx& c, std::true_type )
    { return T(( c.rng.b() ? 1 : -1 ) * ldexpl( c.rng.r( .5, 1 ), c.rng.i( std::max( -500, std::numeric_limits< T >::min_exponent ), std::min( 500, std::numeric_limits< T >::max_exponent )))); }
    static T huge( Ctx& c, std::false_type ) { return T( c.rng.next( )) >> c.rng.u( 8 * sizeof( T ) - 2 ); }
    static void norm( Ctx& c, const V& a )
    {
        ld s = 0; for( size_t i = 0; i < M; ++i ) s += ld( a.array[ i ] ) * a.array[ i ];
        CHECK( "norm", fabsl( ld( a.norm( )) - sqrtl( s )) <= ( 4 + M ) * std::max( vt::eps< T >(), vt::eps< double >( )) * sqrtl( s ), a.norm(), sqrtl( s ), vt::show( a ));
    }
    static void real( Ctx&, V&, V&, ld, ld, double, std::false_type ) {}
    static void real( Ctx& c, V& a, V& b, ld s, ld q, double k, std::true_type )
    {
        const ld n = sqrtl( s );
        CHECK( "length", near( a.length(), n, n, k ), a.length(), n, vt::show( a ));
        CHECK( "distance", near( a.distance( b ), sqrtl( q ), sqrtl( q ), k ), a.distance( b ), sqrtl( q ));
        CHECK( "distance-symmetric", near( b.distance( a ), sqrtl( q ), sqrtl( q ), k ), b.distance( a ), sqrtl( q ));
        const V a0( a );
        const V f = vmml::normalize( a );
        CHECK( "normalize-free-keeps-argument", vt::show( a ) == vt::show( a0 ), vt::show( a ));
        const T r = a.normalize();
        CHECK( "normalize-returns-length", near( r, n, n, k ), r, n );
        if( s == 0 )
        {
            CHECK( "normalize-zero", r == 0 && a == a0 && f == a0, r, vt::show( a ));
            return;
        }
        bool ok = true, okf = true;
        for( size_t i = 0; i < M; ++i )
        {
            ok &= near( a.array[ i ], ld( a0.array[ i ] ) / n, fabsl( ld( a0.array[ i ] ) / n ), k );
            okf &= near( f.array[ i ], ld( a0.array[ i ] ) / n, fabsl( ld( a0.array[ i ] ) / n ), k );
        }
        CHECK( "normalize-direction", ok, vt::show( a0 ), vt::show( a ));
        CHECK( "normalize-free", okf, vt::show( a0 ), vt::show( f ));
    }
};

template< class T > struct D3
{
    typedef Vector< 3, T > V; typedef Vector< 4, T > V4;
    static V rnd( Ctx& c ) { V v; fill( c, v ); return v; }
    static V axis( Ctx& c )
    {
        V v;
        if( c.rng.one( 4 )) { v.set( T( 0 )); v.array[ c.rng.u( 3 ) ] = c.rng.b() ? T( 1 ) : T( -1 ); }
        else v = rnd( c );
        if( !( len( l3( v )) > 1e-5L )) v.set( T( 1 ), T( 2 ), T( -3 ));
        return v;
    }
    static T angle( Ctx& c )
    {
        T a;
        switch( c.rng.u( 5 ))
        {
        case 0: a = T( c.rng.i( -8, 8 ) * M_PI / 4 ); break;
        case 1: a = T( c.rng.r( -1e-3, 1e-3 )); break;
        case 2: a = T( c.rng.r( -100, 100 )); break;
        default: a = T( c.rng.r( -M_PI, M_PI ));
        }
        c.in( a ); return a;
    }
    static void cross( Ctx& c )
    {
        const V a = rnd( c ); V b = rnd( c );
        if( c.rng.one( 6 )) b = a * T( -2 );
        const L3 A = l3( a ), B = l3( b ), r = crs( A, B );
        const V g = a.cross( b ); V m; m.cross( a, b ); const V f = vmml::cross< 3 >( a, b );
        const ld sx = fabsl( A.y * B.z ) + fabsl( A.z * B.y ), sy = fabsl( A.z * B.x ) + fabsl( A.x * B.z ), sz = fabsl( A.x * B.y ) + fabsl( A.y * B.x );
#define X( v ) ( near( v.array[ 0 ], r.x, sx, 6 ) && near( v.array[ 1 ], r.y, sy, 6 ) && near( v.array[ 2 ], r.z, sz, 6 ))
        CHECK( "cross", X( g ), vt::show( a ), vt::show( b ), vt::show( g ), sh( r ));
        CHECK( "cross-set", X( m ), vt::show( a ), vt::show( b ), vt::show( m ), sh( r ));
        CHECK( "cross-free", X( f ), vt::show( f ), sh( r ));
    }
    static void rotate( Ctx& c )
    {
        const V a = rnd( c ), ax = axis( c ), ax0( ax ); const T th = angle( c );
        const L3 n = mul( l3( ax ), 1 / len( l3( ax ))), v = l3( a );
        const ld co = cosl( th ), si = sinl( th );
        const L3 r = add( add( mul( v, co ), mul( crs( n, v ), si )), mul( n, dt( n, v ) * ( 1 - co )));
        const V g = a.rotate( th, ax );
        CHECK( "rotate", near3( g, r, len( v ), 40 ), vt::show( a ), "axis", vt::show( ax ), "angle", th, "got", vt::show( g ), sh( r ));
        CHECK( "rotate-keeps-operands", ax == ax0 && l3( a ).x == v.x && l3( a ).y == v.y && l3( a ).z == v.z, "" );
    }
    static bool tri( Ctx& c, V& a, V& b, V& d, ld& cond )
    {
        a = rnd( c ); b = rnd( c ); d = rnd( c );
        const L3 u = sub( l3( b ), l3( a )), v = sub( l3( d ), l3( a )), w = sub( l3( d ), l3( b ));
        const ld n = len( crs( u, v ));
        const ld m = std::max( len( u ), std::max( len( v ), len( w )));
        if( !( n > 1e-12L ) || !( n > 0.003L * m * m )) return false;
        cond = m * m / n; return true;
    }
    static void normal( Ctx& c )
    {
        V a, b, d; ld cond;
        if( !tri( c, a, b, d, cond )) { SAW( "saw-degenerate-triangle" ); return; }
        const L3 x = crs( sub( l3( b ), l3( a )), sub( l3( d ), l3( a ))), n = mul( x, 1 / len( x ));
        V g; g.compute_normal( a, b, d ); const V h = a.compute_normal( b, d );
        CHECK( "compute_normal", near3( g, n, cond, 24 ), vt::show( g ), sh( n ));
        CHECK( "compute_normal-value", near3( h, n, cond, 24 ), vt::show( h ), sh( n ));
    }
    static void plane( Ctx& c )
    {
        V a, b, d; ld cond;
        if( !tri( c, a, b, d, cond )) { SAW( "saw-degenerate-triangle" ); return; }
        const V4 p = vmml::compute_plane( a, b, d );
        const L3 x = crs( sub( l3( b ), l3( d )), sub( l3( a ), l3( b ))), n = mul( x, 1 / len( x ));
        CHECK( "plane-normal", near3( p, n, cond, 24 ), vt::show( p ), sh( n ));
        const ld unit = len( l3( p ));
        CHECK( "plane-unit-normal", near( T( unit ), 1.0L, 1, 16 ), unit );
        const ld big = std::max( mx( l3( a )), std::max( mx( l3( b )), mx( l3( d ))));
        const V* pts[] = { &a, &b, &d };
        for( int i = 0; i < 3; ++i )
        {
            const ld dist = dt( l3( p ), l3( *pts[ i ] )) + ld( p.array[ 3 ] );
            CHECK( "plane-through-points", fabsl( dist ) <= 64 * vt::eps< T >() * ( cond + 1 ) * ( big + 1e-30L ), i, dist, vt::show( p ), vt::show( a ), vt::show( b ), vt::show( d ));
        }
        // distance and projection for an arbitrary point
        const V q = rnd( c );
        const ld dist = dt( l3( p ), l3( q )) + ld( p.array[ 3 ] );
        const ld sc = fabsl( p.array[ 0 ] * ld( q.array[ 0 ] )) + fabsl( p.array[ 1 ] * ld( q.array[ 1 ] )) + fabsl( p.array[ 2 ] * ld( q.array[ 2 ] )) + fabsl( p.array[ 3 ] );
        CHECK( "distance_to_plane", near( p.distance_to_plane( q ), dist, sc, 12 ), p.distance_to_plane( q ), dist );
        const V pr = p.project_point_onto_plane( q );
        const L3 e = sub( l3( q ), mul( l3( p ), dist ));
        CHECK( "project_point_onto_plane", near3( pr, e, sc + mx( l3( q )), 24 ), vt::show( pr ), sh( e ));
        V4 any; fill( c, any ); // not normalised: still n.p + w
        const ld da = dt( l3( any ), l3( q )) + ld( any.array[ 3 ] );
        const ld sa = fabsl( any.array[ 0 ] * ld( q.array[ 0 ] )) + fabsl( any.array[ 1 ] * ld( q.array[ 1 ] )) + fabsl( any.array[ 2 ] * ld( q.array[ 2 ] )) + fabsl( any.array[ 3 ] );
        CHECK( "distance_to_plane", near( any.distance_to_plane( q ), da, sa, 12 ), any.distance_to_plane( q ), da );
    }
    static void sphere( Ctx& c )
    {
        V4 s; fill( c, s ); s.array[ 3 ] = std::fabs( s.array[ 3 ] );
        V p = rnd( c );
        if( c.rng.one( 6 )) { for( int i = 0; i < 3; ++i ) p.array[ i ] = s.array[ i ]; p.array[ c.rng.u( 3 ) ] += T( .25 ); }
        const L3 dl = sub( l3( p ), l3( s )); const ld l = len( dl ), r = s.array[ 3 ];
        CHECK( "distance_to_sphere", near( s.distance_to_sphere( p ), l - r, l + r, 16 ), s.distance_to_sphere( p ), l - r, vt::show( s ), vt::show( p ));
        if( l > r * ( 1 + 1e-4L ) + 1e-30L ) { CHECK( "outside-positive", s.distance_to_sphere( p ) > 0, vt::show( s ), vt::show( p )); }
        if( l < r * ( 1 - 1e-4L )) { CHECK( "inside-negative", s.distance_to_sphere( p ) < 0, vt::show( s ), vt::show( p )); }
        if( !( l > 1e-6L )) return;
        const L3 e = add( l3( s ), mul( dl, r / l ));
        const V g = s.project_point_onto_sphere( p );
        CHECK( "project_point_onto_sphere", near3( g, e, r + mx( l3( s )), 24 ), vt::show( g ), sh( e ), vt::show( s ), vt::show( p ));
    }
    static void run( Ctx& c )
    {
        vt::pick_profile( c );
        for( int i = 0; i < 3; ++i ) { cross( c ); rotate( c ); normal( c ); plane( c ); sphere( c ); }
    }
};

void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    typedef void ( *Fn )( Ctx& );
    static const Fn tab[] = { D3< float >::run, D3< double >::run, D3< float >::run, D3< double >::run,
        N< 1, float >::run, N< 2, float >::run, N< 3, float >::run, N< 4, float >::run, N< 7, float >::run,
        N< 2, double >::run, N< 3, double >::run, N< 4, double >::run, N< 16, double >::run, N< 300, float >::run, N< 3, long double >::run,
        N< 3, int >::run, N< 5, int >::run, N< 4, short >::run, N< 6, uint8_t >::run, N< 3, int64_t >::run, D3< long double >::run, N< 4, long double >::run, N< 2, long double >::run };
    const size_t k = c.rng.u( sizeof( tab ) / sizeof( *tab ));
    c.in( int( k ));
    tab[ k ]( c );
}
