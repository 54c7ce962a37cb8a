// C14: quaternions and rotation matrices convert into each other faithfully
#include "common.hpp"
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
using vmml::Quaternion; using vmml::Vector; using vmml::Matrix;

struct H { ld x, y, z, w; };
static H mul( const H& p, const H& q )
{
    return H{ p.w * q.x + p.x * q.w + p.y * q.z - p.z * q.y, p.w * q.y - p.x * q.z + p.y * q.w + p.z * q.x,
              p.w * q.z + p.x * q.y - p.y * q.x + p.z * q.w, p.w * q.w - p.x * q.x - p.y * q.y - p.z * q.z };
}
static void turn( const H& q, const ld* v, ld* o ) // q v q*
{ const H r = mul( mul( q, H{ v[ 0 ], v[ 1 ], v[ 2 ], 0 } ), H{ -q.x, -q.y, -q.z, q.w } ); o[ 0 ] = r.x; o[ 1 ] = r.y; o[ 2 ] = r.z; }
static void to_matrix( const H& q, ld* m ) // row-major, columns are images of the axes
{ for( int j = 0; j < 3; ++j ) { ld e[ 3 ] = { 0, 0, 0 }, o[ 3 ]; e[ j ] = 1; turn( q, e, o ); for( int i = 0; i < 3; ++i ) m[ i * 3 + j ] = o[ i ]; } }

static void unit( Ctx& c, ld* a ) // rotation axis
{
    ld n = 0;
    switch( c.rng.u( 7 ))
    {
    case 4: { const int k = c.rng.i( 0, 2 ); const ld tiny = powl( 10, -c.rng.r( .3, 6 )), skew = c.rng.b() ? 0 : tiny * c.rng.r( -.3, .3 ); int f = 0; for( int i = 0; i < 3; ++i ) a[ i ] = ( c.rng.b() ? 1 : -1 ) * ( i == k ? tiny : f++ ? 1 + skew : 1 ); SAW( "saw-near-plane-diagonal" ); break; }
    case 0: { const int k = c.rng.i( 0, 2 ); for( int i = 0; i < 3; ++i ) a[ i ] = i == k ? ( c.rng.b() ? 1 : -1 ) : 0; SAW( "saw-main-axis" ); break; }
    case 1: { const int k = c.rng.i( 0, 2 ); for( int i = 0; i < 3; ++i ) a[ i ] = i == k ? 0 : c.rng.r( -1, 1 ); SAW( "saw-axis-in-plane" ); break; }
    case 2: { for( int i = 0; i < 3; ++i ) a[ i ] = c.rng.b() ? 1 : -1; SAW( "saw-diagonal-axis" ); break; }
    case 3: { const int k = c.rng.i( 0, 2 ); for( int i = 0; i < 3; ++i ) a[ i ] = i == k ? 1 : c.rng.r( -1, 1 ) * 1e-4; SAW( "saw-near-main-axis" ); break; }
    default: for( int i = 0; i < 3; ++i ) a[ i ] = c.rng.r( -1, 1 );
    }
    for( int i = 0; i < 3; ++i ) n += a[ i ] * a[ i ];
    n = sqrtl( n ); if( n < 1e-9L ) { a[ 0 ] = n = 1; a[ 1 ] = a[ 2 ] = 0; }
    for( int i = 0; i < 3; ++i ) { a[ i ] /= n; c.in( a[ i ] ); }
}
static ld angle( Ctx& c )
{
    const ld pi = 3.14159265358979323846264338327950288L; ld t;
    switch( c.rng.u( 7 ))
    {
    case 0: t = pi; SAW( "saw-180-degrees" ); break;
    case 1: t = pi + ( c.rng.b() ? 1 : -1 ) * powl( 10, -c.rng.r( 0, 9 )); SAW( "saw-near-180" ); break;
    case 2: t = pi / 2 * c.rng.i( -4, 4 ); SAW( "saw-right-angle" ); break;
    case 3: t = ( c.rng.b() ? 1 : -1 ) * powl( 10, -c.rng.r( 0, 9 )); SAW( "saw-tiny-angle" ); break;
    case 4: t = 2 * pi / 3 * c.rng.i( -2, 2 ); break;
    case 5: t = 0; SAW( "saw-identity" ); break;
    default: t = c.rng.r( -7, 7 );
    }
    c.in( t ); return t;
}

template< class T > struct A
{
    typedef Quaternion< T > Q; typedef Vector< 3, T > V3;
    static H h( const Q& q ) { return H{ q.array[ 0 ], q.array[ 1 ], q.array[ 2 ], q.array[ 3 ] }; }
    static std::string sh( const Q& q ) { return vt::str( q.array[ 0 ], q.array[ 1 ], q.array[ 2 ], q.array[ 3 ] ); }
    static H rot( Ctx& c, ld* a, ld& t )
    { unit( c, a ); t = angle( c ); const ld s = sinl( t / 2 ); return H{ a[ 0 ] * s, a[ 1 ] * s, a[ 2 ] * s, cosl( t / 2 ) }; }

    template< size_t D > static void from_matrix( Ctx& c, const H& r )
    {
        ld m[ 9 ]; to_matrix( r, m );
        vt::Canary< Matrix< D, D, T > > cm; Matrix< D, D, T >& M = cm.v;
        for( size_t i = 0; i < D * D; ++i ) M.array[ i ] = T( 7 + i ); // only the upper left 3x3 counts
        for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) M( i, j ) = T( m[ i * 3 + j ] );
        const Matrix< D, D, T > M0( M );
        const ld tr = fabsl( m[ 0 ] + m[ 4 ] + m[ 8 ] + 1 );
        const ld tol = 40 * vt::eps< T >();
        const Q q( M ); Q s; for( int i = 0; i < 4; ++i ) s.array[ i ] = T( c.rng.r( -2, 2 )); s.template set< D >( M ); // whatever it held before
        bool eq = true, op = true; // the same rotation, either of its two quaternions
        for( int i = 0; i < 4; ++i ) { eq &= fabsl( ld( q.array[ i ] ) - s.array[ i ] ) <= 2 * tol; op &= fabsl( ld( q.array[ i ] ) + s.array[ i ] ) <= 2 * tol; }
        CHECK( "matrix-constructor-equals-set", eq || op, sh( q ), sh( s ));
        const H g = h( q );
        const ld n = sqrtl( g.x * g.x + g.y * g.y + g.z * g.z + g.w * g.w );
        CHECK( "matrix-to-unit-quaternion", fabsl( n - 1 ) <= tol, D, n, sh( q ), vt::show( M ), "trace+1", tr );
        const ld d = fabsl( g.x * r.x + g.y * r.y + g.z * r.z + g.w * r.w );
        ld b[ 9 ], worst = 0; to_matrix( g, b ); for( int i = 0; i < 9; ++i ) worst = std::max( worst, fabsl( b[ i ] - m[ i ] ));
        CHECK( "matrix-to-same-rotation", worst <= 4 * tol && d > 0.99L, D, "worst", worst, "tol", 4 * tol, sh( q ), r.x, r.y, r.z, r.w );
        CHECK( "matrix-operand-unchanged", vt::memdiff( M.array, M0.array, sizeof M.array ) == 0 && cm.ok(), "" );
        if( tr < 0.1L ) SAW( "saw-largest-diagonal-form" ); else SAW( "saw-trace-form" );
        if( m[ 0 ] > m[ 4 ] && m[ 0 ] > m[ 8 ] ) SAW( "saw-x-dominant" ); else if( m[ 4 ] > m[ 8 ] ) SAW( "saw-y-dominant" ); else SAW( "saw-z-dominant" );
    }
    template< size_t D > static void to( Ctx& c, const Q& q )
    {
        vt::Canary< Matrix< D, D, T > > cm; Matrix< D, D, T >& M = cm.v; fill( c, M ); const Matrix< D, D, T > old( M );
        q.get_rotation_matrix( M ); ld m[ 9 ]; to_matrix( h( q ), m ); bool ok = cm.ok();
        for( size_t i = 0; i < D; ++i ) for( size_t j = 0; j < D; ++j )
            ok &= i < 3 && j < 3 ? near( M( i, j ), m[ i * 3 + j ], 1, 24 ) : vt::same( M( i, j ), old( i, j ));
        CHECK( "get_rotation_matrix-in-place", ok, D, sh( q ), vt::show( M ), vt::show( old ));
    }
    static void run( Ctx& c )
    {
        ld a[ 3 ], t, a2[ 3 ], t2; const H r = rot( c, a, t ), r2 = rot( c, a2, t2 );
        // quaternion to matrix
        const Q q( T( r.x ), T( r.y ), T( r.z ), T( r.w )), p( T( r2.x ), T( r2.y ), T( r2.z ), T( r2.w )); const Q q0( q );
        const Matrix< 3, 3, T > R = q.get_rotation_matrix(), P = p.get_rotation_matrix();
        ld m[ 9 ]; to_matrix( h( q ), m ); bool ok = true, orth = true;
        for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j )
        {
            ok &= near( R( i, j ), m[ i * 3 + j ], 1, 24 );
            ld d = 0; for( int k = 0; k < 3; ++k ) d += ld( R( k, i )) * ld( R( k, j )); orth &= fabsl( d - ( i == j )) <= 60 * vt::eps< T >();
        }
        CHECK( "matrix-turns-as-quaternion", ok, sh( q ), vt::show( R ));
        const ld det = ld( R( 0, 0 )) * ( ld( R( 1, 1 )) * R( 2, 2 ) - ld( R( 1, 2 )) * R( 2, 1 )) - ld( R( 0, 1 )) * ( ld( R( 1, 0 )) * R( 2, 2 ) - ld( R( 1, 2 )) * R( 2, 0 ))
                     + ld( R( 0, 2 )) * ( ld( R( 1, 0 )) * R( 2, 1 ) - ld( R( 1, 1 )) * R( 2, 0 ));
        CHECK( "proper-rotation", orth && fabsl( det - 1 ) <= 60 * vt::eps< T >(), sh( q ), det, vt::show( R ));
        to< 3 >( c, q ); to< 4 >( c, q ); if( c.rng.one( 3 )) to< 5 >( c, q );
        // matrices of products
        const Matrix< 3, 3, T > S = ( p * q ).get_rotation_matrix(); ok = true;
        for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j )
        { ld d = 0; for( int k = 0; k < 3; ++k ) d += ld( P( i, k )) * ld( R( k, j )); ok &= fabsl( ld( S( i, j )) - d ) <= 120 * vt::eps< T >(); }
        CHECK( "matrix-of-product", ok, sh( p ), sh( q ), vt::show( S ));
        // matrix to quaternion
        const H exact = h( q ); const ld n = sqrtl( exact.x * exact.x + exact.y * exact.y + exact.z * exact.z + exact.w * exact.w );
        const H u = H{ exact.x / n, exact.y / n, exact.z / n, exact.w / n };
        from_matrix< 3 >( c, u ); from_matrix< 4 >( c, u ); if( c.rng.one( 3 )) from_matrix< 5 >( c, u );
        // rotate helpers turn a vector as the matrix does
        V3 v( T( c.rng.r( -5, 5 )), T( c.rng.r( -5, 5 )), T( c.rng.r( -5, 5 ))); for( int i = 0; i < 3; ++i ) c.in( v.array[ i ] );
        const V3 v0( v ); const ld vv[ 3 ] = { v.array[ 0 ], v.array[ 1 ], v.array[ 2 ] }; const T th = T( t );
        const ld vn = sqrtl( vv[ 0 ] * vv[ 0 ] + vv[ 1 ] * vv[ 1 ] + vv[ 2 ] * vv[ 2 ] );
        for( int k = 0; k < 4; ++k )
        {
            Q tool( p ); ld o[ 3 ]; Q got; H e; const ld s = sinl( ld( th ) / 2 ), w = cosl( ld( th ) / 2 );
            if( k == 3 )
            {
                const T l = T( c.rng.b() ? 1 : c.rng.r( .1, 9 )); V3 axis( T( a[ 0 ] ) * l, T( a[ 1 ] ) * l, T( a[ 2 ] ) * l ); const ld al = sqrtl( ld( axis.array[ 0 ] ) * axis.array[ 0 ] + ld( axis.array[ 1 ] ) * axis.array[ 1 ] + ld( axis.array[ 2 ] ) * axis.array[ 2 ] );
                e = H{ axis.array[ 0 ] / al * s, axis.array[ 1 ] / al * s, axis.array[ 2 ] / al * s, w };
                got = tool.rotate( th, axis, v );
            }
            else { e = H{ k == 0 ? s : 0, k == 1 ? s : 0, k == 2 ? s : 0, w }; got = k == 0 ? tool.rotate_x( th, v ) : k == 1 ? tool.rotate_y( th, v ) : tool.rotate_z( th, v ); }
            turn( e, vv, o ); const ld tol = 80 * vt::eps< T >() * vn * ( 1 + fabsl( t ));
            CHECK( "rotate-helper", fabsl( got.array[ 0 ] - o[ 0 ] ) <= tol && fabsl( got.array[ 1 ] - o[ 1 ] ) <= tol && fabsl( got.array[ 2 ] - o[ 2 ] ) <= tol && fabsl( got.array[ 3 ] ) <= tol,
                   "helper", k, th, vt::show( v ), sh( got ), o[ 0 ], o[ 1 ], o[ 2 ] );
            CHECK( "rotate-helper-keeps-operands", vt::memdiff( v.array, v0.array, sizeof v.array ) == 0 && vt::memdiff( tool.array, p.array, sizeof p.array ) == 0, "" );
        }
        CHECK( "operand-unchanged", vt::memdiff( q.array, q0.array, sizeof q.array ) == 0, "" );
    }
};
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { const size_t k = c.rng.u( 5 ); c.in( k ); if( k < 2 ) A< float >::run( c ); else if( k < 4 ) A< double >::run( c ); else A< long double >::run( c ); }
