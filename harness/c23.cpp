// C23: conversions, constructors, assignments and copies put every value at its place
#include "common.hpp"
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/aabb.hpp>
#include <list>
using vmml::Matrix; using vmml::Vector; using vmml::Quaternion; using vmml::Frustum; using vmml::AABB;

// a value of T that converts to U without leaving U's range
template< class T, class U > static T conv( Ctx& c )
{
    T v = vt::low_bits( c, vt::Gen< T >::get( c )); ld most = 100;
    if( c.rng.one( 3 )) // the whole range of both types
    {
        most = sizeof( T ) > 4 && sizeof( U ) > 4 ? 9e18L : 4.2e9L; const ld top = std::min< ld >( std::min( most, ld( std::numeric_limits< T >::max( ))), std::numeric_limits< U >::max( ));
        v = T( c.rng.r( std::is_signed< T >::value && std::is_signed< U >::value ? -1 : 0, 1 ) * top );
        if( std::numeric_limits< T >::digits > 60 && std::numeric_limits< U >::digits > 60 && c.rng.b( )) v = T( ld( v ) + ( v < T( 0 ) ? 1 : -1 ) * ( c.rng.i( 0, 1000 ) + ( std::is_floating_point< T >::value && std::is_floating_point< U >::value ? .25L : 0.L )));
    }
    if( !std::is_floating_point< U >::value )
    {
        const ld hi = std::min< ld >( most, std::numeric_limits< U >::max( )), lo = std::is_signed< U >::value ? -hi : 0;
        if( !( ld( v ) <= hi )) v = T( hi );
        if( !( ld( v ) >= lo )) v = T( c.rng.d() * double( hi ));
    }
    c.in( v ); return v;
}
template< class U, class T > static bool as( U got, T src ) { return vt::same( got, static_cast< U >( src )); }

template< size_t M, class T, class U > struct VecCast
{
    static void run( Ctx& c )
    {
        vt::pick_profile( c );
        Vector< M, T > s; for( size_t i = 0; i < M; ++i ) s.array[ i ] = conv< T, U >( c );
        const auto s0 = vt::bytes( s );
        vt::Canary< Vector< M, U > > a, b, d; fill( c, a.v ); fill( c, b.v ); fill( c, d.v );
        const Vector< M, U > k( s ); a.v = s; b.v.cast_from( s ); d.v.iter_set( s.begin(), s.end( )); bool ok = true;
        for( size_t i = 0; i < M; ++i ) ok &= as( k.array[ i ], s.array[ i ] ) && as( a.v.array[ i ], s.array[ i ] ) && as( b.v.array[ i ], s.array[ i ] ) && as( d.v.array[ i ], s.array[ i ] );
        CHECK( "vector-cast", ok, vt::show( s ), vt::show( k ), vt::show( a.v ), vt::show( b.v ), vt::show( d.v ));
        std::list< T > l( s.begin(), s.end( )); const size_t n = c.rng.u( M + 3 ); l.resize( n, s.array[ 0 ] ); const Vector< M, U > old( d.v );
        d.v.iter_set( l.begin(), l.end( )); ok = true; auto it = l.begin();
        for( size_t i = 0; i < M; ++i ) { if( i < n ) { ok &= as( d.v.array[ i ], *it ); ++it; } else ok &= vt::same( d.v.array[ i ], old.array[ i ] ); }
        CHECK( "iter_set", ok, n, vt::show( s ), vt::show( d.v ));
        CHECK( "source-unchanged", vt::bytes( s ) == s0, "" ); CHECK( "no-stray-write", a.ok() && b.ok() && d.ok(), "" );
    }
};
template< size_t M, size_t N, size_t P, size_t Q, class T, class U > struct MatCast // Matrix<P,Q,T> into Matrix<M,N,U>
{
    static void direct( Ctx&, const Matrix< P, Q, T >&, Matrix< M, N, U >&, std::false_type ) {}
    static void direct( Ctx& c, const Matrix< P, Q, T >& s, Matrix< M, N, U >& d, std::true_type )
    {
        d.cast_from( s ); bool ok = true;
        for( size_t i = 0; i < M * N; ++i ) ok &= as( d.array[ i ], s.array[ i ] );
        CHECK( "matrix-cast_from", ok, vt::show( s ), vt::show( d ));
    }
    static void run( Ctx& c )
    {
        vt::pick_profile( c );
        Matrix< P, Q, T > s; for( size_t i = 0; i < P * Q; ++i ) s.array[ i ] = conv< T, U >( c );
        const auto s0 = vt::bytes( s );
        vt::Canary< Matrix< M, N, U > > a; fill( c, a.v ); const Matrix< M, N, U > k( s ); a.v = s;
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j )
        {
            const U e = i < P && j < Q ? static_cast< U >( s.array[ j * P + i ] ) : U( 0 );
            CHECK( "matrix-convert", vt::same( k.array[ j * M + i ], e ) && vt::same( a.v.array[ j * M + i ], e ), i, j, vt::show( s ), vt::show( k ), vt::show( a.v ));
        }
        direct( c, s, a.v, std::integral_constant< bool, M == P && N == Q >( ));
        CHECK( "source-unchanged", vt::bytes( s ) == s0, "" ); CHECK( "no-stray-write", a.ok(), "" );
    }
};
template< size_t M, class T > struct Homo // M <-> M+1 components
{
    static void run( Ctx& c )
    {
        vt::pick_mild( c );
        Vector< M, T > s; fill( c, s ); Vector< M + 1, T > h; fill( c, h ); if( h.array[ M ] == 0 ) h.array[ M ] = gen_nz< T >( c );
        if( c.rng.one( 4 ) && std::is_floating_point< T >::value ) { h.array[ M ] = T( std::ldexp( h.array[ M ], c.rng.i( -80, 40 ))); if( h.array[ M ] == 0 ) h.array[ M ] = 1; c.in( h.array[ M ] ); SAW( "saw-extreme-w" ); }
        const auto s0 = vt::bytes( s ), h0 = vt::bytes( h );
        vt::Canary< Vector< M + 1, T > > up; fill( c, up.v ); vt::Canary< Vector< M, T > > down; fill( c, down.v );
        const Vector< M + 1, T > ku( s ); up.v = s; const Vector< M, T > kd( h ); down.v = h;
        bool ok = true, od = true;
        for( size_t i = 0; i < M; ++i )
        {
            ok &= vt::same( ku.array[ i ], s.array[ i ] ) && vt::same( up.v.array[ i ], s.array[ i ] );
            const ld e = ld( h.array[ i ] ) / ld( h.array[ M ] );
            if( std::is_floating_point< T >::value ) od &= near( kd.array[ i ], e, 0, 4 ) && near( down.v.array[ i ], e, 0, 4 );
        }
        CHECK( "to-homogeneous", ok && ku.array[ M ] == T( 1 ) && up.v.array[ M ] == T( 1 ), vt::show( s ), vt::show( ku ), vt::show( up.v ));
        CHECK( "from-homogeneous", od, vt::show( h ), vt::show( kd ), vt::show( down.v ));
        const T l = gen< T >( c ); const Vector< M + 1, T > e( s, l ); up.v.set( s, l ); ok = true;
        for( size_t i = 0; i < M; ++i ) ok &= vt::same( e.array[ i ], s.array[ i ] ) && vt::same( up.v.array[ i ], s.array[ i ] );
        CHECK( "append", ok && vt::same( e.array[ M ], l ) && vt::same( up.v.array[ M ], l ), vt::show( s ), l, vt::show( e ), vt::show( up.v ));
        // plain leading-component copies
        up.v = h; up.v.set( s ); down.v = s; down.v.set( h ); ok = vt::same( up.v.array[ M ], h.array[ M ] );
        for( size_t i = 0; i < M; ++i ) ok &= vt::same( up.v.array[ i ], s.array[ i ] ) && vt::same( down.v.array[ i ], h.array[ i ] );
        CHECK( "leading-components", ok, vt::show( s ), vt::show( h ), vt::show( up.v ), vt::show( down.v ));
        CHECK( "source-unchanged", vt::bytes( s ) == s0 && vt::bytes( h ) == h0, "" ); CHECK( "no-stray-write", up.ok() && down.ok(), "" );
    }
};
template< class T > struct Forms // the constructor and assignment forms
{
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); vt::pick_wide< T >( c );
        T v[ 6 ]; for( T& x : v ) x = gen< T >( c );
        const Vector< 1, T > a1( v[ 0 ] ); const Vector< 2, T > a2( v[ 0 ], v[ 1 ] ); const Vector< 3, T > a3( v[ 0 ], v[ 1 ], v[ 2 ] ); const Vector< 4, T > a4( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ] );
        const Vector< 5, T > s5( v[ 4 ] ); const Vector< 6, T > p6( static_cast< const T* >( v ));
        Vector< 6, T > q6; q6 = static_cast< const T* >( v ); Vector< 6, T > f6; f6.set( v[ 1 ] ); Vector< 6, T > g6; const T ret = ( g6 = v[ 2 ] );
        bool ok = vt::same( a1.array[ 0 ], v[ 0 ] ) && vt::same( ret, v[ 2 ] );
        for( int i = 0; i < 6; ++i )
        {
            if( i < 2 ) ok &= vt::same( a2.array[ i ], v[ i ] ); if( i < 3 ) ok &= vt::same( a3.array[ i ], v[ i ] ); if( i < 4 ) ok &= vt::same( a4.array[ i ], v[ i ] );
            if( i < 5 ) ok &= vt::same( s5.array[ i ], v[ 4 ] );
            ok &= vt::same( p6.array[ i ], v[ i ] ) && vt::same( q6.array[ i ], v[ i ] ) && vt::same( f6.array[ i ], v[ 1 ] ) && vt::same( g6.array[ i ], v[ 2 ] );
        }
        CHECK( "vector-forms", ok, v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ] );
        // deep, independent copies; assignment chains and self-assignment
        Vector< 6, T > w( q6 ), x; Vector< 6, T >& r = ( x = w ); w.array[ 5 ] = T( 77 ); w.array[ 0 ] = T( 78 );
        CHECK( "vector-copy-independent", &r == &x && vt::same( x.array[ 5 ], v[ 5 ] ) && vt::same( x.array[ 0 ], v[ 0 ] ) && vt::same( q6.array[ 0 ], v[ 0 ] ), "" );
        x = *&x; CHECK( "vector-self-assignment", x == q6 || x != x, vt::show( x ));
        Matrix< 2, 3, T > m; m.set( v, v + 6 ); Matrix< 2, 3, T > n( m ), o; const Matrix< 2, 3, T >& ro = ( o = n ); n.array[ 3 ] = T( 77 ); m.array[ 0 ] = T( 76 ); ok = &ro == &o;
        for( int i = 0; i < 2; ++i ) for( int j = 0; j < 3; ++j ) ok &= vt::same( o.array[ j * 2 + i ], v[ i * 3 + j ] );
        CHECK( "matrix-copy-independent", ok, vt::show( o ));
        const auto ob = vt::bytes( o ); o = *&o; CHECK( "matrix-self-assignment", vt::bytes( o ) == ob, "" );
        // row-major sources
        Matrix< 2, 3, T > p, q, u, z; p = static_cast< const T* >( v ); { std::vector< T > l( v, v + 6 ); l.insert( l.end(), c.rng.one( 3 ) ? 1 + c.rng.u( 9 ) : 0, T( 99 )); q = l; } T old[ 2 ][ 3 ]; memcpy( old, v, sizeof old ); u = old; z = v[ 4 ]; ok = true;
        for( int i = 0; i < 2; ++i ) for( int j = 0; j < 3; ++j ) ok &= vt::same( p.array[ j * 2 + i ], v[ i * 3 + j ] ) && vt::same( q.array[ j * 2 + i ], v[ i * 3 + j ] ) && vt::same( u.array[ j * 2 + i ], v[ i * 3 + j ] ) && vt::same( z.array[ j * 2 + i ], v[ 4 ] );
        // a source shorter than the matrix: the elements it reaches are set, the others stay
        { const size_t n = c.rng.u( 7 ); Matrix< 2, 3, T > e( z ), f( z ); e.set( v, v + n ); f.set( v, v + n, false );
          for( size_t k = 0; k < 6; ++k ) ok &= vt::same( e.array[ k % 3 * 2 + k / 3 ], k < n ? v[ k ] : v[ 4 ] ) && vt::same( f.array[ k ], k < n ? v[ k ] : v[ 4 ] ); }
        CHECK( "matrix-forms", ok, vt::show( p ), vt::show( q ), vt::show( u ), vt::show( z ));
    }
};
template< class T, class U > struct Objects
{
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); if( c.prof == P_WIDE ) c.prof = P_LOG;
        T v[ 6 ]; for( T& x : v ) x = conv< T, U >( c );
        const Frustum< T > f( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ] ); const Frustum< U > g( f ), h( static_cast< const T* >( v )); Frustum< U > i; i = f; Frustum< T > s; s.set( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ] );
        Frustum< T > t( s ), t2; Frustum< T >& rt = ( t2 = t ); bool ok = &rt == &t2; t.array[ 2 ] = T( 55 );
        for( int k = 0; k < 6; ++k ) ok &= vt::same( f.array[ k ], v[ k ] ) && as( g.array[ k ], v[ k ] ) && as( h.array[ k ], v[ k ] ) && as( i.array[ k ], v[ k ] ) && vt::same( s.array[ k ], v[ k ] ) && vt::same( t2.array[ k ], v[ k ] );
        ok &= vt::same( f.left(), v[ 0 ] ) && vt::same( f.right(), v[ 1 ] ) && vt::same( f.bottom(), v[ 2 ] ) && vt::same( f.top(), v[ 3 ] ) && vt::same( f.near_plane(), v[ 4 ] ) && vt::same( f.far_plane(), v[ 5 ] );
        ok &= &s.left() == s.array && &s.right() == s.array + 1 && &s.bottom() == s.array + 2 && &s.top() == s.array + 3 && &s.near_plane() == s.array + 4 && &s.far_plane() == s.array + 5;
        CHECK( "frustum-forms", ok, v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ] );
        const Vector< 3, T > x( v[ 0 ], v[ 1 ], v[ 2 ] ); const Vector< 4, T > x4( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ] );
        const Quaternion< T > a( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ] ), b( x, v[ 3 ] ), d( x ); Quaternion< T > e, k, l, m, n( a ), o, p; e = x4; k.set( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ] );
        Vector< 3, T > y( x ); l.set( y, v[ 3 ] ); m.set( v, v + 4 ); Quaternion< T >& ro = ( o = a ); const Vector< 4, T >& r4 = ( p = x4 ); ok = &ro == &o && &r4 == &x4;
        std::list< T > li( v, v + 2 ); Quaternion< T > part( a ); part.set( v[ 5 ], v[ 5 ], v[ 5 ], v[ 5 ] ); part.set( li.begin(), li.end( ));
        for( int q = 0; q < 4; ++q )
            ok &= vt::same( a.array[ q ], v[ q ] ) && vt::same( b.array[ q ], v[ q ] ) && vt::same( d.array[ q ], q < 3 ? v[ q ] : T( 0 )) && vt::same( e.array[ q ], v[ q ] ) && vt::same( k.array[ q ], v[ q ] )
               && vt::same( l.array[ q ], v[ q ] ) && vt::same( m.array[ q ], v[ q ] ) && vt::same( n.array[ q ], v[ q ] ) && vt::same( o.array[ q ], v[ q ] ) && vt::same( p.array[ q ], v[ q ] )
               && vt::same( part.array[ q ], q < 2 ? v[ q ] : v[ 5 ] );
        ok &= vt::same( a.x(), v[ 0 ] ) && vt::same( a.y(), v[ 1 ] ) && vt::same( a.z(), v[ 2 ] ) && vt::same( a.w(), v[ 3 ] );
        CHECK( "quaternion-forms", ok, v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ] );
        n.array[ 1 ] = T( 55 ); o.zero(); p.identity(); ok = true;
        for( int q = 0; q < 4; ++q ) ok &= o.array[ q ] == 0 && p.array[ q ] == T( q == 3 );
        CHECK( "quaternion-zero-identity", ok && vt::same( a.array[ 1 ], v[ 1 ] ), "" );
        const Vector< 3, T > hi( v[ 3 ], v[ 4 ], v[ 5 ] ); AABB< T > box( x, hi ), cp( box ), as; as = box; AABB< T > st; st.set( x, hi ); AABB< T > mm; mm.setMin( x ); mm.setMax( hi ); box.getMin().array[ 0 ] = T( 55 ); ok = true;
        for( int q = 0; q < 3; ++q )
            for( const AABB< T >* z : { &cp, &as, &st, &mm } ) ok &= vt::same( z->getMin().array[ q ], x.array[ q ] ) && vt::same( z->getMax().array[ q ], hi.array[ q ] );
        CHECK( "box-forms", ok, vt::show( x ), vt::show( hi ));
        const Vector< 3, T > o3( v[ 0 ], v[ 1 ], v[ 2 ] ); const Vector< 4, T > sp( o3, v[ 3 ] ); const AABB< T > ball( sp ), cube( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ] ); AABB< T > cs; cs.set( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ] ); ok = true;
        for( int q = 0; q < 3; ++q )
            for( const AABB< T >* z : { &ball, &cube, &static_cast< const AABB< T >& >( cs ) } ) ok &= vt::same( z->getMin().array[ q ], T( v[ q ] - v[ 3 ] )) && vt::same( z->getMax().array[ q ], T( v[ q ] + v[ 3 ] ));
        CHECK( "box-from-sphere", ok, v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ] );
    }
};

void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    typedef void ( *Fn )( Ctx& );
    static const Fn tab[] = {
        VecCast< 3, float, double >::run, VecCast< 4, double, float >::run, VecCast< 5, double, int >::run, VecCast< 3, int, float >::run, VecCast< 4, uint8_t, float >::run, VecCast< 7, float, uint8_t >::run, VecCast< 2, int, double >::run, VecCast< 6, int, int16_t >::run, VecCast< 300, float, double >::run, VecCast< 3, int64_t, long double >::run, VecCast< 3, long double, int64_t >::run, VecCast< 4, unsigned, int64_t >::run, VecCast< 3, int64_t, unsigned >::run, VecCast< 2, double, unsigned >::run, MatCast< 2, 3, 2, 3, int64_t, long double >::run, MatCast< 3, 3, 3, 3, unsigned, int64_t >::run, MatCast< 2, 2, 2, 2, int, unsigned >::run, MatCast< 19, 17, 16, 18, float, double >::run,
        MatCast< 3, 3, 3, 3, float, double >::run, MatCast< 4, 4, 3, 3, float, float >::run, MatCast< 3, 3, 4, 4, double, double >::run, MatCast< 2, 5, 5, 2, double, float >::run, MatCast< 5, 2, 2, 5, int, double >::run, MatCast< 4, 3, 4, 4, float, int >::run,
        MatCast< 3, 4, 3, 2, double, uint8_t >::run, MatCast< 1, 6, 6, 1, int, float >::run, MatCast< 4, 4, 4, 4, double, float >::run, MatCast< 2, 3, 2, 3, uint8_t, double >::run, MatCast< 4, 4, 4, 3, double, double >::run, MatCast< 4, 4, 3, 4, float, double >::run,
        Homo< 2, float >::run, Homo< 3, float >::run, Homo< 3, double >::run, Homo< 4, double >::run, Homo< 1, float >::run, Homo< 3, int >::run, Homo< 3, long double >::run, Homo< 3, int64_t >::run,
        Forms< float >::run, Forms< double >::run, Forms< int >::run, Forms< uint8_t >::run, Forms< int64_t >::run, Forms< long double >::run, Objects< float, double >::run, Objects< double, float >::run, Objects< long double, double >::run, Objects< double, long double >::run };
    const size_t k = c.rng.u( sizeof( tab ) / sizeof( *tab ));
    c.in( int( k ));
    tab[ k ]( c );
}
