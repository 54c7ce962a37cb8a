// C26: named constants and default objects
#include "common.hpp"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/aabb.hpp>
#include <vmmlib/intersection.hpp>
#include <vmmlib/qr_decomposition.hpp>
#include <vmmlib/util.hpp>
using namespace vmml;

static const char* when = "before";
template< size_t M, class T > static bool is( const Vector< M, T >& v, T a ) { for( size_t i = 0; i < M; ++i ) if( v.array[ i ] != a ) return false; return true; }
template< class T > static bool is3( const Vector< 3, T >& v, T x, T y, T z ) { return v.array[ 0 ] == x && v.array[ 1 ] == y && v.array[ 2 ] == z; }
template< class T > static bool is4( const Quaternion< T >& v, T x, T y, T z, T w ) { return v.array[ 0 ] == x && v.array[ 1 ] == y && v.array[ 2 ] == z && v.array[ 3 ] == w; }

template< class O > static O* dirty_new() // a default-constructed object on storage that held something else
{
    void* p = ::operator new( sizeof( O )); memset( p, 0xE7, sizeof( O )); return new( p ) O;
}
template< class O > static void drop( O* o ) { o->~O(); ::operator delete( o ); }

template< size_t M, class T > static void vec( Ctx& c )
{
    typedef Vector< M, T > V;
    CHECK( "vector-ZERO", is( V::ZERO, T( 0 )), when, M, vt::show( V::ZERO )); CHECK( "vector-ONE", is( V::ONE, T( 1 )), when, M, vt::show( V::ONE ));
    V* p = dirty_new< V >(); CHECK( "vector-default-zero", is( *p, T( 0 )), when, M, vt::show( *p )); drop( p );
    const V q = V(); CHECK( "vector-default-zero", is( q, T( 0 )), when, M, vt::show( q ));
    const size_t dim = V::DIMENSION; CHECK( "vector-dimension", dim == M && sizeof( V ) == M * sizeof( T ), M, sizeof( V ));
}
template< class T > static void vec3( Ctx& c )
{
    typedef Vector< 3, T > V;
    CHECK( "UNIT_X", is3< T >( V::UNIT_X, 1, 0, 0 ), when, vt::show( V::UNIT_X )); CHECK( "UNIT_Y", is3< T >( V::UNIT_Y, 0, 1, 0 ), when, vt::show( V::UNIT_Y )); CHECK( "UNIT_Z", is3< T >( V::UNIT_Z, 0, 0, 1 ), when, vt::show( V::UNIT_Z ));
    CHECK( "UP", is3< T >( V::UP, 0, 1, 0 ), when, vt::show( V::UP )); CHECK( "RIGHT", is3< T >( V::RIGHT, 1, 0, 0 ), when, vt::show( V::RIGHT )); CHECK( "BACKWARD", is3< T >( V::BACKWARD, 0, 0, 1 ), when, vt::show( V::BACKWARD ));
    CHECK( "DOWN", is3< T >( V::DOWN, 0, T( -1 ), 0 ), when, vt::show( V::DOWN )); CHECK( "LEFT", is3< T >( V::LEFT, T( -1 ), 0, 0 ), when, vt::show( V::LEFT )); CHECK( "FORWARD", is3< T >( V::FORWARD, 0, 0, T( -1 )), when, vt::show( V::FORWARD ));
}
template< size_t M, size_t N, class T > static void mat( Ctx& c )
{
    typedef Matrix< M, N, T > X; bool z = true, d = true, s = sizeof( X ) == M * N * sizeof( T );
    X* p = dirty_new< X >();
    for( size_t j = 0; j < N; ++j ) for( size_t i = 0; i < M; ++i ) { z &= X::ZERO.array[ j * M + i ] == T( 0 ); d &= p->array[ j * M + i ] == T( M == N && i == j ? 1 : 0 ); }
    CHECK( "matrix-ZERO", z, when, M, N, vt::show( X::ZERO ));
    CHECK( "matrix-default", d, when, M, N, vt::show( *p )); drop( p );
    const size_t r = X::ROWS, k = X::COLS; CHECK( "matrix-shape", r == M && k == N && s, r, k );
}
template< size_t M, class T > static void square( Ctx& c )
{
    typedef Matrix< M, M, T > X; bool d = true; mat< M, M, T >( c );
    for( size_t j = 0; j < M; ++j ) for( size_t i = 0; i < M; ++i ) d &= X::IDENTITY.array[ j * M + i ] == T( i == j );
    CHECK( "matrix-IDENTITY", d, when, M, vt::show( X::IDENTITY ));
}
template< class T > static void geo( Ctx& c )
{
    typedef Quaternion< T > Q;
    CHECK( "quaternion-IDENTITY", is4< T >( Q::IDENTITY, 0, 0, 0, 1 ), when, Q::IDENTITY ); CHECK( "QUATERI", is4< T >( Q::QUATERI, 1, 0, 0, 0 ), when, Q::QUATERI );
    CHECK( "QUATERJ", is4< T >( Q::QUATERJ, 0, 1, 0, 0 ), when, Q::QUATERJ ); CHECK( "QUATERK", is4< T >( Q::QUATERK, 0, 0, 1, 0 ), when, Q::QUATERK );
    Q* q = dirty_new< Q >(); CHECK( "quaternion-default-identity", is4< T >( *q, 0, 0, 0, 1 ), when, *q ); drop( q );
    typedef Frustum< T > F; const T d[] = { T( -1 ), T( 1 ), T( -1 ), T( 1 ), T( 0.1 ), T( 100 ) }; bool f = true, z = true; F* fd = dirty_new< F >();
    for( int i = 0; i < 6; ++i ) { f &= F::DEFAULT.array[ i ] == d[ i ]; z &= fd->array[ i ] == T( 0 ); }
    CHECK( "frustum-DEFAULT", f, when, F::DEFAULT ); CHECK( "frustum-default-zero", z, when, *fd ); drop( fd );
}
template< class T > static void box( Ctx& c )
{
    typedef AABB< T > B; const B u = B::makeUnitBox(); CHECK( "unit-box", is3< T >( u.getMin(), 0, 0, 0 ) && is3< T >( u.getMax(), 1, 1, 1 ) && !u.isEmpty(), when, u );
    B* e = dirty_new< B >(); CHECK( "default-box-empty", e->isEmpty(), when, *e );
    CHECK( "empty-box-bounds", is( e->getMin(), std::numeric_limits< T >::max( )) && is( e->getMax(), std::numeric_limits< T >::lowest( )), when, *e );
    B s( Vector< 3, T >( T( 1 ), T( 2 ), T( 3 )), Vector< 3, T >( T( 4 ), T( 5 ), T( 6 ))); s.setEmpty(); CHECK( "setEmpty-is-default", s == *e && s.isEmpty(), when, s ); drop( e );
}
template< class T > static void floats( Ctx& c )
{
    vec< 1, T >( c ); vec< 2, T >( c ); vec< 3, T >( c ); vec< 4, T >( c ); vec< 7, T >( c ); vec3< T >( c );
    square< 1, T >( c ); square< 2, T >( c ); square< 3, T >( c ); square< 4, T >( c ); square< 5, T >( c ); square< 20, T >( c ); vec< 70, T >( c ); mat< 2, 40, T >( c ); mat< 2, 3, T >( c ); mat< 3, 2, T >( c ); mat< 4, 1, T >( c ); mat< 1, 4, T >( c ); mat< 3, 7, T >( c );
    geo< T >( c ); box< T >( c );
}
template< class T > static void integers( Ctx& c )
{
    vec< 1, T >( c ); vec< 2, T >( c ); vec< 3, T >( c ); vec< 4, T >( c ); vec< 5, T >( c ); vec3< T >( c ); square< 2, T >( c ); square< 3, T >( c ); square< 4, T >( c ); mat< 2, 5, T >( c ); mat< 4, 3, T >( c ); box< T >( c );
}
static void names( Ctx& c )
{
#define IS( A, ... ) CHECK( "type-name " #A, ( std::is_same< vmml::A, __VA_ARGS__ >::value ), "" )
    IS( Vector2i, Vector< 2, int > ); IS( Vector3i, Vector< 3, int > ); IS( Vector4i, Vector< 4, int > ); IS( Vector2ui, Vector< 2, unsigned > ); IS( Vector3ui, Vector< 3, unsigned > ); IS( Vector4ui, Vector< 4, unsigned > );
    IS( Vector3d, Vector< 3, double > ); IS( Vector4d, Vector< 4, double > ); IS( Vector2f, Vector< 2, float > ); IS( Vector3f, Vector< 3, float > ); IS( Vector4f, Vector< 4, float > );
    IS( Vector3ub, Vector< 3, uint8_t > ); IS( Vector4ub, Vector< 4, uint8_t > ); IS( Matrix3d, Matrix< 3, 3, double > ); IS( Matrix4d, Matrix< 4, 4, double > ); IS( Matrix3f, Matrix< 3, 3, float > ); IS( Matrix4f, Matrix< 4, 4, float > );
    IS( Quaternionf, Quaternion< float > ); IS( Quaterniond, Quaternion< double > ); IS( Frustumf, Frustum< float > ); IS( Frustumd, Frustum< double > ); IS( AABBf, AABB< float > ); IS( AABBd, AABB< double > );
    IS( FrustumCullerf, FrustumCuller< float > ); IS( FrustumCullerd, FrustumCuller< double > );
}
static void everything( Ctx& c, const char* w )
{
    when = w; floats< float >( c ); floats< double >( c ); floats< long double >( c ); integers< int >( c ); integers< unsigned >( c ); integers< short >( c ); integers< uint8_t >( c ); integers< long >( c ); names( c );
}
// use of the constants: as operands, and as sources of objects that are then changed
template< class T > static void use( Ctx& c )
{
    vt::pick_mild( c ); typedef Vector< 3, T > V; typedef Vector< 4, T > V4; typedef Matrix< 4, 4, T > X; typedef Quaternion< T > Q; typedef Frustum< T > F; typedef AABB< T > B;
    const size_t n = 1 + c.rng.u( 12 );
    for( size_t i = 0; i < n; ++i )
    {
        const size_t k = c.rng.u( 16 ); c.in( k );
        switch( k )
        {
        case 0: { V v( V::ONE ); v *= gen< T >( c ); v += V::UNIT_X; v.normalize(); v.array[ 2 ] = 9; break; }
        case 1: { V v = V::UP; v = v.cross( V::FORWARD ); v -= V::LEFT; v.negate(); v.set( gen< T >( c )); break; }
        case 2: { X m( X::IDENTITY ); m *= gen< T >( c ); m( 2, 1 ) = 5; m = m * X::IDENTITY + X::ZERO; m = X::ZERO; break; }
        case 3: { X m; m.set_translation( V( gen< T >( c ), gen< T >( c ), gen< T >( c ))); X r; m.inverse( r ); m = X::IDENTITY; m.scale( V::ONE ); m.rotate_x( gen< T >( c )); X a; X::IDENTITY.get_adjugate( a ); break; }
        case 4: { Q q( Q::IDENTITY ); q *= Q::QUATERI; q *= Q::QUATERJ; q = q * Q::QUATERK; q.normalize(); q.conjugate(); q.array[ 0 ] += 3; break; }
        case 5: { Q q = Q::QUATERK; q += Q::IDENTITY; q = q.inverse(); q.zero(); q.identity(); q = Q::QUATERI; q *= gen< T >( c ); break; }
        case 6: { F f( F::DEFAULT ); f.set_perspective( T( 60 ), T( 1.5 ), T( .5 ), T( 20 )); f = F::DEFAULT; f.adjust_near( T( 2 )); f.apply_jitter( Vector< 2, T >( T( 1 ), T( 2 ))); X m = F::DEFAULT.compute_matrix(); m = F::DEFAULT.compute_ortho_matrix(); break; }
        case 7: { B b = B::makeUnitBox(); b.merge( V( gen< T >( c ), gen< T >( c ), gen< T >( c ))); B e; e.merge( b ); e.setEmpty(); b *= T( 3 ); b.merge( B( V::ONE, V::ONE * T( 2 ))); break; }
        case 8: { V4 v( V4::ZERO ); v.set( V::UNIT_Z, gen< T >( c )); v = X::IDENTITY * v; V w( v ); break; }
        case 9: { FrustumCuller< T > f; f.setup( F::DEFAULT.compute_matrix( )); f.test_sphere( V4::ONE ); break; }
        case 10: { X q, r; X a( X::IDENTITY ); a( 1, 2 ) = gen< T >( c ); qr_decompose_gram_schmidt( X::IDENTITY, q, r ); qr_decompose_gram_schmidt( a, q, r ); break; }
        case 11: { V v( V::ZERO ); v.set_random( 3 ); v.perturb(); std::swap( v.array[ 0 ], v.array[ 1 ] ); V u = vmml::min( v, V::ONE ); zero( u ); zero( v ); break; }
        case 12: { Matrix< 2, 3, T > m( Matrix< 2, 3, T >::ZERO ); fill( c, m ); m.transpose_to( *std::unique_ptr< Matrix< 3, 2, T > >( new Matrix< 3, 2, T > )); m.zero(); break; }
        case 13: { std::ostringstream os; os << X::IDENTITY << V::ONE << F::DEFAULT << Q::IDENTITY << B::makeUnitBox(); break; }
        case 14: { std::stringstream ss; X::IDENTITY.write_to_stream( ss ); X m; m = X::ZERO; m.read_from_stream( ss ); break; }
        default: { V d; Intersection< T > r( V::ZERO, V::FORWARD ); T t = 0; r.test_sphere( V4( 0, 0, T( -5 ), 1 ), t ); d = V::ONE.rotate( gen< T >( c ), V::UNIT_Z ); break; }
        }
    }
}
void start_run() {}
void end_run( Ctx& c ) { everything( c, "at the end" ); }
void run_case( Ctx& c )
{
    if( c.id % 64 == 0 ) { everything( c, "before" ); }
    switch( c.rng.u( 2 )) { case 0: use< float >( c ); break; default: use< double >( c ); }
    when = "during"; switch( c.rng.u( 4 )) { case 0: floats< float >( c ); break; case 1: floats< double >( c ); break; case 2: integers< int >( c ); integers< uint8_t >( c ); break; default: geo< float >( c ); geo< double >( c ); vec3< float >( c ); vec3< double >( c ); square< 4, float >( c ); square< 4, double >( c ); }
}
