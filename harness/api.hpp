// One workload over the whole public API, shared by C01 (memory), C22 (threads) and C25 (builds).
// An op reads shared operands through const access only, works on private heap objects, and
// reports every result to a sink.  It is a function of (pool, rng) alone: no call draws twice from
// the rng among its arguments, whose order of evaluation is the compiler's.
#pragma once
#include "common.hpp"
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/aabb.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/intersection.hpp>
#include <vmmlib/lowpass_filter.hpp>
#include <vmmlib/qr_decomposition.hpp>
#include <vmmlib/math.hpp>
#include <vmmlib/util.hpp>

namespace api
{
using vmml::Vector; using vmml::Matrix; using vmml::Quaternion; using vmml::AABB; using vmml::Frustum;
using vmml::FrustumCuller; using vmml::Intersection; using vmml::LowpassFilter;
typedef vt::Rng R;

// receives results; the name says where a value comes from, tol is the factor its rounding may be amplified by
struct Sink
{
    virtual ~Sink() {}
    virtual void value( const char* name, double v, double tol, bool exact ) = 0;
    virtual void text( const char* name, const std::string& s ) = 0;
    template< class X > void n( const char* name, X v, double tol = 1 ) { value( name, double( v ), tol, !std::is_floating_point< X >::value ); }
    template< class X > void a( const char* name, const X& v, double tol = 1 ) { for( auto it = v.begin(); it != v.end(); ++it ) n( name, *it, tol ); }
    template< class T > void q( const char* name, const Quaternion< T >& v, double tol = 1 ) { for( int i = 0; i < 4; ++i ) n( name, v.array[ i ], tol ); }
    template< class T > void f( const char* name, const Frustum< T >& v, double tol = 1 ) { for( int i = 0; i < 6; ++i ) n( name, v.array[ i ], tol ); }
    template< class T > void b( const char* name, const AABB< T >& v, double tol = 1 ) { a( name, v.getMin(), tol ); a( name, v.getMax(), tol ); }
};

template< class T, bool F = std::is_floating_point< T >::value > struct Rnd;
template< class T > struct Rnd< T, true > { static T get( R& r ) { return r.one( 6 ) ? T( r.i( -3, 3 )) : T( r.r( -4, 4 )); } };
template< class T > struct Rnd< T, false > { static T get( R& r ) { return T( r.i( std::is_signed< T >::value ? -9 : 1, 9 )); } };
template< class T > T rnd( R& r ) { return Rnd< T >::get( r ); }
template< class T > T pos( R& r ) { return std::is_floating_point< T >::value ? T( r.r( .25, 4 )) : T( r.i( 1, 9 )); }

// a directory of this thread's own, below the working directory of the run
inline const std::string& own_dir()
{
    struct Dir { std::string d; Dir() { char b[] = "own-XXXXXX"; d = mkdtemp( b ) ? b : "."; } ~Dir() { if( d != "." ) { unlink(( d + "/m.raw" ).c_str( )); unlink(( d + "/c.csv" ).c_str( )); rmdir( d.c_str( )); } } };
    static thread_local Dir d; return d.d;
}
// shared operands, each in a heap block of its own
template< class O > struct Own
{
    enum { K = 3 }; std::unique_ptr< O > o[ K ];
    const O& get( R& r ) const { return *o[ r.u( K ) ]; }
    const O& any( size_t i ) const { return *o[ i % K ]; }
};
template< size_t N, class T > struct Vs : Own< Vector< N, T > >
{ explicit Vs( R& r ) { for( auto& p : this->o ) { p.reset( new Vector< N, T > ); for( auto& x : *p ) x = rnd< T >( r ); } } };
template< size_t M, size_t N, class T > struct Ms : Own< Matrix< M, N, T > >
{
    explicit Ms( R& r )
    {
        for( auto& p : this->o )
        {
            p.reset( new Matrix< M, N, T > ); for( auto& x : *p ) x = rnd< T >( r );
            if( M == N ) for( size_t i = 0; i < M; ++i ) p->array[ i * M + i ] += std::is_floating_point< T >::value ? T( 9 + 2 * M ) : T( 3 ); // far from singular
        }
    }
};
template< class T > struct Pool
{
    Vs< 1, T > v1; Vs< 2, T > v2; Vs< 3, T > v3; Vs< 4, T > v4; Vs< 5, T > v5; Vs< 7, T > v7;
    Ms< 1, 1, T > m11; Ms< 2, 2, T > m22; Ms< 3, 3, T > m33; Ms< 4, 4, T > m44; Ms< 5, 5, T > m55;
    Ms< 2, 3, T > m23; Ms< 3, 2, T > m32; Ms< 3, 4, T > m34; Ms< 4, 3, T > m43; Ms< 1, 4, T > m14; Ms< 4, 1, T > m41; Ms< 6, 2, T > m62; Ms< 2, 6, T > m26; Ms< 3, 5, T > m35;
    explicit Pool( R& r ) : v1( r ), v2( r ), v3( r ), v4( r ), v5( r ), v7( r ), m11( r ), m22( r ), m33( r ), m44( r ), m55( r ),
        m23( r ), m32( r ), m34( r ), m43( r ), m14( r ), m41( r ), m62( r ), m26( r ), m35( r ) {}
    template< class X > static uint64_t h( const X& s, uint64_t z )
    {
        for( auto& p : s.o ) // bytes of the elements, without the padding of a long double
        {
            const unsigned char* b = reinterpret_cast< const unsigned char* >( &*p ); const size_t used = std::is_same< T, long double >::value ? 10 : sizeof( T );
            for( size_t i = 0; i < sizeof *p; ++i ) if( i % sizeof( T ) < used ) z = ( z ^ b[ i ] ) * 1099511628211ull;
        }
        return z;
    }
    uint64_t hash() const
    {
        uint64_t z = 14695981039346656037ull;
        z = h( v1, z ); z = h( v2, z ); z = h( v3, z ); z = h( v4, z ); z = h( v5, z ); z = h( v7, z ); z = h( m11, z ); z = h( m22, z ); z = h( m33, z ); z = h( m44, z ); z = h( m55, z );
        z = h( m23, z ); z = h( m32, z ); z = h( m34, z ); z = h( m43, z ); z = h( m14, z ); z = h( m41, z ); z = h( m62, z ); z = h( m26, z ); z = h( m35, z ); return z;
    }
};
#define VS( N ) template< class T > inline const Vs< N, T >& vs( const Pool< T >& p, std::integral_constant< size_t, N > ) { return p.v##N; }
VS( 1 ) VS( 2 ) VS( 3 ) VS( 4 ) VS( 5 ) VS( 7 )
#undef VS
#define MS( M, N ) template< class T > inline const Ms< M, N, T >& ms( const Pool< T >& p, std::integral_constant< size_t, M >, std::integral_constant< size_t, N > ) { return p.m##M##N; }
MS( 1, 1 ) MS( 2, 2 ) MS( 3, 3 ) MS( 4, 4 ) MS( 5, 5 ) MS( 2, 3 ) MS( 3, 2 ) MS( 3, 4 ) MS( 4, 3 ) MS( 1, 4 ) MS( 4, 1 ) MS( 6, 2 ) MS( 2, 6 ) MS( 3, 5 )
#undef MS
template< size_t N, class T > inline const Vector< N, T >& V( const Pool< T >& p, R& r ) { return vs( p, std::integral_constant< size_t, N >( )).get( r ); }
template< size_t M, size_t N, class T > inline const Matrix< M, N, T >& X( const Pool< T >& p, R& r ) { return ms( p, std::integral_constant< size_t, M >(), std::integral_constant< size_t, N >( )).get( r ); }
// sums of a convolution have to fit the element type
template< class C > void bits( C& k ) { typedef typename std::decay< decltype( *k.begin( )) >::type T; if( !std::is_floating_point< T >::value ) for( auto& x : k ) x = T( int( x ) & 1 ); }
#define NEW( Type, name ) std::unique_ptr< Type > name##_p( new Type ); Type& name = *name##_p

// ------------------------------------------------------------- any elements
template< size_t N, class T > struct Vec
{
    typedef Vector< N, T > W;
    static void arith( const Pool< T >& p, R& r, Sink& s )
    {
        const W& a = V< N >( p, r ); const W& b = V< N >( p, r ); const T k = pos< T >( r );
        NEW( W, c ); c = a + b; s.a( "v+v", c ); c = a * b; s.a( "v*v", c ); c = a + k; s.a( "v+s", c ); c = a * k; s.a( "v*s", c ); c = k * a; s.a( "s*v", c );
        c = a; c += b; s.a( "v+=v", c ); c = a; c *= b; s.a( "v*=v", c ); c = a; c += k; s.a( "v+=s", c ); c *= k; s.a( "v*=s", c );
        if( std::is_signed< T >::value )
        {
            c = a - b; s.a( "v-v", c ); c = a - k; s.a( "v-s", c ); c = -a; s.a( "-v", c ); c = a; c -= b; s.a( "v-=v", c ); c -= k; s.a( "v-=s", c ); c = a / T( -k ); s.a( "v/-s", c ); c = a * T( -k ); s.a( "v*-s", c ); c /= T( -k ); s.a( "v/=-s", c ); const W& ref = c.negate(); s.a( "negate", ref ); s.n( "negate-this", &ref == &c );
        }
        W d( b ); for( auto& x : d ) if( x == T( 0 )) x = T( 2 );
        c = a / d; s.a( "v/v", c ); c = a / k; s.a( "v/s", c ); c = a; c /= d; s.a( "v/=v", c ); c /= k; s.a( "v/=s", c );
    }
    static void compare( const Pool< T >& p, R& r, Sink& s )
    {
        const W& a = V< N >( p, r ); const W& b = V< N >( p, r ); NEW( W, c ); c = a;
        s.n( "==", a == b ); s.n( "!=", a != b ); s.n( "<", a < b ); s.n( "==self", a == c ); s.n( "equals", a.equals( b )); s.n( "equals-tol", a.equals( b, T( 3 ))); s.n( "equals-free", vmml::equals( a, c ));
        s.n( "min", a.find_min( )); s.n( "max", a.find_max( )); s.n( "min-i", a.find_min_index( )); s.n( "max-i", a.find_max_index( )); s.n( "nnz", a.nnz( )); s.n( "size", W::size( )); s.n( "product", a.product( ));
        c.find_min() = T( 7 ); c.find_max() = T( 1 ); s.a( "min-ref", c );
        c = a; c.clamp( T( 1 ), T( 4 )); s.a( "clamp", c ); c = a; c.clamp(); s.a( "clamp01", c );
        const W mn = vmml::min( a, b ), mx = vmml::max( a, b ); s.a( "util-min", mn ); s.a( "util-max", mx );
    }
    static void access( const Pool< T >& p, R& r, Sink& s )
    {
        const W& a = V< N >( p, r ); NEW( W, c );
        for( size_t i = 0; i < N; ++i ) { c( i ) = a.at( i ); c.at( i ) = a( i ); s.n( "at", c.at( i )); s.n( "[]", a[ i ] ); c[ i ] = a[ i ] + T( 1 ); }
        s.a( "assigned", c ); for( auto it = a.rbegin(); it != a.rend(); ++it ) s.n( "r", *it );
        { size_t k = 0; for( auto it = c.rbegin(); it != c.rend(); ++it ) *it = T( ++k ); s.a( "reverse-set", c ); }
        c = T( 5 ); s.a( "=filler", c ); c.set( T( 3 )); s.a( "set", c ); std::vector< T > l( N, T( 2 )); c = l.data(); s.a( "=array", c ); l[ N - 1 ] = T( 8 ); c.iter_set( l.begin(), l.end( )); s.a( "iter_set", c );
        std::unique_ptr< T[] > raw( new T[ N ] ); for( size_t i = 0; i < N; ++i ) raw[ i ] = T( i + 1 );
        NEW( W, d ); d = raw.get(); s.a( "=raw", d ); W e( raw.get( )); s.a( "ctor-raw", e ); W f( a ); s.a( "copy", f ); W g( T( 6 )); s.a( "ctor-fill", g );
        std::swap( c, d ); s.a( "swap", c ); vmml::zero( d ); s.a( "zero", d );
        Vector< N, double > w( a ); s.a( "to-double", w ); Vector< N, int > i; i.cast_from( a ); s.a( "to-int", i ); w = i; s.a( "from-int", w );
    }
    static void stream( const Pool< T >& p, R& r, Sink& s )
    {
        const W& a = V< N >( p, r ); std::ostringstream os; os << a; s.text( "printed", os.str( ));
        if( sizeof( T ) > 1 ) { std::stringstream ss; ss << std::setprecision( 20 ); a.write_to_stream( ss ); NEW( W, c ); c.read_from_stream( ss ); s.a( "stream", c ); }
    }
    static void dims( const Pool< T >& p, R& r, Sink& s )
    {
        const W& a = V< N >( p, r ); typedef Vector< N + 1, T > U; typedef Vector< N + 3, T > Z;
        NEW( U, u ); u = a; s.a( "homogenous", u ); U x( a ); s.a( "homogenous-ctor", x ); x.set( a, T( 4 )); s.a( "set-v-s", x ); U y( a, T( 9 )); s.a( "ctor-v-s", y );
        NEW( W, b ); b = y; s.a( "dehomogenous", b, 4 ); W c( y ); s.a( "dehomogenous-ctor", c, 4 ); Z z; z.set( T( 2 )); z.set( a ); s.a( "set-smaller", z ); c.set( z ); s.a( "set-larger", c );
        const Z& cz = z; s.a( "sub-vector", cz.template get_sub_vector< N >( 2 )); z.template get_sub_vector< N >( 3 ) = a; s.a( "sub-vector-set", z );
    }
};
template< class T > struct Named
{
    static void xyzw( const Pool< T >& p, R& r, Sink& s )
    {
        typedef Vector< 4, T > V4; typedef Vector< 3, T > V3; typedef Vector< 2, T > V2; const V4& a = V< 4 >( p, r ); NEW( V4, b ); NEW( V3, c ); NEW( V2, d );
        b.x() = a.y(); b.y() = a.z(); b.z() = a.w(); b.w() = a.x(); s.a( "xyzw", b ); b.r() = a.g(); b.g() = a.b(); b.b() = a.a(); b.a() = a.r(); s.a( "rgba", b );
        b.set( a.x(), a.y(), a.z(), a.w( )); s.a( "set4", b ); c.set( a.x(), a.y(), a.z( )); s.a( "set3", c ); d.set( a.x(), a.y( )); s.a( "set2", d );
        const V4 e( a.w(), a.z(), a.y(), a.x( )); const V3 f( a.w(), a.z(), a.y( )); const V2 g( a.w(), a.z( )); s.a( "ctor4", e ); s.a( "ctor3", f ); s.a( "ctor2", g );
        s.n( "x", c.x( )); s.n( "y", d.y( )); s.n( "z", f.z( )); s.n( "w", e.w( ));
        s.a( "UP", V3::UP ); s.a( "RIGHT", V3::RIGHT ); s.a( "UNIT_Y", V3::UNIT_Y ); s.a( "ONE", V4::ONE ); s.a( "ZERO", V2::ZERO );
    }
};
template< size_t M, size_t N, class T > struct Mat
{
    typedef Matrix< M, N, T > Y;
    static void access( const Pool< T >& p, R& r, Sink& s )
    {
        const Y& a = X< M, N >( p, r ); NEW( Y, c );
        for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) { c( i, j ) = a.at( i, j ); s.n( "at", a( i, j )); c.at( i, j ) = a( i, j ); s.n( "[][]", c[ i ][ j ] ); c[ int( i ) ][ j ] = T( i + j ); }
        s.a( "assigned", c ); for( auto it = a.rbegin(); it != a.rend(); ++it ) s.n( "r", *it );
        { size_t k = 0; for( auto it = c.rbegin(); it != c.rend(); ++it ) *it = T( ++k ); s.a( "reverse-set", c ); }
        s.n( "rows", a.get_number_of_rows( )); s.n( "columns", a.get_number_of_columns( )); s.n( "size", a.size( ));
        typedef Vector< M, T > CV; typedef Vector< N, T > RV; typedef Matrix< M, 1, T > CM; typedef Matrix< 1, N, T > RM; NEW( CV, cv ); NEW( RV, rv ); NEW( CM, cm ); NEW( RM, rm );
        for( size_t j = 0; j < N; ++j ) { a.get_column( j, cv ); s.a( "column", cv ); a.get_column( j, cm ); s.a( "column-m", cm ); s.a( "column-v", a.get_column( j )); c.set_column( N - 1 - j, cv ); if( j % 2 ) c.set_column( j, cm ); }
        s.a( "set_column", c );
        for( size_t i = 0; i < M; ++i ) { a.get_row( i, rv ); s.a( "row", rv ); a.get_row( i, rm ); s.a( "row-m", rm ); s.a( "row-v", a.get_row( i )); c.set_row( M - 1 - i, rv ); if( i % 2 ) c.set_row( i, rm ); }
        s.a( "set_row", c );
    }
    static void assign( const Pool< T >& p, R& r, Sink& s )
    {
        const Y& a = X< M, N >( p, r ); NEW( Y, c ); c = a; s.a( "=", c ); Y d( a ); s.a( "copy", d ); c = T( 4 ); s.a( "=fill", c ); c.fill( T( 2 )); s.a( "fill", c ); c.zero(); s.a( "zero", c );
        std::vector< T > l( M * N ); for( size_t i = 0; i < l.size(); ++i ) l[ i ] = T( i % 50 ); c = l; s.a( "=vector", c ); c.zero(); c = l.data(); s.a( "=data", c );
        c.set( l.begin(), l.end( )); s.a( "set-rows", c ); c.set( l.begin(), l.end(), false ); s.a( "set-columns", c ); c.zero(); { const size_t len = r.u( M * N + 1 ); const bool rows = r.b(); c.set( l.begin(), l.begin() + len, rows ); } s.a( "set-short", c );
        std::unique_ptr< T[][ N ] > two( new T[ M ][ N ] ); for( size_t i = 0; i < M; ++i ) for( size_t j = 0; j < N; ++j ) two[ i ][ j ] = T( 3 * i + j ); assign2( c, two.get(), s, std::integral_constant< bool, M == N >( ));
        Matrix< M, N, double > w( a ); s.a( "to-double", w ); Matrix< M, N, int > k; k.cast_from( a ); s.a( "to-int", k ); w = k; s.a( "from-int", w );
        Matrix< M + 1, N + 2, T > g( a ); s.a( "grow", g ); if( M > 1 ) { Matrix< ( M > 1 ? M - 1 : 1 ), N, T > h( a ); s.a( "shrink", h ); } c = g; s.a( "=larger", c );
        Y z; s.a( "default", z ); s.a( "ZERO", Y::ZERO ); std::swap( c, z ); s.a( "swap", z );
    }
    static void assign2( Y& c, const T ( *two )[ N ], Sink& s, std::true_type ) { c = two; s.a( "=array2", c ); }
    static void assign2( Y&, const T ( * )[ N ], Sink&, std::false_type ) {}
    static void arith( const Pool< T >& p, R& r, Sink& s )
    {
        const Y& a = X< M, N >( p, r ); const Y& b = X< M, N >( p, r ); const T k = pos< T >( r ); NEW( Y, c );
        c = a + b; s.a( "m+m", c ); c = a; c += b; s.a( "m+=m", c ); c += k; s.a( "m+=s", c ); c = a; c *= k; s.a( "m*=s", c ); c /= k; s.a( "m/=s", c ); if( std::is_signed< T >::value ) { Y a2( a ); c = a2 / T( -k ); s.a( "m/-s", c ); c *= T( -k ); s.a( "m*=-s", c ); c /= T( -k ); s.a( "m/=-s", c ); }
        Y d( a ); c = d * k; s.a( "m*s", c ); c = d / k; s.a( "m/s", c ); d.multiply_piecewise( b ); s.a( "piecewise", d );
        if( std::is_signed< T >::value ) { c = a - b; s.a( "m-m", c ); c = a; c -= b; s.a( "m-=m", c ); c -= k; s.a( "m-=s", c ); c = -a; s.a( "-m", c ); c = a.negate(); s.a( "negate", c ); }
        s.n( "==", a == b ); s.n( "!=", a != b ); s.n( "==self", a == Y( a )); s.n( "equals", a.equals( b, T( 1 ))); s.n( "equals-free", vmml::equals( a, b, T( 30 )));
        { Within w3 = { double( k ) }; s.n( "equals-cmp", a.equals( b, w3 )); }
        signs( a, b, k, s, std::integral_constant< bool, std::is_signed< T >::value >( ));
        { const Y z = Y::template get_initialized_matrix< vmml::set_to_zero_functor< Y > >(); s.a( "initialized", z ); } one( s, std::integral_constant< bool, M == N >( ));
        const Vector< N, T >& v = V< N >( p, r ); const Vector< M, T > w = a * v; s.a( "m*v", w );
    }
    struct Within { double tol; bool operator()( const T& x, const T& y ) const { return fabs( double( x ) - double( y )) <= tol; } };
    static void signs( const Y& a, const Y& b, T k, Sink& s, std::true_type )
    {
        vmml::matrix_equals_allow_inverted_rows< Y > er; vmml::matrix_equals_allow_inverted_columns< Y > ec; const Y m( -a );
        s.n( "rows-up-to-sign", er( a, m )); s.n( "rows-up-to-sign-tol", er( a, b, k )); s.n( "columns-up-to-sign", ec( a, m )); s.n( "columns-up-to-sign-tol", ec( a, b, k ));
    }
    static void signs( const Y&, const Y&, T, Sink&, std::false_type ) {}
    static void one( Sink& s, std::true_type ) { const Y z = Y::template get_initialized_matrix< vmml::set_to_identity_functor< Y > >(); s.a( "initialized-identity", z ); }
    static void one( Sink&, std::false_type ) {}
    static void files( const Pool< T >& p, R& r, Sink& s )
    {
        const Y& a = X< M, N >( p, r ); const std::string& d = own_dir(); NEW( Y, c ); c = T( 1 ); const bool slash = r.b();
        if( !std::is_same< T, long double >::value ) { // the padding of a long double is never written to
        a.write_to_raw( slash ? d + "/" : d, "m" ); c.read_from_raw( d, "m.raw" ); s.a( "raw", c ); }
        a.write_csv_file( d, slash ? "c" : "c.csv" ); std::ifstream f(( d + "/c.csv" ).c_str( )); std::stringstream text; text << f.rdbuf(); s.text( "csv", text.str( )); c.read_csv_file( d, "c" ); s.a( "csv-read", c );
    }
    static void whole( const Pool< T >& p, R& r, Sink& s )
    {
        const Y& a = X< M, N >( p, r ); typedef Matrix< N, M, T > Z; NEW( Z, t ); a.transpose_to( t ); s.a( "transpose_to", t ); const Z u = vmml::transpose( a ); s.a( "transpose", u );
        s.n( "min", a.get_min( )); s.n( "max", a.get_max( )); s.n( "nnz", a.nnz( )); s.n( "sum", a.sum_elements(), 8 ); s.n( "frobenius", a.frobenius_norm(), 8 ); s.n( "p-norm", a.p_norm( 3 ), 8 );
        typedef Vector< N, T > RV; NEW( RV, cs ); a.columnwise_sum( cs ); s.a( "columnwise_sum", cs, 8 );
        typedef Matrix< M, M, T > C; NEW( C, cov ); a.symmetric_covariance( cov ); s.a( "covariance", cov, 8 );
        halves( a, s, std::integral_constant< bool, ( M > 1 && N > 1 ) >( ));
        NEW( Y, te ); { const Vector< M, T >& u1 = V< M >( p, r ); const Vector< N, T >& u2 = V< N >( p, r ); te.tensor( u1, u2 ); } s.a( "tensor", te );
        Matrix< 3, 3, T > k( X< 3, 3 >( p, r )); Matrix< 2, 3, T > k2( X< 2, 3 >( p, r )); bits( k ); bits( k2 ); Y cv( a ); cv.convolve( k ); s.a( "convolve", cv, 16 ); cv = a; cv.convolve( k2 ); s.a( "convolve-23", cv, 16 );
        typedef Matrix< M * 2, N * 3, T > Kr; NEW( Kr, kr ); a.kronecker_product( X< 2, 3 >( p, r ), kr ); s.a( "kronecker", kr );
        typedef Matrix< M + 2, N + 3, T > Ds; NEW( Ds, ds ); ds.direct_sum( a, X< 2, 3 >( p, r )); s.a( "direct_sum", ds );
        Matrix< 2, N, T > kh; for( size_t i = 0; i < 2 * N; ++i ) kh.array[ i ] = T( i + 1 ); typedef Matrix< M * 2, N, T > Kh; NEW( Kh, kp ); a.khatri_rao_product( kh, kp ); s.a( "khatri_rao", kp );
        const size_t i = r.u( M ), j = r.u( N ); const Matrix< 1, 1, T > one = a.template get_sub_matrix< 1, 1 >( i, j ); s.a( "sub-1x1", one );
        Matrix< M, 1, T > col; a.get_sub_matrix( col, 0, j ); s.a( "sub-column", col ); Matrix< 1, N, T > row; a.get_sub_matrix( row, i, 0 ); s.a( "sub-row", row );
        Y ss( a ); ss.set_sub_matrix( row, M - 1 - i, 0 ); ss.set_sub_matrix( col, 0, N - 1 - j ); s.a( "set_sub_matrix", ss );
    }
    static void halves( const Y& a, Sink& s, std::true_type )
    {
        typedef Matrix< ( M > 1 ? M / 2 : 1 ), N, T > H1; typedef Matrix< M, ( N > 1 ? N / 2 : 1 ), T > H2; NEW( H1, h1 ); NEW( H2, h2 ); a.sum_rows( h1 ); a.sum_columns( h2 ); s.a( "sum_rows", h1 ); s.a( "sum_columns", h2 );
    }
    static void halves( const Y&, Sink&, std::false_type ) {}
    static void stream( const Pool< T >& p, R& r, Sink& s )
    {
        const Y& a = X< M, N >( p, r ); std::ostringstream os; os << a; s.text( "printed", os.str( ));
        if( sizeof( T ) > 1 ) { std::stringstream ss; ss << std::setprecision( 20 ); a.write_to_stream( ss ); NEW( Y, c ); c.read_from_stream( ss ); s.a( "stream", c ); }
    }
};
template< size_t M, size_t P, size_t N, class T > static void product( const Pool< T >& p, R& r, Sink& s )
{
    typedef Matrix< M, N, T > Y; const Matrix< M, P, T >& a = X< M, P >( p, r ); const Matrix< P, N, T >& b = X< P, N >( p, r ); NEW( Y, c );
    c.multiply( a, b ); s.a( "multiply", c, 8 ); c = a * b; s.a( "m*m", c, 8 ); vmml::multiply( a, b, c ); s.a( "multiply-free", c, 8 );
}
template< size_t M, class T > static void square( const Pool< T >& p, R& r, Sink& s )
{
    typedef Matrix< M, M, T > Y; const Y& a = X< M, M >( p, r ); const Y& b = X< M, M >( p, r ); NEW( Y, c ); c = a; c *= b; s.a( "m*=m", c, 8 ); c = a; c *= c; s.a( "m*=self", c, 8 );
    vmml::identity( c ); s.a( "identity", c ); s.a( "IDENTITY", Y::IDENTITY ); c.diag( V< M >( p, r )); s.a( "diag", c );
}

// --------------------------------------------------------- floating elements
template< size_t N, class T > struct VecF
{
    typedef Vector< N, T > W;
    static void norms( const Pool< T >& p, R& r, Sink& s )
    {
        const W& a = V< N >( p, r ); const W& b = V< N >( p, r ); NEW( W, c ); c = a;
        s.n( "dot", a.dot( b ), 8 ); s.n( "dot-free", vmml::dot( a, b ), 8 ); s.n( "length", a.length( )); s.n( "squared_length", a.squared_length( )); s.n( "distance", a.distance( b ), 8 ); s.n( "squared_distance", a.squared_distance( b ), 8 );
        s.n( "norm", a.norm( )); s.n( "manhattan", vmml::manhattan( a )); s.n( "unit", a.is_unit_vector( )); s.n( "normalize", c.normalize( )); s.a( "normalized", c ); const W d = vmml::normalize( b ); s.a( "normalize-free", d );
        s.n( "abs-min", a.find_abs_min_index( )); s.n( "abs-max", a.find_abs_max_index( ));
        c = a * a; c.sqrt_elementwise(); s.a( "sqrt", c ); c = a + T( 20 ); c.reciprocal(); s.a( "reciprocal", c ); c = a; c.reciprocal_safe(); for( auto& x : c ) if( x > T( 1e30 )) x = T( -7 ); s.a( "reciprocal_safe", c );
        Vector< N, int > k; c = a / T( 5 ); c.scale_to( k, T( -1 ), T( 1 )); Vector< N, unsigned char > u; c.scale_to( u, T( -1 ), T( 1 )); s.a( "scale-uchar", u );
    }
};
template< class T > struct Geo
{
    typedef Vector< 3, T > V3; typedef Vector< 4, T > V4; typedef Matrix< 4, 4, T > M4; typedef Matrix< 3, 3, T > M3; typedef Quaternion< T > Q; typedef AABB< T > B; typedef Frustum< T > F;
    static V3 unit( R& r ) { V3 v { T( r.r( -1, 1 )), T( r.r( -1, 1 )), T( r.r( .2, 1 )) }; v.normalize(); return v; }
    static void vec3( const Pool< T >& p, R& r, Sink& s )
    {
        const V3& a = V< 3 >( p, r ); const V3& b = V< 3 >( p, r ); const V3& d = V< 3 >( p, r ); NEW( V3, c ); c = a.cross( b ); s.a( "cross", c, 8 ); c.cross( a, b ); s.a( "cross-set", c, 8 ); const V3 f = vmml::cross< 3 >( a, b ); s.a( "cross-free", f, 8 );
        const V3 ax = unit( r ); c = a.rotate( T( r.r( -3, 3 )), ax ); s.a( "rotate", c, 16 );
        const V3 t0( a ), t1 = a + V3( T( 1 ), T( 2 ), T( 0 )), t2 = a + V3( T( -1 ), T( 1 ), T( 3 )); c.compute_normal( t0, t1, t2 ); s.a( "normal", c, 16 ); c = t0.compute_normal( t1, t2 ); s.a( "normal-value", c, 16 );
        const V4 pl = vmml::compute_plane( t0, t1, t2 ); s.a( "plane", pl, 64 ); s.n( "distance_to_plane", pl.distance_to_plane( d ), 64 ); c = pl.project_point_onto_plane( d ); s.a( "onto-plane", c, 64 );
        const V4 sp( a, T( 2 )); s.n( "distance_to_sphere", sp.distance_to_sphere( t2 ), 16 ); c = sp.project_point_onto_sphere( t2 ); s.a( "onto-sphere", c, 16 );
    }
    static M4 transform( R& r )
    {
        M4 m; const T k = T( r.r( -3, 3 )); m.rotate( k, unit( r )); V3 t { rnd< T >( r ), rnd< T >( r ), rnd< T >( r ) }; m.set_translation( t ); return m;
    }
    static void mat4( const Pool< T >& p, R& r, Sink& s )
    {
        const M4& a = X< 4, 4 >( p, r ); const T k = T( r.r( -3, 3 )), x = rnd< T >( r ), y = rnd< T >( r ), z = rnd< T >( r ); NEW( M4, c ); const V3& v = V< 3 >( p, r );
        c = a; c.rotate_x( k ); s.a( "rotate_x", c, 8 ); c.rotate_y( k ); s.a( "rotate_y", c, 8 ); c.rotate_z( k ); s.a( "rotate_z", c, 8 ); c = a; c.pre_rotate_x( k ); c.pre_rotate_y( k ); c.pre_rotate_z( k ); s.a( "pre_rotate", c, 16 );
        c.rotate( k, unit( r )); s.a( "rotate", c, 8 ); c = a; c.scale( x, y, z ); s.a( "scale", c ); c.scale( v ); s.a( "scale-v", c ); T arr[ 3 ] = { x, y, z }; c.scale( arr ); s.a( "scale-a", c );
        c = a; c.x() = k; c.y() = x; c.z() = y; s.a( "xyz", c ); c = a; c.scale_translation( v ); s.a( "scale_translation", c ); c.scale_translation( arr ); s.a( "scale_translation-a", c ); c.set_translation( x, y, z ); s.a( "set_translation", c ); c.set_translation( arr ); c.set_translation( v ); s.a( "set_translation-v", c );
        const V3 t = c.get_translation(); s.a( "get_translation", t ); V3 u; c.get_translation( u ); s.a( "get_translation-to", u );
        const V4& w = V< 4 >( p, r ); const V4 mw = a * w; s.a( "m4*v4", mw, 8 ); const V3 mv = c * v; s.a( "m4*v3", mv, 32 );
        c = vmml::create_translation( v ); s.a( "create_translation", c ); c = vmml::create_rotation( k, unit( r )); s.a( "create_rotation", c, 8 ); c = vmml::create_scaling( v ); s.a( "create_scaling", c ); c = vmml::create_scaling( x ); s.a( "create_scaling-u", c );
        c = a; vmml::apply_translation( c, x, y, z ); s.a( "apply_translation", c, 8 ); const V3 n = unit( r ); vmml::apply_rotation( c, k, n.x(), n.y(), n.z( )); s.a( "apply_rotation", c, 16 );
        M4 te; te.tensor( V< 3 >( p, r ), v ); s.a( "tensor-33", te );
    }
    template< size_t M > static void inv( const Pool< T >& p, R& r, Sink& s )
    {
        typedef Matrix< M, M, T > Y; const Y& a = X< M, M >( p, r ); NEW( Y, c ); c.zero(); s.n( "det", a.det(), 64 ); s.n( "invertible", a.inverse( c )); s.a( "inverse", c, 256 ); s.n( "compute_inverse", vmml::compute_inverse( a, c )); s.a( "inverse-free", c, 256 );
        Y z( a ); for( size_t j = 0; j < M; ++j ) z.array[ ( M - 1 ) * M + j ] = 0; const Y cc( c ); s.n( "singular", z.inverse( c ));
        cof< M >( a, r, s );
    }
    template< size_t M > static void cof( const Matrix< M, M, T >& a, R& r, Sink& s )
    {
        typedef Matrix< M, M, T > Y; NEW( Y, c ); a.get_adjugate( c ); s.a( "adjugate", c, 64 ); a.get_cofactors( c ); s.a( "cofactors", c, 64 );
        typedef Matrix< M - 1, M - 1, T > Z; NEW( Z, mi ); const size_t i = r.u( M ), j = r.u( M ); s.n( "minor", a.get_minor( mi, i, j ), 64 ); s.a( "minor-m", mi );
    }
    static void cofactors( const Pool< T >& p, R& r, Sink& s )
    {
        cof< 2 >( X< 2, 2 >( p, r ), r, s ); cof< 3 >( X< 3, 3 >( p, r ), r, s ); cof< 4 >( X< 4, 4 >( p, r ), r, s ); cof< 5 >( X< 5, 5 >( p, r ), r, s );
        s.n( "positive", vmml::is_positive_definite( X< 3, 3 >( p, r )));
    }
    static void numbers( const Pool< T >& p, R& r, Sink& s )
    {
        const M4& a = X< 4, 4 >( p, r ); s.n( "abs-min", a.get_abs_min( )); s.n( "abs-max", a.get_abs_max( )); s.n( "nnz-t", a.nnz( T( 1 ))); M4 t( a ); t.threshold( T( 2 )); s.a( "threshold", t );
        Matrix< 4, 4, unsigned char > u; a.quantize_to( u, T( -20 ), T( 40 )); s.a( "quantize_to", u ); Matrix< 4, 4, short > h; T lo, hi; a.quantize( h, lo, hi ); s.a( "quantize", h ); s.n( "lo", lo ); s.n( "hi", hi ); M4 d; h.dequantize( d, lo, hi ); s.a( "dequantize", d, 4 );
        M4 dct; dct.set_dct(); s.a( "dct", dct, 8 ); M4 rd; rd.zero(); (void)rd;
        Matrix< 3, 5, T > q( X< 3, 5 >( p, r )); Matrix< 3, 5, signed char > sc; q.quantize_to( sc, T( -5 ), T( 5 )); s.a( "quantize-35", sc );
        const double x = r.r( -9, 9 ), y = r.r( -9, 9 ); s.n( "squared", vmml::math::squared( T( x ))); s.n( "pythag", vmml::math::pythag( T( x ), T( y ))); s.n( "sign", vmml::math::sign( T( x ), T( y ))); s.n( "less", vmml::math::abs_less< T >()( T( x ), T( y ))); s.n( "greater", vmml::math::abs_greater< T >()( T( x ), T( y ))); s.n( "util-equals", vmml::equals( T( x ), T( y )));
    }
    template< size_t M, size_t N > static void qr( const Pool< T >& p, R& r, Sink& s )
    {
        Matrix< M, N, T > a( X< M, N >( p, r )); for( size_t i = 0; i < N; ++i ) a( i, i ) += T( 11 ); typedef Matrix< M, M, T > MQ; typedef Matrix< N, N, T > MR; NEW( MQ, q ); NEW( MR, rr ); vmml::qr_decompose_gram_schmidt( a, q, rr ); s.a( "Q", q, 64 ); s.a( "R", rr, 64 );
    }
    static Q quat( R& r ) { Q q { T( r.r( -1, 1 )), T( r.r( -1, 1 )), T( r.r( -1, 1 )), T( r.r( .3, 1 )) }; return q; }
    static void quats( const Pool< T >& p, R& r, Sink& s )
    {
        std::unique_ptr< const Q > ap( new Q( quat( r ))), bp( new Q( quat( r ))); const Q& a = *ap; const Q& b = *bp; const V3& v = V< 3 >( p, r ); const T k = pos< T >( r ); NEW( Q, c );
        c = a * b; s.q( "q*q", c, 8 ); c = a + b; s.q( "q+q", c ); c = a - b; s.q( "q-q", c ); c = a * k; s.q( "q*s", c ); c = a / k; s.q( "q/s", c ); c = a; c *= b; s.q( "q*=q", c, 8 ); c += b; s.q( "q+=q", c ); c -= a; s.q( "q-=q", c, 8 ); c *= k; c /= T( 3 ); s.q( "q*=s", c, 8 ); c = a; c /= -k; s.q( "q/=-s", c ); c = a / -k; s.q( "q/-s", c ); c *= -k; s.q( "q*=-s", c );
        c = a + v; s.q( "q+v", c ); c = a - v; s.q( "q-v", c ); c = a * v; s.q( "q*v", c, 8 ); c = a; c += v; s.q( "q+=v", c ); c -= v; s.q( "q-=v", c, 8 ); c *= v; s.q( "q*=v", c, 16 );
        s.n( "abs", a.abs( )); s.n( "squared_abs", a.squared_abs( )); s.n( "dot", a.dot( b ), 8 ); s.n( "dot-static", Q::dot( a, b ), 8 ); s.a( "cross", a.cross( b ), 8 ); c = a.get_conjugate(); s.q( "conjugate", c ); c.conjugate(); s.q( "conjugate2", c ); c = a.get_normalized(); s.q( "normalized", c ); c = a; s.n( "normalize", c.normalize( )); s.q( "normalize-q", c );
        c = a; c = c.inverse(); s.q( "inverse", c, 8 ); c = a.negate(); s.q( "negate", c ); c = -a; s.q( "-q", c ); s.n( "==", a == b ); s.n( "!=", a != b ); c = a; s.n( "==self", c == a ); s.n( "akin", c.is_akin( b, T( .5 ))); s.n( "==w", a == T( 1 )); s.n( "!=w", a != T( 1 )); s.n( "!=v4", a != V< 4 >( p, r )); { c = a; Q n( c.normal( b, a + v, b + v )); s.q( "normal", n, 16 ); } c.zero(); s.q( "zero", c ); c.identity(); s.q( "identity", c );
        c.set( k, v.x(), v.y(), v.z( )); s.q( "set", c ); V3 vv( v ); c.set( vv, k ); s.q( "set-v", c ); s.q( "ctor-v", Q( v )); s.q( "ctor-v-s", Q( v, k )); T l[ 4 ] = { 1, 2, 3, 4 }; c.set( l, l + 4 ); s.q( "set-iter", c ); c = V< 4 >( p, r ); s.q( "=v4", c ); s.n( "==v4", c == V< 4 >( p, r ));
        s.n( "at", a.at( 2 )); s.n( "()", a( 1 )); s.n( "x", a.x( )); s.n( "y", a.y( )); s.n( "z", a.z( )); s.n( "w", a.w( )); s.n( "min", a.find_min( )); s.n( "max-i", a.find_max_index( )); std::ostringstream os; os << c; s.text( "printed", os.str( ));
    }
    static void rotations( const Pool< T >& p, R& r, Sink& s )
    {
        Q a = quat( r ), b = quat( r ); a.normalize(); b.normalize(); M3 m3 = a.get_rotation_matrix(); s.a( "matrix", m3, 8 ); M4 m4; a.get_rotation_matrix( m4 ); s.a( "matrix-4", m4, 8 );
        Q c( m3 ); s.q( "from-3", c, 32 ); Q d( m4 ); s.q( "from-4", d, 32 ); c.set( m3 ); s.q( "set-3", c, 32 ); const T t = T( r.d( )); c = Q::slerp( t, a, b ); s.q( "slerp", c, 64 ); c = Q::slerp( T( 0 ), a, b ); s.q( "slerp-0", c, 64 );
        const V3& v = V< 3 >( p, r ); const T k = T( r.r( -3, 3 )); V3 ax = unit( r ); Q e; e = e.rotate( k, ax, v ); s.q( "rotate", e, 16 ); e = e.rotate_x( k, v ); s.q( "rotate_x", e, 16 ); e = e.rotate_y( k, v ); s.q( "rotate_y", e, 16 ); e = e.rotate_z( k, v ); s.q( "rotate_z", e, 16 );
        s.q( "IDENTITY", Q::IDENTITY ); s.q( "QUATERI", Q::QUATERI ); s.q( "QUATERJ", Q::QUATERJ ); s.q( "QUATERK", Q::QUATERK );
    }
    static void boxes( const Pool< T >& p, R& r, Sink& s )
    {
        const V3& a = V< 3 >( p, r ); const V3& b = V< 3 >( p, r ); NEW( B, x ); s.n( "empty", x.isEmpty( )); x.merge( a ); x.merge( b ); s.b( "merge", x ); B y( V< 4 >( p, r )); B z { rnd< T >( r ), rnd< T >( r ), rnd< T >( r ), pos< T >( r ) }; s.b( "cube", z );
        z.merge( x ); s.b( "merge-b", z ); s.n( "in", z.isIn( a )); s.n( "in2", z.isIn2d( b )); s.n( "in-sphere", z.isIn( V4( a, T( .25 )))); s.n( "==", z == x ); s.n( "!=", z != x ); s.a( "center", z.getCenter( )); s.a( "dimension", z.getDimension( )); const T k = pos< T >( r );
        s.b( "*", z * k ); s.b( "/", z / k ); s.b( "+", z + k ); s.b( "-", z - k ); z *= k; z += k; s.b( "*=", z ); z -= T( 1 ); z /= k; s.b( "/=", z, 8 ); z.setMin( a ); z.setMax( b ); s.b( "setMin", z ); z.set( b, a ); s.b( "set", z ); z.set( T( 1 ), T( 2 ), T( 3 ), k ); s.b( "set-cube", z ); z.getMin() = a; s.b( "getMin", z ); std::ostringstream os; os << z; s.text( "printed", os.str( )); z.setEmpty(); s.n( "empty", z.isEmpty( )); s.b( "unit", B::makeUnitBox( ));
    }
    static F frustum( R& r ) { const T n = T( r.r( .2, 2 )); return F { T( r.r( -2, -.5 )), T( r.r( .5, 2 )), T( r.r( -2, -.5 )), T( r.r( .5, 2 )), n, n + T( r.r( 3, 30 )) }; }
    static void frusta( const Pool< T >&, R& r, Sink& s )
    {
        std::unique_ptr< const F > ap( new F( frustum( r ))); const F& a = *ap; NEW( F, f ); f = a; s.f( "=", f ); M4 m = a.compute_matrix(); s.a( "matrix", m, 16 ); m = a.compute_ortho_matrix(); s.a( "ortho", m, 16 ); a.compute_matrix( m ); a.compute_ortho_matrix( m ); s.a( "ortho-to", m, 16 );
        { const T fov = T( r.r( 20, 100 )), asp = T( r.r( .5, 2 )), nr = T( r.r( .2, 3 )); f.set_perspective( fov, asp, nr, T( 50 )); } s.f( "perspective", f, 16 ); f = a; f.adjust_near( T( r.r( .3, 2 ))); s.f( "adjust_near", f, 8 ); f.apply_jitter( Vector< 2, T >( T( .25 ), T( -.5 ))); s.f( "jitter", f, 8 ); s.n( "width", a.get_width(), 4 ); s.n( "height", a.get_height(), 4 );
        f.set( T( -1 ), T( 2 ), T( -3 ), T( 4 ), T( 1 ), T( 9 )); s.f( "set", f ); f.left() = a.right(); f.top() = a.bottom(); f.near_plane() = a.far_plane(); s.f( "named", f ); Frustum< double > d( a ); s.f( "to-double", d ); f = d; s.f( "from-double", f ); s.f( "from-array", F( a.array )); std::ostringstream os; os << a; s.text( "printed", os.str( )); s.f( "DEFAULT", F::DEFAULT );
    }
    static Vector< 3, T > corner( const M4& inv, int x, int y, int z ) { const V4 v = inv * V4( T( x ), T( y ), T( z ), T( 1 )); return V3( v.x() / v.w(), v.y() / v.w(), v.z() / v.w( )); }
    static void culler( const Pool< T >& p, R& r, Sink& s )
    {
        const F f = frustum( r ); const M4 tr = transform( r ), m = f.compute_matrix() * tr; NEW( FrustumCuller< T >, k ); k.setup( m ); const FrustumCuller< T >& ck = k; std::ostringstream os; os << ck; s.text( "printed-planes", os.str( ).substr( 0, 20 ));
        for( int i = 0; i < 3; ++i ) { const V3& c = V< 3 >( p, r ); s.n( "sphere", int( ck.test_sphere( V4( c, T( .5 ))))); typedef Vector< 2, T > V2; s.n( "box", int( ck.test_aabb( V2( c.x(), c.x() + T( 1 )), V2( c.y(), c.y() + T( 1 )), V2( c.z(), c.z() + T( 1 ))))); }
        M4 inv; if( m.inverse( inv, T( 0 )))
        {
            NEW( FrustumCuller< T >, g ); g.setup( corner( inv, -1, 1, -1 ), corner( inv, 1, 1, -1 ), corner( inv, -1, -1, -1 ), corner( inv, 1, -1, -1 ), corner( inv, -1, 1, 1 ), corner( inv, 1, 1, 1 ), corner( inv, -1, -1, 1 ), corner( inv, 1, -1, 1 ));
            s.n( "sphere-c", int( g.test_sphere( V4( V< 3 >( p, r ), T( .5 ))))); std::ostringstream o2; o2 << vmml::VISIBILITY_FULL << vmml::VISIBILITY_PARTIAL << vmml::VISIBILITY_NONE; s.text( "visibility", o2.str( ));
        }
    }
    static void rays( const Pool< T >& p, R& r, Sink& s )
    {
        const V3& o = V< 3 >( p, r ); const V3 d = unit( r ); const V3 c = o + d * T( 5 ); std::unique_ptr< Intersection< T > > ry( new Intersection< T >( o, d )); const Intersection< T >& k = *ry; T t = T( -7 ); s.n( "hit", k.test_sphere( V4( c, T( 1 )), t )); s.n( "t", t, 64 ); t = T( -7 ); s.n( "inside", k.test_sphere( V4( o, T( 2 )), t )); s.n( "t", t, 64 ); t = T( -7 ); s.n( "behind", k.test_sphere( V4( o - d * T( 9 ), T( 1 )), t )); s.n( "t", t );
    }
    static void filters( const Pool< T >& p, R& r, Sink& s )
    {
        typedef LowpassFilter< 4, T > L; typedef LowpassFilter< 3, V3 > L3; std::unique_ptr< L > l( new L( float( r.d( )))); std::unique_ptr< L3 > m( new L3( float( r.d( ))));
        s.n( "start", l->get( ));
        for( int i = 0; i < 7; ++i ) { s.n( "add", l->add( rnd< T >( r )), 16 ); s.a( "add-v", m->add( V< 3 >( p, r )), 16 ); s.n( "get", l->get(), 16 ); s.n( "*", **l, 16 ); s.n( "->", ( *m )->x(), 16 ); if( i == 4 ) l->set_smooth_factor( float( r.d( ))); }
        L copy( *l ); s.n( "copy", copy.get(), 16 ); s.n( "copy-add", copy.add( T( 3 )), 16 ); s.n( "orig", l->get(), 16 );
    }
};

template< class T > struct Op { const char* name; void ( *run )( const Pool< T >&, R&, Sink& ); };
// defined in api_ops.cpp, one object file per element type and part
template< class T > const std::vector< Op< T > >& common_ops();
template< class T > const std::vector< Op< T > >& special_ops();
template< class T > inline std::vector< Op< T > > all_ops( std::true_type )
{
    std::vector< Op< T > > v = common_ops< T >(); const std::vector< Op< T > >& more = special_ops< T >();
    for( int k = 0; k < 3; ++k ) v.insert( v.end(), more.begin(), more.end( )); // the special ones as often as the per-dimension ones
    return v;
}
template< class T > inline std::vector< Op< T > > all_ops( std::false_type ) { return common_ops< T >(); }
template< class T > inline const std::vector< Op< T > >& ops() { static const std::vector< Op< T > > v = all_ops< T >( std::is_floating_point< T >( )); return v; }
} // namespace api
