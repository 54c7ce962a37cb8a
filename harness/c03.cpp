// C03: every view of the same storage agrees, after every write through any of them
#include "common.hpp"
#include <vmmlib/matrix.hpp>
#include <list>
#include <deque>
using vmml::Matrix; using vmml::Vector;
#ifdef VMMLIB_NO_CONVERSION_OPERATORS
#  define RAW( x ) ( x ).array
#else
#  define RAW( x ) x // by the conversion to a pointer
#endif

template< size_t M, size_t N, class T > struct A
{
    typedef Matrix< M, N, T > X;
    typedef std::vector< T > S; // element (i,j) at j*M+i: the storage order the class documents
    static T& E( S& s, size_t i, size_t j ) { return s[ j * M + i ]; }

    template< size_t O, size_t P > static void subs( Ctx& c, X& m, S& s, bool write )
    {
        const size_t r = c.rng.u( M - O + 1 ), q = c.rng.u( N - P + 1 );
        c.in( int( r )); c.in( int( q ));
        if( write )
        {
            Matrix< O, P, T > w; fill( c, w );
            if( r == 0 && q == 0 && c.rng.b( )) m.set_sub_matrix( w ); else m.set_sub_matrix( w, r, q );
            for( size_t i = 0; i < O; ++i ) for( size_t j = 0; j < P; ++j ) E( s, r + i, q + j ) = w.array[ j * O + i ];
            return;
        }
        vt::Canary< Matrix< O, P, T > > a; m.get_sub_matrix( a.v, r, q );
        const Matrix< O, P, T > b = m.template get_sub_matrix< O, P >( r, q );
        bool ok = a.ok();
        for( size_t i = 0; i < O; ++i ) for( size_t j = 0; j < P; ++j )
            ok &= a.v.array[ j * O + i ] == E( s, r + i, q + j ) && b.array[ j * O + i ] == E( s, r + i, q + j );
        CHECK( "sub-matrix", ok, O, P, r, q, vt::show( m ), vt::show( a.v ));
    }
    static void sub_any( Ctx& c, X& m, S& s, bool w )
    {
        enum { M1 = M > 1 ? M - 1 : 1, N1 = N > 1 ? N - 1 : 1, M2 = M > 2 ? 2 : 1, N2 = N > 2 ? 2 : 1 };
        switch( c.rng.u( 7 ))
        {
        case 0: subs< 1, 1 >( c, m, s, w ); break;
        case 1: subs< M, N >( c, m, s, w ); break;
        case 2: subs< M1, N >( c, m, s, w ); break;
        case 3: subs< M, N1 >( c, m, s, w ); break;
        case 4: subs< M1, N1 >( c, m, s, w ); break;
        case 5: subs< M2, N1 >( c, m, s, w ); break;
        default: subs< M1, N2 >( c, m, s, w );
        }
    }
    static void agree( Ctx& c, vt::Canary< X >& cm, S& s )
    {
        X& m = cm.v; const X& k = m;
        bool raw = true, at = true, call = true, br = true, it = true, rit = true, ptr = true;
        const T* p = RAW( k ); T* pw = RAW( m );
        auto b = m.begin(); auto kb = k.begin(); auto rb = m.rbegin(); auto krb = k.rbegin();
        for( size_t j = 0; j < N; ++j ) for( size_t i = 0; i < M; ++i, ++b, ++kb )
        {
            const size_t n = j * M + i; const T e = s[ n ];
            raw &= m.array[ n ] == e;
            at &= m.at( i, j ) == e && k.at( i, j ) == e && &m.at( i, j ) == m.array + n && &k.at( i, j ) == m.array + n;
            call &= m( i, j ) == e && k( i, j ) == e && &m( i, j ) == m.array + n && &k( i, j ) == m.array + n;
            { const typename X::row_accessor row = m[ i ]; br &= &row[ j ] == m.array + n; }
            br &= m[ i ][ j ] == e && m[ int( i ) ][ j ] == e && &m[ i ][ j ] == m.array + n;
            it &= *b == e && *kb == e; ptr &= p[ n ] == e && pw[ n ] == e;
        }
        it &= b == m.end() && kb == k.end();
        size_t n = M * N;
        for( ; rb != m.rend() && n; ++rb ) rit &= *rb == s[ --n ];
        rit &= n == 0 && rb == m.rend();
        n = M * N;
        for( ; krb != k.rend() && n; ++krb ) rit &= *krb == s[ --n ];
        rit &= n == 0 && krb == k.rend();
        CHECK( "storage-column-major", raw, vt::show( m ), vt::show( s ));
        CHECK( "at", at, vt::show( m ), vt::show( s ));
        CHECK( "call-operator", call, vt::show( m ), vt::show( s ));
        CHECK( "subscript", br, vt::show( m ), vt::show( s ));
        CHECK( "iterators", it, vt::show( m ), vt::show( s ));
        CHECK( "reverse-iterators", rit, vt::show( m ), vt::show( s ));
        CHECK( "raw-pointer", ptr, vt::show( m ), vt::show( s ));
        bool ok = true;
        for( size_t i = 0; i < M; ++i )
        {
            const Vector< N, T > r = k.get_row( i ); vt::Canary< Vector< N, T > > r2; k.get_row( i, r2.v ); vt::Canary< Matrix< 1, N, T > > r3; k.get_row( i, r3.v );
            ok &= r2.ok() && r3.ok();
            for( size_t j = 0; j < N; ++j ) ok &= r.array[ j ] == E( s, i, j ) && r2.v.array[ j ] == E( s, i, j ) && r3.v.array[ j ] == E( s, i, j );
        }
        CHECK( "get_row", ok, vt::show( m ), vt::show( s ));
        ok = true;
        for( size_t j = 0; j < N; ++j )
        {
            const Vector< M, T > r = k.get_column( j ); vt::Canary< Vector< M, T > > r2; k.get_column( j, r2.v ); vt::Canary< Matrix< M, 1, T > > r3; k.get_column( j, r3.v );
            ok &= r2.ok() && r3.ok();
            for( size_t i = 0; i < M; ++i ) ok &= r.array[ i ] == E( s, i, j ) && r2.v.array[ i ] == E( s, i, j ) && r3.v.array[ i ] == E( s, i, j );
        }
        CHECK( "get_column", ok, vt::show( m ), vt::show( s ));
        sub_any( c, m, s, false );
        four( c, m, s, std::integral_constant< bool, M == 4 && N == 4 >( ));
        last( c, m, s, std::integral_constant< bool, ( N >= 2 && M + 1 >= N ) >( ));
        CHECK( "reading-changes-nothing", vt::memdiff( m.array, s.data(), sizeof( m.array )) == 0, "" );
        CHECK( "no-stray-write", cm.ok(), "" );
    }
    // the translation is the top of the last column, whatever the height
    static void last( Ctx&, X&, S&, std::false_type ) {}
    static void last( Ctx& c, X& m, S& s, std::true_type )
    {
        vt::Canary< Vector< N - 1, T > > r; const Vector< N - 1, T > t = m.get_translation(); m.get_translation( r.v );
        Vector< N - 1, double > w; m.get_translation( w ); bool ok = r.ok();
        for( size_t i = 0; i + 1 < N; ++i ) ok &= t.array[ i ] == E( s, i, N - 1 ) && r.v.array[ i ] == E( s, i, N - 1 ) && w.array[ i ] == double( E( s, i, N - 1 ));
        CHECK( "translation-last-column", ok, vt::show( m ), vt::show( t ));
        if( M != N ) SAW( "saw-translation-not-square" );
    }
    static void four( Ctx&, X&, S&, std::false_type ) {}
    static void four( Ctx& c, X& m, S& s, std::true_type )
    {
        const Vector< 3, T > t = m.get_translation();
        CHECK( "translation", t.array[ 0 ] == s[ 12 ] && t.array[ 1 ] == s[ 13 ] && t.array[ 2 ] == s[ 14 ], vt::show( m ));
        CHECK( "named", m.x() == s[ 12 ] && m.y() == s[ 13 ] && m.z() == s[ 14 ] && &m.x() == m.array + 12, vt::show( m ));
    }
    static void write4( Ctx& c, X& m, S& s, std::false_type ) { sub_any( c, m, s, true ); }
    static void write4( Ctx& c, X& m, S& s, std::true_type )
    {
        Vector< 3, T > t; fill( c, t );
        if( c.rng.b( )) { m.set_translation( t ); for( int i = 0; i < 3; ++i ) s[ 12 + i ] = t.array[ i ]; }
        else { m.x() = s[ 12 ] = t.array[ 0 ]; m.z() = s[ 14 ] = t.array[ 2 ]; if( c.rng.b( )) m.y() = s[ 13 ] = t.array[ 1 ]; }
    }
    template< class L > static void list( Ctx& c, X& m, S& s )
    {
        const size_t n = c.rng.one( 3 ) ? M * N : c.rng.u( M * N + 4 );
        L l; std::vector< T > v;
        for( size_t i = 0; i < n; ++i ) { v.push_back( gen< T >( c )); l.push_back( v.back( )); }
        c.in( int( n ));
        const bool rows = c.rng.b();
        if( rows ) { if( c.rng.b( )) m.set( l.begin(), l.end( )); else m.set( l.begin(), l.end(), true ); }
        else m.set( l.begin(), l.end(), false );
        for( size_t i = 0; i < n && i < M * N; ++i )
            if( rows ) E( s, i / N, i % N ) = v[ i ]; else s[ i ] = v[ i ];
        if( n < M * N ) SAW( "saw-short-list" );
        if( n > M * N ) SAW( "saw-long-list" );
    }
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); vt::pick_wide< T >( c );
        vt::Canary< X > cm; X& m = cm.v; fill( c, m );
        S s( m.array, m.array + M * N );
        const int steps = c.rng.i( 1, 10 );
        for( int q = 0; q < steps; ++q )
        {
            const size_t i = c.rng.u( M ), j = c.rng.u( N ), n = j * M + i; const int op = c.rng.i( 0, 16 );
            c.in( op ); c.in( int( n ));
            switch( op )
            {
            case 0: m.at( i, j ) = E( s, i, j ) = gen< T >( c ); break;
            case 1: m( i, j ) = E( s, i, j ) = gen< T >( c ); break;
            case 2: m[ i ][ j ] = E( s, i, j ) = gen< T >( c ); break;
            case 3: *( m.begin() + n ) = s[ n ] = gen< T >( c ); break;
            case 4: *( m.rbegin() + n ) = s[ M * N - 1 - n ] = gen< T >( c ); break;
            case 5: { T* p = RAW( m ); p[ n ] = s[ n ] = gen< T >( c ); break; }
            case 6: { Vector< N, T > r; fill( c, r ); m.set_row( i, r ); for( size_t k = 0; k < N; ++k ) E( s, i, k ) = r.array[ k ]; break; }
            case 7: { Matrix< 1, N, T > r; fill( c, r ); m.set_row( i, r ); for( size_t k = 0; k < N; ++k ) E( s, i, k ) = r.array[ k ]; break; }
            case 8: { Vector< M, T > r; fill( c, r ); m.set_column( j, r ); for( size_t k = 0; k < M; ++k ) E( s, k, j ) = r.array[ k ]; break; }
            case 9: { Matrix< M, 1, T > r; fill( c, r ); m.set_column( j, r ); for( size_t k = 0; k < M; ++k ) E( s, k, j ) = r.array[ k ]; break; }
            case 10: sub_any( c, m, s, true ); break;
            case 11: list< std::vector< T > >( c, m, s ); break;
            case 12: if( c.rng.b( )) list< std::list< T > >( c, m, s ); else list< std::deque< T > >( c, m, s ); break;
            case 13: { std::vector< T > v( M * N ); for( T& x : v ) x = gen< T >( c ); m = static_cast< const T* >( v.data( )); for( size_t k = 0; k < M * N; ++k ) E( s, k / N, k % N ) = v[ k ]; break; }
            case 14: { std::vector< T > v( M * N + c.rng.u( 3 )); for( T& x : v ) x = gen< T >( c ); m = v; for( size_t k = 0; k < M * N; ++k ) E( s, k / N, k % N ) = v[ k ]; break; }
            case 15: { T v[ M ][ N ]; for( size_t a = 0; a < M; ++a ) for( size_t b = 0; b < N; ++b ) E( s, a, b ) = v[ a ][ b ] = gen< T >( c ); m = v; break; }
            default: write4( c, m, s, std::integral_constant< bool, M == 4 && N == 4 >( ));
            }
            agree( c, cm, s );
        }
    }
};

template< size_t M, class T > struct B
{
    typedef Vector< M, T > V; typedef std::vector< T > S;
    template< size_t K > static void sub( Ctx& c, V& v, S& s, bool write )
    {
        const size_t o = c.rng.u( M - K + 1 ); const V& k = v; c.in( int( o ));
        if( write )
        {
            Vector< K, T > w; fill( c, w ); v.template get_sub_vector< K >( o ) = w;
            for( size_t i = 0; i < K; ++i ) s[ o + i ] = w.array[ i ];
            return;
        }
        Vector< K, T >& a = v.template get_sub_vector< K >( o ); const Vector< K, T >& b = k.template get_sub_vector< K >( o );
        CHECK( "sub-vector-aliases", a.array == v.array + o && b.array == v.array + o, K, o );
        bool ok = true; for( size_t i = 0; i < K; ++i ) ok &= a.at( i ) == s[ o + i ] && b( i ) == s[ o + i ];
        if( o == 0 ) ok &= &v.template get_sub_vector< K >() == &a;
        CHECK( "sub-vector", ok, K, o, vt::show( v ));
    }
    static void sub_any( Ctx& c, V& v, S& s, bool w )
    {
        enum { M1 = M > 1 ? M - 1 : 1, M2 = M > 2 ? 2 : 1, M3 = M > 3 ? 3 : 1 };
        switch( c.rng.u( 4 )) { case 0: sub< M >( c, v, s, w ); break; case 1: sub< M1 >( c, v, s, w ); break; case 2: sub< M2 >( c, v, s, w ); break; default: sub< M3 >( c, v, s, w ); }
    }
    static T& name( V& v, size_t i, bool color )
    {
        switch( i ) { case 0: return color ? v.r() : v.x(); case 1: return color ? v.g() : v.y(); case 2: return color ? v.b() : v.z(); default: return color ? v.a() : v.w(); }
    }
    static const T& kname( const V& v, size_t i, bool color )
    {
        switch( i ) { case 0: return color ? v.r() : v.x(); case 1: return color ? v.g() : v.y(); case 2: return color ? v.b() : v.z(); default: return color ? v.a() : v.w(); }
    }
    static void agree( Ctx& c, vt::Canary< V >& cv, S& s )
    {
        V& v = cv.v; const V& k = v; bool ok = true, it = true; const T* p = RAW( k ); T* pw = RAW( v );
        auto b = v.begin(); auto kb = k.begin(); auto rb = v.rbegin(); auto krb = k.rbegin();
        for( size_t i = 0; i < M; ++i )
        {
            ok &= v.array[ i ] == s[ i ] && v.at( i ) == s[ i ] && k.at( i ) == s[ i ] && v( i ) == s[ i ] && k( i ) == s[ i ] && p[ i ] == s[ i ] && pw[ i ] == s[ i ] && v[ i ] == s[ i ] && k[ i ] == s[ i ];
            ok &= &v.at( i ) == v.array + i && &k( i ) == v.array + i && pw == v.array;
            it &= *b++ == s[ i ]; it &= *kb++ == s[ i ]; it &= *rb++ == s[ M - 1 - i ]; it &= *krb++ == s[ M - 1 - i ];
        }
        it &= b == v.end() && kb == k.end() && rb == v.rend() && krb == k.rend();
        CHECK( "vector-access", ok, vt::show( v ), vt::show( s ));
        CHECK( "vector-iterators", it, vt::show( v ), vt::show( s ));
        CHECK( "vector-size", V::size() == M && V::DIMENSION == M, "" );
        ok = true;
        for( size_t i = 0; i < M && i < 4; ++i ) for( int q = 0; q < 2; ++q ) ok &= &name( v, i, q ) == v.array + i && &kname( k, i, q ) == v.array + i && name( v, i, q ) == s[ i ] && kname( k, i, q ) == s[ i ];
        CHECK( "vector-named", ok, vt::show( v ), vt::show( s ));
        sub_any( c, v, s, false );
        CHECK( "reading-changes-nothing", vt::memdiff( v.array, s.data(), sizeof( v.array )) == 0, "" );
        CHECK( "no-stray-write", cv.ok(), "" );
    }
    template< size_t K > static void part( Ctx& c, V& v, S& s )
    {
        Vector< K, T > w; fill( c, w ); v.set( w );
        for( size_t i = 0; i < K && i < M; ++i ) s[ i ] = w.array[ i ];
    }
    static void front( Ctx& c, V& v, S& s, size_t n )
    {
        T x[ 4 ]; for( size_t i = 0; i < 4; ++i ) x[ i ] = gen< T >( c );
        if( n == 2 ) v.set( x[ 0 ], x[ 1 ] ); else if( n == 3 ) v.set( x[ 0 ], x[ 1 ], x[ 2 ] ); else v.set( x[ 0 ], x[ 1 ], x[ 2 ], x[ 3 ] );
        for( size_t i = 0; i < n; ++i ) s[ i ] = x[ i ];
    }
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); vt::pick_wide< T >( c );
        vt::Canary< V > cv; V& v = cv.v; fill( c, v ); S s( v.array, v.array + M );
        const int steps = c.rng.i( 1, 12 );
        for( int q = 0; q < steps; ++q )
        {
            const size_t i = c.rng.u( M ); const int op = c.rng.i( 0, 12 ); c.in( op ); c.in( int( i ));
            switch( op )
            {
            case 0: v.at( i ) = s[ i ] = gen< T >( c ); break;
            case 1: v( i ) = s[ i ] = gen< T >( c ); break;
            case 2: v[ i ] = s[ i ] = gen< T >( c ); break;
            case 3: *( v.begin() + i ) = s[ i ] = gen< T >( c ); break;
            case 4: *( v.rbegin() + i ) = s[ M - 1 - i ] = gen< T >( c ); break;
            case 5: { const size_t k = i % ( M < 4 ? M : 4 ); name( v, k, c.rng.b( )) = s[ k ] = gen< T >( c ); break; }
            case 6: case 7: sub_any( c, v, s, true ); break;
            case 8:
            {
                std::list< T > l; const size_t n = c.rng.one( 3 ) ? M : c.rng.u( M + 4 ); size_t k = 0;
                for( size_t z = 0; z < n; ++z ) l.push_back( gen< T >( c ));
                v.iter_set( l.begin(), l.end( ));
                for( T x : l ) if( k < M ) s[ k++ ] = x;
                break;
            }
            case 9: { const T x = gen< T >( c ); if( c.rng.b( )) v.set( x ); else v = x; for( T& e : s ) e = x; break; }
            case 10: { Vector< M - 1, T > w; fill( c, w ); const T x = gen< T >( c ); v.set( w, x ); for( size_t k = 0; k + 1 < M; ++k ) s[ k ] = w.array[ k ]; s[ M - 1 ] = x; break; }
            case 11: switch( c.rng.u( 3 )) { case 0: part< M - 1 >( c, v, s ); break; case 1: part< M + 1 >( c, v, s ); break; default: part< 2 >( c, v, s ); } break;
            default: front( c, v, s, std::min< size_t >( M, 2 + c.rng.u( 3 )));
            }
            agree( c, cv, s );
        }
    }
};

void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    typedef void ( *Fn )( Ctx& );
    static const Fn tab[] = {
        A< 4, 4, float >::run, A< 3, 3, double >::run, A< 2, 3, int >::run, A< 3, 2, float >::run, A< 1, 5, double >::run, A< 5, 1, float >::run,
        A< 4, 2, uint8_t >::run, A< 3, 7, double >::run, A< 7, 3, int >::run, A< 1, 1, float >::run, A< 4, 4, double >::run, A< 3, 4, float >::run,
        A< 6, 6, uint16_t >::run, B< 4, float >::run, B< 4, double >::run, B< 4, uint8_t >::run, B< 5, int >::run, B< 9, double >::run, B< 300, float >::run, A< 19, 17, double >::run, A< 5, 70, float >::run, B< 6, float >::run,
        B< 2, float >::run, B< 3, double >::run, A< 2, 3, long double >::run, A< 4, 4, long double >::run, B< 4, long double >::run, B< 3, long double >::run, B< 2, int64_t >::run, B< 4, unsigned >::run };
    const size_t k = c.rng.u( sizeof( tab ) / sizeof( *tab ));
    c.in( int( k ));
    tab[ k ]( c );
}
