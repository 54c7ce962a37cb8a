// C02: checked builds reject every out-of-range access and accept every valid one
#include "common.hpp"
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
using vmml::Matrix; using vmml::Vector;

#ifdef VMMLIB_SAFE_ACCESSORS
static const bool SAFE = true;
#else
static const bool SAFE = false; // only in-range accesses are made
#endif

// an index outside [0,n): next to the edge, elsewhere inside the object's storage,
// negative as unsigned, or one that wraps around when multiplied or added
static size_t outside( Ctx& c, size_t n, size_t factor )
{
    size_t i;
    switch( c.rng.u( 8 ))
    {
    case 0: case 1: i = n; break;
    case 2: i = n + 1 + c.rng.u( 3 ); break;
    case 3: i = size_t( -1 ) - c.rng.u( 3 ); break;
    case 4: i = size_t( -1 ) / factor + 1; break;      // i * factor is about 0
    case 5: i = ( size_t( 1 ) << 63 ) + c.rng.u( n ); break;
    case 6: i = ( size_t( 1 ) << 32 ) + c.rng.u( n ); break;
    default: i = n + c.rng.u( n * factor + 1 );
    }
    if( i < n ) i = n;
    c.in( double( i )); return i;
}
static size_t inside( Ctx& c, size_t n ) { const size_t i = c.rng.one( 3 ) ? n - 1 : c.rng.u( n ); c.in( double( i )); return i; }

// 0 = returned, 1 = library exception with a text, 2 = anything else
template< class F > static int outcome( F f )
{
    try { f(); return 0; }
    catch( const vmml::exception& x ) { return *x.what() ? 1 : 2; }
    catch( ... ) { return 2; }
}
template< class T > static void use( const T& t ) { volatile T v = t; ( void )v; }

#define REFUSE( key, stmt, ... ) do { const int o_ = outcome( [&]() { stmt; } ); \
    CHECK( key, o_ == 1, "outcome", o_, __VA_ARGS__ ); } while( 0 )
#define ACCEPT( key, stmt, ... ) do { const int o_ = outcome( [&]() { stmt; } ); \
    CHECK( key, o_ == 0, "outcome", o_, __VA_ARGS__ ); } while( 0 )

template< size_t M, size_t N, class T > struct A
{
    typedef Matrix< M, N, T > X;
    template< size_t O, size_t P > static void subs( Ctx& c, vt::Canary< X >& cm, bool bad )
    {
        X& m = cm.v; const X& k = m; const X old( m );
        size_t r = c.rng.u( M - O + 1 ), q = c.rng.u( N - P + 1 );
        c.in( double( r )); c.in( double( q ));
        vt::Canary< Matrix< O, P, T > > s; fill( c, s.v ); const Matrix< O, P, T > so( s.v );
        if( !bad )
        {
            ACCEPT( "sub-matrix-valid", k.get_sub_matrix( s.v, r, q ), O, P, r, q );
            ACCEPT( "sub-matrix-valid", ( k.template get_sub_matrix< O, P >( r, q )), O, P, r, q );
            ACCEPT( "set_sub_matrix-valid", m.set_sub_matrix( so, r, q ), O, P, r, q );
        }
        else
        {
            if( c.rng.b( )) r = M - O + 1 + ( c.rng.b() ? 0 : outside( c, M, M )); else q = N - P + 1 + ( c.rng.b() ? 0 : outside( c, N, M ));
            if( r < M - O + 1 && q < N - P + 1 ) r = M - O + 1;
            REFUSE( "sub-matrix", k.get_sub_matrix( s.v, r, q ), O, P, r, q );
            REFUSE( "sub-matrix", ( k.template get_sub_matrix< O, P >( r, q )), O, P, r, q );
            CHECK( "refused-get-changes-nothing", vt::memdiff( m.array, old.array, sizeof( m.array )) == 0 && s.ok(), "" );
            REFUSE( "set_sub_matrix", m.set_sub_matrix( so, r, q ), O, P, r, q );
            for( size_t i = 0; i < M * N; ++i )
            {
                bool known = vt::same( m.array[ i ], old.array[ i ] );
                for( size_t j = 0; j < O * P; ++j ) known |= vt::same( m.array[ i ], so.array[ j ] );
                CHECK( "refused-set-leaves-valid", known, i, vt::show( old ), vt::show( m ));
            }
        }
        CHECK( "no-stray-write", s.ok() && cm.ok(), "" );
    }
    static void sub_any( Ctx& c, vt::Canary< X >& m, bool bad )
    {
        enum { M1 = M > 1 ? M - 1 : 1, N1 = N > 1 ? N - 1 : 1 };
        switch( c.rng.u( 5 )) { case 0: subs< 1, 1 >( c, m, bad ); break; case 1: subs< M, N >( c, m, bad ); break; case 2: subs< M1, N >( c, m, bad ); break;
                                case 3: subs< M, N1 >( c, m, bad ); break; default: subs< M1, N1 >( c, m, bad ); }
    }
    static void minors( Ctx&, X&, bool, std::false_type ) {}
    static void minors( Ctx& c, X& m, bool bad, std::true_type )
    {
        const X& k = m; vt::Canary< Matrix< M - 1, N - 1, T > > s;
        size_t r = inside( c, M ), q = inside( c, N );
        if( !bad ) ACCEPT( "get_minor-valid", k.get_minor( s.v, r, q ), r, q );
        else { if( c.rng.b( )) r = outside( c, M, M ); else q = outside( c, N, M ); REFUSE( "get_minor", k.get_minor( s.v, r, q ), r, q ); }
        CHECK( "no-stray-write", s.ok(), "" );
    }
    static void run( Ctx& c )
    {
        vt::pick_profile( c );
        vt::Canary< X > cm; X& m = cm.v; const X& k = m; fill( c, m );
        const int steps = c.rng.i( 1, 6 );
        for( int z = 0; z < steps; ++z )
        {
            const X old( m );
            const int op = c.rng.i( 0, 8 ); c.in( op );
            // every valid access is accepted
            {
                const size_t i = inside( c, M ), j = inside( c, N ); const T x = gen< T >( c );
                Vector< N, T > r; Vector< M, T > q; Matrix< 1, N, T > r2; Matrix< M, 1, T > q2;
                switch( op )
                {
                case 0: ACCEPT( "at-valid", m.at( i, j ) = x; use( k.at( i, j )), i, j ); break;
                case 1: ACCEPT( "call-valid", m( i, j ) = x; use( k( i, j )), i, j ); break;
                case 2: ACCEPT( "subscript-valid", m[ i ][ j ] = x, i, j ); ACCEPT( "subscript-valid", m[ int( i ) ][ j ] = x; { const typename X::row_accessor a = m[ i ]; use( a[ j ] ); }, i, j ); break;
                case 3: ACCEPT( "row-valid", k.get_row( i, r ); m.set_row( i, r ); k.get_row( i, r2 ); m.set_row( i, r2 ); k.get_row( i ), i ); break;
                case 4: ACCEPT( "column-valid", k.get_column( j, q ); m.set_column( j, q ); k.get_column( j, q2 ); m.set_column( j, q2 ); k.get_column( j ), j ); break;
                case 5: case 6: sub_any( c, cm, false ); break;
                case 7: { std::vector< T > v( M * N + c.rng.u( 3 ), x ); ACCEPT( "assign-list-valid", m = v, v.size( )); break; }
                default: minors( c, m, false, std::integral_constant< bool, M == N && M >= 2 && M <= 5 >( ));
                }
            }
            if( SAFE )
            {
                m = old;
                size_t i = inside( c, M ), j = inside( c, N ); const bool in_row = c.rng.b(); const T x = gen< T >( c );
                if( in_row ) i = outside( c, M, M ); else j = outside( c, N, M );
                const size_t br = outside( c, M, M ), bc = outside( c, N, M );
                vt::Canary< Vector< N, T > > r; vt::Canary< Vector< M, T > > q; vt::Canary< Matrix< 1, N, T > > r2; vt::Canary< Matrix< M, 1, T > > q2;
                bool whole = true;
                switch( op )
                {
                case 0: REFUSE( "at", m.at( i, j ) = x, i, j ); REFUSE( "at", use( k.at( i, j )), i, j ); break;
                case 1: REFUSE( "call", m( i, j ) = x, i, j ); REFUSE( "call", use( k( i, j )), i, j ); break;
                case 2:
                    if( in_row && i > size_t( INT32_MAX ) && i != size_t( -1 )) i = M;
                    REFUSE( "subscript", m[ i ][ j ] = x, i, j );
                    REFUSE( "subscript-const", const typename X::row_accessor a = m[ i ]; use( a[ j ] ), i, j );
                    { const int n = in_row ? int( i ) : c.rng.b() ? -1 - int( c.rng.u( 3 )) : int( M ); REFUSE( "subscript-int", m[ n ][ j ] = x, n, j ); }
                    break;
                case 3: REFUSE( "get_row", k.get_row( br, r.v ), br ); REFUSE( "set_row", m.set_row( br, r.v ), br ); REFUSE( "get_row", k.get_row( br, r2.v ), br ); REFUSE( "set_row", m.set_row( br, r2.v ), br ); REFUSE( "get_row", k.get_row( br ), br ); break;
                case 4: REFUSE( "get_column", k.get_column( bc, q.v ), bc ); REFUSE( "set_column", m.set_column( bc, q.v ), bc ); REFUSE( "get_column", k.get_column( bc, q2.v ), bc ); REFUSE( "set_column", m.set_column( bc, q2.v ), bc ); REFUSE( "get_column", k.get_column( bc ), bc ); break;
                case 5: case 6: sub_any( c, cm, true ); whole = false; break;
                case 7: { std::vector< T > v( c.rng.one( 3 ) ? M * N - 1 : c.rng.u( M * N ), x ); if( c.rng.b( )) v.reserve( M * N + 9 ); c.in( int( v.size( ))); REFUSE( "assign-short-list", m = v, v.size( )); break; }
                default: minors( c, m, true, std::integral_constant< bool, M == N && M >= 2 && M <= 5 >( ));
                }
                if( whole ) CHECK( "refused-access-changes-nothing", vt::memdiff( m.array, old.array, sizeof( m.array )) == 0, op, vt::show( old ), vt::show( m ));
                CHECK( "no-stray-write", r.ok() && q.ok() && r2.ok() && q2.ok(), op );
            }
            CHECK( "no-stray-write", cm.ok(), op );
        }
    }
};

template< size_t M, class T > struct B
{
    typedef Vector< M, T > V;
    static void run( Ctx& c )
    {
        vt::pick_profile( c );
        vt::Canary< V > cv; V& v = cv.v; const V& k = v; fill( c, v );
        const size_t i = inside( c, M ); const T x = gen< T >( c );
        ACCEPT( "vector-at-valid", v.at( i ) = x; v( i ) = x; use( k.at( i )); use( k( i )), i );
#ifdef VMMLIB_NO_CONVERSION_OPERATORS
        ACCEPT( "vector-subscript-valid", v[ i ] = x; use( k[ i ] ), i );
#endif
        if( SAFE )
        {
            const V old( v ); const size_t j = outside( c, M, sizeof( T ));
            REFUSE( "vector-at", v.at( j ) = x, j ); REFUSE( "vector-at", use( k.at( j )), j );
            REFUSE( "vector-call", v( j ) = x, j ); REFUSE( "vector-call", use( k( j )), j );
#ifdef VMMLIB_NO_CONVERSION_OPERATORS
            REFUSE( "vector-subscript", v[ j ] = x, j ); REFUSE( "vector-subscript", use( k[ j ] ), j );
#endif
            CHECK( "refused-access-changes-nothing", vt::memdiff( v.array, old.array, sizeof( v.array )) == 0, j );
        }
        CHECK( "no-stray-write", cv.ok(), "" );
    }
};
template< class T > struct Q
{
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); vt::Canary< vmml::Quaternion< T > > cq; auto& q = cq.v; const auto& k = q;
        const T x = gen< T >( c ); const size_t i = inside( c, 4 );
        ACCEPT( "quaternion-at-valid", q.at( i ) = x; q( i ) = x; use( k.at( i )); use( k( i )), i );
        if( SAFE ) { const size_t j = outside( c, 4, sizeof( T )); REFUSE( "quaternion-at", q.at( j ) = x, j ); REFUSE( "quaternion-at", use( k( j )), j ); }
        CHECK( "no-stray-write", cq.ok(), "" );
        c.in( 1 );
    }
};

void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    typedef void ( *Fn )( Ctx& );
    static const Fn tab[] = {
        A< 4, 4, float >::run, A< 3, 3, double >::run, A< 2, 3, int >::run, A< 3, 2, float >::run, A< 1, 5, double >::run, A< 5, 1, float >::run,
        A< 4, 2, uint8_t >::run, A< 3, 7, double >::run, A< 7, 3, int >::run, A< 1, 1, float >::run, A< 4, 4, double >::run, A< 2, 2, float >::run, A< 5, 5, double >::run,
        A< 8, 2, uint8_t >::run, B< 1, float >::run, B< 2, double >::run, B< 3, float >::run, B< 4, uint8_t >::run, B< 4, float >::run, B< 7, int >::run, B< 300, float >::run, A< 19, 17, float >::run, Q< float >::run, Q< double >::run, A< 3, 4, long double >::run, A< 2, 2, int64_t >::run, A< 3, 3, short >::run, B< 4, long double >::run, B< 3, int64_t >::run, B< 2, unsigned >::run, Q< long double >::run };
    const size_t k = c.rng.u( sizeof( tab ) / sizeof( *tab ));
    c.in( int( k ));
    tab[ k ]( c );
}
