// C09: 4x4 affine builders
#include "common.hpp"
#include <vmmlib/matrix.hpp>
#include <vmmlib/util.hpp>
using vmml::Matrix; using vmml::Vector;

struct L4 { ld v[ 4 ][ 4 ]; };
static L4 ident() { L4 r; for( int i = 0; i < 4; ++i ) for( int j = 0; j < 4; ++j ) r.v[ i ][ j ] = i == j; return r; }
static L4 rot( int k, ld a )
{
    L4 r = ident(); const int p = ( k + 1 ) % 3, q = ( k + 2 ) % 3;
    r.v[ p ][ p ] = r.v[ q ][ q ] = cosl( a ); r.v[ p ][ q ] = -sinl( a ); r.v[ q ][ p ] = sinl( a );
    return r;
}
static L4 rodrigues( const ld n[ 3 ], ld a )
{
    L4 r = ident(); const ld c = cosl( a ), s = sinl( a );
    for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) r.v[ i ][ j ] = ( i == j ? c : 0 ) + ( 1 - c ) * n[ i ] * n[ j ];
    r.v[ 0 ][ 1 ] -= s * n[ 2 ]; r.v[ 1 ][ 0 ] += s * n[ 2 ];
    r.v[ 0 ][ 2 ] += s * n[ 1 ]; r.v[ 2 ][ 0 ] -= s * n[ 1 ];
    r.v[ 1 ][ 2 ] -= s * n[ 0 ]; r.v[ 2 ][ 1 ] += s * n[ 0 ];
    return r;
}

template< class T > struct A
{
    typedef Matrix< 4, 4, T > X; typedef Vector< 3, T > V;
    static L4 lm( const X& m ) { L4 r; for( int i = 0; i < 4; ++i ) for( int j = 0; j < 4; ++j ) r.v[ i ][ j ] = m.array[ j * 4 + i ]; return r; }
    static void cmp( Ctx& c, vt::Clause& cl, const X& g, const L4& ref, const L4& sc, double k, const std::string& in )
    {
        for( int i = 0; i < 4; ++i ) for( int j = 0; j < 4; ++j )
        {
            ++cl.n; ++c.checks;
            if( !near( g.array[ j * 4 + i ], ref.v[ i ][ j ], sc.v[ i ][ j ], k ))
                vt::fail( c, cl, __PRETTY_FUNCTION__, vt::str( cl.key, "element", i, j, "got", g.array[ j * 4 + i ], "expected", ref.v[ i ][ j ], in ));
        }
    }
#define CMP( key, g, ref, sc, k, ... ) do { static vt::Clause& cl_ = vt::clause( key ); cmp( c, cl_, g, ref, sc, k, vt::str( __VA_ARGS__ )); } while( 0 )
    static void prod( const L4& a, const L4& b, L4& r, L4& s )
    {
        for( int i = 0; i < 4; ++i ) for( int j = 0; j < 4; ++j )
        {
            r.v[ i ][ j ] = s.v[ i ][ j ] = 0;
            for( int k = 0; k < 4; ++k ) { const ld x = a.v[ i ][ k ] * b.v[ k ][ j ]; r.v[ i ][ j ] += x; s.v[ i ][ j ] += fabsl( x ); }
        }
    }
    static double angle( Ctx& c )
    {
        double a;
        switch( c.rng.u( 6 ))
        {
        case 0: a = c.rng.i( -8, 8 ) * M_PI / 4; break;
        case 1: a = c.rng.r( -1e-3, 1e-3 ); break;
        case 2: a = c.rng.r( -50, 50 ); break;
        case 3: a = c.rng.i( -7, 7 ); break;
        default: a = c.rng.r( -M_PI, M_PI );
        }
        c.in( a ); return a;
    }
    static V axis( Ctx& c )
    {
        V v; ld n[ 3 ], l = 0;
        if( c.rng.one( 4 )) { v.set( T( 0 )); v.array[ c.rng.u( 3 ) ] = c.rng.b() ? T( 1 ) : T( -1 ); c.in( v.array[ 0 ] ); c.in( v.array[ 1 ] ); return v; }
        do { l = 0; for( int i = 0; i < 3; ++i ) { n[ i ] = c.rng.r( -1, 1 ); l += n[ i ] * n[ i ]; } } while( l < 0.01 );
        for( int i = 0; i < 3; ++i ) { v.array[ i ] = T( n[ i ] / sqrtl( l )); c.in( v.array[ i ] ); }
        return v;
    }
    template< class AT > static void spin( Ctx& c, X& m, const L4& W, int op, AT ang )
    {
        const int k = op % 3; const bool pre = op >= 3; const T a = static_cast< T >( ang );
        X* r = 0;
        switch( op )
        {
        case 0: r = &m.rotate_x( ang ); break;
        case 1: r = &m.rotate_y( ang ); break;
        case 2: r = &m.rotate_z( ang ); break;
        case 3: r = &m.pre_rotate_x( ang ); break;
        case 4: r = &m.pre_rotate_y( ang ); break;
        default: r = &m.pre_rotate_z( ang ); break;
        }
        CHECK( "returns-self", r == &m, op );
        L4 ref, sc;
        if( pre ) prod( rot( k, -ld( a )), W, ref, sc ); else prod( W, rot( k, ld( a )), ref, sc );
        // rows or columns outside the rotated plane are untouched
        bool same = true;
        for( int i = 0; i < 4; ++i ) for( int j = 0; j < 4; ++j )
        {
            const int x = pre ? i : j;
            if( x == k || x == 3 ) { same &= ld( m.array[ j * 4 + i ] ) == W.v[ i ][ j ]; ref.v[ i ][ j ] = W.v[ i ][ j ]; }
        }
        CHECK( "rotation-leaves-the-rest", same, op, a );
        // the sine and cosine of the rounded angle carry an absolute error of eps
        L4 s2 = sc;
        for( int i = 0; i < 4; ++i ) for( int j = 0; j < 4; ++j )
        {
            s2.v[ i ][ j ] = 0;
            for( int q = 0; q < 4; ++q )
            {
                const int x = pre ? i : j;
                if( x != k && x != 3 && q != k && q != 3 ) s2.v[ i ][ j ] += fabsl( pre ? W.v[ q ][ j ] : W.v[ i ][ q ] );
            }
        }
        CMP( pre ? "pre_rotate" : "rotate_xyz", m, ref, s2, 8, op, a );
    }
    template< class U > static void scaling( Ctx& c, X& m, const L4& W, int op, const Vector< 3, U >& s )
    {
        L4 ref = W, z = W; X* r = &m;
        T t[ 3 ]; for( int i = 0; i < 3; ++i ) t[ i ] = static_cast< T >( s.array[ i ] );
        switch( op )
        {
        case 0: r = &m.scale( s ); break;
        case 1: r = &m.scale( s.array ); break;
        case 2: r = &m.scale( s.array[ 0 ], t[ 1 ], t[ 2 ] ); break;
        case 3: r = &m.scale_translation( s ); break;
        case 4: r = &m.scale_translation( s.array ); break;
        case 5: r = &m.set_translation( s ); break;
        case 6: r = &m.set_translation( s.array ); break;
        default: r = &m.set_translation( s.array[ 0 ], s.array[ 1 ], s.array[ 2 ] ); break;
        }
        CHECK( "returns-self", r == &m, op );
        for( int i = 0; i < 4; ++i ) for( int j = 0; j < 4; ++j )
        {
            if( op <= 2 ) { if( j < 3 ) ref.v[ i ][ j ] = W.v[ i ][ j ] * ld( t[ j ] ); }
            else if( j == 3 && i < 3 ) ref.v[ i ][ j ] = op <= 4 ? W.v[ i ][ j ] * ld( t[ i ] ) : ld( t[ i ] );
            const bool kept = op <= 2 ? j == 3 : ( j < 3 || i == 3 );
            z.v[ i ][ j ] = 0;
            if( kept ) CHECK( "scaling-leaves-the-rest", ld( m.array[ j * 4 + i ] ) == W.v[ i ][ j ], op, i, j );
        }
        CMP( op <= 2 ? "scale" : op <= 4 ? "scale_translation" : "set_translation", m, ref, z, 3, op );
    }
    static void run( Ctx& c )
    {
        vt::pick_mild( c );
        vt::Canary< X > cm; X& m = cm.v; fill( c, m );
        const int n = c.rng.i( 1, 12 );
        for( int q = 0; q < n; ++q )
        {
            for( int i = 0; i < 16; ++i ) if( !( std::abs( double( m.array[ i ] )) < 3000 )) m.array[ i ] = gen< T >( c );
            const L4 W = lm( m ); L4 ref, sc; const X before( m );
            const int op = c.rng.i( 0, 11 ); c.in( op );
            if( op < 4 )
            {
                const int o = c.rng.i( 0, 5 ); const double a = angle( c ); c.in( o );
                if( c.rng.one( 5 )) spin( c, m, W, o, int( a )); else if( c.rng.b( )) spin( c, m, W, o, T( a )); else spin( c, m, W, o, a );
            }
            else if( op < 7 )
            {
                const int o = c.rng.i( 0, 7 ); c.in( o );
                if( c.rng.b( )) { V s; fill( c, s ); scaling( c, m, W, o, s ); }
                else { Vector< 3, double > s; fill( c, s ); scaling( c, m, W, o, s ); }
            }
            else if( op == 7 )
            {
                const V a = axis( c ), a0( a ); const double th = angle( c ); const T t = static_cast< T >( th );
                X* r = c.rng.b() ? &m.rotate( th, a ) : &m.rotate( t, a );
                ld nn[ 3 ] = { a.array[ 0 ], a.array[ 1 ], a.array[ 2 ] };
                ref = rodrigues( nn, t ); for( int i = 0; i < 4; ++i ) for( int j = 0; j < 4; ++j ) sc.v[ i ][ j ] = i < 3 && j < 3;
                CHECK( "returns-self", r == &m, op );
                CMP( "axis-angle", m, ref, sc, 12, th, vt::show( a ));
                CHECK( "operands-unchanged", a == a0, "" );
            }
            else if( op == 8 ) // read access
            {
                const V t = m.get_translation(); V u; m.get_translation( u ); Vector< 3, double > w; m.get_translation( w ); Vector< 3, long double > w2; m.get_translation( w2 );
                bool ok = true;
                for( int i = 0; i < 3; ++i ) ok &= t.array[ i ] == m.array[ 12 + i ] && u.array[ i ] == m.array[ 12 + i ] && w.array[ i ] == double( m.array[ 12 + i ] ) && w2.array[ i ] == m.array[ 12 + i ];
                CHECK( "get_translation", ok, vt::show( m ), vt::show( t ));
                CHECK( "matrix-xyz", &m.x() == m.array + 12 && &m.y() == m.array + 13 && &m.z() == m.array + 14, "" );
                Matrix< 3, 3, T > k; fill( c, k ); const Vector< 2, T > kt = k.get_translation();
                CHECK( "get_translation-3x3", kt.array[ 0 ] == k.array[ 6 ] && kt.array[ 1 ] == k.array[ 7 ], vt::show( k ));
                Matrix< 3, 4, T > r; fill( c, r ); const Vector< 3, T > rt = r.get_translation();
                CHECK( "get_translation-3x4", rt.array[ 0 ] == r.array[ 9 ] && rt.array[ 1 ] == r.array[ 10 ] && rt.array[ 2 ] == r.array[ 11 ], vt::show( r ));
                CHECK( "operands-unchanged", m == before, "" );
            }
            else if( op == 9 ) // translation helpers
            {
                V t; fill( c, t ); L4 tr = ident(); for( int i = 0; i < 3; ++i ) tr.v[ i ][ 3 ] = t.array[ i ];
                L4 z = ident(); for( int i = 0; i < 4; ++i ) z.v[ i ][ i ] = 0;
                CMP( "create_translation", ( vmml::create_translation< 4, 4, T >( t )), tr, z, 1, "" );
                CMP( "create_translation-short", ( vmml::create_translation( t )), tr, z, 1, "" );
                prod( W, tr, ref, sc );
                vmml::apply_translation( m, t.array[ 0 ], t.array[ 1 ], t.array[ 2 ] );
                CMP( "apply_translation", m, ref, sc, 12, vt::show( t ));
            }
            else if( op == 10 ) // rotation helpers
            {
                const V a = axis( c ); const T t = T( angle( c ));
                ld nn[ 3 ] = { a.array[ 0 ], a.array[ 1 ], a.array[ 2 ] };
                const L4 R = rodrigues( nn, t ); L4 s; for( int i = 0; i < 4; ++i ) for( int j = 0; j < 4; ++j ) s.v[ i ][ j ] = i < 3 && j < 3;
                CMP( "create_rotation", ( vmml::create_rotation< 4, 4, T >( t, a )), R, s, 12, t, vt::show( a ));
                CMP( "create_rotation-short", ( vmml::create_rotation( t, a )), R, s, 12, t, vt::show( a ));
                prod( W, R, ref, sc );
                for( int i = 0; i < 4; ++i ) for( int j = 0; j < 3; ++j ) sc.v[ i ][ j ] = fabsl( W.v[ i ][ 0 ] ) + fabsl( W.v[ i ][ 1 ] ) + fabsl( W.v[ i ][ 2 ] );
                vmml::apply_rotation( m, t, a.array[ 0 ], a.array[ 1 ], a.array[ 2 ] );
                CMP( "apply_rotation", m, ref, sc, 24, t, vt::show( a ));
            }
            else // scaling helpers
            {
                V t; fill( c, t ); L4 S = ident(), z = ident(); const T u = gen< T >( c ); L4 U = ident();
                for( int i = 0; i < 4; ++i ) z.v[ i ][ i ] = 0;
                for( int i = 0; i < 3; ++i ) { S.v[ i ][ i ] = t.array[ i ]; U.v[ i ][ i ] = u; }
                CMP( "create_scaling", ( vmml::create_scaling< 4, 4, T >( t )), S, z, 1, vt::show( t ));
                CMP( "create_scaling-short", ( vmml::create_scaling( t )), S, z, 1, vt::show( t ));
                CMP( "create_scaling-uniform", ( vmml::create_scaling( u )), U, z, 1, u );
            }
        }
        CHECK( "no-stray-write", cm.ok(), "" );
    }
};

void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { const size_t k = c.rng.u( 5 ); c.in( k ); if( k < 2 ) A< float >::run( c ); else if( k < 4 ) A< double >::run( c ); else A< long double >::run( c ); }
