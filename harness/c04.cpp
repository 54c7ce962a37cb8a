// C04: vector arithmetic is component-wise
#include "common.hpp"
#include <vmmlib/vector.hpp>
using vmml::Vector;

template< size_t M, class T > struct A
{
    typedef Vector< M, T > V;
    static void cmp( Ctx& c, const char*, const V& got, const ld* ref, const ld* sc, vt::Clause& cl )
    {
        for( size_t i = 0; i < M; ++i )
        {
            ++cl.n; ++c.checks;
            if( !near( got.array[ i ], ref[ i ], sc[ i ], 4 ))
                vt::fail( c, cl, __PRETTY_FUNCTION__, vt::str( "component", i, "of", M, "got", ld( got.array[ i ] ), "expected", ref[ i ] ));
        }
    }
    // T( x op y ) in T's own arithmetic for integers, extended for floats
    static ld op( int o, T x, T y )
    {
        if( std::is_floating_point< T >::value )
        {
            const ld a = x, b = y;
            return o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : a / b;
        }
        const long long a = (long long)x, b = (long long)y;
        const long long r = o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : ( b ? a / b : 0 );
        return ld( T( r ));
    }
    static void refs( int o, const V& a, const V& b, ld* ref, ld* sc )
    {
        for( size_t i = 0; i < M; ++i )
        {
            ref[ i ] = op( o, a.array[ i ], b.array[ i ] );
            sc[ i ] = o < 2 ? fabsl( ref[ i ] ) : fabsl( ref[ i ] );
        }
    }
    // integers of any width the results allow
    static bool fits( int o, T x, T y, T* r )
    {
        if( o == 3 ) { *r = y ? T( x / y ) : T( 0 ); return y != 0; }
        return !( o == 0 ? __builtin_add_overflow( x, y, r ) : o == 1 ? __builtin_sub_overflow( x, y, r ) : __builtin_mul_overflow( x, y, r ));
    }
    static bool fits( int o, T x, T y ) { T r; return fits( o, x, y, &r ); }
    static T wop( int o, T x, T y ) { T r; fits( o, x, y, &r ); return r; }
    static void judge( Ctx& c, vt::Clause& cl, const char* what, const V& got, const V& x, const V& y, int o )
    {
        for( size_t i = 0; i < M; ++i )
        {
            ++cl.n; ++c.checks;
            if( got.array[ i ] != wop( o, x.array[ i ], y.array[ i ] ))
                vt::fail( c, cl, __PRETTY_FUNCTION__, vt::str( what, "op", o, "component", i, "of", M, "got", ld( got.array[ i ] ), "from", ld( x.array[ i ] ), ld( y.array[ i ] )));
        }
    }
    static void wide( Ctx&, std::false_type ) {}
    static void wide( Ctx& c, std::true_type )
    {
        SAW( "saw-wide-integers" ); static vt::Clause& cl = vt::clause( "wide-integers" ); static vt::Clause& cm = vt::clause( "wide-integers-in-place" );
        for( int o = 0; o < 4; ++o )
        {
            V a, b, sv; c.wide = 64; fill( c, a ); fill( c, b ); T s = gen< T >( c ); c.wide = 0;
            for( size_t i = 0; i < M; ++i )
            {
                if( o == 3 && b.array[ i ] == 0 ) b.array[ i ] = 3;
                while( !fits( o, a.array[ i ], b.array[ i ] )) { if( o == 1 && !std::is_signed< T >::value ) std::swap( a.array[ i ], b.array[ i ] ); else if( o == 3 ) b.array[ i ] = 3; else b.array[ i ] = T( b.array[ i ] / 2 ); }
            }
            bool ok = s != 0 || o != 3; if( !ok ) s = 7; if( o == 1 && !std::is_signed< T >::value ) s = T( s % 3 );
            for( size_t i = 0; i < M; ++i ) { T t = a.array[ i ]; while( !fits( o, t, s )) { if( o == 3 ) s = 7; else if( o == 1 && !std::is_signed< T >::value ) s = 0; else s = T( s / 2 ); } }
            sv.set( s );
            const V r = o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : a / b, q = o == 0 ? a + s : o == 1 ? a - s : o == 2 ? a * s : a / s;
            judge( c, cl, "v,v", r, a, b, o ); judge( c, cl, "v,s", q, a, sv, o ); if( o == 2 ) judge( c, cl, "s,v", s * a, sv, a, o );
            V p( a ), t( a ); if( o == 0 ) { p += b; t += s; } else if( o == 1 ) { p -= b; t -= s; } else if( o == 2 ) { p *= b; t *= s; } else { p /= b; t /= s; }
            judge( c, cm, "v,v", p, a, b, o ); judge( c, cm, "v,s", t, a, sv, o );
            if( std::is_signed< T >::value ) { V z; z = T( 0 ); judge( c, cl, "-v", -b, z, b, 1 ); V n( b ); n.negate(); judge( c, cm, "-v", n, z, b, 1 ); }
        }
    }
    static void run( Ctx& c )
    {
        if( c.rng.one( 3 )) wide( c, std::integral_constant< bool, !std::is_floating_point< T >::value >( ));
        vt::pick_profile( c );
        vt::Canary< V > ca, cb; V& a = ca.v; V& b = cb.v;
        fill( c, a ); fill( c, b );
        const T s = gen< T >( c );
        V d; vt::fill_nz( c, d );
        const T ds = gen_nz< T >( c );
        const V a0( a ), b0( b ), d0( d );
        V sv; for( size_t i = 0; i < M; ++i ) sv.array[ i ] = s;
        V dsv; for( size_t i = 0; i < M; ++i ) dsv.array[ i ] = ds;
        ld ref[ M ], sc[ M ];
#define BIN( key, o, expr, x, y ) { static vt::Clause& cl = vt::clause( key ); refs( o, x, y, ref, sc ); const V got( expr ); cmp( c, key, got, ref, sc, cl ); }
        BIN( "v+v", 0, a + b, a, b )
        BIN( "v-v", 1, a - b, a, b )
        BIN( "v*v", 2, a * b, a, b )
        BIN( "v/v", 3, a / d, a, d )
        BIN( "v+s", 0, a + s, a, sv )
        BIN( "v-s", 1, a - s, a, sv )
        BIN( "v*s", 2, a * s, a, sv )
        BIN( "v/s", 3, a / ds, a, dsv )
        BIN( "s*v", 2, s * a, sv, a )
        BIN( "v+self", 0, a + a, a, a )
        BIN( "v*self", 2, a * a, a, a )
        { // negation
            static vt::Clause& cl = vt::clause( "neg" );
            for( size_t i = 0; i < M; ++i ) { ref[ i ] = ld( T( -a.array[ i ] )); sc[ i ] = 0; }
            cmp( c, "neg", -a, ref, sc, cl );
            V n( a ); const V& r = n.negate();
            cmp( c, "neg", n, ref, sc, cl );
            CHECK( "negate-returns-self", &r == &n, "" );
        }
        CHECK( "operands-unchanged", vt::memdiff( a.array, a0.array, M * sizeof( T )) == 0 || vt::show( a ) == vt::show( a0 ), vt::show( a ), vt::show( a0 ));
        CHECK( "operands-unchanged", vt::show( b ) == vt::show( b0 ) && vt::show( d ) == vt::show( d0 ), vt::show( b ));
        CHECK( "no-stray-write", ca.ok() && cb.ok(), "" );

        // history of in-place operations; the model is resynchronised each step
        const int n = c.rng.i( 1, 10 );
        for( int k = 0; k < n; ++k )
        {
            for( size_t i = 0; i < M; ++i )
                if( !( std::abs( ld( a.array[ i ] )) < 2000 )) a.array[ i ] = gen< T >( c );
            const V before( a );
            V o; int kind = c.rng.i( 0, 3 ); const int what = c.rng.i( 0, 4 );
            const size_t e = c.rng.u( M );
            c.in( kind * 10 + what );
            static vt::Clause& cl = vt::clause( "in-place-history" );
            static vt::Clause& clA = vt::clause( "in-place-aliased" );
            if( what == 0 ) // other vector
            {
                if( kind == 3 ) vt::fill_nz( c, o ); else fill( c, o );
                refs( kind, before, o, ref, sc );
                if( kind == 0 ) a += o; else if( kind == 1 ) a -= o; else if( kind == 2 ) a *= o; else a /= o;
                cmp( c, "", a, ref, sc, cl );
            }
            else if( what == 1 ) // scalar
            {
                const T x = kind == 3 ? gen_nz< T >( c ) : gen< T >( c );
                for( size_t i = 0; i < M; ++i ) o.array[ i ] = x;
                refs( kind, before, o, ref, sc );
                if( kind == 0 ) a += x; else if( kind == 1 ) a -= x; else if( kind == 2 ) a *= x; else a /= x;
                cmp( c, "", a, ref, sc, cl );
            }
            else if( what == 2 ) // itself
            {
                if( kind == 3 ) { bool z = false; for( size_t i = 0; i < M; ++i ) z |= std::abs( ld( a.array[ i ] )) < 1e-6L; if( z ) kind = 0; }
                refs( kind, before, before, ref, sc );
                if( kind == 0 ) a += a; else if( kind == 1 ) a -= a; else if( kind == 2 ) a *= a; else a /= a;
                cmp( c, "", a, ref, sc, clA );
            }
            else if( what == 3 ) // one of its own elements as the scalar
            {
                if( kind == 3 && std::abs( ld( a.array[ e ] )) < 1e-6L ) kind = 2;
                for( size_t i = 0; i < M; ++i ) o.array[ i ] = before.array[ e ];
                refs( kind, before, o, ref, sc );
                if( kind == 0 ) a += a.at( e ); else if( kind == 1 ) a -= a.at( e ); else if( kind == 2 ) a *= a.at( e ); else a /= a.at( e );
                cmp( c, "", a, ref, sc, clA );
            }
            else // result assigned over an operand
            {
                fill( c, o ); if( kind == 3 ) kind = 1;
                refs( kind, before, o, ref, sc );
                if( kind == 0 ) a = a + o; else if( kind == 1 ) a = a - o; else a = a * o;
                cmp( c, "", a, ref, sc, clA );
            }
        }
        CHECK( "no-stray-write", ca.ok(), "" );
    }
};

void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    typedef void ( *Fn )( Ctx& );
    static const Fn tab[] = {
        A< 1, float >::run, A< 2, float >::run, A< 3, float >::run, A< 4, float >::run, A< 5, float >::run, A< 17, float >::run,
        A< 2, double >::run, A< 3, double >::run, A< 4, double >::run, A< 8, double >::run, A< 3, long double >::run, A< 67, double >::run, A< 300, float >::run,
        A< 1, int >::run, A< 2, int >::run, A< 3, int >::run, A< 4, int >::run, A< 6, int >::run,
        A< 3, unsigned >::run, A< 3, uint8_t >::run, A< 4, uint8_t >::run, A< 3, int64_t >::run, A< 5, int64_t >::run, A< 2, uint64_t >::run, A< 4, short >::run, A< 3, uint16_t >::run, A< 2, int8_t >::run, A< 5, long double >::run };
    const size_t k = c.rng.u( sizeof( tab ) / sizeof( *tab ));
    c.in( int( k ));
    tab[ k ]( c );
}
