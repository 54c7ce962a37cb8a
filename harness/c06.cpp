// C06: vector selection, ordering and element maps
#include "common.hpp"
#include <vmmlib/vector.hpp>
using vmml::Vector;

template< class T > static ld mag( T x ) { return fabsl( ld( x )); }

template< size_t M, class T > struct A
{
    typedef Vector< M, T > V;
    static const bool real = std::is_floating_point< T >::value;

    // magnitudes over the whole exponent range, infinities included: comparing needs no arithmetic
    static void extreme( Ctx&, V&, std::false_type ) {}
    static void extreme( Ctx& c, V& a, std::true_type )
    {
        typedef std::numeric_limits< T > L; if( !c.rng.one( 4 )) return;
        SAW( "saw-whole-exponent-range" ); const int lo = L::min_exponent - L::digits + 1, hi = L::max_exponent, mode = c.rng.u( 4 );
        for( size_t i = 0; i < M; ++i )
        {
            T x = std::ldexp( T( c.rng.r( .5, 1 )), mode == 0 ? hi : mode == 1 ? c.rng.i( lo, lo + 6 ) : c.rng.i( lo, hi ));
            if( c.rng.one( 12 )) x = c.rng.b() ? L::max() : mode == 3 ? L::infinity() : L::denorm_min();
            a.array[ i ] = c.rng.b() ? x : -x; c.in( a.array[ i ] );
        }
    }
    static void select( Ctx& c )
    {
        vt::pick_wide< T >( c ); c.wide = std::min( c.wide, 52 ); // magnitudes are compared as doubles
        vt::Canary< V > ca; V& a = ca.v; fill( c, a ); extreme( c, a, std::integral_constant< bool, real >( ));
        if( c.rng.one( 4 )) a.array[ c.rng.u( M ) ] = a.array[ c.rng.u( M ) ];           // ties
        if( c.rng.one( 4 )) a.array[ c.rng.u( M ) ] = T( 0 - a.array[ c.rng.u( M ) ] );   // ties of magnitude
        size_t lo = 0, hi = 0, alo = 0, ahi = 0;
        for( size_t i = 1; i < M; ++i )
        {
            if( a.array[ i ] < a.array[ lo ] ) lo = i;
            if( a.array[ i ] > a.array[ hi ] ) hi = i;
            if( mag( a.array[ i ] ) < mag( a.array[ alo ] )) alo = i;
            if( mag( a.array[ i ] ) > mag( a.array[ ahi ] )) ahi = i;
        }
        const V& k = a;
        CHECK( "find_min_index", k.find_min_index() == lo, k.find_min_index(), lo, vt::show( a ));
        CHECK( "find_max_index", k.find_max_index() == hi, k.find_max_index(), hi, vt::show( a ));
        absolute( c, a, alo, ahi, std::integral_constant< bool, std::is_signed< T >::value || sizeof( T ) == 1 >( ));
        CHECK( "find_min", &a.find_min() == &a.array[ lo ] && &k.find_min() == &a.array[ lo ], vt::show( a ));
        CHECK( "find_max", &a.find_max() == &a.array[ hi ] && &k.find_max() == &a.array[ hi ], vt::show( a ));
        size_t nz = 0;
        for( size_t i = 0; i < M; ++i ) if( a.array[ i ] != 0 ) ++nz;
        CHECK( "nnz", k.nnz() == nz, k.nnz(), nz, vt::show( a ));
        CHECK( "no-stray-write", ca.ok(), "" );
    }
    static void absolute( Ctx&, const V&, size_t, size_t, std::false_type ) {}
    static void absolute( Ctx& c, const V& k, size_t alo, size_t ahi, std::true_type )
    {
        CHECK( "find_abs_min_index", k.find_abs_min_index() == alo, k.find_abs_min_index(), alo, vt::show( k ));
        CHECK( "find_abs_max_index", k.find_abs_max_index() == ahi, k.find_abs_max_index(), ahi, vt::show( k ));
    }
    static void order( Ctx& c )
    {
        vt::pick_wide< T >( c );
        V a, b, d; fill( c, a ); b = a; d = a;
        const size_t i = c.rng.u( M ), j = c.rng.u( M );
        if( !c.rng.one( 5 )) b.array[ i ] = gen< T >( c );
        if( !c.rng.one( 5 )) d.array[ j ] = gen< T >( c );
        if( c.rng.one( 3 )) fill( c, d );
        const V* v[] = { &a, &b, &d };
        for( int p = 0; p < 3; ++p ) for( int q = 0; q < 3; ++q )
        {
            const bool ref = std::lexicographical_compare( v[ p ]->array, v[ p ]->array + M, v[ q ]->array, v[ q ]->array + M );
            CHECK( "lexicographic-less", ( *v[ p ] < *v[ q ] ) == ref, vt::show( *v[ p ] ), vt::show( *v[ q ] ), ref );
            CHECK( "less-asymmetric", !(( *v[ p ] < *v[ q ] ) && ( *v[ q ] < *v[ p ] )), vt::show( *v[ p ] ), vt::show( *v[ q ] ));
        }
        // the order sorts
        std::vector< V > s;
        for( int k = 0; k < 7; ++k ) { V x( a ); x.array[ c.rng.u( M ) ] = gen< T >( c ); s.push_back( x ); }
        std::sort( s.begin(), s.end( ));
        for( size_t k = 1; k < s.size(); ++k )
            CHECK( "less-sorts", !std::lexicographical_compare( s[ k ].array, s[ k ].array + M, s[ k - 1 ].array, s[ k - 1 ].array + M ), vt::show( s[ k ] ));
    }
    // zeros, infinities and NaN: every element takes part
    // the reciprocal of a denormal where it is finite (near() does not judge so close to overflow)
    static bool denormal( T got, T x )
    {
        const ld r = 1 / ld( x ); if( !( fabsl( r ) < ld( std::numeric_limits< T >::max( )) * .99L )) return sizeof( T ) > 8 || !( fabsl( r ) > ld( std::numeric_limits< T >::max( )) * 1.01L ) || std::isinf( got );
        return fabsl( ld( got ) - r ) <= 4 * vt::eps< T >() * fabsl( r );
    }
    static void product_specials( Ctx&, V&, std::false_type ) {}
    static void product_specials( Ctx& c, V& v, std::true_type )
    {
        for( size_t i = 0; i < M; ++i ) if( M > 30 || !( mag( v.array[ i ] ) > .25L && mag( v.array[ i ] ) < 8 )) v.array[ i ] = T( c.rng.b() ? 1 : -1 ); // no under- or overflow
        for( int n = c.rng.i( 1, 3 ); n > 0; --n )
        {
            T& x = v.array[ c.rng.u( M ) ]; x = c.rng.b() ? T( 0 ) : c.rng.b() ? std::numeric_limits< T >::infinity() : std::numeric_limits< T >::quiet_NaN(); c.in( x );
        }
        bool zero = false, inf = false, nan = false, neg = false;
        for( size_t i = 0; i < M; ++i ) { zero |= v.array[ i ] == 0; inf |= std::isinf( v.array[ i ] ); nan |= v.array[ i ] != v.array[ i ]; neg ^= std::signbit( v.array[ i ] ); }
        const T p = v.product();
        if( nan || ( zero && inf )) { SAW( "saw-product-nan" ); CHECK( "product-nan", p != p, vt::show( v ), p ); }
        else if( inf ) CHECK( "product-infinite", std::isinf( p ) && std::signbit( p ) == neg, vt::show( v ), p );
        else CHECK( "product-zero", p == 0, vt::show( v ), p );
    }
    static void maps( Ctx& c )
    {
        vt::pick_wide< T >( c ); c.wide = std::min( c.wide, 52 );
        vt::Canary< V > ca; V& a = ca.v; fill( c, a );
        const V a0( a );
        { // clamp
            T lo = gen< T >( c ), hi = gen< T >( c ); if( hi < lo ) std::swap( lo, hi );
            if( c.rng.one( 3 )) { lo = a.array[ c.rng.u( M ) ]; if( hi < lo ) hi = lo; }
            V v( a ); v.clamp( lo, hi );
            bool ok = true;
            for( size_t i = 0; i < M; ++i ) ok &= v.array[ i ] == std::min( std::max( a.array[ i ], lo ), hi );
            CHECK( "clamp", ok, vt::show( a ), lo, hi, vt::show( v ));
            V u( a ); u.clamp(); ok = true;
            for( size_t i = 0; i < M; ++i ) ok &= u.array[ i ] == std::min( std::max( a.array[ i ], T( 0 )), T( 1 ));
            CHECK( "clamp-default", ok, vt::show( a ), vt::show( u ));
            V w( a ); const size_t e = c.rng.u( M ); const T el = a.array[ e ];
            if( el <= hi )
            {
                w.clamp( el, hi ); ok = true;
                for( size_t i = 0; i < M; ++i ) ok &= w.array[ i ] == std::min( std::max( a.array[ i ], el ), hi );
                CHECK( "clamp-by-own-value", ok, vt::show( a ), el, hi, vt::show( w ));
            }
        }
        { // unit vectors
            V v;
            for( size_t i = 0; i < M; ++i ) v.array[ i ] = T( c.rng.one( 3 ) ? 1 : 0 );
            if( c.rng.one( 3 )) { v.set( T( 0 )); v.array[ c.rng.u( M ) ] = T( 1 ); }
            if( c.rng.one( 4 )) v.array[ c.rng.u( M ) ] = gen< T >( c );
            if( real && c.rng.one( 3 )) // beside 0 or 1, but not there
            {
                T& x = v.array[ c.rng.u( M ) ]; static const double d[] = { 1e-2, 1e-4, 1e-6, 1e-7, 1e-9, 1e-12 };
                x = c.rng.b() ? T( x + ( c.rng.b() ? 1 : -1 ) * d[ c.rng.u( 6 ) ] ) : x == T( 0 ) ? std::numeric_limits< T >::denorm_min() : T( x + ( c.rng.b() ? 1 : -1 ) * std::numeric_limits< T >::epsilon( )); c.in( x );
            }
            size_t ones = 0, zeros = 0;
            for( size_t i = 0; i < M; ++i ) { ones += v.array[ i ] == 1; zeros += v.array[ i ] == 0; }
            CHECK( "is_unit_vector", v.is_unit_vector() == ( ones == 1 && zeros == M - 1 ), vt::show( v ), v.is_unit_vector( ));
            if( v.is_unit_vector( )) SAW( "saw-unit-vector" );
        }
        { // product
            V v( a );
            for( size_t i = 0; i < M; ++i ) if( mag( v.array[ i ] ) > 9 || ( !real && M > 8 )) v.array[ i ] = T( c.rng.i( 1, M > 8 ? 2 : 9 ));
            if( real && M > 30 ) for( size_t i = 0; i < M; ++i ) v.array[ i ] = T( std::ldexp( c.rng.b() ? 1. : -1., int( c.rng.i( -1, 1 ))));
            ld p = 1; T q = v.array[ 0 ];
            for( size_t i = 0; i < M; ++i ) p *= v.array[ i ];
            for( size_t i = 1; i < M; ++i ) q = T( q * v.array[ i ] );
            if( real ) { CHECK( "product", near( v.product(), p, fabsl( p ), 2 * M ), vt::show( v ), v.product(), p ); }
            else CHECK( "product", v.product() == q, vt::show( v ), v.product(), q );
            product_specials( c, v, std::integral_constant< bool, real >( ));
        }
        { // square root
            V v( a ); for( size_t i = 0; i < M; ++i ) if( v.array[ i ] < 0 ) v.array[ i ] = T( -v.array[ i ] );
            const V v0( v ); v.sqrt_elementwise();
            bool ok = true;
            for( size_t i = 0; i < M; ++i )
            {
                const ld s = sqrtl( ld( v0.array[ i ] ));
                ok &= real ? near( v.array[ i ], s, s, 4 ) : ld( v.array[ i ] ) == floorl( s );
            }
            CHECK( "sqrt_elementwise", ok, vt::show( v0 ), vt::show( v ));
        }
        { // reciprocals
            V v; vt::fill_nz( c, v ); const V v0( v ); v.reciprocal();
            bool ok = true;
            for( size_t i = 0; i < M; ++i )
                ok &= real ? near( v.array[ i ], 1 / ld( v0.array[ i ] ), 0, 4 ) : v.array[ i ] == T( T( 1 ) / v0.array[ i ] );
            CHECK( "reciprocal", ok, vt::show( v0 ), vt::show( v ));
            V s( v0 ); for( size_t i = 0; i < M; ++i ) if( c.rng.one( 3 )) s.array[ i ] = real && c.rng.b() ? T( -0.0 ) : T( 0 );
            if( real && c.rng.one( 3 )) // denormals are not zero
                { T& x = s.array[ c.rng.u( M ) ]; x = T( c.rng.b() ? 1 : -1 ) * ( c.rng.one( 4 ) ? std::numeric_limits< T >::denorm_min() : std::numeric_limits< T >::min() * T( c.rng.r( .3, 1 ))); c.in( x ); }
            const V s0( s ); s.reciprocal_safe(); ok = true;
            for( size_t i = 0; i < M; ++i )
                ok &= s0.array[ i ] == 0 ? s.array[ i ] == std::numeric_limits< T >::max()
                    : real ? near( s.array[ i ], 1 / ld( s0.array[ i ] ), 0, 4 ) && ( s.array[ i ] < 0 ) == ( s0.array[ i ] < 0 ) && denormal( s.array[ i ], s0.array[ i ] ) : s.array[ i ] == T( T( 1 ) / s0.array[ i ] );
            CHECK( "reciprocal_safe", ok, vt::show( s0 ), vt::show( s ));
        }
        scale( c, a, std::integral_constant< bool, real >( ));
        CHECK( "no-stray-write", ca.ok() && vt::show( a ) == vt::show( a0 ), vt::show( a ));
    }
    template< class TT > static void scale_one( Ctx& c, const V& a, T lo, T hi, bool dflt )
    {
        V v( a ); v.clamp( lo, hi );
        if( c.rng.b( )) v.array[ c.rng.u( M ) ] = c.rng.b() ? lo : hi;
        vt::Canary< Vector< M, TT > > out;
        if( dflt ) v.template scale_to< TT >( out.v ); else v.template scale_to< TT >( out.v, lo, hi );
        bool ok = true;
        const ld mx = std::numeric_limits< TT >::max();
        for( size_t i = 0; i < M; ++i )
        {
            const ld e = ( ld( v.array[ i ] ) - lo ) / ( ld( hi ) - lo ) * mx;
            const ld err = 12 * vt::eps< T >() * ( mx + ( mag( lo ) + mag( hi )) / ( ld( hi ) - lo ) * mx );
            ok &= ld( out.v.array[ i ] ) <= e + err && ld( out.v.array[ i ] ) >= e - 1 - err;
        }
        CHECK( "scale_to", ok, vt::show( v ), lo, hi, vt::show( out.v ));
        CHECK( "no-stray-write", out.ok(), "" );
    }
    static void scale( Ctx&, const V&, std::false_type ) {}
    static void scale( Ctx& c, const V& a, std::true_type )
    {
        T lo = gen< T >( c ), hi = gen< T >( c ); if( hi < lo ) std::swap( lo, hi );
        if( !( ld( hi ) - lo > ( mag( hi ) + mag( lo )) * 1e-3L + 1e-6L )) hi = lo + T( 2 ) + T( mag( lo ));
        scale_one< uint8_t >( c, a, lo, hi, false );
        scale_one< int8_t >( c, a, lo, hi, false );
        scale_one< uint16_t >( c, a, lo, hi, false );
        scale_one< int16_t >( c, a, lo, hi, false );
        scale_one< int >( c, a, lo, hi, false );
        scale_one< unsigned >( c, a, lo, hi, false );
        scale_one< long >( c, a, lo, hi, false );
        scale_one< uint8_t >( c, a, T( -1 ), T( 1 ), true );
    }
    static void run( Ctx& c )
    {
        vt::pick_profile( c );
        switch( c.rng.u( 3 )) { case 0: select( c ); break; case 1: order( c ); break; default: maps( c ); }
    }
};

void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    typedef void ( *Fn )( Ctx& );
    static const Fn tab[] = {
        A< 1, float >::run, A< 2, float >::run, A< 3, float >::run, A< 4, float >::run, A< 7, float >::run, A< 19, float >::run,
        A< 2, double >::run, A< 3, double >::run, A< 4, double >::run, A< 9, double >::run, A< 300, float >::run,
        A< 1, int >::run, A< 2, int >::run, A< 3, int >::run, A< 4, int >::run, A< 8, int >::run,
        A< 3, uint8_t >::run, A< 4, uint8_t >::run, A< 3, unsigned >::run, A< 3, long double >::run, A< 3, short >::run, A< 2, int64_t >::run, A< 4, int64_t >::run, A< 2, unsigned >::run };
    const size_t k = c.rng.u( sizeof( tab ) / sizeof( *tab ));
    c.in( int( k ));
    tab[ k ]( c );
}
