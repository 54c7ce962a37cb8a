// C13: quaternion algebra obeys the Hamilton rules
#include "common.hpp"
#include <vmmlib/quaternion.hpp>
#include <vmmlib/exception.hpp>
using vmml::Quaternion; using vmml::Vector;

struct H { ld x, y, z, w; };
static H mul( const H& p, const H& q ) // textbook Hamilton product
{
    return H{ p.w * q.x + p.x * q.w + p.y * q.z - p.z * q.y, p.w * q.y - p.x * q.z + p.y * q.w + p.z * q.x,
              p.w * q.z + p.x * q.y - p.y * q.x + p.z * q.w, p.w * q.w - p.x * q.x - p.y * q.y - p.z * q.z };
}
static ld len( const H& q ) { return sqrtl( q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w ); }

template< class T > struct A
{
    typedef Quaternion< T > Q; typedef Vector< 3, T > V3;
    static H h( const Q& q ) { return H{ q.array[ 0 ], q.array[ 1 ], q.array[ 2 ], q.array[ 3 ] }; }
    static H h( const V3& v ) { return H{ v.array[ 0 ], v.array[ 1 ], v.array[ 2 ], 0 }; }
    static std::string sh( const Q& q ) { return vt::str( q.array[ 0 ], q.array[ 1 ], q.array[ 2 ], q.array[ 3 ] ); }
    static bool is( const Q& g, const H& r, ld scale, double k = 40 )
    { return near( g.array[ 0 ], r.x, scale, k ) && near( g.array[ 1 ], r.y, scale, k ) && near( g.array[ 2 ], r.z, scale, k ) && near( g.array[ 3 ], r.w, scale, k ); }
    // component-wise operations: each component to its own rounding
    static bool each( const Q& g, const H& r ) { return near( g.array[ 0 ], r.x, 0, 4 ) && near( g.array[ 1 ], r.y, 0, 4 ) && near( g.array[ 2 ], r.z, 0, 4 ) && near( g.array[ 3 ], r.w, 0, 4 ); }
    static bool same( const Q& a, const Q& b ) { for( int i = 0; i < 4; ++i ) if( !vt::same( a.array[ i ], b.array[ i ] )) return false; return true; }

    static void make( Ctx& c, Q& q )
    {
        for( int i = 0; i < 4; ++i ) q.array[ i ] = gen< T >( c );
        switch( c.rng.u( 9 ))
        {
        case 0: q.w() = 0; SAW( "saw-pure" ); break;
        case 1: q.x() = q.y() = q.z() = 0; SAW( "saw-scalar" ); break;
        case 2: { const T n = T( len( h( q ))); if( n > T( 0 )) for( int i = 0; i < 4; ++i ) q.array[ i ] /= n; SAW( "saw-unit" ); break; }
        case 6: { const T n = T( len( h( q ))), s = T( 1 + ( c.rng.b() ? 1 : -1 ) * pow( 10, -c.rng.r( 2, sizeof( T ) == 4 ? 6.5 : 12 ))); if( n > T( 0 )) for( int i = 0; i < 4; ++i ) q.array[ i ] *= s / n; SAW( "saw-near-unit" ); break; }
        case 3: if( c.rng.b( )) { q.x() = q.y() = q.z() = q.w() = 0; SAW( "saw-zero" ); } break;
        case 4: { const T s = T( std::ldexp( 1., c.rng.i( -25, 25 ))); for( int i = 0; i < 4; ++i ) q.array[ i ] *= s; SAW( "saw-scaled" ); break; }
        case 5: { const int k = c.rng.i( 0, 3 ); for( int i = 0; i < 4; ++i ) q.array[ i ] = i == k ? T( c.rng.b() ? 1 : -1 ) : T( 0 ); SAW( "saw-basis" ); break; }
        default: break;
        }
        for( int i = 0; i < 4; ++i ) c.in( q.array[ i ] );
    }

    static void run( Ctx& c )
    {
        vt::pick_profile( c );
        vt::Canary< Q > cp, cq, cr; Q& p = cp.v; Q& q = cq.v; Q& r = cr.v;
        make( c, p ); make( c, q ); make( c, r );
        V3 v; fill( c, v ); T s = gen< T >( c );
        const Q p0( p ), q0( q ), r0( r ); const V3 v0( v );
        const ld P = len( h( p )), W = len( h( q )), R = len( h( r )), V = len( h( v ));

        CHECK( "product", is( p * q, mul( h( p ), h( q )), P * W ), sh( p ), sh( q ), sh( p * q ));
        CHECK( "product-vector", is( p * v, mul( h( p ), h( v )), P * V ), sh( p ), vt::show( v ), sh( p * v ));
        CHECK( "product-vector-is-pure-quaternion", is( p * Q( v ), mul( h( p ), h( v )), P * V ), "" );
        { Q a( p ); a *= q; CHECK( "product-in-place", is( a, mul( h( p ), h( q )), P * W ), sh( p ), sh( q ), sh( a )); }
        { Q a( p ); a *= v; CHECK( "product-vector-in-place", is( a, mul( h( p ), h( v )), P * V ), sh( p ), vt::show( v ), sh( a )); }
        { Q a( p ); a *= a; CHECK( "square-in-place", is( a, mul( h( p ), h( p )), P * P ), sh( p ), sh( a )); }
        { Q a( p ); a += a; Q b( p ); b -= b; CHECK( "self-sum", each( a, H{ 2 * h( p ).x, 2 * h( p ).y, 2 * h( p ).z, 2 * h( p ).w } ) && each( b, H{ 0, 0, 0, 0 } ), sh( p ), sh( a ), sh( b )); }
        if( P * W * R < 1e30L )
        {
            const Q a = ( p * q ) * r, b = p * ( q * r ); const ld t = 200 * vt::eps< T >() * P * W * R + 200 * std::numeric_limits< T >::min(); bool ok = true;
            for( int i = 0; i < 4; ++i ) ok &= fabsl( ld( a.array[ i ] ) - ld( b.array[ i ] )) <= t;
            CHECK( "associative", ok, sh( p ), sh( q ), sh( r ), sh( a ), sh( b ));
        }
        if( P * W < 1e15L && ( P * W > 1e-12L || P * W == 0 ))
            CHECK( "norm-multiplicative", fabsl( ld(( p * q ).abs( )) - P * W ) <= 60 * vt::eps< T >() * P * W, sh( p ), sh( q ), ( p * q ).abs(), P * W );
        { const H a = h( p ), b = h( q );
          CHECK( "sum", each( p + q, H{ a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w } ), sh( p ), sh( q ), sh( p + q ));
          CHECK( "difference", each( p - q, H{ a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w } ), sh( p ), sh( q ), sh( p - q ));
          const H d = h( v );
          CHECK( "sum-vector", each( p + v, H{ a.x + d.x, a.y + d.y, a.z + d.z, a.w } ), sh( p ), vt::show( v ), sh( p + v ));
          CHECK( "difference-vector", each( p - v, H{ a.x - d.x, a.y - d.y, a.z - d.z, a.w } ), sh( p ), vt::show( v ), sh( p - v ));
          CHECK( "negation", each( -p, H{ -a.x, -a.y, -a.z, -a.w } ) && each( p.negate(), H{ -a.x, -a.y, -a.z, -a.w } ), sh( p ), sh( -p ), sh( p.negate( )));
          CHECK( "conjugate", each( p.get_conjugate(), H{ -a.x, -a.y, -a.z, a.w } ), sh( p ), sh( p.get_conjugate( )));
          { Q e( p ); e.conjugate(); CHECK( "conjugate-in-place", each( e, H{ -a.x, -a.y, -a.z, a.w } ), sh( p ), sh( e )); }
          CHECK( "times-scalar", each( p * s, H{ a.x * s, a.y * s, a.z * s, a.w * s } ), sh( p ), s, sh( p * s ));
          const T n = s == T( 0 ) ? T( 3 ) : s;
          CHECK( "by-scalar", each( p / n, H{ a.x / n, a.y / n, a.z / n, a.w / n } ), sh( p ), n, sh( p / n ));
          CHECK( "squared_abs", near( p.squared_abs(), P * P, P * P, 8 ), sh( p ), p.squared_abs(), P * P );
          if( P == 0 || P > 1e-15L ) CHECK( "abs", near( p.abs(), P, P, 8 ), sh( p ), p.abs(), P );
          const ld dt = a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w;
          CHECK( "dot", near( p.dot( q ), dt, P * W, 12 ) && near( Q::dot( p, q ), dt, P * W, 12 ), sh( p ), sh( q ), p.dot( q ), dt );
          const V3 cx = p.cross( q );
          CHECK( "cross", near( cx.array[ 0 ], a.y * b.z - a.z * b.y, P * W, 8 ) && near( cx.array[ 1 ], a.z * b.x - a.x * b.z, P * W, 8 ) && near( cx.array[ 2 ], a.x * b.y - a.y * b.x, P * W, 8 ),
                 sh( p ), sh( q ), vt::show( cx ));
          if( P > 1e-12L && P < 1e12L )
          {
              const H i = H{ -a.x / ( P * P ), -a.y / ( P * P ), -a.z / ( P * P ), a.w / ( P * P ) };
              Q e( p ); const Q inv = e.inverse();
              CHECK( "inverse", is( inv, i, 1 / P, 16 ), sh( p ), sh( inv ));
              CHECK( "inverse-keeps-operand", same( e, p ), sh( e ));
              CHECK( "inverse-times", is( p * inv, H{ 0, 0, 0, 1 }, 1, 80 ) && is( inv * p, H{ 0, 0, 0, 1 }, 1, 80 ), sh( p ), sh( inv ));
              const H u = H{ a.x / P, a.y / P, a.z / P, a.w / P };
              Q f( p ); f.normalize();
              CHECK( "normalize", is( f, u, 0, 12 ) && is( p.get_normalized(), u, 0, 12 ), sh( p ), sh( f ), sh( p.get_normalized( )));
              SAW( "saw-invertible" );
          }
          if( P == 0 ) { Q f( p ); const T z = f.normalize(); CHECK( "normalize-zero", z == T( 0 ) && same( f, p ) && same( p.get_normalized(), p ), sh( f )); }
          size_t mn = 0, mx = 0; for( size_t i = 1; i < 4; ++i ) { if( p.array[ i ] < p.array[ mn ] ) mn = i; if( p.array[ i ] > p.array[ mx ] ) mx = i; }
          CHECK( "extremes", p.find_min() == p.array[ mn ] && p.find_max() == p.array[ mx ] && p.find_min_index() == mn && p.find_max_index() == mx, sh( p ));
        }
        // dividing by zero is refused and changes nothing
        for( int k = 0; k < 2; ++k )
        {
            const T z = k ? T( -0.0 ) : T( 0 ); bool a = false, b = false; Q e( p );
            try { e /= z; } catch( const vmml::exception& ) { a = true; }
            try { volatile T sink = ( p / z ).array[ 0 ]; (void)sink; } catch( const vmml::exception& ) { b = true; }
            CHECK( "division-by-zero-raises", a && b, a, b ); CHECK( "division-by-zero-changes-nothing", same( e, p ), sh( e ));
        }
        {   // dividing by anything else is not refused, however small
            T z = c.rng.b() ? std::numeric_limits< T >::denorm_min() : std::numeric_limits< T >::min() * T( c.rng.r( .01, 2 )); if( c.rng.b( )) z = -z; c.in( z ); bool a = false; Q e( p );
            try { e /= z; volatile T sink = ( p / z ).array[ 0 ]; (void)sink; } catch( const vmml::exception& ) { a = true; }
            CHECK( "tiny-divisor-accepted", !a, z );
        }
        CHECK( "operands-unchanged", same( p, p0 ) && same( q, q0 ) && same( r, r0 ) && vt::memdiff( v.array, v0.array, sizeof v.array ) == 0, "" );

        // a history of in-place operations, each judged against the state before it
        Q& a = p;
        for( int step = 0; step < 8; ++step )
        {
            const H b = h( a ), d = h( q ); const ld B = len( b );
            if( !( B < 1e8L ) || ( B < 1e-8L && B > 0 )) { a = Q( T( .5 ), T( -1 ), T( 2 ), T( .25 )); continue; }
            const size_t op = c.rng.u( 11 ); c.in( int( op )); const Q was( a ); H want = b; ld scale = 0; const V3 u( gen< T >( c ), gen< T >( c ), gen< T >( c )); T t = gen_nz< T >( c );
            switch( op )
            {
            case 0: a *= q; want = mul( b, d ); scale = B * W; break;
            case 1: a += q; want = H{ b.x + d.x, b.y + d.y, b.z + d.z, b.w + d.w }; break;
            case 2: a -= q; want = H{ b.x - d.x, b.y - d.y, b.z - d.z, b.w - d.w }; break;
            case 3: a *= t; want = H{ b.x * t, b.y * t, b.z * t, b.w * t }; break;
            case 4: a /= t; want = H{ b.x / t, b.y / t, b.z / t, b.w / t }; break;
            case 5: a *= u; want = mul( b, h( u )); scale = B * len( h( u )); break;
            case 6: a += u; want = H{ b.x + h( u ).x, b.y + h( u ).y, b.z + h( u ).z, b.w }; break;
            case 7: a -= u; want = H{ b.x - h( u ).x, b.y - h( u ).y, b.z - h( u ).z, b.w }; break;
            case 8: a.conjugate(); want = H{ -b.x, -b.y, -b.z, b.w }; break;
            case 9: a.normalize(); if( B > 0 ) want = H{ b.x / B, b.y / B, b.z / B, b.w / B }; break;
            default: a = a * a; want = mul( b, b ); scale = B * B;
            }
            CHECK( "history-step", is( a, want, scale ), "op", op, sh( was ), sh( q ), t, vt::show( u ), "got", sh( a ));
        }
        a.zero(); CHECK( "zero", each( a, H{ 0, 0, 0, 0 } ), sh( a )); a.identity(); CHECK( "identity", each( a, H{ 0, 0, 0, 1 } ), sh( a ));
        CHECK( "no-stray-write", cp.ok() && cq.ok() && cr.ok(), "" );
    }
};
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { const size_t k = c.rng.u( 5 ); c.in( k ); if( k < 2 ) A< float >::run( c ); else if( k < 4 ) A< double >::run( c ); else A< long double >::run( c ); }
