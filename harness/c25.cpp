// C25: one workload, built in many ways; writes every result it saw.  special.py compares the logs.
#include "api.hpp"
#include <map>

struct Log : api::Sink
{
    struct Rec { double v; uint32_t id; uint16_t name; uint8_t exact, type; float tol; uint32_t pad; };
    std::vector< Rec > recs; std::vector< std::string > names; std::map< std::string, unsigned > index; uint32_t id; uint8_t type;
    unsigned name( const char* n ) { auto it = index.find( n ); if( it != index.end( )) return it->second; names.push_back( n ); return index[ n ] = unsigned( names.size() - 1 ); }
    void put( const char* n, double v, double tol, bool exact ) { Rec r = { v, id, uint16_t( name( n )), uint8_t( exact ), type, float( tol ), 0 }; recs.push_back( r ); }
    void value( const char* n, double v, double tol, bool exact ) override { put( n, v, tol, exact ); }
    void text( const char* n, const std::string& s ) override
    { uint64_t h = 1469598103934665603ull; for( char x : s ) h = ( h ^ static_cast< unsigned char >( x )) * 1099511628211ull; put( n, double( h >> 12 ), 0, true ); }
};
template< class T > static void one( Log& l, api::R& g, uint8_t type )
{
    const std::vector< api::Op< T > >& all = api::ops< T >(); const uint64_t ps = g.next(), os = g.next(); const api::Op< T >& op = all[ g.u( all.size( )) ];
    l.type = type; l.put( op.name, double( type ), 0, true );
    api::R pr( ps ), r( os ); std::unique_ptr< api::Pool< T > > p( new api::Pool< T >( pr )); op.run( *p, r, l );
}
// what the shared workload leaves out, as it draws from rand() or needs rare operands
template< class T > struct Rare
{
    typedef vmml::Vector< 3, T > V3; typedef vmml::Vector< 4, T > V4; typedef vmml::Matrix< 3, 3, T > M3; typedef vmml::Matrix< 4, 4, T > M4; typedef vmml::Quaternion< T > Q; typedef vmml::AABB< T > B;
    template< class O > static void random( api::R& r, api::Sink& s )
    {
        O o; o.set_random( r.i( 0, 1 << 20 )); s.a( "set_random", o ); o.set_random(); s.a( "set_random-on", o ); O z; z.set_random( r.i( 0, 1000 )); s.a( "set_random-again", z );
    }
    static T draw( api::R& r ) { return T( r.r( -5, 5 )); }
    static V3 axis( api::R& r ) { V3 v; for( int k = 0; k < 3; ++k ) v.array[ k ] = r.one( 3 ) ? T( 0 ) : T( r.r( -1, 1 )); if( v.squared_length() < T( .01 )) v = V3( T( 1 ), T( 0 ), T( 0 )); v.normalize(); return v; }
    static void quats( api::R& r, api::Sink& s )
    {
        const V3 a = axis( r ); const T pi = T( 3.14159265358979323846 ), t = r.one( 3 ) ? pi : T( r.r( 1.7, 4.5 )); const T c = std::cos( t / 2 ), n = std::sin( t / 2 ); const Q q( a.x() * n, a.y() * n, a.z() * n, c );
        const M3 m = q.get_rotation_matrix(); Q p( m ); T side = 0; for( int k = 0; k < 4; ++k ) side += p.array[ k ] * q.array[ k ]; if( side < 0 ) p *= T( -1 ); s.q( "half-turn", p, 64 ); // q and -q are one rotation
        const T close = T( std::pow( 10., r.r( -9, -1 ))); Q e( q.x() + close, q.y(), q.z(), q.w( )); e.normalize(); Q f = Q::slerp( T( r.d( )), q, e ); s.q( "slerp-close", f, 256 ); f = Q::slerp( T( .5 ), q, q ); s.q( "slerp-same", f, 16 );
        f = Q( T( 0 ), T( 0 ), T( 0 ), T( 0 )); s.n( "normalize-zero", f.normalize( )); s.q( "zero", f );
    }
    static void boxes( api::R& r, api::Sink& s )
    {
        B b; s.b( "no-box", b ); s.n( "empty", b.isEmpty( )); const V3 p( draw( r ), T( 1 ), T( 2 )); b.merge( p ); b.merge( V3( T( 6 ), T( 7 ), draw( r ))); s.b( "merged", b ); s.n( "in-no", b.isIn( V3( T( 9 ), T( 1 ), T( 1 )))); s.n( "in-2d-no", b.isIn2d( V3( T( 1 ), T( -9 ), T( 1 )))); s.n( "in-sphere-no", b.isIn( V4( p, T( 2 ))));
        b.getMax() = V3( T( 8 ), T( 8 ), T( 8 )); b.getMin().x() = T( -8 ); s.b( "set-through", b ); const V4 ball( p, T( r.i( 1, 3 ))); B c( ball ); s.b( "of-ball", c ); b.setEmpty(); s.b( "emptied", b ); b.merge( c ); s.b( "merged-empty", b ); s.b( "unit", B::makeUnitBox( ));
    }
    static void numbers( api::R& r, api::Sink& s )
    {
        M3 m; for( auto& x : m ) x = draw( r ); M3 sp; sp.multiply( m, vmml::transpose( m )); s.n( "definite", vmml::is_positive_definite( sp, T( -1 ))); s.n( "indefinite", vmml::is_positive_definite( M3( vmml::Matrix< 3, 3, T >( sp ) * T( -1 )), T( 0 )));
        const M3& k = m; for( size_t i = 0; i < 3; ++i ) for( size_t j = 0; j < 3; ++j ) s.n( "element", k( i, j ));
        vmml::Matrix< 3, 3, unsigned char > u; T lo = 0, hi = 0; m.quantize( u, lo, hi ); s.n( "lo", lo ); s.n( "hi", hi ); M3 d; u.dequantize( d, lo, hi ); s.a( "dequantize", d ); m = T( 3 ); m.quantize( u, lo, hi ); s.a( "quantize-constant", u ); vmml::Matrix< 3, 3, short > w; m.quantize( w, lo, hi ); s.a( "quantize-constant-signed", w );
        V4 v; for( auto& x : v ) x = draw( r ); v.perturb( T( .25 )); s.a( "perturb", v ); vmml::Vector< 4, signed char > q; v.scale_to( q, T( -3 ), T( 3 )); s.a( "scale_to", q );
        const vmml::Intersection< T > ray( V3( T( 0 ), T( 0 ), T( 0 )), V3( T( 0 ), T( 0 ), T( 2 ))); T t = T( -7 ); s.n( "miss", ray.test_sphere( V4( T( 9 ), T( 0 ), T( 0 ), T( 1 )), t )); s.n( "left", t ); s.n( "behind", ray.test_sphere( V4( T( 0 ), T( 0 ), T( -9 ), T( 1 )), t )); s.n( "inside", ray.test_sphere( V4( T( 0 ), T( 0 ), T( 1 ), T( 3 )), t )); s.n( "exit", t, 8 );
        vmml::Frustum< T > f( T( -1 ), T( 2 ), T( -3 ), T( 4 ), T( 1 ), T( 9 )); f.adjust_near( T( 1 )); s.f( "same-near", f ); f = vmml::Frustum< T >::DEFAULT; s.f( "default", f );
    }
    static void large( api::R& r, api::Sink& s )
    {
        typedef vmml::Matrix< 17, 19, T > A; std::unique_ptr< A > a( new A ); for( auto& x : *a ) x = draw( r ); std::unique_ptr< vmml::Matrix< 19, 17, T > > b( new vmml::Matrix< 19, 17, T >( vmml::transpose( *a ))); std::unique_ptr< vmml::Matrix< 17, 17, T > > c( new vmml::Matrix< 17, 17, T >( *a * *b )); s.a( "product", *c, 16 ); s.n( "sum", a->sum_elements(), 64 ); s.n( "norm", a->frobenius_norm(), 16 );
        vmml::Vector< 19, T > v; v.set_random( 7 ); s.a( "apply", *a * v, 16 ); vmml::Vector< 70, T > w; w.set_random( r.i( 0, 99 )); s.n( "length", w.length(), 16 ); s.n( "dot", w.dot( w ), 16 ); w.normalize(); s.a( "normalized", w, 16 ); s.n( "min", w.find_min( )); s.n( "max-index", w.find_max_index( ));
    }
    static void run( Log& l, api::R& r, uint8_t type )
    {
        l.type = type; const size_t k = r.u( 9 ); l.put( "rare", double( k ), 0, true );
        switch( k ) { case 0: random< V3 >( r, l ); random< V4 >( r, l ); break; case 1: random< M3 >( r, l ); random< M4 >( r, l ); random< vmml::Matrix< 2, 5, T > >( r, l ); break; case 2: case 3: quats( r, l ); break; case 4: boxes( r, l ); break; case 5: case 6: numbers( r, l ); break; default: large( r, l ); }
    }
};
int main( int argc, char** argv )
{
    if( argc < 5 ) return 3;
    const uint64_t seed = strtoull( argv[ 1 ], 0, 10 ), start = strtoull( argv[ 2 ], 0, 10 ), count = strtoull( argv[ 3 ], 0, 10 ); Log l;
    for( uint64_t i = start; i < start + count; ++i )
    {
        api::R g( seed * 0x9e3779b97f4a7c15ull + i * 0xd1342543de82ef95ull ); l.id = uint32_t( i );
        switch( g.u( 14 ))
        {
        case 0: case 1: case 2: case 3: one< float >( l, g, 4 ); break; case 4: case 5: case 6: case 7: one< double >( l, g, 8 ); break; case 8: one< int >( l, g, 1 ); break; case 9: one< int64_t >( l, g, 1 ); break;
        case 10: one< uint8_t >( l, g, 1 ); break; case 11: one< long double >( l, g, 8 ); break; case 12: Rare< float >::run( l, g, 4 ); break; default: Rare< double >::run( l, g, 8 );
        }
    }
    const std::string out = argv[ 4 ]; FILE* f = fopen( out.c_str(), "wb" ); if( !f || fwrite( l.recs.data(), sizeof( Log::Rec ), l.recs.size(), f ) != l.recs.size() || fclose( f )) return 3;
    f = fopen(( out + ".names" ).c_str(), "w" ); if( !f ) return 3; for( const std::string& n : l.names ) fprintf( f, "%s\n", n.c_str( )); return fclose( f ) ? 3 : 0;
}
