// C22: threads sharing const operands, over the whole API
#include "api.hpp"
#include <atomic>
#include <thread>

struct Hash : api::Sink
{
    uint64_t h; Hash() : h( 1469598103934665603ull ) {}
    void byte( unsigned char b ) { h = ( h ^ b ) * 1099511628211ull; }
    void value( const char*, double v, double, bool ) override
    { if( v != v ) v = 12345.678; unsigned char b[ sizeof v ]; memcpy( b, &v, sizeof v ); for( unsigned char x : b ) byte( x ); }
    void text( const char*, const std::string& s ) override { for( char x : s ) byte( static_cast< unsigned char >( x )); }
};
// objects of the other classes, read by every thread
template< class T > struct Shared
{
    typedef vmml::Vector< 3, T > V3; typedef vmml::Vector< 4, T > V4; typedef vmml::Matrix< 4, 4, T > M4;
    vmml::Quaternion< T > q, q2; vmml::AABB< T > box, box2; vmml::Frustum< T > fr; vmml::FrustumCuller< T > cull; vmml::Intersection< T > ray; vmml::LowpassFilter< 3, T > flt; M4 m, mi; V3 p; T axis[ 3 ];
    explicit Shared( api::R& r ) : q( T( r.r( -1, 1 )), T( r.r( -1, 1 )), T( r.r( .2, 1 )), T( r.r( -1, 1 ))), q2( T( r.r( -1, 1 )), T( 1 ), T( r.r( .2, 1 )), T( r.r( -1, 1 ))),
        box( V3( T( -1 ), T( -2 ), T( -3 )), V3( T( r.r( 1, 4 )), T( 2 ), T( 3 ))), box2( V3( T( 0 )), V3( T( r.r( 1, 4 )))), fr( T( -1 ), T( r.r( .5, 2 )), T( -1 ), T( 1 ), T( .5 ), T( 40 )),
        ray( V3( T( 0 ), T( 0 ), T( 5 )), V3( T( 0 ), T( 0 ), T( -1 ))), flt( .25f )
    {
        q.normalize(); q2.normalize(); m.rotate( T( r.r( -3, 3 )), vmml::normalize( V3( T( 1 ), T( r.r( -1, 1 )), T( 1 )))); m.set_translation( V3( T( 1 ), T( 2 ), T( r.r( -9, -3 )))); cull.setup( fr.compute_matrix() * m ); mi = m;
        p = V3( T( r.r( -2, 2 )), T( r.r( -2, 2 )), T( r.r( -2, 2 ))); for( int i = 0; i < 5; ++i ) flt.add( T( r.r( -2, 2 ))); axis[ 0 ] = T( r.d( )); axis[ 1 ] = T( 1 ); axis[ 2 ] = T( 2 );
    }
    // every const operation of these classes, on the shared objects themselves
    static void run( const Shared& s, unsigned k, Hash& h )
    {
        switch( k % 6 )
        {
        case 0: h.q( "", s.q * s.q2 ); h.q( "", s.q + s.q2 ); h.q( "", s.q - s.p ); h.q( "", s.q / T( 3 )); h.q( "", s.q.get_conjugate( )); h.q( "", s.q.get_normalized( )); h.q( "", -s.q ); h.n( "", s.q.abs( )); h.n( "", s.q == s.q2 ); { vmml::Quaternion< T > w( s.q ); h.n( "", w.is_akin( s.q2, T( 1 ))); } h.n( "", s.q.dot( s.q2 )); h.a( "", s.q.cross( s.q2 )); break;
        case 1: { h.a( "", s.q.get_rotation_matrix( )); M4 m; s.q.get_rotation_matrix( m ); h.a( "", m ); h.q( "", vmml::Quaternion< T >::slerp( T( .3 ), s.q, s.q2 )); vmml::Quaternion< T > c( s.m ); h.q( "", c ); std::ostringstream os; os << s.q << s.box << s.fr << s.m << s.p; h.text( "", os.str( )); break; }
        case 2: { vmml::AABB< T > w( s.box ); h.n( "", w.isIn( s.p )); h.n( "", w.isIn2d( s.p )); h.n( "", w.isIn( V4( s.p, T( .5 )))); } h.a( "", s.box.getCenter( )); h.a( "", s.box.getDimension( )); h.n( "", s.box.isEmpty( )); h.n( "", s.box == s.box2 ); h.b( "", s.box * T( 2 )); h.b( "", s.box + T( 1 )); { vmml::AABB< T > b( s.box ); b.merge( s.box2 ); b.merge( s.p ); h.b( "", b ); } h.b( "", vmml::AABB< T >::makeUnitBox( )); break;
        case 3: h.a( "", s.fr.compute_matrix( )); h.a( "", s.fr.compute_ortho_matrix( )); h.n( "", s.fr.get_width( )); h.n( "", s.fr.get_height( )); { vmml::Frustum< double > d( s.fr ); h.f( "", d ); vmml::Frustum< T > j( s.fr ); j.adjust_near( T( .7 )); h.f( "", j ); h.f( "", vmml::Frustum< T >::DEFAULT ); } break;
        case 4: { h.n( "", int( s.cull.test_sphere( V4( s.p, T( .5 ))))); typedef vmml::Vector< 2, T > V2; h.n( "", int( s.cull.test_aabb( V2( T( -1 ), s.p.x() + T( 2 )), V2( T( 0 ), T( 1 )), V2( T( -4 ), T( -3 ))))); vmml::FrustumCuller< T > mine; mine.setup( s.m ); h.n( "", int( mine.test_sphere( V4( s.p, T( .5 ))))); T t = T( 0 ); h.n( "", s.ray.test_sphere( V4( s.p, T( 1 )), t )); h.n( "", t ); h.n( "", s.flt.get( )); h.n( "", *s.flt ); vmml::LowpassFilter< 3, T > f( s.flt ); h.n( "", f.add( T( 1 ))); h.n( "", f.get( )); break; }
        default: { M4 c( s.m ); c.scale( s.axis ); c.set_translation( s.axis ); c.scale_translation( s.axis ); h.a( "", c ); M4 v; h.n( "", s.m.inverse( v )); h.a( "", v ); h.a( "", s.m * s.p ); h.a( "", s.m.get_translation( )); h.n( "", s.m == s.mi ); h.n( "", s.m.equals( s.mi, T( 1 ))); h.a( "", vmml::Matrix< 4, 4, T >::IDENTITY ); h.a( "", V3::FORWARD ); h.a( "", s.m * vmml::Matrix< 4, 4, T >::IDENTITY ); h.q( "", s.q * vmml::Quaternion< T >::QUATERI ); break; }
        }
    }
};
template< class T > static uint64_t shared_hash( const Shared< T >& s ) { Hash h; h.q( "", s.q ); h.q( "", s.q2 ); h.b( "", s.box ); h.b( "", s.box2 ); h.f( "", s.fr ); h.a( "", s.m ); h.a( "", s.mi ); h.a( "", s.p ); for( T x : s.axis ) h.n( "", x ); h.n( "", s.flt.get( )); return h.h; }

template< class T, bool F = std::is_floating_point< T >::value > struct Extra
{ Shared< T > s; explicit Extra( api::R& r ) : s( r ) {} enum { n = 6 }; void run( unsigned k, Hash& h ) const { Shared< T >::run( s, k, h ); } uint64_t hash() const { return shared_hash( s ); } };
template< class T > struct Extra< T, false > { explicit Extra( api::R& ) {} enum { n = 0 }; void run( unsigned, Hash& ) const {} uint64_t hash() const { return 0; } };

template< class T > struct Run
{
    static void run( Ctx& c )
    {
        const std::vector< api::Op< T > >& all = api::ops< T >();
        const size_t threads = 2 + c.rng.u( 7 ), jobs = 4 + c.rng.u( 9 ), each = 4 + c.rng.u( 12 );
        const uint64_t ps = c.rng.next(); api::R pr( ps ); c.in( double( ps )); c.in( double( threads )); c.in( double( jobs )); c.in( double( each ));
        std::unique_ptr< api::Pool< T > > pool( new api::Pool< T >( pr )); std::unique_ptr< Extra< T > > extra( new Extra< T >( pr ));
        const uint64_t before = pool->hash(), ebefore = extra->hash();
        struct Job { size_t op; uint64_t seed, alone; }; std::vector< Job > job( jobs );
        for( Job& j : job ) { j.op = c.rng.u( all.size() + 4 * Extra< T >::n ); j.seed = c.rng.next(); c.in( double( j.op )); }
        const auto call = [ & ]( const Job& j ) { Hash h; if( j.op < all.size( )) { api::R r( j.seed ); all[ j.op ].run( *pool, r, h ); } else extra->run( unsigned( j.op - all.size( )), h ); return h.h; };
        // alone before or after: the threads may be the first to run an operation
        const bool first = vt::G().cases > 0 && c.rng.b(); if( first ) for( Job& j : job ) j.alone = call( j );
        struct Out { std::vector< std::pair< size_t, uint64_t > > did; std::vector< uint64_t > when; }; std::vector< Out > out( threads ); std::vector< uint64_t > ts; for( size_t t = 0; t < threads; ++t ) ts.push_back( c.rng.next( ));
        std::atomic< size_t > ready( 0 ), clock( 0 ); std::vector< std::thread > th;
        const bool yields = c.rng.b();
        for( size_t t = 0; t < threads; ++t ) th.emplace_back( [ &, t ] {
            api::R r( ts[ t ] ); Out& o = out[ t ]; o.did.reserve( each );
            ready.fetch_add( 1, std::memory_order_relaxed ); while( ready.load( std::memory_order_relaxed ) < threads ) std::this_thread::yield();
            for( size_t k = 0; k < each; ++k )
            {
                const size_t j = r.u( jobs ); if( yields && r.one( 3 )) std::this_thread::yield(); else for( volatile size_t spin = r.u( 300 ); spin; spin = spin - 1 ) {}
                o.when.push_back( clock.fetch_add( 1, std::memory_order_relaxed )); o.did.push_back( std::make_pair( j, call( job[ j ] )));
            } } );
        for( std::thread& x : th ) x.join();
        if( !first ) for( Job& j : job ) j.alone = call( j );
        uint64_t order = 0; size_t switches = 0; std::vector< size_t > who( threads * each );
        for( size_t t = 0; t < threads; ++t )
        {
            for( size_t k = 0; k < each; ++k ) { who[ out[ t ].when[ k ] ] = t; const Job& j = job[ out[ t ].did[ k ].first ]; CHECK( "result-equals-sequential", out[ t ].did[ k ].second == j.alone, j.op < all.size() ? all[ j.op ].name : "shared", threads ); }
        }
        for( size_t i = 0; i < who.size(); ++i ) { order = ( order ^ who[ i ] ) * 1099511628211ull; if( i && who[ i ] != who[ i - 1 ] ) ++switches; }
        c.in( double( order % 1000003 )); // the interleaving seen is part of what makes a case distinct
        if( switches > threads ) SAW( "saw-interleaved-histories" ); else SAW( "saw-mostly-sequential-histories" );
        CHECK( "shared-operands-unchanged", pool->hash() == before && extra->hash() == ebefore, threads );
    }
};
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    switch( c.rng.u( 8 ))
    {
    case 0: case 1: case 2: Run< float >::run( c ); break;
    case 3: case 4: case 5: Run< double >::run( c ); break;
    case 6: Run< int >::run( c ); break;
    default: Run< uint8_t >::run( c );
    }
}
