// C01: memory safety, initialisation, leaks and undefined behaviour over the whole API
#include "api.hpp"
#include "alloc.hpp"
#include <malloc.h>
#ifdef VERIF_VALGRIND
#include <valgrind/memcheck.h>
#endif

struct Hash : api::Sink
{
    uint64_t h; uint64_t n; uint64_t odd; Hash() : h( 1469598103934665603ull ), n( 0 ), odd( 0 ) {}
    void byte( unsigned char b ) { h = ( h ^ b ) * 1099511628211ull; }
    void value( const char* name, double v, double, bool ) override
    {
#ifdef VERIF_VALGRIND
        VALGRIND_CHECK_MEM_IS_DEFINED( &v, sizeof v );
#endif
        if( v != v ) v = 12345.678; // any NaN is the same NaN
        unsigned char b[ sizeof v ]; memcpy( b, &v, sizeof v ); for( unsigned char x : b ) byte( x ); ++n; (void)name;
        if( v == 1.2345e-77 ) ++odd;
    }
    void text( const char*, const std::string& s ) override { for( char x : s ) byte( static_cast< unsigned char >( x )); ++n; }
};
// what the next function finds on its stack
static void __attribute__(( noinline )) scribble( unsigned char x ) { volatile unsigned char b[ 16384 ]; for( size_t i = 0; i < sizeof b; ++i ) b[ i ] = x; }
// what the next heap blocks hold
static void churn( unsigned char x )
{
    std::vector< void* > v; for( size_t k = 0; k < 3; ++k ) for( size_t n = 8; n <= 512; n += 16 ) { void* p = ::operator new( n ); memset( p, x, n ); v.push_back( p ); } for( void* p : v ) ::operator delete( p );
}
template< class T > struct Run
{
    static void run( Ctx& c )
    {
        const uint64_t ps = c.rng.next(), os = c.rng.next(); const size_t k = c.rng.u( api::ops< T >().size( )); const api::Op< T >& op = api::ops< T >()[ k ];
        c.note( op.name ); c.in( double( ps )); c.in( double( os ));
        api::R pr( ps ); std::unique_ptr< api::Pool< T > > pool( new api::Pool< T >( pr )); const uint64_t before = pool->hash();
        Hash h[ 3 ]; long grew = 0;
        for( int i = 0; i < 3; ++i )
        {
            static const unsigned char fill[] = { 0x00, 0xff, 0x41 };
#ifndef VERIF_VALGRIND
            mallopt( M_PERTURB, fill[ i ] ); churn( fill[ i ] ); scribble( fill[ i ] );
#else
            if( i == 2 ) break;
#endif
            const long live = vt::live_blocks(); api::R r( os );
            op.run( *pool, r, h[ i ] );
            grew = vt::live_blocks() - live; // of the last time: what is made once and kept is no leak
        }
        CHECK( "result-independent-of-storage-history", h[ 0 ].h == h[ 1 ].h && h[ 0 ].n == h[ 1 ].n, op.name );
#ifndef VERIF_VALGRIND
        CHECK( "result-independent-of-storage-history", h[ 0 ].h == h[ 2 ].h && h[ 0 ].n == h[ 2 ].n, op.name );
#endif
        CHECK( "nothing-leaked", grew == 0, op.name, grew );
        CHECK( "const-operands-unchanged", pool->hash() == before, op.name );
        CHECK( "reports-something", h[ 0 ].n > 0 && h[ 0 ].odd == 0, op.name );
    }
};
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c )
{
    switch( c.rng.u( 9 ))
    {
    case 0: case 1: case 2: Run< float >::run( c ); break;
    case 3: case 4: case 5: Run< double >::run( c ); break;
    case 6: Run< int >::run( c ); break;
    case 7: Run< long double >::run( c ); break;
    default: Run< uint8_t >::run( c );
    }
}
