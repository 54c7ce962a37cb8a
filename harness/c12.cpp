// C12: persistence round-trips and tolerates file faults.
// Every file lies in a scratch directory below the working directory of the run.
#include "common.hpp"
#include "alloc.hpp"
#include <iostream>
#include <fstream>
#include <sys/stat.h>
#include <vmmlib/matrix.hpp>
using vmml::Matrix; using vmml::Vector;

static std::string scratch, local;
struct Null : std::streambuf { int overflow( int ch ) override { return ch; } };

static std::vector< char > slurp( const std::string& p, bool& there )
{
    std::vector< char > v; FILE* f = fopen( p.c_str(), "rb" ); there = f != 0; if( !f ) return v;
    char b[ 4096 ]; size_t n; while(( n = fread( b, 1, sizeof b, f )) > 0 ) v.insert( v.end(), b, b + n );
    fclose( f ); return v;
}
static void spit( const std::string& p, const std::vector< char >& v )
{ FILE* f = fopen( p.c_str(), "wb" ); if( !f ) abort(); if( !v.empty() && fwrite( v.data(), 1, v.size(), f ) != v.size( )) abort(); fclose( f ); }

template< class T > static void set_any( Ctx& c, T& x ) { x = gen< T >( c ); }

// a call that must neither raise nor keep memory
template< class F > static void quiet( Ctx& c, const char*, F f )
{
    const long before = vt::live_blocks(); bool raised = false;
    try { f(); } catch( ... ) { raised = true; }
    const long after = vt::live_blocks();
    CHECK( "never-raises", !raised, "" );
    CHECK( "no-leak", after == before, before, after );
}

template< size_t M, size_t N, class T > struct A
{
    typedef Matrix< M, N, T > X;
    enum : size_t { n = M * N };
    static bool eq( const X& a, const X& b ) { for( size_t i = 0; i < n; ++i ) if( !vt::same( a.array[ i ], b.array[ i ] )) return false; return true; }

    static void run( Ctx& c )
    {
        vt::pick_profile( c );
        vt::Canary< X > ca, cb; X& a = ca.v; X& b = cb.v;
        fill( c, a );
        if( std::is_floating_point< T >::value && c.rng.one( 6 )) { a.array[ c.rng.u( n ) ] = std::numeric_limits< T >::infinity(); SAW( "saw-infinity-raw" ); }
        const X a0( a );
        raw( c, a, b );
        if( sizeof( T ) > 1 ) { csv( c, a ); text( c, a0 ); } else SAW( "saw-bytes" ); // the text of a byte is a character
        CHECK( "operand-unchanged", eq( a, a0 ), "" );
        CHECK( "no-stray-write", ca.ok() && cb.ok(), "" );
    }
    static void raw( Ctx& c, const X& a, X& b )
    {
        static const char* names[] = { "m", "matrix.raw", "a.b", "raw", "some raw thing", "x.dat", "ra", "raw.x" };
        const std::string name = names[ c.rng.u( 8 ) ];
        const bool suffixed = name.size() >= 3 && name.substr( name.size() - 3 ) == "raw";
        const std::string stored = suffixed ? name : name + ".raw";
        // the directory as an absolute or a relative name, with and without a slash at its end
        const bool relative = c.rng.one( 3 ); if( relative ) SAW( "saw-relative-directory" );
        const std::string dir = ( relative ? local : scratch ) + ( c.rng.b() ? "/" : "" ), path = scratch + "/" + stored;
        c.note( name );
        if( c.rng.b( )) { spit( path, std::vector< char >( c.rng.u( 3000 ), 'x' )); SAW( "saw-overwrite" ); } // an older, maybe longer file
        quiet( c, "write_to_raw", [&]{ a.write_to_raw( dir, name ); } );
        bool there; std::vector< char > f = slurp( path, there );
        CHECK( "raw-file-written", there && f.size() == sizeof( T ) * n, path, f.size( ));
        if( !there || f.size() != sizeof( T ) * n ) return;
        for( size_t i = 0; i < n; ++i )
        { T v; memcpy( &v, &f[ i * sizeof( T ) ], sizeof( T )); CHECK( "raw-file-column-major", vt::same( v, a.array[ i ] ), i, v, a.array[ i ] ); }
        { fill( c, b ); quiet( c, "read_from_raw", [&]{ b.read_from_raw( dir, stored ); } ); CHECK( "raw-round-trip", eq( a, b ), vt::show( a ), vt::show( b )); }
        // a file cut at any byte, or with more behind
        for( int k = 0; k < 3; ++k )
        {
            const bool longer = c.rng.one( 5 );
            const size_t cut = longer ? f.size() + 1 + c.rng.u( 40 ) : c.rng.u( f.size() + 1 );
            std::vector< char > g( f ); g.resize( cut, '\x5c' ); spit( path, g ); c.in( int( cut ));
            fill( c, b ); const X old( b );
            quiet( c, "read_from_raw", [&]{ b.read_from_raw( dir, stored ); } );
            const size_t have = std::min< size_t >( n, cut / sizeof( T )); bool kept = true, read = true;
            for( size_t i = 0; i < n; ++i ) ( i < have ? read : kept ) &= vt::same( b.array[ i ], i < have ? a.array[ i ] : old.array[ i ] );
            CHECK( "cut-file-complete-elements-read", read, "bytes", cut, vt::show( a ), vt::show( b ));
            CHECK( "cut-file-rest-kept", kept, "bytes", cut, vt::show( old ), vt::show( b ));
            if( longer ) SAW( "saw-longer-file" ); else if( cut % sizeof( T )) SAW( "saw-cut-inside-element" ); else if( cut == 0 ) SAW( "saw-empty-file" );
        }
        unlink( path.c_str( ));
        // faults
        fill( c, b ); const X old( b );
        switch( c.rng.u( 5 ))
        {
        case 0: quiet( c, "missing", [&]{ b.read_from_raw( dir, "not-there.raw" ); } ); SAW( "saw-missing-file" ); break;
        case 1: quiet( c, "missing-dir", [&]{ b.read_from_raw( scratch + "/no/such/", "m.raw" ); b.write_to_raw( scratch + "/no/such", "m" ); b.write_csv_file( scratch + "/no/such", "m" ); } );
            { struct stat s; CHECK( "no-directory-made", stat(( scratch + "/no" ).c_str(), &s ) != 0, "" ); } SAW( "saw-missing-directory" ); break;
        case 2: quiet( c, "directory", [&]{ b.write_to_raw( scratch, "dir.raw" ); b.write_csv_file( scratch, "dir.csv" ); b.read_from_raw( scratch, "dir.raw" ); } );
            { struct stat s; CHECK( "directory-still-there", stat(( scratch + "/dir.raw" ).c_str(), &s ) == 0 && S_ISDIR( s.st_mode ), "" ); } SAW( "saw-path-is-directory" ); break;
        case 3: quiet( c, "full", [&]{ b.write_to_raw( scratch, "full.raw" ); b.write_csv_file( scratch, "full.csv" ); } ); SAW( "saw-disk-full" ); break;
        default: quiet( c, "file-as-dir", [&]{ b.write_to_raw( scratch + "/plain", "m" ); b.write_csv_file( scratch + "/plain/", "m" ); b.read_from_raw( scratch + "/plain", "m.raw" ); } );
            { bool t; std::vector< char > p = slurp( scratch + "/plain", t ); CHECK( "other-file-untouched", t && std::string( p.begin(), p.end( )) == "plain", "" ); } SAW( "saw-file-as-directory" );
        }
        CHECK( "fault-keeps-elements", eq( b, old ), vt::show( old ), vt::show( b ));
    }
    static void csv( Ctx& c, const X& a )
    {
        const std::string name = c.rng.b() ? "m" : "m.csv", path = scratch + "/m.csv";
        quiet( c, "write_csv_file", [&]{ a.write_csv_file(( c.rng.b() ? scratch : local ) + ( c.rng.b() ? "/" : "" ), name ); } );
        bool there; const std::vector< char > f = slurp( path, there );
        std::ostringstream want; want << a << std::endl;
        CHECK( "csv-file-is-printed-matrix", there && std::string( f.begin(), f.end( )) == want.str(), std::string( f.begin(), f.end( )), want.str( ));
        unlink( path.c_str( ));
    }
    static void text( Ctx& c, const X& a )
    {
        X fin( a ); for( size_t i = 0; i < n; ++i ) if( !vt::finite( fin.array[ i ] )) fin.array[ i ] = T( 3 );
        std::stringstream s; s.precision( std::numeric_limits< T >::max_digits10 );
        fin.write_to_stream( s );
        const std::string t = s.str();
        // row-major tokens
        { std::istringstream i( t ); bool ok = true; size_t count = 0;
          for( size_t r = 0; r < M; ++r ) for( size_t k = 0; k < N; ++k ) { T v = T(); ok &= bool( i >> v ) && v == fin( r, k ); ++count; }
          std::string more; ok &= !( i >> more );
          CHECK( "stream-row-major", ok, t ); }
        X b; fill( c, b ); b.read_from_stream( s );
        CHECK( "stream-round-trip", eq( fin, b ), t, vt::show( b ));
        // two matrices one after the other on one stream
        { std::stringstream d; d.precision( std::numeric_limits< T >::max_digits10 ); X e( fin ), g, h; e.array[ 0 ] = T( 5 );
          fin.write_to_stream( d ); e.write_to_stream( d ); g.read_from_stream( d ); h.read_from_stream( d );
          CHECK( "stream-sequence", eq( g, fin ) && eq( h, e ) && d.good(), d.str( )); }
        // text cut at any character: the elements before the cut are read, the ones behind it kept
        const size_t cut = c.rng.u( t.size( )); c.in( int( cut ));
        size_t whole = 0, started = 0;
        for( size_t i = 0, in = 0; i < cut; ++i ) { const bool sp = isspace( t[ i ] ); if( !sp && !in ) { ++started; in = 1; } if( sp && in ) { ++whole; in = 0; } }
        std::istringstream i( t.substr( 0, cut )); fill( c, b ); const X old( b );
        bool raised = false; try { b.read_from_stream( i ); } catch( ... ) { raised = true; }
        CHECK( "cut-stream-never-raises", !raised, "" );
        if( started < n ) CHECK( "cut-stream-seen-by-caller", i.fail(), cut, t );
        bool ok = true;
        for( size_t k = 0; k < n; ++k )
        { const size_t r = k / N, q = k % N; if( k < whole ) ok &= b( r, q ) == fin( r, q ); else if( k >= started ) ok &= vt::same( b( r, q ), old( r, q )); }
        CHECK( "cut-stream-prefix-read-rest-kept", ok, cut, t, vt::show( b ));
    }
};
template< size_t M, class T > struct V
{
    static void run( Ctx& c )
    {
        vt::pick_profile( c ); vt::pick_wide< T >( c );
        vt::Canary< Vector< M, T > > ca, cb; Vector< M, T >& a = ca.v; Vector< M, T >& b = cb.v;
        fill( c, a ); fill( c, b ); const Vector< M, T > a0( a );
        std::stringstream s; s.precision( std::numeric_limits< T >::max_digits10 ); a.write_to_stream( s );
        const std::string t = s.str();
        { std::istringstream i( t ); bool ok = true; for( size_t k = 0; k < M; ++k ) { T v = T(); ok &= bool( i >> v ) && v == a.array[ k ]; } std::string more; ok &= !( i >> more ); CHECK( "vector-stream-order", ok, t ); }
        b.read_from_stream( s );
        bool ok = true; for( size_t k = 0; k < M; ++k ) ok &= b.array[ k ] == a0.array[ k ] && a.array[ k ] == a0.array[ k ];
        CHECK( "vector-stream-round-trip", ok, t, vt::show( b ));
        { std::stringstream d; d.precision( std::numeric_limits< T >::max_digits10 ); Vector< M, T > e( a ), g, h; e.array[ 0 ] = T( 5 );
          a.write_to_stream( d ); e.write_to_stream( d ); g.read_from_stream( d ); h.read_from_stream( d );
          CHECK( "vector-stream-sequence", g == a && h == e && d.good(), d.str( )); }
        const size_t cut = c.rng.u( t.size( )); c.in( int( cut ));
        size_t whole = 0, started = 0;
        for( size_t i = 0, in = 0; i < cut; ++i ) { const bool sp = isspace( t[ i ] ); if( !sp && !in ) { ++started; in = 1; } if( sp && in ) { ++whole; in = 0; } }
        std::istringstream i( t.substr( 0, cut )); fill( c, b ); const Vector< M, T > old( b ); b.read_from_stream( i ); ok = true;
        for( size_t k = 0; k < M; ++k ) if( k < whole ) ok &= b.array[ k ] == a.array[ k ]; else if( k >= started ) ok &= b.array[ k ] == old.array[ k ];
        CHECK( "cut-stream-prefix-read-rest-kept", ok, cut, t, vt::show( b ));
        CHECK( "no-stray-write", ca.ok() && cb.ok(), "" );
    }
};
typedef void (*Fn)( Ctx& );
#define S( M, N ) A< M, N, float >::run, A< M, N, double >::run, A< M, N, int >::run
static const Fn table[] = { A< 1, 1, int >::run, A< 1, 1, unsigned char >::run, A< 3, 2, unsigned char >::run, S( 2, 3 ), A< 3, 2, float >::run, A< 4, 4, float >::run, A< 4, 4, double >::run, A< 1, 5, double >::run, A< 5, 1, float >::run, A< 3, 3, long double >::run, A< 7, 6, double >::run, A< 40, 30, double >::run, A< 70, 130, double >::run, A< 3, 700, float >::run, A< 3, 5, short >::run, A< 2, 3, int64_t >::run, A< 3, 1, uint64_t >::run,
    V< 1, float >::run, V< 2, double >::run, V< 3, float >::run, V< 4, int >::run, V< 3, int64_t >::run, V< 2, unsigned >::run, V< 5, long double >::run, V< 16, double >::run, V< 300, float >::run };
void start_run()
{
    char t[] = "c12-XXXXXX"; if( !mkdtemp( t )) abort();
    char cwd[ 4096 ]; if( !getcwd( cwd, sizeof cwd )) abort();
    scratch = std::string( cwd ) + "/" + t; local = t;
    mkdir(( scratch + "/dir.raw" ).c_str(), 0755 ); mkdir(( scratch + "/dir.csv" ).c_str(), 0755 );
    if( symlink( "/dev/full", ( scratch + "/full.raw" ).c_str( )) || symlink( "/dev/full", ( scratch + "/full.csv" ).c_str( ))) abort();
    spit( scratch + "/plain", std::vector< char >{ 'p', 'l', 'a', 'i', 'n' } );
    std::cout.rdbuf( new Null );
}
void end_run( Ctx& )
{
    static const char* left[] = { "/full.raw", "/full.csv", "/plain" };
    for( const char* l : left ) unlink(( scratch + l ).c_str( ));
    rmdir(( scratch + "/dir.raw" ).c_str( )); rmdir(( scratch + "/dir.csv" ).c_str( )); rmdir( scratch.c_str( ));
}
void run_case( Ctx& c ) { const size_t k = c.rng.u( sizeof( table ) / sizeof( *table )); c.in( int( k )); table[ k ]( c ); }
