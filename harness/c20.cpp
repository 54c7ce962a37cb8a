// C20: the low-pass filter blends the last M values and nothing else
#include "common.hpp"
#include <vmmlib/lowpass_filter.hpp>
#include <vmmlib/vector.hpp>
#include <vmmlib/quaternion.hpp>
#include <deque>
using vmml::LowpassFilter; using vmml::Vector; using vmml::Quaternion;

// a value type of the user's own: only arithmetic
struct Own
{
    double a, b;
    static long& live() { static long n = 0; return n; }
    Own() : a( 0 ), b( 0 ) { ++live(); }
    Own( double x, double y ) : a( x ), b( y ) { ++live(); }
    Own( const Own& o ) : a( o.a ), b( o.b ) { ++live(); }
    Own& operator=( const Own& o ) { a = o.a; b = o.b; return *this; }
    ~Own() { --live(); }
    Own operator*( double f ) const { return Own( a * f, b * f ); }
    Own operator+( const Own& o ) const { return Own( a + o.a, b + o.b ); }
    // not needed today; here so that a filter written with them builds and is judged by what it computes
    Own operator-( const Own& o ) const { return Own( a - o.a, b - o.b ); }
    Own operator/( double f ) const { return Own( a / f, b / f ); }
    Own operator-() const { return Own( -a, -b ); }
    Own& operator+=( const Own& o ) { a += o.a; b += o.b; return *this; }
    Own& operator-=( const Own& o ) { a -= o.a; b -= o.b; return *this; }
    Own& operator*=( double f ) { a *= f; b *= f; return *this; }
    Own& operator/=( double f ) { a /= f; b /= f; return *this; }
    bool operator==( const Own& o ) const { return a == o.a && b == o.b; }
    bool operator!=( const Own& o ) const { return !( *this == o ); }
    bool operator<( const Own& o ) const { return a < o.a || ( a == o.a && b < o.b ); }
};
template< class T > struct Tr { typedef T E; enum { n = 1 }; static T mk( Ctx& c ) { return gen< T >( c ); } static ld at( const T& v, size_t ) { return v; } };
template< size_t N, class F > struct Tr< Vector< N, F > >
{ typedef Vector< N, F > T; typedef F E; enum { n = N }; static T mk( Ctx& c ) { T v; fill( c, v ); return v; } static ld at( const T& v, size_t i ) { return v.array[ i ]; } };
template< class F > struct Tr< Quaternion< F > >
{ typedef Quaternion< F > T; typedef F E; enum { n = 4 }; static T mk( Ctx& c ) { T v; for( int i = 0; i < 4; ++i ) v.array[ i ] = gen< F >( c ); return v; } static ld at( const T& v, size_t i ) { return v.array[ i ]; } };
template<> struct Tr< Own >
{ typedef double E; enum { n = 2 }; static Own mk( Ctx& c ) { const double x = gen< double >( c ), y = gen< double >( c ); return Own( x, y ); } static ld at( const Own& v, size_t i ) { return i ? v.b : v.a; } };

template< size_t M, class T > struct A
{
    typedef LowpassFilter< M, T > L; typedef Tr< T > R;
    struct Model // what a filter was told
    {
        std::unique_ptr< L > f; std::vector< T > hist; float factor; std::vector< float > factors; bool used;
        T last;
        Model( float x ) : f( new L( x )), factor( x ), used( false ) {}
    };
    static bool same( const T& a, const T& b ) { for( size_t i = 0; i < size_t( R::n ); ++i ) if( !vt::same( R::at( a, i ), R::at( b, i ))) return false; return true; }
    static std::string sh( const T& a ) { std::ostringstream os; os << std::setprecision( 12 ); for( size_t i = 0; i < size_t( R::n ); ++i ) os << R::at( a, i ) << ' '; return os.str(); }
    static float factor( Ctx& c )
    {
        float f;
        switch( c.rng.u( 6 ))
        {
        case 0: f = 0; SAW( "saw-factor-0" ); break;
        case 1: f = 1; SAW( "saw-factor-1" ); break;
        case 2: f = float( c.rng.r( -1.2, 1.5 )); SAW( "saw-factor-beyond" ); break;
        default: f = float( c.rng.d( ));
        }
        c.in( f ); return f;
    }
    static bool blend( const Model& m, const T& got, std::string& msg )
    {
        const ld e = vt::eps< typename R::E >();
        for( size_t k = 0; k < size_t( R::n ); ++k )
        {
            const size_t n = m.hist.size(), w = std::min( n, size_t( M ));
            ld v = R::at( m.hist[ n - 1 ], k ), err = 0, wt = m.factor, big = fabsl( v );
            for( size_t j = 1; j < w; ++j )
            {
                const ld o = R::at( m.hist[ n - 1 - j ], k );
                err = err * fabsl( 1 - wt ) + 4 * e * ( fabsl( v ) * ( 1 + fabsl( wt )) + fabsl( o * wt )) + 4e-16L * j * fabsl( wt ) * ( fabsl( v ) + fabsl( o ));
                v = v * ( 1 - wt ) + o * wt; wt *= m.factor; big = std::max( big, fabsl( v ));
            }
            if( !( big < 1e30L ) || !( err < 1e30L ) || !( fabsl( v ) < 1e30L )) { SAW( "saw-overflow-not-judged" ); continue; }
            if( !( fabsl( R::at( got, k ) - v ) <= 4 * err + 1e-36L )) { msg = vt::str( "component", k, "after", n, "values, factor", m.factor, "got", R::at( got, k ), "expected", v, "+-", 4 * err ); return false; }
        }
        return true;
    }
    static void look( Ctx& c, Model& m, const char* )
    {
        if( m.hist.empty( )) return;
        const L& f = *m.f;
        CHECK( "get", same( f.get(), m.last ), sh( f.get( )), sh( m.last ));
        CHECK( "dereference", same( *f, m.last ), sh( *f ), sh( m.last ));
        CHECK( "arrow", same( *f.operator->(), m.last ), sh( *f.operator->( )), sh( m.last ));
    }
    static void run( Ctx& c )
    {
        if( c.rng.one( 3 )) vt::pick_profile( c ); else vt::pick_mild( c );
        {
        std::vector< Model > ms; const size_t nf = 1 + c.rng.u( 3 );
        for( size_t i = 0; i < nf; ++i ) ms.push_back( Model( factor( c )));
        const size_t ops = 4 + c.rng.u( c.rng.one( 6 ) ? 4 * M + 40 : M + 20 );
        for( size_t o = 0; o < ops; ++o )
        {
            const size_t at = c.rng.u( ms.size( )); Model& m = ms[ at ];
            switch( c.rng.u( 9 ))
            {
            case 0:
            {
                const float f = factor( c ); m.f->set_smooth_factor( f ); m.factor = f; look( c, m, "factor" ); SAW( "saw-factor-change" ); break;
            }
            case 1:
                if( ms.size() < 5 )
                {
                    SAW( "saw-copy" ); Model k( m.factor ); k.f.reset( new L( *m.f )); k.hist = m.hist; k.last = m.last;
                    ms.push_back( std::move( k )); look( c, ms.back(), "copy" );
                }
                else
                {
                    SAW( "saw-assign" ); Model& k = ms[ c.rng.u( ms.size( )) ]; Model& s = ms[ at ];
                    *k.f = *s.f; if( &k != &s ) { k.hist = s.hist; k.last = s.last; k.factor = s.factor; } look( c, k, "assign" );
                }
                break;
            case 2: for( size_t i = 0; i < ms.size(); ++i ) look( c, ms[ i ], "any" ); break;
            default:
            {
                // now and then the argument is the filter's own current value
                const bool self = !m.hist.empty() && c.rng.one( 8 ); if( self ) SAW( "saw-own-output-fed-back" );
                const T v = self ? T( m.last ) : R::mk( c ); m.hist.push_back( v );
                const T got = self ? m.f->add( m.f->get( )) : m.f->add( v ); m.last = got;
                std::string msg;
                CHECK( "blend", blend( m, got, msg ), msg );
                look( c, m, "add" );
                if( m.hist.size() == M ) SAW( "saw-window-full" );
                if( m.hist.size() > M )
                {
                    SAW( "saw-window-slid" );
                    // a fresh filter told only the last M values gives the very same output
                    if( c.rng.one( 4 ))
                    {
                        L g( m.factor ); T last = T();
                        for( size_t i = m.hist.size() - M; i < m.hist.size(); ++i ) last = g.add( m.hist[ i ] );
                        CHECK( "older-values-forgotten", same( last, got ), sh( last ), sh( got ));
                    }
                }
            }
            }
        }
        for( size_t i = 0; i < ms.size(); ++i ) look( c, ms[ i ], "end" );
        }
        CHECK( "values-released", Own::live() == 0, Own::live( ));
    }
};
typedef void ( *Fn )( Ctx& );
static const Fn tab[] = {
    A< 1, float >::run, A< 2, float >::run, A< 3, double >::run, A< 4, double >::run, A< 5, float >::run, A< 8, float >::run, A< 16, double >::run, A< 64, float >::run,
    A< 7, Vector< 3, float > >::run, A< 4, Vector< 4, double > >::run, A< 10, Vector< 2, double > >::run, A< 5, Quaternion< float > >::run, A< 6, Quaternion< double > >::run,
    A< 1, Own >::run, A< 3, Own >::run, A< 6, Own >::run, A< 2, long double >::run, A< 32, double >::run, A< 130, double >::run };
void start_run() {}
void end_run( Ctx& ) {}
void run_case( Ctx& c ) { const size_t k = c.rng.u( sizeof tab / sizeof *tab ); c.in( k ); tab[ k ]( c ); }
