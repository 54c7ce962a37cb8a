// one element type's half of the workload: -DAPI_T=float, -DAPI_SPECIAL for the floating-point-only operations
#include "api.hpp"
namespace api
{
typedef API_T T;
#define OP( ... ) { #__VA_ARGS__, &__VA_ARGS__ }
#define VOPS( N ) OP( Vec< N, T >::arith ), OP( Vec< N, T >::compare ), OP( Vec< N, T >::access ), OP( Vec< N, T >::stream ), OP( Vec< N, T >::dims )
#define MOPS( M, N ) OP( Mat< M, N, T >::access ), OP( Mat< M, N, T >::assign ), OP( Mat< M, N, T >::arith ), OP( Mat< M, N, T >::whole ), OP( Mat< M, N, T >::stream )
#ifdef API_SPECIAL
template<> const std::vector< Op< T > >& special_ops< T >()
{
    static const std::vector< Op< T > > v = {
        OP( VecF< 1, T >::norms ), OP( VecF< 2, T >::norms ), OP( VecF< 3, T >::norms ), OP( VecF< 4, T >::norms ), OP( VecF< 7, T >::norms ), OP( Geo< T >::vec3 ), OP( Geo< T >::mat4 ), OP( Geo< T >::inv< 2 > ), OP( Geo< T >::inv< 3 > ), OP( Geo< T >::inv< 4 > ), OP( Geo< T >::cofactors ),
        OP( Geo< T >::numbers ), { "qr33", &Geo< T >::qr< 3, 3 > }, { "qr44", &Geo< T >::qr< 4, 4 > }, { "qr43", &Geo< T >::qr< 4, 3 > }, { "qr62", &Geo< T >::qr< 6, 2 > }, OP( Geo< T >::quats ), OP( Geo< T >::rotations ), OP( Geo< T >::boxes ), OP( Geo< T >::frusta ), OP( Geo< T >::culler ), OP( Geo< T >::rays ), OP( Geo< T >::filters ) };
    return v;
}
#else
template<> const std::vector< Op< T > >& common_ops< T >()
{
    static const std::vector< Op< T > > v = {
        OP( Vec< 1, T >::arith ), OP( Vec< 1, T >::compare ), OP( Vec< 1, T >::access ), OP( Vec< 1, T >::stream ), VOPS( 2 ), VOPS( 3 ), VOPS( 4 ), VOPS( 5 ), VOPS( 7 ), OP( Named< T >::xyzw ),
        MOPS( 1, 1 ), MOPS( 2, 2 ), MOPS( 3, 3 ), MOPS( 4, 4 ), MOPS( 5, 5 ), MOPS( 2, 3 ), MOPS( 3, 2 ), MOPS( 3, 4 ), MOPS( 4, 3 ), MOPS( 1, 4 ), MOPS( 4, 1 ), MOPS( 3, 5 ),
        OP( product< 2, 3, 2, T > ), OP( product< 3, 2, 3, T > ), OP( product< 4, 3, 4, T > ), OP( product< 3, 4, 3, T > ), OP( product< 6, 2, 3, T > ), OP( product< 4, 4, 4, T > ), OP( product< 1, 4, 1, T > ), OP( product< 4, 1, 4, T > ), OP( product< 2, 2, 6, T > ),
        OP( Mat< 4, 4, T >::files ), OP( Mat< 2, 3, T >::files ), OP( Mat< 1, 4, T >::files ), OP( square< 1, T > ), OP( square< 2, T > ), OP( square< 3, T > ), OP( square< 4, T > ), OP( square< 5, T > ) };
    return v;
}
#endif
} // namespace api
