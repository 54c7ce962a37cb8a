// Live heap: blocks, or bytes under the address sanitizer; so that a leak shows without a leak sanitizer.
#pragma once
#include <atomic>
#include <cstdlib>
#include <new>
#if defined( __SANITIZE_ADDRESS__ )
#  define VERIF_ASAN_HOOKS
#elif defined( __has_feature )
#  if __has_feature( address_sanitizer )
#    define VERIF_ASAN_HOOKS
#  endif
#endif
#ifdef VERIF_ASAN_HOOKS
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace vt { inline long live_blocks() { return long( __sanitizer_get_current_allocated_bytes( )); } }
#else
namespace vt { inline std::atomic< long >& live_blocks() { static std::atomic< long > n( 0 ); return n; } }
inline void* verif_new( size_t n ) { void* p = malloc( n ? n : 1 ); if( !p ) abort(); ++vt::live_blocks(); return p; }
inline void verif_delete( void* p ) { if( p ) { --vt::live_blocks(); free( p ); } }
void* operator new( size_t n ) { return verif_new( n ); }
void* operator new[]( size_t n ) { return verif_new( n ); }
void operator delete( void* p ) noexcept { verif_delete( p ); }
void operator delete[]( void* p ) noexcept { verif_delete( p ); }
void operator delete( void* p, size_t ) noexcept { verif_delete( p ); }
void operator delete[]( void* p, size_t ) noexcept { verif_delete( p ); }
#endif
