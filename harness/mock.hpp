// Recording stand-in for a Vulkan device: every entry point the library uses is
// implemented, hands out fresh integer handles and writes one ndjson event.
#pragma once
#include <vulkan/vulkan.h>
#include <cstdint>
#include <cstdio>
#include <array>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mock
{
	extern FILE * out;
	extern uint64_t nextHandle;
	extern uint32_t imageMemBits;
	extern uint32_t bufferMemBits;
	extern int64_t failIn;
	extern bool failed;

	// Handles may be full 64-bit values: "hi" handles only differ in their upper half.
	uint64_t newHandle();
	uint64_t newHiHandle();
	int64_t num( uint64_t handle );
	template< typename T > int64_t H( T h ) { return num( uint64_t( h ) ); }
	template< typename T > T mk( uint64_t h ) { return T( h ); }

	// Minimal JSON writer.
	struct W
	{
		std::string s;
		bool first{ true };
		explicit W( char const * ev );
		W & sep();
		W & k( char const * key );
		W & i( char const * key, int64_t v );
		W & b( char const * key, bool v );
		W & str( char const * key, std::string const & v );
		W & raw( char const * key, std::string const & v );
		void end();
	};
	std::string q( std::string const & v );
	std::string layout( VkImageLayout l );
	std::string stages( VkPipelineStageFlags f );
	std::string access( VkAccessFlags f );
	std::string aspects( VkImageAspectFlags f );
	std::string ints( std::vector< int64_t > const & v );
	int64_t i32( uint64_t v );
	int64_t milli( float v );

	template< typename T, typename F >
	std::string arr( T const * p, uint32_t n, F f )
	{
		std::string r{ "[" };
		for ( uint32_t i = 0; i < n; ++i )
		{
			if ( i )
				r += ",";
			r += f( p[i] );
		}
		return r + "]";
	}

	PFN_vkVoidFunction VKAPI_PTR getProcAddr( VkDevice, char const * name );

	// Threads which use the library at the same time.  Normally one runs at a time, and is left for another one
	// at the chosen points (device calls, allocations, locks): every execution can be repeated.  Built with
	// CRG_FREE_THREADS they really run together, under the thread sanitizer.
	namespace thr
	{
		extern thread_local int tid;
		// Whom the events of the main thread are about, if any.
		extern int tag;
		// The library is being executed (the points of the harness itself don't count).
		struct Lib
		{
			Lib();
			~Lib();
		};
		// The device itself, or the trace, is being used.
		struct Guard
		{
			Guard();
			~Guard();
		};
		void point();
		// pre: at its [1]-th point, thread [0] is left for another one; or [-m, seed], at points chosen at random.  Returns the points met by each thread.
		std::vector< int64_t > run( std::vector< std::function< void() > > bodies, std::vector< std::array< int, 2 > > pre );
		int64_t races();
	}
	void setReuse( bool );
	void warm();
}
