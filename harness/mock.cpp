#include "mock.hpp"
#include <cerrno>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <thread>
#include <time.h>
#include <unistd.h>

#if defined( CRG_FREE_THREADS )
extern "C"
{
	void AnnotateIgnoreReadsBegin( char const *, int );
	void AnnotateIgnoreReadsEnd( char const *, int );
	void AnnotateIgnoreWritesBegin( char const *, int );
	void AnnotateIgnoreWritesEnd( char const *, int );
	void AnnotateIgnoreSyncBegin( char const *, int );
	void AnnotateIgnoreSyncEnd( char const *, int );
}
#endif
namespace mock
{
	FILE * out{ stdout };
	uint64_t nextHandle{ 1u };
	uint32_t imageMemBits{ ~0u };
	uint32_t bufferMemBits{ ~0u };

	int64_t failIn{ -1 };
	bool failed{};
	uint64_t newHandle() { return __atomic_fetch_add( &nextHandle, 1u, __ATOMIC_RELAXED ); }
	uint64_t newHiHandle() { return ( newHandle() << 32 ) | 0x77u; }
	// As drivers do, the handle of something destroyed can be given to what is created next (what is recorded still tells them apart).
	bool reuse{};
	static std::map< std::string, std::vector< uint64_t > > freed;
	static std::map< uint64_t, int64_t > known;
	uint64_t newHandle( char const * type )
	{
		auto it = reuse ? freed.find( type ) : freed.end();
		if ( it == freed.end() || it->second.empty() )
			return newHandle();
		auto h = it->second.back();
		it->second.pop_back();
		known[h] = int64_t( newHandle() );
		return h;
	}
	static void release( char const * type, uint64_t h )
	{
		if ( reuse && h )
			freed[type].push_back( h );
	}
	void setReuse( bool r )
	{
		reuse = r;
		freed.clear();
		known.clear();
	}
	int64_t num( uint64_t h )
	{
		if ( reuse )
		{
			thr::Guard g;
			if ( auto it = known.find( h ); it != known.end() )
				return it->second;
		}
		return h < 0x7FFFFFFFu ? int64_t( h ) : int64_t( h >> 32 );
	}
	int64_t i32( uint64_t v )
	{
		if ( v == ~0ull || v == 0xFFFFFFFFull )
			return -1;
		if ( v > 0x7FFFFFFFull )
			return -2;
		return int64_t( v );
	}
	int64_t milli( float v )
	{
		if ( !std::isfinite( v ) )
			return -999999999;
		double r = std::round( double( v ) * 1000.0 );
		if ( r > 1e9 || r < -1e9 )
			return -999999998;
		return int64_t( r );
	}
	std::string q( std::string const & v )
	{
		std::string r{ "\"" };
		for ( char c : v )
		{
			if ( c == '"' || c == '\\' )
			{
				r += '\\';
				r += c;
			}
			else if ( c == '\n' )
				r += "\\n";
			else if ( (unsigned char)c < 32 )
				r += ' ';
			else
				r += c;
		}
		return r + "\"";
	}
	W::W( char const * ev )
	{
		s = "{\"e\":\"";
		s += ev;
		s += "\"";
	}
	W & W::k( char const * key )
	{
		s += ",\"";
		s += key;
		s += "\":";
		return *this;
	}
	W & W::i( char const * key, int64_t v ) { k( key ); s += std::to_string( v ); return *this; }
	W & W::b( char const * key, bool v ) { k( key ); s += v ? "true" : "false"; return *this; }
	W & W::str( char const * key, std::string const & v ) { k( key ); s += q( v ); return *this; }
	W & W::raw( char const * key, std::string const & v ) { k( key ); s += v; return *this; }
	namespace thr
	{
		thread_local int tid{ -1 };
		int tag{ -1 };
		static thread_local int lib{};
		static thread_local int guard{};
		static bool active{};
		static std::string pending;
		Lib::Lib() { ++lib; }
		Lib::~Lib() { --lib; }
#if defined( CRG_FREE_THREADS )
		// Not seen by the sanitizer: it must not order what the library does.
		static int spin{};
		Guard::Guard()
		{
			if ( active && guard++ == 0 )
			{
				AnnotateIgnoreReadsBegin( __FILE__, __LINE__ );
				AnnotateIgnoreWritesBegin( __FILE__, __LINE__ );
				AnnotateIgnoreSyncBegin( __FILE__, __LINE__ );
				while ( __atomic_exchange_n( &spin, 1, __ATOMIC_ACQUIRE ) )
					;
			}
		}
		Guard::~Guard()
		{
			if ( active && --guard == 0 )
			{
				__atomic_store_n( &spin, 0, __ATOMIC_RELEASE );
				AnnotateIgnoreSyncEnd( __FILE__, __LINE__ );
				AnnotateIgnoreWritesEnd( __FILE__, __LINE__ );
				AnnotateIgnoreReadsEnd( __FILE__, __LINE__ );
			}
		}
		void point() {}
		static int64_t found{};
		int64_t races() { return __atomic_load_n( &found, __ATOMIC_SEQ_CST ); }
		std::vector< int64_t > run( std::vector< std::function< void() > > bodies, std::vector< std::array< int, 2 > > )
		{
			active = true;
			static int waiting;
			waiting = int( bodies.size() );
			std::vector< std::thread > ts;
			for ( size_t i = 0; i < bodies.size(); ++i )
				ts.emplace_back( [i, &bodies]()
					{
						tid = int( i );
						__atomic_sub_fetch( &waiting, 1, __ATOMIC_RELAXED );
						while ( __atomic_load_n( &waiting, __ATOMIC_RELAXED ) > 0 )
							;
						bodies[i]();
					} );
			for ( auto & t : ts )
				t.join();
			active = false;
			std::fputs( pending.c_str(), out );
			pending.clear();
			return std::vector< int64_t >( bodies.size(), 0 );
		}
#else
		struct T
		{
			sem_t go;
			int64_t points{};
			bool done{};
			void * waits{};
		};
		static T ts[4];
		static int count{};
		static uint64_t seed{};
		static std::vector< std::array< int, 2 > > const * leave{};
		// A thread waits in a way which isn't known here: from then on they really run together.
		static int loose{}, spin{};
		static thread_local int holds{};
		static int64_t moves{};
		Guard::Guard()
		{
			if ( ++guard == 1 && __atomic_load_n( &loose, __ATOMIC_SEQ_CST ) )
			{
				while ( __atomic_exchange_n( &spin, 1, __ATOMIC_ACQUIRE ) )
					;
				holds = 1;
			}
		}
		Guard::~Guard()
		{
			if ( --guard == 0 && holds )
			{
				holds = 0;
				__atomic_store_n( &spin, 0, __ATOMIC_RELEASE );
			}
		}
		int64_t races() { return -1; }
		static int other( int me )
		{
			for ( int k = 1; k <= count; ++k )
				if ( auto i = ( me + k ) % count; i != me && !ts[i].done && !ts[i].waits )
					return i;
			return -1;
		}
		static void go( int me, int to )
		{
			if ( __atomic_load_n( &loose, __ATOMIC_SEQ_CST ) )
			{
				usleep( 100 );
				return;
			}
			sem_post( &ts[to].go );
			while ( sem_wait( &ts[me].go ) )
				;
		}
		void point()
		{
			if ( tid < 0 || !lib || guard )
				return;
			auto n = ++ts[tid].points;
			__atomic_add_fetch( &moves, 1, __ATOMIC_RELAXED );
			if ( __atomic_load_n( &loose, __ATOMIC_SEQ_CST ) )
				return;
			for ( auto & p : *leave )
				// (-m: at one point out of m, as the seed has it)
				if ( p[0] < 0 ? ( ( seed = seed * 6364136223846793005ull + 1442695040888963407ull ) >> 33 ) % uint64_t( -p[0] ) == 0 : p[0] == tid && p[1] == n )
					if ( auto to = other( tid ); to >= 0 )
						go( tid, to );
		}
		void pass()
		{
			if ( auto to = tid < 0 ? -1 : other( tid ); to >= 0 )
				go( tid, to );
			else
				std::abort();
		}
		static void stuck( int t )
		{
			++guard;
			W( "deadlock" ).i( "by", t ).end();
			std::fputs( pending.c_str(), out );
			std::fflush( out );
			std::fputs( "deadlock\n", stderr );
			_exit( 9 );
		}
		template< typename L >
		static void lock( L * m, int ( *tryLock )( L * ) )
		{
			point();
			while ( tryLock( m ) )
			{
				if ( __atomic_load_n( &loose, __ATOMIC_SEQ_CST ) )
				{
					usleep( 100 );
					continue;
				}
				ts[tid].waits = m;
				auto to = other( tid );
				if ( to < 0 )
					stuck( tid );
				go( tid, to );
			}
		}
		static void unlocked( void * m )
		{
			for ( int i = 0; i < count; ++i )
				if ( ts[i].waits == m )
					ts[i].waits = nullptr;
			point();
		}
		std::vector< int64_t > run( std::vector< std::function< void() > > bodies, std::vector< std::array< int, 2 > > pre )
		{
			count = int( bodies.size() );
			leave = &pre;
			seed = pre.empty() ? 0u : uint64_t( pre[0][1] );
			static int remain, stalls;
			remain = count;
			sem_t end;
			sem_init( &end, 0, 0 );
			for ( auto & t : ts )
			{
				sem_init( &t.go, 0, 0 );
				t.points = 0;
				t.done = false;
				t.waits = nullptr;
			}
			std::vector< std::thread > threads;
			for ( int i = 0; i < count; ++i )
				threads.emplace_back( [i, &bodies, &end]()
					{
						while ( sem_wait( &ts[i].go ) )
							;
						tid = i;
						active = true;
						bodies[size_t( i )]();
						tid = -1;
						ts[i].done = true;
						if ( __atomic_load_n( &loose, __ATOMIC_SEQ_CST ) )
						{
							if ( __atomic_sub_fetch( &remain, 1, __ATOMIC_SEQ_CST ) == 0 )
								sem_post( &end );
							return;
						}
						--remain;
						if ( auto to = other( i ); to >= 0 )
							sem_post( &ts[to].go );
						else
						{
							for ( int k = 0; k < count; ++k )
								if ( !ts[k].done )
									stuck( k );
							sem_post( &end );
						}
					} );
			sem_post( &ts[0].go );
			for ( int64_t seen = -1;; )
			{
				timespec until;
				clock_gettime( CLOCK_REALTIME, &until );
				until.tv_nsec += 500000000;
				until.tv_sec += until.tv_nsec / 1000000000;
				until.tv_nsec %= 1000000000;
				if ( !sem_timedwait( &end, &until ) )
					break;
				auto now = __atomic_load_n( &moves, __ATOMIC_RELAXED );
				if ( errno == ETIMEDOUT && ( now == seen || stalls > 3 ) && !loose )
				{
					++stalls;
					__atomic_store_n( &loose, 1, __ATOMIC_SEQ_CST );
					for ( int i = 0; i < count; ++i )
						sem_post( &ts[i].go );
				}
				seen = now;
			}
			active = false;
			loose = 0;
			for ( auto & t : threads )
				t.join();
			std::fputs( pending.c_str(), out );
			pending.clear();
			std::vector< int64_t > r;
			for ( int i = 0; i < count; ++i )
				r.push_back( ts[i].points );
			return r;
		}
#endif
	}
	void W::end()
	{
		if ( thr::tid >= 0 )
		{
			thr::Guard g;
			i( "th", thr::tid );
			s += "}\n";
			thr::pending += s;
			return;
		}
		if ( thr::tag >= 0 )
			i( "th", thr::tag );
		s += "}\n";
		std::fputs( s.c_str(), out );
	}
	std::string ints( std::vector< int64_t > const & v )
	{
		return arr( v.data(), uint32_t( v.size() ), []( int64_t x ){ return std::to_string( x ); } );
	}
	std::string layout( VkImageLayout l )
	{
		switch ( l )
		{
		case VK_IMAGE_LAYOUT_UNDEFINED: return "UNDEF";
		case VK_IMAGE_LAYOUT_GENERAL: return "GENERAL";
		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL: return "COLOR";
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL: return "DS_ATT";
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL: return "DS_RO";
		case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL: return "SHADER_RO";
		case VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL: return "SRC";
		case VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL: return "DST";
		case VK_IMAGE_LAYOUT_PREINITIALIZED: return "PREINIT";
		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL: return "D_ATT";
		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL: return "D_RO";
		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL: return "S_ATT";
		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL: return "S_RO";
		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL: return "DRO_SATT";
		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL: return "DATT_SRO";
		case VK_IMAGE_LAYOUT_PRESENT_SRC_KHR: return "PRESENT";
		default: return "L" + std::to_string( int( l ) );
		}
	}
	static std::string bits( uint64_t f, std::vector< std::pair< uint64_t, char const * > > const & names )
	{
		std::string r{ "[" };
		bool first = true;
		for ( auto & n : names )
		{
			if ( f & n.first )
			{
				if ( !first )
					r += ",";
				first = false;
				r += "\"";
				r += n.second;
				r += "\"";
				f &= ~n.first;
			}
		}
		for ( uint32_t b = 0; b < 32; ++b )
		{
			if ( f & ( 1ull << b ) )
			{
				if ( !first )
					r += ",";
				first = false;
				r += "\"B" + std::to_string( b ) + "\"";
			}
		}
		return r + "]";
	}
	std::string stages( VkPipelineStageFlags f )
	{
		static std::vector< std::pair< uint64_t, char const * > > const n{
			{ 0x1, "TOP" }, { 0x2, "DI" }, { 0x4, "VI" }, { 0x8, "VS" }, { 0x10, "TC" }, { 0x20, "TE" }, { 0x40, "GS" }, { 0x80, "FS" }
			, { 0x100, "EF" }, { 0x200, "LF" }, { 0x400, "CO" }, { 0x800, "CS" }, { 0x1000, "TR" }, { 0x2000, "BOT" }, { 0x4000, "HOST" }
			, { 0x8000, "ALLG" }, { 0x10000, "ALLC" } };
		return bits( f, n );
	}
	std::string access( VkAccessFlags f )
	{
		static std::vector< std::pair< uint64_t, char const * > > const n{
			{ 0x1, "INDIRECT" }, { 0x2, "INDEX" }, { 0x4, "VATTR" }, { 0x8, "UNIFORM" }, { 0x10, "INPUT" }, { 0x20, "SH_R" }, { 0x40, "SH_W" }
			, { 0x80, "CO_R" }, { 0x100, "CO_W" }, { 0x200, "DS_R" }, { 0x400, "DS_W" }, { 0x800, "TR_R" }, { 0x1000, "TR_W" }
			, { 0x2000, "HO_R" }, { 0x4000, "HO_W" }, { 0x8000, "ME_R" }, { 0x10000, "ME_W" } };
		return bits( f, n );
	}
	std::string aspects( VkImageAspectFlags f )
	{
		static std::vector< std::pair< uint64_t, char const * > > const n{ { 1, "C" }, { 2, "D" }, { 4, "S" } };
		return bits( f, n );
	}
	void warm()
	{
		stages( 0u );
		access( 0u );
		aspects( 0u );
	}
	static std::string lay( VkImageLayout l ) { return "\"" + layout( l ) + "\""; }
	static std::string range( VkImageSubresourceRange const & r )
	{
		return ints( { int64_t( r.baseMipLevel ), i32( r.levelCount ), int64_t( r.baseArrayLayer ), i32( r.layerCount ) } );
	}
	static std::string subLayers( VkImageSubresourceLayers const & r )
	{
		return "{\"asp\":" + aspects( r.aspectMask ) + ",\"r\":" + ints( { int64_t( r.mipLevel ), 1, int64_t( r.baseArrayLayer ), i32( r.layerCount ) } ) + "}";
	}
	static std::string off( VkOffset3D const & o ) { return ints( { o.x, o.y, o.z } ); }
	static std::string ext( VkExtent3D const & o ) { return ints( { i32( o.width ), i32( o.height ), i32( o.depth ) } ); }

	struct Mem { std::vector< uint8_t > data; };
	static std::map< uint64_t, Mem > mems;
	struct Ts { int kind; uint64_t pool; uint32_t first, count; };
	static std::map< uint64_t, std::vector< Ts > > cbTs;
	static std::map< std::pair< uint64_t, uint32_t >, uint64_t > queries;
	static uint64_t tick{ 100u };
	static uint64_t tickStep{ 7u };

#define U( x ) uint64_t( x )
	// The call number failIn from now on fails, without creating anything.

	static bool fails( char const * call )
	{
		if ( failIn < 0 || failIn-- > 0 )
			return false;
		failed = true;
		W( "Failed" ).str( "call", call ).end();
		return true;
	}
#define SIMPLE_CREATE( Name, Info, Type )\
	static VkResult VKAPI_PTR Create##Name( VkDevice, Info const * info, VkAllocationCallbacks const *, Type * r )\
	{ if ( fails( "Create" #Name ) ) { return VK_ERROR_OUT_OF_DEVICE_MEMORY; } auto h = newHandle( #Name ); *r = Type( h ); W w( "Create" #Name ); w.i( "h", num( h ) ); fill##Name( w, *info ); w.end(); return VK_SUCCESS; }
#define SIMPLE_DESTROY( Name, Type )\
	static void VKAPI_PTR Destroy##Name( VkDevice, Type h, VkAllocationCallbacks const * )\
	{ W( "Destroy" #Name ).i( "h", H( h ) ).end(); release( #Name, U( h ) ); }

	static void fillImage( W & w, VkImageCreateInfo const & i )
	{
		w.i( "flags", i.flags ).i( "type", i.imageType ).i( "fmt", i.format ).raw( "ext", ext( i.extent ) ).i( "mips", i.mipLevels )
			.i( "layers", i.arrayLayers ).i( "samples", i.samples ).i( "tiling", i.tiling ).i( "usage", i.usage ).i( "sharing", i.sharingMode ).raw( "init", lay( i.initialLayout ) );
	}
	SIMPLE_CREATE( Image, VkImageCreateInfo, VkImage )
	SIMPLE_DESTROY( Image, VkImage )
	static void fillImageView( W & w, VkImageViewCreateInfo const & i )
	{
		w.i( "img", H( i.image ) ).i( "flags", i.flags ).i( "vt", i.viewType ).i( "fmt", i.format ).raw( "asp", aspects( i.subresourceRange.aspectMask ) )
			.raw( "r", range( i.subresourceRange ) ).raw( "swz", ints( { i.components.r, i.components.g, i.components.b, i.components.a } ) );
	}
	SIMPLE_CREATE( ImageView, VkImageViewCreateInfo, VkImageView )
	SIMPLE_DESTROY( ImageView, VkImageView )
	static void fillSampler( W & w, VkSamplerCreateInfo const & i )
	{
		w.i( "mag", i.magFilter ).i( "min", i.minFilter ).i( "mip", i.mipmapMode ).i( "u", i.addressModeU ).i( "v", i.addressModeV ).i( "w", i.addressModeW )
			.i( "bias", milli( i.mipLodBias ) ).i( "minLod", milli( i.minLod ) ).i( "maxLod", milli( i.maxLod ) ).i( "aniso", i.anisotropyEnable ).i( "cmp", i.compareEnable ).i( "unnorm", i.unnormalizedCoordinates );
	}
	SIMPLE_CREATE( Sampler, VkSamplerCreateInfo, VkSampler )
	SIMPLE_DESTROY( Sampler, VkSampler )
	static void fillBuffer( W & w, VkBufferCreateInfo const & i ) { w.i( "size", i32( i.size ) ).i( "usage", i.usage ); }
	SIMPLE_CREATE( Buffer, VkBufferCreateInfo, VkBuffer )
	SIMPLE_DESTROY( Buffer, VkBuffer )
	static void VKAPI_PTR GetBufferMemoryRequirements( VkDevice, VkBuffer b, VkMemoryRequirements * r )
	{
		*r = { 256u, 16u, bufferMemBits };
		W( "BufReq" ).i( "b", H( b ) ).i( "size", 256 ).i( "bits", i32( bufferMemBits ) ).end();
	}
	static void VKAPI_PTR GetImageMemoryRequirements( VkDevice, VkImage b, VkMemoryRequirements * r )
	{
		*r = { 4096u, 16u, imageMemBits };
		W( "ImgReq" ).i( "img", H( b ) ).i( "size", 4096 ).i( "bits", i32( imageMemBits ) ).end();
	}
	static VkResult VKAPI_PTR AllocateMemory( VkDevice, VkMemoryAllocateInfo const * info, VkAllocationCallbacks const *, VkDeviceMemory * m )
	{
		if ( fails( "AllocateMemory" ) )
		{  return VK_ERROR_OUT_OF_DEVICE_MEMORY; }
		auto h = newHandle( "Memory" );
		*m = VkDeviceMemory( h );
		mems[h].data.resize( size_t( info->allocationSize ) );
		W( "AllocateMemory" ).i( "h", num( h ) ).i( "size", i32( info->allocationSize ) ).i( "type", info->memoryTypeIndex ).end();
		return VK_SUCCESS;
	}
	static void VKAPI_PTR FreeMemory( VkDevice, VkDeviceMemory m, VkAllocationCallbacks const * )
	{
		W( "FreeMemory" ).i( "h", H( m ) ).end();
		mems.erase( U( m ) );
		release( "Memory", U( m ) );
	}
	static VkResult VKAPI_PTR BindBufferMemory( VkDevice, VkBuffer b, VkDeviceMemory m, VkDeviceSize o )
	{
		if ( fails( "BindBufferMemory" ) )
		{  return VK_ERROR_OUT_OF_DEVICE_MEMORY; }
		W( "BindBufferMemory" ).i( "b", H( b ) ).i( "mem", H( m ) ).i( "off", i32( o ) ).end();
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR BindImageMemory( VkDevice, VkImage b, VkDeviceMemory m, VkDeviceSize o )
	{
		if ( fails( "BindImageMemory" ) )
		{  return VK_ERROR_OUT_OF_DEVICE_MEMORY; }
		W( "BindImageMemory" ).i( "img", H( b ) ).i( "mem", H( m ) ).i( "off", i32( o ) ).end();
		return VK_SUCCESS;
	}
	static std::map< uint64_t, bool > mapped;
	static VkResult VKAPI_PTR MapMemory( VkDevice, VkDeviceMemory m, VkDeviceSize o, VkDeviceSize s, VkMemoryMapFlags, void ** d )
	{
		if ( fails( "MapMemory" ) )
		{  return VK_ERROR_OUT_OF_DEVICE_MEMORY; }
		W( "MapMemory" ).i( "mem", H( m ) ).i( "off", i32( o ) ).i( "size", i32( s ) ).end();
		auto & mem = mems[U( m )];
		if ( mem.data.size() < 4096u )
			mem.data.resize( 4096u );
		*d = mem.data.data() + o;
		return VK_SUCCESS;
	}
	static std::string content( VkDeviceMemory m )
	{
		auto & mem = mems[U( m )];
		std::vector< int64_t > v;
		for ( size_t i = 0; i + 4 <= mem.data.size() && i < 64u; i += 4 )
		{
			float f;
			std::memcpy( &f, mem.data.data() + i, 4 );
			v.push_back( milli( f ) );
		}
		return ints( v );
	}
	static void VKAPI_PTR UnmapMemory( VkDevice, VkDeviceMemory m )
	{
		W( "UnmapMemory" ).i( "mem", H( m ) ).raw( "data", content( m ) ).end();
	}
	static std::string mranges( uint32_t n, VkMappedMemoryRange const * r )
	{
		return arr( r, n, []( VkMappedMemoryRange const & x ){ return "[" + std::to_string( H( x.memory ) ) + "," + std::to_string( i32( x.offset ) ) + "," + std::to_string( i32( x.size ) ) + "," + content( x.memory ) + "]"; } );
	}
	static VkResult VKAPI_PTR FlushMappedMemoryRanges( VkDevice, uint32_t n, VkMappedMemoryRange const * r )
	{
		W( "FlushMemory" ).raw( "rs", mranges( n, r ) ).end();
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR InvalidateMappedMemoryRanges( VkDevice, uint32_t n, VkMappedMemoryRange const * r )
	{
		W( "InvalidateMemory" ).raw( "rs", mranges( n, r ) ).end();
		return VK_SUCCESS;
	}
	static void fillRenderPass( W & w, VkRenderPassCreateInfo const & i )
	{
		w.raw( "atts", arr( i.pAttachments, i.attachmentCount, []( VkAttachmentDescription const & a )
			{
				return "{\"fmt\":" + std::to_string( a.format ) + ",\"samples\":" + std::to_string( a.samples ) + ",\"load\":" + std::to_string( a.loadOp )
					+ ",\"store\":" + std::to_string( a.storeOp ) + ",\"sload\":" + std::to_string( a.stencilLoadOp ) + ",\"sstore\":" + std::to_string( a.stencilStoreOp )
					+ ",\"init\":" + lay( a.initialLayout ) + ",\"final\":" + lay( a.finalLayout ) + "}";
			} ) );
		auto ref = []( VkAttachmentReference const & r ){ return "[" + std::to_string( i32( r.attachment ) ) + "," + lay( r.layout ) + "]"; };
		w.raw( "subs", arr( i.pSubpasses, i.subpassCount, [&ref]( VkSubpassDescription const & s )
			{
				return "{\"bp\":" + std::to_string( s.pipelineBindPoint ) + ",\"cols\":" + arr( s.pColorAttachments, s.colorAttachmentCount, ref )
					+ ",\"ins\":" + arr( s.pInputAttachments, s.inputAttachmentCount, ref )
					+ ",\"ds\":" + arr( s.pDepthStencilAttachment, s.pDepthStencilAttachment ? 1u : 0u, ref )
					+ ",\"res\":" + arr( s.pResolveAttachments, s.pResolveAttachments ? s.colorAttachmentCount : 0u, ref ) + "}";
			} ) );
		w.raw( "deps", arr( i.pDependencies, i.dependencyCount, []( VkSubpassDependency const & d )
			{
				return "{\"s\":" + std::to_string( i32( d.srcSubpass ) ) + ",\"d\":" + std::to_string( i32( d.dstSubpass ) )
					+ ",\"ss\":" + stages( d.srcStageMask ) + ",\"ds\":" + stages( d.dstStageMask )
					+ ",\"sa\":" + access( d.srcAccessMask ) + ",\"da\":" + access( d.dstAccessMask ) + ",\"f\":" + std::to_string( d.dependencyFlags ) + "}";
			} ) );
	}
	SIMPLE_CREATE( RenderPass, VkRenderPassCreateInfo, VkRenderPass )
	SIMPLE_DESTROY( RenderPass, VkRenderPass )
	template< typename T >
	static std::string handles( T const * p, uint32_t n ) { return arr( p, n, []( T const & x ){ return std::to_string( H( x ) ); } ); }
	static void fillFramebuffer( W & w, VkFramebufferCreateInfo const & i )
	{
		w.i( "rp", H( i.renderPass ) ).raw( "views", handles( i.pAttachments, i.attachmentCount ) ).i( "w", i32( i.width ) ).i( "ht", i32( i.height ) ).i( "layers", i32( i.layers ) );
	}
	SIMPLE_CREATE( Framebuffer, VkFramebufferCreateInfo, VkFramebuffer )
	SIMPLE_DESTROY( Framebuffer, VkFramebuffer )
	static void fillDescriptorSetLayout( W & w, VkDescriptorSetLayoutCreateInfo const & i )
	{
		w.raw( "binds", arr( i.pBindings, i.bindingCount, []( VkDescriptorSetLayoutBinding const & b )
			{ return "{\"b\":" + std::to_string( i32( b.binding ) ) + ",\"t\":" + std::to_string( b.descriptorType ) + ",\"n\":" + std::to_string( b.descriptorCount ) + ",\"st\":" + std::to_string( i32( b.stageFlags ) ) + "}"; } ) );
	}
	SIMPLE_CREATE( DescriptorSetLayout, VkDescriptorSetLayoutCreateInfo, VkDescriptorSetLayout )
	SIMPLE_DESTROY( DescriptorSetLayout, VkDescriptorSetLayout )
	static void fillDescriptorPool( W & w, VkDescriptorPoolCreateInfo const & i )
	{
		w.i( "flags", i.flags ).i( "max", i.maxSets ).raw( "sizes", arr( i.pPoolSizes, i.poolSizeCount, []( VkDescriptorPoolSize const & s ){ return ints( { s.type, i32( s.descriptorCount ) } ); } ) );
	}
	SIMPLE_CREATE( DescriptorPool, VkDescriptorPoolCreateInfo, VkDescriptorPool )
	SIMPLE_DESTROY( DescriptorPool, VkDescriptorPool )
	static VkResult VKAPI_PTR AllocateDescriptorSets( VkDevice, VkDescriptorSetAllocateInfo const * info, VkDescriptorSet * s )
	{
		if ( fails( "AllocateDescriptorSets" ) )
		{ std::fill( s, s + info->descriptorSetCount, VkDescriptorSet{} ); return VK_ERROR_OUT_OF_DEVICE_MEMORY; }
		for ( uint32_t i = 0; i < info->descriptorSetCount; ++i )
			s[i] = VkDescriptorSet( newHandle() );
		W( "AllocateDescriptorSets" ).i( "pool", H( info->descriptorPool ) ).raw( "layouts", handles( info->pSetLayouts, info->descriptorSetCount ) ).raw( "sets", handles( s, info->descriptorSetCount ) ).end();
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR FreeDescriptorSets( VkDevice, VkDescriptorPool p, uint32_t n, VkDescriptorSet const * s )
	{
		W( "FreeDescriptorSets" ).i( "pool", H( p ) ).raw( "sets", handles( s, n ) ).end();
		return VK_SUCCESS;
	}
	static void VKAPI_PTR UpdateDescriptorSets( VkDevice, uint32_t n, VkWriteDescriptorSet const * w, uint32_t, VkCopyDescriptorSet const * )
	{
		W( "UpdateDescriptorSets" ).raw( "ws", arr( w, n, []( VkWriteDescriptorSet const & x )
			{
				bool isTexel = x.descriptorType == VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER || x.descriptorType == VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER;
				bool isBuf = x.descriptorType == VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER || x.descriptorType == VK_DESCRIPTOR_TYPE_STORAGE_BUFFER
					|| x.descriptorType == VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER_DYNAMIC || x.descriptorType == VK_DESCRIPTOR_TYPE_STORAGE_BUFFER_DYNAMIC;
				bool isImg = !isTexel && !isBuf;
				std::string r = "{\"set\":" + std::to_string( H( x.dstSet ) ) + ",\"b\":" + std::to_string( i32( x.dstBinding ) ) + ",\"el\":" + std::to_string( x.dstArrayElement )
					+ ",\"n\":" + std::to_string( x.descriptorCount ) + ",\"t\":" + std::to_string( x.descriptorType );
				bool bad = ( isImg && !x.pImageInfo ) || ( isBuf && !x.pBufferInfo ) || ( isTexel && !x.pTexelBufferView );
				r += std::string( ",\"bad\":" ) + ( bad ? "true" : "false" );
				r += ",\"img\":" + arr( x.pImageInfo, isImg && !bad ? x.descriptorCount : 0u, []( VkDescriptorImageInfo const & d ){ return "[" + std::to_string( H( d.sampler ) ) + "," + std::to_string( H( d.imageView ) ) + "," + lay( d.imageLayout ) + "]"; } );
				r += ",\"buf\":" + arr( x.pBufferInfo, isBuf && !bad ? x.descriptorCount : 0u, []( VkDescriptorBufferInfo const & d ){ return ints( { H( d.buffer ), i32( d.offset ), i32( d.range ) } ); } );
				r += ",\"tex\":" + arr( x.pTexelBufferView, isTexel && !bad ? x.descriptorCount : 0u, []( VkBufferView const & d ){ return std::to_string( H( d ) ); } );
				return r + "}";
			} ) ).end();
	}
	static void fillPipelineLayout( W & w, VkPipelineLayoutCreateInfo const & i )
	{
		w.raw( "sets", handles( i.pSetLayouts, i.setLayoutCount ) ).raw( "push", arr( i.pPushConstantRanges, i.pushConstantRangeCount, []( VkPushConstantRange const & p ){ return ints( { i32( p.stageFlags ), i32( p.offset ), i32( p.size ) } ); } ) );
	}
	SIMPLE_CREATE( PipelineLayout, VkPipelineLayoutCreateInfo, VkPipelineLayout )
	SIMPLE_DESTROY( PipelineLayout, VkPipelineLayout )
	static std::string stageInfo( VkPipelineShaderStageCreateInfo const & s ) { return "[" + std::to_string( s.stage ) + "," + std::to_string( H( s.module ) ) + "," + ( s.pName ? q( s.pName ) : std::string( "\"\"" ) ) + "]"; }
	static VkResult VKAPI_PTR CreateGraphicsPipelines( VkDevice, VkPipelineCache, uint32_t n, VkGraphicsPipelineCreateInfo const * info, VkAllocationCallbacks const *, VkPipeline * r )
	{
		if ( fails( "CreateGraphicsPipeline" ) )
		{ std::fill( r, r + n, VkPipeline{} ); return VK_ERROR_OUT_OF_DEVICE_MEMORY; }
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto & x = info[i];
			auto h = newHandle( "Pipeline" );
			r[i] = VkPipeline( h );
			W w( "CreateGraphicsPipeline" );
			w.i( "h", num( h ) ).i( "layout", H( x.layout ) ).i( "rp", H( x.renderPass ) ).i( "subpass", x.subpass ).raw( "stages", arr( x.pStages, x.stageCount, stageInfo ) );
			auto vs = x.pViewportState;
			w.raw( "vps", vs && vs->pViewports ? arr( vs->pViewports, vs->viewportCount, []( VkViewport const & v ){ return ints( { milli( v.x ) / 1000, milli( v.y ) / 1000, milli( v.width ) / 1000, milli( v.height ) / 1000, milli( v.minDepth ), milli( v.maxDepth ) } ); } ) : "[]" );
			w.raw( "scs", vs && vs->pScissors ? arr( vs->pScissors, vs->scissorCount, []( VkRect2D const & v ){ return ints( { v.offset.x, v.offset.y, i32( v.extent.width ), i32( v.extent.height ) } ); } ) : "[]" );
			auto vi = x.pVertexInputState;
			w.raw( "vbinds", vi ? arr( vi->pVertexBindingDescriptions, vi->vertexBindingDescriptionCount, []( VkVertexInputBindingDescription const & b ){ return ints( { b.binding, b.stride, b.inputRate } ); } ) : "[]" );
			w.raw( "vattrs", vi ? arr( vi->pVertexAttributeDescriptions, vi->vertexAttributeDescriptionCount, []( VkVertexInputAttributeDescription const & b ){ return ints( { b.location, b.binding, b.format, b.offset } ); } ) : "[]" );
			w.i( "topo", x.pInputAssemblyState ? x.pInputAssemblyState->topology : -1 ).i( "cull", x.pRasterizationState ? int64_t( x.pRasterizationState->cullMode ) : -1 );
			auto ds = x.pDepthStencilState;
			w.i( "dtest", ds ? int64_t( ds->depthTestEnable ) : -1 ).i( "dwrite", ds ? int64_t( ds->depthWriteEnable ) : -1 ).i( "stest", ds ? int64_t( ds->stencilTestEnable ) : -1 ).i( "dcmp", ds ? int64_t( ds->depthCompareOp ) : -1 );
			auto cb = x.pColorBlendState;
			w.raw( "blends", cb && cb->pAttachments ? arr( cb->pAttachments, cb->attachmentCount, []( VkPipelineColorBlendAttachmentState const & b ){ return ints( { b.blendEnable, b.srcColorBlendFactor, b.dstColorBlendFactor, b.colorBlendOp, b.srcAlphaBlendFactor, b.dstAlphaBlendFactor, b.alphaBlendOp, b.colorWriteMask } ); } ) : "[]" );
			w.end();
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR CreateComputePipelines( VkDevice, VkPipelineCache, uint32_t n, VkComputePipelineCreateInfo const * info, VkAllocationCallbacks const *, VkPipeline * r )
	{
		if ( fails( "CreateComputePipeline" ) )
		{ std::fill( r, r + n, VkPipeline{} ); return VK_ERROR_OUT_OF_DEVICE_MEMORY; }
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto h = newHandle( "Pipeline" );
			r[i] = VkPipeline( h );
			W( "CreateComputePipeline" ).i( "h", num( h ) ).i( "layout", H( info[i].layout ) ).raw( "stages", arr( &info[i].stage, 1u, stageInfo ) ).end();
		}
		return VK_SUCCESS;
	}
	SIMPLE_DESTROY( Pipeline, VkPipeline )
	static void fillCommandPool( W & w, VkCommandPoolCreateInfo const & i ) { w.i( "flags", i.flags ); }
	SIMPLE_CREATE( CommandPool, VkCommandPoolCreateInfo, VkCommandPool )
	SIMPLE_DESTROY( CommandPool, VkCommandPool )
	static VkResult VKAPI_PTR AllocateCommandBuffers( VkDevice, VkCommandBufferAllocateInfo const * info, VkCommandBuffer * c )
	{
		if ( fails( "AllocateCommandBuffers" ) )
		{ std::fill( c, c + info->commandBufferCount, VkCommandBuffer{} ); return VK_ERROR_OUT_OF_DEVICE_MEMORY; }
		for ( uint32_t i = 0; i < info->commandBufferCount; ++i )
			c[i] = VkCommandBuffer( newHandle() );
		W( "AllocateCommandBuffers" ).i( "pool", H( info->commandPool ) ).i( "level", info->level ).raw( "cbs", handles( c, info->commandBufferCount ) ).end();
		return VK_SUCCESS;
	}
	static void VKAPI_PTR FreeCommandBuffers( VkDevice, VkCommandPool p, uint32_t n, VkCommandBuffer const * c )
	{
		W( "FreeCommandBuffers" ).i( "pool", H( p ) ).raw( "cbs", handles( c, n ) ).end();
	}
	static void fillSemaphore( W &, VkSemaphoreCreateInfo const & ) {}
	SIMPLE_CREATE( Semaphore, VkSemaphoreCreateInfo, VkSemaphore )
	SIMPLE_DESTROY( Semaphore, VkSemaphore )
	static void fillFence( W & w, VkFenceCreateInfo const & i ) { w.b( "signaled", ( i.flags & VK_FENCE_CREATE_SIGNALED_BIT ) != 0 ); }
	SIMPLE_CREATE( Fence, VkFenceCreateInfo, VkFence )
	SIMPLE_DESTROY( Fence, VkFence )
	static VkResult VKAPI_PTR GetFenceStatus( VkDevice, VkFence f ) { W( "GetFenceStatus" ).i( "h", H( f ) ).end(); return VK_SUCCESS; }
	static VkResult VKAPI_PTR WaitForFences( VkDevice, uint32_t n, VkFence const * f, VkBool32, uint64_t )
	{
		W( "WaitForFences" ).raw( "fs", handles( f, n ) ).end();
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR ResetFences( VkDevice, uint32_t n, VkFence const * f ) { W( "ResetFences" ).raw( "fs", handles( f, n ) ).end(); return VK_SUCCESS; }
	static void fillEvent( W &, VkEventCreateInfo const & ) {}
	SIMPLE_CREATE( Event, VkEventCreateInfo, VkEvent )
	SIMPLE_DESTROY( Event, VkEvent )
	static VkResult VKAPI_PTR ResetEvent( VkDevice, VkEvent e ) { W( "ResetEvent" ).i( "h", H( e ) ).end(); return VK_SUCCESS; }
	static VkResult VKAPI_PTR SetEvent( VkDevice, VkEvent e ) { W( "SetEvent" ).i( "h", H( e ) ).end(); return VK_SUCCESS; }
	static VkResult VKAPI_PTR GetEventStatus( VkDevice, VkEvent e ) { W( "GetEventStatus" ).i( "h", H( e ) ).end(); return VK_EVENT_SET; }
	static void fillQueryPool( W & w, VkQueryPoolCreateInfo const & i ) { w.i( "type", i.queryType ).i( "count", i.queryCount ); }
	SIMPLE_CREATE( QueryPool, VkQueryPoolCreateInfo, VkQueryPool )
	SIMPLE_DESTROY( QueryPool, VkQueryPool )
	static VkResult VKAPI_PTR GetQueryPoolResults( VkDevice, VkQueryPool p, uint32_t first, uint32_t n, size_t sz, void * d, VkDeviceSize stride, VkQueryResultFlags f )
	{
		std::vector< int64_t > v;
		bool ready = true;
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto it = queries.find( { U( p ), first + i } );
			uint64_t val = 0u;
			if ( it == queries.end() )
				ready = false;
			else
				val = it->second;
			v.push_back( int64_t( val ) );
			if ( ( i + 1 ) * stride <= sz )
			{
				if ( f & VK_QUERY_RESULT_64_BIT )
					std::memcpy( (uint8_t *)d + i * stride, &val, 8 );
				else
				{
					uint32_t v32 = uint32_t( val );
					std::memcpy( (uint8_t *)d + i * stride, &v32, 4 );
				}
			}
		}
		W( "GetQueryPoolResults" ).i( "pool", H( p ) ).i( "first", first ).i( "n", n ).i( "flags", f ).b( "ready", ready ).raw( "vals", ints( v ) ).end();
		return ready ? VK_SUCCESS : VK_NOT_READY;
	}
	static VkResult VKAPI_PTR BeginCommandBuffer( VkCommandBuffer c, VkCommandBufferBeginInfo const * i )
	{
		cbTs[U( c )].clear();
		W( "BeginCommandBuffer" ).i( "cb", H( c ) ).i( "flags", i->flags ).end();
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR EndCommandBuffer( VkCommandBuffer c ) { W( "EndCommandBuffer" ).i( "cb", H( c ) ).end(); return VK_SUCCESS; }
	static VkResult VKAPI_PTR ResetCommandBuffer( VkCommandBuffer c, VkCommandBufferResetFlags ) { cbTs[U( c )].clear(); W( "ResetCommandBuffer" ).i( "cb", H( c ) ).end(); return VK_SUCCESS; }
	static VkResult VKAPI_PTR QueueSubmit( VkQueue qu, uint32_t n, VkSubmitInfo const * s, VkFence f )
	{
		W( "QueueSubmit" ).i( "queue", H( qu ) ).i( "fence", H( f ) ).raw( "subs", arr( s, n, []( VkSubmitInfo const & x )
			{
				return "{\"waits\":" + handles( x.pWaitSemaphores, x.waitSemaphoreCount ) + ",\"stages\":" + arr( x.pWaitDstStageMask, x.waitSemaphoreCount, []( VkPipelineStageFlags m ){ return stages( m ); } )
					+ ",\"cbs\":" + handles( x.pCommandBuffers, x.commandBufferCount ) + ",\"sigs\":" + handles( x.pSignalSemaphores, x.signalSemaphoreCount ) + "}";
			} ) ).end();
		for ( uint32_t i = 0; i < n; ++i )
			for ( uint32_t j = 0; j < s[i].commandBufferCount; ++j )
				for ( auto & t : cbTs[U( s[i].pCommandBuffers[j] )] )
				{
					if ( t.kind == 0 )
						for ( uint32_t k = 0; k < t.count; ++k )
							queries.erase( { t.pool, t.first + k } );
					else
					{
						tick += tickStep * 2u;
						tickStep = ( tickStep * 5u + 3u ) % 97u + 3u;
						queries[{ t.pool, t.first }] = tick;
					}
				}
		return VK_SUCCESS;
	}
#define CB W
	static void VKAPI_PTR CmdBindPipeline( VkCommandBuffer c, VkPipelineBindPoint bp, VkPipeline p ) { W( "BindPipeline" ).i( "cb", H( c ) ).i( "bp", bp ).i( "p", H( p ) ).end(); }
	static void VKAPI_PTR CmdBindDescriptorSets( VkCommandBuffer c, VkPipelineBindPoint bp, VkPipelineLayout l, uint32_t first, uint32_t n, VkDescriptorSet const * s, uint32_t dn, uint32_t const * )
	{
		W( "BindDescriptorSets" ).i( "cb", H( c ) ).i( "bp", bp ).i( "layout", H( l ) ).i( "first", first ).raw( "sets", handles( s, n ) ).i( "dyn", dn ).end();
	}
	static void VKAPI_PTR CmdBindVertexBuffers( VkCommandBuffer c, uint32_t first, uint32_t n, VkBuffer const * b, VkDeviceSize const * o )
	{
		W( "BindVertexBuffers" ).i( "cb", H( c ) ).i( "first", first ).raw( "bs", handles( b, n ) ).raw( "offs", arr( o, n, []( VkDeviceSize x ){ return std::to_string( i32( x ) ); } ) ).end();
	}
	static void VKAPI_PTR CmdBindIndexBuffer( VkCommandBuffer c, VkBuffer b, VkDeviceSize o, VkIndexType t ) { W( "BindIndexBuffer" ).i( "cb", H( c ) ).i( "b", H( b ) ).i( "off", i32( o ) ).i( "t", t ).end(); }
	static std::string ranges( uint32_t n, VkImageSubresourceRange const * r )
	{
		return arr( r, n, []( VkImageSubresourceRange const & x ){ return "{\"asp\":" + aspects( x.aspectMask ) + ",\"r\":" + range( x ) + "}"; } );
	}
	static void VKAPI_PTR CmdClearColorImage( VkCommandBuffer c, VkImage i, VkImageLayout l, VkClearColorValue const * v, uint32_t n, VkImageSubresourceRange const * r )
	{
		W( "ClearColor" ).i( "cb", H( c ) ).i( "img", H( i ) ).raw( "lay", lay( l ) ).raw( "val", v ? ints( { milli( v->float32[0] ), milli( v->float32[1] ), milli( v->float32[2] ), milli( v->float32[3] ) } ) : "[]" ).raw( "rs", ranges( n, r ) ).end();
	}
	static void VKAPI_PTR CmdClearDepthStencilImage( VkCommandBuffer c, VkImage i, VkImageLayout l, VkClearDepthStencilValue const * v, uint32_t n, VkImageSubresourceRange const * r )
	{
		W( "ClearDS" ).i( "cb", H( c ) ).i( "img", H( i ) ).raw( "lay", lay( l ) ).raw( "val", v ? ints( { milli( v->depth ), i32( v->stencil ) } ) : "[]" ).raw( "rs", ranges( n, r ) ).end();
	}
	static void VKAPI_PTR CmdDispatch( VkCommandBuffer c, uint32_t x, uint32_t y, uint32_t z ) { W( "Dispatch" ).i( "cb", H( c ) ).raw( "xyz", ints( { i32( x ), i32( y ), i32( z ) } ) ).end(); }
	static void VKAPI_PTR CmdDispatchIndirect( VkCommandBuffer c, VkBuffer b, VkDeviceSize o ) { W( "DispatchIndirect" ).i( "cb", H( c ) ).i( "b", H( b ) ).i( "off", i32( o ) ).end(); }
	static void VKAPI_PTR CmdDraw( VkCommandBuffer c, uint32_t vc, uint32_t ic, uint32_t fv, uint32_t fi ) { W( "Draw" ).i( "cb", H( c ) ).raw( "a", ints( { i32( vc ), i32( ic ), i32( fv ), i32( fi ) } ) ).end(); }
	static void VKAPI_PTR CmdDrawIndexed( VkCommandBuffer c, uint32_t xc, uint32_t ic, uint32_t fx, int32_t vo, uint32_t fi ) { W( "DrawIndexed" ).i( "cb", H( c ) ).raw( "a", ints( { i32( xc ), i32( ic ), i32( fx ), vo, i32( fi ) } ) ).end(); }
	static void VKAPI_PTR CmdDrawIndexedIndirect( VkCommandBuffer c, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s ) { W( "DrawIndexedIndirect" ).i( "cb", H( c ) ).raw( "a", ints( { H( b ), i32( o ), i32( n ), i32( s ) } ) ).end(); }
	static void VKAPI_PTR CmdDrawIndirect( VkCommandBuffer c, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s ) { W( "DrawIndirect" ).i( "cb", H( c ) ).raw( "a", ints( { H( b ), i32( o ), i32( n ), i32( s ) } ) ).end(); }
	static void VKAPI_PTR CmdBeginRenderPass( VkCommandBuffer c, VkRenderPassBeginInfo const * i, VkSubpassContents s )
	{
		W( "BeginRenderPass" ).i( "cb", H( c ) ).i( "rp", H( i->renderPass ) ).i( "fb", H( i->framebuffer ) )
			.raw( "area", ints( { i->renderArea.offset.x, i->renderArea.offset.y, i32( i->renderArea.extent.width ), i32( i->renderArea.extent.height ) } ) )
			.raw( "clears", arr( i->pClearValues, i->clearValueCount, []( VkClearValue const & v ){ return ints( { milli( v.color.float32[0] ), milli( v.color.float32[1] ), milli( v.color.float32[2] ), milli( v.color.float32[3] ), int64_t( v.depthStencil.stencil & 0x7FFFFFFF ) } ); } ) )
			.i( "contents", s ).end();
	}
	static void VKAPI_PTR CmdEndRenderPass( VkCommandBuffer c ) { W( "EndRenderPass" ).i( "cb", H( c ) ).end(); }
	static void VKAPI_PTR CmdPushConstants( VkCommandBuffer c, VkPipelineLayout l, VkShaderStageFlags st, uint32_t o, uint32_t s, void const * ) { W( "PushConstants" ).i( "cb", H( c ) ).i( "layout", H( l ) ).i( "st", st ).i( "off", o ).i( "size", s ).end(); }
	static void VKAPI_PTR CmdResetQueryPool( VkCommandBuffer c, VkQueryPool p, uint32_t f, uint32_t n ) { cbTs[U( c )].push_back( { 0, U( p ), f, n } ); W( "ResetQueryPool" ).i( "cb", H( c ) ).i( "pool", H( p ) ).i( "first", f ).i( "n", n ).end(); }
	static void VKAPI_PTR CmdWriteTimestamp( VkCommandBuffer c, VkPipelineStageFlagBits st, VkQueryPool p, uint32_t qn ) { cbTs[U( c )].push_back( { 1, U( p ), qn, 1 } ); W( "WriteTimestamp" ).i( "cb", H( c ) ).raw( "st", stages( st ) ).i( "pool", H( p ) ).i( "q", qn ).end(); }
	static void VKAPI_PTR CmdPipelineBarrier( VkCommandBuffer c, VkPipelineStageFlags ss, VkPipelineStageFlags ds, VkDependencyFlags df, uint32_t mn, VkMemoryBarrier const * m, uint32_t bn, VkBufferMemoryBarrier const * b, uint32_t in, VkImageMemoryBarrier const * im )
	{
		W( "Barrier" ).i( "cb", H( c ) ).raw( "ss", stages( ss ) ).raw( "ds", stages( ds ) ).i( "df", df )
			.raw( "mem", arr( m, mn, []( VkMemoryBarrier const & x ){ return "{\"sa\":" + access( x.srcAccessMask ) + ",\"da\":" + access( x.dstAccessMask ) + "}"; } ) )
			.raw( "buf", arr( b, bn, []( VkBufferMemoryBarrier const & x ){ return "{\"b\":" + std::to_string( H( x.buffer ) ) + ",\"sa\":" + access( x.srcAccessMask ) + ",\"da\":" + access( x.dstAccessMask ) + ",\"off\":" + std::to_string( i32( x.offset ) ) + ",\"size\":" + std::to_string( i32( x.size ) ) + ",\"qf\":" + ints( { i32( x.srcQueueFamilyIndex ), i32( x.dstQueueFamilyIndex ) } ) + "}"; } ) )
			.raw( "img", arr( im, in, []( VkImageMemoryBarrier const & x ){ return "{\"img\":" + std::to_string( H( x.image ) ) + ",\"sa\":" + access( x.srcAccessMask ) + ",\"da\":" + access( x.dstAccessMask ) + ",\"old\":" + lay( x.oldLayout ) + ",\"new\":" + lay( x.newLayout ) + ",\"asp\":" + aspects( x.subresourceRange.aspectMask ) + ",\"r\":" + range( x.subresourceRange ) + ",\"qf\":" + ints( { i32( x.srcQueueFamilyIndex ), i32( x.dstQueueFamilyIndex ) } ) + "}"; } ) ).end();
	}
	static void VKAPI_PTR CmdBlitImage( VkCommandBuffer c, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageBlit const * r, VkFilter f )
	{
		W( "Blit" ).i( "cb", H( c ) ).i( "s", H( s ) ).raw( "sl", lay( sl ) ).i( "d", H( d ) ).raw( "dl", lay( dl ) ).i( "filter", f ).raw( "rs", arr( r, n, []( VkImageBlit const & x )
			{ return "{\"s\":" + subLayers( x.srcSubresource ) + ",\"so\":[" + off( x.srcOffsets[0] ) + "," + off( x.srcOffsets[1] ) + "],\"d\":" + subLayers( x.dstSubresource ) + ",\"do\":[" + off( x.dstOffsets[0] ) + "," + off( x.dstOffsets[1] ) + "]}"; } ) ).end();
	}
	static void VKAPI_PTR CmdCopyBuffer( VkCommandBuffer c, VkBuffer s, VkBuffer d, uint32_t n, VkBufferCopy const * r )
	{
		W( "CopyBuffer" ).i( "cb", H( c ) ).i( "s", H( s ) ).i( "d", H( d ) ).raw( "rs", arr( r, n, []( VkBufferCopy const & x ){ return ints( { i32( x.srcOffset ), i32( x.dstOffset ), i32( x.size ) } ); } ) ).end();
	}
	static std::string bic( VkBufferImageCopy const & x )
	{
		return "{\"bo\":" + ints( { i32( x.bufferOffset ), i32( x.bufferRowLength ), i32( x.bufferImageHeight ) } ) + ",\"i\":" + subLayers( x.imageSubresource ) + ",\"io\":" + off( x.imageOffset ) + ",\"ie\":" + ext( x.imageExtent ) + "}";
	}
	static void VKAPI_PTR CmdCopyBufferToImage( VkCommandBuffer c, VkBuffer s, VkImage d, VkImageLayout l, uint32_t n, VkBufferImageCopy const * r )
	{
		W( "CopyB2I" ).i( "cb", H( c ) ).i( "s", H( s ) ).i( "d", H( d ) ).raw( "dl", lay( l ) ).raw( "rs", arr( r, n, bic ) ).end();
	}
	static void VKAPI_PTR CmdCopyImageToBuffer( VkCommandBuffer c, VkImage s, VkImageLayout l, VkBuffer d, uint32_t n, VkBufferImageCopy const * r )
	{
		W( "CopyI2B" ).i( "cb", H( c ) ).i( "s", H( s ) ).raw( "sl", lay( l ) ).i( "d", H( d ) ).raw( "rs", arr( r, n, bic ) ).end();
	}
	static void VKAPI_PTR CmdCopyImage( VkCommandBuffer c, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageCopy const * r )
	{
		W( "CopyImage" ).i( "cb", H( c ) ).i( "s", H( s ) ).raw( "sl", lay( sl ) ).i( "d", H( d ) ).raw( "dl", lay( dl ) ).raw( "rs", arr( r, n, []( VkImageCopy const & x )
			{ return "{\"s\":" + subLayers( x.srcSubresource ) + ",\"so\":" + off( x.srcOffset ) + ",\"d\":" + subLayers( x.dstSubresource ) + ",\"do\":" + off( x.dstOffset ) + ",\"ext\":" + ext( x.extent ) + "}"; } ) ).end();
	}
	static void VKAPI_PTR CmdExecuteCommands( VkCommandBuffer c, uint32_t n, VkCommandBuffer const * s ) { W( "ExecuteCommands" ).i( "cb", H( c ) ).raw( "cbs", handles( s, n ) ).end(); }
	static void VKAPI_PTR CmdResetEvent( VkCommandBuffer c, VkEvent e, VkPipelineStageFlags ) { W( "CmdResetEvent" ).i( "cb", H( c ) ).i( "h", H( e ) ).end(); }
	static void VKAPI_PTR CmdSetEvent( VkCommandBuffer c, VkEvent e, VkPipelineStageFlags ) { W( "CmdSetEvent" ).i( "cb", H( c ) ).i( "h", H( e ) ).end(); }
	static void VKAPI_PTR CmdWaitEvents( VkCommandBuffer c, uint32_t, VkEvent const *, VkPipelineStageFlags, VkPipelineStageFlags, uint32_t, VkMemoryBarrier const *, uint32_t, VkBufferMemoryBarrier const *, uint32_t, VkImageMemoryBarrier const * ) { W( "CmdWaitEvents" ).i( "cb", H( c ) ).end(); }
	static void VKAPI_PTR CmdFillBuffer( VkCommandBuffer c, VkBuffer b, VkDeviceSize o, VkDeviceSize s, uint32_t d ) { W( "FillBuffer" ).i( "cb", H( c ) ).i( "b", H( b ) ).i( "off", i32( o ) ).i( "size", i32( s ) ).i( "data", i32( d ) ).end(); }
	static VkResult VKAPI_PTR SetDebugUtilsObjectNameEXT( VkDevice, VkDebugUtilsObjectNameInfoEXT const * i )
	{
		W( "Name" ).i( "h", num( i->objectHandle ) ).i( "t", i->objectType ).str( "name", i->pObjectName ? i->pObjectName : "" ).end();
		return VK_SUCCESS;
	}
	static void VKAPI_PTR CmdBeginDebugUtilsLabelEXT( VkCommandBuffer c, VkDebugUtilsLabelEXT const * l ) { W( "BeginLabel" ).i( "cb", H( c ) ).str( "name", l->pLabelName ? l->pLabelName : "" ).end(); }
	static void VKAPI_PTR CmdEndDebugUtilsLabelEXT( VkCommandBuffer c ) { W( "EndLabel" ).i( "cb", H( c ) ).end(); }

	template< auto Fn >
	struct Entry;
	template< typename R, typename ... A, R ( VKAPI_PTR * Fn )( A ... ) >
	struct Entry< Fn >
	{
		static R VKAPI_PTR call( A ... a )
		{
			thr::point();
			thr::Guard g;
			return Fn( a ... );
		}
	};
	PFN_vkVoidFunction VKAPI_PTR getProcAddr( VkDevice, char const * name )
	{
#define F( x ) { "vk" #x, PFN_vkVoidFunction( &Entry< &x >::call ) }
		static std::map< std::string, PFN_vkVoidFunction > const table{
			F( CreateGraphicsPipelines ), F( CreateComputePipelines ), F( DestroyPipeline ), F( CreatePipelineLayout ), F( DestroyPipelineLayout )
			, F( CreateDescriptorSetLayout ), F( DestroyDescriptorSetLayout ), F( CreateDescriptorPool ), F( DestroyDescriptorPool ), F( AllocateDescriptorSets ), F( FreeDescriptorSets )
			, F( CreateBuffer ), F( DestroyBuffer ), F( GetBufferMemoryRequirements ), F( GetImageMemoryRequirements ), F( AllocateMemory ), F( FreeMemory ), F( BindBufferMemory ), F( BindImageMemory )
			, F( MapMemory ), F( UnmapMemory ), F( FlushMappedMemoryRanges ), F( InvalidateMappedMemoryRanges ), F( CreateRenderPass ), F( DestroyRenderPass ), F( CreateFramebuffer ), F( DestroyFramebuffer )
			, F( CreateImage ), F( DestroyImage ), F( CreateImageView ), F( DestroyImageView ), F( CreateSampler ), F( DestroySampler ), F( CreateCommandPool ), F( DestroyCommandPool )
			, F( AllocateCommandBuffers ), F( FreeCommandBuffers ), F( CreateSemaphore ), F( DestroySemaphore ), F( UpdateDescriptorSets ), F( BeginCommandBuffer ), F( EndCommandBuffer ), F( QueueSubmit )
			, F( CreateQueryPool ), F( DestroyQueryPool ), F( GetQueryPoolResults ), F( ResetCommandBuffer ), F( CreateEvent ), F( DestroyEvent ), F( ResetEvent ), F( SetEvent ), F( GetEventStatus )
			, F( CreateFence ), F( DestroyFence ), F( GetFenceStatus ), F( WaitForFences ), F( ResetFences )
			, F( CmdBindPipeline ), F( CmdBindDescriptorSets ), F( CmdBindVertexBuffers ), F( CmdBindIndexBuffer ), F( CmdClearColorImage ), F( CmdClearDepthStencilImage ), F( CmdDispatch ), F( CmdDispatchIndirect )
			, F( CmdDraw ), F( CmdDrawIndexed ), F( CmdDrawIndexedIndirect ), F( CmdDrawIndirect ), F( CmdBeginRenderPass ), F( CmdEndRenderPass ), F( CmdPushConstants ), F( CmdResetQueryPool ), F( CmdWriteTimestamp )
			, F( CmdPipelineBarrier ), F( CmdBlitImage ), F( CmdCopyBuffer ), F( CmdCopyBufferToImage ), F( CmdCopyImage ), F( CmdCopyImageToBuffer ), F( CmdExecuteCommands ), F( CmdResetEvent ), F( CmdSetEvent )
			, F( CmdWaitEvents ), F( CmdFillBuffer ), F( SetDebugUtilsObjectNameEXT ), F( CmdBeginDebugUtilsLabelEXT ), F( CmdEndDebugUtilsLabelEXT ) };
		auto it = table.find( name );
		return it == table.end() ? nullptr : it->second;
	}
}

#if defined( CRG_FREE_THREADS )
extern "C" void __tsan_on_report( void * )
{
	__atomic_add_fetch( &mock::thr::found, 1, __ATOMIC_SEQ_CST );
}
extern "C" char const * __tsan_default_options()
{
	return "halt_on_error=0:exitcode=66:suppress_equal_stacks=0:suppress_equal_addresses=0:report_signal_unsafe=0:history_size=2:atexit_sleep_ms=0:detect_deadlocks=1:handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0";
}
#else
void * operator new( size_t n )
{
	mock::thr::point();
	if ( auto p = std::malloc( n ? n : 1u ) )
		return p;
	throw std::bad_alloc{};
}
void operator delete( void * p )noexcept { std::free( p ); }
void operator delete( void * p, size_t )noexcept { std::free( p ); }
using MutexFn = int ( * )( pthread_mutex_t * );
static MutexFn real( char const * name ) { return MutexFn( dlsym( RTLD_NEXT, name ) ); }
static MutexFn const realLock = real( "pthread_mutex_lock" ), realTry = real( "pthread_mutex_trylock" ), realUnlock = real( "pthread_mutex_unlock" );
extern "C" int pthread_mutex_lock( pthread_mutex_t * m )
{
	if ( mock::thr::tid < 0 )
		return realLock ? realLock( m ) : real( "pthread_mutex_lock" )( m );
	mock::thr::lock( m, realTry );
	return 0;
}
// Initialisation of static variables, another thread being possibly at it.
extern "C" int __cxa_guard_acquire( long long int * g )
{
	auto b = reinterpret_cast< unsigned char * >( g );
	while ( !b[0] && b[1] )
		mock::thr::pass();
	if ( b[0] )
		return 0;
	b[1] = 1;
	return 1;
}
extern "C" void __cxa_guard_release( long long int * g )
{
	reinterpret_cast< unsigned char * >( g )[1] = 0;
	reinterpret_cast< unsigned char * >( g )[0] = 1;
}
extern "C" void __cxa_guard_abort( long long int * g )
{
	reinterpret_cast< unsigned char * >( g )[1] = 0;
}
using RwFn = int ( * )( pthread_rwlock_t * );
static RwFn realRw( char const * name ) { return RwFn( dlsym( RTLD_NEXT, name ) ); }
static RwFn const realRd = realRw( "pthread_rwlock_rdlock" ), realWr = realRw( "pthread_rwlock_wrlock" ), realTryRd = realRw( "pthread_rwlock_tryrdlock" ), realTryWr = realRw( "pthread_rwlock_trywrlock" ), realRwUn = realRw( "pthread_rwlock_unlock" );
extern "C" int pthread_rwlock_rdlock( pthread_rwlock_t * m )
{
	if ( mock::thr::tid < 0 )
		return realRd ? realRd( m ) : realRw( "pthread_rwlock_rdlock" )( m );
	mock::thr::lock( m, realTryRd );
	return 0;
}
extern "C" int pthread_rwlock_wrlock( pthread_rwlock_t * m )
{
	if ( mock::thr::tid < 0 )
		return realWr ? realWr( m ) : realRw( "pthread_rwlock_wrlock" )( m );
	mock::thr::lock( m, realTryWr );
	return 0;
}
extern "C" int pthread_rwlock_unlock( pthread_rwlock_t * m )
{
	auto r = realRwUn ? realRwUn( m ) : realRw( "pthread_rwlock_unlock" )( m );
	if ( mock::thr::tid >= 0 )
		mock::thr::unlocked( m );
	return r;
}
extern "C" int pthread_mutex_unlock( pthread_mutex_t * m )
{
	auto r = realUnlock ? realUnlock( m ) : real( "pthread_mutex_unlock" )( m );
	if ( mock::thr::tid >= 0 )
		mock::thr::unlocked( m );
	return r;
}
#endif
