// Executes scenario files against the library on top of the recording mock and
// writes the trace (ndjson) of everything the library did.
#include "json.hpp"
#include "mock.hpp"

#include <RenderGraph/DotExport.hpp>
#include <RenderGraph/Exception.hpp>
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePassTimer.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/GraphVisitor.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/LayerLayoutStatesHandler.hpp>
#include <RenderGraph/Log.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
#include <RenderGraph/Signal.hpp>

#include <cstring>
#include <fstream>
#include <iostream>
#include <list>
#include <set>
#include <sstream>
#include <unistd.h>

using mock::W;
using mock::H;
using namespace crg;

namespace
{
	VkImageLayout parseLayout( std::string const & s )
	{
		static std::map< std::string, VkImageLayout > const m = []()
		{
			std::map< std::string, VkImageLayout > r;
			for ( int i = 0; i < 9; ++i )
				r[mock::layout( VkImageLayout( i ) )] = VkImageLayout( i );
			for ( auto l : { VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_PRESENT_SRC_KHR } )
				r[mock::layout( l )] = l;
			return r;
		}();
		auto it = m.find( s );
		if ( it == m.end() )
			throw std::runtime_error( "scenario: layout " + s );
		return it->second;
	}
	VkPipelineStageFlags parseStages( J const & j )
	{
		if ( j.kind == J::Num )
			return VkPipelineStageFlags( j.i() );
		static std::map< std::string, uint32_t > const m{ { "TOP", 0x1 }, { "DI", 0x2 }, { "VI", 0x4 }, { "VS", 0x8 }, { "FS", 0x80 }, { "EF", 0x100 }, { "LF", 0x200 }, { "CO", 0x400 }, { "CS", 0x800 }, { "TR", 0x1000 }, { "BOT", 0x2000 } };
		VkPipelineStageFlags r{};
		for ( auto & s : j.a )
			r |= m.at( s.s );
		return r;
	}
	VkAccessFlags parseAccess( J const & j )
	{
		static std::map< std::string, uint32_t > const m{ { "INDIRECT", 0x1 }, { "INDEX", 0x2 }, { "VATTR", 0x4 }, { "UNIFORM", 0x8 }, { "SH_R", 0x20 }, { "SH_W", 0x40 }, { "CO_R", 0x80 }, { "CO_W", 0x100 }, { "DS_R", 0x200 }, { "DS_W", 0x400 }, { "TR_R", 0x800 }, { "TR_W", 0x1000 }, { "HO_R", 0x2000 }, { "HO_W", 0x4000 }, { "ME_R", 0x8000 }, { "ME_W", 0x10000 } };
		VkAccessFlags r{};
		for ( auto & s : j.a )
			r |= m.at( s.s );
		return r;
	}
	VkImageAspectFlags parseAsp( std::string const & s )
	{
		VkImageAspectFlags r{};
		for ( char c : s )
			r |= c == 'C' ? VK_IMAGE_ASPECT_COLOR_BIT : c == 'D' ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_STENCIL_BIT;
		return r;
	}
	uint32_t u32( J const & j, uint32_t d = 0 )
	{
		if ( j.kind == J::Num && j.n < 0 )
			return ~0u;
		return j.u( d );
	}
	VkDeviceSize u64( J const & j )
	{
		if ( j.kind == J::Num && j.n < 0 )
			return ~0ull;
		return VkDeviceSize( j.i() );
	}
	VkImageSubresourceRange parseRange( std::string const & asp, J const & r )
	{
		return { parseAsp( asp ), u32( r[0] ), u32( r[1] ), u32( r[2] ), u32( r[3] ) };
	}
	VkExtent3D ext3( J const & j ) { return { j[0].u(), j[1].u(), j[2].u() }; }
	VkOffset3D off3( J const & j ) { return { int32_t( j[0].i() ), int32_t( j[1].i() ), int32_t( j[2].i() ) }; }
	VkClearValue clearV( J const & j )
	{
		VkClearValue v{};
		for ( size_t i = 0; i < j.size() && i < 4; ++i )
			v.color.float32[i] = float( j[i].f() );
		return v;
	}
	std::string stateJ( LayoutState const & l )
	{
		return "[\"" + mock::layout( l.layout ) + "\"," + mock::access( l.state.access ) + "," + mock::stages( l.state.pipelineStage ) + "]";
	}
	std::string rangeJ( VkImageSubresourceRange const & r )
	{
		return mock::ints( { int64_t( r.baseMipLevel ), mock::i32( r.levelCount ), int64_t( r.baseArrayLayer ), mock::i32( r.layerCount ) } );
	}

	struct PassState
	{
		int id{};
		J op;
		FramePass * pass{};
		RunnablePass * run{};
		bool enabled{ true };
		uint32_t index{};
		uint32_t gx{ 1 }, gy{ 1 }, gz{ 1 };
		uint32_t prim{ 1 }, verts{ 1 }, itype{ 1 };
	};

	static bool lastOk{ true };
	// Errors logged while the handler is destroyed.
	static std::vector< std::string > logged;
	struct Scenario
	{
		std::shared_ptr< ResourceHandler > handler{ std::make_shared< ResourceHandler >() };
		std::map< int, std::shared_ptr< GraphContext > > contexts;
		std::map< int, std::unique_ptr< FrameGraph > > graphs;
		std::map< int, FramePassGroup * > groups;
		std::map< int, int > graphCtx;
		std::map< int, RunnableGraphPtr > runs;
		std::map< int, ImageId > images;
		std::map< int, ImageViewId > views;
		std::map< int, std::unique_ptr< Buffer > > buffers;
		std::map< int, VkBufferView > bufViews;
		std::map< int, VkSemaphore > sems;
		std::map< int, std::unique_ptr< PassState > > passes;
		std::map< int, std::unique_ptr< ContextResourcesCache > > caches;
		std::map< int, std::unique_ptr< ResourcesCache > > mcaches;
		std::map< int, std::unique_ptr< LayerLayoutStatesHandler > > trackers;
		std::map< int, std::unique_ptr< RecordContext > > recs;
		std::map< int, std::unique_ptr< FramePassTimer > > timers;
		std::map< int, uint32_t > timerOff;
		std::map< int, VkQueryPool > pools;
		std::map< int, VkCommandBuffer > userCbs;
		// Signals are destroyed after the connections unless stated otherwise.
		template< typename FnT >
		struct SigWorld
		{
			using Sig = Signal< FnT >;
			std::map< int, std::unique_ptr< Sig > > signals;
			std::map< int, std::unique_ptr< SignalConnection< Sig > > > conns;
			void clear() { conns.clear(); signals.clear(); }
		};
		// Signals with an argument handed over as a temporary, and without any.
		SigWorld< std::function< void( std::string ) > > sig1;
		SigWorld< std::function< void() > > sig0;
		template< typename FnT > bool sigOp( SigWorld< FnT > & w, std::string const & op, int id, J const & o );
		std::vector< void const * > datas;
		VkQueue queue{ VkQueue( mock::newHandle() ) };
		VkDevice device{ VkDevice( mock::newHandle() ) };

		GraphContext & ctx( J const & o )
		{
			auto id = int( o["ctx"].i( contexts.empty() ? 0 : contexts.begin()->first ) );
			if ( !contexts.count( id ) )
				makeCtx( id, o );
			return *contexts.at( id );
		}
		void makeCtx( int id, J const & o )
		{
			VkPhysicalDeviceMemoryProperties mem{};
			mem.memoryTypeCount = 3u;
			mem.memoryTypes[0].propertyFlags = VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT;
			mem.memoryTypes[1].propertyFlags = VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT;
			mem.memoryTypes[2].propertyFlags = VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT | VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT;
			if ( o.has( "mem" ) )
			{
				mem.memoryTypeCount = uint32_t( o["mem"].size() );
				for ( size_t i = 0; i < o["mem"].size(); ++i )
					mem.memoryTypes[i].propertyFlags = o["mem"][i].u();
			}
			VkPhysicalDeviceProperties props{};
			props.limits.timestampPeriod = float( o["period"].f( 1.0 ) );
			contexts[id] = std::make_shared< GraphContext >( device, VkPipelineCache{}, nullptr, mem, props, o["sep"].b( false ), &mock::getProcAddr );
			if ( o.has( "stack" ) )
			{
				auto s = o["stack"].str();
				contexts[id]->setCallstackCallback( [s]()
					{
						// (in a thread, whose it is)
						auto r = s;
						if ( mock::thr::tid >= 0 )
							r += " of thread " + std::to_string( mock::thr::tid );
						mock::thr::point();
						return r;
					} );
			}
			W( "ctx" ).i( "id", id ).end();
		}
		ImageViewIdArray viewArr( J const & v )
		{
			ImageViewIdArray r;
			for ( auto & x : v.a )
				r.push_back( views.at( int( x.i() ) ) );
			return r;
		}
		RecordContext::ImplicitAction marker( char const * ev, int pass, int j )
		{
			return [ev, pass, j]( RecordContext &, VkCommandBuffer cb, uint32_t idx )
			{
				W( ev ).i( "cb", H( cb ) ).i( "p", pass ).i( "j", j ).i( "idx", mock::i32( idx ) ).end();
			};
		}
		RecordContext::ImplicitAction bodyOf( J const & a )
		{
			auto kind = a["do"].str( "mark" );
			RecordContext::ImplicitAction body;
			if ( kind == "clear" )
				body = RecordContext::clearAttachment( views.at( int( a.at( "view" ).i() ) ), clearV( a["val"] ), parseLayout( a["final"].str( "UNDEF" ) ) );
			else if ( kind == "copy" )
				body = RecordContext::copyImage( views.at( int( a.at( "src" ).i() ) ), views.at( int( a.at( "view" ).i() ) ), { a["ext"][0].u(), a["ext"][1].u() }, parseLayout( a["final"].str( "UNDEF" ) ) );
			else if ( kind == "blit" )
				body = RecordContext::blitImage( views.at( int( a.at( "src" ).i() ) ), views.at( int( a.at( "view" ).i() ) )
					, { int32_t( a["so"][0].i() ), int32_t( a["so"][1].i() ) }, { a["se"][0].u(), a["se"][1].u() }
					, { int32_t( a["do_"][0].i() ), int32_t( a["do_"][1].i() ) }, { a["de"][0].u(), a["de"][1].u() }
					, VkFilter( a["filter"].i() ), parseLayout( a["final"].str( "UNDEF" ) ) );
			return body;
		}
		RecordContext::ImplicitAction action( J const & a, int pass, int j )
		{
			auto mark = marker( "implicit", pass, j );
			auto after = marker( "implicitEnd", pass, j );
			auto body = bodyOf( a );
			return [mark, after, body]( RecordContext & rc, VkCommandBuffer cb, uint32_t idx )
			{
				mark( rc, cb, idx );
				if ( body )
					body( rc, cb, idx );
				after( rc, cb, idx );
			};
		}
		void rcOp( std::string const & op, int id, J const & o )
		{
			auto where = [&]( auto const & withView, auto const & withRange )
			{
				if ( o.has( "view" ) )
					withView( views.at( int( o["view"].i() ) ) );
				else
					withRange( images.at( int( o.at( "img" ).i() ) ), parseRange( o.at( "asp" ).str(), o.at( "r" ) ) );
			};
			LayoutState ls{ parseLayout( o["lay"].str( "UNDEF" ) ), { parseAccess( o["acc"] ), parseStages( o["st"] ) } };
			AccessState as{ parseAccess( o["acc"] ), parseStages( o["st"] ) };
			auto cb = o.has( "cb" ) ? userCbs.at( int( o["cb"].i() ) ) : VkCommandBuffer{};
			auto vt = VkImageViewType( o["vt"].i() );
			auto force = o["force"].b( false );
			BufferSubresourceRange br{ VkDeviceSize( o["off"].i() ), o.has( "size" ) ? ( o["size"].i() < 0 ? VK_WHOLE_SIZE : VkDeviceSize( o["size"].i() ) ) : VK_WHOLE_SIZE };

			if ( op == "rc" )
			{
				recs[id] = std::make_unique< RecordContext >( *caches.at( int( o.at( "cache" ).i() ) ) );
				W( "rc" ).i( "id", id ).end();
				return;
			}
			auto & rc = *recs.at( id );
			if ( op == "rcset" )
			{
				where( [&]( ImageViewId v ){ rc.setLayoutState( v, ls ); }
					, [&]( ImageId i, VkImageSubresourceRange const & r ){ rc.setLayoutState( i, vt, r, ls ); } );
				W( op.c_str() ).i( "id", id ).end();
			}
			else if ( op == "rcget" || op == "rcnextget" )
			{
				LayoutState got{};
				if ( op == "rcget" )
					where( [&]( ImageViewId v ){ got = rc.getLayoutState( v ); }
						, [&]( ImageId i, VkImageSubresourceRange const & r ){ got = rc.getLayoutState( i, vt, r ); } );
				else
					where( [&]( ImageViewId v ){ got = rc.getNextLayoutState( v ); }
						, [&]( ImageId i, VkImageSubresourceRange const & r ){ got = rc.getNextLayoutState( i, vt, r ); } );
				W( op.c_str() ).i( "id", id ).raw( "s", stateJ( got ) ).end();
			}
			else if ( op == "rcbar" )
			{
				W( "rcbarBegin" ).i( "id", id ).end();
				if ( o.has( "init" ) )
				{
					auto init = parseLayout( o["init"].str() );
					where( [&]( ImageViewId v ){ rc.memoryBarrier( cb, v, init, ls, force ); }
						, [&]( ImageId i, VkImageSubresourceRange const & r ){ o.has( "vt" ) ? rc.memoryBarrier( cb, i, vt, r, init, ls, force ) : rc.memoryBarrier( cb, i, r, init, ls, force ); } );
				}
				else
				{
					where( [&]( ImageViewId v ){ rc.memoryBarrier( cb, v, ls, force ); }
						, [&]( ImageId i, VkImageSubresourceRange const & r ){ o.has( "vt" ) ? rc.memoryBarrier( cb, i, vt, r, ls, force ) : rc.memoryBarrier( cb, i, r, ls, force ); } );
				}
				W( op.c_str() ).i( "id", id ).end();
			}
			else if ( op == "rcbufset" ) { rc.setAccessState( buffers.at( int( o["buf"].i() ) )->buffer( 0u ), br, as ); W( op.c_str() ).i( "id", id ).end(); }
			else if ( op == "rcbufget" )
			{
				auto got = rc.getAccessState( buffers.at( int( o["buf"].i() ) )->buffer( 0u ), br );
				W( op.c_str() ).i( "id", id ).raw( "s", stateJ( { VK_IMAGE_LAYOUT_UNDEFINED, got } ) ).end();
			}
			else if ( op == "rcbufbar" )
			{
				W( "rcbarBegin" ).i( "id", id ).end();
				auto b = buffers.at( int( o["buf"].i() ) )->buffer( 0u );
				if ( o.has( "init" ) )
					rc.memoryBarrier( cb, b, br, parseAccess( o["init"][0] ), parseStages( o["init"][1] ), as, force );
				else
					rc.memoryBarrier( cb, b, br, as, force );
				W( op.c_str() ).i( "id", id ).end();
			}
			else if ( op == "rcadd" ) { rc.addStates( *recs.at( int( o.at( "from" ).i() ) ) ); W( op.c_str() ).i( "id", id ).end(); }
			else if ( op == "rcact" )
			{
				W( "rcbarBegin" ).i( "id", id ).end();
				auto kind = o["do"].str();
				auto u = o["idx"].u( 0 );
				auto final = parseLayout( o["final"].str( "UNDEF" ) );
				if ( kind == "clearAtt" )
				{
					// an attachment of a pass, by its first view
					auto wanted = views.at( int( o.at( "view" ).i() ) );
					for ( auto & a : passes.at( int( o["pass"].i() ) )->pass->images )
						if ( a.view( 0u ) == wanted )
							RecordContext::clearAttachment( a, final )( rc, cb, u );
				}
				else
					bodyOf( o )( rc, cb, u );
				W( op.c_str() ).i( "id", id ).end();
			}
			else if ( op == "rcnext" )
			{
				LayerLayoutStatesHandler next;
				for ( auto & n : o["lays"].a )
					next.setLayoutState( views.at( int( n.at( "view" ).i() ) ), { parseLayout( n.at( "lay" ).str() ), { parseAccess( n["acc"] ), parseStages( n["st"] ) } } );
				rc.setNextPipelineState( { as.access, as.pipelineStage }, next.images );
				auto st = [&]( PipelineState const & p ){ return stateJ( { VK_IMAGE_LAYOUT_UNDEFINED, { p.access, p.pipelineStage } } ); };
				W( op.c_str() ).i( "id", id ).raw( "s", "[" + st( rc.getPrevPipelineState() ) + "," + st( rc.getCurrPipelineState() ) + "," + st( rc.getNextPipelineState() ) + "]" ).end();
			}
		}
		void addAtt( FramePass & pass, J const & a )
		{
			auto k = a.at( "k" ).str();
			auto bind = u32( a["bind"] );
			if ( a.has( "views" ) )
			{
				auto v = viewArr( a["views"] );
				if ( k == "sampled" )
				{
					J const & sd = a["samp"];
					if ( sd )
						pass.addSampledView( v, bind, sampler( sd ) );
					else
						pass.addSampledView( v, bind );
				}
				else if ( k == "implC" ) pass.addImplicitColourView( v, parseLayout( a.at( "lay" ).str() ) );
				else if ( k == "implD" ) pass.addImplicitDepthView( v, parseLayout( a.at( "lay" ).str() ) );
				else if ( k == "implDS" ) pass.addImplicitDepthStencilView( v, parseLayout( a.at( "lay" ).str() ) );
				else if ( k == "inStorage" ) pass.addInputStorageView( v, bind );
				else if ( k == "outStorage" ) pass.addOutputStorageView( v, bind );
				else if ( k == "clrStorage" ) pass.addClearableOutputStorageView( v, bind );
				else if ( k == "ioStorage" ) pass.addInOutStorageView( v, bind );
				else if ( k == "inTransfer" ) pass.addTransferInputView( v );
				else if ( k == "outTransfer" ) pass.addTransferOutputView( v );
				else if ( k == "ioTransfer" ) pass.addTransferInOutView( v );
				else if ( k == "clrTransfer" ) pass.addTransferInOutView( v, Attachment::Flag::Clearable );
				else if ( k == "ioTransferNT" ) pass.addTransferInOutView( v, Attachment::Flag::NoTransition );
				else if ( k == "inColour" ) pass.addInputColourView( v );
				else if ( k == "ioColour" )
				{
					if ( a.has( "blend" ) )
					{
						auto b = DefaultBlendState;
						b.blendEnable = VK_TRUE;
						b.srcColorBlendFactor = VkBlendFactor( a["blend"].i() );
						pass.addInOutColourView( v, b );
					}
					else
						pass.addInOutColourView( v );
				}
				else if ( k == "outColour" ) pass.addOutputColourView( v, clearV( a["val"] ) );
				else if ( k == "inDepth" ) pass.addInputDepthView( v );
				else if ( k == "ioDepth" ) pass.addInOutDepthView( v );
				else if ( k == "outDepth" ) pass.addOutputDepthView( v, clearV( a["val"] ) );
				else if ( k == "inStencil" ) pass.addInputStencilView( v );
				else if ( k == "ioStencil" ) pass.addInOutStencilView( v );
				else if ( k == "outStencil" ) pass.addOutputStencilView( v, clearV( a["val"] ) );
				else if ( k == "inDS" ) pass.addInputDepthStencilView( v );
				else if ( k == "ioDS" ) pass.addInOutDepthStencilView( v );
				else if ( k == "outDS" ) pass.addOutputDepthStencilView( v, clearV( a["val"] ) );
				else throw std::runtime_error( "scenario: att " + k );
			}
			else
			{
				Buffer b = *buffers.at( int( a.at( "buf" ).i() ) );
				auto off = u64( a["off"] );
				auto size = u64( a["size"] );
				AccessState acc{ parseAccess( a["acc"] ), parseStages( a["st"] ) };
				VkBufferView bv = a.has( "bv" ) ? bufViews.at( int( a["bv"].i() ) ) : VkBufferView{};
				if ( k == "implBuf" ) pass.addImplicitBuffer( b, off, size, acc );
				else if ( k == "implBufView" ) pass.addImplicitBufferView( b, bv, off, size, acc );
				else if ( k == "uniform" ) pass.addUniformBuffer( b, bind, off, size );
				else if ( k == "uniformView" ) pass.addUniformBufferView( b, bv, bind, off, size );
				else if ( k == "inBuf" ) pass.addInputStorageBuffer( b, bind, off, size );
				else if ( k == "outBuf" ) pass.addOutputStorageBuffer( b, bind, off, size );
				else if ( k == "clrBuf" ) pass.addClearableOutputStorageBuffer( b, bind, off, size );
				else if ( k == "ioBuf" ) pass.addInOutStorageBuffer( b, bind, off, size );
				else if ( k == "inBufView" ) pass.addInputStorageBufferView( b, bv, bind, off, size );
				else if ( k == "outBufView" ) pass.addOutputStorageBufferView( b, bv, bind, off, size );
				else if ( k == "clrBufView" ) pass.addClearableOutputStorageBufferView( b, bv, bind, off, size );
				else if ( k == "ioBufView" ) pass.addInOutStorageBufferView( b, bv, bind, off, size );
				else if ( k == "inTBuf" ) pass.addTransferInputBuffer( b, off, size );
				else if ( k == "outTBuf" ) pass.addTransferOutputBuffer( b, off, size );
				else if ( k == "ioTBuf" ) pass.addTransferInOutBuffer( b, off, size );
				else if ( k == "clrTBuf" ) pass.addTransferInOutBuffer( b, off, size, Attachment::Flag::Clearable );
				else throw std::runtime_error( "scenario: att " + k );
			}
		}
		static SamplerDesc sampler( J const & s )
		{
			return SamplerDesc{ VkFilter( s[0].i() ), VkFilter( s[1].i() ), VkSamplerMipmapMode( s[2].i() )
				, VkSamplerAddressMode( s[3].i() ), VkSamplerAddressMode( s[4].i() ), VkSamplerAddressMode( s[5].i() )
				, float( s[6].f() ), float( s[7].f() ), float( s[8].f() ) };
		}
		static VkPipelineShaderStageCreateInfoArray program( J const & p )
		{
			VkPipelineShaderStageCreateInfoArray r;
			for ( auto & s : p.a )
				r.push_back( { VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO, nullptr, 0u, VkShaderStageFlagBits( s[0].i() ), VkShaderModule( uint64_t( s[1].i() ) ), "main", nullptr } );
			return r;
		}
		template< typename Cfg >
		void pipeConfig( Cfg & c, PassState const & ps )
		{
			J const & cfg = ps.op["cfg"];
			std::vector< VkPipelineShaderStageCreateInfoArray > progs;
			for ( auto & p : cfg["progs"].a )
				progs.push_back( program( p ) );
			if ( cfg["creator"].b() )
			{
				auto copy = progs;
				c.programCreator( ProgramCreator{ uint32_t( copy.size() ), [copy]( uint32_t i ){ return copy[i]; } } );
			}
			else if ( progs.size() == 1 )
				c.program( progs[0] );
			else if ( !progs.empty() )
				c.programs( progs );
			if ( cfg.has( "layouts" ) )
			{
				std::vector< VkDescriptorSetLayout > l;
				for ( auto & x : cfg["layouts"].a )
					l.push_back( VkDescriptorSetLayout( uint64_t( x.i() ) ) );
				if ( l.size() == 1 )
					c.layout( l[0] );
				else
					c.layouts( l );
			}
		}
		static VkPipelineDepthStencilStateCreateInfo depthState( J const & j )
		{
			VkPipelineDepthStencilStateCreateInfo r{ VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO };
			r.depthTestEnable = j[0].u(), r.depthWriteEnable = j[1].u(), r.stencilTestEnable = j[2].u(), r.depthCompareOp = VkCompareOp( j[3].i() );
			return r;
		}
		VkPushConstantRange push( J const & p ) { return { p[0].u(), p[1].u(), p[2].u() }; }
		IndirectBuffer indirect( J const & j ) { return IndirectBuffer{ *buffers.at( int( j[0].i() ) ), j[1].u(), u64( j[2] ) }; }

		RunnablePassPtr makeRunnable( PassState & ps, FramePass const & fp, GraphContext & c, RunnableGraph & g )
		{
			auto p = &ps;
			J const & op = ps.op;
			J const & cfg = op["cfg"];
			auto kind = op["kind"].str( "custom" );
			ru::Config ru;
			ru.maxPassCount = op["maxpass"].u( 1 );
			ru.resettable = op["resettable"].b();
			for ( int j = 0; j < op["pre"].i(); ++j )
				ru.prePassAction( marker( "pre", ps.id, j ) );
			ru.prePassAction( marker( "begin", ps.id, 0 ) );
			ru.postPassAction( marker( "end", ps.id, 0 ) );
			for ( int j = 0; j < op["post"].i(); ++j )
				ru.postPassAction( marker( "post", ps.id, j ) );
			int j = 0;
			for ( auto & a : op["imp"].a )
				ru.implicitAction( views.at( int( a.at( "view" ).i() ) ), action( a, ps.id, j++ ) );
			auto init = [p]( uint32_t i ){ W( "init" ).i( "p", p->id ).i( "idx", mock::i32( i ) ).end(); };
			auto rec = [p]( RecordContext &, VkCommandBuffer cb, uint32_t i ){ W( "exec" ).i( "cb", H( cb ) ).i( "p", p->id ).i( "idx", mock::i32( i ) ).end(); };
			RunnablePass::GetPassIndexCallback idx{ [p](){ return p->index; } };
			RunnablePass::IsEnabledCallback en{ [p](){ return p->enabled; } };
			if ( kind == "custom" )
			{
				auto st = op.has( "st" ) ? parseStages( op["st"] ) : VkPipelineStageFlags( VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT );
				bool comp = op["compute"].b();
				return std::make_unique< RunnablePass >( fp, c, g
					, RunnablePass::Callbacks{ init, RunnablePass::GetPipelineStateCallback( [st](){ return crg::getPipelineState( st ); } ), rec, idx, en, RunnablePass::IsComputePassCallback( [comp](){ return comp; } ) }
					, ru );
			}
			if ( kind == "render" )
			{
				VkExtent2D sz{};
				if ( cfg.has( "size" ) )
					sz = { cfg["size"][0].u(), cfg["size"][1].u() };
				auto contents = VkSubpassContents( cfg["contents"].i() );
				return std::make_unique< RenderPass >( fp, c, g
					, RenderPass::Callbacks{ [p]( uint32_t i ){ W( "rpinit" ).i( "p", p->id ).i( "idx", mock::i32( i ) ).end(); }, rec, RenderPass::GetSubpassContentsCallback( [contents](){ return contents; } ), idx, en }
					, sz, ru );
			}
			if ( kind == "compute" )
			{
				cp::Config cc;
				pipeConfig( cc, ps );
				cc.getPassIndex( idx ).isEnabled( en ).recordInto( rec ).initialise( init );
				cc.end( [p]( RecordContext &, VkCommandBuffer cb, uint32_t i ){ W( "cfgend" ).i( "cb", H( cb ) ).i( "p", p->id ).i( "idx", mock::i32( i ) ).end(); } );
				if ( cfg.has( "gc" ) )
					cc.groupCountX( cfg["gc"][0].u() ).groupCountY( cfg["gc"][1].u() ).groupCountZ( cfg["gc"][2].u() );
				if ( cfg["cbx"].b() ) cc.getGroupCountX( cp::GetGroupCountCallback( [p](){ return p->gx; } ) );
				if ( cfg["cby"].b() ) cc.getGroupCountY( cp::GetGroupCountCallback( [p](){ return p->gy; } ) );
				if ( cfg["cbz"].b() ) cc.getGroupCountZ( cp::GetGroupCountCallback( [p](){ return p->gz; } ) );
				if ( cfg.has( "push" ) )
					cc.pushConstants( push( cfg["push"] ) );
				if ( cfg.has( "indirect" ) )
					cc.indirectBuffer( indirect( cfg["indirect"] ) );
				return std::make_unique< ComputePass >( fp, c, g, ru, cc );
			}
			if ( kind == "quad" )
			{
				rq::Config qc;
				pipeConfig( qc, ps );
				qc.passIndex( &p->index );
				if ( cfg["enptr"].b() ) qc.enabled( &p->enabled );
				else qc.isEnabled( en );
				qc.recordInto( rec );
				qc.end( [p]( RecordContext &, VkCommandBuffer cb, uint32_t i ){ W( "cfgend" ).i( "cb", H( cb ) ).i( "p", p->id ).i( "idx", mock::i32( i ) ).end(); } );
				if ( cfg.has( "size" ) ) qc.renderSize( { cfg["size"][0].u(), cfg["size"][1].u() } );
				if ( cfg.has( "pos" ) ) qc.renderPosition( { int32_t( cfg["pos"][0].i() ), int32_t( cfg["pos"][1].i() ) } );
				if ( cfg.has( "ds" ) ) qc.depthStencilState( depthState( cfg["ds"] ) );
				if ( cfg.has( "tex" ) ) qc.texcoordConfig( Texcoord{ cfg["tex"][0].b(), cfg["tex"][1].b() } );
				if ( cfg.has( "inst" ) ) qc.instances( cfg["inst"].u() );
				if ( cfg.has( "indirect" ) ) qc.indirectBuffer( indirect( cfg["indirect"] ) );
				if ( cfg.has( "push" ) ) qc.m_baseConfig.pushConstants( push( cfg["push"] ) );
				return std::make_unique< RenderQuad >( fp, c, g, ru, std::move( qc ) );
			}
			if ( kind == "mesh" )
			{
				rm::Config mc;
				pipeConfig( mc, ps );
				mc.getPassIndex( idx ).isEnabled( en ).recordInto( rec );
				mc.end( [p]( RecordContext &, VkCommandBuffer cb, uint32_t i ){ W( "cfgend" ).i( "cb", H( cb ) ).i( "p", p->id ).i( "idx", mock::i32( i ) ).end(); } );
				if ( cfg.has( "size" ) ) mc.renderSize( { cfg["size"][0].u(), cfg["size"][1].u() } );
				if ( cfg.has( "pos" ) ) mc.renderPosition( { int32_t( cfg["pos"][0].i() ), int32_t( cfg["pos"][1].i() ) } );
				if ( cfg.has( "indirect" ) ) mc.indirectBuffer( indirect( cfg["indirect"] ) );
				if ( cfg.has( "ds" ) ) mc.depthStencilState( depthState( cfg["ds"] ) );
				if ( cfg.has( "vb" ) )
				{
					VkVertexInputBindingDescriptionArray vb;
					VkVertexInputAttributeDescriptionArray va;
					for ( auto & x : cfg["vbinds"].a )
						vb.push_back( { x[0].u(), x[1].u(), VkVertexInputRate( x[2].i() ) } );
					for ( auto & x : cfg["vattrs"].a )
						va.push_back( { x[0].u(), x[1].u(), VkFormat( x[2].i() ), x[3].u() } );
					mc.vertexBuffer( VertexBuffer{ *buffers.at( int( cfg["vb"].i() ) ), VkDeviceMemory{}, va, vb } );
				}
				if ( cfg.has( "ib" ) ) mc.indexBuffer( IndexBuffer{ *buffers.at( int( cfg["ib"].i() ) ) } );
				mc.getPrimitiveCount( GetPrimitiveCountCallback( [p](){ return p->prim; } ) );
				mc.getVertexCount( GetVertexCountCallback( [p](){ return p->verts; } ) );
				mc.getIndexType( GetIndexTypeCallback( [p](){ return VkIndexType( p->itype ); } ) );
				auto cull = VkCullModeFlags( cfg["cull"].i() );
				mc.getCullMode( GetCullModeCallback( [cull](){ return cull; } ) );
				if ( cfg.has( "push" ) ) mc.m_baseConfig.pushConstants( push( cfg["push"] ) );
				return std::make_unique< RenderMesh >( fp, c, g, ru, std::move( mc ) );
			}
			if ( kind == "copy" )
			{
				if ( cfg.has( "final" ) )
					return std::make_unique< ImageCopy >( fp, c, g, ext3( cfg.at( "ext" ) ), parseLayout( cfg["final"].str() ), ru, idx, en );
				return std::make_unique< ImageCopy >( fp, c, g, ext3( cfg.at( "ext" ) ), ru, idx, en );
			}
			if ( kind == "blit" )
				return std::make_unique< ImageBlit >( fp, c, g, off3( cfg.at( "so" ) ), ext3( cfg.at( "se" ) ), off3( cfg.at( "do" ) ), ext3( cfg.at( "de" ) ), VkFilter( cfg["filter"].i() ), ru, idx, en );
			if ( kind == "bcopy" )
				return std::make_unique< BufferCopy >( fp, c, g, u64( cfg["off"] ), u64( cfg["size"] ), ru, idx, en );
			if ( kind == "b2i" )
				return std::make_unique< BufferToImageCopy >( fp, c, g, off3( cfg.at( "io" ) ), ext3( cfg.at( "ie" ) ), ru, idx, en );
			if ( kind == "i2b" )
				return std::make_unique< ImageToBufferCopy >( fp, c, g, off3( cfg.at( "io" ) ), ext3( cfg.at( "ie" ) ), ru, idx, en );
			if ( kind == "mips" )
				return std::make_unique< GenerateMipmaps >( fp, c, g, parseLayout( cfg["final"].str( "UNDEF" ) ), ru, idx, en );
			throw std::runtime_error( "scenario: kind " + kind );
		}
		static std::string dataJ( ImageViewId v )
		{
			auto & d = *v.data;
			std::string src = "[";
			for ( size_t i = 0; i < d.source.size(); ++i )
				src += ( i ? "," : "" ) + std::to_string( d.source[i].id );
			return "{\"id\":" + std::to_string( v.id ) + ",\"img\":" + std::to_string( d.image.id ) + ",\"vt\":" + std::to_string( d.info.viewType ) + ",\"fmt\":" + std::to_string( d.info.format )
				+ ",\"asp\":" + mock::aspects( d.info.subresourceRange.aspectMask ) + ",\"r\":" + rangeJ( d.info.subresourceRange ) + ",\"src\":" + src + "]}";
		}
		int viewKey( ImageViewId v )
		{
			for ( auto & it : views )
				if ( it.second.id == v.id )
					return it.first;
			return 0;
		}
		int bufKey( Buffer const & b )
		{
			for ( auto & it : buffers )
				if ( it.second->buffer() == b.buffer() )
					return it.first;
			return 0;
		}
		int passKey( FramePass const * f )
		{
			if ( !f )
				return 0;
			for ( auto & it : passes )
				if ( it.second->pass == f )
					return it.first;
			return -1;
		}
		static std::string lid( Attachment const & a )
		{
			return std::to_string( a.imageAttach.views.empty() ? 0u : a.view().id );
		}
		std::string transJ( AttachmentTransitions const & t )
		{
			std::string r = "{\"v\":[";
			bool first = true;
			for ( auto & x : t.viewTransitions )
			{
				r += std::string( first ? "" : "," ) + "[" + std::to_string( passKey( x.outputAttach.pass ) ) + "," + std::to_string( passKey( x.inputAttach.pass ) ) + "," + std::to_string( x.data.id ) + "," + lid( x.outputAttach ) + "," + lid( x.inputAttach ) + "]";
				first = false;
			}
			r += "],\"b\":[";
			first = true;
			for ( auto & x : t.bufferTransitions )
			{
				r += std::string( first ? "" : "," ) + "[" + std::to_string( passKey( x.outputAttach.pass ) ) + "," + std::to_string( passKey( x.inputAttach.pass ) ) + "," + std::to_string( bufKey( x.data ) ) + "]";
				first = false;
			}
			return r + "]}";
		}
		void dumpAttach( FramePass const & fp, int pid )
		{
			auto one = [&]( Attachment const & a, int i )
			{
				W w( "attach" );
				w.i( "p", pid ).i( "i", i ).b( "image", a.isImage() ).b( "buffer", a.isBuffer() ).b( "in", a.isInput() ).b( "out", a.isOutput() ).b( "nt", a.isNoTransition() )
					.b( "clr", a.isClearable() ).i( "bind", mock::i32( a.binding ) ).str( "name", a.name ).i( "owner", passKey( a.pass ) );
				w.b( "sampled", a.isSampledView() ).b( "storage", a.isStorageView() ).b( "transfer", a.isTransferView() ).b( "transition", a.isTransitionView() )
					.b( "depth", a.isDepthAttach() ).b( "stencil", a.isStencilAttach() ).b( "colour", a.isImage() && a.isColourAttach() )
					.b( "clrImg", a.isClearableImage() ).b( "clrBuf", a.isClearableBuffer() )
					.b( "sin", a.isStencilInputAttach() ).b( "sout", a.isStencilOutputAttach() )
					.b( "ubuf", a.isUniformBuffer() ).b( "sbuf", a.isStorageBuffer() ).b( "tbuf", a.isTransferBuffer() ).b( "trbuf", a.isTransitionBuffer() ).b( "bview", a.isBufferView() );
				w.raw( "acc", mock::access( a.getAccessMask() ) ).raw( "stG", mock::stages( a.getPipelineStageFlags( false ) ) ).raw( "stC", mock::stages( a.getPipelineStageFlags( true ) ) );
				bool im = a.isImage();
				w.b( "inOut", a.isInOut() ).b( "uview", a.isUniformBufferView() ).b( "sview", a.isStorageBufferView() ).b( "trview", a.isTransitionBufferView() )
					.b( "tbufIn", a.isTransferInputBuffer() ).b( "tbufOut", a.isTransferOutputBuffer() )
					.b( "colIn", im && a.isColourInputAttach() ).b( "colOut", im && a.isColourOutputAttach() ).b( "colInOut", im && a.isColourInOutAttach() )
					.b( "depIn", a.isDepthInputAttach() ).b( "depOut", a.isDepthOutputAttach() ).b( "depInOut", a.isDepthInOutAttach() )
					.b( "stInOut", a.isStencilInOutAttach() ).b( "dsIn", a.isDepthStencilInputAttach() ).b( "dsOut", a.isDepthStencilOutputAttach() )
					.b( "dsInOut", a.isDepthStencilInOutAttach() ).b( "ds", im && a.imageAttach.isDepthStencilAttach() )
					.b( "trIn", a.isTransferInputView() ).b( "trOut", a.isTransferOutputView() ).b( "sgIn", a.isStorageInputView() ).b( "sgOut", a.isStorageOutputView() );
				bool desc = a.isSampledView() || a.isStorageView() || a.isUniformBuffer() || a.isStorageBuffer();
				w.i( "dt", desc ? int64_t( a.getDescriptorType() ) : -1 );
				if ( a.isImage() )
				{
					w.str( "lay0", mock::layout( a.getImageLayout( false ) ) ).str( "lay1", mock::layout( a.getImageLayout( true ) ) );
					w.raw( "ops", mock::ints( { a.getLoadOp(), a.getStoreOp(), a.getStencilLoadOp(), a.getStencilStoreOp() } ) );
					std::vector< int64_t > vs;
					for ( uint32_t k = 0; k < a.getViewCount(); ++k )
						vs.push_back( viewKey( a.view( k ) ) );
					w.i( "n", a.getViewCount() ).raw( "views", mock::ints( vs ) );
				}
				else
				{
					w.i( "n", a.getBufferCount() ).raw( "range", mock::ints( { mock::i32( a.getBufferRange().offset ), mock::i32( a.getBufferRange().size ) } ) );
					std::vector< int64_t > vs;
					for ( uint32_t k = 0; k < a.getBufferCount(); ++k )
						vs.push_back( H( a.buffer( k ) ) );
					w.raw( "bufs", mock::ints( vs ) );
				}
				w.end();
			};
			int i = 0;
			for ( auto & a : fp.images )
				one( a, i++ );
			i = 0;
			for ( auto & a : fp.buffers )
				one( a, 1000 + i++ );
		}

		void exec( J const & o );
		void doOp( J const & o );
		void threads( J const & o );
		void destroyRun( int g )
		{
			auto it = runs.find( g );
			if ( it == runs.end() || !it->second )
				return;
			W( "destroyRun" ).i( "g", g ).end();
			it->second.reset();
			for ( auto & p : passes )
				if ( p.second->op["graph"].i() == g )
					p.second->run = nullptr;
			W( "destroyedRun" ).i( "g", g ).end();
		}
		std::string captureLeaks( std::function< void() > f )
		{
			std::fflush( stderr );
			int saved = dup( 2 );
			char path[] = "/tmp/crgleakXXXXXX";
			int fd = mkstemp( path );
			unlink( path );
			dup2( fd, 2 );
			f();
			std::fflush( stderr );
			dup2( saved, 2 );
			close( saved );
			std::string r;
			lseek( fd, 0, SEEK_SET );
			char buf[4096];
			ssize_t n;
			while ( ( n = read( fd, buf, sizeof( buf ) ) ) > 0 )
				r.append( buf, size_t( n ) );
			close( fd );
			return r;
		}
		void dropCtx( int id )
		{
			auto it = contexts.find( id );
			if ( it == contexts.end() )
				return;
			auto txt = captureLeaks( [&](){ it->second.reset(); } );
			contexts.erase( it );
			// "Leaked [type](name), allocation stack:\n<stack>"
			std::string items = "[";
			size_t pos = 0;
			bool first = true;
			while ( ( pos = txt.find( "Leaked [", pos ) ) != std::string::npos )
			{
				auto a = pos + 8;
				auto b = txt.find( "](", a );
				auto c = txt.find( "), allocation stack:", b );
				if ( b == std::string::npos || c == std::string::npos )
					break;
				auto e = txt.find( "Leaked [", c );
				auto st = txt.substr( c + 21, e == std::string::npos ? e : e - c - 21 );
				items += std::string( first ? "" : "," ) + "[" + mock::q( txt.substr( a, b - a ) ) + "," + mock::q( txt.substr( b + 2, c - b - 2 ) ) + "," + mock::q( st ) + "]";
				first = false;
				pos = c;
			}
			W( "leaks" ).i( "ctx", id ).raw( "items", items + "]" ).end();
		}
		void teardown()
		{
			W( "teardown" ).end();
			for ( auto & t : timers )
				t.second.reset();
			timers.clear();
			std::vector< int > ids;
			for ( auto & r : runs )
				ids.push_back( r.first );
			for ( auto id : ids )
				destroyRun( id );
			runs.clear();
			recs.clear();
			caches.clear();
			mcaches.clear();
			sig1.clear();
			sig0.clear();
			graphs.clear();
			ids.clear();
			for ( auto & c : contexts )
				ids.push_back( c.first );
			for ( auto id : ids )
				dropCtx( id );
			logged.clear();
			auto txt = captureLeaks( [&](){ handler.reset(); } );
			std::string left = "[";
			for ( auto & l : logged )
				left += ( left.size() > 1 ? "," : "" ) + mock::q( l );
			W( "handlerGone" ).str( "msg", txt.substr( 0, 300 ) ).raw( "left", left + "]" ).end();
		}
	};
	template< typename F >
	void guarded( char const * what, int id, F f )
	{
		try
		{
			f();
			W( what ).i( "id", id ).b( "ok", true ).str( "err", "" ).end();
		}
		catch ( std::exception & exc )
		{
			lastOk = false;
			W( what ).i( "id", id ).b( "ok", false ).str( "err", exc.what() ).end();
		}
	}

	struct Walker : GraphVisitor
	{
		Scenario & s;
		std::set< ConstGraphAdjacentNode > seen;
		explicit Walker( Scenario & s ) : s{ s } {}
		void visit( GraphNode const * n, int self )
		{
			for ( auto nx : n->getNext() )
			{
				W( "edge" ).i( "a", self ).i( "b", s.passKey( getFramePass( *nx ) ) ).raw( "t", self ? s.transJ( nx->getInputAttaches( n ) ) : std::string{ "{\"v\":[],\"b\":[]}" } ).end();
				if ( seen.insert( nx ).second )
					nx->accept( this );
			}
		}
		void visitRootNode( RootNode const * n )override { visit( n, 0 ); }
		void visitFramePassNode( FramePassNode const * n )override { visit( n, s.passKey( &n->getFramePass() ) ); }
	};

	template< typename FnT >
	bool Scenario::sigOp( SigWorld< FnT > & w, std::string const & op, int id, J const & o )
	{
		auto & signals = w.signals;
		auto & conns = w.conns;
		using Conn = SignalConnection< typename SigWorld< FnT >::Sig >;

		if ( op == "sig" ) { signals[id] = std::make_unique< typename SigWorld< FnT >::Sig >(); W( "sig" ).i( "id", id ).end(); }
		else if ( op == "sigdel" ) { signals.at( id ).reset(); W( "sigdel" ).i( "id", id ).end(); }
		else if ( op == "connect" )
		{
			auto s = int( o.at( "sig" ).i() );
			auto slot = int( o.at( "slot" ).i() );
			auto acts = std::make_shared< std::vector< J > >( o["acts"].a );
			auto call = [this, slot, acts]( int arg )
			{
				W( "called" ).i( "slot", slot ).i( "arg", arg ).end();
				// The slot may be destroyed by what it does.
				auto todo = std::move( *acts );
				auto self = this;
				acts->clear();
				for ( auto & a : todo )
					self->doOp( a );
			};
			FnT fn;
			if constexpr ( std::is_same_v< FnT, std::function< void() > > )
				fn = [call](){ call( 0 ); };
			else
				fn = [call]( std::string v ){ std::string mine = std::move( v ); call( mine.empty() ? -1 : std::stoi( mine ) ); };
			if ( o["assign"].b() && conns.count( id ) && conns[id] )
				*conns[id] = signals.at( s )->connect( fn );
			else
				conns[id] = std::make_unique< Conn >( signals.at( s )->connect( fn ) );
			W( "connect" ).i( "c", id ).i( "sig", s ).i( "slot", slot ).b( "valid", conns[id]->isValid() ).end();
		}
		else if ( op == "disconnect" )
		{
			if ( !conns.count( id ) || !conns[id] )
				return true;
			conns.at( id )->disconnect();
			W( "disconnect" ).i( "c", id ).b( "valid", conns.at( id )->isValid() ).end();
		}
		else if ( op == "condel" ) { conns.at( id ).reset(); W( "condel" ).i( "c", id ).end(); }
		else if ( op == "conmove" )
		{
			auto from = int( o.at( "from" ).i() );
			if ( o["assign"].b() && conns.count( id ) && conns[id] )
				*conns[id] = std::move( *conns.at( from ) );
			else
				conns[id] = std::make_unique< Conn >( std::move( *conns.at( from ) ) );
			W( "conmove" ).i( "c", id ).i( "from", from ).b( "valid", conns[id]->isValid() ).b( "fromValid", conns.at( from )->isValid() ).end();
		}
		else if ( op == "valid" ) W( "valid" ).i( "c", id ).b( "valid", conns.at( id )->isValid() ).end();
		else if ( op == "emit" )
		{
			W( "emit" ).i( "sig", id ).i( "arg", o["arg"].i() ).end();
			if constexpr ( std::is_same_v< FnT, std::function< void() > > )
				( *signals.at( id ) )();
			else
				( *signals.at( id ) )( std::to_string( o["arg"].i() ) );
			W( "emitted" ).i( "sig", id ).end();
		}
		else
			return false;
		return true;
	}

	// Requests made by several threads to what they share.
	void Scenario::threads( J const & o )
	{
		using mock::thr::Guard;
		using mock::thr::Lib;
		struct Mine
		{
			std::vector< VkSampler > samplers;
			std::vector< VertexBuffer const * > quads;
		};
		auto & c = ctx( o );
		auto const & progs = o.at( "progs" ).a;
		std::vector< Mine > mine( progs.size() );
		auto dataNum = [this]( void const * p )
		{
			Guard g;
			auto it = std::find( datas.begin(), datas.end(), p );
			if ( it == datas.end() )
				it = datas.insert( it, p );
			return int64_t( it - datas.begin() + 1 );
		};
		for ( auto & i : images ) dataNum( i.second.data );
		for ( auto & v : views ) dataNum( v.second.data );
		std::vector< std::function< void() > > bodies;
		for ( size_t t = 0; t < progs.size(); ++t )
			bodies.push_back( [this, t, &progs, &mine, &c, &dataNum]()
				{
					auto & m = mine[t];
					for ( auto const & r : progs[t].a )
					{
						auto k = r.at( "k" ).str();
						auto id = int( r["id"].i() );
						auto name = r["name"].str();
						{ Guard g; W( "inv" ).str( "k", k ).i( "id", id ).str( "name", name ).end(); }
						int64_t h = 0, x = 0;
						bool ok = true;
						auto asReg = [&]( auto handle )
						{
							Lib l;
							if ( k == "reg" ) GraphContext::stRegisterObject( c, name, handle );
							else if ( k == "rename" ) GraphContext::stRegisterObjectName( c, name, handle );
							else GraphContext::stUnregisterObject( c, handle );
						};
						try
						{
							if ( k == "newimage" )
							{
								ImageData d{ name, 0u, VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 16u, 16u, 1u }, 0xFFu, 4u, 2u };
								Lib l;
								auto i = handler->createImageId( d );
								h = i.id;
								x = dataNum( i.data );
								ok = i.data && *i.data == d;
							}
							else if ( k == "newview" )
							{
								ImageViewData d{ name, images.at( int( r.at( "img" ).i() ) ), 0u, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 1u, u32( r["mip"] ), 1u, 0u, 1u } };
								Lib l;
								auto i = handler->createViewId( d );
								h = i.id;
								x = dataNum( i.data );
								ok = i.data && *i.data == d;
							}
							else if ( k == "image" ) { Lib l; auto q = handler->createImage( c, images.at( id ) ); h = H( q.first ); x = q.second; }
							else if ( k == "view" ) { Lib l; auto q = handler->createImageView( c, views.at( id ) ); h = H( q.first ); x = q.second; }
							else if ( k == "dropimage" ) { Lib l; handler->destroyImage( c, images.at( id ) ); }
							else if ( k == "dropview" ) { Lib l; handler->destroyImageView( c, views.at( id ) ); }
							else if ( k == "sampler" )
							{
								SamplerDesc d{};
								Lib l;
								auto s = handler->createSampler( c, name, d );
								h = H( s );
								m.samplers.push_back( s );
							}
							else if ( k == "dropsampler" )
							{
								if ( !m.samplers.empty() )
								{
									auto s = m.samplers.back();
									m.samplers.pop_back();
									h = H( s );
									Lib l;
									handler->destroySampler( c, s );
								}
							}
							else if ( k == "quad" )
							{
								Texcoord d{};
								Lib l;
								auto q = handler->createQuadTriVertexBuffer( c, name, true, d );
								m.quads.push_back( q );
								h = H( q->buffer.buffer() );
								x = H( q->memory );
							}
							else if ( k == "dropquad" )
							{
								if ( !m.quads.empty() )
								{
									auto q = m.quads.back();
									m.quads.pop_back();
									h = H( q->buffer.buffer() );
									Lib l;
									handler->destroyVertexBuffer( c, q );
								}
							}
							else if ( k == "memtype" ) { Lib l; h = c.deduceMemoryType( ~0u, 2u ); }
							else if ( k == "reg" || k == "rename" || k == "unreg" )
							{
								auto v = uint64_t( 5000000 + id );
								if ( r["t"].str( "image" ) == "image" ) asReg( VkImage( v ) );
								else asReg( VkBuffer( v ) );
							}
							else if ( k == "compile" )
							{
								W( "compiling" ).i( "g", id ).end();
								std::string err;
								auto & run = runs.at( id );
								try
								{
									Lib l;
									run = graphs.at( id )->compile( c );
								}
								catch ( std::exception & exc )
								{
									err = exc.what();
									ok = false;
								}
								W( "compiled" ).i( "id", id ).b( "ok", ok ).str( "err", err ).end();
								for ( auto i : r["imap"].a )
									if ( run )
									{
										VkImage img;
										{ Lib l; img = run->createImage( images.at( int( i.i() ) ) ); }
										W( "imap" ).i( "id", i.i() ).i( "h", H( img ) ).end();
									}
							}
							else if ( k == "record" || k == "run" )
							{
								if ( auto & g = runs.at( id ) )
								{
									W( "runBegin" ).i( "g", id ).b( "submit", k == "run" ).raw( "waits", "[]" ).end();
									SemaphoreWaitArray ret;
									std::string err;
									try
									{
										Lib l;
										if ( k == "run" ) ret = g->run( VkQueue( 900u + t ) );
										else g->record();
									}
									catch ( std::exception & exc )
									{
										err = exc.what();
										ok = false;
									}
									std::string s = "[";
									for ( auto & w : ret )
										s += ( s.size() > 1 ? ",[" : "[" ) + std::to_string( w.semaphore ? H( w.semaphore ) : 0 ) + "," + mock::stages( w.dstStageMask ) + "]";
									W( "runEnd" ).i( "g", id ).b( "ok", ok ).raw( "ret", s + "]" ).str( "err", err ).end();
								}
							}
							else if ( k == "destroy" )
							{
								if ( auto & g = runs.at( id ) )
								{
									W( "destroyRun" ).i( "g", id ).end();
									{ Lib l; g.reset(); }
									for ( auto & p : passes )
										if ( p.second->op["graph"].i() == id )
											p.second->run = nullptr;
									W( "destroyedRun" ).i( "g", id ).end();
								}
							}
							else throw std::logic_error( "scenario: request " + k );
						}
						catch ( std::logic_error & ) { throw; }
						catch ( std::exception & ) { ok = false; }
						{ Guard g; W( "ret" ).str( "k", k ).i( "id", id ).i( "h", h ).i( "x", x ).b( "ok", ok ).end(); }
					}
				} );
		for ( auto & p : progs )
			for ( auto & r : p.a )
				if ( r.at( "k" ).str() == "compile" )
					runs[int( r.at( "id" ).i() )];
		std::vector< std::array< int, 2 > > pre;
		for ( auto & p : o["pre"].a )
			pre.push_back( { int( p[0].i() ), int( p[1].i() ) } );
		auto before = mock::thr::races();
		W( "threads" ).i( "n", int64_t( progs.size() ) ).end();
		auto points = mock::thr::run( std::move( bodies ), std::move( pre ) );
		W( "joined" ).i( "races", mock::thr::races() - before ).raw( "points", mock::ints( points ) ).end();
	}

	void Scenario::exec( J const & o )
	{
		try
		{
			doOp( o );
		}
		catch ( std::exception & exc )
		{
			lastOk = false;
			W( "opthrow" ).str( "op", o["op"].str() ).i( "id", o["id"].i( o["graph"].i() ) ).str( "err", exc.what() ).end();
		}
	}

	void Scenario::doOp( J const & o )
	{
		auto op = o.at( "op" ).str();
		auto id = int( o["id"].i() );
		if ( op == "ctx" ) makeCtx( id, o );
		else if ( op == "dropctx" ) dropCtx( id );
		else if ( op == "faulty" )
		{
			// The n-th call which may fail does; then once more without failure.
			for ( auto n : { o["n"].i(), int64_t( -1 ) } )
			{
				W( "arm" ).i( "n", n ).str( "op", o.at( "do" ).at( "op" ).str() ).end();
				mock::failIn = n;
				mock::failed = false;
				lastOk = true;
				exec( o.at( "do" ) );
				mock::failIn = -1;
				W( "armed" ).b( "fired", mock::failed ).b( "ok", lastOk ).end();
				if ( !mock::failed || !o["retry"].b( true ) )
					break;
			}
		}
		else if ( op == "membits" ) { mock::imageMemBits = u32( o["img"], 0 ); mock::bufferMemBits = u32( o["buf"], 0 ); }
		else if ( op == "image" )
		{
			auto t = VkImageType( o["type"].i( 1 ) );
			ImageData d{ o["name"].str( "I" + std::to_string( id ) ), o["flags"].u(), t, VkFormat( o["fmt"].i() ), ext3( o.at( "ext" ) ), o["usage"].u( 0xFF ), o["mips"].u( 1 ), o["layers"].u( 1 ), VkSampleCountFlagBits( o["samples"].u( 1 ) ), VkImageTiling( o["tiling"].u() ) };
			auto r = o.has( "graph" ) ? graphs.at( int( o["graph"].i() ) )->createImage( d ) : handler->createImageId( d );
			images[id] = r;
			W( "image" ).i( "id", id ).i( "lid", r.id ).b( "same", r.data && *r.data == d ).end();
		}
		else if ( op == "view" )
		{
			ImageViewData d{ o["name"].str( "V" + std::to_string( id ) ), images.at( int( o.at( "img" ).i() ) ), o["flags"].u(), VkImageViewType( o["vt"].i( 1 ) ), VkFormat( o["fmt"].i() ), parseRange( o.at( "asp" ).str(), o.at( "r" ) ) };
			if ( o.has( "swz" ) )
				d.info.components = { VkComponentSwizzle( o["swz"][0].i() ), VkComponentSwizzle( o["swz"][1].i() ), VkComponentSwizzle( o["swz"][2].i() ), VkComponentSwizzle( o["swz"][3].i() ) };
			auto r = o.has( "graph" ) ? graphs.at( int( o["graph"].i() ) )->createView( d ) : handler->createViewId( d );
			views[id] = r;
			W( "view" ).i( "id", id ).i( "lid", r.id ).raw( "d", dataJ( r ) ).end();
		}
		else if ( op == "merge" )
		{
			auto v = viewArr( o.at( "views" ) );
			auto r = passes.at( int( o.at( "pass" ).i() ) )->pass->mergeViews( v, o["mm"].b( true ), o["ml"].b( true ) );
			std::vector< int64_t > src;
			for ( auto & x : v )
				src.push_back( x.id );
			views[id] = r;
			W( "merge" ).i( "id", id ).raw( "d", dataJ( r ) ).raw( "lids", mock::ints( src ) ).end();
		}
		else if ( op == "mergeatt" )
		{
			// The attachment obtained by keeping one merged view of an existing attachment.
			auto & fp = *passes.at( int( o.at( "pass" ).i() ) )->pass;
			Attachment a{ views.at( int( o.at( "view" ).i() ) ), fp.images.at( o["i"].u() ) };
			W( "mergedAtt" ).i( "p", o["pass"].i() ).i( "i", o["i"].i() ).i( "view", viewKey( a.view() ) ).i( "n", a.getViewCount() ).b( "in", a.isInput() ).b( "out", a.isOutput() ).i( "bind", mock::i32( a.binding ) ).end();
		}
		else if ( op == "resolve" )
		{
			auto v = views.at( int( o.at( "view" ).i() ) );
			auto r = resolveView( v, o["index"].u() );
			W( "resolved" ).i( "view", o["view"].i() ).i( "index", o["index"].i() ).i( "got", viewKey( r ) ).end();
		}
		else if ( op == "buffer" )
		{
			VkBufferArray hs;
			std::vector< int64_t > nums;
			for ( uint32_t i = 0; i < o["n"].u( 1 ); ++i )
			{
				hs.push_back( VkBuffer( mock::newHiHandle() ) );
				nums.push_back( H( hs.back() ) );
			}
			buffers[id] = std::make_unique< Buffer >( hs, o["name"].str( "B" + std::to_string( id ) ) );
			W( "buffer" ).i( "id", id ).raw( "hs", mock::ints( nums ) ).end();
		}
		else if ( op == "bufview" )
		{
			bufViews[id] = VkBufferView( mock::newHandle() );
			W( "bufview" ).i( "id", id ).i( "h", H( bufViews[id] ) ).end();
		}
		else if ( op == "sem" )
		{
			sems[id] = VkSemaphore( mock::newHandle() );
			W( "sem" ).i( "id", id ).i( "h", H( sems[id] ) ).end();
		}
		else if ( op == "graph" )
		{
			graphs[id] = std::make_unique< FrameGraph >( *handler, o["name"].str( "G" + std::to_string( id ) ) );
			W( "graph" ).i( "id", id ).end();
		}
		else if ( op == "group" )
		{
			auto name = o["name"].str( "grp" + std::to_string( id ) );
			auto & g = o.has( "parent" ) ? groups.at( int( o["parent"].i() ) )->createPassGroup( name ) : graphs.at( int( o.at( "graph" ).i() ) )->createPassGroup( name );
			int same = 0;
			for ( auto & x : groups )
				if ( x.second == &g && !same )
					same = x.first;
			groups[id] = &g;
			W( "group" ).i( "id", id ).i( "same", same ).i( "gid", g.id ).str( "name", g.getName() ).str( "full", g.getFullName() ).end();
		}
		else if ( op == "pass" )
		{
			auto ps = std::make_unique< PassState >();
			ps->id = id;
			ps->op = o;
			ps->enabled = o["enabled"].b( true );
			ps->index = o["index"].u();
			auto p = ps.get();
			auto name = o["name"].str( "P" + std::to_string( id ) );
			RunnablePassCreator creator = [this, p]( FramePass const & fp, GraphContext & c, RunnableGraph & g )
			{
				auto r = makeRunnable( *p, fp, c, g );
				p->run = r.get();
				W( "created" ).i( "p", p->id ).end();
				return r;
			};
			try
			{
				auto & fp = o.has( "group" ) ? groups.at( int( o["group"].i() ) )->createPass( name, creator ) : graphs.at( int( o.at( "graph" ).i() ) )->createPass( name, creator );
				ps->pass = &fp;
				passes[id] = std::move( ps );
				for ( auto & d : o["deps"].a )
					fp.addDependency( *passes.at( int( d.i() ) )->pass );
				for ( auto & m : o["merges"].a )
					doOp( m );
				for ( auto & a : o["atts"].a )
					addAtt( fp, a );
				W( "pass" ).i( "id", id ).b( "ok", true ).i( "lid", fp.id ).str( "name", fp.getName() ).str( "full", fp.getFullName() ).str( "gname", fp.getGroupName() ).str( "err", "" ).end();
				W( "created0" ).i( "id", id ).end();
			}
			catch ( std::exception & exc )
			{
				W( "pass" ).i( "id", id ).b( "ok", false ).i( "lid", -1 ).str( "name", "" ).str( "full", "" ).str( "gname", "" ).str( "err", exc.what() ).end();
			}
		}
		else if ( op == "dep" ) passes.at( id )->pass->addDependency( *passes.at( int( o.at( "on" ).i() ) )->pass );
		else if ( op == "att" ) addAtt( *passes.at( id )->pass, o.at( "att" ) );
		else if ( op == "dependsOn" )
		{
			W( "dependsOn" ).i( "p", id ).i( "on", o["on"].i() ).b( "r", passes.at( id )->pass->dependsOn( *passes.at( int( o.at( "on" ).i() ) )->pass ) ).end();
		}
		else if ( op == "graphdep" ) graphs.at( id )->addDependency( *graphs.at( int( o.at( "on" ).i() ) ) );
		else if ( op == "input" || op == "output" )
		{
			auto & g = *graphs.at( id );
			auto ls = makeLayoutState( parseLayout( o.at( "lay" ).str() ) );
			if ( op == "input" ) g.addInput( views.at( int( o.at( "view" ).i() ) ), ls );
			else g.addOutput( views.at( int( o.at( "view" ).i() ) ), ls );
		}
		else if ( op == "compile" )
		{
			W( "compiling" ).i( "g", id ).end();
			auto & c = ctx( o );
			guarded( "compiled", id, [&](){ runs[id] = graphs.at( id )->compile( c ); } );
			mock::failIn = -1; // the requests below aren't part of the compilation
			if ( !runs.count( id ) || !runs[id] )
				for ( auto & p : passes )
					if ( p.second->pass && &p.second->pass->graph == graphs.at( id ).get() )
						p.second->run = nullptr;
			if ( runs.count( id ) && runs[id] )
			{
				for ( auto i : o["imap"].a )
				{
					auto k = int( i.i() );
					W( "imap" ).i( "id", k ).i( "h", H( runs[id]->createImage( images.at( k ) ) ) ).end();
				}
				for ( auto i : o["vmap"].a )
				{
					auto k = int( i.i() );
					W( "vmap" ).i( "id", k ).i( "h", H( runs[id]->createImageView( views.at( k ) ) ) ).end();
				}
			}
		}
		else if ( op == "set" )
		{
			auto & p = *passes.at( id );
			if ( o.has( "enabled" ) ) p.enabled = o["enabled"].b();
			if ( o.has( "index" ) ) p.index = o["index"].u();
			if ( o.has( "g" ) ) { p.gx = o["g"][0].u(); p.gy = o["g"][1].u(); p.gz = o["g"][2].u(); }
			if ( o.has( "prim" ) ) p.prim = o["prim"].u();
			if ( o.has( "verts" ) ) p.verts = o["verts"].u();
			if ( o.has( "itype" ) ) p.itype = o["itype"].u();
			W( "set" ).i( "p", id ).b( "enabled", p.enabled ).i( "idx", p.index ).raw( "g", mock::ints( { p.gx, p.gy, p.gz } ) ).i( "prim", p.prim ).i( "verts", p.verts ).i( "itype", p.itype ).end();
		}
		else if ( op == "run" || op == "record" )
		{
			auto & r = runs.at( id );
			if ( !r )
				return;
			SemaphoreWaitArray given;
			for ( auto & x : o["wait"].a )
				given.push_back( { x[0].i() ? sems.at( int( x[0].i() ) ) : VkSemaphore{}, parseStages( x[1] ) } );
			auto waitJ = []( SemaphoreWaitArray const & arr )
			{
				std::string s = "[";
				for ( size_t i = 0; i < arr.size(); ++i )
					s += ( i ? ",[" : "[" ) + std::to_string( arr[i].semaphore ? H( arr[i].semaphore ) : 0 ) + "," + mock::stages( arr[i].dstStageMask ) + "]";
				return s + "]";
			};
			W( "runBegin" ).i( "g", id ).b( "submit", op == "run" ).raw( "waits", waitJ( given ) ).end();
			SemaphoreWaitArray ret;
			try
			{
				if ( op == "run" )
				{
					auto & w = given;
					if ( o["one"].b() && w.size() == 1 ) ret = r->run( w[0], queue );
					else if ( w.empty() && !o["arr"].b() ) ret = r->run( queue );
					else ret = r->run( w, queue );
				}
				else
					r->record();
				W( "runEnd" ).i( "g", id ).b( "ok", true ).raw( "ret", waitJ( ret ) ).end();
			}
			catch ( std::exception & exc )
			{
				lastOk = false;
				W( "runEnd" ).i( "g", id ).b( "ok", false ).raw( "ret", "[]" ).str( "err", exc.what() ).end();
			}
		}
		else if ( op == "resetPipe" )
		{
			auto & p = *passes.at( id );
			auto kind = p.op["kind"].str();
			auto prog = program( o.at( "prog" ) );
			auto idx = o["index"].u();
			W( "resetPipe" ).i( "p", id ).i( "idx", idx ).end();
			if ( !p.run )
				return;
			if ( kind == "compute" ) static_cast< ComputePass * >( p.run )->resetPipeline( prog, idx );
			else if ( kind == "quad" ) static_cast< RenderQuad * >( p.run )->resetPipeline( prog, idx );
			else if ( kind == "mesh" ) static_cast< RenderMesh * >( p.run )->resetPipeline( prog, idx );
			W( "resetPiped" ).i( "p", id ).end();
		}
		else if ( op == "rerecord" ) { W( "rerecord" ).i( "p", id ).end(); if ( passes.at( id )->run ) passes.at( id )->run->reRecordCurrent(); W( "rerecorded" ).i( "p", id ).i( "made", passes.at( id )->run ? 1 : 0 ).end(); }
		else if ( op == "resetcb" ) { W( "resetcb" ).i( "p", id ).end(); passes.at( id )->run->resetCommandBuffer( o["index"].u() ); }
		else if ( op == "final" )
		{
			auto & g = *graphs.at( id );
			auto v = int( o.at( "view" ).i() );
			auto ls = g.getFinalLayoutState( views.at( v ), o["index"].u() );
			W( "final" ).i( "g", id ).i( "view", v ).str( "lay", mock::layout( ls.layout ) ).raw( "acc", mock::access( ls.state.access ) ).raw( "st", mock::stages( ls.state.pipelineStage ) ).end();
		}
		else if ( op == "finalbuf" )
		{
			auto & g = *graphs.at( id );
			auto b = int( o.at( "buf" ).i() );
			auto ls = g.getFinalAccessState( *buffers.at( b ) );
			W( "finalbuf" ).i( "g", id ).i( "buf", b ).raw( "acc", mock::access( ls.access ) ).raw( "st", mock::stages( ls.pipelineStage ) ).end();
		}
		else if ( op == "gputime" )
		{
			if ( o.has( "graph" ) )
			{
				auto g = int( o["graph"].i() );
				auto & t = runs.at( g )->getTimer();
				W( "gpuBegin" ).i( "g", g ).i( "p", 0 ).end();
				t.retrieveGpuTime();
				W( "gpuTime" ).i( "g", g ).i( "p", 0 ).i( "ns", mock::i32( uint64_t( t.getGpuTime().count() ) ) ).end();
			}
			else if ( passes.at( id )->run )
			{
				auto & t = passes.at( id )->run->getTimer();
				W( "gpuBegin" ).i( "g", passes.at( id )->op["graph"].i() ).i( "p", id ).end();
				t.retrieveGpuTime();
				W( "gpuTime" ).i( "g", passes.at( id )->op["graph"].i() ).i( "p", id ).i( "ns", mock::i32( uint64_t( t.getGpuTime().count() ) ) ).end();
			}
		}
		else if ( op == "transitions" )
		{
			W( "transitions" ).i( "g", id ).raw( "t", transJ( runs.at( id )->getTransitions() ) ).end();
			Walker w{ *this };
			runs.at( id )->getGraph()->accept( &w );
			W( "edgesEnd" ).i( "g", id ).end();
		}
		else if ( op == "attinfo" ) dumpAttach( *passes.at( id )->pass, id );
		else if ( op == "dot" )
		{
			dot::Config c{ o["colours"].b(), o["ids"].b(), o["groups"].b(), o["split"].b() };
			auto what = o["what"].str( "passes" );
			if ( o["single"].b() )
			{
				std::stringstream ss;
				if ( what == "passes" ) dot::displayPasses( ss, *runs.at( id ), c );
				else dot::displayTransitions( ss, *runs.at( id ), c );
				W( "dot" ).i( "g", id ).str( "what", what ).str( "key", "" ).str( "text", ss.str() ).end();
			}
			else
			{
				auto r = what == "passes" ? dot::displayPasses( *runs.at( id ), c ) : dot::displayTransitions( *runs.at( id ), c );
				for ( auto & x : r )
					W( "dot" ).i( "g", id ).str( "what", what ).str( "key", x.first ).str( "text", x.second.str() ).end();
			}
			W( "dotEnd" ).i( "g", id ).end();
		}
		else if ( op == "destroy" ) destroyRun( id );
		// ---- resource caches ------------------------------------------------
		else if ( op == "cache" ) { caches[id] = std::make_unique< ContextResourcesCache >( *handler, ctx( o ) ); W( "cache" ).i( "id", id ).i( "ctx", o["ctx"].i() ).end(); }
		else if ( op == "dropcache" ) { W( "dropcache" ).i( "id", id ).end(); caches[id].reset(); W( "droppedcache" ).i( "id", id ).end(); }
		else if ( op == "cimage" ) { W( "cop" ).str( "k", "cimage" ).end(); auto h = caches.at( id )->createImage( images.at( int( o.at( "img" ).i() ) ) ); W( "cimage" ).i( "c", id ).i( "img", o["img"].i() ).i( "h", H( h ) ).end(); }
		else if ( op == "cview" ) { W( "cop" ).str( "k", "cview" ).end(); auto h = caches.at( id )->createImageView( views.at( int( o.at( "view" ).i() ) ) ); W( "cview" ).i( "c", id ).i( "view", o["view"].i() ).i( "h", H( h ) ).end(); }
		else if ( op == "dimage" ) { W( "cop" ).str( "k", "dimage" ).end(); bool r = caches.at( id )->destroyImage( images.at( int( o.at( "img" ).i() ) ) ); W( "dimage" ).i( "c", id ).i( "img", o["img"].i() ).b( "r", r ).end(); }
		else if ( op == "dview" ) { W( "cop" ).str( "k", "dview" ).end(); bool r = caches.at( id )->destroyImageView( views.at( int( o.at( "view" ).i() ) ) ); W( "dview" ).i( "c", id ).i( "view", o["view"].i() ).b( "r", r ).end(); }
		else if ( op == "csampler" ) { W( "cop" ).str( "k", "csampler" ).end(); auto h = caches.at( id )->createSampler( sampler( o.at( "d" ) ) ); W( "csampler" ).i( "c", id ).i( "h", H( h ) ).end(); }
		else if ( op == "cquad" )
		{
			W( "cop" ).str( "k", "cquad" ).end();
			auto & vb = caches.at( id )->createQuadTriVertexBuffer( o["tex"].b(), Texcoord{ o["u"].b(), o["v"].b() } );
			W( "cquad" ).i( "c", id ).i( "h", H( vb.buffer.buffer() ) ).i( "mem", H( vb.memory ) )
				.raw( "attrs", mock::arr( vb.inputState.pVertexAttributeDescriptions, vb.inputState.vertexAttributeDescriptionCount, []( VkVertexInputAttributeDescription const & b ){ return mock::ints( { b.location, b.binding, b.format, b.offset } ); } ) )
				.raw( "binds", mock::arr( vb.inputState.pVertexBindingDescriptions, vb.inputState.vertexBindingDescriptionCount, []( VkVertexInputBindingDescription const & b ){ return mock::ints( { b.binding, b.stride, b.inputRate } ); } ) ).end();
		}
		else if ( op == "mcache" ) { mcaches[id] = std::make_unique< ResourcesCache >( *handler ); }
		else if ( op == "dropmcache" ) { mcaches.erase( id ); }
		else if ( op == "mimage" ) { W( "cop" ).str( "k", "mimage" ).end(); auto h = mcaches.at( id )->createImage( ctx( o ), images.at( int( o.at( "img" ).i() ) ) ); W( "cimage" ).i( "c", 1000 * id + o["ctx"].i() ).i( "img", o["img"].i() ).i( "h", H( h ) ).end(); }
		else if ( op == "mview" ) { W( "cop" ).str( "k", "mview" ).end(); auto h = mcaches.at( id )->createImageView( ctx( o ), views.at( int( o.at( "view" ).i() ) ) ); W( "cview" ).i( "c", 1000 * id + o["ctx"].i() ).i( "view", o["view"].i() ).i( "h", H( h ) ).end(); }
		// ---- memory types ---------------------------------------------------
		else if ( op == "memtype" )
		{
			auto & c = ctx( o );
			int64_t r = -1;
			try { r = int64_t( c.deduceMemoryType( u32( o["mask"] ), o["req"].u() ) ); }
			catch ( std::exception & ) {}
			W( "memtype" ).i( "ctx", o["ctx"].i() ).i( "mask", mock::i32( u32( o["mask"] ) ) ).i( "req", o["req"].i() ).i( "r", r ).end();
		}
		// ---- object registry ------------------------------------------------
		else if ( op == "reg" || op == "rename" || op == "unreg" )
		{
			auto & c = ctx( o );
			auto t = o["t"].str( "image" );
			auto h = uint64_t( 5000000 + o.at( "h" ).i() );
			auto name = o["name"].str();
			W( op.c_str() ).i( "ctx", o["ctx"].i() ).i( "h", int64_t( h ) ).str( "t", t ).str( "name", name ).end();
#define REG( N, T ) if ( t == N ) { if ( op == "reg" ) GraphContext::stRegisterObject( c, name, T( h ) ); else if ( op == "rename" ) GraphContext::stRegisterObjectName( c, name, T( h ) ); else GraphContext::stUnregisterObject( c, T( h ) ); }
			REG( "image", VkImage )
			REG( "buffer", VkBuffer )
			REG( "sampler", VkSampler )
			REG( "fence", VkFence )
			REG( "pipeline", VkPipeline )
			REG( "rp", VkRenderPass )
			W( "regDone" ).end();
		}
		// ---- layout tracker -------------------------------------------------
		else if ( op == "trk" ) { trackers[id] = std::make_unique< LayerLayoutStatesHandler >(); W( "trk" ).i( "id", id ).end(); }
		else if ( op == "tset" )
		{
			LayoutState ls{ parseLayout( o.at( "lay" ).str() ), { parseAccess( o["acc"] ), parseStages( o["st"] ) } };
			if ( o.has( "view" ) )
				trackers.at( id )->setLayoutState( views.at( int( o["view"].i() ) ), ls );
			else
				trackers.at( id )->setLayoutState( images.at( int( o.at( "img" ).i() ) ), VkImageViewType( o["vt"].i() ), parseRange( o.at( "asp" ).str(), o.at( "r" ) ), ls );
			W( "tset" ).i( "id", id ).end();
		}
		else if ( op == "tget" )
		{
			LayoutState ls = o.has( "view" )
				? trackers.at( id )->getLayoutState( views.at( int( o["view"].i() ) ) )
				: trackers.at( id )->getLayoutState( images.at( int( o.at( "img" ).i() ) ), VkImageViewType( o["vt"].i() ), parseRange( o.at( "asp" ).str(), o.at( "r" ) ) );
			W( "tget" ).i( "id", id ).raw( "s", stateJ( ls ) ).end();
		}
		else if ( op == "tadd" ) { trackers.at( id )->addStates( *trackers.at( int( o.at( "from" ).i() ) ) ); W( "tadd" ).i( "id", id ).end(); }
		else if ( op == "tcopy" ) { trackers[id] = std::make_unique< LayerLayoutStatesHandler >( trackers.at( int( o.at( "from" ).i() ) )->images ); W( "tcopy" ).i( "id", id ).end(); }
		// ---- record contexts on their own -----------------------------------
		else if ( op.substr( 0, 2 ) == "rc" ) rcOp( op, id, o );
		// ---- signals --------------------------------------------------------
		else if ( o["v0"].b() ? sigOp( sig0, op, id, o ) : sigOp( sig1, op, id, o ) ) {}
		// ---- standalone timers ----------------------------------------------
		else if ( op == "tpool" ) { pools[id] = createQueryPool( ctx( o ), "pool", o["n"].u( 8 ) ); timerOff[id] = 0u; W( "tpool" ).i( "id", id ).i( "h", H( pools[id] ) ).end(); }
		else if ( op == "timer" )
		{
			auto & c = ctx( o );
			if ( o.has( "pool" ) )
				timers[id] = std::make_unique< FramePassTimer >( c, "t" + std::to_string( id ), TimerScope::ePass, pools.at( int( o["pool"].i() ) ), timerOff[int( o["pool"].i() )] );
			else
				timers[id] = std::make_unique< FramePassTimer >( c, "t" + std::to_string( id ), TimerScope::eUpdate );
			W( "timer" ).i( "id", id ).i( "ctx", o["ctx"].i() ).end();
		}
		else if ( op == "ucb" )
		{
			VkCommandBufferBeginInfo bi{};
			userCbs[id] = VkCommandBuffer( mock::newHandle() );
			W( "ucb" ).i( "id", id ).i( "h", H( userCbs[id] ) ).end();
		}
		else if ( op == "tframe" )
		{
			// One hand-made frame: begin, timed section, end, submit.
			auto & c = ctx( o );
			auto cb = userCbs.at( int( o.at( "cb" ).i() ) );
			VkCommandBufferBeginInfo bi{};
			c.vkBeginCommandBuffer( cb, &bi );
			for ( auto & t : o["timers"].a )
			{
				auto & tm = *timers.at( int( t.i() ) );
				W( "tbegin" ).i( "id", t.i() ).end();
				{
					auto blk = tm.start();
					tm.beginPass( cb );
					tm.endPass( cb );
				}
				W( "tend" ).i( "id", t.i() ).end();
				if ( o["notify"].b( true ) )
				{
					tm.notifyPassRender();
					W( "tnotify" ).i( "id", t.i() ).end();
				}
			}
			c.vkEndCommandBuffer( cb );
			if ( o["submit"].b( true ) )
			{
				VkSubmitInfo si{};
				si.commandBufferCount = 1;
				si.pCommandBuffers = &cb;
				c.vkQueueSubmit( queue, 1u, &si, VkFence{} );
			}
		}
		else if ( op == "tread" )
		{
			auto & tm = *timers.at( id );
			W( "gpuBegin" ).i( "g", -1 ).i( "p", id ).end();
			tm.retrieveGpuTime();
			W( "gpuTime" ).i( "g", -1 ).i( "p", id ).i( "ns", mock::i32( uint64_t( tm.getGpuTime().count() ) ) ).end();
		}
		else if ( op == "treset" ) { timers.at( id )->reset(); W( "treset" ).i( "id", id ).end(); }
		else if ( op == "tdel" ) { W( "tdel" ).i( "id", id ).end(); timers.at( id ).reset(); }
		else if ( op == "freepool" )
		{
			auto & c = ctx( o );
			crgUnregisterObject( c, pools.at( id ) );
			c.vkDestroyQueryPool( c.device, pools.at( id ), c.allocator );
		}
		else if ( op == "threads" ) threads( o );
		else if ( op == "note" ) W( "note" ).str( "s", o["s"].str() ).i( "v", o["v"].i() ).end();
		else
			throw std::runtime_error( "scenario: op " + op );
	}
}

int main( int argc, char ** argv )
{
	if ( argc < 3 )
	{
		std::fprintf( stderr, "usage: runner scenarios.ndjson trace.ndjson\n" );
		return 2;
	}
	// (nothing of the harness itself is initialised by the first thread which needs it)
	parseLayout( mock::layout( VK_IMAGE_LAYOUT_UNDEFINED ) );
	parseStages( J{} );
	parseAccess( J{} );
	mock::warm();
	auto nop = []( std::string const &, bool ){};
	Logger::setTraceCallback( nop );
	Logger::setDebugCallback( nop );
	Logger::setInfoCallback( nop );
	Logger::setWarningCallback( nop );
	Logger::setErrorCallback( []( std::string const & msg, bool ){ if ( mock::thr::tid < 0 ) logged.push_back( msg ); } );
	mock::out = std::fopen( argv[2], "w" );
	std::ifstream in( argv[1] );
	std::string line;
	mock::nextHandle = 1000;
	while ( std::getline( in, line ) )
	{
		if ( line.empty() )
			continue;
		J sc;
		try { sc = JParser( line ).parse(); }
		catch ( std::exception & e ) { std::fprintf( stderr, "%s\n", e.what() ); return 2; }
		W( "scen" ).i( "s", sc["s"].i() ).str( "name", sc["name"].str() ).end();
		std::fflush( mock::out );
		alarm( 20 );
		{
			mock::failIn = -1;
			mock::imageMemBits = ~0u;
			mock::bufferMemBits = ~0u;
			mock::setReuse( sc["reuse"].b( false ) );
			Scenario s;
			if ( sc.has( "with" ) )
			{
				// Another scenario at the same time, which shares the handler and the (first) context.
				Scenario other;
				other.handler = s.handler;
				auto const & first = sc["ops"].a;
				auto const & second = sc["with"].a;
				s.exec( first.at( 0 ) );
				other.contexts = s.contexts;
				auto all = []( Scenario & x, std::vector< J > const & ops )
				{
					mock::thr::Lib l;
					for ( size_t i = 1; i < ops.size(); ++i )
						x.exec( ops[i] );
				};
				std::vector< std::array< int, 2 > > pre;
				for ( auto & q : sc["pre"].a )
					pre.push_back( { int( q[0].i() ), int( q[1].i() ) } );
				auto before = mock::thr::races();
				W( "threads" ).i( "n", 2 ).end();
				auto points = mock::thr::run( { [&](){ all( s, first ); }, [&](){ all( other, second ); } }, pre );
				W( "joined" ).i( "races", mock::thr::races() - before ).raw( "points", mock::ints( points ) ).end();
				mock::thr::tag = 1;
				other.teardown();
				mock::thr::tag = 0;
				s.teardown();
				mock::thr::tag = -1;
			}
			else
			{
				for ( auto & o : sc["ops"].a )
					s.exec( o );
				s.teardown();
			}
		}
		alarm( 0 );
		W( "endscen" ).i( "s", sc["s"].i() ).end();
	}
	W( "eof" ).end();
	std::fclose( mock::out );
	return 0;
}
